"""C02 readout calibration matrices are the measured conditional frequencies"""
from contracts.common import *

reg = Registry('C02')
reg.assumptions += ['floats treated as reals', 'Result.get_counts(name or index) returns the stored counts (the first experiment of a repeated name)']
M = IG + 'mitigation.measurement.fitters'


def group_slices(sizes):
    """(start, end) of each group's bits inside a label; group 0 is rightmost"""
    n = sum(sizes)
    out, end = [], n
    for s in sizes:
        out.append((end - s, end))
        end -= s
    return out


def prep_labels(sizes):
    """the labels of the tensored calibration (specification)"""
    out = []
    for big in bitstrings(max(sizes)):
        lab = ''
        for s in sizes:
            lab = big[:s] + lab
        out.append(lab)
    return out


def spec_matrices(sizes, data, order):
    """data: list of (prepared label, counts)"""
    mats = []
    for (a, b), labs in zip(group_slices(sizes), order):
        num = {(m, p): 0 for m in labs for p in labs}
        for lab, cnt in data:
            for meas, c in cnt.items():
                num[meas[a:b], lab[a:b]] = num[meas[a:b], lab[a:b]] + c
        mats.append((labs, num))
    return mats


def check_matrices(v, tag, mats, spec):
    v.ensure(tag + ': one matrix per group', len(mats) == len(spec))
    for mat, (labs, num) in zip(mats, spec):
        d = len(labs)
        v.ensure(tag + ': square, one row and column per label', np.shape(mat) == (d, d))
        for j, p in enumerate(labs):
            tot = sum(num[m, p] for m in labs)
            for i, m in enumerate(labs):
                # entry * column total == counts, entry 0 when nothing was prepared there
                ok = and_(implies(tot > 0, seq(mat[i][j] * tot, num[m, p])),
                          implies(seq(tot, 0), seq(mat[i][j], 0))) if v.symbolic else \
                    (abs(mat[i][j] - (num[m, p] / tot if tot else 0)) < 1e-9)
                v.ensure(tag + ': entry = counts(measured|prepared) / shots(prepared)', ok,
                         lambda: 'measured %s prepared %s: %s' % (m, p, short(mat)))
                v.ensure(tag + ': entry is a frequency', and_(mat[i][j] >= 0, mat[i][j] <= 1 + (0 if v.symbolic else 1e-9)))
            col = sum(mat[i][j] for i in range(d))
            v.ensure(tag + ': column sums to one', implies(tot > 0, seq(col, 1)))


from pyvc.core import short


@reg.contract(M + ':TensoredMeasFitter._build_calibration_matrices', mode='S',
              sizes=[{'sizes': p} for p in ([1], [2], [1, 1])] + [{'sizes': p, '_t': 1} for p in ([2, 1], [1, 2])],
              rsizes=[{'sizes': p} for p in ([1], [2], [1, 1], [2, 1], [1, 2], [3, 1], [1, 1, 2], [2, 3])],
              mods=[M], samples=4)
def tensored_matrix(v, sizes):
    """matrices of TensoredMeasFitter for arbitrary counts in one result"""
    from qiskit.ignis.mitigation.measurement import fitters as m
    n = sum(sizes)
    prefix = v.choice('prefix', ['', 'mcal', 'run 1 (a+b).', '*'])
    data = []
    for k, lab in enumerate(prep_labels(sizes)):
        data.append((lab, counts_input(v, 'c%d' % k, n, positive=False)))
    named = [(prefix + 'cal_' + l, c if v.symbolic else drop_zeros(c)) for l, c in data]
    named.insert(v.choice('pos', [0, len(named)]), ('some_other_circuit', {'0' * n: 7}))
    pattern = [list(range(sum(sizes[:i]), sum(sizes[:i + 1]))) for i in range(len(sizes))]
    fit = m.TensoredMeasFitter(FakeResult(named), mit_pattern=pattern, circlabel=prefix)
    labs = [bitstrings(s) for s in sizes]
    v.ensure('substate labels', [list(x) for x in fit.substate_labels_list] == labs)
    check_matrices(v, 'tensored', fit.cal_matrices, spec_matrices(sizes, data, labs))


@reg.contract(M + ':CompleteMeasFitter', mode='S', sizes=[{'n': 1}, {'n': 2}], rsizes=[{'n': n} for n in (1, 2, 3)],
              mods=[M], samples=6)
def complete_matrix(v, n):
    """matrix of CompleteMeasFitter, any label order; accumulation over several
    results equals one result with the summed counts, in any order of adding"""
    from qiskit.ignis.mitigation.measurement import fitters as m
    labels = bitstrings(n)
    if n <= 2:
        order = list(v.choice('order', [labels, labels[::-1]] if n == 1 or v.symbolic else
                              [list(p) for p in itertools.permutations(labels)]))
    else:
        order = labels
    d1 = [(l, counts_input(v, 'a%d' % k, n, positive=False)) for k, l in enumerate(labels)]
    how = v.choice('how', ['list', 'add', 'single', 'repeat', 'again'])
    data = list(d1)
    r1 = FakeResult([('cal_' + l, c) for l, c in d1])
    if how == 'repeat':
        # one result in which a calibration circuit was run twice
        data.append((labels[-1], counts_input(v, 'b', n, positive=False)))
        fit = m.CompleteMeasFitter(FakeResult([('cal_' + l, c) for l, c in data]), list(order))
    elif how == 'single':
        fit = m.CompleteMeasFitter(r1, list(order))
    else:
        # second result repeats only the first calibration circuit
        c2 = counts_input(v, 'b', n, positive=False)
        data.append((labels[0], c2))
        r2 = FakeResult([('cal_' + labels[0], c2)])
        if how == 'list':
            fit = m.CompleteMeasFitter([r1, r2], list(order))
        elif how == 'again':
            # the same result added twice counts twice
            fit = m.CompleteMeasFitter(r1, list(order))
            fit.add_data(r2)
            fit.add_data(r2)
            data.append((labels[0], c2))
        else:
            fit = m.CompleteMeasFitter(None, list(order))
            fit.add_data(r2, rebuild_cal_matrix=False)
            fit.add_data([r1])
    v.ensure('labels kept', list(fit.state_labels) == list(order))
    check_matrices(v, 'complete', [fit.cal_matrix], spec_matrices([n], data, [order]))


@reg.contract(M + ':CompleteMeasFitter.subset_fitter', mode='S',
              sizes=[{'n': 2, 'k': 1}, {'n': 2, 'k': 2}, {'n': 3, 'k': 1}, {'n': 3, 'k': 2}],
              rsizes=[{'n': 2, 'k': 1}, {'n': 2, 'k': 2}, {'n': 3, 'k': 1}, {'n': 3, 'k': 2}, {'n': 3, 'k': 3},
                      {'n': 4, 'k': 2}],
              mods=[M], samples=6)
def subset_matrix(v, n, k):
    """subset_fitter: the calibration of the selected qubits, averaged over what
    was prepared on the others and summed over what was measured on them; bit i
    (from the right) of the new labels is the i-th selected qubit"""
    from qiskit.ignis.mitigation.measurement import fitters as m
    labels = bitstrings(n)
    qubits = [4, 0, 2, 7][:n]
    fit = m.CompleteMeasFitter(None, list(labels), qubit_list=qubits)
    mat = v.array('m', (2 ** n, 2 ** n), lo=0, hi=1)
    given = mat.copy()
    fit.cal_matrix = given
    given[0, 0] = 7
    sub = list(v.choice('sub', [list(p) for p in itertools.permutations(qubits, k)]))
    new = fit.subset_fitter(sub)
    sl = bitstrings(k)
    v.ensure('labels of the subset', list(new.state_labels) == sl)
    v.ensure('qubits of the subset', list(new.qubit_list) == sub)

    def reduce(lab):
        return ''.join(lab[n - 1 - qubits.index(q)] for q in reversed(sub))
    got = new.cal_matrix
    v.ensure('shape', np.shape(got) == (2 ** k, 2 ** k))
    for i, mi in enumerate(sl):
        for j, pj in enumerate(sl):
            s = 0
            for a, la in enumerate(labels):
                for b, lb in enumerate(labels):
                    if reduce(la) == mi and reduce(lb) == pj:
                        s = s + mat[a, b]
            v.ensure_eq('entry is the marginal of the full matrix', got[i][j], s / 2 ** (n - k))
    v.ensure('original matrix untouched', v.eq(fit.cal_matrix, mat))


@reg.contract(M + ':TensoredMeasFitter.readout_fidelity', mode='S', sizes=[{'n': 1}, {'n': 2}],
              rsizes=[{'n': 1}, {'n': 2}, {'n': 3}], mods=[M], samples=8)
def fidelity(v, n):
    """readout_fidelity: mean over the groups of labels of the mean probability
    that a state prepared in the group is measured in the group"""
    from qiskit.ignis.mitigation.measurement import fitters as m
    labels = bitstrings(n)
    fit = m.TensoredMeasFitter(None, [[0], list(range(1, n + 1))])
    mat = v.array('m', (2 ** n, 2 ** n), lo=0, hi=1)
    m0 = v.array('z', (2, 2), lo=0, hi=1)
    fit.cal_matrices = [m0, mat]
    groups = v.choice('groups', [None, [labels], [labels[:1], labels[1:]], [[labels[-1]]],
                                 [labels[::2], labels[1::2]]])
    got = fit.readout_fidelity(1, groups)
    gs = groups or [[l] for l in labels]
    tot = 0
    for g in gs:
        s = 0
        for a in g:
            for b in g:
                s = s + mat[labels.index(a), labels.index(b)]
        tot = tot + s / len(g)
    v.ensure_eq('fidelity is the mean of the group assignment probabilities', got, tot / len(gs))
    v.ensure_eq('first group by default', fit.readout_fidelity(), (m0[0, 0] + m0[1, 1]) / 2)
    comp = m.CompleteMeasFitter(None, labels)
    comp.cal_matrix = mat
    v.ensure_eq('complete fitter: same definition', comp.readout_fidelity(groups), tot / len(gs))


@reg.contract(M + ':CompleteMeasFitter, TensoredMeasFitter', mode='B', samples=1)
def rejects(v):
    """uninitialised or inconsistent requests are rejected"""
    from qiskit import QiskitError
    from qiskit.ignis.mitigation.measurement import CompleteMeasFitter, TensoredMeasFitter
    fit = CompleteMeasFitter(None, bitstrings(2), qubit_list=[3, 5])
    v.ensure_raises('fidelity without data', QiskitError, fit.readout_fidelity)
    v.ensure_raises('subset without data', QiskitError, fit.subset_fitter, [3])
    fit.cal_matrix = np.eye(4)
    v.ensure_raises('subset of unknown qubit', QiskitError, fit.subset_fitter, [4])
    v.ensure_raises('subset not given', QiskitError, fit.subset_fitter)
    v.ensure_raises('label lists must match the pattern', ValueError, TensoredMeasFitter, None, [[0], [1]],
                    [['0', '1']])


# ------------------------------------------------------- any number of results
from contracts import ulib as UL


class Label(UL.Obj):
    """prepared or measured state: a string whose groups of bits are looked up"""

    def __getitem__(self, k):
        if not isinstance(k, slice) or k.step is not None:
            raise UL.Unsupported('part of a label')
        return Part(self.t, k.start or 0, k.stop)


class Part:
    def __init__(self, t, a, b):
        self.t, self.a, self.b = t, a, b


class Index:
    """the row of every sub-label"""

    def __getitem__(self, p):
        if not isinstance(p, Part):
            raise UL.Unsupported('index of something else')
        u = UL.Engine.of(UL.core.cur())
        return UL.Sym(u.fun('row', UL.STRING, UL.I, UL.I, UL.I)(p.t, UL.z3.IntVal(p.a), UL.z3.IntVal(p.b)))


CELL = UL.z3.Datatype('Cell')
CELL.declare('cell', ('r', UL.I), ('c', UL.I))
CELL = CELL.create()


class Mat:
    """square matrix whose cells a loop adds to"""

    def __init__(self, d):
        self.d, self.cells = d, UL.State('dict')

    def key(self, r, c):
        return UL.Obj(CELL.cell(UL.term(r), UL.term(c)))

    def __getitem__(self, r):
        if isinstance(r, tuple):
            return self.cells.get(self.key(*r), 0)
        return MatRow(self, r)

    def __setitem__(self, rc, x):
        if not isinstance(rc, tuple):
            raise UL.Unsupported('row assigned')
        self.cells[self.key(*rc)] = x

    def fixed(self):
        return np.array([[self.cells.get(self.key(UL.Sym(UL.z3.IntVal(r)), UL.Sym(UL.z3.IntVal(c))), 0) for c in range(self.d)]
                         for r in range(self.d)], dtype=object)


class MatRow:
    def __init__(self, m, r):
        self.m, self.r = m, r

    def __getitem__(self, c):
        return self.m[self.r, c]

    def __setitem__(self, c, x):
        self.m[self.r, c] = x


class Sums:
    def __init__(self, x):
        self.x = x

    def __ne__(self, o):
        return [UL.not_(UL.seq(t, o)) for t in self.x]


class NpMat:
    """numpy calls of _build_calibration_matrices on such matrices"""

    def zeros(self, shape, *a, **k):
        return Mat(shape[0])

    def sum(self, m, axis=None):
        if axis != 0:
            raise UL.Unsupported('sum')
        f = m.fixed()
        return Sums([sum(f[r, c] for r in range(m.d)) for c in range(m.d)])

    def zeros_like(self, m):
        return m

    def divide(self, m, s, out=None, where=None):
        f = m.fixed()
        res = np.zeros((m.d, m.d), dtype=object)
        for c in range(m.d):
            den = UL.ite(where[c], s.x[c], 1)
            for r in range(m.d):
                res[r, c] = UL.ite(where[c], f[r, c] / den, 0)
        return res

    def __getattr__(self, name):
        raise UL.Unsupported('np.' + name)


class Found:
    def __init__(self, lab):
        self.lab = lab

    def group(self, k):
        return self.lab


class Re:
    """contract of re.search: the label of a calibration experiment, None for others"""

    def search(self, pat, name):
        u = UL.Engine.of(UL.core.cur())
        if bool(UL.SymBool(u.fun('iscal', UL.STRING, UL.B)(name.t))):
            return Found(Label(u.fun('label', UL.STRING, UL.STRING)(name.t)))
        return None

    def escape(self, pat):
        return pat


@reg.contract(M + ':TensoredMeasFitter._build_calibration_matrices (any number of results)',
              sizes=[{'sizes': s} for s in ([1], [1, 1])] + [{'sizes': s, '_t': 1} for s in ([2], [2, 1])], **UL.U)
def any_results(v, sizes):
    """any number of results with any number of experiments, calibrations or others, each with any
    number of outcomes: entry * shots prepared = shots measured in the row state, over all of them"""
    u = UL.Engine.of(v)
    nex, nout = u.fun('nexp', UL.I, UL.I), u.fun('nout', UL.I, UL.I, UL.I)
    name = u.fun('name', UL.I, UL.I, UL.STRING)

    def cnts(i, j):
        d = UL.counts(v, 'cnt', UL.Sym(nout(i, j)), (i, j))
        d.mkkey = Label
        return d

    def experiment(i, j):
        e = UL.Bag()
        e.header = UL.Bag()
        e.header.name = UL.Str(name(i, j))
        return e

    def experiments(i):
        return UL.Seq(UL.Sym(nex(i)), lambda j: experiment(i, j), ('experiments', (i,)))

    class Res:
        def __init__(self, i):
            self.i = i

        @property
        def results(self):
            return experiments(self.i)

        def get_counts(self, k):
            if not isinstance(k, UL.Sym):
                raise UL.Unsupported('counts by name')
            return cnts(self.i, k.t)
    f = UL.Bag()
    f._result_list = UL.Seq(v.int('n', 0), Res, ('results', ()))
    f._qubit_list_sizes, f.nqubits, f._circlabel = list(sizes), sum(sizes), ''
    f._indices_list = [Index() for _ in sizes]
    UL.twin(M, 'TensoredMeasFitter._build_calibration_matrices', {'np': NpMat(), 're': Re()})(f)
    row = u.fun('row', UL.STRING, UL.I, UL.I, UL.I)
    iscal, lab = u.fun('iscal', UL.STRING, UL.B), u.fun('label', UL.STRING, UL.STRING)
    for (a, b), mat in zip(group_slices(sizes), f._cal_matrices):
        A, Bz = UL.z3.IntVal(a), UL.z3.IntVal(b)

        def shots(p, m):
            """shots prepared in p and measured in m"""
            def per_exp(i, j):
                nm = name(i, j)
                ok = row(lab(nm), A, Bz) == p
                its = cnts(i, j).items()
                return UL.ite(UL.SymBool(iscal(nm)), u.total(its.map(lambda kv: UL.ite(UL.SymBool(
                    UL.z3.And(ok, row(kv[0].t, A, Bz) == m)), kv[1], 0))), 0)
            idx = UL.Seq(f._result_list.n, UL.Sym, ('results', ()))
            return u.total(idx.map(lambda i: u.total(
                UL.Seq(UL.Sym(nex(i.t)), UL.Sym, ('experiments', (i.t,))).map(lambda j: per_exp(i.t, j.t)))))
        D = 2 ** (b - a)
        v.ensure('one matrix per group', np.shape(mat) == (D, D))
        for p in range(D):
            col = [shots(p, m) for m in range(D)]
            tot = sum(col)
            for m in range(D):
                v.ensure('entry = shots(measured, prepared) / shots(prepared)',
                         implies(UL.not_(UL.seq(tot, 0)), UL.seq(mat[m, p] * tot, col[m])))
                v.ensure('no data: zero', implies(UL.seq(tot, 0), UL.seq(mat[m, p], 0)))
