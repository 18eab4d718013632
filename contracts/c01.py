"""C01 readout calibration circuits prepare and measure what their labels say"""
from contracts.common import *

reg = Registry('C01')
reg.assumptions += ['QuantumCircuit is an append-only list of operations applied in order; x flips a '
                    'qubit, measure copies it to a classical bit (qiskit-terra)']
M = IG + 'mitigation.measurement.circuits'
E = IG + 'mitigation.expval.circuits'

PATTERNS = [[1], [2], [3], [1, 1], [2, 1], [1, 2], [3, 1], [2, 2]]


def qubit_values(v, sizes):
    """distinct, otherwise arbitrary qubit indices"""
    q = v.distinct('q', sum(sizes), conc_hi=5)
    out, k = [], 0
    for s in sizes:
        out.append(q[k:k + s])
        k += s
    return q, out


def spec_labels(v, clause, labels, sizes):
    n = sum(sizes)
    v.ensure(clause + ': one label per state of the largest group, all distinct',
             len(set(labels)) == len(labels) == 2 ** max(sizes) and all(len(x) == n for x in labels),
             lambda: repr(labels))
    end = n
    for s in sizes:
        subs = set(l[end - s:end] for l in labels)
        v.ensure(clause + ': every substate of every group appears', subs == set(bitstrings(s)),
                 lambda: '%r group of size %d' % (labels, s))
        end -= s


def circuit_clauses(v, circ, label, q, tag):
    """the i-th listed qubit is |label bit i from the right> and is read into
    classical bit i; every other qubit stays in |0>"""
    n = len(q)
    if v.symbolic:
        xs, ms = flips_and_measures(circ)
        for i in range(n):
            par = False
            for x in xs:
                par = (seq(x, q[i]) ^ par) if is_sym(seq(x, q[i])) else \
                    (par ^ SB(seq(x, q[i])) if is_sym(par) else bool(par) ^ bool(seq(x, q[i])))
            want = label[n - 1 - i] == '1'
            v.ensure(tag + ': listed qubit prepared in its label bit', par if want else not_(par))
        for x in xs:
            v.ensure(tag + ': no other qubit is flipped', or_(*[seq(x, qi) for qi in q]))
        v.ensure(tag + ': each listed qubit measured once', len(ms) == n)
        for i in range(n):
            v.ensure(tag + ': listed qubit i measured into classical bit i',
                     or_(*[and_(seq(a, q[i]), seq(c, i)) for a, c in ms]))
    else:
        dist = distribution(circ)
        psi = statevector(circ)
        k = int(np.argmax(np.abs(psi)))
        v.ensure(tag + ': prepares a basis state', abs(abs(psi[k]) - 1) < 1e-9)
        want = sum(1 << q[i] for i in range(n) if label[n - 1 - i] == '1')
        v.ensure(tag + ': listed qubits prepared in their label bits, others untouched', k == want,
                 lambda: 'label %s prepared %s' % (label, bin(k)))
        mm = sorted(measure_map(circ))
        v.ensure(tag + ': listed qubit i measured into classical bit i',
                 mm == sorted((q[i], i) for i in range(n)), lambda: repr(mm))


def SB(x):
    return core.SymBool(core.boolterm(x))


@reg.contract(M + ':tensored_meas_cal', mode='S', sizes=[{'sizes': p} for p in PATTERNS],
              rsizes=[{'sizes': p} for p in PATTERNS + [[2, 3], [1, 1, 2], [1, 3, 2]]], mods=[M], extra=REC, samples=4)
def tensored_circuits(v, sizes):
    """tensored_meas_cal(pattern) for arbitrary distinct qubit indices"""
    from qiskit.ignis.mitigation.measurement import circuits as m
    q, pattern = qubit_values(v, sizes)
    prefix = v.choice('prefix', ['', 'mcal', 'a_b'])
    with_regs = v.choice('regs', ['none', 'int', 'given'])
    kw = {}
    if with_regs != 'none':
        size = v.int('extra', 0, 3)
        top = 0
        for x in q:
            top = ite(x > top, x, top) if v.symbolic else max(x, top)
        nq = top + 1 + size
        if with_regs == 'int' and not v.symbolic:
            kw = {'qr': int(nq), 'cr': len(q) + int(size)}
        else:
            QR = m.QuantumRegister
            CR = m.ClassicalRegister
            kw = {'qr': QR(nq, 'qq'), 'cr': CR(len(q) + (0 if v.symbolic else size), 'cc')}
    circs, pat = m.tensored_meas_cal(mit_pattern=pattern, circlabel=prefix, **kw)
    v.ensure('the pattern is returned with the circuits', [list(p) for p in pat] == [list(p) for p in pattern]
             if not v.symbolic else v.eq([list(p) for p in pat], [list(p) for p in pattern]))
    labels = []
    for c in circs:
        v.ensure('circuit name is prefix + cal_ + label', c.name.startswith(prefix + 'cal_'))
        labels.append(c.name[len(prefix) + 4:])
    spec_labels(v, 'labels', labels, sizes)
    for c, l in zip(circs, labels):
        if not all(ch in '01' for ch in l):
            continue
        circuit_clauses(v, c, l, q, 'circuit')


@reg.contract(M + ':complete_meas_cal', mode='S', sizes=[{'n': n} for n in (1, 2, 3)],
              rsizes=[{'n': n} for n in (1, 2, 3, 4)], mods=[M], extra=REC, samples=5)
def complete_circuits(v, n):
    """complete_meas_cal(qubit_list): labels are all basis states in the order of
    the circuits"""
    from qiskit.ignis.mitigation.measurement import circuits as m
    q, _ = qubit_values(v, [n])
    prefix = v.choice('prefix', ['', 'mcal'])
    circs, labels = m.complete_meas_cal(qubit_list=list(q), circlabel=prefix)
    v.ensure('labels are all basis states in increasing order', list(labels) == bitstrings(n),
             lambda: repr(labels))
    v.ensure('circuit k carries label k', [c.name for c in circs] == [prefix + 'cal_' + l for l in bitstrings(n)],
             lambda: repr([c.name for c in circs]))
    for c, l in zip(circs, bitstrings(n)):
        circuit_clauses(v, c, l, q, 'circuit')


@reg.contract(M + ':complete_meas_cal, tensored_meas_cal', mode='B', sizes=[{'n': n} for n in (1, 2, 3, 9)], samples=2)
def whole_register(v, n):
    """without a qubit list the whole register is calibrated; nothing given is rejected"""
    from qiskit import QiskitError, QuantumRegister, ClassicalRegister
    from qiskit.ignis.mitigation.measurement import complete_meas_cal, tensored_meas_cal
    form = v.choice('form', ['reg', 'int'])
    qr = QuantumRegister(n) if form == 'reg' else n
    circs, labels = complete_meas_cal(qr=qr)
    v.ensure('labels are all basis states', list(labels) == bitstrings(n))
    some = range(2 ** n) if n < 5 else [0, 1, 2 ** n - 1] + [v.int('circuit%d' % i, 0, 2 ** n - 1) for i in range(20)]
    for k in some:
        circuit_clauses(v, circs[k], labels[k], list(range(n)), 'complete')
    circs, pat = tensored_meas_cal(qr=QuantumRegister(n))
    v.ensure('tensored without pattern: one group of all qubits', [list(p) for p in pat] == [list(range(n))])
    v.ensure('one circuit per basis state', len(circs) == 2 ** n)
    for k in some:
        c, l = circs[k], bitstrings(n)[k]
        v.ensure('name', c.name == 'cal_' + l)
        circuit_clauses(v, c, l, list(range(n)), 'tensored')
    v.ensure_raises('complete: neither list nor register', QiskitError, complete_meas_cal)
    v.ensure_raises('tensored: neither pattern nor register', QiskitError, tensored_meas_cal)


@reg.contract(M + ':tensored_meas_cal', mode='S', sizes=[{'sizes': p} for p in ([2], [1, 1], [2, 1], [1, 2], [3])],
              mods=[M], extra=REC, samples=4)
def duplicates_rejected(v, sizes):
    """a qubit listed twice (in one group or in two) is rejected"""
    from qiskit import QiskitError
    from qiskit.ignis.mitigation.measurement import circuits as m
    n = sum(sizes)
    q = [v.int('q%d' % i, 0, 4) for i in range(n)]
    v.require(or_(*[seq(q[i], q[j]) for i in range(n) for j in range(i)]))
    out, k = [], 0
    for s in sizes:
        out.append(q[k:k + s])
        k += s
    v.ensure_raises('duplicate qubit raises QiskitError', QiskitError, m.tensored_meas_cal, out)


@reg.contract(E + ':expval_meas_mitigator_circuits', mode='B',
              sizes=[{'n': n, 'method': m} for n in (1, 2, 3, 4, 5) for m in ('complete', 'tensored', 'CTMP', 'ctmp')],
              samples=1)
def expval_circuits(v, n, method):
    """expval_meas_mitigator_circuits: label sets per method, metadata in step"""
    from qiskit.ignis.mitigation.expval import expval_meas_mitigator_circuits
    circs, meta = expval_meas_mitigator_circuits(n, method=method)
    labels = [m['cal'] for m in meta]
    if method == 'complete':
        want = bitstrings(n)
    elif method == 'tensored':
        want = ['0' * n, '1' * n]
    else:
        want = ['0' * n, '1' * n] + ['0' * (n - 1 - i) + '1' + '0' * i for i in range(n)]
    v.ensure('labels required by the method', sorted(set(labels)) == sorted(set(want)), lambda: repr(labels))
    v.ensure('one circuit per metadata entry', len(circs) == len(meta))
    for c, m in zip(circs, meta):
        v.ensure('metadata identifies the calibration', m['experiment'] == 'meas_mit' and m['method'] == method)
        circuit_clauses(v, c, m['cal'], list(range(n)), 'circuit')


@reg.contract(E + ':expval_meas_mitigator_circuits', mode='B', sizes=[{'n': n} for n in (1, 2, 3, 4)], samples=4)
def expval_custom_labels(v, n):
    """custom labels are honoured in order"""
    from qiskit.ignis.mitigation.expval import expval_meas_mitigator_circuits
    k = v.int('k', 1, 4)
    labels = [v.choice('l%d' % i, bitstrings(n)) for i in range(k)]
    circs, meta = expval_meas_mitigator_circuits(n, method='CTMP', labels=labels)
    v.ensure('metadata labels are the given labels in order', [m['cal'] for m in meta] == labels)
    for c, l in zip(circs, labels):
        circuit_clauses(v, c, l, list(range(n)), 'circuit')


# ------------------------------------------------------------------- any number of qubits
from contracts import ulib as UL
from pyvc import trace as TR


class IntCirc(TR.Circ):
    """circuit made of a number of qubits, which are given by their index"""

    def __init__(self, n, name=None):
        TR.Circ.__init__(self, TR.QReg(n, 'q'), name=name)

    def _bits(self, x):
        if isinstance(x, (int, UL.Sym)):
            return [('q', TR.tt(x))]
        return TR.Circ._bits(self, x)

    def measure_all(self, inplace=True):
        if not inplace:
            raise UL.Unsupported('measure_all')
        self.barrier()
        self._add(TR.Op('measure', (), [('q', TR.ALL)], [('meas', TR.ALL)]))


class AnyLabel:
    """label of any length; character i from the right"""

    def __init__(self, n):
        self.n = n

    def char(self, i):
        return UL.Engine.of(UL.core.cur()).fun('label', UL.I, UL.I)(i)

    def rev(self):
        return UL.Seq(self.n, lambda i: UL.Char(self.char(i)), ('label', ()))

    def symlen(self):
        return self.n

    def __getitem__(self, k):
        if k == slice(None, None, -1):
            return self.rev()
        raise UL.Unsupported('part of the label')

    def __radd__(self, o):
        return (o, self)


def _reversed(x):
    if isinstance(x, AnyLabel):
        return x.rev()
    raise UL.Unsupported('reversed')


@reg.contract(E + ':ExpvalMeasMitigatorCircuits._calibration_circuit (any number of qubits, any label)', **UL.U)
def any_label(v):
    """any number of qubits and any label: qubit i is flipped exactly if character i from the right is 1; all measured"""
    u = UL.Engine.of(v)
    n = v.int('n', 1)
    lab = AnyLabel(n)
    c = UL.twin(E, 'ExpvalMeasMitigatorCircuits._calibration_circuit', {'QuantumCircuit': IntCirc, 'reversed': _reversed})(n, lab)
    v.ensure('named by its label', isinstance(c.name, tuple) and c.name == ('meas_mit_cal_', lab))
    i = UL.z3.Int('i')
    rng = [i >= 0, i < n.t]
    for one in (True, False):
        facts = rng + [lab.char(i) == ord('1') if one else lab.char(i) != ord('1')]
        got = [x for x in TR.project(u, c.plain, ('q', i), facts) if not (isinstance(x, TR.Op) and x.name == 'barrier')]
        want = ([TR.op('x', [('q', UL.Sym(i))])] if one else []) + [TR.op('measure', [('q', TR.ALL)], (), [('meas', TR.ALL)])]
        d = TR.same(u, got, want, facts)
        v.ensure('flipped if its character is 1, then measured', d == '', lambda: d)
