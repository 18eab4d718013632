"""C04 expectation values and errors estimated from counts"""
from contracts.common import *
from pyvc.core import short

reg = Registry('C04')
reg.assumptions += ['floats treated as reals', 'marginalisation of counts is under contract in C07']
U = IG + 'mitigation.expval.utils'
D = IG + 'verification.tomography.data'


def spec_marginal(counts, n, bits):
    """{key over bits: total}; character i from the right of a new key is bits[i]"""
    out = {}
    for k, c in counts.items():
        kk = ''.join(k[n - 1 - b] for b in reversed(bits))
        out[kk] = out.get(kk, 0) + c
    return out


def spec_expval(v, counts, diag):
    """(numerator, sum of squares numerator, shots)"""
    shots = sum(counts.values())
    num = sq = 0
    for k, c in counts.items():
        o = (-1) ** k.count('1') if diag is None else diag[int(k, 2)]
        num = num + o * c
        sq = sq + o * o * c
    return num, sq, shots


def diagonal(v, d, how):
    if how == 'parity':
        return None, None
    dg = [v.real('o%d' % i, -3, 3) for i in range(d)]
    return dg, (np.array(dg, dtype=object) if v.symbolic else v.choice('kind', [list, np.array])(dg))


def check_expval(v, res, counts, diag):
    num, sq, shots = spec_expval(v, counts, diag)
    v.ensure('returns (value, standard deviation)', len(res) == 2)
    e, s = res
    if v.symbolic:
        v.ensure('value = sum of O(x) * count(x) / shots', seq(e * shots, num))
        v.ensure('standard deviation is not negative', s >= 0)
        v.ensure('stddev^2 = (E[O^2] - E[O]^2) / shots', seq(s * s * shots * shots * shots, sq * shots - num * num))
    else:
        m = num / shots
        v.ensure_eq('value = sum of O(x) * count(x) / shots', e, m)
        v.ensure('standard deviation is not negative', s >= 0)
        var = max(0.0, (sq / shots - m * m) / shots)
        v.ensure('stddev^2 = (E[O^2] - E[O]^2) / shots', abs(s * s - var) < 1e-7,
                 lambda: 'got %r, specified %r' % (s, var ** 0.5))


@reg.contract(U + ':expectation_value', mode='S', sizes=[{'n': 1, 'how': h} for h in ('parity', 'diagonal')] +
              [{'n': 2, 'how': 'parity'}], rsizes=[{'n': n, 'how': h} for n in (1, 2, 3, 4) for h in ('parity', 'diagonal')],
              mods=[U], samples=6)
def expval(v, n, how):
    """expectation_value(counts, diagonal)"""
    from qiskit.ignis.mitigation.expval import utils as m
    counts = counts_input(v, 'c', n)
    if v.symbolic:
        for c in counts.values():
            v.require(c > 0)
    else:
        counts = drop_zeros(counts)
    diag, arg = diagonal(v, 2 ** n, how)
    before = dict(counts)
    res = m.expectation_value(counts, diagonal=arg)
    check_expval(v, res, counts, diag)
    v.ensure('counts unchanged', v.eq(counts, before))


@reg.contract(U + ':expectation_value (clbits)', mode='S', sizes=[{'n': 2, 'how': 'parity'}],
              rsizes=[{'n': n, 'how': h} for n in (2, 3, 4) for h in ('parity', 'diagonal')],
              mods=[U, D], samples=8)
def expval_clbits(v, n, how):
    """expectation_value(counts, clbits=B): the value of the observable on the
    listed bits, bit i of the observable being clbits[i]"""
    from qiskit.ignis.mitigation.expval import utils as m
    counts = counts_input(v, 'c', n)
    if v.symbolic:
        for c in counts.values():
            v.require(c > 0)
    else:
        counts = drop_zeros(counts)
    k = v.choice('k', list(range(1, n + 1)))
    bits = list(v.choice('bits', list(itertools.permutations(range(n), k))))
    diag, arg = diagonal(v, 2 ** k, how)
    before = dict(counts)
    res = m.expectation_value(counts, diagonal=arg, clbits=bits)
    check_expval(v, res, spec_marginal(counts, n, bits), diag)
    v.ensure('counts unchanged', v.eq(counts, before))


@reg.contract(U + ':counts_probability_vector', mode='S', sizes=[{'n': 1}, {'n': 2}],
              rsizes=[{'n': n} for n in (1, 2, 3, 4)], mods=[U, D], samples=12)
def prob_vector(v, n):
    """counts_probability_vector: entry x is the relative frequency of outcome x
    of the selected bits, with the bits put in increasing order of the qubits
    they belong to"""
    from qiskit.ignis.mitigation.expval import utils as m
    counts = counts_input(v, 'c', n)
    if v.symbolic:
        for c in counts.values():
            v.require(c > 0)
    else:
        counts = drop_zeros(counts)
    k = v.choice('k', list(range(1, n + 1)))
    bits = v.choice('bits', [None] + [list(p) for p in itertools.permutations(range(n), k)])
    kk = n if bits is None else k
    mar = spec_marginal(counts, n, bits if bits is not None else list(range(n)))
    shots = sum(counts.values())
    qubits = v.choice('qubits', [None] + [list(p) for p in itertools.permutations([5, 0, 3, 2][:kk])])
    total = v.choice('nq', [None, kk])
    with_shots = v.choice('rs', [False, True])
    vec = m.counts_probability_vector(counts, qubits=qubits, clbits=bits, num_qubits=total, return_shots=with_shots)
    if with_shots:
        vec, sh = vec
        v.ensure_eq('shots', sh, shots)
    order = list(range(kk)) if qubits is None else sorted(range(kk), key=lambda i: qubits[i])
    want = [0] * 2 ** kk
    for key, c in mar.items():
        idx = 0
        for pos, i in enumerate(order):
            if key[kk - 1 - i] == '1':
                idx += 1 << pos
        want[idx] = want[idx] + c
    v.ensure('length', np.shape(vec) == (2 ** kk,))
    for i in range(2 ** kk):
        if v.symbolic:
            v.ensure('entry = frequency of the outcome', seq(vec[i] * shots, want[i]))
        else:
            v.ensure_eq('entry = frequency of the outcome', float(vec[i]), want[i] / shots)
    s = sum(vec[i] for i in range(2 ** kk))
    v.ensure_eq('entries sum to one', s, 1)


@reg.contract(U + ':counts_probability_vector', mode='B', samples=1)
def rejects(v):
    """a qubit list that does not fit the counts is rejected"""
    from qiskit import QiskitError
    from qiskit.ignis.mitigation.expval.utils import counts_probability_vector
    v.ensure_raises('wrong number of qubits', QiskitError, counts_probability_vector, {'00': 3, '11': 4},
                    qubits=[0, 1, 2])


@reg.contract(U + ':expectation_value', mode='B', sizes=[{'n': n} for n in (1, 2, 3)], samples=4)
def bounds(v, n):
    """the estimate lies between the smallest and largest eigenvalue and its error
    shrinks with the number of shots"""
    from qiskit.ignis.mitigation import expectation_value
    counts = drop_zeros(counts_input(v, 'c', n))
    dg = [v.real('o%d' % i, -3, 3) for i in range(2 ** n)]
    e, s = expectation_value(counts, diagonal=dg)
    v.ensure('between extreme eigenvalues', min(dg) - 1e-9 <= e <= max(dg) + 1e-9)
    e4, s4 = expectation_value({k: 4 * c for k, c in counts.items()}, diagonal=dg)
    v.ensure_eq('same value with four times the shots', e4, e)
    v.ensure_eq('half the error with four times the shots', s4, s / 2)


@reg.contract(U + ':expectation_value; counts_probability_vector (long keys)', mode='B', sizes=[{'n': n} for n in (9, 10, 12)], samples=6)
def long_keys(v, n):
    """more than eight bits: few outcomes of many"""
    from qiskit.ignis.mitigation.expval import utils as m
    counts = {}
    for i in range(v.choice('outcomes', [1, 5, 40])):
        counts[format(v.int('x%d' % i, 0, 2 ** n - 1), '0%db' % n)] = v.int('c%d' % i, 1, 1000)
    diag, arg = diagonal(v, 2 ** n, 'parity')
    check_expval(v, m.expectation_value(counts), counts, diag)
    k = v.choice('k', [1, 2, 4, n - 1])
    bits = [int(b) for b in nprng(v).permutation(n)[:k]]
    diag, arg = diagonal(v, 2 ** k, v.choice('how', ['parity', 'diagonal']))
    check_expval(v, m.expectation_value(counts, diagonal=arg, clbits=bits), spec_marginal(counts, n, bits), diag)
    p, shots = m.counts_probability_vector(counts, return_shots=True)
    want = np.zeros(2 ** n)
    for key, c in counts.items():
        want[int(key, 2)] += c / sum(counts.values())
    v.ensure_eq('probabilities', p, want)
    v.ensure('shots', shots == sum(counts.values()))


# ------------------------------------------------- any number of bits and outcomes
from contracts import ulib as UL


class BitKey(UL.Obj):
    """outcome of any length: its value and the parity of its ones"""

    def count(self, c):
        if c != '1':
            raise UL.Unsupported('count')
        return Ones(self)

    def to_int(self, base):
        if base != 2:
            raise UL.Unsupported('base')
        return UL.Sym(self.t)


class Ones:
    def __init__(self, k):
        self.k = k

    def sign(self):
        u = UL.Engine.of(UL.core.cur())
        return UL.ite(UL.SymBool(u.fun('odd', UL.I, UL.B)(self.k.t)), -1, 1)

    def __mod__(self, m):
        if m != 2:
            raise UL.Unsupported('modulus')
        return self

    def __rpow__(self, b):
        if b != -1:
            raise UL.Unsupported('power')
        return self.sign()


class Diagonal:
    """diagonal of any length"""

    def at(self, i):
        return UL.Sym(UL.Engine.of(UL.core.cur()).fun('obs', UL.I, UL.R)(i.t))

    def __getitem__(self, ks):
        if isinstance(ks, UL.Sym):
            return self.at(ks)
        if isinstance(ks, UL.State) and ks.seq is not None and ks.seq.prev is None:
            ks = ks.seq
        if not isinstance(ks, UL.Seq):
            raise UL.Unsupported('diagonal index')
        return UL.unb.vec(ks.map(self.at))


class VecNp(UL.unb.NpU):
    def asarray(self, x, *a, **k):
        return x if isinstance(x, (Diagonal, UL.unb.Vec)) else UL.unb.NpU.array(self, x, *a, **k)

    def isclose(self, a, b, *r, **k):
        return UL.SymBool(UL.z3.Bool('isclose'))       # only decides whether a warning is logged


class NoLog:
    def warning(self, *a):
        pass


def any_counts(v, n='n'):
    u = UL.Engine.of(v)
    f = u.fun('c.val', UL.I, UL.I)
    return UL.Dict('c', UL.I, BitKey, lambda j: UL.Sym(f(j)), v.int(n, 1), (), facts=lambda j: [f(j) >= 0])


@reg.contract(U + ':expectation_value (any number of bits and outcomes)', sizes=[{'how': 'parity'}, {'how': 'diagonal'}], **UL.U)
def any_expval(v, how):
    """counts of any number of outcomes of any number of bits, any observable"""
    u = UL.Engine.of(v)
    counts = any_counts(v)
    dg = Diagonal()
    o = (lambda k: Ones(k).sign()) if how == 'parity' else (lambda k: dg.at(UL.Sym(k.t)))
    shots = u.total(counts.values())
    v.require(shots > 0)
    e, s = UL.twin(U, 'expectation_value', {'np': VecNp(u), 'logger': NoLog()})(counts, diagonal=None if how == 'parity' else dg)
    num = u.total(counts.items().map(lambda kv: o(kv[0]) * kv[1]))
    sq = u.total(counts.items().map(lambda kv: o(kv[0]) * o(kv[0]) * kv[1]))
    v.ensure('value = sum of O(x) * count(x) / shots', UL.seq(e * shots, num))
    v.ensure('standard deviation is not negative', s >= 0)
    var = sq * shots - num * num
    v.ensure('stddev^2 = (E[O^2] - E[O]^2) / shots', UL.seq(s * s * shots * shots * shots, UL.ite(var > 0, var, 0)))


class NumBits:
    """the number of bits; only 2 ** n, the length of a vector, is computed from it"""

    def __rpow__(self, b):
        if b != 2:
            raise UL.Unsupported('power')
        return VecDim()


class VecDim:
    pass


class CellVec:
    """vector of any length whose cells a loop writes"""

    def __init__(self, cells=None, div=None):
        self.cells, self.div = UL.State('dict') if cells is None else cells, div or []

    def __getitem__(self, i):
        x = self.cells.get(UL.Obj(i.t), 0)
        for d in self.div:
            x = x / d
        return x

    def __setitem__(self, i, x):
        if self.div:
            raise UL.Unsupported('write after a division')
        self.cells[UL.Obj(i.t)] = x

    def __truediv__(self, d):
        return CellVec(self.cells, self.div + [d])


class CellNp(UL.unb.NpU):
    def zeros(self, shape, *a, **k):
        if not isinstance(shape, VecDim):
            raise UL.Unsupported('shape')
        return CellVec()


@reg.contract(U + ':counts_probability_vector (any number of bits and outcomes)', **UL.U)
def any_prob_vector(v):
    """every entry is the relative frequency of its outcome, zero for the others"""
    u = UL.Engine.of(v)
    counts = any_counts(v)
    shots = u.total(counts.values())
    v.require(shots > 0)
    p, sh = UL.twin(U, 'counts_probability_vector', {'np': CellNp(u)})(counts, num_qubits=NumBits(), return_shots=True)
    v.ensure('shots', UL.seq(sh, shots))
    x = BitKey(UL.z3.Int('x'))
    v.ensure('entry = count / shots', UL.seq(p[UL.Sym(x.t)] * shots, counts.get(x, 0)))
