"""C06 continuous-time Markov process (CTMP) readout mitigation"""
from contracts.common import *
from pyvc.core import short

reg = Registry('C06')
reg.assumptions += ['scipy.sparse, scipy.linalg.expm/logm compute what they document',
                    'numpy Generator samples its distributions']
P = IG + 'mitigation.expval.'
CT = P + 'ctmp_mitigator'


def spec_generators(n):
    g = {('1', '0', (i,)) for i in range(n)} | {('0', '1', (i,)) for i in range(n)}
    for i in range(n):
        for j in range(i + 1, n):
            g |= {('11', '00', (i, j)), ('00', '11', (i, j)), ('10', '01', (i, j)), ('10', '01', (j, i))}
    return g


@reg.contract(P + 'ctmp_generator_set:standard_generator_set', mode='B', sizes=[{'n': n} for n in (1, 2, 3, 4, 5, 8, 12)], samples=1)
def generators(v, n):
    """the standard set: every single-qubit flip and every correlated two-qubit
    flip once, 2 n^2 in total"""
    from qiskit.ignis.mitigation.expval.ctmp_generator_set import standard_generator_set
    g = standard_generator_set(n)
    v.ensure('the generators', set(g) == spec_generators(n) and len(g) == len(set(g)), lambda: short(g))
    v.ensure('2 n^2 of them', len(g) == 2 * n * n)
    v.ensure_raises('at least one qubit', ValueError, standard_generator_set, 0)
    v.ensure_raises('an integer', ValueError, standard_generator_set, '2')


def spec_matrix(gens, rates, qubits):
    """sum of rate (|b><a| - |a><a|) over the generators supported on the qubits;
    character i of a label is the i-th qubit of the generator"""
    d = 2 ** len(qubits)
    m = np.zeros((d, d))
    for (b, a, qs), r in zip(gens, rates):
        if r <= 1e-5 or not set(qs) <= set(qubits):
            continue
        pos = [sorted(qubits).index(q) for q in qs]
        for x in range(d):
            if all((x >> p) & 1 == int(ch) for p, ch in zip(pos, a)):
                y = x
                for p, ch in zip(pos, b):
                    y = (y & ~(1 << p)) | (int(ch) << p)
                m[y, x] += r
                m[x, x] -= r
    return m


def rates_for(v, gens, hi=0.08):
    return [v.real('r%d' % i, 0, hi) for i in range(len(gens))]


# ------------------------------------------------------- symbolic rates
class Sp:
    """scipy.sparse by contract: a matrix with the operations of a matrix; entries
    that are the constant zero are not stored"""

    def __init__(self, m):
        self.m = np.asarray(m, dtype=object)
        self.shape = self.m.shape

    def _at(self):
        return [(i, j) for i in range(self.shape[0]) for j in range(self.shape[1]) if is_sym(self.m[i, j]) or self.m[i, j] != 0]

    @property
    def row(self):
        return np.array([i for i, _ in self._at()], dtype=int)

    @property
    def col(self):
        return np.array([j for _, j in self._at()], dtype=int)

    @property
    def data(self):
        out = np.empty(len(self._at()), dtype=object)
        for k, ij in enumerate(self._at()):
            out[k] = self.m[ij]
        return out

    def __add__(self, o):
        return Sp(self.m + (o.m if isinstance(o, Sp) else o))
    __radd__ = __iadd__ = __add__

    def __sub__(self, o):
        return Sp(self.m - (o.m if isinstance(o, Sp) else o))

    def __mul__(self, x):
        return Sp(self.m * x)
    __rmul__ = __mul__

    def __neg__(self):
        return Sp(-self.m)

    def __truediv__(self, x):
        return Sp(self.m / x)

    def toarray(self):
        return self.m.copy()
    todense = toarray

    def tocoo(self):
        return self
    tocsc = tocsr = copy = tocoo

    def diagonal(self):
        return np.array([self.m[i, i] for i in range(self.shape[0])], dtype=object)


class FakeSps:
    @staticmethod
    def coo_matrix(a, dtype=None, shape=None):
        if isinstance(a, Sp):
            return a
        if isinstance(a, tuple) and all(isinstance(x, (int, np.integer)) for x in a):
            return Sp(np.zeros(a, dtype=object))
        return Sp(a)
    csc_matrix = csr_matrix = coo_matrix

    @staticmethod
    def eye(n, m=None, dtype=None, format=None):
        return Sp(np.eye(n, m or n).astype(int))
    identity = eye

    @staticmethod
    def kron(a, b, format=None):
        a, b = (x.m if isinstance(x, Sp) else np.asarray(x) for x in (a, b))
        return Sp(np.kron(a, b))


class FakeLa:
    calls = []

    @staticmethod
    def expm(m):
        FakeLa.calls.append(m)
        return m


@reg.contract(CT + ':CTMPExpvalMeasMitigator.generator_matrix; noise_strength; _sampling_matrix; assignment_matrix; mitigation_matrix', mode='S',
              sizes=[{'n': n, 'other': o} for n, o in ((1, 0), (2, 0), (2, 1), (3, 0), (3, 1))], rsizes=[], samples=0, mods=[CT],
              extra={'sps': FakeSps, 'la': FakeLa}, budget=200,
              assumes=['scipy.sparse matrices behave as matrices; expm is an uninterpreted function'], replay=False)
def symbolic_rates(v, n, other):
    """every rate: generator, strength and sampling matrix on the whole register and on
    every subset; the matrices are exp of plus and minus the generator"""
    from qiskit.ignis.mitigation import CTMPExpvalMeasMitigator
    gens = sorted(spec_generators(n))
    if other:
        gens = gens[::-1] + [('01', '10', (0, n - 1)), ('11', '01', (n - 1, 0)), ('00', '01', (n - 1, 0))]
    rates = [v.real('r%d' % i, 0, 1) for i in range(len(gens))]
    for r in rates:
        v.require(r > 0.001)
    mit = CTMPExpvalMeasMitigator(gens, rates, num_qubits=n)
    for qubits in [None] + [list(p) for k in range(1, n + 1) for p in itertools.combinations(range(n), k)] * (2 if n < 3 else 1):
        qs = list(range(n)) if qubits is None else qubits
        g = np.zeros((2 ** len(qs), 2 ** len(qs)), dtype=object)
        for gen, r in zip(gens, rates):
            if set(gen[2]) <= set(qs):
                g = g + np.asarray(spec_matrix([gen], [1.0], qs)).astype(int) * r
        got = mit.generator_matrix(qubits).toarray()
        v.ensure('generator matrix', and_(*[v.eq(x, y) for x, y in zip(got.flat, g.flat)]))
        v.ensure('columns of the generator sum to zero', and_(*[v.eq(sum(got[:, j]), 0) for j in range(len(g))]))
        for sign, f in ((1, mit.assignment_matrix), (-1, mit.mitigation_matrix)):
            FakeLa.calls = []
            f(qubits)
            if not FakeLa.calls:
                raise Unsupported('matrix exponential computed elsewhere')
            ok = len(FakeLa.calls) == 1
            v.ensure('exponential of the generator', and_(ok, *[v.eq(x, sign * y) for x, y in zip(np.asarray(FakeLa.calls[0]).flat, g.flat)]) if ok else False)
    # strength and sampling matrix, on the register
    gam = mit.noise_strength()
    g = mit.generator_matrix().toarray()
    d = [-g[i, i] for i in range(len(g))]
    v.ensure('noise strength is the largest exit rate', and_(or_(*[v.eq(gam, x) for x in d]), *[gam >= x for x in d]))
    b = mit._sampling_matrix().toarray()
    v.ensure('sampling matrix is 1 + G / strength', and_(*[v.eq(b[i, j] * gam, g[i, j] + (gam if i == j else 0)) for i in range(len(g)) for j in range(len(g))]))


@reg.contract(CT + ':CTMPExpvalMeasMitigator (matrices)', mode='B', sizes=[{'n': n} for n in (1, 2, 3)], samples=8)
def matrices(v, n):
    """generator matrix, assignment matrix exp(G), mitigation matrix exp(-G), noise
    strength max(-diag G), for the whole register and for subsets"""
    from scipy.linalg import expm
    from qiskit.ignis.mitigation import CTMPExpvalMeasMitigator
    gens = sorted(spec_generators(n))
    if n > 1 and v.choice('other', [0, 1]):
        gens += [('01', '10', (0, n - 1)), ('11', '01', (n - 1, 0))]
    rates = rates_for(v, gens)
    mit = CTMPExpvalMeasMitigator(gens, rates, num_qubits=v.choice('nq', [n, None]))
    for qubits in [None, list(range(n))] + [list(p) for k in range(1, n) for p in itertools.combinations(range(n), k)]:
        qs = list(range(n)) if qubits is None else qubits
        g = spec_matrix(gens, rates, qs)
        for rep in range(2):
            got = np.asarray(mit.generator_matrix(qubits).todense())
            v.ensure_eq('generator matrix', got, g)
            v.ensure_eq('columns of the generator sum to zero', got.sum(axis=0), np.zeros(len(g)))
            a = np.asarray(mit.assignment_matrix(qubits))
            b = np.asarray(mit.mitigation_matrix(qubits))
            v.ensure_eq('assignment matrix is exp(G)', a, expm(g))
            v.ensure_eq('mitigation matrix is exp(-G)', b, expm(-g))
            v.ensure_eq('they are inverse', a @ b, np.eye(len(g)))
            v.ensure('assignment matrix is stochastic', np.min(a) > -1e-9 and np.allclose(a.sum(axis=0), 1))
            v.ensure_eq('noise strength', float(mit.noise_strength(qubits)), float(max(0, np.max(-np.diag(g)))))
    gam = float(mit.noise_strength())
    v.ensure_eq('error bound', float(mit.stddev_upper_bound(shots=9)), math.exp(2 * gam) / 3)


@reg.contract(CT + ':CTMPExpvalMeasMitigator.expectation_value', mode='B', sizes=[{'n': 1}, {'n': 2}, {'n': 3}],
              samples=12, budget=200)
def undoes_noise(v, n):
    """the sampled estimate agrees with <O> exp(-G) p within six standard errors
    of the sampling, for any qubits in any order"""
    from scipy.linalg import expm
    from qiskit.ignis.mitigation import CTMPExpvalMeasMitigator, expectation_value
    gens = sorted(spec_generators(n))
    rates = rates_for(v, gens, 0.25 if n == 1 else (0.08 if n == 2 else 0.03))
    if v.choice('clean', [0, 0, 0, 1]):
        rates = [0.0 for _ in rates]
    seed = v.int('seed', 0, 10 ** 6)
    mit = CTMPExpvalMeasMitigator(gens, rates, num_qubits=n, seed=seed)
    k = v.choice('k', [n, n, max(1, n - 1)])
    qubits = list(v.choice('qubits', [list(p) for p in itertools.permutations(range(n), k)]))
    few = v.choice('few', [False, False, True])
    counts = {key: (v.int('c' + key, 1, 4) if few else 200 + v.int('c' + key, 0, 20000)) for key in bitstrings(k)}
    if few and k > 1:
        counts.pop(v.choice('drop', bitstrings(k)))
    shots = sum(counts.values())
    # earlier use of the same mitigator on other qubits
    for h in v.choice('before', [[], [[q] for q in range(n)], [list(p) for p in itertools.permutations(range(n), 2)] + [list(range(n))]]):
        mit.seed(1)
        mit.expectation_value({key: 3 for key in bitstrings(len(h))}, qubits=h)
    mit.seed(seed)
    o = np.array([v.real('o%d' % i, -1, 1) for i in range(2 ** k)])
    use_par = v.choice('par', [False, True])
    if use_par:
        o = np.array([(-1.0) ** bin(i).count('1') for i in range(2 ** k)])
    pas = None if qubits == list(range(n)) and v.choice('none', [0, 1]) else qubits
    # the counts may carry more bits: clbits[i] is the bit of qubits[i]
    clbits, data = None, counts
    if v.choice('wide', [0, 1]):
        width = k + 1 + v.choice('pad', [0, 2])
        clbits = list(nprng(v).permutation(width)[:k])
        rest = [b for b in range(width) if b not in clbits]
        data = {}
        for t, (key, cnt) in enumerate(counts.items()):
            for fill in range(2):
                bits = ['0'] * width
                for i, b in enumerate(clbits):
                    bits[b] = key[k - 1 - i]
                for b in rest:
                    bits[b] = str(fill)
                part = cnt // 2 if fill else cnt - cnt // 2
                if part:
                    data[''.join(bits[::-1])] = part
        clbits = [int(b) for b in clbits]
    e, s = expectation_value(data, diagonal=None if use_par else o, qubits=pas, clbits=clbits, meas_mitigator=mit)
    g = spec_matrix(gens, rates, qubits)
    # probability vector with bit i = i-th smallest qubit
    order = sorted(range(k), key=lambda i: qubits[i])

    def srt(x):
        return sum(((x >> i) & 1) << pos for pos, i in enumerate(order))
    p = np.zeros(2 ** k)
    os_ = np.zeros(2 ** k)
    for x in range(2 ** k):
        p[srt(x)] = counts.get(format(x, '0%db' % k), 0) / shots
        os_[srt(x)] = o[x]
    want = float(os_ @ expm(-g) @ p)
    gam = float(max(0, np.max(-np.diag(g))))
    samples = max(1600, shots) * math.exp(2 * gam)
    tol = 6 * math.exp(2 * gam) * max(1e-3, float(np.max(np.abs(o)))) / math.sqrt(samples)
    v.ensure('noise undone', abs(e - want) < tol, lambda: 'got %r, specified %r +- %r' % (e, want, tol))
    v.ensure_eq('error estimate', float(s), math.exp(2 * gam) / math.sqrt(shots))
    mit.seed(seed)
    again = mit.expectation_value(data, diagonal=None if use_par else o, qubits=pas, clbits=clbits)
    v.ensure('reproducible with the seed', again[0] == e)


@reg.contract(CT + ':_choice', mode='S', sizes=[{'k': k} for k in (1, 2, 3, 4)], mods=[CT], samples=10,
              needs=[CT + '._choice'])
def inverse_cdf(v, k):
    """_choice(inds, probs, r): the index whose cumulative interval contains r"""
    from qiskit.ignis.mitigation.expval import ctmp_mitigator as m
    p = [v.real('p%d' % i, 0, 1) for i in range(k)]
    inds = [7 + 3 * i for i in range(k)]
    r = v.real('r', 0, 1)
    got = m._choice(np.array(inds), np.array(p, dtype=object if v.symbolic else float), r)
    cum = 0
    for i in range(k):
        lo, cum = cum, cum + p[i]
        inside = and_(r >= lo, r < cum)
        v.ensure('r in the i-th interval selects the i-th state', implies(inside, int(got) == inds[i]))
    v.ensure('rounding overflow selects the last state', implies(r >= cum, int(got) == inds[-1]))


@reg.contract(CT + ':_markov_chain_compiled', mode='B', sizes=[{'d': 2}, {'d': 4}, {'d': 8}], samples=6,
              needs=[CT + '._markov_chain_compiled'])
def markov_chain(v, d):
    """each sample walks its own number of steps from its own start, one random
    number per step in order, by the columns of the sparse matrix"""
    import scipy.sparse as sps
    from qiskit.ignis.mitigation.expval import ctmp_mitigator as m
    r = nprng(v)
    mat = random_stochastic(r, d, 0.8) * (r.rand(d, d) < 0.6)
    mat[np.arange(d), np.arange(d)] += 0.1
    mat = mat / mat.sum(axis=0)
    csc = sps.csc_matrix(mat)
    ns = v.choice('ns', [1, 2, 7])
    alphas = r.randint(0, 5, size=ns)
    x = r.randint(0, d, size=ns)
    rv = r.rand(int(alphas.sum()))
    y = np.zeros(ns, dtype=int)
    m._markov_chain_compiled(y, x, rv, alphas, csc.data, csc.indices.astype(int), csc.indptr.astype(int))
    pos = 0
    for i in range(ns):
        s = x[i]
        for _ in range(alphas[i]):
            col = mat[:, s]
            nz = [j for j in csc.indices[csc.indptr[s]:csc.indptr[s + 1]]]
            c, nxt = 0.0, nz[-1]
            for j in nz:
                c += col[j]
                if rv[pos] < c:
                    nxt = j
                    break
            s = nxt
            pos += 1
        v.ensure('final state of the walk', y[i] == s)


@reg.contract(P + 'ctmp_fitter:fit_ctmp_meas_mitigator', mode='B', sizes=[{'n': 1}, {'n': 2}, {'n': 3}, {'n': 4}], samples=5)
def fit_recovers(v, n):
    """fitting exact calibration data of a CTMP noise returns its matrix: for one or two
    qubits with any rates, for more qubits with uncorrelated noise"""
    from scipy.linalg import expm
    from qiskit.ignis.mitigation.expval.ctmp_fitter import fit_ctmp_meas_mitigator
    from qiskit.ignis.mitigation import expval_meas_mitigator_circuits
    gens = sorted(spec_generators(n))
    rates = []
    for i, g in enumerate(gens):
        corr = len(g[2]) > 1
        rates.append(0.0 if corr and n > 2 else v.real('r%d' % i, 0.005, 0.1))
    a = expm(spec_matrix(gens, rates, list(range(n))))
    _, meta = expval_meas_mitigator_circuits(n, method='CTMP')
    cal = {}
    for m in meta:
        x = int(m['cal'], 2)
        cal[x] = {y: 1e6 * a[y, x] for y in range(2 ** n) if a[y, x] > 0}
    mit = fit_ctmp_meas_mitigator(cal, n)
    v.ensure_eq('assignment matrix recovered', np.asarray(mit.assignment_matrix()), a, tol=1e-4)
    v.ensure_eq('generator recovered', np.asarray(mit.generator_matrix().todense()),
                spec_matrix(gens, rates, list(range(n))), tol=1e-4)
    v.ensure_raises('integer number of qubits', __import__('qiskit').QiskitError, fit_ctmp_meas_mitigator, cal, float(n))


@reg.contract(P + 'fitter:ExpvalMeasMitigatorFitter (CTMP)', mode='B', sizes=[{'n': 1}, {'n': 2}, {'n': 3}], samples=3)
def end_to_end(v, n):
    """calibration circuits, fit and mitigation together undo uncorrelated noise"""
    from qiskit.ignis.mitigation import expval_meas_mitigator_circuits, ExpvalMeasMitigatorFitter, expectation_value
    mats = []
    for q in range(n):
        e0, e1 = v.real('e0%d' % q, 0.01, 0.1), v.real('e1%d' % q, 0.01, 0.1)
        mats.append(np.array([[1 - e0, e1], [e0, 1 - e1]]))
    full = np.array([[1.0]])
    for m in mats:
        full = np.kron(m, full)
    circs, meta = expval_meas_mitigator_circuits(n, method='CTMP')
    named = [(c.name, {k: int(round(10 ** 6 * full[int(k, 2), int(m['cal'], 2)])) for k in bitstrings(n)})
             for c, m in zip(circs, meta)]
    mit = ExpvalMeasMitigatorFitter(real_result(named, n), meta).fit()
    v.ensure_eq('assignment matrix', np.asarray(mit.assignment_matrix()), full, tol=1e-3)
    mit.seed(5)
    t = np.array([v.real('t%d' % i, 0, 1) + 0.01 for i in range(2 ** n)])
    t /= t.sum()
    y = full @ t
    counts = {k: int(round(30000 * y[int(k, 2)])) for k in bitstrings(n)}
    o = np.array([v.real('o%d' % i, -1, 1) for i in range(2 ** n)])
    e, _ = expectation_value(counts, diagonal=o, meas_mitigator=mit)
    gam = float(mit.noise_strength())
    tol = 6 * math.exp(2 * gam) / math.sqrt(30000 * math.exp(2 * gam)) + 1e-3
    v.ensure('value of the true distribution', abs(e - o @ t) < tol, lambda: '%r %r %r' % (e, o @ t, tol))


@reg.contract(P + 'ctmp_fitter:fit_ctmp_meas_mitigator (rates)', mode='B', sizes=[{'n': 2}, {'n': 3}, {'n': 4}], samples=4)
def fit_rates(v, n):
    """correlated noise on any number of qubits: a two-qubit rate is the entry of the
    logarithm of the assignment matrix of the pair, a one-qubit rate the mean over the
    other qubits and their values; generators in any order"""
    from scipy.linalg import expm, logm
    from qiskit.ignis.mitigation.expval.ctmp_fitter import fit_ctmp_meas_mitigator
    from qiskit.ignis.mitigation.expval.ctmp_generator_set import standard_generator_set
    gens = sorted(spec_generators(n))
    if v.choice('noise', ['generators', 'any']) == 'any':
        # not the exponential of a generator: some entries of the logarithm are negative
        a = np.array([[v.real('a%d_%d' % (y, x), 0, 1) * v.choice('nz%d_%d' % (y, x), [0, 1]) for x in range(2 ** n)] for y in range(2 ** n)])
        a = 0.15 * a / 2 ** n
        np.fill_diagonal(a, 0)
        a += np.diag(1 - a.sum(axis=0))
    else:
        a = expm(spec_matrix(gens, [v.real('r%d' % i, 0.002, 0.05) for i in range(len(gens))], list(range(n))))
    cal = {x: {y: 1e6 * a[y, x] for y in range(2 ** n)} for x in range(2 ** n)}

    def local(j, k):
        """shots without an error on the other qubits (as documented)"""
        out = (2 ** n - 1) ^ (1 << j) ^ (1 << k)
        m = np.zeros((4, 4))
        for x in range(2 ** n):
            for y in range(2 ** n):
                if y & out == x & out:
                    m[(y >> j & 1) + 2 * (y >> k & 1), (x >> j & 1) + 2 * (x >> k & 1)] += a[y, x]
        g = np.real(logm(m / m.sum(axis=0)))
        return g

    def entry(b, s, j, k):
        # first character of a label: first qubit of the generator
        g = local(j, k)
        return max(0.0, g[int(b[0]) + 2 * int(b[1]), int(s[0]) + 2 * int(s[1])])
    order = list(standard_generator_set(n))
    if v.choice('shuffle', [0, 1]):
        nprng(v).shuffle(order)
    order = [tuple(g) if not isinstance(g, tuple) else g for g in order]
    order = [(str(b), str(s), tuple(int(q) for q in c)) for b, s, c in order]
    mit = fit_ctmp_meas_mitigator(cal, n, generators=order)
    want = []
    for b, s, c in order:
        if len(c) == 2:
            want.append(entry(b, s, *c))
        else:
            want.append(np.mean([entry(b + o, s + o, c[0], k) for k in range(n) if k != c[0] for o in '01']))
    v.ensure_eq('generator of the fitted rates', np.asarray(mit.generator_matrix().todense()), spec_matrix(order, want, list(range(n))), tol=1e-6)


@reg.contract(P + 'ctmp_fitter:fit_ctmp_meas_mitigator (given generators)', mode='B', sizes=[{'n': 2}, {'n': 3}, {'n': 4}], samples=4)
def fit_given_generators(v, n):
    """generators that leave out qubits (the last, too): the mitigator is still one of
    all calibrated qubits, and the left-out ones are read without error"""
    from scipy.linalg import expm
    from qiskit.ignis.mitigation.expval.ctmp_fitter import fit_ctmp_meas_mitigator
    k = v.choice('first', list(range(n - 1)))
    # noise on one pair of neighbours only, two-qubit generators of that pair
    gens = [g for g in sorted(spec_generators(n)) if tuple(g[2]) == (k, k + 1)]
    assert gens
    rates = [v.real('r%d' % i, 0.002, 0.05) for i in range(len(gens))]
    g = spec_matrix(gens, rates, list(range(n)))
    a = expm(g)
    cal = {x: {y: 1e6 * a[y, x] for y in range(2 ** n)} for x in range(2 ** n)}
    mit = fit_ctmp_meas_mitigator(cal, n, generators=gens)
    v.ensure('a matrix of all calibrated qubits', np.asarray(mit.assignment_matrix()).shape == a.shape)
    v.ensure_eq('assignment matrix recovered', np.asarray(mit.assignment_matrix()), a, tol=1e-4)
    mit.seed(3)
    val, _ = mit.expectation_value({'0' * n: 1000})
    v.ensure('counts of all qubits are accepted', abs(val) < 10)
