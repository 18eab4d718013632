"""C09 tomography fits reconstruct the true state or channel"""
from ast import literal_eval
from contracts.common import *
from contracts.c08 import SPEC_MEAS, SPEC_PREP, DEFAULT_PREP, kron_all, bloch
from pyvc.core import short, SymC, ContractViolation

reg = Registry('C09')
reg.assumptions += ['floats treated as reals',
                    'scipy.linalg.lstsq returns the exact solution of a consistent system of full column rank',
                    'scipy.linalg.eigh returns ascending eigenvalues and eigenvectors with mat = sum v_j w_j w_j^dagger',
                    'cvxpy solves the stated convex program (cvx fits are run-time evaluated only)']
F = IG + 'verification.tomography.fitters.'
BF, LS = F + 'base_fitter', F + 'lstsq_fit'


class Solved(BaseException):
    """the linear system has been handed to the solver"""


def effect(label, key):
    """effect of the counts key: rightmost character is the first label"""
    return kron_all([SPEC_MEAS[l, int(b)] for l, b in zip(label, reversed(key))])


def tr(a, b):
    """trace of a product; a numeric, b possibly symbolic"""
    d = len(a)
    t = 0
    for i in range(d):
        for j in range(d):
            if abs(a[i, j]) > 1e-14:
                t = t + clean(a[i, j]) * b[j, i]
    return t


def clean(z):
    z = complex(z)
    r, i = (round(x, 12) for x in (z.real, z.imag))
    return r if i == 0 else complex(r, i)


def re(x):
    return x.real if isinstance(x, (SymC, complex)) else x


def hermitian(v, name, d):
    m = np.empty((d, d), dtype=object)
    for i in range(d):
        m[i, i] = v.real('%s_%d%d' % (name, i, i), 0.1, 1)
        for j in range(i):
            a, b = v.real('%s_re%d%d' % (name, i, j), -0.1, 0.1), v.real('%s_im%d%d' % (name, i, j), -0.1, 0.1)
            m[i, j] = SymC(a, b) if v.symbolic else complex(a, b)
            m[j, i] = SymC(a, -b) if v.symbolic else complex(a, -b)
    return m


def catch_system(v):
    got = {}

    def lstsq(a, b, *args, **kw):
        got['a'], got['b'] = a, b
        raise Solved()
    v.standin('lstsq', lstsq)
    return got


def consistent(v, got, x, rows, rank):
    a, b = np.asarray(got['a']), np.asarray(got['b'])
    v.ensure('one equation per circuit and outcome', a.shape == (rows, len(x)) and b.shape == (rows,))
    num = np.array([[complex(z) for z in r] for r in a])
    v.ensure('the system determines the matrix', np.linalg.matrix_rank(num) == rank)
    for i in range(rows):
        tot = 0
        for j in range(len(x)):
            z = clean(a[i, j])
            if z != 0:
                tot = tot + z * x[j]
        v.ensure('the true matrix solves the system handed to the solver', seq(tot, b[i]))


@reg.contract(BF + ':TomographyFitter.add_data, _fitter_data; ' + LS + ':lstsq_fit (state)', mode='S',
              sizes=[{'n': 1}, {'n': 2}], rsizes=[], mods=[BF, LS], samples=0, replay=False)
def state_system(v, n):
    """for every density matrix (symbolic) the linear system built from the
    exact counts of the state tomography circuits is solved by that matrix"""
    from qiskit.ignis.verification.tomography import StateTomographyFitter
    d = 2 ** n
    rho = hermitian(v, 'r', d)
    rho[d - 1, d - 1] = 1 - sum(rho[i, i] for i in range(d - 1))
    labels = list(itertools.product('XYZ', repeat=n))
    if v.choice('rev', [False, True]):
        labels = labels[::-1]
    shots = [v.int('shots%d' % i, 1) for i in range(len(labels))]
    data = [(str(l), {k: shots[i] * re(tr(effect(l, k), rho)) for k in bitstrings(n)}) for i, l in enumerate(labels)]
    got = catch_system(v)
    fit = StateTomographyFitter([FakeResult(data)], [x[0] for x in data])
    try:
        fit.fit(method='lstsq', standard_weights=False)
        raise Unsupported('solved without lstsq')
    except Solved:
        pass
    consistent(v, got, [rho[i, j] for j in range(d) for i in range(d)], len(labels) * d, d * d)


@reg.contract(BF + ':TomographyFitter._fitter_data; ' + F + 'process_fitter:ProcessTomographyFitter.fit (process)', mode='S',
              sizes=[{'basis': 'Pauli'}, {'basis': 'SIC'}], rsizes=[], mods=[BF, LS, F + 'process_fitter'], samples=0, replay=False)
def process_system(v, basis):
    """for every trace preserving channel (symbolic Choi matrix) on one qubit"""
    from qiskit.ignis.verification.tomography import ProcessTomographyFitter
    e = {}
    for i in range(2):
        h = hermitian(v, 'e%d' % i, 2)
        h[1, 1] = 1 - h[0, 0]
        e[i, i] = h
    off = v.array('o', (2, 2), kind='cplx', lo=-0.1, hi=0.1)
    off[1, 1] = -off[0, 0]
    e[0, 1] = off
    e[1, 0] = np.array([[off[j, i].conjugate() for j in range(2)] for i in range(2)], dtype=object)
    choi = np.empty((4, 4), dtype=object)
    for i, j, k, l in itertools.product(range(2), repeat=4):
        choi[2 * i + k, 2 * j + l] = e[i, j][k, l]
    data = []
    for p in DEFAULT_PREP[basis]:
        rho = np.zeros((2, 2), dtype=object)
        pm = SPEC_PREP[p]
        for i in range(2):
            for j in range(2):
                z = complex(pm[i, j])
                if abs(z) > 1e-14:
                    rho = rho + clean(z) * e[i, j]
        for m in 'XYZ':
            shots = v.int('shots_%s_%s' % (p, m), 1)
            data.append((str(((p,), (m,))), {k: shots * re(tr(effect((m,), k), rho)) for k in '01'}))
    got = catch_system(v)
    fit = ProcessTomographyFitter([FakeResult(data)], [x[0] for x in data], prep_basis=basis)
    try:
        fit.fit(method='lstsq', standard_weights=False)
        raise Unsupported('solved without lstsq')
    except Solved:
        pass
    a, b = np.asarray(got['a']), np.asarray(got['b'])
    x = [choi[i, j] for j in range(4) for i in range(4)]
    v.ensure('one equation per circuit and outcome', a.shape == (24, 16) and b.shape == (24,))
    for i in range(24):
        tot = 0
        for j in range(16):
            z = clean(a[i, j])
            if z != 0:
                tot = tot + z * x[j]
        df = SymC.of(tot - b[i])
        if basis == 'Pauli':
            v.ensure('the true Choi matrix solves the system handed to the solver', seq(df, 0))
        else:   # irrational coefficients: equality to 1e-9
            v.ensure('the true Choi matrix solves the system handed to the solver',
                     and_(df.re < 1e-9, df.re > -1e-9, df.im < 1e-9, df.im > -1e-9))


@reg.contract(LS + ':lstsq_fit', mode='S', sizes=[{'d': 1}, {'d': 2}, {'d': 3}], rsizes=[], mods=[LS], samples=0)
def lstsq_post(v, d):
    """lstsq_fit(A x, A, weights): rescales both sides alike and returns the
    matrix whose column-major vector solves the system, with the requested trace"""
    from qiskit.ignis.verification.tomography.fitters.lstsq_fit import lstsq_fit
    rows = d * d + 1
    a = v.array('a', (rows, d * d), lo=-1, hi=1)
    x = v.array('x', (d * d,), lo=0.1, hi=1)
    w = v.array('w', (rows,), lo=0.1, hi=3)
    weighted = v.choice('weighted', [False, True])
    trace = v.choice('trace', [None, 1, 2])
    b = a.dot(x)

    def lstsq(m, y, *args, **kw):
        m, y = np.asarray(m), np.asarray(y)
        v.ensure('all equations are used', m.shape == (rows, d * d) and y.shape == (rows,))
        v.ensure_eq('the system stays consistent under weighting', m.dot(x), y)
        if weighted:
            v.ensure_eq('rows are scaled by the weights', m, w[:, None] * a)
        return x.copy(), None, d * d, None
    v.standin('lstsq', lstsq)
    res = lstsq_fit(list(b), a, weights=list(w) if weighted else None, psd=False, trace=trace)
    v.ensure('shape', np.shape(res) == (d, d))
    t = sum(x[i * d + i] for i in range(d))
    for i in range(d):
        for j in range(d):
            if trace is None:
                v.ensure_eq('column-major matrix of the solution', res[i, j], x[j * d + i])
            else:
                v.ensure_eq('column-major matrix of the solution, rescaled to the trace', res[i, j], trace * x[j * d + i] / t)


@reg.contract(LS + ':make_positive_semidefinite', mode='S', sizes=[{'d': d} for d in (1, 2, 3, 4, 5)], rsizes=[{'d': d} for d in (1, 2, 4, 8)],
              mods=[LS], samples=15)
def psd(v, d):
    """make_positive_semidefinite: nonnegative eigenvalues, unchanged when already
    positive, trace preserved when nonnegative"""
    from qiskit.ignis.verification.tomography.fitters.lstsq_fit import make_positive_semidefinite
    if v.symbolic:
        vals = [v.real('v%d' % i, -2, 2) for i in range(d)]
        for i in range(1, d):
            v.require(vals[i - 1] <= vals[i])
        v.standin('eigh', lambda m, *a, **k: (np.array(vals, dtype=object), np.eye(d, dtype=int)))
        res = make_positive_semidefinite(np.diag(np.array(vals, dtype=object)))
        for i in range(d):
            for j in range(d):
                if i != j:
                    v.ensure_eq('eigenvectors are kept', res[i, j], 0)
        new = [re(res[i, i]) for i in range(d)]
    else:
        r = nprng(v)
        vals = r.uniform(-1, 1, d) + v.choice('shift', [0, 0.5, 1.0])
        small = v.choice('small', [None, None, -1e-4, -1e-5, 1e-5])
        if small is not None:
            vals[int(r.randint(d))] = small
        vals = np.sort(vals)
        u = random_unitary(r, d)
        m = (u * vals) @ u.conj().T
        m = (m + m.conj().T) / 2
        before = m.copy()
        res = make_positive_semidefinite(m)
        v.ensure('argument unchanged', np.array_equal(m, before))
        v.ensure('hermitian', np.allclose(res, res.conj().T))
        diag = u.conj().T @ res @ u
        v.ensure('eigenvectors are kept', np.max(np.abs(diag - np.diag(np.diag(diag)))) < 1e-7)
        new = [float(x) for x in np.diag(diag).real]
        vals = [float(x) for x in vals]
    eps = 0 if v.symbolic else 1e-9
    tot, tot2 = sum(vals), sum(new)
    pos = and_(*([True] + [x >= 0 for x in vals]))
    for i in range(d):
        v.ensure('no negative eigenvalue when the trace is not negative', implies(tot >= 0, new[i] >= -eps))
        v.ensure('a positive matrix is unchanged', implies(pos, v.eq(new[i], vals[i])))
    v.ensure('trace preserved when not negative', implies(tot >= 0, v.eq(tot2, tot)))


# ------------------------------------------------------------ run-time part
def exact_counts(circ, shots=1.0):
    d = distribution(circ)
    return {k: shots * p for k, p in d.items()}


def reduced(psi, n, qs):
    """density matrix of the listed qubits, qs[0] least significant"""
    k = len(qs)
    t = psi.reshape([2] * n)                       # axis a = qubit n-1-a
    rest = [q for q in range(n) if q not in qs]
    order = [n - 1 - q for q in reversed(qs)] + [n - 1 - q for q in rest]
    m = t.transpose(order).reshape(2 ** k, -1)
    return m @ m.conj().T


def random_circuit(r, n, ncl=0):
    from qiskit import QuantumCircuit
    from qiskit.extensions import UnitaryGate
    c = QuantumCircuit(n, ncl) if ncl else QuantumCircuit(n)
    u = random_unitary(r, 2 ** n)
    c.append(UnitaryGate(u), range(n))
    return c, u


def basis_circuit(r, n, ncl=0):
    """a circuit preparing a product of Pauli eigenstates: some tomography
    circuits then have a single outcome"""
    from qiskit import QuantumCircuit
    c = QuantumCircuit(n, ncl) if ncl else QuantumCircuit(n)
    g = {'x': np.array([[0, 1], [1, 0]]), 'h': np.array([[1, 1], [1, -1]]) / np.sqrt(2), 's': np.diag([1, 1j])}
    u = np.eye(1)
    for q in range(n):
        w = [['x'], ['h'], ['h', 's'], [], ['x', 'h']][int(r.randint(5))]
        m = np.eye(2)
        for name in w:
            getattr(c, name)(q)
            m = g[name] @ m
        u = np.kron(m, u)
    return c, u


@reg.contract(F + 'state_fitter:StateTomographyFitter', mode='B', sizes=[{'n': 1}, {'n': 2}, {'n': 3}], samples=6)
def state_fit(v, n):
    """circuits -> exact counts -> fit gives the reduced state of the measured
    qubits, however the results are split and ordered"""
    from qiskit.ignis.verification.tomography import state_tomography_circuits, StateTomographyFitter
    r = nprng(v)
    ncl = v.choice('ncl', [0, 0, 2])
    if v.choice('basis_state', [False, False, True]):
        circ, u = basis_circuit(r, n, ncl)
    else:
        circ, u = random_circuit(r, n, ncl)
    k = v.choice('k', list(range(1, min(n, 2) + 1)))
    qs = [int(x) for x in r.permutation(n)][:k]
    circs = state_tomography_circuits(circ, qs)
    want = reduced(u[:, 0], n, qs)
    shots = [v.choice('shots%d' % i, [1000.0, 7.0]) for i in range(len(circs))]

    def space(key):
        return key[:ncl] + ' ' + key[ncl:] if ncl else key
    data = [(c.name, {space(x): y for x, y in exact_counts(c, s).items()}) for c, s in zip(circs, shots)]
    order = [int(x) for x in r.permutation(len(circs))]
    sw = v.choice('sw', [True, False])
    beta = v.choice('beta', [0.5, 0.1])
    how = v.choice('how', ['one', 'shuffled', 'two results', 'pieces', 'twice', 'names'])
    if how == 'one':
        f = StateTomographyFitter([FakeResult(data)], circs)
    elif how == 'shuffled':
        f = StateTomographyFitter([FakeResult([data[i] for i in order])], [circs[i] for i in order[::-1]])
    elif how == 'two results':
        h = len(data) // 2
        f = StateTomographyFitter([FakeResult(data[:h]), FakeResult(data[h:])], circs)
    elif how == 'pieces':
        h = len(data) // 2
        f = StateTomographyFitter([FakeResult(data[:h])], circs[:h])
        f.add_data([FakeResult(data[h:])], circs[h:])
    elif how == 'twice':
        f = StateTomographyFitter([FakeResult(data)], circs)
        f.add_data([FakeResult([data[i] for i in order])], circs)
    else:
        if ncl:
            raise core.Discard()
        f = StateTomographyFitter([FakeResult(data)], [c.name for c in circs])
    rho = f.fit(**v.choice('method', [{'method': 'lstsq'}, {}]), standard_weights=sw, beta=beta)
    v.ensure('reconstructs the reduced state', np.max(np.abs(rho - want)) < 1e-6, lambda: short(np.round(rho - want, 4)))


@reg.contract(F + 'process_fitter:ProcessTomographyFitter', mode='B', sizes=[{'n': 1}, {'n': 2}], samples=8)
def process_fit(v, n):
    """circuits -> exact counts -> fit gives the Choi matrix of the channel from
    the prepared to the measured qubits"""
    from qiskit.ignis.verification.tomography import process_tomography_circuits, ProcessTomographyFitter
    r = nprng(v)
    ncl = v.choice('ncl', [0, 0, 2])
    circ, u = random_circuit(r, n, ncl)
    k = 1 if n == 1 else v.choice('k', [1, 1, 2])
    mq = [int(x) for x in r.permutation(n)][:k]
    pq = [int(x) for x in r.permutation(n)][:k]
    basis = v.choice('basis', ['Pauli', 'SIC'])
    kw = {} if basis == 'Pauli' else {'prep_labels': basis, 'prep_basis': basis}
    circs = process_tomography_circuits(circ, mq, pq, **kw)

    def space(key):
        return key[:ncl] + ' ' + key[ncl:] if ncl else key
    f = ProcessTomographyFitter([FakeResult([(c.name, {space(x): y for x, y in exact_counts(c, 10.0 + i % 7 * 50).items()})
                                             for i, c in enumerate(circs)])], circs, prep_basis=basis)
    got = f.fit(method='lstsq', standard_weights=v.choice('sw', [True, False])).data
    d = 2 ** k
    want = np.zeros((d * d, d * d), dtype=complex)
    cols = []
    for i in range(d):
        idx = sum(((i >> j) & 1) << pq[j] for j in range(k))
        cols.append(u[:, idx])
    for i in range(d):
        for j in range(d):
            # partial trace of |u_i><u_j|
            rest = [q for q in range(n) if q not in mq]
            order = [n - 1 - q for q in reversed(mq)] + [n - 1 - q for q in rest]
            a = cols[i].reshape([2] * n).transpose(order).reshape(d, -1)
            b = cols[j].reshape([2] * n).transpose(order).reshape(d, -1)
            want[i * d:(i + 1) * d, j * d:(j + 1) * d] = a @ b.conj().T
    v.ensure('reconstructs the Choi matrix', np.max(np.abs(got - want)) < 1e-6, lambda: short(np.round(got - want, 4)))


@reg.contract(F + 'base_fitter:TomographyFitter.fit; ' + F + 'lstsq_fit (noisy data)', mode='B', sizes=[{'n': 1}, {'n': 2}], samples=12)
def noisy_fit(v, n):
    """finite counts: without constraints the fit is the least-squares solution
    weighted by the binomial weights; with constraints it is positive with trace 1"""
    from qiskit.ignis.verification.tomography import StateTomographyFitter
    from qiskit.ignis.verification.tomography.fitters import TomographyFitter
    r = nprng(v)
    labels = list(itertools.product('XYZ', repeat=n))
    d = 2 ** n
    rho = random_density(r, d, v.choice('rank', [1, d]))
    data = []
    for l in labels:
        p = np.array([np.trace(effect(l, k) @ rho).real for k in bitstrings(n)]).clip(0)
        c = r.multinomial(v.choice('shots_' + ''.join(l), [30, 300]), p / p.sum())
        data.append((str(l), {k: int(x) for k, x in zip(bitstrings(n), c) if x}))
    names = [x[0] for x in data]
    sw, beta = v.choice('sw', [True, False]), v.choice('beta', [0.5, 0.2, 0, 0])
    rows, y, w = [], [], []
    for l, (_, c) in zip(labels, data):
        s = sum(c.values())
        # no hedging: replaced by 1/2 where a frequency of 0 or 1 would divide by zero
        b = 0.5 if beta == 0 and (len(c) < d or s in c.values()) else beta
        for k in bitstrings(n):
            rows.append(effect(l, k).T.reshape(-1, order='F'))
            y.append(c.get(k, 0) / s)
            p = (c.get(k, 0) + b) / (s + d * b)
            w.append(np.sqrt(s / (p * (1 - p))) if sw else 1.0)
    w = np.array(w)
    sol = np.linalg.lstsq(w[:, None] * np.array(rows), w * np.array(y), rcond=None)[0].reshape(d, d, order='F')
    f = TomographyFitter([FakeResult(data)], names, prep_basis=None)
    got = f.fit(method='lstsq', standard_weights=sw, beta=beta, psd=False, trace=None)
    v.ensure('unconstrained fit is the weighted least-squares solution', np.max(np.abs(got - sol)) < 1e-6,
             lambda: short((got, sol)))
    t = v.choice('t', [1, 2.5])
    got = f.fit(method='lstsq', standard_weights=sw, beta=beta, psd=True, trace=t)
    v.ensure('positive', np.min(np.linalg.eigvalsh((got + got.conj().T) / 2)) > -1e-9 and np.allclose(got, got.conj().T))
    v.ensure('requested trace', abs(np.trace(got) - t) < 1e-8)
    got = StateTomographyFitter([FakeResult(data)], names).fit(method='lstsq')
    v.ensure('state fit is positive', np.min(np.linalg.eigvalsh((got + got.conj().T) / 2)) > -1e-9)
    v.ensure('state fit has trace one', abs(np.trace(got) - 1) < 1e-8)


@reg.contract(F + 'cvx_fit:cvx_fit', mode='B', sizes=[{'kind': 'state1'}, {'kind': 'state2'}, {'kind': 'process'}], samples=2, budget=100,
              assumes=['cvxpy with the SCS solver is accurate to 1e-2'])
def cvx(v, kind):
    """the convex fit reconstructs the state/channel and satisfies its constraints"""
    from qiskit.ignis.verification.tomography import (StateTomographyFitter, ProcessTomographyFitter)
    r = nprng(v)
    noisy = v.choice('noisy', [False, True])

    def sample(p):
        p = np.asarray(p).clip(0)
        if noisy:
            return [int(x) for x in r.multinomial(2000, p / p.sum())]
        return [float(1000 * x) for x in p]
    if kind != 'process':
        n = int(kind[-1])
        rho = random_density(r, 2 ** n, v.choice('rank', [1, 2]))
        data = []
        for l in itertools.product('XYZ', repeat=n):
            p = [np.trace(effect(l, k) @ rho).real for k in bitstrings(n)]
            data.append((str(l), {k: x for k, x in zip(bitstrings(n), sample(p)) if x}))
        f = StateTomographyFitter([FakeResult(data)], [x[0] for x in data])
        got = f.fit(method='cvx')
        v.ensure('trace', abs(np.trace(got) - 1) < 1e-2)
    else:
        u = random_unitary(r, 2)
        g = v.choice('damping', [0.0, 0.4])
        kraus = [np.diag([1, np.sqrt(1 - g)]) @ u, np.array([[0, np.sqrt(g)], [0, 0]]) @ u]
        rho = np.zeros((4, 4), dtype=complex)
        for i, j in itertools.product(range(2), repeat=2):
            rho[2 * i:2 * i + 2, 2 * j:2 * j + 2] = sum(np.outer(x[:, i], x[:, j].conj()) for x in kraus)
        data = []
        for p in DEFAULT_PREP['Pauli']:
            out = sum(x @ SPEC_PREP[p] @ x.conj().T for x in kraus)
            for m in 'XYZ':
                pr = [np.trace(effect((m,), k) @ out).real for k in '01']
                data.append((str(((p,), (m,))), {k: x for k, x in zip('01', sample(pr)) if x}))
        f = ProcessTomographyFitter([FakeResult(data)], [x[0] for x in data])
        got = f.fit(**v.choice('method', [{'method': 'cvx'}, {}])).data
        v.ensure('trace', abs(np.trace(got) - 2) < 1e-2)
        pt = np.array([[got[0, 0] + got[1, 1], got[0, 2] + got[1, 3]], [got[2, 0] + got[3, 1], got[2, 2] + got[3, 3]]])
        v.ensure('trace preserving', np.max(np.abs(pt - np.eye(2))) < 1e-2, lambda: short(pt))
    v.ensure('hermitian and positive', np.allclose(got, got.conj().T, atol=1e-4) and np.min(np.linalg.eigvalsh(got)) > -1e-2)
    v.ensure('reconstructs', np.max(np.abs(got - rho)) < (0.12 if noisy else 0.02), lambda: short(np.round(got - rho, 3)))


@reg.contract(F + 'cvx_fit:cvx_fit (trace)', mode='B', samples=2, budget=60)
def cvx_constraints(v):
    """constraints are applied exactly when requested"""
    from qiskit.ignis.verification.tomography.fitters.cvx_fit import cvx_fit
    r = nprng(v)
    rows, y = [], []
    m = random_density(r, 2) * 3 - np.eye(2)          # trace 1, not positive in general
    for l in 'XYZ':
        for k in '01':
            e = effect((l,), k)
            rows.append(e.conj().reshape(-1, order='F'))
            y.append(np.trace(e @ m).real)
    a = np.array(rows)
    free = cvx_fit(y, a, psd=False, solver='SCS')
    v.ensure('no constraint: the exact solution', np.max(np.abs(free - m)) < 1e-2)
    t = cvx_fit(y, a, psd=True, trace=2, solver='SCS')
    v.ensure('trace constraint', abs(np.trace(t) - 2) < 1e-2)
    v.ensure('positivity constraint', np.min(np.linalg.eigvalsh((t + t.conj().T) / 2)) > -1e-2)
    w = np.array([1, 2, 3, 1, 5, 1.0])
    free = cvx_fit(y, a, weights=w, psd=False, solver='SCS')
    v.ensure('weights do not disturb consistent data', np.max(np.abs(free - m)) < 1e-2)


@reg.contract(BF + ':TomographyFitter', mode='B', samples=1)
def rejects(v):
    """missing data, unknown methods and bases are rejected"""
    from qiskit import QiskitError
    from qiskit.ignis.verification.tomography import StateTomographyFitter, ProcessTomographyFitter
    data = [(str((l,)), {'0': 3, '1': 5}) for l in 'XYZ']
    res = [FakeResult(data)]
    f = StateTomographyFitter(res, [x[0] for x in data])
    v.ensure_raises('unknown method', QiskitError, f.fit, method='nope')
    v.ensure_raises('circuit without result', QiskitError, StateTomographyFitter, res, ["('W',)"])
    v.ensure_raises('no circuits', QiskitError, StateTomographyFitter, res, [])
    v.ensure_raises('unknown basis', ValueError, StateTomographyFitter, res, [x[0] for x in data], meas_basis='nope')
    v.ensure_raises('SIC is no measurement basis', QiskitError, StateTomographyFitter, res, [x[0] for x in data], meas_basis='SIC')
    v.ensure_raises('negative hedging', ValueError, f.fit, method='lstsq', beta=-1)
    v.ensure('data are stored under their labels', {k: dict(x) for k, x in f.data.items()} == {(l,): {'0': 3, '1': 5} for l in 'XYZ'})


@reg.contract(BF + ':TomographyFitter.add_data (histories)', mode='S', sizes=[{'n': n, 'cregs': c} for n in (1, 2) for c in (0, 1, 3) if n * c < 6],
              rsizes=[{'n': n, 'cregs': c} for n in (1, 2) for c in (0, 1, 3)], mods=[BF], samples=8)
def pooled_data(v, n, cregs):
    """data given in several calls: the same circuit's counts are added, other
    circuits' are kept, further classical bits are ignored; for all counts"""
    from qiskit import QuantumCircuit, QuantumRegister, ClassicalRegister
    from qiskit.ignis.verification.tomography.fitters import TomographyFitter
    labels = list(itertools.product('XZ', repeat=n))[:3]
    if v.choice('process', [False, True]):
        labels = [(tuple('Zp'[i % 2] for i in range(n)), l) for l in labels]
    circs = []
    for l in labels:
        if cregs:
            c = QuantumCircuit(QuantumRegister(n, 'q'), ClassicalRegister(n, 'm'), name=str(l))
            if cregs > 1:
                c.add_register(ClassicalRegister(cregs - 1, 'other'))
            circs.append(c)
        else:
            circs.append(str(l))
    keys = bitstrings(n)
    extra = [' ' + '0' * (cregs - 1), ' ' + '1' * (cregs - 1)] if cregs > 1 else ['']
    total = {l: {k: 0 for k in keys} for l in labels}
    fit = None
    calls = v.choice('calls', [((0, 1), (0,), (1, 2)), ((1,), (0, 2), (2, 1, 0)), ((0,), (0,), (0, 1))])
    single = v.choice('single', [False, True])    # only one outcome was seen
    for t in range(3):
        data, now = [], [i for i in calls[t] if i < len(labels)] or [0]
        for i in now:
            l = labels[i]
            cts = {}
            for k in keys:
                for e in extra:
                    if single and (k, e) != (keys[(t + i) % len(keys)], extra[-1]):
                        continue
                    c = v.int('c%d_%d_%s_%s' % (t, i, k, e.strip()), 0, 50)
                    cts[(e.strip() + ' ' + k).strip()] = c
                    total[l][k] = total[l][k] + c
            data.append((str(l), cts))
        cs = [circs[i] for i in now]
        if fit is None:
            fit = TomographyFitter([FakeResult(data)], cs)
        else:
            fit.add_data([FakeResult(data)], cs)
    for l in fit.data:
        for k in keys:
            v.ensure_eq('counts of one circuit are added', fit.data[l].get(k, 0), total[l][k])
        v.ensure('no other outcome', set(fit.data[l]) <= set(keys))
    for l in labels:
        if l not in fit.data:
            v.ensure('no circuit is dropped', all(core_eq0(total[l][k]) for k in keys))


def core_eq0(x):
    return isinstance(x, int) and x == 0


@reg.contract(F + 'cvx_fit:partial_trace_super', mode='S', sizes=[{'a': a, 'b': b} for a in (1, 2, 3, 4) for b in (1, 2, 3, 4)], samples=1,
              needs=[F + 'cvx_fit.partial_trace_super'])
def ptrace(v, a, b):
    """partial_trace_super(a, b) maps the vector of a matrix on C^a (x) C^b to
    the vector of its partial trace over C^b"""
    from qiskit.ignis.verification.tomography.fitters.cvx_fit import partial_trace_super
    sup = partial_trace_super(a, b)
    for i, j in itertools.product(range(a * b), repeat=2):     # the map is linear: its values on a basis decide it
        m = np.zeros((a * b, a * b))
        m[i, j] = 1
        want = m.reshape(a, b, a, b).trace(axis1=1, axis2=3)
        got = sup @ m.ravel(order='F')
        v.ensure('partial trace over the second factor', np.array_equal(np.ravel(got), want.ravel(order='F')))
