"""C05 mitigated expectation values undo the calibrated assignment noise"""
from contracts.common import *
from contracts.c04 import spec_marginal
from pyvc.core import short

reg = Registry('C05')
reg.assumptions += ['floats treated as reals',
                    'numpy.linalg.inv returns the inverse of a nonsingular matrix',
                    'Counts.int_outcomes() maps bit strings to integers']
P = IG + 'mitigation.expval.'
U, CM, TM, BM = P + 'utils', P + 'complete_mitigator', P + 'tensored_mitigator', P + 'base_meas_mitigator'
D = IG + 'verification.tomography.data'
ALL = [U, CM, TM, BM, D]
# symbolic runs of these contracts look at the value only (the error estimate is
# under contract in mitigated_stddev and C04)
VALUE_ONLY = {'_expval_with_stddev': lambda coeffs, probs, shots: (coeffs.dot(probs), 0)}


def one_qubit(v, name):
    """a single-qubit assignment matrix with errors below one half"""
    e0 = v.real(name + '_e0', 0.001, 0.45)
    e1 = v.real(name + '_e1', 0.001, 0.45)
    return np.array([[1 - e0, e1], [e0, 1 - e1]], dtype=object if v.symbolic else float)


def kron(mats):
    """tensor product, mats[0] on the least significant bit"""
    full = np.array([[1]], dtype=mats[0].dtype)
    for a in mats:
        full = np.kron(a, full)
    return full


def parity(d):
    return [(-1) ** bin(i).count('1') for i in range(d)]


def diag_arg(v, d):
    if v.choice('obs', ['parity', 'diagonal']) == 'parity':
        return None, parity(d)
    o = [v.real('o%d' % i, -2, 2) for i in range(d)]
    return (np.array(o, dtype=object) if v.symbolic else v.choice('kind', [list, np.array])(o)), o


def noisy_counts(v, mats, n):
    """counts (relative frequencies x 1000) produced by the noise from an
    arbitrary true distribution; bit i was measured on a qubit with mats[i]"""
    t = v.array('t', (2 ** n,), lo=0.5, hi=10)
    y = kron(mats).dot(t)
    return t, {k: y[int(k, 2)] for k in bitstrings(n)}


def check(v, res, t, o):
    e = res[0]
    v.ensure('noise undone: value of the true distribution', v.eq(e * sum(t), sum(a * b for a, b in zip(o, t)), 1e-7),
             lambda: 'got %s, specified %s' % (short(e), short(sum(a * b for a, b in zip(o, t)) / sum(t))))


@reg.contract(CM + ':CompleteExpvalMeasMitigator, ' + TM + ':TensoredExpvalMeasMitigator', mode='S',
              sizes=[{'n': 1, 'method': m} for m in ('complete', 'tensored')] + [{'n': 2, 'method': 'tensored'}],
              rsizes=[{'n': n, 'method': m} for n in (1, 2, 3, 5) for m in ('complete', 'tensored')],
              mods=ALL, samples=8, budget=60, extra=VALUE_ONLY)
def undoes_noise(v, n, method):
    """expectation_value(noisy counts) is the value of the noiseless distribution,
    for every distribution, observable and nonsingular single-qubit noise"""
    from qiskit.ignis.mitigation.expval import utils, complete_mitigator, tensored_mitigator
    mats = [one_qubit(v, 'q%d' % i) for i in range(n)]
    if method == 'complete':
        mit = complete_mitigator.CompleteExpvalMeasMitigator(kron(mats))
    else:
        mit = tensored_mitigator.TensoredExpvalMeasMitigator(mats)
    t, counts = noisy_counts(v, mats, n)
    arg, o = diag_arg(v, 2 ** n)
    res = utils.expectation_value(counts, diagonal=arg, meas_mitigator=mit)
    check(v, res, t, o)


@reg.contract(CM + ':CompleteExpvalMeasMitigator, ' + TM + ':TensoredExpvalMeasMitigator', mode='B',
              sizes=[{'n': n, 'method': m} for n in (2, 3, 4) for m in ('complete', 'tensored')], samples=12)
def qubit_subsets(v, n, method):
    """the same when the counts come from circuit.measure(qubits, clbits) on any
    qubits in any order, among other classical bits; qubits omitted means
    qubits 0..k-1"""
    from qiskit.ignis.mitigation import expectation_value
    from qiskit.ignis.mitigation.expval import complete_mitigator, tensored_mitigator
    mats = [one_qubit(v, 'q%d' % i) for i in range(n)]
    if method == 'complete':
        mit = complete_mitigator.CompleteExpvalMeasMitigator(kron(mats))
    else:
        mit = tensored_mitigator.TensoredExpvalMeasMitigator(mats)
    k = v.choice('k', list(range(1, n + 1)))
    qubits = v.choice('qubits', [None] + [list(p) for p in itertools.permutations(range(n), k)])
    qs = list(range(k)) if qubits is None else qubits
    nc = k + v.choice('extra', [0, 1, 2])
    t, c = noisy_counts(v, [mats[q] for q in qs], k)
    clbits = list(range(k))
    if nc > k or v.choice('perm', [False, True]):
        clbits = list(v.choice('clbits', list(itertools.permutations(range(nc), k))))
        counts = {}
        for key, val in c.items():
            bits = ['0'] * nc
            for i, b in enumerate(clbits):
                bits[nc - 1 - b] = key[k - 1 - i]
            for junk in range(2 ** (nc - k)):
                rest = [b for b in range(nc) if b not in clbits]
                bb = list(bits)
                for j, b in enumerate(rest):
                    bb[nc - 1 - b] = str((junk >> j) & 1)
                counts[''.join(bb)] = val * (junk + 1) / sum(range(1, 2 ** (nc - k) + 1))
        cl = clbits
    else:
        counts, cl = c, v.choice('cl', [None, clbits])
    arg, o = diag_arg(v, 2 ** k)
    before = dict(counts)
    # earlier requests on the same mitigator must not matter
    for rep in range(v.choice('earlier', [0, 1, 2])):
        q0 = v.choice('earlier_qubits%d' % rep, [list(p) for p in itertools.permutations(range(n), k)])
        expectation_value({b: 1 for b in bitstrings(k)}, qubits=q0, meas_mitigator=mit)
    res = expectation_value(counts, diagonal=arg, qubits=qubits, clbits=cl, meas_mitigator=mit)
    check(v, res, t, o)
    v.ensure('counts unchanged', counts == before)


@reg.contract(CM + ':CompleteExpvalMeasMitigator.expectation_value', mode='S', sizes=[{'n': 1}, {'n': 2}],
              rsizes=[{'n': n} for n in (1, 2, 3)], mods=ALL, samples=8, budget=60, extra=VALUE_ONLY)
def correlated_noise(v, n):
    """complete method with an arbitrary (correlated) assignment matrix: the
    estimate is sum_x p(x) (B^T O)(x) with B the inverse of the matrix"""
    from qiskit.ignis.mitigation.expval import complete_mitigator
    d = 2 ** n
    b = v.array('b', (d, d), lo=0.01, hi=1)
    v.inverse_is(lambda a: a)
    mat = b
    if not v.symbolic:
        b = b + 2 * np.eye(d)
        mat = np.linalg.inv(b)
    mit = complete_mitigator.CompleteExpvalMeasMitigator(mat)
    c = v.array('c', (d,), lo=1, hi=50)
    counts = {k: c[int(k, 2)] for k in bitstrings(n)}
    o = parity(d)
    arg = None
    if not v.symbolic:
        arg, o = diag_arg(v, d)
    res = mit.expectation_value(counts, diagonal=arg)
    num = sum(c[x] * sum(b[y, x] * o[y] for y in range(d)) for x in range(d))
    v.ensure('value = sum over outcomes of corrected observable', v.eq(res[0] * sum(c), num, 1e-6),
             lambda: '%s %s' % (short(res), short(num / sum(c))))




@reg.contract(CM + ', ' + TM + ' (matrices, fidelity, overhead)', mode='B',
              sizes=[{'n': n, 'method': m} for n in (1, 2, 3, 4, 5) for m in ('complete', 'tensored')], samples=6)
def matrices(v, n, method):
    """assignment_matrix(qubits) is the noise restricted to the qubits,
    mitigation_matrix(qubits) its inverse, fidelity and overhead follow"""
    from qiskit.ignis.mitigation.expval import complete_mitigator, tensored_mitigator
    mats = [one_qubit(v, 'q%d' % i) for i in range(n)]
    if method == 'complete':
        mit = complete_mitigator.CompleteExpvalMeasMitigator(kron(mats))
    else:
        mit = tensored_mitigator.TensoredExpvalMeasMitigator(mats)
    every = [None] + [list(p) for k in range(1, n + 1) for p in itertools.permutations(range(n), k)]
    for rep in range(4):          # a history of requests on one mitigator
        qubits = v.choice('qubits%d' % rep, every)
        a = np.asarray(mit.assignment_matrix(qubits))
        b = np.asarray(mit.mitigation_matrix(qubits))
        qs = list(range(n)) if qubits is None else qubits
        kk = len(qs)
        v.ensure('shape', a.shape == (2 ** kk, 2 ** kk) and b.shape == a.shape)
        if qs == sorted(qs):
            v.ensure_eq('assignment matrix of the qubits', a, kron([mats[q] for q in qs]))
            v.ensure_eq('mitigation matrix is the inverse', b @ a, np.eye(2 ** kk), tol=1e-6)
        v.ensure_eq('columns sum to one', a.sum(axis=0), np.ones(2 ** kk))
        v.ensure_eq('columns of the inverse sum to one', b.sum(axis=0), np.ones(2 ** kk), tol=1e-6)
        want = [kron([mats[q] for q in qs]), kron([mats[q] for q in sorted(qs)])]
        v.ensure('a tensor product in list order or sorted order',
                 any(np.allclose(a, w) for w in want) and any(np.allclose(np.linalg.inv(b), w) for w in want))
        fid = float(np.mean(np.diag(kron([mats[q] for q in qs]))))
        v.ensure_eq('fidelity is the mean diagonal', float(mit.assignment_fidelity(qubits)), fid)
        inv = np.linalg.inv(kron([mats[q] for q in qs]))
        gamma = float(np.max(np.sum(np.abs(inv), axis=0)))
        v.ensure_eq('error bound is the largest column norm of the inverse',
                    float(mit.stddev_upper_bound(shots=4, qubits=qubits)), gamma / 2, tol=1e-6)
        v.ensure_eq('overhead', mit.mitigation_overhead(qubits), math.ceil(gamma ** 2 - 1e-12))
        dl = 0.1
        need = 4 * gamma ** 2 / dl ** 2
        v.ensure('required shots', need - 1e-6 <= mit.required_shots(dl, qubits) < need + 1 + 1e-6)
    if method == 'tensored' or qs == sorted(qs):
        q = v.choice('single', list(range(n)))
        v.ensure_eq('single qubit', np.asarray(mit.assignment_matrix(q)), mats[q])


@reg.contract(TM + ':TensoredExpvalMeasMitigator._compute_gamma', mode='F', mods=ALL, samples=6)
def gamma_one_qubit(v):
    """for every single-qubit noise the error bound is the largest column norm of
    the inverse matrix"""
    from qiskit.ignis.mitigation.expval import tensored_mitigator
    a = one_qubit(v, 'q')
    mit = tensored_mitigator.TensoredExpvalMeasMitigator([a])
    g = mit.stddev_upper_bound(shots=1)
    det = a[0, 0] * a[1, 1] - a[0, 1] * a[1, 0]
    c0 = (a[1, 1] + a[1, 0])       # det * column 0 norm
    c1 = (a[0, 1] + a[0, 0])
    v.ensure_eq('gamma * det = larger column norm', g * det, ite(c0 >= c1, c0, c1))
    v.ensure('inverse exists', det > 0)


@reg.contract(U + ':_expval_with_stddev through the mitigators', mode='B',
              sizes=[{'n': n, 'method': m} for n in (1, 2, 3) for m in ('complete', 'tensored')], samples=6)
def mitigated_stddev(v, n, method):
    """stddev^2 = (sum_x p(x) c(x)^2 - value^2) / shots with c the corrected
    observable, and never above the advertised bound"""
    from qiskit.ignis.mitigation import expectation_value
    from qiskit.ignis.mitigation.expval import complete_mitigator, tensored_mitigator
    mats = [one_qubit(v, 'q%d' % i) for i in range(n)]
    full = kron(mats)
    mit = complete_mitigator.CompleteExpvalMeasMitigator(full) if method == 'complete' else \
        tensored_mitigator.TensoredExpvalMeasMitigator(mats)
    counts = drop_zeros(counts_input(v, 'c', n))
    arg, o = diag_arg(v, 2 ** n)
    e, s = expectation_value(counts, diagonal=arg, meas_mitigator=mit)
    shots = sum(counts.values())
    c = np.linalg.inv(full).T @ np.array(o, dtype=float)
    p = np.array([counts.get(k, 0) for k in bitstrings(n)]) / shots
    v.ensure_eq('value', float(e), float(c @ p), tol=1e-6)
    var = max(0.0, float((c ** 2) @ p - (c @ p) ** 2) / shots)
    v.ensure('stddev', abs(s * s - var) < 1e-7 and s >= 0, lambda: '%r %r' % (s, var ** .5))
    if max(abs(x) for x in o) <= 1:
        v.ensure('within the bound', s <= mit.stddev_upper_bound(shots=shots) + 1e-9)


def spec_local(data, n, qubits, d):
    """numerators: counts[y|x] keeping only outcomes with no error outside the
    qubits; bit i of the local index is qubits[i]"""
    num = {}
    for x, cnt in data.items():
        for y, c in cnt.items():
            if all((x >> q) & 1 == (y >> q) & 1 for q in range(n) if q not in qubits):
                lx = sum(((x >> q) & 1) << i for i, q in enumerate(qubits))
                ly = sum(((y >> q) & 1) << i for i, q in enumerate(qubits))
                num[ly, lx] = num.get((ly, lx), 0) + c
    return num


@reg.contract(U + ':assignment_matrix', mode='S', sizes=[{'n': 1, 'sub': 0}, {'n': 2, 'sub': 0}, {'n': 2, 'sub': 1}],
              rsizes=[{'n': n, 'sub': s} for n in (1, 2, 3) for s in (0, 1)], mods=ALL, samples=6, budget=60)
def assignment(v, n, sub):
    """assignment_matrix(calibration counts): relative frequencies, full or for
    one qubit conditioned on no error elsewhere"""
    from qiskit.ignis.mitigation.expval import utils as m
    d = 2 ** n
    if sub:
        q = v.choice('q', list(range(n)))
        qubits, dim = [q], 2
        cals = [0, d - 1] if v.choice('cals', [0, 1]) or v.symbolic else list(range(d))
    else:
        qubits, dim = None, d
        cals = list(range(d))
    data = {x: {int(k, 2): c for k, c in counts_input(v, 'c%d' % x, n, positive=False).items()} for x in cals}
    if v.symbolic:
        for x in cals:
            for c in data[x].values():
                v.require(c > 0)
    else:
        data = {x: {k: c for k, c in cnt.items() if c} for x, cnt in data.items()}
    num = spec_local(data, n, list(range(n)) if qubits is None else qubits, dim)
    col = [sum(num.get((y, x), 0) for y in range(dim)) for x in range(dim)]
    if not v.symbolic and 0 in col:
        from qiskit import QiskitError
        v.ensure_raises('insufficient calibration data', QiskitError, m.assignment_matrix, data, n, qubits)
        return
    mat = m.assignment_matrix(data, n, qubits)
    v.ensure('shape', np.shape(mat) == (dim, dim))
    for x in range(dim):
        for y in range(dim):
            v.ensure('entry = frequency of measured given prepared', v.eq(mat[y, x] * col[x], num.get((y, x), 0)))


@reg.contract(P + 'circuits:expval_meas_mitigator_circuits', mode='B',
              sizes=[{'n': n, 'method': m} for n in (1, 2, 3, 4) for m in ('complete', 'tensored', 'CTMP', 'ctmp')],
              samples=1)
def circuits(v, n, method):
    """each calibration circuit prepares the state its metadata names and measures
    qubit i into bit i; the labels are those the method needs"""
    from qiskit.ignis.mitigation import expval_meas_mitigator_circuits
    circs, meta = expval_meas_mitigator_circuits(n, method=method)
    labels = [m['cal'] for m in meta]
    v.ensure('one circuit per label', len(circs) == len(meta))
    need = {'complete': bitstrings(n), 'tensored': ['0' * n, '1' * n]}.get(
        method, ['0' * n, '1' * n] + ['0' * (n - 1 - i) + '1' + '0' * i for i in range(n)])
    v.ensure('labels of the method', set(labels) == set(need) and (n == 1 or len(labels) == len(need)))
    custom = v.choice('labels', [['1' + '0' * (n - 1)], bitstrings(n)[::-1]])
    c2, m2 = expval_meas_mitigator_circuits(n, method=method, labels=custom)
    v.ensure('custom labels', [m['cal'] for m in m2] == custom)
    for c, m in zip(circs + c2, meta + m2):
        v.ensure('metadata', m['experiment'] == 'meas_mit' and m['method'] == method)
        dist = distribution(c)
        v.ensure('prepares and measures the labelled state', set(dist) == {m['cal']}, lambda: short((dist, m)))


@reg.contract(P + 'circuits:expval_meas_mitigator_circuits, ' + P + 'fitter:ExpvalMeasMitigatorFitter', mode='B', samples=1)
def rejects(v):
    """unknown methods and unfitted mitigators are rejected"""
    from qiskit import QiskitError
    from qiskit.ignis.mitigation import expval_meas_mitigator_circuits, ExpvalMeasMitigatorFitter
    v.ensure_raises('unknown method', QiskitError, expval_meas_mitigator_circuits, 2, 'foo')
    res = real_result([('a', {'0': 10}), ('b', {'1': 10})], 1)
    meta = [{'experiment': 'meas_mit', 'cal': '0', 'method': 'complete'},
            {'experiment': 'meas_mit', 'cal': '1', 'method': 'complete'}]
    f = ExpvalMeasMitigatorFitter(res, meta)

    def get():
        return f.mitigator
    v.ensure_raises('not fitted', QiskitError, get)
    v.ensure_raises('unknown fit method', QiskitError, f.fit, 'foo')
    m = f.fit()
    v.ensure('fitted mitigator kept', f.mitigator is m)
    f = ExpvalMeasMitigatorFitter(res, meta[:1])
    v.ensure_raises('missing calibration', QiskitError, f.fit)


@reg.contract(P + 'fitter:ExpvalMeasMitigatorFitter', mode='B',
              sizes=[{'n': n, 'method': m} for n in (1, 2, 3) for m in ('complete', 'tensored')], samples=5)
def fit_from_results(v, n, method):
    """fitting the calibration results gives the matrices of the noise; data of
    repeated calibrations are pooled; other experiments in the result are skipped"""
    from qiskit.ignis.mitigation import expval_meas_mitigator_circuits, ExpvalMeasMitigatorFitter
    mats = [one_qubit(v, 'q%d' % i) for i in range(n)]
    full = kron(mats)
    r = nprng(v)
    circs, meta = expval_meas_mitigator_circuits(n, method=method)
    items = list(zip([c.name for c in circs], meta))
    rep = v.choice('rep', [False, True])
    if rep:
        items = items + items
    items.insert(v.choice('pos', [0, 1]), ('other', {'experiment': 'other', 'cal': '0' * n}))
    data = {}
    named, mm = [], []
    for name, me in items:
        p = full[:, int(me['cal'], 2)]
        cnt = {k: int(c) for k, c in zip(bitstrings(n), r.multinomial(3000, p / p.sum())) if c}
        named.append((name, cnt))
        mm.append(me)
        if me['experiment'] == 'meas_mit':
            tgt = data.setdefault(int(me['cal'], 2), {})
            for k, c in cnt.items():
                tgt[int(k, 2)] = tgt.get(int(k, 2), 0) + c
    res = real_result(named, n)
    fit = ExpvalMeasMitigatorFitter(res, mm)
    how = v.choice('how', [None, method])
    mit = fit.fit(method=how)
    v.ensure('same mitigator from the property', fit.mitigator is mit)

    def local(qs):
        dd = 2 ** len(qs)
        num = spec_local(data, n, qs, dd)
        a = np.array([[num.get((y, x), 0) for x in range(dd)] for y in range(dd)], dtype=float)
        return a / a.sum(axis=0)
    want = local(list(range(n))) if method == 'complete' else kron([local([q]) for q in range(n)])
    v.ensure_eq('assignment matrix of the pooled calibration', np.asarray(mit.assignment_matrix()), want)
    v.ensure_eq('mitigation matrix', np.asarray(mit.mitigation_matrix()), np.linalg.inv(want), tol=1e-6)


@reg.contract(P + 'fitter:ExpvalMeasMitigatorFitter; ' + U + ':assignment_matrix; calibration_data (many qubits)', mode='B', sizes=[{'n': 9}, {'n': 12}], samples=2)
def many_qubits(v, n):
    """tensored method on more qubits than the proofs enumerate: each matrix is the frequency of
    the qubit's outcomes where the others are as prepared"""
    from qiskit.ignis.mitigation import expval_meas_mitigator_circuits, ExpvalMeasMitigatorFitter, expectation_value
    from qiskit.ignis.mitigation.expval import utils
    r = nprng(v)
    circs, meta = expval_meas_mitigator_circuits(n, method='tensored')
    v.ensure('labels', sorted(m['cal'] for m in meta) == ['0' * n, '1' * n])
    named, data = [], {}
    for c, m in zip(circs, meta):
        x = int(m['cal'], 2)
        cnt = {x: 4000 + int(r.randint(100))}
        for q in range(n):
            cnt[x ^ (1 << q)] = int(r.randint(10, 300))
        for _ in range(6):
            a, b = (int(k) for k in r.choice(n, 2, replace=False))
            cnt[x ^ (1 << a) ^ (1 << b)] = int(r.randint(1, 9))
        data[x] = cnt
        named.append((c.name, {format(k, '0%db' % n): c2 for k, c2 in cnt.items()}))
    mit = ExpvalMeasMitigatorFitter(real_result(named, n), meta).fit()

    def local(qs):
        num = spec_local(data, n, qs, 2 ** len(qs))
        a = np.array([[num.get((y, x), 0) for x in range(2 ** len(qs))] for y in range(2 ** len(qs))], dtype=float)
        return a / a.sum(axis=0)
    mats = [local([q]) for q in range(n)]
    for q in range(n):
        v.ensure_eq('matrix of a qubit', np.asarray(mit.assignment_matrix([q])), mats[q])
        v.ensure_eq('matrix of a qubit (assignment_matrix)', np.asarray(utils.assignment_matrix(data, n, [q])), mats[q])
    def gamma(q):
        return float(np.max(np.sum(np.abs(np.linalg.inv(mats[q])), axis=0)))
    for qs in (None, [int(k) for k in r.permutation(n)], [int(k) for k in r.permutation(n)[:n - 1]]):
        sel = range(n) if qs is None else qs
        v.ensure_eq('fidelity of many qubits', float(mit.assignment_fidelity(qs)),
                    float(np.prod([np.mean(np.diag(mats[q])) for q in sel])), tol=1e-9)
        v.ensure_eq('error bound of many qubits', float(mit.stddev_upper_bound(shots=4, qubits=qs)),
                    float(np.prod([gamma(q) for q in sel])) / 2, tol=1e-6)
    pair = sorted(int(k) for k in r.choice(n, 2, replace=False))
    v.ensure_eq('matrix of a pair', np.asarray(mit.assignment_matrix(pair)), kron([mats[q] for q in pair]))
    qs = [int(k) for k in r.permutation(n)[:3]]
    t, c = noisy_counts(v, [mats[q] for q in qs], 3)
    arg, o = diag_arg(v, 8)
    check(v, expectation_value(c, diagonal=arg, qubits=qs, meas_mitigator=mit), t, o)
