"""C03 readout correction inverts the calibrated noise and keeps the data form"""
from contracts.common import *
from pyvc.core import short

reg = Registry('C03')
reg.assumptions += ['floats treated as reals',
                    'scipy.linalg.pinv of a nonsingular square matrix is its inverse',
                    'scipy.optimize.minimize: evaluated at run time only (least squares is a bounded check)']
M = IG + 'mitigation.measurement.filters'


def nonsingular(v, name, d):
    """a column-stochastic, diagonally dominant calibration matrix"""
    if not v.symbolic:
        a = random_stochastic(nprng(v, name), d, 0.4)
        if name in ('a', 'a0') and v.choice(name + ' near singular', [False, False, True]):
            t = v.choice(name + ' t', [4e-3, 2e-2])
            a = (1 - t) / d + t * a
        return a
    a = v.array(name, (d, d), lo=0.001, hi=1)
    for j in range(d):
        a[j, j] = 1 - sum(a[i, j] for i in range(d) if i != j)
        v.require(a[j, j] > 0.5)
    return a


def data(v, name, k):
    """a data vector of k entries of any sign; symbolic vectors of four entries have one
    of any sign, longer ones are positive (the code branches on every zero entry)"""
    if not v.symbolic:
        y = v.array(name, (k,), lo=-20, hi=100)
        return np.where(np.abs(y) < 3, 0.0, y)
    if k < 4:
        return v.array(name, (k,), lo=-20, hi=100)
    if k == 4:
        y = v.array(name, (k,), lo=0.5, hi=100)
        y[v.choice(name + ' any', list(range(k)))] = v.real(name + 'any', -20, 100)
        return y
    return v.array(name, (k,), lo=0.5, hi=100)


def vec_to_counts(labels, y):
    return {l: y[i] for i, l in enumerate(labels)}


@reg.contract(M + ':MeasurementFilter.apply (pseudo_inverse)', mode='S', sizes=[{'n': 1, 'form': f} for f in ('dict', 'list', 'multi')],
              rsizes=[{'n': n, 'form': f} for n in (1, 2, 3) for f in ('dict', 'list', 'multi')],
              mods=[M], samples=5)
def pinv_recovers(v, n, form):
    """MeasurementFilter.apply(A x, 'pseudo_inverse') == x for every vector x of
    true counts and every nonsingular calibration matrix A, in each data form"""
    from qiskit.ignis.mitigation.measurement import filters as m
    labels = list(v.choice('labels', [bitstrings(n), bitstrings(n)[::-1]]))
    d = 2 ** n
    a = nonsingular(v, 'a', d)
    x = v.array('x', (d,), lo=-20, hi=100)
    f = m.MeasurementFilter(a, labels)
    y = a.dot(x)
    if form == 'dict':
        data = vec_to_counts(labels, y)
        before = dict(data)
        res = f.apply(data, method='pseudo_inverse')
        v.ensure('result is a dict over known labels', isinstance(res, dict) and set(res) <= set(labels))
        for i, l in enumerate(labels):
            v.ensure_eq('recovers the true counts', res.get(l, 0), x[i], tol=1e-6)
        v.ensure('input unchanged', v.eq(data, before))
    elif form == 'list':
        data = list(y)
        res = f.apply(data, method='pseudo_inverse')
        v.ensure('same length', len(res) == d)
        for i in range(d):
            v.ensure_eq('recovers the true vector', res[i], x[i], tol=1e-6)
        v.ensure('input unchanged', v.eq(data, list(y)))
    else:
        x2 = v.array('x2', (d,), lo=-20, hi=100)
        res = f.apply(list(y) + list(a.dot(x2)), method='pseudo_inverse')
        v.ensure('same length', len(res) == 2 * d)
        for i in range(d):
            v.ensure_eq('recovers the first block', res[i], x[i], tol=1e-6)
            v.ensure_eq('recovers the second block', res[d + i], x2[i], tol=1e-6)


def kron_apply(mats, sizes, x):
    """(tensor product of the group matrices) x, group 0 on the rightmost bits"""
    full = np.array([[1]], dtype=object)
    for a in mats:
        full = np.kron(a, full)
    return full.dot(x)


@reg.contract(M + ':TensoredFilter.apply (pseudo_inverse)', mode='S', sizes=[{'sizes': [1]}],
              rsizes=[{'sizes': s} for s in ([1], [1, 1], [2, 1], [1, 2], [2], [1, 1, 1], [1, 3])], mods=[M], samples=5,
              budget=150)
def tensored_pinv_recovers(v, sizes):
    """TensoredFilter.apply((A_k x ... x A_0) x, 'pseudo_inverse') == x"""
    from qiskit.ignis.mitigation.measurement import filters as m
    n = sum(sizes)
    labels = bitstrings(n)
    sub = [bitstrings(s) for s in sizes]
    mats = [nonsingular(v, 'a%d' % k, 2 ** s) for k, s in enumerate(sizes)]
    x = v.array('x', (2 ** n,), lo=-20, hi=100)
    f = m.TensoredFilter(mats, sub)
    y = kron_apply(mats, sizes, x)
    if not v.symbolic:
        y = np.array(y, dtype=float)
    res = f.apply(vec_to_counts(labels, y), method='pseudo_inverse')
    v.ensure('result is a dict over all labels', isinstance(res, dict) and set(res) <= set(labels))
    for i, l in enumerate(labels):
        v.ensure_eq('recovers the true counts', res.get(l, 0), x[i], tol=1e-6)


@reg.contract(M + ':TensoredFilter.apply (pseudo_inverse)', mode='S', sizes=[{'sizes': [1, 1]}, {'sizes': [2, 1]}, {'sizes': [1, 2]}],
              rsizes=[{'sizes': [1, 1]}, {'sizes': [2, 1]}, {'sizes': [1, 2]}, {'sizes': [2, 2]}], mods=[M], samples=4)
def tensored_structure(v, sizes):
    """the correction is the tensor product of the group inverses, group 0 acting
    on the rightmost bits, whatever order the group labels are listed in"""
    from qiskit.ignis.mitigation.measurement import filters as m
    n = sum(sizes)
    labels = bitstrings(n)
    sub = [bitstrings(s) for s in sizes]
    if v.choice('rev', [False, True]):
        sub = [s[::-1] for s in sub]
    inv = [v.array('b%d' % k, (2 ** s, 2 ** s), lo=0.01, hi=2) for k, s in enumerate(sizes)]
    # symbolic runs: the group inverses are arbitrary matrices
    v.inverse_is(lambda a: a)
    mats = inv
    if not v.symbolic:
        inv = [b + 3 * np.eye(len(b)) for b in inv]
        mats = [np.linalg.pinv(b) for b in inv]
    y = data(v, 'y', 2 ** n)
    if v.choice('reset', [False, True]):
        # a filter made for other groups, then given these through its setters
        f = m.TensoredFilter([np.eye(2)] * (n + 1), [['0', '1']] * (n + 1))
        if v.choice('used', [False, True]):
            f.apply({'0' * (n + 1): 3}, method='pseudo_inverse')
        f.cal_matrices = mats
        f.substate_labels_list = sub
    else:
        f = m.TensoredFilter(mats, sub)
    v.ensure('group sizes', f.qubit_list_sizes == list(sizes) and f.nqubits == n)
    res = f.apply(vec_to_counts(labels, y), method='pseudo_inverse')
    bounds, end = [], n
    for s in sizes:
        bounds.append((end - s, end))
        end -= s
    for l in labels:
        tot = 0
        for k2, l2 in enumerate(labels):
            w = 1
            for (a, b), mat, sl in zip(bounds, inv, sub):
                w = w * mat[sl.index(l[a:b]), sl.index(l2[a:b])]
            tot = tot + w * y[k2]
        v.ensure_eq('entry of the corrected counts', res.get(l, 0), tot, tol=1e-5)


@reg.contract(M + ':MeasurementFilter.apply (pseudo_inverse)', mode='S', sizes=[{'n': 2, 'blocks': 0}, {'n': 2, 'blocks': 1}, {'n': 2, 'blocks': 3}, {'n': 3, 'blocks': 0}],
              mods=[M], samples=3)
def complete_structure(v, n, blocks):
    """the correction multiplies each block by the inverse matrix, rows and
    columns in the order of the state labels"""
    from qiskit.ignis.mitigation.measurement import filters as m
    d = 2 ** n
    labels = list(v.choice('labels', [bitstrings(n), bitstrings(n)[::-1], bitstrings(n)[1:] + ['0' * n]]))
    inv = v.array('b', (d, d), lo=0.01, hi=2)
    v.inverse_is(lambda a: a)
    mat = inv
    if not v.symbolic:
        inv = inv + 3 * np.eye(d)
        mat = np.linalg.pinv(inv)
    if v.choice('reset', [False, True]):
        f = m.MeasurementFilter(np.eye(2), ['0', '1'])
        if v.choice('used', [False, True]):
            f.apply({'0': 3, '1': 4}, method='pseudo_inverse')
        f.cal_matrix = mat
        f.state_labels = labels
    else:
        f = m.MeasurementFilter(mat, labels)
    y = data(v, 'y', max(blocks, 1) * d)
    if blocks == 0:
        res = f.apply({l: y[i] for i, l in reversed(list(enumerate(labels)))}, method='pseudo_inverse')
        v.ensure('labels', set(res) <= set(labels))
        got = [res.get(l, 0) for l in labels]
    else:
        got = f.apply(list(y), method='pseudo_inverse')
        v.ensure('length', len(got) == blocks * d)
    for k in range(max(blocks, 1)):
        for i in range(d):
            v.ensure_eq('row of inverse times data', got[k * d + i],
                        sum(inv[i, j] * y[k * d + j] for j in range(d)), tol=1e-5)


@reg.contract(M + ':MeasurementFilter.apply, TensoredFilter.apply (least_squares)', mode='B',
              sizes=[{'n': 1}, {'n': 2}, {'n': 3}], samples=4, budget=200)
def least_squares(v, n):
    """least squares: nonnegative, mass preserving, and exact when the data are
    produced by the calibrated noise (complete and tensored filters)"""
    from qiskit.ignis.mitigation.measurement import MeasurementFilter, TensoredFilter
    r = nprng(v)
    labels = bitstrings(n)
    mats = [random_stochastic(r, 2, 0.2) for _ in range(n)]
    full = np.array([[1.0]])
    for a in mats:
        full = np.kron(a, full)
    x = r.dirichlet(np.ones(2 ** n)) * 1000
    y = full @ x
    which = v.choice('which', ['complete', 'tensored'])
    if which == 'complete':
        f = MeasurementFilter(full, labels)
    else:
        f = TensoredFilter(mats, [['0', '1']] * n)
    how = v.choice('method', ['least_squares', None, 'default'])
    res = f.apply(vec_to_counts(labels, y)) if how == 'default' else f.apply(vec_to_counts(labels, y), method=how)
    got = np.array([res.get(l, 0) for l in labels])
    v.ensure('no negative counts', np.min(got) > -1e-3, lambda: short(got))
    v.ensure('number of shots preserved', abs(got.sum() - y.sum()) < 0.5, lambda: short(got))
    v.ensure('fits the data', np.linalg.norm(full @ got - y) < 5, lambda: short((full @ got, y)))
    # noisy data: still a valid, mass preserving answer, no worse than the raw data
    y2 = r.multinomial(500, np.clip(y / y.sum(), 0, 1) / np.sum(np.clip(y / y.sum(), 0, 1)))
    res = f.apply({l: int(c) for l, c in zip(labels, y2) if c}, method='least_squares')
    got = np.array([res.get(l, 0) for l in labels])
    v.ensure('noisy data: no negative counts', np.min(got) > -1e-3)
    v.ensure('noisy data: shots preserved', abs(got.sum() - 500) < 0.5)
    best = np.linalg.norm(full @ got - y2)
    v.ensure('noisy data: no worse than the raw counts', best <= np.linalg.norm(full @ y2 - y2) + 1e-3)
    # stacked vectors: every block keeps its own number of shots
    if which == 'complete':
        xs = [x, r.dirichlet(np.ones(2 ** n)) * 300, r.dirichlet(np.ones(2 ** n)) * 4000]
        ys = [full @ z for z in xs]
        data = [float(e) for z in ys for e in z]
        blk = np.asarray(f.apply(list(data), method='least_squares')).reshape(3, 2 ** n)
        for z, g in zip(ys, blk):
            v.ensure('stacked: no negative counts', np.min(g) > -1e-3)
            v.ensure('stacked: every block keeps its shots', abs(g.sum() - z.sum()) < 0.5, lambda: short((g, z)))
            v.ensure('stacked: every block fits its data', np.linalg.norm(full @ g - z) < 0.02 * z.sum(), lambda: short((g, z)))
    best = np.linalg.norm(full @ got - y2)
    for _ in range(20):
        z = got + r.uniform(0, 0.05) * 500 * (r.dirichlet(np.ones(2 ** n)) - got / 500)
        v.ensure('noisy data: no better feasible point nearby', best <= np.linalg.norm(full @ z - y2) + 0.3)


@reg.contract(M + ':MeasurementFilter.apply, TensoredFilter.apply (Result input)', mode='B',
              sizes=[{'n': 1}, {'n': 2}], samples=3)
def result_form(v, n):
    """a Result is corrected experiment by experiment into a new Result"""
    from qiskit.ignis.mitigation.measurement import MeasurementFilter, TensoredFilter
    r = nprng(v)
    labels = bitstrings(n)
    mats = [random_stochastic(r, 2, 0.3) for _ in range(n)]
    full = np.array([[1.0]])
    for a in mats:
        full = np.kron(a, full)
    named = []
    num = v.choice('num', [1, 3, 12])
    names = v.choice('names', ['exp%d', 'same', 'exp'])
    for k in range(num):
        c = r.multinomial(200 + 50 * k, r.dirichlet(np.ones(2 ** n)))
        named.append((names % k if '%' in names else names if names == 'same' else 'exp%d' % (k // 2), {l: int(x) for l, x in zip(labels, c) if x}))
    res = real_result(named, n)
    for f in (MeasurementFilter(full, labels), TensoredFilter(mats, [['0', '1']] * n)):
        out = f.apply(res, method='pseudo_inverse')
        v.ensure('same number of experiments', len(out.results) == num)
        for k, (name, c) in enumerate(named):
            one = f.apply(c, method='pseudo_inverse')
            got = out.results[k].data.counts
            v.ensure('experiment k corrected like its counts', set(got) == set(one) and
                     all(abs(got[l] - one[l]) < 1e-7 for l in one), lambda: short((got, one)))
            v.ensure('input result unchanged', dict(res.get_counts(k)) == c)


@reg.contract(M + ':MeasurementFilter.apply, TensoredFilter.apply', mode='B', samples=1)
def rejects(v):
    """unusable input is rejected instead of silently corrected"""
    from qiskit import QiskitError
    from qiskit.ignis.mitigation.measurement import MeasurementFilter, TensoredFilter
    f = MeasurementFilter(np.eye(4), bitstrings(2))
    t = TensoredFilter([np.eye(2)] * 2, [['0', '1']] * 2)
    for meth in ('pseudo_inverse', 'least_squares'):
        v.ensure_raises('unknown label', QiskitError, f.apply, {'000': 3}, method=meth)
        v.ensure_raises('vector of wrong length', QiskitError, f.apply, [1, 2, 3], method=meth)
        v.ensure_raises('unknown data type', QiskitError, f.apply, 'abc', method=meth)
        v.ensure_raises('unknown data type (tensored)', QiskitError, t.apply, [1, 2, 3, 4], method=meth)
    for n, k in ((1, 5), (3, 65), (5, 65), (7, 257)):
        g = MeasurementFilter(np.eye(2 ** n), bitstrings(n))
        v.ensure_raises('vector that is no multiple of the number of states', QiskitError, g.apply, [1.0] * k, method='pseudo_inverse')
    v.ensure_raises('unknown method', QiskitError, f.apply, {'00': 3}, method='nope')
    v.ensure_raises('unknown method (tensored)', QiskitError, t.apply, {'00': 3}, method='nope')


@reg.contract(M + ':TensoredFilter.apply vs MeasurementFilter.apply', mode='B', sizes=[{'n': 2}, {'n': 3}], samples=4)
def agree(v, n):
    """the tensored filter equals the complete filter with the product matrix"""
    from qiskit.ignis.mitigation.measurement import MeasurementFilter, TensoredFilter
    r = nprng(v)
    labels = bitstrings(n)
    sizes = v.choice('sizes', [[1] * n, [n - 1, 1], [1, n - 1]])
    mats = [random_stochastic(r, 2 ** s, 0.3) for s in sizes]
    full = np.array([[1.0]])
    for a in mats:
        full = np.kron(a, full)
    c = {l: int(x) for l, x in zip(labels, r.multinomial(300, r.dirichlet(np.ones(2 ** n) * 0.5))) if x}
    a = MeasurementFilter(full, labels).apply(c, method='pseudo_inverse')
    b = TensoredFilter(mats, [bitstrings(s) for s in sizes]).apply(c, method='pseudo_inverse')
    for l in labels:
        v.ensure_eq('same corrected counts', a.get(l, 0), b.get(l, 0), tol=1e-6)
