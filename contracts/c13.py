"""C13 randomized benchmarking fits use the true survival statistics"""
from contracts.common import *
from pyvc.core import short

reg = Registry('C13')
reg.assumptions += ['floats treated as reals', 'Result.get_counts(name) returns the stored counts',
                    'curve_fit returns the least-squares parameters and their covariance (stand-in returning arbitrary values in the proofs)']
F = IG + 'verification.randomized_benchmarking.fitters'
UT = IG + 'utils'
TD = IG + 'verification.tomography.data'
MODS = [F, UT, TD]


def fitters():
    import qiskit.ignis.verification.randomized_benchmarking as m
    return m


def cname(base, k, s):
    return '%s_length_%d_seed_%d' % (base, k, s)


def zero_fraction(cnts, start, end):
    """fraction of shots whose clbits start..end-1 are all 0 (clbit 0 rightmost)"""
    tot = sum(c for d in cnts for c in d.values())
    z = 0
    for d in cnts:
        for key, c in d.items():
            key = key[::-1]
            if all(key[i] == '0' for i in range(start, end)):
                z = z + c
    return z, tot


PAT = [[[0]], [[1, 0]], [[0], [1]], [[2], [0, 1]]]


@reg.contract(F + ':RBFitter.add_data; calc_data', mode='S',
              sizes=[{'pattern': p, 'seeds': s, 'split': k} for p in PAT for s, k in ((1, 'one'), (2, 'one'), (2, 'per seed'), (2, 'shots'))],
              rsizes=[{'pattern': p, 'seeds': s, 'split': k} for p in PAT for s, k in ((1, 'one'), (2, 'one'), (2, 'per seed'), (3, 'shots'))]
              + [{'pattern': [[0]], 'seeds': 13, 'split': 'one'}, {'pattern': [[3], [1]], 'seeds': 12, 'split': 'per seed'}, {'pattern': [[0]], 'seeds': 23, 'split': 'shots'}],
              mods=MODS, builtin=('int', 'float'), samples=3, budget=120)
def survival(v, pattern, seeds, split):
    """ground state fraction for every pattern, seed and length; data may be
    split over results"""
    n = sum(len(p) for p in pattern)
    combo = v.choice('combo', [(0, 'rb', 'list'), (5, 'rb_cnotdihedral_Z', 'one by one'), (2, 'rb_interleaved', 'reversed')])
    off, base, how = combo
    nl = 2 if v.symbolic else v.choice('nl', [2, 3, 12])
    parts = 2 if split == 'shots' else 1
    data = {}
    keys = bitstrings(n)
    supp = v.choice('support', [[keys], [keys, keys[1:], keys[-1:]], [keys[:1], keys[::2], keys[1::2]]]) if v.symbolic else None
    for s in range(seeds):
        for k in range(nl):
            for j in range(parts):
                if v.symbolic:      # arbitrary positive counts on the support
                    keep = supp[(s + k + j) % len(supp)]
                    data[s, k, j] = {b: v.int('c%d_%d_%d_%s' % (s, k, j, b), 1) for b in keep}
                else:
                    data[s, k, j] = drop_zeros(counts_input(v, 'c%d_%d_%d' % (s, k, j), n))
    if not v.symbolic and v.choice('equal', [False, False, True]):
        for s, k, j in list(data):     # jobs which happen to return the same counts
            data[s, k, j] = dict(data[s, k, 0])
    lens = np.array([[1 + 3 * k for k in range(nl)]] * len(pattern))
    exps = [[(cname(base, k, s + off), data[s, k, j]) for k in range(nl)] for j in range(parts) for s in range(seeds)]
    if split == 'one':
        exps = [[e for x in exps for e in x]]
    f = fitters().RBFitter(None, lens, [list(p) for p in pattern])
    res = [FakeResult(x) if v.symbolic else real_result(x, n) for x in exps]
    if how == 'list':
        f.add_data(res, rerun_fit=False)
    else:
        for r in (res if how == 'one by one' else reversed(res)):
            f.add_data(r, rerun_fit=False)
    f.calc_data()
    order = list(f.seeds)
    v.ensure('every seed once', sorted(order) == [s + off for s in range(seeds)])
    start = 0
    for pi, p in enumerate(pattern):
        end = start + len(p)
        raw = f.raw_data[pi]
        v.ensure('one row per seed, one value per length', len(raw) == seeds and all(len(x) == nl for x in raw))
        for si, s in enumerate(order):
            for k in range(nl):
                z, tot = zero_fraction([data[s - off, k, j] for j in range(parts)], start, end)
                v.ensure('fraction of shots in the ground state', seq(raw[si][k] * tot, z) if v.symbolic else abs(raw[si][k] - z / tot) < 1e-12,
                         lambda: short((raw[si][k], z, tot)))
        start = end


@reg.contract(F + ':RBFitter.calc_statistics', mode='S', sizes=[{'np_': a, 'seeds': b} for a, b in ((1, 1), (1, 2), (1, 3), (2, 2), (1, 4))],
              rsizes=[{'np_': a, 'seeds': b} for a, b in ((1, 1), (1, 2), (2, 3), (3, 12))], mods=MODS, samples=3)
def statistics(v, np_, seeds):
    """mean and standard deviation over seeds for every pattern and length"""
    nl = 2
    raw_all = [[[v.real('y%d_%d_%d' % (p, s, k), 0, 1) for k in range(nl)] for s in range(seeds)] for p in range(np_)]
    f = fitters().RBFitter(None, np.array([[1, 2]] * np_), [[p] for p in range(np_)])
    f.raw_data = raw_all
    f.calc_statistics()
    v.ensure('one entry per pattern', len(f.ydata) == np_)
    for pi in range(np_):
        raw = raw_all[pi]
        for k in range(nl):
            m = sum(raw[si][k] for si in range(seeds)) / seeds
            v.ensure('mean over seeds', v.eq(f.ydata[pi]['mean'][k], m, 1e-12))
            if seeds == 1:
                v.ensure('no deviation from a single seed', f.ydata[pi]['std'] is None)
            else:
                sd = f.ydata[pi]['std'][k]
                var = sum((raw[si][k] - m) ** 2 for si in range(seeds)) / seeds
                v.ensure('standard deviation over seeds', and_(sd >= 0, v.eq(sd * sd, var, 1e-12)))


# ------------------------------------------------------------------- fitting
class FitRecorder:
    """stand-in for curve_fit: records the call, returns arbitrary parameters
    within the bounds and an arbitrary diagonal covariance"""

    def __init__(self, v):
        self.v = v
        self.calls = []

    def __call__(self, f, xdata, ydata, p0=None, sigma=None, bounds=None, **kw):
        v, i = self.v, len(self.calls)
        par = np.empty(3, dtype=object if v.symbolic else float)
        cov = np.empty((3, 3), dtype=object if v.symbolic else float)
        cov.fill(0)
        for j in range(3):
            par[j] = v.real('par%d_%d' % (i, j), 0.01, 0.99)
            cov[j, j] = v.real('cov%d_%d' % (i, j), 0, None) ** 2
            v.require(cov[j, j] > 0)
        self.calls.append(dict(f=f, x=xdata, y=ydata, p0=p0, sigma=sigma, bounds=bounds, par=np.array(par), cov=cov))
        return par, cov


def called(rec):
    if not rec.calls:
        raise Unsupported('fitted without curve_fit') if rec.v.symbolic else Skip('fitted without curve_fit')


def err_of(v, x, cov):
    """x is the square root of the covariance entry"""
    return and_(x >= 0, v.eq(x * x, cov))


def symbolic_data(v, pattern, nl, seeds, tag=''):
    """raw data (fractions in (0,1))"""
    return [[[v.real('y%s%d_%d_%d' % (tag, p, s, k), 0.05, 0.95) for k in range(nl)] for s in range(seeds)] for p in range(len(pattern))]


def prime(v, fit, raw):
    """put fractions into an RBFitter through its public setters"""
    fit.raw_data = [[list(map(lambda x: x, s)) for s in p] for p in raw]
    fit.calc_statistics()


@reg.contract(F + ':RBFitter.fit_data; fit_data_pattern', mode='S', sizes=[{'pattern': p, 'seeds': s} for p, s in (([[0]], 1), ([[0]], 2), ([[1, 0]], 2), ([[2], [0, 1]], 1), ([[2, 0, 1]], 1))],
              mods=MODS, builtin=('float',), samples=4, budget=150)
def fit_formulas(v, pattern, seeds):
    """the documented model is fitted to the mean data, weighted by the standard
    deviation, starting inside the bounds; errors per Clifford by formula"""
    rec = FitRecorder(v)
    v.standin('curve_fit', rec, 'scipy.optimize.curve_fit')
    lens = np.array([[1, 4, 6]] * len(pattern))
    f = fitters().RBFitter(None, lens, [list(p) for p in pattern])
    raw = symbolic_data(v, pattern, 3, seeds)
    for p in range(len(pattern)):      # first point above the asymptote and decaying (guess path of interest)
        for s in range(seeds):
            v.require(raw[p][s][0] > 0.55)
    prime(v, f, raw)
    f.fit_data()
    called(rec)
    v.ensure('one fit per pattern', len(rec.calls) == len(pattern) and len(f.fit) == len(pattern))
    for pi, (p, c) in enumerate(zip(pattern, rec.calls)):
        v.ensure('x values are the lengths of the pattern', np.array_equal(c['x'], lens[pi]))
        v.ensure('y values are the means', and_(*[v.eq(c['y'][k], sum(raw[pi][s][k] for s in range(seeds)) / seeds) for k in range(3)]))
        g = c['f']
        v.ensure('model a alpha^m + b', all(abs(g(m, .4, .9, .25) - (.4 * .9 ** m + .25)) < 1e-12 for m in (0, 1, 7)))
        lo, hi = c['bounds']
        v.ensure('parameters bounded to the unit interval', list(lo) == [0, 0, 0] and list(hi) == [1, 1, 1])
        v.ensure('starting point inside the bounds', and_(*[and_(x >= 0, x <= 1) for x in c['p0']]))
        if seeds == 1:
            v.ensure('no weights from a single seed', c['sigma'] is None)
        else:
            sd = f.ydata[pi]['std']
            if c['sigma'] is None:
                v.ensure('weights dropped only when a deviation vanishes', or_(*[v.eq(sd[k], 0) for k in range(3)]))
            else:
                v.ensure('weights are the standard deviations', and_(*[and_(v.eq(c['sigma'][k], sd[k]), sd[k] > 0) for k in range(3)]))
        r = f.fit[pi]
        d = 2 ** len(p)
        v.ensure('parameters', and_(*[v.eq(r['params'][j], c['par'][j]) for j in range(3)]))
        v.ensure('errors are the square roots of the variances', and_(*[err_of(v, r['params_err'][j], c['cov'][j, j]) for j in range(3)]))
        v.ensure('error per Clifford (d-1)/d (1-alpha)', v.eq(r['epc'] * d, (d - 1) * (1 - c['par'][1])))
        v.ensure('error of the error per Clifford', v.eq(r['epc_err'] * d * c['par'][1], (d - 1) * r['params_err'][1]))


def two_fits(v, cls, pattern, attrs):
    rec = FitRecorder(v)
    v.standin('curve_fit', rec, 'scipy.optimize.curve_fit')
    lens = np.array([[1, 3]] * len(pattern))
    f = cls(None, None, lens, [list(p) for p in pattern])
    for i, a in enumerate(attrs):
        prime(v, getattr(f, a), [[[0.9 - 0.01 * (2 * j + i), 0.8]] for j in range(len(pattern))])
    f.fit_data()
    called(rec)
    v.ensure('one fit per pattern and sequence', len(rec.calls) == 2 * len(pattern))
    # the fits are told apart by their data, in whatever order they were made
    by = {int(round(100 * (0.9 - float(c['y'][0])))): c for c in rec.calls}
    v.ensure('every sequence of every pattern is fitted', sorted(by) == list(range(2 * len(pattern))))
    return f, [by[2 * j] for j in range(len(pattern))], [by[2 * j + 1] for j in range(len(pattern))]


@reg.contract(F + ':InterleavedRBFitter.fit_data', mode='F', sizes=[{'pattern': p} for p in ([[0]], [[1, 0]], [[2], [0, 1]], [[0, 1, 2]])],
              mods=MODS, builtin=('float',), samples=4)
def interleaved_formulas(v, pattern):
    """gate error, its uncertainty and its systematic bounds: Eqs. (4), (5) of arXiv:1203.4550"""
    f, std, itl = two_fits(v, fitters().InterleavedRBFitter, pattern, ('rbfit_std', 'rbfit_int'))
    v.ensure('one result per pattern', len(f.fit_int) == len(pattern))
    for pi, p in enumerate(pattern):
        d = 2 ** len(p)
        a, ac = std[pi]['par'][1], itl[pi]['par'][1]
        r = f.fit_int[pi]
        v.ensure('alpha of both decays', and_(v.eq(r['alpha'], a), v.eq(r['alpha_c'], ac)))
        v.ensure('errors of alpha', and_(err_of(v, r['alpha_err'], std[pi]['cov'][1, 1]), err_of(v, r['alpha_c_err'], itl[pi]['cov'][1, 1])))
        v.ensure('gate error (d-1)/d (1 - alpha_c/alpha)', v.eq(r['epc_est'] * d * a, (d - 1) * (a - ac)))
        q = a - ac / a
        b1 = (d - 1) * (ite(q >= 0, q, -q) + 1 - a) / d
        s1 = (1 - a).sqrt() if v.symbolic else float(np.sqrt(1 - a))
        s2 = float(np.sqrt(d * d - 1))
        b2 = 2 * (d * d - 1) * (1 - a) / (a * d * d) + 4 * s1 * s2 / a
        v.ensure('systematic bound: the smaller one of Eq. (5)', v.eq(r['systematic_err'], ite(b1 <= b2, b1, b2)))
        v.ensure('bounds around the estimate', and_(v.eq(r['systematic_err_L'], r['epc_est'] - r['systematic_err']), v.eq(r['systematic_err_R'], r['epc_est'] + r['systematic_err'])))
        e = r['epc_est_err']
        v.ensure('error of the gate error', and_(e >= 0, v.eq((e * d * a) * (e * d * a),
                 (d - 1) ** 2 * ac * ac * ((r['alpha_err'] / a) ** 2 + (r['alpha_c_err'] / ac) ** 2))))


@reg.contract(F + ':CNOTDihedralRBFitter.fit_data', mode='F', sizes=[{'pattern': p} for p in ([[0]], [[1, 0]], [[2], [0, 1]], [[0, 1, 2]])],
              mods=MODS, builtin=('float',), samples=4)
def cnotdihedral_formulas(v, pattern):
    """joint decay parameter and error per gate"""
    f, z, x = two_fits(v, fitters().CNOTDihedralRBFitter, pattern, ('rbfit_Z', 'rbfit_X'))
    v.ensure('one result per pattern', len(f.fit_cnotdihedral) == len(pattern))
    for pi, p in enumerate(pattern):
        d = 2 ** len(p)
        az, ar = z[pi]['par'][1], x[pi]['par'][1]
        r = f.fit_cnotdihedral[pi]
        v.ensure('alpha = (alpha_Z + d alpha_R)/(d+1)', v.eq(r['alpha'] * (d + 1), az + d * ar))
        v.ensure('error per gate (d-1)/d (1-alpha)', v.eq(r['epg_est'] * d, (d - 1) * (1 - r['alpha'])))
        ez, ex = f.fit[0][pi]['params_err'][1], f.fit[1][pi]['params_err'][1]
        v.ensure('error of alpha', and_(r['alpha_err'] >= 0, v.eq((r['alpha_err'] * (d + 1)) ** 2, (ez / az) ** 2 + (d * ex / ar) ** 2)))
        v.ensure('error of the error per gate', v.eq(r['epg_est_err'] * d * r['alpha'], (d - 1) * r['alpha_err']))


# -------------------------------------------------------------------- purity
def purity_spec(settings, n, start):
    """(1/2^n) sum_P <P>^2 from the counts of the 3^n settings (setting d: qubit
    k has digit (d // 3^k) % 3)"""
    corr, num = {}, {}
    for d, cnt in enumerate(settings):
        tot = sum(cnt.values())
        for mask in range(2 ** n):
            e = 0
            for key, c in cnt.items():
                bits = key[::-1][start:start + n]
                sg = sum(1 for k in range(n) if mask >> k & 1 and bits[k] == '1')
                e = e + (c if sg % 2 == 0 else -c)
            lab = tuple((d // 3 ** k) % 3 if mask >> k & 1 else None for k in range(n))
            corr[lab] = corr.get(lab, 0) + e / tot
            num[lab] = num.get(lab, 0) + 1
    return sum((corr[x] / num[x]) ** 2 for x in corr) / 2 ** n


PURNAMES = lambda n: [''.join('ZXY'[(d // 3 ** k) % 3] for k in range(n)) for d in range(3 ** n)]


@reg.contract(F + ':PurityRBFitter.calc_data; F234; add_zdict_ops', mode='S', sizes=[{'n': 1, 'np_': 1}, {'n': 2, 'np_': 1}, {'n': 3, 'np_': 1}],
              rsizes=[{'n': 1, 'np_': 1}, {'n': 1, 'np_': 2}, {'n': 2, 'np_': 1}, {'n': 2, 'np_': 2}, {'n': 3, 'np_': 1}], mods=MODS, builtin=('int', 'float'), samples=3, budget=120)
def purity_value(v, n, np_):
    """the purity of every pattern, seed and length, and its statistics"""
    seeds = 1 if v.symbolic else v.choice('seeds', [1, 2])
    nl = 1 if v.symbolic else 2
    tot = n * np_
    data = {}
    for s in range(seeds):
        for d in range(3 ** n):
            for k in range(nl):
                if v.symbolic:
                    ks = bitstrings(tot)
                    c = {x: v.int('c%d_%s' % (d, x), 0) for x in ks[:-1]}
                    c[ks[-1]] = 100 - sum(c.values())
                else:
                    c = drop_zeros(counts_input(v, 'c%d_%d_%d' % (s, d, k), tot, hi=20))
                data[s, d, k] = c
    names = PURNAMES(n)
    pattern = [[i * n + j for j in range(n)] for i in range(np_)]
    f = fitters().PurityRBFitter(None, 3 ** n, np.array([[1 + k for k in range(nl)]] * np_), pattern)
    v.ensure('lengths', np.array_equal(f.cliff_lengths, [[1 + k for k in range(nl)]] * np_))
    res = []
    for s in range(seeds):
        for d in range(3 ** n):
            x = [('rb_purity_%s_length_%d_seed_%d' % (names[d], k, s), data[s, d, k]) for k in range(nl)]
            res.append(FakeResult(x) if v.symbolic else real_result(x, tot))
    f.add_data(res, rerun_fit=False)
    if not v.symbolic and v.choice('twice', [False, True]):
        f.add_data(res, rerun_fit=False)
    f.calc_data()
    f.calc_statistics()
    for pi in range(np_):
        for s in range(seeds):
            for k in range(nl):
                want = purity_spec([data[s, d, k] for d in range(3 ** n)], n, pi * n)
                v.ensure('purity', v.eq(f.raw_data[pi][s][k], want, 1e-9), lambda: short((f.raw_data[pi][s][k], want)))
        if not v.symbolic:
            v.ensure('mean over seeds', np.allclose(f.ydata[pi]['mean'], np.mean(f.raw_data[pi], 0)))


@reg.contract(F + ':PurityRBFitter.fit_data', mode='F', sizes=[{'n': 1, 'np_': 1}, {'n': 2, 'np_': 1}, {'n': 1, 'np_': 2}], mods=MODS, builtin=('float',), samples=4)
def purity_formulas(v, n, np_):
    """the fitted parameter is the square of alpha"""
    rec = FitRecorder(v)
    v.standin('curve_fit', rec, 'scipy.optimize.curve_fit')
    f = fitters().PurityRBFitter(None, 3 ** n, np.array([[1, 3]] * np_), [[i * n + j for j in range(n)] for i in range(np_)])
    prime(v, f.rbfit_pur, [[[0.9 - 0.01 * j, 0.8]] for j in range(np_)])
    f.fit_data()
    d = 2 ** n
    called(rec)
    by = {int(round(100 * (0.9 - float(c['y'][0])))): c for c in rec.calls}
    v.ensure('every pattern is fitted once', sorted(by) == list(range(np_)) and len(rec.calls) == np_)
    for pi in range(np_):
        r, c = f.fit[pi], by[pi]
        al = r['params'][1]
        e, e2 = r['params_err'][1], c['cov'][1, 1]
        # the deviation listed as purity-alpha-err (2 sqrt(alpha) for 2 alpha) and no other
        v.ensure('error of alpha (or the listed deviation)', and_(e >= 0, or_(v.eq(4 * al * al * e * e, e2), v.eq(4 * al * e * e, e2))))
        v.ensure('the other parameters and their errors', and_(*[and_(v.eq(r['params'][j], c['par'][j]), err_of(v, r['params_err'][j], c['cov'][j, j])) for j in (0, 2)]))
        v.ensure('alpha is the square root of the fitted parameter', and_(al >= 0, v.eq(al * al, c['par'][1])))
        v.ensure('purity error per Clifford (d-1)/d (1-alpha)', v.eq(r['pepc'] * d, (d - 1) * (1 - al)))
        v.ensure('error of the purity error per Clifford', v.eq(r['pepc_err'] * d * al, (d - 1) * r['params_err'][1]))


@reg.contract(F + ':PurityRBFitter.fit_data (error of alpha)', mode='B', samples=1, known='purity-alpha-err')
def purity_alpha_error(v):
    """error propagation through the square root"""
    import qiskit.ignis.verification.randomized_benchmarking.fitters as m
    f = fitters().PurityRBFitter(None, 3, np.array([[1, 5, 10, 20]]), [[0]])
    y = [0.5 * 0.9 ** x + 0.5 + e for x, e in zip([1, 5, 10, 20], (0.001, -0.002, 0.0015, -0.001))]
    f.rbfit_pur.raw_data = [[y]]
    f.calc_statistics()
    f.rbfit_pur.fit_data()
    e0 = f.fit[0]['params_err'][1]
    f.fit_data()
    v.ensure('error of alpha = error of alpha^2 / (2 alpha)', abs(f.fit[0]['params_err'][1] - e0 / (2 * f.fit[0]['params'][1])) < 1e-9)


# ------------------------------------------------------------ run-time fits
def decay_results(v, r, pattern, lens, alphas, a, base, seeds, shots=10 ** 10, split=1):
    """results whose survival probabilities are exactly a alpha^m + b"""
    n = sum(len(p) for p in pattern)
    out = []
    for s in range(seeds):
        exps = []
        for k in range(len(lens[0])):
            ps = []
            for pi, p in enumerate(pattern):
                b = 1 / 2 ** len(p)
                ps.append(a[pi] * alphas[pi] ** lens[pi][k] + b)
            cnt = {}
            for bits in itertools.product((0, 1), repeat=len(pattern)):
                pr = 1.0
                key = ''
                for pi, p in enumerate(pattern):
                    pr *= ps[pi] if bits[pi] == 0 else 1 - ps[pi]
                    w = '0' * len(p) if bits[pi] == 0 else '0' * (len(p) - 1) + '1'
                    key = w + key
                c = int(round(pr * shots))
                if c:
                    cnt[key] = c
            exps.append((cname(base, k, s), cnt))
        out.append(real_result(exps, n))
    return out


@reg.contract(F + ':RBFitter', mode='B', sizes=[{'pattern': p} for p in ([[0]], [[1, 0]], [[2], [0, 1]])], samples=3)
def exact_decay(v, pattern):
    """exact exponential data return the exact decay"""
    r = nprng(v)
    lens = np.array([[1 + 12 * k * (1 + pi) for k in range(8)] for pi in range(len(pattern))])
    al = [0.97 + 0.025 * r.rand() for _ in pattern]
    a = [(1 - 1 / 2 ** len(p)) * (0.85 + 0.1 * r.rand()) for p in pattern]
    seeds = v.choice('seeds', [1, 3])
    res = decay_results(v, r, pattern, lens, al, a, 'rb', seeds)
    how = v.choice('how', ['at once', 'pieces', 'constructor'])
    if how == 'constructor':
        f = fitters().RBFitter(res[0], lens, pattern)
        for x in res[1:]:
            f.add_data([x])
    elif how == 'at once':
        f = fitters().RBFitter(res, lens, pattern)
    else:
        f = fitters().RBFitter(None, lens, pattern)
        for x in res:
            f.add_data(x)
    for pi, p in enumerate(pattern):
        d = 2 ** len(p)
        v.ensure('alpha', abs(f.fit[pi]['params'][1] - al[pi]) < 1e-4, lambda: short((f.fit[pi], al[pi])))
        v.ensure('amplitude and offset', abs(f.fit[pi]['params'][0] - a[pi]) < 2e-3 and abs(f.fit[pi]['params'][2] - 1 / d) < 2e-3)
        v.ensure('epc', abs(f.fit[pi]['epc'] - (d - 1) / d * (1 - f.fit[pi]['params'][1])) < 1e-12)
        v.ensure('fit function', abs(f.rb_fit_fun(3, .5, .8, .2) - (.5 * .8 ** 3 + .2)) < 1e-12)


@reg.contract(F + ':RBFitter (noisy data)', mode='B', sizes=[{'n': 1}, {'n': 2}], samples=10)
def noisy(v, n):
    """arbitrary data: the fit starts from a feasible point"""
    r = nprng(v)
    pattern = [list(range(n))]
    lens = np.array([v.choice('lens', [[1, 2, 3, 4], [10, 11, 12, 30], [1, 21, 41]])])
    exps = []
    for k in range(len(lens[0])):
        p = r.rand(2 ** n) ** v.choice('sharp', [1, 3])
        exps.append((cname('rb', k, 0), {b: int(x * 1000) for b, x in zip(bitstrings(n), p / p.sum()) if int(x * 1000)}))
    try:
        f = fitters().RBFitter(real_result(exps, n), lens, pattern)
    except RuntimeError as e:               # curve_fit did not converge on meaningless data
        v.require('Optimal parameters not found' not in str(e))
        raise
    v.ensure('parameters in the unit interval', all(-1e-9 <= x <= 1 + 1e-9 for x in f.fit[0]['params']))


@reg.contract(F + ':InterleavedRBFitter; CNOTDihedralRBFitter', mode='B', sizes=[{'kind': k} for k in ('interleaved', 'cnotdihedral')], samples=3)
def two_sequences(v, kind):
    """both sequences are fitted, adding data in pieces equals adding it at once"""
    r = nprng(v)
    pattern = v.choice('pattern', [[[0]], [[1, 0]], [[2], [0, 1]], None])
    pt = pattern or [[0]]
    lens = np.array([[1 + 15 * k for k in range(7)]] * len(pt))
    cls = fitters().InterleavedRBFitter if kind == 'interleaved' else fitters().CNOTDihedralRBFitter
    b1, b2 = ('rb', 'rb_interleaved') if kind == 'interleaved' else ('rb_cnotdihedral_Z', 'rb_cnotdihedral_X')
    al1 = [0.985 + 0.01 * r.rand() for _ in pt]
    al2 = [x * (0.985 + 0.01 * r.rand()) for x in al1]
    a = [0.9 * (1 - 1 / 2 ** len(p)) for p in pt]
    r1, r2 = decay_results(v, r, pt, lens, al1, a, b1, 3), decay_results(v, r, pt, lens, al2, a, b2, 3)
    n = sum(len(p) for p in pt)
    # a second batch with other counts and other numbers of shots
    def noise(base):
        return [real_result([(cname(base, k, s), {b: int(r.randint(1, 10 ** 9)) for b in bitstrings(n)}) for k in range(7)], n) for s in range(3)]
    x1, x2 = noise(b1), noise(b2)
    f = cls(r1, r2, lens, pattern)
    for pi, p in enumerate(pt):
        d = 2 ** len(p)
        e = f.fit_int[pi] if kind == 'interleaved' else f.fit_cnotdihedral[pi]
        if kind == 'interleaved':
            v.ensure('gate error', abs(e['epc_est'] - (d - 1) / d * (1 - al2[pi] / al1[pi])) < 2e-4, lambda: short((e, al1, al2)))
        else:
            v.ensure('gate error', abs(e['epg_est'] - (d - 1) / d * (1 - (al1[pi] + d * al2[pi]) / (d + 1))) < 2e-4, lambda: short((e, al1, al2)))
    g = cls(r1, r2, lens, pattern)
    g.add_data(x1, x2)
    h = cls(r1 + x1, r2 + x2, lens, pattern)
    v.ensure('adding in pieces equals adding at once', np.allclose(np.array(g.raw_data, dtype=float), np.array(h.raw_data, dtype=float), atol=1e-9))
    fg, fh = (g.fit_int, h.fit_int) if kind == 'interleaved' else (g.fit_cnotdihedral, h.fit_cnotdihedral)
    v.ensure('adding data renews the fit', len(fg) == len(fh) and all(abs(x[k] - y[k]) < 1e-6 for x, y in zip(fg, fh) for k in x if np.isscalar(x[k]) and np.isfinite(y[k])))
    for i in (0, 1):
        q = cls(r1, r2, lens, pattern)
        before = [x['params'][1] for x in q.fit[1 - i]]
        q.fit[0][0] = q.fit[1][0] = None
        q.fit_data_pattern(0, (0.4, 0.98, 0.5), i)
        v.ensure('fit_data_pattern fits the requested sequence', q.fit[1 - i][0] is None and abs(q.fit[i][0]['params'][1] - (al1, al2)[i][0]) < 2e-4, lambda: short((q.fit, al1, al2)))
    v.ensure('results kept once', [len(x) for x in g.results] == [6, 6])
    v.ensure('seeds', [sorted(x) for x in g.seeds] == [[0, 1, 2]] * 2)


@reg.contract(F + ':PurityRBFitter', mode='B', sizes=[{'n': 1}, {'n': 2}], samples=2)
def purity_decay(v, n):
    """exact purity decay; adding data in pieces renews data, statistics and fit"""
    r = nprng(v)
    lens = np.array([[1 + 6 * k for k in range(8)]])
    al = 0.98 + 0.01 * r.rand()
    shots = 10 ** 12

    def batch(s):
        out = []
        for dd in range(3 ** n):
            ex = []
            for k in range(8):
                # Z..Z correlations alpha^m in every setting (all other directions zero)
                z = 0.9 * al ** lens[0][k] if dd == 0 else 0.0
                c = {b: int(round(shots * (1 + z * (1 if b == '0' * n else -1 / (2 ** n - 1))) / 2 ** n)) for b in bitstrings(n)}
                ex.append(('rb_purity_%s_length_%d_seed_%d' % (PURNAMES(n)[dd], k, s), c))
            out.append(real_result(ex, n))
        return out
    data = [batch(s) for s in range(2)]
    f = fitters().PurityRBFitter(data[0] + data[1], 3 ** n, lens, [list(range(n))])
    g = fitters().PurityRBFitter(data[0], 3 ** n, lens, [list(range(n))])
    g.add_data(data[1])
    for h in (f, g):
        v.ensure('alpha', abs(h.fit[0]['params'][1] - al) < 1e-3, lambda: short((h.fit, al)))
        v.ensure('purity error', abs(h.fit[0]['pepc'] - (1 - 2 ** -n) * (1 - h.fit[0]['params'][1])) < 1e-12)
    v.ensure('pieces or at once', np.allclose(f.raw_data, g.raw_data) and np.allclose(f.ydata[0]['mean'], g.ydata[0]['mean']) and np.allclose(f.fit[0]['params'], g.fit[0]['params'], atol=1e-5))


# ------------------------------------------------- any number of results
from contracts import ulib as UL

reg.contract(UT + ':build_counts_dict_from_list (any list)', **UL.U)(UL.any_count_list)


@reg.contract(F + ':RBFitter.calc_data (any number of results)', sizes=[{'pat': p, 'nl': nl} for p, nl in ((0, 3), (1, 2), (2, 2), (3, 2))], **UL.U)
def any_results(v, pat, nl):
    """any number of results, each with or without a circuit: the survival
    probability is the marginal count of 0..0 over all shots of all results"""
    f = UL.Bag()
    f._rb_pattern, f._nseeds = PAT[pat], [0, 3, 11]
    f._cliff_lengths = [list(range(1, nl + 1)) for _ in f._rb_pattern]
    name = 'rb_length_%d_seed_%d'
    blocks, at = [], 0
    for p in f._rb_pattern:
        blocks.append(tuple(range(at, at + len(p))))
        at += len(p)
    rs = UL.AnyResults(v, [(name % (k, s), b, '0' * len(b)) for k in range(nl) for s in f._nseeds for b in blocks])
    first = FakeResult([('rb_length_0_seed_0', {})])
    rs.seq.first = first
    f._result_list = WithFirst(rs.seq, first)
    UL.twin(F, 'RBFitter.calc_data', UL.combine_stubs())(f)
    for i, b in enumerate(blocks):
        for j, s in enumerate(f._nseeds):
            for k in range(nl):
                c = name % (k, s)
                v.ensure('survival probability', UL.seq(f._raw_data[i][j][k] * rs.shots(c), rs.marginal(c, b, '0' * len(b))))


class WithFirst(UL.Seq):
    """the first result is also read for the type of the circuits"""

    def __init__(self, q, first):
        UL.Seq.__init__(self, q.n, q.elem, q.ident, q.guard, q.facts)
        self.first = first

    def __getitem__(self, i):
        if i == 0:
            return self.first
        raise UL.Unsupported('a particular result')
