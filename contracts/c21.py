"""C21 characterisation fits are made on the true survival probabilities"""
from contracts.common import *
from pyvc.core import short

reg = Registry('C21')
reg.assumptions += ['floats treated as reals', 'Result.get_counts(name) returns the stored counts',
                    'curve_fit returns the least-squares parameters and their covariance (stand-in returning arbitrary values in the proofs)',
                    'exp and cos are uninterpreted functions in the proofs of the models']
CH = IG + 'characterization.'
B = CH + 'fitters'
MODS = [B, CH + 'coherence.fitters', CH + 'gates.fitters', CH + 'hamiltonian.fitters', CH + 'calibrations.fitters',
        IG + 'utils', IG + 'verification.tomography.data']


def ch():
    import qiskit.ignis.characterization as m
    return m


def fitters(which):
    """class, name of the circuits, series, expected outcome, number of parameters, index of the time"""
    m = ch()
    return {
        't1': (m.T1Fitter, 't1circuit', ['0'], '1', 3),
        't2': (m.T2Fitter, 't2circuit', ['0'], '0', 3),
        't2star': (m.T2StarFitter, 't2starcircuit', ['0'], '0', 5),
        'zz': (m.ZZFitter, 'zzcircuit', ['0', '1'], '0', 4),
        'ampcal': (m.AmpCalFitter, 'ampcal1Qcircuit', ['0'], '1', 2),
        'anglecal': (m.AngleCalFitter, 'anglecal1Qcircuit', ['0'], '1', 2),
        'ampcalcx': (m.AmpCalCXFitter, 'ampcalcxcircuit', ['0'], '1', 2),
        'anglecalcx': (m.AngleCalCXFitter, 'anglecalcxcircuit', ['0'], '1', 2),
    }[which]


WHICH = ['t1', 't2', 't2star', 'zz', 'ampcal', 'anglecal', 'ampcalcx', 'anglecalcx']


def make(which, results, x, qubits, p0=None, bounds=None):
    cls, base, series, exp, npar = fitters(which)
    p0 = p0 or [0.5] * npar
    bounds = bounds or ([-10] * npar, [10] * npar)
    if which == 'zz':
        return cls(results, x, qubits, [q + 10 for q in qubits], fit_p0=p0, fit_bounds=bounds)
    return cls(results, x, qubits, fit_p0=p0, fit_bounds=bounds)


def survival(counts_list, bit, width, want):
    """(number of shots, shots in which the clbit gave the expected outcome)"""
    tot = hit = 0
    for c in counts_list:
        for k, n in c.items():
            tot = tot + n
            if k.replace(' ', '')[width - 1 - bit] == want:
                hit = hit + n
    return tot, hit


@reg.contract(B + ':BaseFitter._calc_data; add_data; ydata', mode='S', sizes=[dict(which=w, k=1, nx=1, w=1, nr=2) for w in WHICH] + [dict(which=w, k=2, nx=1, w=2, nr=1) for w in WHICH if w != 'zz'] + [dict(which=w, k=1, nx=2, w=1 if w == 'zz' else 2, nr=1) for w in WHICH],
              rsizes=[dict(which=w, k=k, nx=4, w=3, nr=r) for w in WHICH for k, r in ((1, 1), (2, 3), (3, 2))]
              + [dict(which=w, k=12, nx=1, w=12, nr=1) for w in WHICH], samples=5, mods=MODS)
def probabilities(v, which, k, nx, w, nr):
    """fraction of shots with the expected outcome of the qubit and its binomial
    error, for all counts, widths and divisions in results"""
    cls, base, series, exp, npar = fitters(which)
    qubits = list(range(k)) if v.symbolic else [int(q) for q in nprng(v, 'q').permutation(max(5, k))[:k]]
    x = np.arange(1, nx + 1) * 2.0
    data = {}
    results = []
    for r in range(nr):
        named = []
        for s in series:
            for i in range(nx):
                if not v.symbolic and r and v.choice('has%d%s%d' % (r, s, i), [True, False]) is False:
                    continue
                nm = '%s_%d_%s' % (base, i, s)
                if w > 5:         # a few of the many outcomes
                    c = {format(int(b), '0%db' % w): int(n) for b, n in zip(nprng(v, 'b%s%d' % (s, i)).randint(0, 2 ** w, 7), (1, 2, 3, 5, 8, 13, 21))}
                else:
                    c = counts_input(v, 'c%d%s%d' % (r, s, i), w, hi=9)
                if not v.symbolic:
                    c = drop_zeros(c)
                    cut = v.choice('cut%d%s%d' % (r, s, i), [0, 1])
                    if cut and w > 1:
                        c = {a[:cut] + ' ' + a[cut:]: n for a, n in c.items()}
                named.append((nm, c))
                data.setdefault((s, i), []).append(c)
        if not v.symbolic and v.choice('rev%d' % r, [False, True]):
            named.reverse()
        results.append(FakeResult(named))
    f = make(which, None, x, list(qubits))
    how = v.choice('how', ['list', 'one by one'])
    if how == 'list':
        f.add_data(list(results), refit=False)
    else:
        for r in results[:-1]:
            f.add_data(r, recalc=False, refit=False)
        f.add_data(results[-1], refit=False)
    y = f.ydata
    v.ensure('all series', sorted(y) == sorted(series) and all(len(y[s]) == k for s in series))
    for s in series:
        for j in range(k):
            v.ensure('one value per x', len(y[s][j]['mean']) == nx == len(y[s][j]['std']))
            for i in range(nx):
                tot, hit = survival(data[(s, i)], j, w, exp)
                mean, std = y[s][j]['mean'][i], y[s][j]['std'][i]
                v.ensure('fraction of shots with the expected outcome', v.eq(mean * tot, hit, 1e-9), lambda: short((which, mean, tot, hit)))
                v2 = hit * (tot - hit)
                if v2 == 0:
                    v.ensure('floor of the error', v.eq(std, 1e-4, 1e-12), lambda: short(std))
                else:
                    v.ensure('binomial error', and_(std > 0, v.eq(std * std * tot * tot * tot, v2, 1e-6)), lambda: short((std, tot, hit)))
    v.ensure('x axis, qubits and results are kept', list(f.xdata) == list(x) and list(f.measured_qubits) == qubits and len(f.backend_result) == nr and f.series == series)


def put_data(v, f, yd):
    """arbitrary data, as _calc_data stores them"""
    f._ydata = yd
    try:
        ok = f.ydata is yd
    except AttributeError:
        ok = False
    if not ok:
        raise Skip('data kept elsewhere')


class FitRecorder:
    def __init__(self, v, npar):
        self.v, self.npar, self.calls = v, npar, []

    def __call__(self, f, xdata, ydata, p0=None, sigma=None, bounds=None, **kw):
        v, i, n = self.v, len(self.calls), self.npar
        par = np.empty(n, dtype=object if v.symbolic else float)
        cov = np.empty((n, n), dtype=object if v.symbolic else float)
        cov.fill(0)
        err = []
        for j in range(n):
            par[j] = v.real('par%d_%d' % (i, j), 0.01)
            err.append(v.real('err%d_%d' % (i, j), 0))
            cov[j, j] = err[-1] ** 2
        self.calls.append(dict(f=f, x=xdata, y=ydata, p0=p0, sigma=sigma, bounds=bounds, par=par, err=err, kw=kw))
        return par, cov


@reg.contract(B + ':BaseFitter.fit_data; time; time_err; angle_err; ZZ_rate', mode='F', sizes=[dict(which=w, k=k) for w in WHICH for k in (1, 2)],
              rsizes=[dict(which=w, k=k) for w in WHICH for k in (1, 2, 6)], samples=2, mods=MODS)
def fits(v, which, k):
    """one fit per qubit and series on its own data, weighted by its errors, from
    the given start and bounds; derived quantities by formula"""
    cls, base, series, exp, npar = fitters(which)
    rec = FitRecorder(v, npar)
    v.standin('curve_fit', rec, 'scipy.optimize.curve_fit')
    x = np.array([1.0, 2.0, 5.0])
    p0 = [0.3 + 0.1 * i for i in range(npar)]
    bounds = ([-3] * npar, [4] * npar)
    f = make(which, None, x, list(range(k)), list(p0), bounds)
    yd = {s: [{'mean': [v.real('y%s_%d_%d' % (s, j, i), 0, 1) for i in range(2)] + [0.01 * (sj * k + j)], 'std': [v.real('s%s_%d_%d' % (s, j, i), 0.001, 1) for i in range(3)]} for j in range(k)] for sj, s in enumerate(series)}
    put_data(v, f, yd)
    f.fit_data()
    if not rec.calls:
        raise Unsupported('fitted without curve_fit') if v.symbolic else Skip('fitted without curve_fit')
    v.ensure('one fit per qubit and series', len(rec.calls) == k * len(series))
    # the fits are told apart by the last point, in whatever order they were made
    fits = {int(round(100 * float(c['y'][2]))): c for c in rec.calls}
    v.ensure('every qubit and series is fitted', sorted(fits) == list(range(k * len(series))))
    for n, c in fits.items():
        s, j = series[n // k], n % k
        own = yd[s][j]
        v.ensure('own data', and_(*[v.eq(c['y'][i], own['mean'][i]) for i in range(3)]))
        v.ensure('own errors', and_(*[v.eq(c['sigma'][i], own['std'][i]) for i in range(3)]))
        v.ensure('x axis', list(c['x']) == [1.0, 2.0, 5.0])
        v.ensure('start and bounds', list(c['p0']) == p0 and [list(b) for b in c['bounds']] == [list(b) for b in bounds])
        v.ensure('model of the fitter', c['f'] == f.fit_fun)
        v.ensure('parameters stored with their qubit', and_(*[v.eq(f.params[s][j][i], c['par'][i]) for i in range(npar)]))
        v.ensure('errors stored with their qubit', and_(*[v.eq(f.params_err[s][j][i], c['err'][i]) for i in range(npar)]))
        if which in ('t1', 't2', 't2star', 'zz'):
            v.ensure('time constant', and_(v.eq(f.time(j, s), c['par'][1]), v.eq(f.time(series=s)[j], c['par'][1])))
            v.ensure('its error', and_(v.eq(f.time_err(j, s), c['err'][1]), v.eq(f.time_err(series=s)[j], c['err'][1])))
        else:
            v.ensure('half of the fitted error', and_(v.eq(2 * f.angle_err(j), c['par'][0]), v.eq(2 * f.angle_err()[j], c['par'][0])))
    if which == 'zz':
        for j in range(k):
            d = fits[k + j]['par'][1] - fits[j]['par'][1]
            v.ensure('difference of the frequencies', and_(v.eq(f.ZZ_rate(j), d), v.eq(f.ZZ_rate()[j], d)))
    # a refit of one qubit and series leaves the others
    old = {s: [list(f.params[s][j]) for j in range(k)] for s in series}
    f.fit_data(qid=k - 1, p0=[1.0] * npar, bounds=([0] * npar, [9] * npar), series=series[-1])
    c = rec.calls[-1]
    v.ensure('one more fit', len(rec.calls) == k * len(series) + 1)
    v.ensure('given start and bounds', list(c['p0']) == [1.0] * npar and [list(b) for b in c['bounds']] == [[0] * npar, [9] * npar])
    for s in series:
        for j in range(k):
            want = c['par'] if (s, j) == (series[-1], k - 1) else old[s][j]
            v.ensure('only the selected fit is changed', and_(*[v.eq(f.params[s][j][i], want[i]) for i in range(npar)]))
    if v.choice('all qubits', [False, True]):
        f.fit_data(p0=[1.0] * npar, bounds=([0] * npar, [9] * npar))
    n = len(rec.calls)
    f.fit_data()
    v.ensure('start and bounds of one call are not kept for the next', len(rec.calls) == n + k * len(series) and all(
        list(c['p0']) == p0 and [list(b) for b in c['bounds']] == [list(b) for b in bounds] for c in rec.calls[n:]))


class Uninterpreted:
    """exp or cos: equal arguments give equal values, nothing else assumed"""

    def __init__(self, v, name):
        self.v, self.name, self.args = v, name, []

    def __call__(self, x):
        for a, r in self.args:
            if core.poly_identity(core.term(x, True) == core.term(a, True)):
                return r
        for a, r in self.args:
            if bool(x == a):
                return r
        r = self.v.real('%s%d' % (self.name, len(self.args)))
        self.args.append((x, r))
        return r


@reg.contract(B + ':BaseFitter fit functions', mode='F', sizes=[dict(which=w) for w in WHICH], samples=20, mods=MODS)
def models(v, which):
    """the documented models"""
    f = make(which, None, np.array([1.0, 2.0]), [0])
    npar = fitters(which)[4]
    p = [v.real('p%d' % i, 0.1, 3) for i in range(npar)]
    x = v.real('x', 0, 10)
    if v.symbolic:
        ex, co = Uninterpreted(v, 'exp'), Uninterpreted(v, 'cos')
        v.standin('exp', ex)
        v.standin('cos', co)
    else:
        ex, co = math.exp, math.cos
    pi = np.pi
    if which in ('t1', 't2'):
        a, tau, c = p
        want = a * ex(-x / tau) + c
    elif which == 't2star':
        a, tau, fr, phi, c = p
        want = a * ex(-x / tau) * co(2 * pi * fr * x + phi) + c
    elif which == 'zz':
        a, fr, phi, c = p
        want = a * co(2 * pi * fr * x + phi) + c
    elif which in ('ampcal', 'anglecal'):
        th, c = p
        want = -0.5 * co((pi / 2 + th) * x + pi / 2 + th) + c
    else:
        th, c = p
        want = -0.5 * co((pi + th) * x + pi / 2) + c
    v.ensure('model', v.eq(f.fit_fun(x, *p), want, 1e-9), lambda: short((which, p, x)))


@reg.contract(CH + '*.fitters (noiseless model data)', mode='B', sizes=[dict(which=w) for w in WHICH], samples=3)
def recovers(v, which):
    """fits of exact model data return the parameters of every qubit"""
    cls, base, series, exp, npar = fitters(which)
    k = 2
    nx = 25
    r = nprng(v)
    if which in ('t1', 't2', 't2star'):
        x = np.linspace(0.5, 60, nx)
    elif which == 'zz':
        x = np.linspace(0.2, 8, nx)
    else:
        x = np.arange(8) * (1 if which.endswith('cx') else 2)
        nx = 8
    true = {}
    named = []
    shots = 10 ** 9
    for s in series:
        for j in range(k):
            if which in ('t1', 't2'):
                true[s, j] = [0.5 + 0.2 * r.rand(), 20 + 30 * r.rand(), 0.1 + 0.2 * r.rand()]
            elif which == 't2star':
                true[s, j] = [0.4, 25 + 20 * r.rand(), 0.1 + 0.01 * r.rand(), 0.2 * r.rand(), 0.5]
            elif which == 'zz':
                true[s, j] = [0.4, 0.5 + 0.05 * r.rand(), 0.2 * r.rand(), 0.5]
            else:
                true[s, j] = [0.4 * r.rand() - 0.2, 0.5]
    # probability of the expected outcome by the published formulas
    def P(p, t):
        if which in ('t1', 't2'):
            return p[0] * math.exp(-t / p[1]) + p[2]
        if which == 't2star':
            return p[0] * math.exp(-t / p[1]) * math.cos(2 * math.pi * p[2] * t + p[3]) + p[4]
        if which == 'zz':
            return p[0] * math.cos(2 * math.pi * p[1] * t + p[2]) + p[3]
        if which.endswith('cx'):
            return 0.5 - 0.5 * math.cos((math.pi + p[0]) * t + math.pi / 2)
        return 0.5 - 0.5 * math.cos((math.pi / 2 + p[0]) * (t + 1))
    for s in series:
        for i, t in enumerate(x):
            pr = [min(1.0, max(0.0, P(true[s, j], t))) for j in range(k)]
            c = {}
            for b in itertools.product((0, 1), repeat=k):       # outcome bits of qubits 0..k-1
                q = 1.0
                for j in range(k):
                    q *= pr[j] if str(b[j]) == exp else 1 - pr[j]
                n = int(round(q * shots))
                if n:
                    c[''.join(str(z) for z in reversed(b))] = n
            named.append(('%s_%d_%s' % (base, i, s), c))
    res = real_result(named, k)
    p0 = {'t1': [0.6, 30, 0.2], 't2': [0.6, 30, 0.2], 't2star': [0.4, 30, 0.105, 0.1, 0.5], 'zz': [0.4, 0.52, 0.1, 0.5]}.get(which, [0.01, 0.5])
    lo = [-1] * npar
    hi = [2, 100, 2] if which in ('t1', 't2') else [2] * npar
    if which in ('t1', 't2'):
        lo = [0, 1, -1]
    if which == 't2star':
        lo, hi = [0, 1, 0.05, -1, 0], [1, 100, 0.2, 1, 1]
    qubits = [3, 1]
    f = make(which, res, x, qubits, p0, (lo, hi))
    for s in series:
        for j in range(k):
            got = f.params[s][j]
            v.ensure('parameters recovered', np.allclose(got, true[s, j], rtol=2e-3, atol=2e-4), lambda: short((which, s, j, got, true[s, j])))


# ------------------------------------------------------------------ IQ data
def iq_result(named, shots, slots, ret):
    from qiskit.result import Result
    exps = []
    for n, mem in named:
        exps.append({'shots': shots, 'success': True, 'status': 'DONE', 'meas_level': 1, 'meas_return': ret,
                     'data': {'memory': [[float(z.real), float(z.imag)] for z in mem] if ret == 'avg' else [[[float(z.real), float(z.imag)] for z in row] for row in mem]},
                     'header': {'name': n, 'memory_slots': slots}})
    return Result.from_dict({'backend_name': 'x', 'backend_version': '0', 'qobj_id': '0', 'job_id': '0',
                             'success': True, 'results': exps, 'status': 'COMPLETED', 'date': None, 'header': {}})


@reg.contract(B + ':IQFitter', mode='B', sizes=[dict(ret=t, nr=n, what=w) for t in ('avg', 'single') for n in (1, 3) for w in ('rabi', 'drag')], samples=5)
def iq(v, ret, nr, what):
    """the signal of every qubit along its line in the IQ plane, averaged over
    all shots of all results, for any direction of the line"""
    r = nprng(v)
    k, nx = 2, 11
    x = np.linspace(-0.9, 0.9, nx)
    if what == 'rabi':
        par = [[0.5, 0.8 + 0.1 * j, 0.1] for j in range(k)]
        sig = [[p[0] * math.cos(2 * math.pi * p[1] * t + p[2]) for t in x] for p in par]
    else:
        par = [[0.8, 0.1 - 0.3 * j] for j in range(k)]
        sig = [[p[0] * (t - p[1]) ** 2 for t in x] for p in par]
    ang = [v.real('angle%d' % j, 0, 6.28) for j in range(k)]
    off = [complex(r.randn(), r.randn()) for _ in range(k)]
    name = 'rabisched_%d_0' if what == 'rabi' else 'dragsched_%d_0'
    results = []
    shots = [v.choice('shots%d' % a, [5, 8, 20]) for a in range(nr)]
    every = [[] for _ in range(nx)]
    fl = r.randn(nr, nx, k) * 0.3           # differences between results which average out
    for i in range(nx):
        for j in range(k):
            fl[:, i, j] -= np.dot(fl[:, i, j], shots) / sum(shots)
    for a in range(nr):
        named = []
        for i in range(nx):
            z = np.array([off[j] + (sig[j][i] + fl[a, i, j]) * np.exp(1j * ang[j]) for j in range(k)])
            if ret == 'single':
                noise = r.randn(shots[a], k) + 1j * r.randn(shots[a], k)
                noise -= noise.mean(axis=0)
                z = z + 0.05 * noise
                every[i].append(z)
            named.append((name % i, z))
        if v.choice('order%d' % a, [False, True]):
            named = [named[i] for i in r.permutation(nx)]
        results.append(iq_result(named, shots[a], k, ret))
    cls = ch().RabiFitter if what == 'rabi' else ch().DragFitter
    f = cls(None, x, [1, 0], fit_p0=[0.5, 0.85, 0.1, 0] if what == 'rabi' else [0.5, 0, 0])
    if nr > 1 and v.choice('add', [True, False]):
        for q in results[:-1]:
            f.add_data(q, recalc=False, refit=False)
        f.add_data(results[-1], refit=False)
    else:
        f.add_data(results if nr > 1 else results[0], refit=False)
    for j in range(k):
        y = np.array(f.ydata['0'][j]['mean'])
        w = np.array(sig[j]) - np.mean(sig[j])
        v.ensure('signal along the line, of its own qubit', np.allclose(y, w, atol=1e-6) or np.allclose(y, -w, atol=1e-6), lambda: short((j, y, w, ang)))
        v.ensure('one error per value, positive', len(f.ydata['0'][j]['std']) == nx and all(s > 0 for s in f.ydata['0'][j]['std']))
        if ret == 'single':
            sd = [np.std(np.concatenate(every[i])[:, j]) for i in range(nx)]
            v.ensure('spread of the shots', np.allclose(f.ydata['0'][j]['std'], sd))


@reg.contract(CH + 'calibrations.fitters:RabiFitter; DragFitter', mode='F', sizes=[dict(what=w) for w in ('rabi', 'drag')], samples=2, mods=MODS)
def calibration_formulas(v, what):
    """pi amplitude: half a period of the fitted oscillation; drag: the extremum"""
    npar = 4 if what == 'rabi' else 3
    rec = FitRecorder(v, npar)
    v.standin('curve_fit', rec, 'scipy.optimize.curve_fit')
    cls = ch().RabiFitter if what == 'rabi' else ch().DragFitter
    x = np.array([0.1, 0.2])
    f = cls(None, x, [2, 5], fit_p0=[0.5] * npar)
    put_data(v, f, {'0': [{'mean': [v.real('y%d_%d' % (j, i), 0, 1) for i in range(2)], 'std': [1e-4, 1e-4]} for j in range(2)]})
    f.fit_data()
    for j in range(2):
        p = rec.calls[j]['par'][1]
        if what == 'rabi':
            v.ensure('half a period', and_(v.eq(2 * p * f.pi_amplitude(j), 1), v.eq(2 * p * f.pi_amplitude()[j], 1)))
            v.ensure('half of the pi amplitude', and_(v.eq(4 * p * f.pi2_amplitude(j), 1), v.eq(4 * p * f.pi2_amplitude()[j], 1)))
        else:
            v.ensure('extremum', and_(v.eq(f.drag_amplitude(j), p), v.eq(f.drag_amplitude()[j], p)))


@reg.contract(CH + 'calibrations.fitters (models)', mode='F', sizes=[dict(what=w) for w in ('rabi', 'drag')], samples=10, mods=MODS)
def calibration_models(v, what):
    """a cos(2 pi f x + phi) + c and a (x - x0)^2 + c"""
    npar = 4 if what == 'rabi' else 3
    cls = ch().RabiFitter if what == 'rabi' else ch().DragFitter
    f = cls(None, np.array([0.1, 0.2]), [0], fit_p0=[0.5] * npar)
    p = [v.real('p%d' % i, 0.1, 3) for i in range(npar)]
    x = v.real('x', 0, 10)
    if what == 'rabi':
        co = math.cos
        if v.symbolic:
            co = Uninterpreted(v, 'cos')
            v.standin('cos', co)
        want = p[0] * co(2 * np.pi * p[1] * x + p[2]) + p[3]
    else:
        want = p[0] * (x - p[1]) * (x - p[1]) + p[2]
    v.ensure('model', v.eq(f.fit_fun(x, *p), want, 1e-9), lambda: short((p, x)))


@reg.contract(B + ':IQFitter (rejection)', mode='B', samples=2)
def iq_reject(v):
    from qiskit import QiskitError
    x = np.array([0.1, 0.2])
    a = iq_result([('rabisched_%d_0' % i, np.array([1 + 1j])) for i in range(2)], 4, 1, 'avg')
    b = iq_result([('rabisched_%d_0' % i, np.ones((4, 1)) * 1j) for i in range(2)], 4, 1, 'single')
    f = ch().RabiFitter(None, x, [0], fit_p0=[0.5] * 4)
    v.ensure_raises('mixed data', QiskitError, f.add_data, [a, b], refit=False)
    f = ch().RabiFitter(None, x, [0], fit_p0=[0.5] * 4)
    c = iq_result([('rabisched_%d_0' % i, np.array([1 + 1j])) for i in range(2)], 4, 1, 'avg')
    for e in c.results:
        e.meas_level = 2
    v.ensure_raises('not IQ data', QiskitError, f.add_data, c, refit=False)


# ------------------------------------------------- any number of results
from contracts import ulib as UL

reg.contract('qiskit.ignis.utils:build_counts_dict_from_list (any list)', **UL.U)(UL.any_count_list)


@reg.contract(B + ':BaseFitter._calc_data (any number of results)', sizes=[{'ns': 1, 'nq': 2, 'nc': 2}, {'ns': 2, 'nq': 1, 'nc': 2}, {'ns': 1, 'nq': 4, 'nc': 1}], **UL.U)
def any_results(v, ns, nq, nc):
    """any number of backend results, each with or without the circuit: the mean is
    the marginal count of the expected state over all shots of all results"""
    f = UL.Bag()
    f._series, f._xdata = ['0', 'X'][:ns], [1., 2., 3.][:nc]
    f._circuit_names = ['a_0_', 'a_1_', 'a_2_'][:nc]
    f._qubits, f._expected_state = [3, 1, 0, 7][:nq], v.choice('expected', ['0', '1'])
    rs = UL.AnyResults(v, [(c + s, (q,), f._expected_state) for c in f._circuit_names for s in f._series for q in range(nq)])
    f._backend_result_list = rs.seq
    UL.twin(B, 'BaseFitter._calc_data', UL.combine_stubs())(f)
    for s in f._series:
        for q in range(nq):
            for k, c in enumerate(f._circuit_names):
                y, n = f._ydata[s][q]['mean'][k], rs.shots(c + s)
                sd = f._ydata[s][q]['std'][k]
                v.ensure('share of the expected state', UL.seq(y * n, rs.marginal(c + s, (q,), f._expected_state)))
                v.ensure('binomial error', or_(UL.seq(sd * sd * n, y * (1 - y)), and_(UL.seq(y * (1 - y), 0), UL.seq(sd, 1e-4))))
