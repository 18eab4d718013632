"""C22 IQ discrimination classifies each shot by its own data, conserves shots"""
from contracts.common import *
from contracts.c21 import iq_result
from pyvc.core import short, SymC

reg = Registry('C22')
reg.assumptions += ['Result.get_memory(i or name) returns the IQ data of that experiment (level 1)',
                    'classifiers (scikit-learn): fit receives the training data, predict returns one label per row, by the row (stand-in recording the calls in the proofs)',
                    'StandardScaler: affine map fixed by the training data']
DI = IG + 'measurement.discriminator.'
D, I, FI = DI + 'discriminators', DI + 'iq_discriminators', DI + 'filters'
MODS = [D, I, FI]


def di():
    import qiskit.ignis.measurement as m
    return m


def fake_result(named, level=None):
    """stand-in for Result holding IQ arrays (possibly symbolic)"""
    from qiskit.result import Result
    from qiskit import QiskitError

    class IQ(Result):
        def __init__(self, named):
            self.results = []
            for k, (n, a, shots) in enumerate(named):
                e = _Exp(n, shots, 1 if level is None else level[k])
                e.data = a
                self.results.append(e)

        def get_memory(self, key=None):
            if isinstance(key, (int, np.integer)):
                return self.results[key].data
            name = getattr(key, 'name', key)
            for e in self.results:
                if e.header.name == name:
                    return e.data
            raise QiskitError('no data for %s' % name)

        def __deepcopy__(self, memo):
            return IQ2(self)

    class IQ2(IQ):
        def __init__(self, other):
            self.results = []
            for e in other.results:
                n = _Exp(e.header.name, e.shots, e.meas_level)
                n.data = e.data
                self.results.append(n)
    return IQ(named)


class _H:
    def __init__(self, name):
        self.name = name


class _Exp:
    def __init__(self, name, shots, level):
        self.header = _H(name)
        self.shots = shots
        self.meas_level = level
        self.success = True


class Classifier:
    """records its training data; predict labels rows by a given function"""

    def __init__(self, label=None):
        self.fits = []
        self.rows = []
        self.label = label

    def fit(self, x, y):
        self.fits.append(([list(r) for r in x], list(y)))
        return self

    def predict(self, x):
        self.rows.append([list(r) for r in x])
        return np.array([self.label(list(r)) for r in x], dtype=object)


def iq_array(v, name, shots, slots, avg=False):
    def one(t):
        re, im = v.real(name + t + 'r', -5, 5), v.real(name + t + 'i', -5, 5)
        return SymC(re, im) if v.symbolic else complex(re, im)
    if avg:
        a = np.empty(slots, dtype=object)
        for q in range(slots):
            a[q] = one('_%d' % q)
    else:
        a = np.empty((shots, slots), dtype=object)
        for s in range(shots):
            for q in range(slots):
                a[s, q] = one('_%d_%d' % (s, q))
    return a if v.symbolic else a.astype(complex)


def rows_of(a, mask):
    """specification: one row per shot, real parts then imaginary parts of the
    selected qubits in the order of the mask"""
    if a.ndim == 1:
        a = a[None, :]
    return [[a[s, q].real for q in mask] + [a[s, q].imag for q in mask] for s in range(a.shape[0])]


def same_rows(v, got, want):
    return len(got) == len(want) and and_(*([True] + [and_(len(g) == len(w), *[v.eq(x, y, 1e-9) for x, y in zip(g, w)]) for g, w in zip(got, want)]))


def pairs_eq(v, X, Y, spec):
    """the training data are the specified pairs, in any order of the
    experiments but keeping the shots of one experiment together"""
    rest = list(spec)
    n = 0
    blocks = []
    while n < len(X):
        for b in rest:
            k = len(b[0])
            if list(Y[n:n + k]) == [b[1]] * k and bool(same_rows(v, X[n:n + k], b[0])):
                rest.remove(b)
                n += k
                break
        else:
            return False
    return not rest


MASKS = [[0], [1], [0, 1], [1, 0]]


@reg.contract(I + ':IQDiscriminationFitter.get_xdata; get_ydata; format_iq_data; fit', mode='S',
              sizes=[dict(mask=m, shots=s, nres=r, avg=a) for m in MASKS for s, r, a in ((2, 1, False), (1, 2, False), (1, 1, True))],
              rsizes=[dict(mask=m, shots=s, nres=r, avg=a) for m in ([0], [2, 0], [1, 2, 0]) for s, r, a in ((5, 1, False), (3, 3, False), (1, 2, True))], samples=6, mods=MODS)
def training(v, mask, shots, nres, avg):
    """all IQ values: every shot of every calibration experiment is paired with
    the state its schedule prepared; other experiments are ignored"""
    slots = max(mask) + 2 if not v.symbolic else 2
    states = [['0', '1'], ['00', '01', '11'], ['000', '101', '011']][len(mask) - 1]
    if not v.symbolic:
        states = v.choice('states', [states, states[::-1]])
    results, spec = [], []
    share = v.choice('share', ['repeated', 'divided', 'divided'][:3 if nres > 1 else 1])
    for r in range(nres):
        named = []
        for si, s in enumerate(states):
            if share == 'divided' and si % nres != r and not (nres > len(states) and r == nres - 1):
                continue
            a = iq_array(v, 'c%d_%s' % (r, s), shots, slots, avg)
            named.append(('cal_' + s, a, shots))
            spec.append((rows_of(a, mask), s, r))
        if v.choice('extra%d' % r, [False, True]):
            named.insert(0, (v.choice('name%d' % r, ['experiment'] if v.symbolic else ['experiment', 'cal_0_check', 'mycal_0', 'cal_x']), iq_array(v, 'x%d' % r, 1, slots, avg), 1))
        results.append(fake_result(named))
    c = Classifier()
    arg = results if nres > 1 or v.choice('aslist', [False, True]) else results[0]
    exp = None
    if v.choice('explicit', [False, True]):
        exp = [e.header.name[4:] for r in results for e in r.results if e.header.name in ['cal_' + s for s in states]]
    d = di().SklearnIQDiscriminator(c, arg, list(mask), expected_states=exp)
    v.ensure('fitted once', len(c.fits) == 1 and d.fitted)
    X, Y = c.fits[0]
    v.ensure('one state per row', len(X) == len(Y) == sum(len(b[0]) for b in spec), lambda: short((len(X), len(Y))))
    v.ensure('every shot paired with the state of its schedule', pairs_eq(v, X, Y, [b[:2] for b in spec]), lambda: short((X, Y)))
    v.ensure('expected states', d.expected_states == {'cal_' + s: s for s in states}, lambda: short(d.expected_states))


@reg.contract(D + ':BaseDiscriminationFitter.add_data', mode='S', sizes=[dict(mask=[0], same=s) for s in (True, False)], rsizes=[dict(mask=m, same=s) for m in ([0], [1, 0]) for s in (True, False)], samples=6, mods=MODS)
def adding(v, mask, same):
    """data added later are used together with the earlier data"""
    slots = 2
    a = {s: iq_array(v, 'a' + s, 2, slots) for s in ('0', '1')}
    c = Classifier()
    d = di().SklearnIQDiscriminator(c, fake_result([('cal_' + s, a[s], 2) for s in a]), list(mask))
    more = ['0', '1'] if same else ['2']
    spec = [(rows_of(a[s], mask), s) for s in a]
    b = {s: iq_array(v, 'b' + s, 1, slots) for s in more}
    refit = v.choice('refit', [True, False])
    d.add_data(fake_result([('cal_' + s, b[s], 1) for s in b] + [('other', iq_array(v, 'o', 1, slots), 1)]), list(more), refit=refit)
    spec2 = spec + [(rows_of(b[s], mask), s) for s in b]
    v.ensure('refit on request', len(c.fits) == (2 if refit else 1))
    if not refit:
        d.fit()
    X, Y = c.fits[-1]
    v.ensure('all data with their states', pairs_eq(v, X, Y, spec2), lambda: short((X, Y)))
    e = iq_array(v, 'e', 1, slots)
    d.add_data(fake_result([('cal_0', e, 1)]), ['0'])
    X, Y = c.fits[-1]
    spec2 = spec2 + [(rows_of(e, mask), '0')]
    v.ensure('all data with their states', pairs_eq(v, X, Y, spec2), lambda: short((X, Y)))
    g = iq_array(v, 'g', 1, slots)
    d.add_data(fake_result([('cal_1', g, 1)]), ['3'])
    X, Y = c.fits[-1]
    v.ensure('all data with the states given with them', pairs_eq(v, X, Y, spec2 + [(rows_of(g, mask), '3')]), lambda: short((X, Y)))
    v.ensure('schedules of all data', [str(s) for s in d.schedules] == ['cal_0', 'cal_1'] + ['cal_' + s for s in more] + ['cal_0', 'cal_1'])


@reg.contract(FI + ':DiscriminationFilter.apply; count; get_base', mode='S', sizes=[dict(mask=m, shape=s) for m in ([0], [1, 0]) for s in ([2], [1, 2], [2, 0, 1])],
              rsizes=[dict(mask=m, shape=s) for m in ([0], [1, 0]) for s in ([5], [3, 8], [4, 0, 3, 2])], samples=10, mods=MODS)
def filtering(v, mask, shape):
    """every shot of every level-1 experiment is classified by its own row, and
    counted once; other experiments and the argument are left"""
    base3 = v.choice('ternary', [False, True]) if len(mask) == 1 else False
    states = (['0', '2'] if base3 else ['0', '1']) if len(mask) == 1 else ['00', '01', '10', '11']
    cal = fake_result([('cal_' + s, np.zeros((1, 2), dtype=complex), 1) for s in states])
    seen = []

    def label(row):
        for r, l in seen:
            if len(r) == len(row) and all(x is y for x, y in zip(r, row)) or bool(same_rows(v, [r], [row])):
                return l
        return 'unknown'
    c = Classifier(label)
    d = di().SklearnIQDiscriminator(c, cal, list(mask))
    named, want, levels = [], [], []
    samename = v.choice('samename', [False, True])
    for k, n in enumerate(shape):
        lvl = 1 if n else v.choice('lvl%d' % k, [2, 0])
        levels.append(lvl)
        a = iq_array(v, 'e%d' % k, max(n, 1), 2)
        labs = []
        for s, row in enumerate(rows_of(a, mask)):
            l = v.choice('l%d_%d' % (k, s), states)
            for r0, l0 in seen:                     # different rows: labels are free
                if not v.symbolic:
                    v.require(r0 != row)
                else:
                    v.require(not_(same_rows(v, [r0], [row])))
            seen.append((row, l))
            labs.append(l)
        named.append(('exp' if samename else 'exp%d' % k, a, max(n, 1)))
        if lvl == 1:
            want.append((named[-1][0], labs))
    raw = fake_result(named, levels)
    f = di().DiscriminationFilter(d)
    aslist = v.choice('aslist', [False, True]) if len(shape) == 1 else False
    out = f.apply([raw, raw])[1] if aslist else f.apply(raw)
    v.ensure('one result per level-1 experiment', [e.header.name for e in out.results] == [w[0] for w in want])
    b = 3 if base3 else 2
    for e, (n, labs) in zip(out.results, want):
        v.ensure('one outcome per shot, by its own data', [str(x) for x in e.data.memory] == labs, lambda: short((e.data.memory, labs)))
        cnt = {}
        for l in labs:
            h = hex(int(l, b))
            cnt[h] = cnt.get(h, 0) + 1
        v.ensure('counts of the outcomes', e.data.counts == cnt if isinstance(e.data.counts, dict) else dict(e.data.counts) == cnt, lambda: short((e.data.counts, cnt)))
        v.ensure('level two', e.meas_level == 2)
    v.ensure('argument unchanged', [e.meas_level for e in raw.results] == levels and all(x.data is a for x, (n, a, s) in zip(raw.results, named)))


@reg.contract(FI + ':DiscriminationFilter.get_base; count', mode='S', sizes=[dict(n=n) for n in (1, 2, 3)], rsizes=[dict(n=6)], samples=20, mods=MODS)
def counting(v, n):
    """all sequences of outcomes: each outcome counted under its value in the base
    of the states"""
    base = v.choice('base', [2, 3, 5])
    F = di().DiscriminationFilter
    top = str(base - 1)
    exps = v.choice('exps', [{'cal_a': '0' + top, 'cal_b': top + '0'}, {'cal_a': '0' + top, 'cal_b': '00'}, {'cal_b': '00', 'cal_a': top + '0'}, {'cal_b': '0' + top + '0', 'cal_a': '001', 'cal_0': '000'}])
    v.ensure('smallest base', F.get_base(exps) == base)

    class Dd:
        expected_states = exps
    given = v.choice('given', [None, 7])
    f = F(Dd(), base=given)
    b = given or base
    labs = [v.choice('y%d' % i, ['0' + top, top + '0', '00', '10']) for i in range(n)]
    c = f.count(np.array(labs))
    want = {}
    for l in labs:
        h = hex(b * int(l[0]) + int(l[1]))
        want[h] = want.get(h, 0) + 1
    v.ensure('counts', dict(c) == want, lambda: short((labs, c, want)))
    v.ensure_eq('shots conserved', sum(c.values()), n)


@reg.contract(FI + ':DiscriminationFilter.get_base; count (long labels)', mode='B', sizes=[dict(n=n) for n in (1, 3, 6, 12)], samples=20)
def counting_long(v, n):
    """labels of up to twelve qubits over all levels up to nine"""
    r = nprng(v)
    base = int(r.randint(2, 11))
    states = [''.join(str(x) for x in r.randint(0, base, n)) for _ in range(int(r.randint(1, 6)))]
    states.insert(int(r.randint(0, len(states) + 1)), ''.join(r.permutation([str(base - 1)] + [str(x) for x in r.randint(0, base, n - 1)])))
    exps = {'cal_%d' % i: s for i, s in enumerate(states)}
    F = di().DiscriminationFilter
    v.ensure('smallest base', F.get_base(exps) == base, lambda: short(exps))

    class Dd:
        expected_states = exps
    labs = [states[i] for i in r.randint(0, len(states), int(r.randint(1, 30)))]
    c = F(Dd()).count(labs)
    want = {}
    for l in labs:
        h = hex(sum(int(x) * base ** k for k, x in enumerate(reversed(l))))
        want[h] = want.get(h, 0) + 1
    v.ensure('counts', dict(c) == want, lambda: short((labs, c, want)))


# ------------------------------------------------------------------ run-time
def clusters(r, state, shots, centres, spread):
    return np.array([[centres[q][int(ch)] + spread * (r.randn() + 1j * r.randn()) for q, ch in enumerate(state)] for _ in range(shots)])


def discriminators():
    m = di()
    from sklearn.neighbors import KNeighborsClassifier
    from sklearn.svm import SVC
    return {'lda': lambda *a, **k: m.LinearIQDiscriminator(*a, **k), 'qda': lambda *a, **k: m.QuadraticIQDiscriminator(*a, **k),
            'knn': lambda *a, **k: m.SklearnIQDiscriminator(KNeighborsClassifier(3), *a, **k), 'svc': lambda *a, **k: m.SklearnIQDiscriminator(SVC(gamma='scale'), *a, **k)}


@reg.contract(I + ':Linear/Quadratic/SklearnIQDiscriminator; filter', mode='B', sizes=[dict(kind=k, std=s, n=n) for k in ('lda', 'qda', 'knn', 'svc') for s in (False, True) for n in (1, 2)], samples=3)
def separated(v, kind, std, n):
    """separated clusters, also of different scale per qubit: every shot gets the
    state of its cluster whatever the other experiments"""
    r = nprng(v)
    scale = [1.0, 1e3 if std or kind in ('lda', 'qda') else 1.0][:n]    # distances mix scales unless standardised
    centres = [[complex(r.randn(), r.randn()) * 3 * scale[q]] for q in range(n)]
    for q in range(n):
        ang = r.rand() * 6.28
        centres[q].append(centres[q][0] + 10 * scale[q] * np.exp(1j * ang))
    mask = [int(x) for x in r.permutation(3)[:n]]
    states = [''.join(s) for s in itertools.product('01', repeat=n)]

    def exper(state, shots):
        z = 40 * (r.randn(shots, 3) + 1j * r.randn(shots, 3))
        for q in range(n):
            z[:, mask[q]] = [centres[q][int(state[q])] + 0.5 * scale[q] * (r.randn() + 1j * r.randn()) for _ in range(shots)]
        return z
    shots = 30
    cal = [('cal_' + s, exper(s, shots)) for s in states]
    truth = [[states[r.randint(len(states))] for _ in range(shots)] for _ in range(3)]
    tests = []
    for k, t in enumerate(truth):
        z = np.concatenate([exper(s, 1) for s in t])
        tests.append(('t%d' % k, z))
    order = v.choice('order', ['cal first', 'mixed'])
    calres = iq_result(cal + tests[:1] if order == 'cal first' else [tests[0]] + cal[::-1], shots, 3, 'single')
    mk = discriminators()[kind]
    d = mk(calres, list(mask), expected_states=None, standardize=std)
    f = di().DiscriminationFilter(d)
    out = f.apply(iq_result(tests, shots, 3, 'single'))
    for k, t in enumerate(truth):
        e = out.results[k]
        v.ensure('every shot gets the state of its cluster', [str(x) for x in e.data.memory] == t, lambda: short((kind, mask)))
        want = {}
        for s in t:
            want[hex(int(s, 2))] = want.get(hex(int(s, 2)), 0) + 1
        v.ensure('counts', dict(e.data.counts) == want)
        got = out.get_counts('t%d' % k)
        v.ensure_eq('shots conserved', sum(got.values()), shots)
    alone = f.apply(iq_result(tests[1:2], shots, 3, 'single'))
    v.ensure('independent of other experiments', [str(x) for x in alone.results[0].data.memory] == [str(x) for x in out.results[1].data.memory])
    rev = f.apply(iq_result(tests[::-1], shots, 3, 'single'))
    v.ensure('independent of their order', [str(x) for x in rev.results[0].data.memory] == [str(x) for x in out.results[2].data.memory])


@reg.contract(D + ':BaseDiscriminationFitter (schedules)', mode='B', sizes=[dict(objects=o) for o in (False, True)], samples=4)
def chosen_schedules(v, objects):
    """training with a selection of schedules or their names"""
    from qiskit.pulse import Schedule
    r = nprng(v)
    data = {s: r.randn(4, 1) + 1j * r.randn(4, 1) for s in ('0', '1', '2')}
    res = iq_result([('cal_' + s, a) for s, a in data.items()], 4, 1, 'single')
    pick = v.choice('pick', [['0', '1'], ['2', '0'], ['1']])
    sch = [Schedule(name='cal_' + s) if objects else 'cal_' + s for s in pick]
    exp = v.choice('exp', [None, 'other'])
    names = list(pick) if exp is None else ['7', '8'][:len(pick)]
    c = Classifier()
    d = di().SklearnIQDiscriminator(c, res, [0], expected_states=None if exp is None else list(names), schedules=list(sch))
    X, Y = c.fits[0]
    v.ensure('selected schedules with their states', pairs_eq(v, X, Y, [(rows_of(data[s], [0]), n) for s, n in zip(pick, names)]), lambda: short((X, Y)))
    v.ensure('expected states', d.expected_states == {'cal_' + s: n for s, n in zip(pick, names)})


@reg.contract(D + ' (rejection)', mode='B', samples=3)
def reject(v):
    from qiskit import QiskitError
    r = nprng(v)
    res = iq_result([('cal_' + s, r.randn(4, 1) + 1j * r.randn(4, 1)) for s in '01'], 4, 1, 'single')
    v.ensure_raises('one state per schedule', QiskitError, di().SklearnIQDiscriminator, Classifier(), res, [0], expected_states=['0'])
    v.ensure_raises('missing schedule', QiskitError, di().SklearnIQDiscriminator, Classifier(), [res], [0], expected_states=['0'], schedules=['cal_5'])
    v.ensure_raises('not a classifier', QiskitError, di().SklearnIQDiscriminator, object(), res, [0])
    v.ensure_raises('states that are not digits', QiskitError, di().DiscriminationFilter.get_base, {'a': '0g'})


@reg.contract(D + ':_scale_data', mode='B', sizes=[dict(n=n) for n in (1, 2)], samples=5)
def scaling(v, n):
    """standardised training data have zero mean and unit variance; later data
    are mapped by the same map"""
    r = nprng(v)
    data = {s: (r.randn(6, n) * 7 + 3) + 1j * (r.randn(6, n) - 4) for s in '01'}
    c = Classifier(lambda row: '0')
    d = di().SklearnIQDiscriminator(c, iq_result([('cal_' + s, a) for s, a in data.items()], 6, n, 'single'), list(range(n)), standardize=True)
    X = np.array(c.fits[0][0])
    raw = np.array(rows_of(data['0'], range(n)) + rows_of(data['1'], range(n)))
    mu, sd = raw.mean(axis=0), raw.std(axis=0)
    v.ensure('standardised', np.allclose(X, (raw - mu) / sd), lambda: short(X[:2]))
    t = r.randn(3, n) * 50 + 1j * r.randn(3, n)
    di().DiscriminationFilter(d).apply(iq_result([('exp', t)], 3, n, 'single'))
    v.ensure('same map for later data', np.allclose(np.array(c.rows[-1]), (np.array(rows_of(t, range(n))) - mu) / sd))


# --------------------------------------------------------------------- any number of shots
from contracts import ulib as UL


class Outcome(UL.Obj):
    """one classified shot; its value depends on the base"""

    def to_int(self, base):
        return UL.Sym(UL.Engine.of(UL.core.cur()).fun('value', UL.STRING, UL.I, UL.I)(self.t, UL.term(base)))


def _hex(x):
    if not isinstance(x, UL.Sym):
        raise UL.Unsupported('hex')
    return UL.Obj(x.t)          # hex is injective: the key stands for the number


@reg.contract(FI + ':DiscriminationFilter.count (any number of shots)', **UL.U)
def any_shots(v):
    """any number of shots in any base: the count of a value is the number of shots with that value; no other keys"""
    u = UL.Engine.of(v)
    n, base = v.int('n', 0), v.int('base', 2)
    shot = u.fun('shot', UL.I, UL.STRING)
    f = UL.Bag()
    f.base = base
    data = UL.Seq(n, lambda i: Outcome(shot(i)), ('shots', ()))
    r = UL.twin(FI, 'DiscriminationFilter.count', {'hex': _hex})(f, data)
    k = UL.z3.Int('k')
    val = u.fun('value', UL.STRING, UL.I, UL.I)
    idx = UL.Seq(n, UL.Sym, ('shots', ()))
    want = u.total(idx.map(lambda i: UL.ite(UL.SymBool(val(shot(i.t), base.t) == k), 1, 0)))
    some = u.anyof(idx, lambda i: UL.SymBool(val(shot(i.t), base.t) == k))
    key = UL.Obj(k)
    v.ensure('count of every value', UL.seq(r.get(key, 0), want))
    v.ensure('keys are the values that occur', UL.iff(r.contains(key), some))
