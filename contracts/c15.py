"""C15 quantum volume circuits are models of the stated size, scored exactly"""
from contracts.common import *
from pyvc.core import short

reg = Registry('C15')
reg.assumptions += ['floats treated as reals', 'Result.get_counts / get_statevector return the stored data',
                    'erf is strictly increasing with erf(0) = 0 (proof of qv_success)',
                    'QuantumVolume(n, n, seed) of terra is the model circuit']
C = IG + 'verification.quantum_volume.circuits'
F = IG + 'verification.quantum_volume.fitters'
UT = IG + 'utils'
MODS = [F, UT]


def qv():
    import qiskit.ignis.verification.quantum_volume as m
    return m


def cname(d, t):
    return 'qv_depth_%d_trial_%d' % (d, t)


class SVResult(FakeResult):
    """stand-in for a statevector result"""

    def __init__(self, named):
        FakeResult.__init__(self, [(n, {}) for n, _ in named])
        self.sv = dict(named)

    def get_statevector(self, name=None, decimals=None):
        from qiskit import QiskitError
        if name not in self.sv:
            raise QiskitError('no data for ' + str(name))
        return self.sv[name]


# ------------------------------------------------------------- heavy outputs
def amplitudes(v, n, tag):
    """arbitrary state: entries real or imaginary in the proofs"""
    if v.symbolic:
        out = np.empty(2 ** n, dtype=object)
        for i in range(2 ** n):
            x = v.real('%s_%d' % (tag, i), 0)
            out[i] = core.SymC(0, x) if i % 2 else core.SymC(x, 0)
        return out
    how = v.choice(tag + '_equal', [False, False, True, 'exact'])
    if how == 'exact':
        # probabilities that are powers of two: ties with the median are exact
        m = 1 << (2 * v.choice(tag + '_k', list(range(n // 2 + 1))))
        a = np.zeros(2 ** n, dtype=complex)
        at = np.argsort([v.real('%s_%d' % (tag, i), -1, 1) for i in range(2 ** n)])[:m]
        a[at] = 1 / math.sqrt(m)
        return a
    if how:
        a = np.array([v.choice('%s_%d' % (tag, i), [1, 1j, -1, 2]) for i in range(2 ** n)], dtype=complex)
    else:
        a = np.array([v.real('%s_%d' % (tag, i), -1, 1) + 1j * v.real('%s_%d_i' % (tag, i), -1, 1) for i in range(2 ** n)])
    v.require(np.linalg.norm(a) > 0.1)
    return a / np.linalg.norm(a)


def probs(a):
    out = {}
    n = len(a).bit_length() - 1
    for i, x in enumerate(a):
        if isinstance(x, core.SymC):
            out[format(i, '0%db' % n)] = x.re * x.re + x.im * x.im
        else:
            out[format(i, '0%db' % n)] = abs(x) ** 2
    return out


def count_if(cs):
    return sum(ite(c, 1, 0) if is_sym(c) else int(bool(c)) for c in cs)


def is_heavy(p, b, tol=0):
    """p[b] exceeds the median: 2 p[b] > sum of the two middle values; spelled
    without sorting: the median of 2m values x_1..x_2m is (L+U)/2, L the largest
    value with at least m values >= it, U the smallest with at least m <= it"""
    m = len(p) // 2
    vals = list(p.values())
    ups = []
    for lo in vals:
        for up in vals:
            isL = and_(count_if([x >= lo for x in vals]) >= m + 1, count_if([x <= lo for x in vals]) >= m)
            isU = and_(count_if([x >= up for x in vals]) >= m, count_if([x <= up for x in vals]) >= m + 1)
            ups.append(and_(isL, isU, 2 * p[b] > lo + up))
    return or_(*ups)


@reg.contract(F + ':QVFitter.add_statevectors; _median_probabilities; _heavy_strings; _subset_probability', mode='S',
              sizes=[{'n': 1}, {'n': 2}], rsizes=[{'n': n} for n in (1, 2, 3, 4, 10)], mods=MODS, builtin=('float',), samples=6, budget=150)
def heavy(v, n):
    """outputs whose ideal probability exceeds the median"""
    trials = 1 if v.symbolic else 2
    amp = [amplitudes(v, n, 'a%d' % t) for t in range(trials)]
    f = qv().QVFitter(qubit_lists=[list(range(n))])
    f.add_statevectors([SVResult([(cname(n, t), amp[t])]) for t in range(trials)] if trials > 1 else SVResult([(cname(n, 0), amp[0])]))
    for t in range(trials):
        p = probs(amp[t])
        got = f.heavy_outputs[cname(n, t)]
        v.ensure('bit strings of the width', all(b in p for b in got) and len(set(got)) == len(got))
        if v.symbolic:
            for b in p:
                want = is_heavy(p, b)
                v.ensure('heavy exactly when above the median', want if b in got else not_(want), lambda: short((b, got)))
            tot = sum((p[b] for b in got), 0)
        else:
            med = float(np.median(list(p.values())))
            exact = all(x in (0, max(p.values())) for x in p.values())
            for b in p:
                if exact or abs(p[b] - med) > 1e-9:
                    v.ensure('heavy exactly when above the median', (p[b] > med) == (b in got), lambda: short((b, p, got)))
            tot = sum(p[b] for b in got)
        v.ensure('ideal heavy output probability', v.eq(f.heavy_output_prob_ideal[cname(n, t)], tot, 1e-9))


# ---------------------------------------------------------------- statistics
HEAVY = {1: ['1'], 2: ['10', '01'], 3: ['000', '011', '101', '111']}


def prepared(v, depths, trials, ideal):
    """a fitter with ideal data given through its public interface: states with
    known heavy outputs"""
    f = qv().QVFitter(qubit_lists=[list(range(d)) for d in depths])
    for t in range(trials):
        for d in depths:
            a = np.zeros(2 ** d, dtype=complex)
            for b in bitstrings(d):
                a[int(b, 2)] = np.sqrt((0.8 if b in HEAVY[d] else 0.2) / 2 ** (d - 1))
            f.add_statevectors(SVResult([(cname(d, t), a)]))
    return f


@reg.contract(F + ':QVFitter.add_data; calc_data; calc_statistics', mode='S',
              sizes=[{'depths': d, 'trials': t, 'parts': p} for d, t, p in (([1], 1, 1), ([2], 2, 1), ([1, 2], 2, 1), ([2], 1, 2), ([1], 3, 1), ([1], 3, 2))],
              rsizes=[{'depths': d, 'trials': t, 'parts': p} for d, t, p in (([2], 2, 1), ([1, 2, 3], 4, 1), ([3], 3, 3), ([2, 1], 12, 2), ([1], 105, 1), ([2], 4, 1), ([1], 7, 1))],
              mods=MODS, builtin=('float', 'int'), samples=5, budget=120)
def statistics(v, depths, trials, parts):
    """heavy counts over shots, their mean and binomial error"""
    f = prepared(v, depths, trials, None)
    data = {}
    for t in range(trials):
        for d in depths:
            for j in range(parts):
                if v.symbolic:
                    keys = bitstrings(d) if v.choice('all', [True, False]) else bitstrings(d)[1:]
                    data[d, t, j] = {b: v.int('c%d_%d_%d_%s' % (d, t, j, b), 1) for b in keys}
                else:
                    data[d, t, j] = drop_zeros(counts_input(v, 'c%d_%d_%d' % (d, t, j), d))
    if not v.symbolic and v.choice('equal', [False, False, True]):
        for d, t, j in list(data):
            data[d, t, j] = dict(data[d, t, 0])
    how = v.choice('how', ['list', 'one by one', 'by trial'])
    mk = (lambda x: FakeResult(x)) if v.symbolic else (lambda x: real_qv_result(x))
    if how == 'by trial':
        res = [mk([(cname(d, t), data[d, t, j]) for d in depths]) for j in range(parts) for t in range(trials)]
    else:
        res = [mk([(cname(d, t), data[d, t, j]) for t in range(trials) for d in depths]) for j in range(parts)]
    order = v.choice('order', ['given', 'later'] if not v.symbolic and parts == 1 and len(depths) == 1 else ['given'])
    if order == 'later' and how == 'by trial':      # the last trial first, statistics only at the end
        f.add_data(res[1:][::-1], rerun_fit=False)
        f.add_data(res[:1])
        res = res[1:][::-1] + res[:1]
    elif how == 'one by one':
        for r in res:
            f.add_data(r)
    else:
        f.add_data(res)
    y = f.ydata
    v.ensure('one column per depth', y.shape == (4, len(depths)))
    v.ensure('results kept', len(f.results) == len(res))
    for di, d in enumerate(depths):
        heavy_, shots = 0, 0
        for t in range(trials):
            h = sum((data[d, t, j].get(b, 0) for j in range(parts) for b in HEAVY[d]), 0)
            s = sum(x for j in range(parts) for x in data[d, t, j].values())
            v.ensure('heavy counts', v.eq(f.heavy_output_counts[cname(d, t)], h))
            heavy_, shots = heavy_ + h, shots + s
        mean, err = y[0][di], y[1][di]
        v.ensure('mean heavy output probability', v.eq(mean * shots, heavy_, 1e-9))
        v.ensure('binomial error over trials', and_(err >= 0, v.eq(err * err * trials * shots * shots, heavy_ * (shots - heavy_), 1e-9)),
                 lambda: short((err, heavy_, shots)))
        v.ensure('ideal mean', v.eq(y[2][di], 0.8, 1e-9) if not v.symbolic else abs(float(y[2][di]) - 0.8) < 1e-9)
        v.ensure('ideal error', abs(float(y[3][di]) - (0.8 * 0.2 / trials) ** 0.5) < 1e-9)


def real_qv_result(named):
    from qiskit.result import Result
    exps = []
    for n, c in named:
        d = int(n.split('_')[2])
        exps.append({'shots': int(sum(c.values())), 'success': True, 'status': 'DONE', 'meas_level': 2,
                     'data': {'counts': {hex(int(k, 2)): x for k, x in c.items()}},
                     'header': {'name': n, 'memory_slots': d, 'creg_sizes': [['measure', d]]}})
    return Result.from_dict({'backend_name': 'x', 'backend_version': '0', 'qobj_id': '0', 'job_id': '0', 'success': True,
                             'results': exps, 'status': 'COMPLETED', 'date': None, 'header': {}})


@reg.contract(F + ':QVFitter.add_statevectors; add_data (rejection)', mode='B', sizes=[{}], samples=5)
def reject(v):
    """ideal data twice or missing"""
    from qiskit import QiskitError
    d = v.choice('d', [1, 2, 3])
    f = prepared(v, [d], 2, None)
    v.ensure_raises('ideal result added twice', QiskitError, f.add_statevectors, SVResult([(cname(d, 1), np.ones(2 ** d) / 2 ** (d / 2))]))
    v.ensure_raises('ideal distribution missing', QiskitError, f.add_data, [real_qv_result([(cname(d, 2), {'0' * d: 5})])])
    v.ensure_raises('ideal distribution missing', QiskitError, qv().QVFitter(qubit_lists=[list(range(d))]).add_data, real_qv_result([(cname(d, 0), {'0' * d: 5})]))
    v.ensure('depths', f.depths == [d] and f.qubit_lists == [list(range(d))] and list(f.quantum_volume()) == [2 ** d])
    g = prepared(v, [d], 1, None)
    g.add_data(None)
    g.add_statevectors(None)
    v.ensure('nothing added', g.results == [])


@reg.contract(F + ':QVFitter.qv_success; calc_z_value; calc_confidence_level', mode='F', sizes=[{'k': 1}, {'k': 2}], mods=MODS, builtin=('float',), samples=20)
def success(v, k):
    """mean minus two errors exceeds two thirds"""
    mean = [v.real('m%d' % i, 0, 1) for i in range(k)]
    sig = [v.real('s%d' % i, 1e-6, 0.5) for i in range(k)]
    if v.symbolic:
        seen = [(2 / 2 ** 0.5, math.erf(2 / 2 ** 0.5))]

        def erf(x):
            y = v.fresh('erf')
            seen.append((x, y))
            v.assume(and_(y > -1, y < 1), 'range of erf')
            for a, b in seen[:-1]:
                v.assume(and_(seq(a < x, b < y), seq(a > x, b > y)), 'erf increasing')
            return y

        v.standin('erf', erf)
    f = qv().QVFitter(qubit_lists=[list(range(i + 1)) for i in range(k)])
    if not hasattr(f, '_ydata'):
        raise Skip('internal name _ydata')
    f._ydata = np.array([mean, sig, mean, sig], dtype=object if v.symbolic else float)
    out = f.qv_success()
    v.ensure('one entry per depth', len(out) == k and all(len(x) == 2 for x in out))
    for i in range(k):
        z = (mean[i] - 2 / 3) / sig[i]
        if v.symbolic:
            want = mean[i] - 2 * sig[i] > core.Fraction(2, 3)
            # 2/3 and sqrt(2) are rounded in the code: not decided within 1e-9
            v.require(or_(mean[i] - 2 * sig[i] > core.Fraction(2, 3) + 1e-9, mean[i] - 2 * sig[i] < core.Fraction(2, 3) - 1e-9))
            v.ensure('success exactly when the mean minus two errors exceeds 2/3', want if bool(out[i][0]) else not_(want))
        else:
            v.require(abs(z - 2) > 1e-9)
            v.ensure('success exactly when the mean minus two errors exceeds 2/3', bool(out[i][0]) == (z > 2), lambda: short((mean, sig, out)))
            v.ensure('confidence level', abs(out[i][1] - normal_cdf(z)) < 1e-9)
            v.ensure('methods', abs(f.calc_z_value(mean[i], sig[i]) - z) < 1e-9 * max(1, abs(z)) and abs(f.calc_confidence_level(z) - normal_cdf(z)) < 1e-9)


def normal_cdf(z):
    from scipy.stats import norm
    return norm.cdf(z)


@reg.contract(F + ':QVFitter.calc_confidence_level (zero error)', mode='B', sizes=[{}], samples=3)
def zero_error(v):
    """all trials perfect: zero error counts as certain"""
    f = qv().QVFitter(qubit_lists=[[0], [0, 1]])
    if not hasattr(f, '_ydata'):
        raise Skip('internal name _ydata')
    f._ydata = np.array([[1.0, 0.5], [0.0, 0.0], [1, 1], [0, 0]])
    out = f.qv_success()
    v.ensure('success', [bool(x[0]) for x in out] == [True, False] and abs(out[0][1] - 1) < 1e-9 and abs(out[1][1]) < 1e-9)


# ------------------------------------------------------------------ circuits
LISTS = [[[0]], [[0, 1]], [[1, 0]], [[1, 2]], [[0, 2]], [[2, 0, 1]], [[0, 1, 2]], [[3, 1, 2]], [[0], [2, 1], [1, 2, 3]], [[0, 1, 2, 3]], [[4, 2]], [[0, 1], [2, 0, 3]]]


@reg.contract(C + ':qv_circuits', mode='B', sizes=[{'lists': x} for x in LISTS], samples=2)
def circuits(v, lists):
    """the same model circuit with and without measurement, on the listed
    qubits, measured in list order"""
    from qiskit.quantum_info import Operator
    trials = v.choice('trials', [1, 2, 3])
    seed = v.choice('seed', [None, 0, 5, 123])
    lists_in = [list(x) for x in lists]
    kw = {} if seed is None else {'seed': seed}
    cs, ns = qv().qv_circuits(lists_in, trials, **kw)
    v.ensure('inputs unchanged', lists_in == lists)
    v.ensure('trials and depths', len(cs) == len(ns) == trials and all(len(x) == len(lists) for x in cs + ns))
    seen = []
    for t in range(trials):
        for i, q in enumerate(lists):
            c, n = cs[t][i], ns[t][i]
            d = len(q)
            v.ensure('names', c.name == n.name == cname(d, t))
            v.ensure('ideal circuit has the width and no measurement', n.num_qubits == d and not measure_map(n) and n.num_clbits == 0)
            mm = measure_map(c)
            v.ensure('measured once each in list order', sorted(mm) == sorted((x, k) for k, x in enumerate(q)) and c.num_clbits == d, lambda: short((q, mm)))
            u = unitary_dec(c)
            w = Operator(n.decompose().decompose() if False else n).data
            full = embed(w, q, c.num_qubits)
            v.ensure('same circuit on the listed qubits', phase_equal(u, full, 1e-6), lambda: short(q))
            seen.append(w)
    if seed is not None:
        cs2, ns2 = qv().qv_circuits(lists_in, trials, seed=seed)
        v.ensure('reproducible from the seed', all(np.allclose(Operator(a).data, Operator(b).data) for x, y in zip(ns, ns2) for a, b in zip(x, y)))
    else:
        for i, q in enumerate(lists):
            ws = seen[i::len(lists)]
            if len(ws) == 3 and len(q) > 1:     # terra draws one of 1000 model circuits
                v.ensure('trials are drawn afresh', not (np.allclose(ws[0], ws[1]) and np.allclose(ws[0], ws[2])))


def unitary_dec(circ):
    from qiskit.quantum_info import Operator
    return Operator(strip_measure(circ)).data


def embed(w, qubits, n):
    """matrix acting on the listed qubits of n (qubit 0 least significant)"""
    d = 2 ** n
    out = np.zeros((d, d), dtype=complex)
    for x in range(d):
        sub = sum(((x >> q) & 1) << k for k, q in enumerate(qubits))
        rest = x
        for q in qubits:
            rest &= ~(1 << q)
        for y in range(len(w)):
            z = rest | sum(((y >> k) & 1) << q for k, q in enumerate(qubits))
            out[z, x] += w[y, sub]
    return out


@reg.contract(C + ':qv_circuits; ' + F + ':QVFitter', mode='B', sizes=[{'lists': x} for x in ([[0, 1, 2]], [[1, 2], [2, 0, 3]])], samples=2)
def noiseless(v, lists):
    """exact distributions of the measured circuits score their ideal value"""
    trials = 3
    cs, ns = qv().qv_circuits([list(x) for x in lists], trials, seed=v.int('seed', 0, 10 ** 6))
    f = qv().QVFitter(qubit_lists=lists)
    for t in range(trials):
        for n in ns[t]:
            from qiskit.quantum_info import Statevector
            f.add_statevectors(SVResult([(n.name, Statevector.from_instruction(n).data)]))
    shots = 10 ** 9
    f.add_data([real_qv_result([(c.name, {k: int(round(p * shots)) for k, p in distribution(c).items() if int(round(p * shots))}) for c in cs[t]]) for t in range(trials)])
    for i in range(len(lists)):
        v.ensure('measured score equals ideal score', abs(f.ydata[0][i] - f.ydata[2][i]) < 1e-6, lambda: short(f.ydata))
        v.ensure('heavy outputs are more likely', f.ydata[2][i] > 0.55)


# ------------------------------------------------- any number of results / trials
from contracts import ulib as UL

reg.contract(UT + ':build_counts_dict_from_list (any list)', **UL.U)(UL.any_count_list)


@reg.contract(F + ':QVFitter.calc_data; _subset_probability (any number of results)', sizes=[{'nd': 1, 'nt': 2}, {'nd': 2, 'nt': 2}], **UL.U)
def any_results(v, nd, nt):
    """any number of results, each with or without a circuit: heavy counts are the
    counts of the heavy outputs over all shots of all results"""
    u = UL.Engine.of(v)
    f = UL.Bag()
    f._ntrials, f._depths = nt, [2, 3][:nd]
    names = ['qv_depth_%d_trial_%d' % (d, t) for d in f._depths for t in range(nt)]
    f._heavy_outputs = {c: HEAVY[int(c.split('_')[2])] for c in names}
    rs = UL.AnyResults(v, [(c, (), s) for c in names for s in f._heavy_outputs[c]])
    f._result_list = rs.seq
    f._circ_counts, f._circ_shots, f._heavy_output_counts, f._heavy_output_prob_exp = {}, {}, {}, {}
    sub = UL.twin(F, 'QVFitter._subset_probability')
    f._subset_probability = lambda a, b: sub(f, a, b)
    UL.twin(F, 'QVFitter.calc_data', UL.combine_stubs())(f)
    for c in names:
        want = 0
        for s in f._heavy_outputs[c]:
            want = want + rs.marginal(c, (), s)
        v.ensure('shots of all results', UL.seq(f._circ_shots[c], rs.shots(c)))
        v.ensure('heavy counts of all results', UL.seq(f._heavy_output_counts[c], want))
        v.ensure('heavy output probability', UL.seq(f._heavy_output_prob_exp[c] * rs.shots(c), want))


class Table:
    """numbers by circuit name, for any trial"""

    def __init__(self, u, name, low=None, high=None):
        self.u, self.name, self.low, self.high = u, name, low, high

    def f(self, d, i):
        return self.u.fun('%s.%d' % (self.name, d), UL.I, UL.R)(i)

    def __getitem__(self, k):
        fmt, (d, i) = k.fmt
        if fmt != 'qv_depth_%d_trial_%d':
            raise UL.Unsupported('circuit name')
        return UL.Sym(self.f(d, i.t))


@reg.contract(F + ':QVFitter.calc_statistics (any number of trials)', sizes=[{'nd': 1}, {'nd': 2}], **UL.U)
def any_trials(v, nd):
    """any number of trials: mean heavy output probability over all shots, ideal mean
    over the trials, binomial errors"""
    u = UL.Engine.of(v)
    f = UL.Bag()
    n = v.int('ntrials', 1)
    f._ntrials, f._depths = n, [4, 2][:nd]
    f._heavy_output_counts, f._circ_shots, f._heavy_output_prob_ideal = (Table(u, x) for x in ('heavy', 'shots', 'ideal'))

    def facts(i):
        out = []
        for d in f._depths:
            h, s, p = (t.f(d, i) for t in (f._heavy_output_counts, f._circ_shots, f._heavy_output_prob_ideal))
            out += [h >= 0, h <= s, s >= 1, p >= 0, p <= 1]
        return out
    u.range_facts = facts
    idx = u.builtins()['range'](n)
    tot = {d: {t.name: u.total(idx.map(lambda i: UL.Sym(t.f(d, i.t)))) for t in (f._circ_shots, f._heavy_output_counts, f._heavy_output_prob_ideal)} for d in f._depths}
    for d in f._depths:
        v.require(tot[d]['shots'] > 0)
        v.require(tot[d]['ideal'] <= n)          # consequence of p <= 1
    UL.twin(F, 'QVFitter.calc_statistics')(f)
    for k, d in enumerate(f._depths):
        y = f._ydata
        v.ensure('heavy output probability over all shots', UL.seq(y[0][k] * tot[d]['shots'], tot[d]['heavy']))
        v.ensure('ideal mean over the trials', UL.seq(y[2][k] * n, tot[d]['ideal']))
        v.ensure('binomial errors', and_(UL.seq(y[1][k] ** 2 * n, y[0][k] * (1 - y[0][k])), UL.seq(y[3][k] ** 2 * n, y[2][k] * (1 - y[2][k])), y[1][k] >= 0, y[3][k] >= 0))
