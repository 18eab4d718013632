"""C19 accreditation: which runs are accepted, outputs, bound and confidence"""
from contracts.common import *
from pyvc.core import short
from contracts.ulib import *

reg = Registry('C19')
reg.assumptions += ['Result.get_counts(i) returns the counts of experiment i (no zero entries)',
                    'confidence: Hoeffding bound for the estimate of the acceptance probability within theta',
                    'exp is an uninterpreted positive function in the proof of the confidence']
F = IG + 'verification.accreditation.fitters'
Q = IG + 'verification.accreditation.qotp'


def fitter():
    from qiskit.ignis.verification.accreditation import AccreditationFitter
    return AccreditationFitter()


def state(f):
    return (f.N_acc, f.num_runs, list(f.outputs))


def xor(a, p):
    return ''.join('1' if (x == '1') != (y == 1) else '0' for x, y in zip(a, p))


def one_run(v, tag, nt, m, result=FakeResult, npad=True):
    """a run: (results, pads, position, accepted?, output)"""
    pos = v.choice(tag + 'pos', list(range(nt + 1)))
    pads, outs = [], []
    for k in range(nt + 1):
        if v.symbolic and nt + m > 4:
            pads.append([(k * k + i + nt) % 2 for i in range(m)])
        else:
            pads.append([v.choice('%sp%d_%d' % (tag, k, i), [0, 1]) for i in range(m)])
        if v.symbolic:
            outs.append(v.choice('%so%d' % (tag, k), bitstrings(m)))
        else:
            z = ''.join(str(b) for b in pads[-1])           # a correct trap
            b = v.choice('%sb%d' % (tag, k), list(range(m)))    # one wrong bit
            w = z[:b] + ('1' if z[b] == '0' else '0') + z[b + 1:]
            outs.append(v.choice('%so%d' % (tag, k), [z] * (4 * nt) + [w, w, w, w, v.choice('%sq%d' % (tag, k), bitstrings(m)) if k == pos else w]))
    dec = [xor(o, p) for o, p in zip(outs, pads)]
    ok = all(d == '0' * m for k, d in enumerate(dec) if k != pos)
    res = result([('c%d' % k, {o: 1}) for k, o in enumerate(outs)])
    return res, [np.array(p) for p in pads] if npad else pads, pos, ok, dec[pos]


@reg.contract(F + ':AccreditationFitter.single_protocol_run', mode='S', sizes=[{'nt': 3, 'm': 1}, {'nt': 4, 'm': 1}, {'nt': 3, 'm': 2}],
              rsizes=[{'nt': nt, 'm': m} for nt in (3, 4, 7, 12) for m in (1, 2, 4, 10)] + [{'nt': 3, 'm': 12}], samples=30, mods=[F, Q], budget=200)
def accepts(v, nt, m):
    """every outcome, pad and position of the target: accepted exactly when all
    traps are zero, and then the unpadded output is recorded"""
    f = fitter()
    res, pads, pos, ok, out = one_run(v, '', nt, m)
    f.single_protocol_run(res, pads, pos)
    v.ensure('runs counted', f.num_runs == 1)
    v.ensure('accepted iff all traps return zeros', (f.flag == 'accepted') == ok and f.N_acc == (1 if ok else 0), lambda: short((pads, pos, ok, f.flag)))
    v.ensure('outputs of accepted runs, unpadded', list(f.outputs) == ([out] if ok else []), lambda: short((f.outputs, out)))


def trap_run(v, tag, nt, m, kinds):
    """a run given by what happens: 'ok', 'fail<k>' (k-th trap wrong),
    'shots', 'traps'"""
    kind = v.choice(tag + 'kind', kinds)
    pos = v.choice(tag + 'pos', [0, nt // 2, nt] if len(kinds) > 4 else [int(tag[1:])])
    t = ''.join('1' if v.choice('%st%d' % (tag, i), [0, 1]) else '0' for i in range(m))
    r = np.random.RandomState(7 + len(tag) * 13 + pos)
    pads = [[int(x) for x in r.randint(2, size=m)] for _ in range(nt + 1)]
    clear = ['0' * m] * (nt + 1)
    clear[pos] = t
    traps = [k for k in range(nt + 1) if k != pos]
    if kind == 'first':
        clear[traps[0]] = '0' * (m - 1) + '1'
    if kind == 'last':
        clear[traps[-1]] = '1' + '0' * (m - 1)
    counts = [{xor(c, p): 1} for c, p in zip(clear, pads)]
    if kind == 'shots':
        counts[traps[-1]] = {xor('0' * m, pads[traps[-1]]): 2}
    if kind == 'split':
        counts[pos] = {'0' * m: 1, '1' * m: 1}
    if kind == 'empty':
        counts[traps[0]] = {}
    if kind == 'few':
        counts, pads = counts[:-1], pads[:-1]
    if kind == 'more':
        counts, pads = counts + [{'0' * m: 1}], pads + [[0] * m]
    return kind, FakeResult([('c%d' % k, c) for k, c in enumerate(counts)]), pads, pos, t


@reg.contract(F + ':AccreditationFitter (histories)', mode='S', sizes=[{'n': 2, 'm': 1, 'nt': 4}, {'n': 3, 'm': 1, 'nt': 3}],
              rsizes=[{'n': 6, 'm': 3, 'nt': 4}, {'n': 4, 'm': 2, 'nt': 3}, {'n': 14, 'm': 11, 'nt': 11}], samples=30, mods=[F, Q], budget=200)
def histories(v, n, m, nt):
    """sequences of runs: outputs are those of the accepted runs, in order; a
    refused run raises QiskitError and changes nothing; a second fitter does not
    see the runs of the first"""
    from qiskit import QiskitError
    f, g = fitter(), fitter()
    want, runs = [], 0
    kinds = ['ok', 'first', 'last', 'shots', 'split', 'empty', 'few', 'more']
    if v.symbolic and n == 3:
        kinds = ['ok', 'last', 'shots', 'more']
    for i in range(n):
        kind, res, pads, pos, t = trap_run(v, 'r%d' % i, nt, m, kinds)
        if kind in ('shots', 'split', 'empty') or (kind == 'few' and (runs > 0 or nt == 3)) or (kind == 'more' and runs > 0):
            before = state(f)
            v.ensure_raises('refused with QiskitError', QiskitError, f.single_protocol_run, res, pads, pos)
            v.ensure('refused runs change nothing', state(f) == before, lambda: short((kind, before, state(f))))
            continue
        if kind in ('few', 'more'):           # first run fixes the number of traps: out of the scope here
            continue
        f.single_protocol_run(res, pads, pos)
        runs += 1
        if kind == 'ok':
            want.append(t)
        v.ensure('accepted iff all traps return zeros', (f.flag == 'accepted') == (kind == 'ok'))
        v.ensure('history', state(f) == (len(want), runs, want), lambda: short((state(f), want, runs)))
    v.ensure('other fitters are independent', state(g) == (0, 0, []) and state(fitter()) == (0, 0, []))


def bound_spec(acc, runs, traps, theta, g):
    """spec of the bound: g*1.7/(traps+1)/(acc/runs - theta) + 1 - g, at most 1"""
    return g * 1.7 / (traps + 1) / (acc / runs - theta) + 1 - g


@reg.contract(F + ':AccreditationFitter.bound_variation_distance', mode='F', sizes=[{}], samples=60, mods=[F])
def bound(v):
    """any numbers of accepted runs, runs, traps and theta: bound and confidence,
    the trivial bound when too few runs were accepted"""
    f = fitter()
    if not {'N_acc', 'num_runs', 'num_traps', 'g_num'} <= set(vars(f)):
        raise Skip('attributes renamed')
    if v.symbolic:
        runs, acc, traps = v.int('runs', 1), v.int('acc', 1), v.int('traps', 3)
    else:
        runs = v.int('runs', 1, v.choice('most', [5, 50, 5000]))
        acc = v.int('acc', 1, runs)
        traps = v.int('traps', 3, 40)
    v.require(acc <= runs)
    theta = v.real('theta', 0, 1)
    v.require(theta > 0)
    v.require(theta < 1)
    g = v.real('g', 0, 1)
    f.N_acc, f.num_runs, f.num_traps, f.g_num = acc, runs, traps, g
    if v.symbolic:
        E = v.real('E', 0)
        args = []

        def ex(x):
            args.append(x)
            return E
        v.standin('exp', ex)
    f.bound_variation_distance(theta)
    if acc > theta * runs:
        b = bound_spec(acc, runs, traps, theta, g)
        v.ensure('bound formula, at most one', v.eq(f.bound, ite(b > 1, 1, b)), lambda: short((f.bound, b)))
        if v.symbolic:
            v.ensure('confidence formula', and_(len(args) == 1, v.eq(f.confidence, 1 - 2 * E), v.eq(args[0] if args else 0, -2 * theta * theta * runs)), lambda: short(f.confidence))
        else:
            v.ensure('confidence formula', v.eq(f.confidence, 1 - 2 * math.exp(-2 * theta * theta * runs)))
    else:
        v.ensure('no statement when too few runs were accepted', v.eq(f.bound, 1), lambda: short(f.bound))


@reg.contract(F + ':AccreditationFitter.bound_variation_distance (histories)', mode='B', sizes=[{'nt': nt, 'real': r} for nt in (3, 5, 9) for r in (False, True)], samples=15)
def bound_history(v, nt, real):
    """bound after every run of a history is the bound of the data so far"""
    from qiskit import QiskitError
    f = fitter()
    acc = runs = 0
    m = 2
    for i in range(v.choice('n', [1, 4, 12])):
        kind, res, pads, pos, t = trap_run(v, 'r%d' % i, nt, m, ['ok', 'ok', 'ok', 'last', 'first'])
        if real:
            res = real_result([(e.header.name, e.counts) for e in res.results], m)
        f.single_protocol_run(res, pads, pos)
        runs += 1
        acc += kind == 'ok'
        theta = v.choice('theta%d' % i, [0.01, 0.2, 0.5, 0.9])
        if acc == 0:
            v.ensure_raises('no accepted run', QiskitError, f.bound_variation_distance, theta)
            continue
        f.bound_variation_distance(theta)
        if acc / runs > theta:
            v.ensure('bound formula, at most one', v.eq(f.bound, min(1, bound_spec(acc, runs, nt, theta, 1)), 1e-9), lambda: short((f.bound, acc, runs, theta)))
            v.ensure('confidence formula', v.eq(f.confidence, 1 - 2 * math.exp(-2 * theta * theta * runs), 1e-9), lambda: short(f.confidence))
        else:
            v.ensure('no statement when too few runs were accepted', f.bound == 1)
        v.ensure('the bound does not consume data', f.num_runs == runs and f.N_acc == acc)


@reg.contract(F + ':AccreditationFitter (with AccreditationCircuits)', mode='B', sizes=[{'n': n} for n in (1, 2, 3)], samples=2)
def end_to_end(v, n):
    """ideal single shots are accepted and give outputs of the target; a flipped
    trap outcome is rejected"""
    from contracts.c18 import target_circuit, random_target
    from qiskit.ignis.verification.accreditation import AccreditationCircuits
    ops, meas, m = random_target(v, n)
    circ = target_circuit(n, ops, meas, m)
    a = AccreditationCircuits(circ, seed=v.int('seed', 0, 10 ** 6))
    f = fitter()
    r = nprng(v)
    good = distribution(circ)
    for i in range(3):
        cl, pl, v0 = a.generate_circuits(3)
        shots = []
        for c in cl:
            d = distribution(c)
            ks = sorted(d)
            p = np.array([d[k] for k in ks])
            shots.append(ks[r.choice(len(ks), p=p / p.sum())])
        bad = i == 1
        if bad:
            k = (v0 + 1 + r.randint(3)) % 4
            # flip an outcome bit which is measured
            b = measure_map(cl[k])[0][1]
            s = list(shots[k])
            s[m - 1 - b] = '1' if s[m - 1 - b] == '0' else '0'
            shots[k] = ''.join(s)
        f.single_protocol_run(real_result([('c%d' % j, {s: 1}) for j, s in enumerate(shots)], m), pl, v0)
        v.ensure('accepted iff the traps are right', (f.flag == 'accepted') == (not bad))
    v.ensure('outputs are outcomes of the target', len(f.outputs) == 2 and all(o in good for o in f.outputs), lambda: short((f.outputs, good)))


@reg.contract(F + ':AccreditationFitter.single_protocol_run (any number of traps)', **U)
def any_traps(v):
    """any number of traps, any position, any history so far, any outcomes: accepted
    exactly when no trap fails, the counters move by one and the output recorded is
    that of the target (QOTPCorrectCounts by contract: a function of counts and pad)"""
    u = Engine.of(v)
    from qiskit import QiskitError
    n = v.int('n', 0)
    raw, pad, cor = u.fun('raw', I, STRING), u.fun('pad', I, I), u.fun('corrected', STRING, I, STRING)

    class Res:
        def get_counts(self, i):
            return Obj(raw(term(i)))
    pl = Seq(n, lambda i: Obj(pad(i)), ('pads', ()))
    pos = v.int('pos', 0)
    v.require(or_(pos < n, n < 4))
    f = Bag()
    f.num_runs, f.num_traps, f.N_acc = v.int('runs', 0), v.int('t0', 0), v.int('acc', 0)
    f.flag, f.outputs = v.choice('flag', ['accepted', 'rejected']), []
    n0, r0, t0, outs = f.N_acc, f.num_runs, f.num_traps, f.outputs
    refuse = or_(n < 4, and_(r0 > 0, not_(seq(n - 1, t0))))
    run = twin(F, 'AccreditationFitter.single_protocol_run',
               {'QOTPCorrectCounts': lambda c, p: {BitStr(cor(c.t, p.t)): 1}})
    try:
        run(f, Res(), pl, pos)
    except QiskitError:
        v.ensure('refused: fewer than three traps or another number than before', refuse)
        v.ensure('refused runs change nothing', and_(seq(f.num_runs, r0), seq(f.N_acc, n0), len(outs) == 0))
        return
    v.ensure('refused: fewer than three traps or another number than before', not_(refuse))
    idx = Seq(n, Sym, ('pads', ()))
    bad = u.anyof(idx, lambda i: and_(not_(seq(i, pos)), not_(BitStr(cor(raw(i.t), pad(i.t))).zero())))
    v.ensure('accepted iff all traps return zeros', iff(bad, f.flag == 'rejected'))
    v.ensure('counters', and_(seq(f.num_runs, r0 + 1), seq(f.N_acc, n0 + ite(bad, 0, 1)), seq(f.num_traps, n - 1)))
    v.ensure('one output per accepted run', f.outputs is outs and len(outs) == (1 if f.flag == 'accepted' else 0))
    for o in outs:
        v.ensure('the output is that of the target', SymBool(o.t == cor(raw(pos.t), pad(pos.t))))
