"""C17 decoding corrects every error pattern within the code distance"""
from contracts.common import *
from contracts.c16 import tc, spec_string, bit_run, xor
from pyvc.core import short
from contracts.ulib import *

reg = Registry('C17')
reg.assumptions += ['networkx max_weight_matching returns a maximum weight matching of maximum cardinality, shortest_path_length shortest paths',
                    'the Aer simulator runs x, y, z, cx, measure, reset as defined (construction of the syndrome graph)',
                    'decoding within the distance is established by exhaustive evaluation of the real decoder at the listed sizes']
M = IG + 'verification.topological_codes.fitters'


def faults(d, T):
    """single faults: (round, code qubit) flips and (round, link) wrong outcomes"""
    return [('q', t, j) for t in range(T + 1) for j in range(d)] + [('m', t, j) for t in range(T) for j in range(d - 1)]


def outcome(d, T, log, fs):
    """code bits and rounds of a run with the given faults"""
    cur = [int(log)] * d
    rounds = []
    for t in range(T + 1):
        for j in range(d):
            if ('q', t, j) in fs:
                cur[j] ^= 1
        if t < T:
            rounds.append([cur[j] ^ cur[j + 1] ^ (('m', t, j) in fs) for j in range(d - 1)])
    return cur, rounds


def string_of(d, T, log, fs):
    return spec_string(*outcome(d, T, log, fs))


_dec = {}


def decoder(d, T, fresh=False):
    if fresh or (d, T) not in _dec:
        dec = tc().GraphDecoder(tc().RepetitionCode(d, T))
        if fresh:
            return dec
        _dec[d, T] = dec
    return _dec[d, T]


def within(d, T, k):
    f = faults(d, T)
    for n in range(k + 1):
        yield from itertools.combinations(f, n)


@reg.contract(M + ':GraphDecoder.matching; make_error_graph', mode='B',
              sizes=[{'d': d, 'T': T} for d, T in ((2, 1), (3, 1), (3, 2), (3, 3), (4, 1), (4, 2), (5, 1), (5, 2))], samples=1, budget=200,
              assumes=['exhaustive over all patterns of fewer than d/2 faults, by execution of the real decoder'])
def corrects(v, d, T):
    """all patterns of fewer than d/2 faults (flips of code qubits at any time,
    wrong syndrome bits) are corrected to the encoded value, exhaustively"""
    dec = decoder(d, T)
    k = (d - 1) // 2
    bad = []
    for log in ('0', '1'):
        for fs in within(d, T, k):
            s = string_of(d, T, log, fs)
            if dec.matching(s) != '%s %s' % (log, log):
                bad.append((log, fs, s, dec.matching(s)))
    v.ensure('corrected to the encoded value', not bad, lambda: short(bad[:3]))


@reg.contract(M + ':GraphDecoder.matching (larger codes)', mode='B', sizes=[{'d': d, 'T': T} for d, T in ((5, 3), (6, 2), (7, 1), (7, 2), (9, 1))], samples=60)
def corrects_large(v, d, T):
    """random patterns of fewer than d/2 faults"""
    r = nprng(v)
    dec = decoder(d, T)
    f = faults(d, T)
    k = int(r.randint(0, (d - 1) // 2 + 1)) if v.choice('full', [False, True]) else (d - 1) // 2
    fs = [f[i] for i in r.choice(len(f), k, replace=False)]
    log = v.choice('log', ['0', '1'])
    s = string_of(d, T, log, fs)
    v.ensure('corrected to the encoded value', dec.matching(s) == '%s %s' % (log, log), lambda: short((fs, s, dec.matching(s))))
    # a run in which the faults hit distinct code qubits between the rounds
    qs = r.choice(d, (d - 1) // 2, replace=False)
    fs = [('q', int(r.randint(0, T + 1)), int(q)) for q in qs]
    s = string_of(d, T, log, fs)
    v.ensure('flips of fewer than half of the code qubits', dec.matching(s) == '%s %s' % (log, log), lambda: short((fs, s)))


@reg.contract(M + ':GraphDecoder._make_syndrome_graph', mode='B', sizes=[{'d': d, 'T': T} for d, T in ((2, 1), (2, 3), (3, 1), (3, 2), (4, 2), (5, 1), (5, 3))], samples=1)
def graph(v, d, T):
    """every pair of detection events that one bit flip anywhere in the circuit
    can cause is an edge"""
    code = tc().RepetitionCode(d, T)
    dec = tc().GraphDecoder(code)
    edges = set(frozenset(e) for e in dec.S.edges)
    circ = code.circuit['0']
    want = set()
    for i, (op, qs, cs) in enumerate(circ.data):
        for q in qs:
            def before(k, _op, _qs, state):
                if k == i:
                    state[q] = xor(state[q], True)
            cl = bit_run(v, circ, before)
            regs = [[int(cl[b]) for b in r] for r in circ.cregs]
            s = spec_string(regs[-1], regs[:-1])
            nodes = []
            for ty, part in enumerate(s.split('  ')):
                for rd, bits in enumerate(part.split(' ')):
                    nodes += [(ty, rd, k) for k, b in enumerate(bits) if b == '1']
            v.ensure('a single flip causes no or two events', len(nodes) in (0, 2))
            if nodes:
                want.add(frozenset(nodes))
    v.ensure('edges of all single flips', want <= edges, lambda: short(sorted(map(sorted, want - edges))))
    v.ensure('no other edges', edges <= want, lambda: short(sorted(map(sorted, edges - want))))
    v.ensure('unit distances', all(x.get('distance') == 1 for _, _, x in dec.S.edges(data=True)))
    other = tc().GraphDecoder(code, S=dec.S)
    v.ensure('given graph is used', other.S is dec.S)


# -------------------------------------------------------- logical error rates
@reg.contract(M + ':GraphDecoder.get_logical_prob', mode='S', sizes=[{'d': 2, 'T': 1}, {'d': 3, 'T': 1}], rsizes=[], samples=0, needs=[M + '.GraphDecoder.matching'])
def logical_prob(v, d, T):
    """arbitrary counts on all outcome strings; fraction of shots whose
    corrected value is wrong, given what the decoder returns for each string"""
    dec = decoder(d, T)
    res, wrong, tot = {}, {}, {}
    for log in ('0', '1'):
        res[log] = {}
        wrong[log] = tot[log] = 0
        for i, bits in enumerate(itertools.product((0, 1), repeat=d + T * (d - 1))):
            c, r = list(bits[:d]), [list(bits[d + t * (d - 1):d + (t + 1) * (d - 1)]) for t in range(T)]
            s = spec_string(c, r)
            n = v.int('n%s_%d' % (log, i), 1)
            res[log][s] = n
            tot[log] = tot[log] + n
            if dec.matching(s)[0] != log:
                wrong[log] = wrong[log] + n
    got = dec.get_logical_prob(res)
    v.ensure('logical values', set(got) == {'0', '1'})
    for log in got:
        v.ensure('fraction of shots with the wrong value', seq(got[log] * tot[log], wrong[log]))
    one = dec.get_logical_prob({'1': res['1']})
    v.ensure('values are independent', set(one) == {'1'} and v.eq(one['1'], got['1']))


STR = ['0 0  00 00', '1 1  00 00', '0 0  01 01', '1 1  11 00', '0 1  10 00', '0 0  00 01', '1 0  00 10']


@reg.contract(M + ':postselection_decoding', mode='S', sizes=[{}], samples=10)
def postselection(v):
    """only runs with trivial syndrome count"""
    res = {log: {s: v.int('n%s_%d' % (log, i), 1) for i, s in enumerate(STR)} for log in ('0', '1')}
    keep = {log: dict(x) for log, x in res.items()}
    got = tc().postselection_decoding(res)
    v.ensure('logical values', set(got) == {'0', '1'})
    for log in ('0', '1'):
        good, bad = (STR[0], STR[1]) if log == '0' else (STR[1], STR[0])
        v.ensure('wrong fraction of the postselected shots', v.eq(got[log] * (res[log][good] + res[log][bad]), res[log][bad], 1e-9))
    v.ensure('input unchanged', v.eq(res, keep))


@reg.contract(M + ':lookuptable_decoding', mode='S', sizes=[{'k': k} for k in (1, 2, 3)], rsizes=[{'k': k} for k in (1, 3, 7)], samples=10)
def lookup(v, k):
    """each string is decoded to the value with which it was seen more often in
    training; ties count as correct"""
    r = {log: {s: v.int('r%s_%d' % (log, i), 1, None if v.symbolic else 60) for i, s in enumerate(STR[:k])} for log in ('0', '1')}
    t = {log: {s: v.int('t%s_%d' % (log, i), 1, None if v.symbolic else 20) for i, s in enumerate(STR[:k])} for log in ('0', '1')}
    miss = v.choice('miss', [None, '0', '1', 'both'])
    if miss == 'both':
        del t['0'][STR[0]], t['1'][STR[0]]
    elif miss:
        del t[miss][STR[0]]
    t['0']['0 0  10 10'] = 5
    got = tc().lookuptable_decoding(t, r)
    v.ensure('logical values', set(got) == {'0', '1'})
    for log in ('0', '1'):
        other = '1' if log == '0' else '0'
        wrong = sum(ite(t[other].get(s, 0) > t[log].get(s, 0), r[log][s], 0) for s in r[log])
        v.ensure('fraction of shots decoded to the other value', v.eq(got[log] * sum(r[log].values()), wrong, 1e-9))


@reg.contract(M + ':GraphDecoder.get_logical_prob; postselection_decoding; lookuptable_decoding', mode='B', sizes=[{'d': 3, 'T': 1}, {'d': 4, 'T': 2}, {'d': 5, 'T': 1}], samples=10)
def rates(v, d, T):
    """random processed results"""
    r = nprng(v)
    dec = decoder(d, T)
    f = faults(d, T)
    res = {}
    want = {}
    post = {}
    for log in ('0', '1'):
        res[log] = {}
        for _ in range(int(r.randint(1, 25))):
            fs = [f[i] for i in r.choice(len(f), int(r.randint(0, min(6, len(f)))), replace=False)]
            s = string_of(d, T, log, fs)
            res[log][s] = res[log].get(s, 0) + int(r.randint(1, 100))
        s0 = string_of(d, T, log, [])
        res[log].setdefault(s0, 3)
        want[log] = sum(n for s, n in res[log].items() if dec.matching(s)[0] != log) / sum(res[log].values())
        ok = {s: n for s, n in res[log].items() if '1' not in s.split('  ')[1]}
        post[log] = sum(n for s, n in ok.items() if s[0] != log) / sum(ok.values())
    keep = {log: dict(x) for log, x in res.items()}
    v.ensure('matching', v.eq(dec.get_logical_prob(res), want, 1e-12))
    v.ensure('postselection', v.eq(tc().postselection_decoding(res), post, 1e-12))
    tr = {'0': dict(res['1']), '1': dict(res['0'])}
    lk = tc().lookuptable_decoding(tr, res)
    for log, o in (('0', '1'), ('1', '0')):
        w = sum(n for s, n in res[log].items() if tr[o].get(s, 0) > tr[log].get(s, 0)) / sum(res[log].values())
        v.ensure('lookup table', abs(lk[log] - w) < 1e-12)
    v.ensure('input unchanged', res == keep)


# ------------------------------------------------------------------- weights
def events(s):
    out = set()
    for ty, part in enumerate(s.split('  ')):
        for rd, bits in enumerate(part.split(' ')):
            out |= {(ty, rd, k) for k, b in enumerate(bits) if b == '1'}
    return out


@reg.contract(M + ':GraphDecoder.weight_syndrome_graph; make_error_graph', mode='B', sizes=[{'d': 3, 'T': 1}, {'d': 3, 'T': 2}, {'d': 5, 'T': 1}], samples=6)
def weights(v, d, T):
    """-log of the smallest ratio of the frequencies with which a fault would
    exchange; decoding with weights from noisy data still corrects"""
    r = nprng(v)
    base = decoder(d, T)
    import copy
    dec = tc().GraphDecoder(base.code, S=copy.deepcopy(base.S))
    f = faults(d, T)
    p = v.choice('p', [0.02, 0.1, 0.25])
    res = {}
    shots = v.choice('shots', [50, 400])
    for _ in range(shots):
        fs = [x for x in f if r.rand() < p]
        s = string_of(d, T, '0', fs)
        res[s] = res.get(s, 0) + 1
    dec.weight_syndrome_graph({'0': res})
    for a, b, data in dec.S.edges(data=True):
        cnt = {}
        for s, n in res.items():
            ev = events(s)
            k = (a in ev, b in ev)
            cnt[k] = cnt.get(k, 0) + n
        pairs = [((False, False), (True, True)), ((False, True), (True, False))]
        v.ensure('distances are finite and not negative', math.isfinite(data['distance']) and data['distance'] >= -1e-12, lambda: short((a, b, cnt)))
        if all(cnt.get(x, 0) > 0 for pr in pairs for x in pr):
            q = min(min(cnt[x] / cnt[y], cnt[y] / cnt[x]) for x, y in pairs)
            v.ensure('-log(p/(1-p))', abs(data['distance'] + math.log(q)) < 1e-9)
    v.ensure('trivial syndrome is not touched', dec.matching(string_of(d, T, '0', [])) == '0 0' and dec.matching(string_of(d, T, '1', [])) == '1 1')
    got = dec.get_logical_prob({'0': res})
    v.ensure('shots conserved', 0 <= got['0'] <= 1)
    # graph of the events of one string
    s = string_of(d, T, '0', [x for x in f if r.rand() < 0.2])
    import networkx as nx
    E = base.make_error_graph(s)['0']
    ev = {x for x in events(s) if x[0] != 0} | {(0, 0, 0), (0, 1, 0)}
    v.ensure('nodes: events and both logical values', set(E.nodes) == ev)
    for a in ev:
        for b in ev:
            if a < b:
                v.ensure('weight is minus the distance', E[a][b]['weight'] == -nx.shortest_path_length(base.S, a, b))


# ------------------------------------------------- any number of strings
@reg.contract(M + ':GraphDecoder.get_logical_prob (any results)', **U)
def any_rates(v):
    """results with any number of strings and any counts: the rate is the share of
    shots whose decoded string starts with the other value (matching by contract: a
    function of the string)"""
    u = Engine.of(v)
    res = {'0': counts(v, 'r0', v.int('n0', 0)), '1': counts(v, 'r1', v.int('n1', 0))}
    mt = u.fun('matching', STRING, STRING)
    dec = Bag()
    dec.matching = lambda s: Str(mt(s.t))
    for log in res:
        v.require(u.total(res[log].values()) > 0)
    out = twin(M, 'GraphDecoder.get_logical_prob')(dec, res)
    for log, d in res.items():
        bad = u.total(d.items().map(lambda kv: ite(Str(mt(kv[0].t))[0] != log, kv[1], 0)))
        v.ensure('rate of wrongly decoded shots', seq(out[log] * u.total(d.values()), bad))


@reg.contract(M + ':lookuptable_decoding (any results)', **U)
def any_lookup(v):
    """training and data with any number of strings: the rate is the share of shots
    whose string is more frequent in the training data of the other value"""
    u = Engine.of(v)
    res = {'0': counts(v, 'r0', v.int('n0', 0)), '1': counts(v, 'r1', v.int('n1', 0))}
    tr = {'0': counts(v, 't0', v.int('m0', 0)), '1': counts(v, 't1', v.int('m1', 0))}
    for log in res:
        v.require(u.total(res[log].values()) > 0)
    out = twin(M, 'lookuptable_decoding')(tr, res)
    for log, d in res.items():
        o = '1' if log == '0' else '0'
        bad = u.total(d.items().map(lambda kv: ite(tr[o].get(kv[0], 0) > tr[log].get(kv[0], 0), kv[1], 0)))
        v.ensure('rate of misjudged shots', seq(out[log] * u.total(d.values()), bad))
