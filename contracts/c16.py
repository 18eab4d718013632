"""C16 repetition code circuits encode, extract and report true syndromes"""
from contracts.common import *
from pyvc.core import short

reg = Registry('C16')
reg.assumptions += ['x, cx, measure and reset of terra act on computational basis states as defined',
                    'get_counts keys list the classical registers in reverse order of their addition, highest bit first']
M = IG + 'verification.topological_codes.circuits'
SIZES = [(d, T) for d in (2, 3, 4, 5) for T in (0, 1, 2, 3)]


def tc():
    import qiskit.ignis.verification.topological_codes as m
    return m


def xor(a, b):
    if is_sym(a) or is_sym(b):
        return a ^ b if is_sym(a) else b ^ a
    return bool(a) != bool(b)


def bit_run(v, circ, before):
    """runs a circuit of x, cx, measure, reset on (possibly symbolic) bits;
    before(i, op, qubits, state) may flip bits.  Returns the classical bits"""
    state = {q: False for q in circ.qubits}
    cl = {}
    for i, (op, qs, cs) in enumerate(circ.data):
        before(i, op, qs, state)
        if op.name == 'x':
            state[qs[0]] = xor(state[qs[0]], True)
        elif op.name == 'cx':
            state[qs[1]] = xor(state[qs[1]], state[qs[0]])
        elif op.name == 'measure':
            cl[cs[0]] = state[qs[0]]
        elif op.name == 'reset':
            state[qs[0]] = False
        elif op.name in ('barrier', 'id'):
            pass
        elif op.name == 'swap':
            state[qs[0]], state[qs[1]] = state[qs[1]], state[qs[0]]
        else:
            raise Unsupported('operation ' + op.name) if v.symbolic else Skip('operation ' + op.name)
    return cl


def build(v, d, T, how):
    """a code with T rounds, made at once or step by step"""
    if how == 'at once' and T > 0:
        return tc().RepetitionCode(d, T), 0
    code = tc().RepetitionCode(d) if how == 'steps' else tc().RepetitionCode(d, T=0)
    flips = 0
    for t in range(T):
        if how == 'logical x' and t == T - 1:
            code.x(barrier=True)
            flips += 1
        code.syndrome_measurement(reset=not (how == 'steps' and t == T - 1), barrier=how == 'barriers')
    code.readout()
    return code, flips


def run_code(v, code, d, T, log, tag=''):
    """classical bits with arbitrary flips of code qubits before every round
    and the readout, and arbitrary wrong outcomes of the link measurements.
    Returns (bits, data flips, measurement flips)"""
    circ = code.circuit[log]
    data = [[v.bool('%se%d_%d' % (tag, t, j)) for j in range(d)] for t in range(T + 1)]
    meas = [[v.bool('%sm%d_%d' % (tag, t, j)) for j in range(d - 1)] for t in range(T)]
    cq = {q: j for j, q in enumerate(code.code_qubit)}
    lq = {q: j for j, q in enumerate(code.link_qubit)}
    # a round ends with its last link measurement
    total = [i for i, (op, qs, cs) in enumerate(circ.data) if op.name == 'measure' and qs[0] in lq]
    ends = total[d - 2::d - 1] if d > 1 else []
    # the preparation ends where the first link qubit is used
    first = min([i for i, (op, qs, cs) in enumerate(circ.data) if any(q in lq for q in qs) and op.name not in ('barrier', 'reset')]
                or [i for i, (op, qs, cs) in enumerate(circ.data) if op.name == 'measure'])
    points = [first] + [e + 1 for e in ends]
    done = {q: 0 for q in lq}

    def before(i, op, qs, state):
        if i in points:
            t = points.index(i)
            if t <= T:
                for q, j in cq.items():
                    state[q] = xor(state[q], data[t][j])
        if op.name == 'measure' and qs[0] in lq:
            state[qs[0]] = xor(state[qs[0]], meas[done[qs[0]]][lq[qs[0]]])
            done[qs[0]] += 1

    return bit_run(v, circ, before), data, meas


@reg.contract(M + ':RepetitionCode', mode='S', sizes=[{'d': d, 'T': T} for d, T in SIZES],
              rsizes=[{'d': d, 'T': T} for d, T in SIZES + [(3, 11), (12, 2), (5, 6), (3, 14), (2, 25)]], samples=2)
def extraction(v, d, T):
    """for every pattern of flips each round reports the parities of neighbouring
    code qubits at that time, the readout the code qubits"""
    how = v.choice('how', ['at once', 'steps', 'logical x', 'barriers'])
    code, flips = build(v, d, T, how)
    flips = 1 if how == 'logical x' and T > 0 else 0
    v.ensure('number of rounds', code.T == T and code.d == d)
    v.ensure('both logical values', set(code.circuit) == {'0', '1'} and [c.name for c in code.get_circuit_list()] == ['0', '1']
             and code.get_circuit_list()[0] is code.circuit['0'])
    for log in ('0', '1'):
        circ = code.circuit[log]
        v.ensure('registers', [(c.name, c.size) for c in circ.cregs] == [('round_%d_link_bit' % t, d - 1) for t in range(T)] + [('code_bit', d)],
                 lambda: short(circ.cregs))
        v.ensure('code and link qubits', sorted((r.name, r.size) for r in circ.qregs) == [('code_qubit', d), ('link_qubit', d - 1)])
        mm = [(q[0], c[0]) for op, q, c in circ.data if op.name == 'measure']
        v.ensure('every bit measured once', len(mm) == len(circ.clbits) and set(c for _, c in mm) == set(circ.clbits))
        if how == 'logical x' and T > 0:
            # flips are entered after a round and before the logical operation
            pass
        cl, data, meas = run_code(v, code, d, T, log)
        cur = [xor(log == '1', False)] * d
        for t in range(T + 1):
            if how == 'logical x' and t == T - 1:
                cur = [xor(c, True) for c in cur]
            cur = [xor(c, e) for c, e in zip(cur, data[t])]
            if t < T:
                for j in range(d - 1):
                    want = xor(xor(cur[j], cur[j + 1]), meas[t][j])
                    v.ensure('parity of neighbouring code qubits', not_(xor(cl[circ.cregs[t][j]], want)), lambda: short((d, T, t, j)))
        for j in range(d):
            v.ensure('readout of the code qubits', not_(xor(cl[circ.cregs[T][j]], cur[j])))


def spec_string(code, rounds):
    """processed form of code bits c_0..c_{d-1} and link bits s_t,0..s_t,d-2"""
    d = len(code)
    final = [code[j] ^ code[j + 1] for j in range(d - 1)]
    seqs = [[0] * (d - 1)] + rounds + [final]
    ch = [[a ^ b for a, b in zip(x, y)] for x, y in zip(seqs, seqs[1:])]
    w = lambda bits: ''.join(str(b) for b in reversed(bits))       # highest first
    return '%d %d  ' % (code[d - 1], code[0]) + ' '.join(w(c) for c in ch)


def raw_string(code, rounds):
    w = lambda bits: ''.join(str(b) for b in reversed(bits))
    return ' '.join([w(code)] + [w(r) for r in reversed(rounds)])


def patterns(d, T):
    for bits in itertools.product((0, 1), repeat=d + T * (d - 1)):
        yield list(bits[:d]), [list(bits[d + t * (d - 1):d + (t + 1) * (d - 1)]) for t in range(T)]


PSIZES = [(2, 0), (2, 1), (2, 2), (2, 3), (2, 5), (3, 0), (3, 1), (3, 2), (3, 3), (4, 0), (4, 1), (4, 2), (5, 0), (5, 1), (6, 0)]


@reg.contract(M + ':RepetitionCode.process_results', mode='S', sizes=[{'d': d, 'T': T} for d, T in PSIZES], rsizes=[], samples=0)
def processing(v, d, T):
    """all outcome strings of the size, arbitrary counts"""
    code = tc().RepetitionCode(d, T)
    raw = {'0': {}, '1': {}}
    want = {'0': {}, '1': {}}
    keys = list(patterns(d, T))
    for i, (c, r) in enumerate(keys):
        for log in ('0', '1'):
            n = v.int('n%s_%d' % (log, i), 1)
            raw[log][raw_string(c, r)] = n
            want[log][spec_string(c, r)] = n
    keep = {log: dict(x) for log, x in raw.items()}
    got = code.process_results(raw)
    v.ensure('logical values', set(got) == {'0', '1'})
    for log in got:
        v.ensure('syndrome changes between consecutive rounds', set(got[log]) == set(want[log]), lambda: short(sorted(set(got[log]) ^ set(want[log]))))
        v.ensure('counts kept', v.eq(got[log], want[log]))
    v.ensure('input unchanged', v.eq(raw, keep))


@reg.contract(M + ':RepetitionCode.process_results', mode='B', sizes=[{'d': d, 'T': T} for d, T in ((2, 4), (3, 5), (5, 2), (6, 3), (8, 1), (11, 3), (5, 11))], samples=20)
def processing_large(v, d, T):
    """random outcome strings of larger codes"""
    code = tc().RepetitionCode(d, T)
    r = nprng(v)
    logs = v.choice('logs', [['0'], ['1'], ['0', '1'], ['1', '0']])
    raw, want = {}, {}
    for log in logs:
        raw[log], want[log] = {}, {}
        for _ in range(v.choice('size', [1, 5, 20])):
            b = r.randint(0, 2, d + T * (d - 1)).tolist()
            c, s = b[:d], [b[d + t * (d - 1):d + (t + 1) * (d - 1)] for t in range(T)]
            n = int(r.randint(1, 10 ** int(r.randint(1, 8))))
            raw[log][raw_string(c, s)] = n
            want[log][spec_string(c, s)] = n
    got = code.process_results(raw)
    v.ensure('processed strings and counts', got == want, lambda: short((raw, got, want)))


@reg.contract(M + ':RepetitionCode (simulated)', mode='B', sizes=[{'d': d, 'T': T} for d, T in ((2, 1), (3, 1), (3, 2), (4, 3), (5, 2))], samples=2)
def simulated(v, d, T):
    """circuits with planted x errors on the simulator"""
    from qiskit import QuantumCircuit, execute, Aer
    code = tc().RepetitionCode(d, T)
    raw = {}
    want = {}
    for log in ('0', '1'):
        e = [v.bit('e%s_%d' % (log, j)) for j in range(d)]
        prep = tc().RepetitionCode(d, 0)
        circ = prep.circuit[log].copy()
        for j in range(d):
            if e[j]:
                circ.x(prep.code_qubit[j])
        # rounds of the genuine circuit after the preparation
        base = code.circuit[log]
        full = QuantumCircuit(*base.qregs, *base.cregs, name=log)
        npre = len(prep.circuit[log].data)
        for op, q, c in circ.data:
            full.append(op, [base.qubits[circ.qubits.index(x)] for x in q], [])
        for op, q, c in base.data[npre:]:
            full.append(op, q, c)
        raw[log] = execute(full, Aer.get_backend('qasm_simulator'), shots=20, seed_simulator=3, optimization_level=0).result().get_counts(full)
        val = [int(log) ^ x for x in e]
        syn = [val[j] ^ val[j + 1] for j in range(d - 1)]
        want[log] = {spec_string(val, [syn] * T): 20}
    got = code.process_results(raw)
    v.ensure('syndromes of the planted errors', got == want, lambda: short((raw, got, want)))


# ------------------------------------------------------------- any number of code qubits
from contracts import ulib as UL
from pyvc import trace as TR


class RoundReg(TR.CReg):
    """classical register; the round in its name may be arbitrary"""

    def __init__(self, size=None, name=None):
        TR.CReg.__init__(self, size, name)
        self.full = name
        if not isinstance(name, str):
            self.name = 'this_round'


class Rounds:
    """the registers of the rounds so far, any number"""

    def __init__(self, n):
        self.n, self.new = n, []

    def append(self, r):
        self.new.append(r)

    def __getitem__(self, k):
        if isinstance(k, UL.Sym):
            u = UL.Engine.of(UL.core.cur())
            for i, r in enumerate(self.new):
                if TR.proves(u, k.t == self.n.t + i, []):
                    return r
            raise UL.Unsupported('an earlier round')
        if not self.new:
            raise UL.Unsupported('an earlier round')
        return self.new[k]


class Code:
    """self of RepetitionCode with any number of code qubits"""

    def method(self, name):
        t = UL.twin(M, 'RepetitionCode.' + name, CEXTRA)
        return lambda *a, **k: t(self, *a, **k)

    def __getattr__(self, k):
        if k in ('x', 'syndrome_measurement', 'readout', '_preparation', 'get_circuit_list'):
            return self.method(k)
        from qiskit.ignis.verification.topological_codes import RepetitionCode
        if k.startswith('_') and not k.startswith('__') and hasattr(RepetitionCode, k):
            return self.method(k)            # a helper of the class
        raise AttributeError(k)


CEXTRA = {'QuantumCircuit': TR.Circ, 'QuantumRegister': TR.QReg, 'ClassicalRegister': RoundReg}


def no_barriers(items):
    return [x for x in items if not (isinstance(x, TR.Op) and x.name == 'barrier')]


def on(v, u, circ, reg, j, facts):
    return no_barriers(TR.project(u, circ.plain, (reg, j), facts))


def link_word(u, got, j, rounds, facts):
    """is this the word of link qubit j: both neighbours, measured, reset between rounds"""
    want = []
    k = 0
    for name, reset in rounds:
        a = TR.op('cx', [('code_qubit', UL.Sym(j)), ('link_qubit', UL.Sym(j))])
        b = TR.op('cx', [('code_qubit', UL.Sym(j + 1)), ('link_qubit', UL.Sym(j))])
        if len(got) > k and isinstance(got[k], TR.Op) and got[k].name == 'cx' and TR.proves(u, got[k].qubits[0][1] == j + 1, facts):
            a, b = b, a            # the order of the two does not matter
        want += [a, b, TR.op('measure', [('link_qubit', UL.Sym(j))], (), [(name, UL.Sym(j))])]
        want += [TR.op('reset', [('link_qubit', UL.Sym(j))])] if reset else []
        k = len(want)
    return TR.same(u, got, want, facts)


def code_words(v, u, circ, d, rounds, before, after, label):
    """code qubits are only controls of the parity gates between the given words"""
    j = UL.z3.Int('j')
    for what, facts in (('first', [j == 0, d.t > 1]), ('inner', [j > 0, j < d.t - 1]), ('last', [j == d.t - 1, d.t > 1])):
        got = on(v, u, circ, 'code_qubit', j, facts)
        ok = len(got) >= len(before) + len(after)
        mid = got[len(before):len(got) - len(after)]
        ok = ok and all(isinstance(x, TR.Op) and x.name == 'cx' and x.qubits[0][0] == 'code_qubit' and x.qubits[1][0] == 'link_qubit' for x in mid)
        if not ok:
            raise UL.Unsupported('word of a code qubit: %r' % (got,))
        v.ensure('number of parity gates of a code qubit', len(mid) == rounds * (2 if what == 'inner' else 1), lambda: repr(got))
        q = UL.Sym(j)
        e = [TR.op(n, [('code_qubit', TR.ALL if b else q)], (), [('code_bit', TR.ALL)] if n == 'measure' else ()) for n, b in before + after]
        d_ = TR.same(u, got[:len(before)] + got[len(got) - len(after):], e, facts)
        v.ensure(label, d_ == '', lambda: d_)


@reg.contract(M + ':RepetitionCode (any number of code qubits)', sizes=[{'T': T} for T in (0, 1, 2, 3)] + [{'T': 5, '_t': 1}], **UL.U)
def any_distance(v, T):
    """any number of code qubits: each round both neighbours of every link qubit are added to it, it is measured
    into its bit of the round and reset between rounds; code qubits are prepared in the logical value, never
    written by the rounds and all read out"""
    u = UL.Engine.of(v)
    d = v.int('d', 2)
    c = Code()
    UL.twin(M, 'RepetitionCode.__init__', CEXTRA)(c, d, T)
    v.ensure('rounds', UL.seq(c.T, T))
    j = UL.z3.Int('j')
    facts = [j >= 0, j < d.t - 1]
    for log in ('0', '1'):
        circ = c.circuit[log]
        got = on(v, u, circ, 'link_qubit', j, facts)
        diff = link_word(u, got, j, [('round_%d_link_bit' % t, t < T - 1) for t in range(T)], facts)
        v.ensure('word of every link qubit', diff == '', lambda: diff)
        code_words(v, u, circ, d, T, [('x', False)] if log == '1' else [], [('measure', True)] if T else [], 'preparation and readout of every code qubit')


@reg.contract(M + ':RepetitionCode.syndrome_measurement; x (any round, any number of code qubits)',
              sizes=[{'reset': r, 'barrier': b} for r in (False, True) for b in (False, True)], **UL.U)
def any_round(v, reset, barrier):
    """a round after any number of others, and a logical x"""
    u = UL.Engine.of(v)
    d, T = v.int('d', 2), v.int('T', 0)
    c = Code()
    c.d, c.T = d, T
    c.code_qubit, c.link_qubit = TR.QReg(d, 'code_qubit'), TR.QReg(d - 1, 'link_qubit')
    c.link_bits = Rounds(T)
    c.circuit = {log: TR.Circ(c.link_qubit, c.code_qubit, name=log) for log in ('0', '1')}
    c.syndrome_measurement(reset=reset, barrier=barrier)
    v.ensure('one round more', UL.seq(c.T, T + 1))
    v.ensure('one register more', len(c.link_bits.new) == 1 and c.link_bits.new[0].full.same(u, 'round_', T, '_link_bit'))
    j = UL.z3.Int('j')
    facts = [j >= 0, j < d.t - 1]
    c.x(barrier=barrier)
    for log in ('0', '1'):
        circ = c.circuit[log]
        v.ensure('register added', circ.regs[-1] is c.link_bits.new[0])
        diff = link_word(u, on(v, u, circ, 'link_qubit', j, facts), j, [('this_round', reset)], facts)
        v.ensure('word of every link qubit', diff == '', lambda: diff)
        code_words(v, u, circ, d, 1, [], [('x', False)], 'logical x on every code qubit')
