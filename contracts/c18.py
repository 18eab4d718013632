"""C18 accreditation circuits are one-time-pad encryptions of target and traps"""
from contracts.common import *
from pyvc.core import short

reg = Registry('C18')
reg.assumptions += ['transpile to u1, u2, u3 (and cx) keeps the unitary (stand-in: identity, in the proofs)',
                    'QuantumCircuit addition concatenates, circuit_to_dag layers keep the order of gates on each qubit',
                    'conjugation of Pauli operators by cx and cz as usual']
A = IG + 'verification.accreditation.'
Q = A + 'qotp'
CI = A + 'circuits'


def acc():
    import qiskit.ignis.verification.accreditation as m
    return m


def opaque(i):
    """a single-qubit gate about which nothing is assumed"""
    from qiskit.circuit import Gate
    g = Gate('u3', 1, [])
    g.ident = i
    return g


def frame_run(v, circ, postp, tag=''):
    """tracks the Pauli operators of the pad through the circuit.  Returns the
    gates on every qubit and the flips of the clbits; every opaque gate must see
    a clean frame"""
    qi = {q: i for i, q in enumerate(circ.qubits)}
    ci = {c: i for i, c in enumerate(circ.clbits)}
    fx, fz = [0] * len(qi), [0] * len(qi)
    seqs = [[] for _ in qi]
    flips = {}
    for op, qs, cs in circ.data:
        q = [qi[x] for x in qs]
        n = op.name
        if n == 'barrier':
            continue
        if n not in ('x', 'y', 'z'):
            for x in q:
                if not seqs[x]:
                    fz[x] = 0           # Z on a qubit still in a basis state: a phase
        if n == 'x':
            fx[q[0]] ^= 1
        elif n == 'z':
            fz[q[0]] ^= 1
        elif n == 'y':
            fx[q[0]] ^= 1
            fz[q[0]] ^= 1
        elif hasattr(op, 'ident'):
            v.ensure('the pad is removed before every gate', fx[q[0]] == 0 and fz[q[0]] == 0, lambda: short((op.ident, fx, fz)))
            seqs[q[0]].append(op.ident)
        elif n == 'cx':
            fx[q[1]] ^= fx[q[0]]
            fz[q[0]] ^= fz[q[1]]
            seqs[q[0]].append(('cx', 0, q[1]))
            seqs[q[1]].append(('cx', 1, q[0]))
        elif n == 'cz':
            fz[q[0]] ^= fx[q[1]]
            fz[q[1]] ^= fx[q[0]]
            seqs[q[0]].append(('cz', q[1]))
            seqs[q[1]].append(('cz', q[0]))
        elif n == 'measure':
            flips[ci[cs[0]]] = fx[q[0]]
            seqs[q[0]].append(('measure', ci[cs[0]]))
        else:
            raise Unsupported('gate ' + n)
    return seqs, flips


class BitRng:
    """random source returning arbitrary bits"""

    def __init__(self, v, fixed=()):
        self.v = v
        self.k = 0
        self.fixed = dict(fixed)

    def bit(self):
        self.k += 1
        if self.k in self.fixed:
            return self.fixed[self.k]
        return self.v.choice('bit%d' % self.k, [0, 1])

    def randint(self, lo, hi=None, size=None):
        if hi is None:
            lo, hi = 0, lo
        if (lo, hi) != (0, 2):
            raise Unsupported('randint(%s, %s)' % (lo, hi))
        if size is None:
            return self.bit()
        return np.array([self.bit() for _ in range(size)])


LAYERS = [
    dict(n=1, L=[]),
    dict(n=2, L=[]),
    dict(n=2, L=[[(0, 1)]]),
    dict(n=2, L=[[(1, 0)]]),
    dict(n=2, L=[[(0, 1)]], meas=[(0, 1), (1, 0)], gate='cz'),
    dict(n=2, L=[[(1, 0)]], meas=[(1, 0)], gate='cz', m=1),
    dict(n=3, L=[], meas=[(2, 0), (0, 1)], m=3),
]


@reg.contract(Q + ':QOTP_fromlayers', mode='S', sizes=[{'case': i} for i in range(len(LAYERS))], rsizes=[], samples=0, mods=[], budget=200,
              extra=None, needs=[Q + '.QOTP_fromlayers', Q + '.transpile'])
def pad(v, case):
    """for arbitrary single-qubit gates and every choice of the pad: the pad is
    undone before every gate and flips exactly the returned outcome bits"""
    from qiskit import QuantumCircuit, QuantumRegister, ClassicalRegister
    import qiskit.ignis.verification.accreditation.qotp as m
    c = LAYERS[case]
    n, L = c['n'], c['L']
    gate = c.get('gate', 'cx')
    qr, cr = QuantumRegister(n, 'q'), ClassicalRegister(c.get('m', n), 'c')
    singles, twos = [], []
    k = 0
    for i in range(len(L) + 1):
        sc = QuantumCircuit(qr, cr)
        for q in range(n):
            sc.append(opaque(k), [qr[q]])
            k += 1
        singles.append(sc)
    for lay in L:
        tw = QuantumCircuit(qr, cr)
        for a, b in lay:
            getattr(tw, gate)(qr[a], qr[b])
        twos.append(tw)
    meas = QuantumCircuit(qr, cr)
    for q, b in c.get('meas', [(q, q) for q in range(n)]):
        meas.measure(qr[q], cr[b])
    layers = dict(singlequbitlayers=singles, twoqubitlayers=twos, measlayer=meas, twoqubitgate=gate, qregs=qr, cregs=cr)
    full = QuantumCircuit(qr, cr)
    for i in range(len(L)):
        full = full + singles[i] + twos[i]
    full = full + singles[-1] + meas
    want, _ = frame_run(v, full, None)
    old = m.transpile
    if not v.symbolic:
        m.transpile = lambda c, *a, **kw: c
    try:
        circ, postp = m.QOTP_fromlayers(layers, BitRng(v))
    finally:
        m.transpile = old
    got, flips = frame_run(v, circ, postp)
    v.ensure('same gates and measurements', got == want, lambda: short((got, want)))
    v.ensure('one bit per outcome', len(postp) == cr.size)
    for b, f in flips.items():
        v.ensure('returned bits are the flips of the outcome', int(postp[cr.size - 1 - b]) == f, lambda: short((flips, postp)))


# transpile is replaced by the identity in the proofs
for h in reg.harnesses:
    h.mods = [Q]
    h.extra = {'transpile': lambda c, *a, **k: c}


def parse_spec(ops, n, gate):
    """gates on every qubit of the original circuit"""
    seqs = [[] for _ in range(n)]
    for i, op in enumerate(ops):
        if len(op) == 1:
            seqs[op[0]].append(('u', i))
        else:
            a, b = op
            if gate == 'cz':
                seqs[b].append('h')
                seqs[a].append(('cz', b))
                seqs[b].append(('cz', a))
                seqs[b].append('h')
            else:
                seqs[a].append(('cx', 0, b))
                seqs[b].append(('cx', 1, a))
    return seqs


@reg.contract(Q + ':layer_parser', mode='S', sizes=[{'n': n, 'k': k, 'gate': g} for n, k, g in ((1, 3, 'cx'), (2, 4, 'cx'), (3, 3, 'cx'), (2, 4, 'cz'), (3, 2, 'cz'))],
              rsizes=[{'n': 4, 'k': 12, 'gate': 'cx'}, {'n': 5, 'k': 20, 'gate': 'cz'}, {'n': 3, 'k': 9, 'gate': 'cx'},
                      {'n': 11, 'k': 50, 'gate': 'cz'}, {'n': 16, 'k': 80, 'gate': 'cx'}], samples=10, mods=[Q], extra={'transpile': lambda c, *a, **k: c}, budget=200, needs=[Q + '.layer_parser', Q + '.transpile'])
def layering(v, n, k, gate):
    """all gate sequences of the size (opaque single-qubit gates): the layers in
    order contain the same gates in the same order on every qubit; two-qubit
    gates of one layer act on different qubits"""
    from qiskit import QuantumCircuit, QuantumRegister, ClassicalRegister
    import qiskit.ignis.verification.accreditation.qotp as m
    pool = [(q,) for q in range(n)] + [(a, b) for a in range(n) for b in range(n) if a != b]
    ops = [v.choice('op%d' % i, pool) for i in range(k)]
    qr, cr = QuantumRegister(n, 'q'), ClassicalRegister(n, 'c')
    circ = QuantumCircuit(qr, cr)
    for i, op in enumerate(ops):
        if len(op) == 1:
            g = opaque(i)
            circ.append(g, [qr[op[0]]])
        else:
            circ.cx(qr[op[0]], qr[op[1]])
    circ.measure(qr, cr)
    old = m.transpile
    if not v.symbolic:
        m.transpile = lambda c, *a, **kw: c
    try:
        lay = m.layer_parser(circ, two_qubit_gate=gate)
    finally:
        m.transpile = old
    S, T = lay['singlequbitlayers'], lay['twoqubitlayers']
    v.ensure('one more single-qubit layer', len(S) == len(T) + 1)
    got = [[] for _ in range(n)]

    def add(c, names, single):
        used = []
        for op, qs, cs in c.data:
            q = [x.index for x in qs]
            if op.name == 'barrier':
                continue
            v.ensure('layers hold their kind of gate', (len(q) == 1) == single)
            if single:
                got[q[0]].append(('u', op.ident) if hasattr(op, 'ident') else op.name)
            else:
                v.ensure('gates of a layer act on different qubits', not set(q) & set(used))
                used.extend(q)
                if op.name == 'cx':
                    got[q[0]].append(('cx', 0, q[1]))
                    got[q[1]].append(('cx', 1, q[0]))
                else:
                    got[q[0]].append((op.name, q[1]))
                    got[q[1]].append((op.name, q[0]))

    for i, s in enumerate(S):
        add(s, None, True)
        if i < len(T):
            add(T[i], None, False)
    want = parse_spec(ops, n, gate)
    if gate == 'cz':                    # h h between two cz may cancel either way
        norm = lambda s: cancel(s)
        got, want = [norm(x) for x in got], [norm(x) for x in want]
    v.ensure('same gates in the same order on every qubit', got == want, lambda: short((ops, got, want)))
    v.ensure('measurements', sorted((q[0].index, c[0].index) for op, q, c in lay['measlayer'].data) == [(i, i) for i in range(n)])
    v.ensure('two-qubit gate and registers', lay['twoqubitgate'] == gate and lay['qregs'].size == n and lay['cregs'].size == n)


def cancel(s):
    out = []
    for x in s:
        if x == 'h' and out and out[-1] == 'h':
            out.pop()
        else:
            out.append(x)
    return out


class ForkRng(BitRng):
    """trap choices and the target position arbitrary; pads pseudo-random"""
    def __init__(self, v):
        BitRng.__init__(self, v)
        self.r = np.random.RandomState(5)

    def randint(self, lo, hi=None, size=None):
        if hi is None:
            lo, hi = 0, lo
        if size is not None:
            return self.r.randint(lo, hi, size)
        self.k += 1
        return self.v.choice('r%d' % self.k, list(range(lo, hi)))


class RandomModule:
    def __init__(self, rng):
        self.rng = rng

    def RandomState(self, seed=None):
        return self.rng

    def default_rng(self, seed=None):
        raise Unsupported('default_rng')


TARGETS = [
    (1, []), (2, [('u', 0), ('cx', 0, 1)]), (2, [('cx', 1, 0), ('u', 0), ('cx', 0, 1)]),
    (3, [('u', 1), ('cx', 0, 1), ('u', 2), ('cx', 1, 2)]), (3, [('cx', 2, 0)]),
]


def target_circuit(n, ops, meas=None, m=None):
    from qiskit import QuantumCircuit
    c = QuantumCircuit(n, m or n)
    for i, o in enumerate(ops):
        if o[0] == 'u':
            c.u3(0.7 + 0.3 * i, 0.2 - i, 1.1 * i, o[1])
        elif o[0] == 'b':
            c.barrier()
        else:
            getattr(c, o[0])(*o[1:])
    for q, b in (meas or [(i, i) for i in range(n)]):
        c.measure(q, b)
    return c


def unpad(dist, postp):
    out = {}
    for k, p in dist.items():
        kk = ''.join(str((int(a) + int(b)) % 2) for a, b in zip(k, postp))
        out[kk] = out.get(kk, 0) + p
    return out


def same_dist(a, b, tol=1e-7):
    return all(abs(a.get(k, 0) - b.get(k, 0)) < tol for k in set(a) | set(b))


def shape(circ):
    """two-qubit gates between barriers, and measurements"""
    qi = {q: i for i, q in enumerate(circ.qubits)}
    return [(op.name, tuple(qi[x] for x in qs)) for op, qs, cs in circ.data if len(qs) == 2 and op.name != 'barrier'], measure_map(circ)


@reg.contract(CI + ':AccreditationCircuits.generate_circuits; _routine_two', mode='S', sizes=[{'t': t, 'gate': g} for t in range(len(TARGETS)) for g in ('cx', 'cz')], rsizes=[], samples=0,
              mods=[Q, CI], extra={'transpile': lambda c, *a, **k: c}, budget=200)
def traps(v, t, gate):
    """every choice of the trap gates and of the position of the target: traps
    return zeros, the target its own distribution"""
    n, ops = TARGETS[t]
    circ = target_circuit(n, ops)
    v.standin('random', RandomModule(ForkRng(v)))
    a = acc().AccreditationCircuits(circ, two_qubit_gate=gate, seed=1)
    cl, pl, v0 = a.generate_circuits(1)
    v.ensure('numbers', len(cl) == len(pl) == 2 and 0 <= v0 <= 1)
    v.ensure('identical shape', shape(cl[0]) == shape(cl[1]))
    for k in range(2):
        d = unpad(distribution(cl[k]), pl[k])
        if k == v0:
            v.ensure('target output', same_dist(d, distribution(circ)), lambda: short(d))
        else:
            v.ensure('traps return zeros', same_dist(d, {'0' * n: 1}), lambda: short(d))


# ------------------------------------------------------------------ run-time
def random_target(v, n, allow_barrier=True):
    r = nprng(v)
    ops = []
    for _ in range(v.choice('len', [0, 3, 8, 15] if n < 5 else [12, 30])):
        x = r.rand()
        if n > 1 and x < 0.45:
            a, b = r.choice(n, 2, replace=False)
            ops.append((['cx', 'cz', 'swap'][r.randint(3)], int(a), int(b)))
        elif x < 0.55 and allow_barrier:
            ops.append(('b',))
        else:
            ops.append([('u', int(r.randint(n))), ('h', int(r.randint(n))), ('t', int(r.randint(n)))][r.randint(3)])
    perm = [int(x) for x in r.permutation(n)]
    how = v.choice('meas', ['all', 'permuted', 'some'])
    if how == 'all':
        return ops, None, n
    if how == 'permuted':
        return ops, [(q, b) for q, b in enumerate(perm)], n
    k = 1 + int(r.randint(n))
    m = k + int(r.randint(2))
    bits = [int(x) for x in r.permutation(m)]
    return ops, [(perm[i], bits[i]) for i in range(k)], m


CMAP = {n: [[i, i + 1] for i in range(n - 1)] for n in range(2, 12)}


@reg.contract(CI + ':AccreditationCircuits', mode='B', sizes=[{'n': n, 'gate': g} for n in (1, 2, 3, 4) for g in ('cx', 'cz')] + [{'n': 7, 'gate': 'cx'}, {'n': 8, 'gate': 'cz'}], samples=5)
def accreditation(v, n, gate):
    """random targets: pads removed, target and traps give what they should"""
    ops, meas, m = random_target(v, n)
    circ = target_circuit(n, ops, meas, m)
    before = list(circ.data)
    kw = {}
    if n > 1 and v.choice('cmap', [False, True]):
        cm = CMAP[n]
        kw['coupling_map'] = [list(x) for x in cm] + [[b, a] for a, b in cm]
    seed = 0 if v.choice('zero', [False, False, True]) else v.int('seed', 0, 10 ** 6)
    nt = v.choice('traps', [1, 3, 5, 9] if n < 3 else [1, 3, 5] if n < 5 else [3])
    a = acc().AccreditationCircuits(circ, two_qubit_gate=gate, seed=seed, **kw)
    seen = set()
    for rep in range(2):
        cl, pl, v0 = a.generate_circuits(nt)
        seen.add(v0)
        v.ensure('numbers', len(cl) == len(pl) == nt + 1 and 0 <= v0 <= nt)
        want = distribution(circ)
        for k in range(nt + 1):
            v.ensure('one pad bit per outcome bit', len(pl[k]) == len(cl[k].clbits) == m)
            d = unpad(distribution(cl[k]), pl[k])
            if k == v0:
                v.ensure('target output', same_dist(d, want), lambda: short((ops, meas, d, want)))
            else:
                v.ensure('traps return zeros', same_dist(d, {'0' * m: 1}), lambda: short((ops, meas, d)))
            v.ensure('identical shape', shape(cl[k]) == shape(cl[v0]))
            v.ensure('stated two-qubit gate', all(x[0] == gate for x in shape(cl[k])[0]))
    v.ensure('target not modified', list(circ.data) == before)
    b = acc().AccreditationCircuits(circ, two_qubit_gate=gate, seed=seed, **kw)
    if not kw:
        cl1, pl1, v1 = b.generate_circuits(nt)
        b2 = acc().AccreditationCircuits(circ, two_qubit_gate=gate, seed=seed)
        cl2, pl2, v2 = b2.generate_circuits(nt)
        v.ensure('reproducible from the seed', v1 == v2 and all(np.array_equal(x, y) for x, y in zip(pl1, pl2)))


@reg.contract(Q + ':QOTP; QOTPCorrectCounts', mode='B', sizes=[{'n': n, 'gate': g} for n in (1, 2, 3, 4) for g in ('cx', 'cz')] + [{'n': 7, 'gate': 'cz'}, {'n': 8, 'gate': 'cx'}], samples=5)
def qotp(v, n, gate):
    """each randomised circuit has the distribution of the original after its
    pad is removed"""
    ops, meas, m = random_target(v, n)
    circ = target_circuit(n, ops, meas, m)
    num = v.choice('num', [1, 4])
    seed = 0 if v.choice('zero', [False, False, True]) else v.int('seed', 0, 10 ** 6)
    cs, ps = acc().QOTP(circ, num, two_qubit_gate=gate, seed=seed)
    v.ensure('numbers', len(cs) == len(ps) == num)
    if n <= 4:
        again = acc().QOTP(circ, num, two_qubit_gate=gate, seed=seed)
        v.ensure('reproducible from the seed', all(np.array_equal(x, y) for x, y in zip(ps, again[1]))
                 and all(same_dist(distribution(x), distribution(y)) for x, y in zip(cs, again[0])))
    want = distribution(circ)
    for c, p in zip(cs, ps):
        got = acc().QOTPCorrectCounts(distribution(c), p)
        v.ensure('same distribution', same_dist(got, want), lambda: short((ops, meas, got, want)))


_H = np.array([[1, 1], [1, -1]]) / np.sqrt(2)
_S = np.diag([1, 1j])
_CLS = {'I': np.eye(2), 'H': _H, 'S': _S, 'SH': _S @ _H, 'HS': _H @ _S, 'HSH': _H @ _S @ _H}
_PAULI = [np.eye(2), np.array([[0, 1], [1, 0]]), np.array([[0, -1j], [1j, 0]]), np.diag([1, -1])]


def first_class(c, q):
    """the gates of a qubit before its first two-qubit gate, as a Clifford up to
    Pauli gates (name of its class)"""
    m = np.eye(2)
    for op, qs, _ in c.data:
        if c.qubits[q] not in qs or op.name == 'barrier':
            continue
        if len(qs) > 1 or op.name == 'measure':
            break
        m = op.to_matrix() @ m
    for k, w in _CLS.items():
        if any(abs(abs(np.trace((p @ w).conj().T @ m)) - 2) < 1e-6 for p in _PAULI):
            return k
    return 'other'


@reg.contract(CI + ':AccreditationCircuits (random choices)', mode='B', sizes=[{'gate': g} for g in ('cx', 'cz')], samples=1)
def randomness(v, gate):
    """pads, positions and traps vary; every outcome bit is padded"""
    circ = target_circuit(3, [('h', 0), ('cx', 0, 1), ('u', 2), ('cx', 1, 2)])
    a = acc().AccreditationCircuits(circ, two_qubit_gate=gate, seed=v.int('seed', 0, 10 ** 6))
    pos, bits = set(), np.zeros(3)
    tot = 0
    first = [set(), set(), set()]
    for _ in range(25):
        cl, pl, v0 = a.generate_circuits(3)
        pos.add(int(v0))
        for i, c in enumerate(cl):
            if i != v0:
                for q in range(3):
                    first[q].add(first_class(c, q))
        for p in pl:
            bits += np.array(p)
            tot += 1
    # control: S or H; target: SH-like or nothing (cx), S or H (cz); each after
    # nothing (Z basis) or H (X basis)
    hs = {'H', 'I', 'S', 'SH'}
    want = [hs, {'HS', 'I', 'HSH', 'H'}] if gate == 'cx' else [hs, hs]
    v.ensure('both choices for each gate and both bases occur in traps', first[0] == want[0] and first[1] == want[1] and first[2] == want[1], lambda: short(first))
    v.ensure('target at every position', pos == {0, 1, 2, 3}, lambda: short(pos))
    v.ensure('pad bits are random', all(0.25 < b / tot < 0.75 for b in bits), lambda: short(bits / tot))


@reg.contract(Q + ':QOTPCorrectCounts', mode='S', sizes=[{'m': m} for m in (1, 2, 3)], rsizes=[{'m': 5}, {'m': 10}], samples=20)
def correct_counts(v, m):
    """outcome bits are flipped where the pad is one; counts kept"""
    p = [v.choice('p%d' % i, [0, 1]) for i in range(m)]
    c = {b: v.int('c_' + b, 1) for b in bitstrings(m)}
    keep = dict(c)
    got = acc().QOTPCorrectCounts(c, np.array(p) if v.choice('form', [True, False]) else p)
    want = {}
    for b in bitstrings(m):
        want[''.join('1' if (x == '1') != (y == 1) else '0' for x, y in zip(b, p))] = keep[b]
    v.ensure('flipped where the pad is one', v.eq(got, want), lambda: short((p, got)))
    v.ensure('input unchanged', v.eq(c, keep))


@reg.contract(Q + ':layer_parser (rejection)', mode='B', samples=2)
def reject(v):
    from qiskit import QiskitError
    c = target_circuit(2, [('cx', 0, 1)])
    v.ensure_raises('other two-qubit gates', QiskitError, acc().AccreditationCircuits, c, two_qubit_gate='iswap')
    v.ensure_raises('other two-qubit gates', QiskitError, acc().QOTP, c, 2, two_qubit_gate='swap')
    from qiskit import QuantumCircuit
    c = QuantumCircuit(2, 2)
    c.h(0)
    c.cx(0, 1)
    c.reset(0)
    c.measure([0, 1], [0, 1])
    v.ensure_raises('elements that cannot be padded', QiskitError, acc().AccreditationCircuits, c)
