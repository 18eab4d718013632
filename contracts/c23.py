"""C23 entanglement circuits make GHZ states, the analysis reads them"""
from contracts.common import *
from pyvc.core import short, SymC

reg = Registry('C23')
reg.assumptions += ['QuantumCircuit appends the operations it is given in order, + and += append circuits, inverse() reverses and inverts (recorded in the proofs)',
                    'transpile keeps the effect of a circuit and the given initial layout (run-time evaluation)',
                    'numpy.fft.fft: the discrete Fourier transform (stand-in in the proofs)']
EN = IG + 'verification.entanglement.'
L, PA, A = EN + 'linear', EN + 'parallelize', EN + 'analysis'


# --------------------------------------------------------- recorded circuits
class Circ(RecCircuit):
    """recorded circuit with sequential composition; operations as
    (name, params, register positions)"""

    def __init__(self, *regs, name=None, **kw):
        self.regs = list(regs)
        self.name = name
        self.ops = []

    def _bits(self, x):
        if isinstance(x, RecBit):
            return [x.index]
        return [b.index for b in x]

    def _put(self, name, params, bits):
        for b in self._bits(bits):
            self.ops.append((name, params, (b,)))

    def x(self, q): self._put('x', (), q)
    def h(self, q): self._put('h', (), q)
    def z(self, q): self._put('z', (), q)
    def u1(self, a, q): self._put('u1', (a,), q)
    def p(self, a, q): self._put('u1', (a,), q)
    def u2(self, a, b, q): self._put('u2', (a, b), q)

    def cx(self, a, b):
        for i, j in zip(self._bits(a), self._bits(b)):
            self.ops.append(('cx', (), (i, j)))
    cnot = cx

    def barrier(self, *a):
        pass

    def measure(self, q, c):
        q, c = self._bits(q), self._bits(c)
        if len(q) != len(c):
            raise Unsupported('measure of registers of different size')
        for i, j in zip(q, c):
            self.ops.append(('measure', (), (i, j)))

    def append(self, gate, qargs=None, cargs=None):
        name, params = gate[0], gate[1:]
        for b in qargs:
            self._put(name, params, b)

    def inverse(self):
        c = Circ(*self.regs)
        for name, params, bits in reversed(self.ops):
            if name == 'u1':
                params = (-params[0],)
            elif name not in ('x', 'h', 'cx', 'z'):
                raise Unsupported('inverse of ' + name)
            c.ops.append((name, params, bits))
        return c

    def copy(self, *a):
        c = Circ(*self.regs)
        c.ops = list(self.ops)
        return c

    def _join(self, o):
        names = {(type(r), r.name) for r in self.regs}
        self.regs += [r for r in o.regs if (type(r), r.name) not in names]
        self.ops += o.ops
        return self

    def __add__(self, o): return self.copy()._join(o)
    combine = __add__
    def __iadd__(self, o): return self._join(o)
    extend = __iadd__

    def compose(self, o, qubits=None, *a, inplace=False, **k):
        if qubits is not None:
            raise Unsupported('compose with qubits')
        if inplace:
            self._join(o)
            return None
        return self + o


SYM = {'QuantumCircuit': Circ, 'QuantumRegister': RecQReg, 'ClassicalRegister': RecCReg, 'U1Gate': lambda a: ('u1', a), 'PhaseGate': lambda a: ('u1', a),
       'U2Gate': lambda a, b: ('u2', a, b), 'Parameter': lambda name: Par(name)}


class Par:
    def __init__(self, name):
        self.name = name


class Amp(dict):
    """Laurent polynomial in exp(i delta): {power: complex}"""

    def times(self, k, c):
        return Amp({p + k: x * c for p, x in self.items() if abs(x * c) > 1e-14})

    def plus(self, o):
        r = Amp(self)
        for p, x in o.items():
            r[p] = r.get(p, 0) + x
            if abs(r[p]) < 1e-12:
                del r[p]
        return r


def power(a, delta):
    """k with a = k*delta on this path"""
    if isinstance(a, tuple):
        return a[1]
    for k in (1, -1, 0, 2, -2):
        if bool(seq(a, k * delta)):
            return k
    raise Unsupported('angle')


def simulate(circ, n, delta):
    """final state before measurement, as {basis index: Amp}, and measured pairs"""
    psi = {0: Amp({0: 1.0})}
    meas = []
    r2 = math.sqrt(0.5)
    for name, params, bits in circ.ops:
        if name == 'measure':
            meas.append(bits)
            continue
        if {b[0] for b in meas} & set(bits):
            raise core.ContractViolation('measurements are final', 'gate after measurement')
        new = {}

        def add(i, a):
            new[i] = new.get(i, Amp()).plus(a)
        for i, a in psi.items():
            b = bits[-1]
            one = i >> b & 1
            if name == 'cx':
                add(i ^ (1 << b) if i >> bits[0] & 1 else i, a)
            elif name == 'x':
                add(i ^ (1 << b), a)
            elif name == 'z':
                add(i, a.times(0, -1 if one else 1))
            elif name == 'h':
                add(i, a.times(0, -r2 if one else r2))
                add(i ^ (1 << b), a.times(0, r2))
            elif name == 'u1':
                add(i, a.times(power(params[0], delta) if one else 0, 1))
            elif name == 'u2':
                f, l = power(params[0], delta), power(params[1], delta)
                zero, on = i & ~(1 << b), i | (1 << b)
                add(zero, a.times(l if one else 0, -r2 if one else r2))
                add(on, a.times(f + l if one else f, r2))
            else:
                raise Unsupported('gate ' + name)
        psi = {i: a for i, a in new.items() if a}
    return psi, meas


def same_state(psi, want):
    """equality of states given as {index: Amp} up to a phase exp(i(k delta + c))"""
    if set(psi) != set(want):
        return False
    i0 = min(want)
    p0, q0 = psi[i0], want[i0]
    if not p0 or len(p0) != len(q0):
        return False
    k = min(p0) - min(q0)
    c = p0[min(p0)] / q0[min(q0)]
    for i, w in want.items():
        w = w.times(k, c)
        if set(w) != set(psi[i]) or any(abs(w[p] - psi[i][p]) > 1e-9 for p in w):
            return False
    return True


GHZ = lambda n: {0: Amp({0: math.sqrt(.5)}), 2 ** n - 1: Amp({0: math.sqrt(.5)})}


def mqc_state(n):
    """GHZ, exp(i delta) on every |1>, flip, inverse of the preparation: qubit 0 carries
    the phase difference n delta, all others are zero"""
    return {0: Amp({n: .5, 0: .5}), 1: Amp({n: .5, 0: -.5})}


def po_state(n):
    """U2(delta, -delta) on every qubit of the GHZ state"""
    out = {}
    for i in range(2 ** n):
        w = bin(i).count('1')
        # <i|U..U|0..0> = e^{i w delta}/2^{n/2};  |1..1>: (-e^{-i delta})^(n-w)
        out[i] = Amp({w: math.sqrt(.5) * 2 ** (-n / 2)}).plus(Amp({w - n: (-1) ** (n - w) * math.sqrt(.5) * 2 ** (-n / 2)}))
    return {i: a for i, a in out.items() if a}


def full_measure(meas, n, full):
    return sorted(meas) == ([(i, i) for i in range(n)] if full else [(0, 0)])


def angle(v):
    if v.choice('zero', [False, False, True] if not v.symbolic else [False, True]):
        return 0
    d = v.real('delta', -7, 7)
    v.require(d != 0)
    return d


def at_zero(psi):
    """the states of a zero angle"""
    out = {i: Amp({0: sum(a.values())}) for i, a in psi.items()}
    return {i: a for i, a in out.items() if abs(a[0]) > 1e-12}


def ideal(kind, n, delta, full=True):
    """specified distribution of the outcomes (clbit 0 rightmost)"""
    if kind == 'simple':
        d = {'0' * n: .5, '1' * n: .5}
    elif kind == 'mqc':
        p = (1 + math.cos(n * delta)) / 2
        d = {'0' * n: p, '0' * (n - 1) + '1': 1 - p}
    else:
        z = np.exp(1j * delta)
        d = {}
        for i, a in po_state(n).items():
            d[format(i, '0%db' % n)] = abs(sum(x * z ** p for p, x in a.items())) ** 2
    if not full:
        e = {}
        for k, x in d.items():
            e[k[-1]] = e.get(k[-1], 0) + x
        d = e
    return d


def dist_eq(v, got, want):
    return all(abs(got.get(k, 0) - want.get(k, 0)) < 1e-7 for k in set(got) | set(want)) and all(len(k) == len(next(iter(want))) for k in got)


def check_sym(v, circ, n, want, full, delta=None):
    psi, meas = simulate(circ, n, delta)
    if not is_sym(delta):
        psi, want = at_zero(psi), at_zero(want)
    v.ensure('state before the measurement', same_state(psi, want), lambda: short((psi, want)))
    v.ensure('measured bits', full_measure(meas, n, full), lambda: short(meas))
    v.ensure('registers', [len(r) for r in circ.qregs] == [n] and [len(r) for r in circ.cregs] == [n if full else 1])


@reg.contract(L + ':get_ghz_simple; get_measurement_circ', mode='S', sizes=[dict(n=n) for n in (1, 2, 3, 4, 5, 6)], rsizes=[dict(n=n) for n in (1, 2, 4, 7, 10, 12)], samples=3, mods=[L], extra=SYM)
def ghz_simple(v, n):
    """GHZ state, all qubits (or the first) measured in order"""
    f = lin().get_ghz_simple
    full, measure = v.choice('full', [True, False]), v.choice('measure', [True, False])
    c = f(n, measure=measure, full_measurement=full)
    if v.symbolic:
        psi, meas = simulate(c, n, None)
        v.ensure('GHZ state', same_state(psi, GHZ(n)), lambda: short(psi))
        v.ensure('measured bits', full_measure(meas, n, full) if measure else meas == [], lambda: short(meas))
        return
    if not measure:
        v.ensure('no measurement', not c.clbits and not measure_map(c))
        psi = statevector(c)
        want = np.zeros(2 ** n)
        want[0] = want[-1] = math.sqrt(.5)
        v.ensure('GHZ state', phase_equal(psi, want))
        return
    v.ensure('outcomes', dist_eq(v, distribution(c), ideal('simple', n, 0, full)), lambda: short(distribution(c)))


def lin():
    import qiskit.ignis.verification.entanglement as m
    return m


@reg.contract(L + ':get_ghz_mqc', mode='S', sizes=[dict(n=n) for n in (1, 2, 3, 4, 5)], rsizes=[dict(n=n) for n in (1, 2, 4, 7, 12)], samples=5, mods=[L], extra=SYM)
def ghz_mqc(v, n):
    """all angles"""
    delta, full = angle(v), v.choice('full', [True, False])
    c = lin().get_ghz_mqc(n, delta, full)
    if v.symbolic:
        return check_sym(v, c, n, mqc_state(n), full, delta)
    v.ensure('outcomes', dist_eq(v, distribution(c), ideal('mqc', n, delta, full)), lambda: short((delta, distribution(c))))


@reg.contract(L + ':get_ghz_po', mode='S', sizes=[dict(n=n) for n in (1, 2, 3, 4, 5)], rsizes=[dict(n=n) for n in (1, 2, 4, 7, 12)], samples=5, mods=[L], extra=SYM)
def ghz_po(v, n):
    """all angles"""
    delta = angle(v)
    c = lin().get_ghz_po(n, delta)
    if v.symbolic:
        return check_sym(v, c, n, po_state(n), True, delta)
    d = distribution(c)
    v.ensure('outcomes', dist_eq(v, d, ideal('po', n, delta)), lambda: short((delta, d)))
    v.ensure_eq('parity oscillates with n delta', sum((-1) ** k.count('1') * p for k, p in d.items()), (-1) ** n * math.cos(n * delta))


@reg.contract(L + ':get_ghz_mqc_para; get_ghz_po_para', mode='B', sizes=[dict(n=n) for n in (1, 2, 4, 6, 12)], samples=4)
def para(v, n):
    """the parametrised circuits, bound to any angle, are the ones above"""
    delta = angle(v)
    full = v.choice('full', [True, False])
    c, t = lin().get_ghz_mqc_para(n, full)
    v.ensure('parameters', set(c.parameters) == {t})
    v.ensure('mqc outcomes', dist_eq(v, distribution(c.bind_parameters({t: delta})), ideal('mqc', n, delta, full)))
    c, (t, m) = lin().get_ghz_po_para(n)
    v.ensure('parameters', set(c.parameters) == {t, m})
    d = distribution(c.bind_parameters({t: delta, m: -delta}))
    v.ensure('po outcomes', dist_eq(v, d, ideal('po', n, delta)), lambda: short((delta, d)))


# ------------------------------------------------------------------ trees
def graphs(n):
    """all graphs on n nodes without isolated nodes"""
    pairs = list(itertools.combinations(range(n), 2))
    for bits in itertools.product((0, 1), repeat=len(pairs)):
        es = [p for p, b in zip(pairs, bits) if b]
        if {x for e in es for x in e} == set(range(n)):
            yield es


class Backend:
    def __init__(self, cmap, errors=None):
        self._c = type('C', (), {'coupling_map': cmap})()
        self.errors = errors

    def configuration(self):
        return self._c

    def properties(self):
        errors = self.errors

        class Pr:
            def to_dict(self):
                g = [{'qubits': [0], 'gate': 'u1', 'parameters': [{'value': 0, 'name': 'gate_error'}]}]
                return {'gates': g + [{'qubits': list(q), 'gate': 'cx', 'parameters': [{'value': e, 'name': 'gate_error'}, {'value': 1, 'name': 'gate_length'}]} for q, e in errors.items()]}
        return Pr()


def component(es, s):
    c = {s}
    while True:
        new = {b for a, b in es if a in c} | {a for a, b in es if b in c}
        if new <= c:
            return c
        c |= new


def degrees(es):
    d = {}
    for a, b in es:
        d[a] = d.get(a, 0) + 1
        d[b] = d.get(b, 0) + 1
    return d


def check_tiers(v, tiers, es, root_of, err=None):
    edges = {frozenset(e) for e in es}
    order = [p for t in sorted(tiers) for p in tiers[t]]
    v.ensure('steps are non-empty and consecutive', sorted(tiers) == list(range(len(tiers))) and all(tiers.values()))
    v.ensure('steps act on disjoint pairs', all(len({x for p in tiers[t] for x in p}) == 2 * len(tiers[t]) for t in tiers), lambda: short(tiers))
    v.ensure('connected pairs', all(frozenset(p) in edges for p in order), lambda: short(tiers))
    root = order[0][0]
    seen = {root}
    ok = True
    for p in order:
        ok = ok and p[0] in seen and p[1] not in seen
        seen.add(p[1])
    v.ensure('every control is entangled before, every target once', ok, lambda: short(tiers))
    v.ensure('all connected qubits are reached', seen == component(es, root), lambda: short((tiers, es)))
    deg = degrees(es)
    v.ensure('rooted at a node with most neighbours', deg[root] == max(deg.values()))
    if err is not None:
        for k, p in enumerate(order):
            for p2 in order[k + 1:]:
                if p2[0] == p[0]:
                    v.ensure('smaller errors first', err[frozenset(p)] <= err[frozenset(p2)], lambda: short((p, p2)))


def bconfig(cmap, errors=None):
    from qiskit.ignis.verification.entanglement import BConfig
    return BConfig(Backend([list(e) for e in cmap], errors), indicator=errors is not None)


@reg.contract(PA + ':BConfig.get_tier_dict; get_ghz_layout', mode='S', sizes=[dict(n=n) for n in (2, 3, 4)], rsizes=[dict(n=n) for n in (3, 5, 7)], samples=12, mods=[PA], extra=SYM, budget=200)
def trees(v, n):
    """all graphs with n nodes, however their edges are directed"""
    gs = list(graphs(n)) if v.symbolic else None
    if v.symbolic:
        es = v.choice('graph', gs)
        m = max(degrees(es).values())
        roots = [x for x, d in degrees(es).items() if d == m]
        direct = v.choice('dir', ['up', 'down', 'both'])
    else:
        r = nprng(v)
        es = [tuple(sorted((i, int(r.randint(i))))) for i in range(1, n)]
        es = sorted(set(es) | {tuple(sorted(int(x) for x in r.choice(n, 2, replace=False))) for _ in range(int(r.randint(n)))})
        direct = v.choice('dir', ['up', 'down', 'both', 'mixed'])
        if v.choice('shift', [False, True]):
            es = [(a + 2, b + 2) for a, b in es]
    cmap = []
    for k, (a, b) in enumerate(es):
        cmap += {'up': [[a, b]], 'down': [[b, a]], 'both': [[a, b], [b, a]], 'mixed': [[a, b]] if k % 2 else [[b, a]]}[direct]
    b = bconfig(cmap)
    t = b.get_tier_dict()
    check_tiers(v, t, es, None)
    from qiskit import QiskitError
    root = t[0][0][0]
    reach = len(component(es, root))
    k = v.choice('k', list(range(1, n + 1)))
    if k > reach:
        v.ensure_raises('too few connected qubits', QiskitError, b.get_ghz_layout, k, False)
        return
    c, lay = b.get_ghz_layout(k, transpiled=False, barriered=v.choice('barriered', [True, False]))
    if v.symbolic:
        psi, meas = simulate(c, k, None)
        ok = same_state(psi, GHZ(k)) and not meas
        cxs = [bits for name, p, bits in c.ops if name == 'cx']
        layout = {q.index: phys for q, phys in lay.items()}
    else:
        psi = statevector(c)
        want = np.zeros(2 ** k)
        want[0] = want[-1] = math.sqrt(.5)
        ok = phase_equal(psi, want)
        qi = {q: i for i, q in enumerate(c.qubits)}
        cxs = [tuple(qi[x] for x in q) for op, q, _ in c.data if op.name == 'cx']
        layout = {qi[q]: phys for q, phys in lay.items()}
    v.ensure('GHZ state', ok, lambda: short(psi))
    v.ensure('layout gives every qubit its own place', sorted(layout) == list(range(k)) and len(set(layout.values())) == k, lambda: short(layout))
    edges = {frozenset(e) for e in es}
    v.ensure('gates on connected qubits', all(frozenset((layout[a], layout[b])) in edges for a, b in cxs), lambda: short((layout, cxs)))


@reg.contract(PA + ':BConfig.get_tier_dict (sorted by error)', mode='S', sizes=[dict(shape=s) for s in ('star', 'line', 'ring', 'full')], rsizes=[dict(shape=s) for s in ('star', 'line', 'ring', 'full')], samples=8, mods=[PA], extra=SYM, budget=200)
def sorted_trees(v, shape):
    """all gate errors: children of a qubit are entangled in order of their errors"""
    es = {'star': [(0, 1), (1, 2), (1, 3)], 'line': [(0, 1), (1, 2), (2, 3)], 'ring': [(0, 1), (1, 2), (2, 3), (0, 3)], 'full': [(0, 1), (0, 2), (0, 3), (1, 2)]}[shape]
    err = {e: v.real('e%d%d' % e, 0, 1) for e in es}
    flip = v.choice('flip', [False, True])
    e2 = {(e[::-1] if flip else e): x for e, x in err.items()}
    if v.choice('both', [False, True]):
        e2.update({k[::-1]: x for k, x in list(e2.items())})
    b = bconfig(list(e2), e2)
    check_tiers(v, b.get_tier_dict(), es, None, {frozenset(e): x for e, x in err.items()})


# ------------------------------------------------- circuits on fake backends
def fake(name):
    import qiskit.test.mock as mock
    return getattr(mock, name)()


def active(circ):
    """the circuit on the qubits it uses, and their positions"""
    from qiskit import QuantumCircuit
    qi = {b: i for i, b in enumerate(circ.qubits)}
    used = sorted({qi[x] for op, q, c in circ.data if op.name != 'barrier' for x in q})
    pos = {p: k for k, p in enumerate(used)}
    out = QuantumCircuit(len(used), len(circ.clbits))
    ci = {b: i for i, b in enumerate(circ.clbits)}
    for op, q, c in circ.data:
        if op.name != 'barrier':
            out.append(op, [pos[qi[x]] for x in q], [ci[x] for x in c])
    return out, used


@reg.contract(PA + ':BConfig.get_ghz_simple; get_ghz_mqc; get_ghz_po; *_para; get_ghz_layout', mode='B', sizes=[dict(b=b, n=n) for b, n in (('FakeYorktown', 5), ('FakeMelbourne', 4), ('FakeOurense', 3), ('FakeTenerife', 2), ('FakeMelbourne', 7))], samples=2)
def backends(v, b, n):
    be = fake(b)
    from qiskit.ignis.verification.entanglement import BConfig
    c = BConfig(be, indicator=v.choice('indicator', [True, False]))
    delta, full = angle(v), v.choice('full', [True, False])
    edges = {frozenset(e) for e in be.configuration().coupling_map}

    def check(clause, circ, lay, want):
        lay = [lay[q] for q in sorted(lay, key=lambda q: q.index)]
        v.ensure(clause + ' layout', len(lay) == n == len(set(lay)), lambda: short(lay))
        a, used = active(circ)
        v.ensure(clause + ' uses the layout', set(used) <= set(lay) and (set(used) == set(lay)), lambda: short((used, lay)))
        mm = measure_map(circ)
        v.ensure(clause + ' measures the layout in order', sorted(mm, key=lambda x: x[1]) == [(q, i) for i, q in enumerate(lay)][:len(circ.clbits)], lambda: short((mm, lay)))
        qi = {x: i for i, x in enumerate(circ.qubits)}
        v.ensure(clause + ' gates on connected qubits', all(frozenset(qi[x] for x in q) in edges for op, q, _ in circ.data if len(q) == 2 and op.name != 'barrier'))
        d = distribution(a)
        v.ensure(clause + ' outcomes', dist_eq(v, d, want), lambda: short((delta, d, want)))
    circ, q, lay = c.get_ghz_simple(n, full)
    check('simple', circ, lay, ideal('simple', n, 0, full))
    circ, lay = c.get_ghz_mqc(n, delta, full)
    check('mqc', circ, lay, ideal('mqc', n, delta, full))
    circ, lay = c.get_ghz_po(n, delta)
    check('po', circ, lay, ideal('po', n, delta))
    circ, t, lay = c.get_ghz_mqc_para(n, full)
    check('mqc para', circ.bind_parameters({t: delta}), lay, ideal('mqc', n, delta, full))
    circ, (t, m), lay = c.get_ghz_po_para(n)
    check('po para', circ.bind_parameters({t: delta, m: -delta}), lay, ideal('po', n, delta))


@reg.contract(PA + ':BConfig.get_tier_dict (large backends)', mode='B', sizes=[dict(b=b) for b in ('FakeRochester', 'FakeTokyo', 'line')], samples=1)
def large(v, b):
    if b == 'line':
        es = [(i, i + 1) for i in range(120)]
        t = bconfig(es).get_tier_dict()
    else:
        be = fake(b)
        es = list({tuple(sorted(e)) for e in be.configuration().coupling_map})
        from qiskit.ignis.verification.entanglement import BConfig
        t = BConfig(be, indicator=v.choice('indicator', [True, False])).get_tier_dict()
    check_tiers(v, t, es, None)


# ------------------------------------------------------------------ analysis
@reg.contract(A + ':ordered_list_generator; composite_pauli_z; composite_pauli_z_expvalue', mode='S', sizes=[dict(n=n) for n in (1, 2, 3, 4)], rsizes=[dict(n=n) for n in (1, 3, 6, 8)], samples=8, mods=[A])
def parity(v, n):
    """all counts, with any keys missing"""
    keys = bitstrings(n)
    c = {}
    for k in keys:
        if n <= 2 and v.symbolic or not v.symbolic:
            if v.choice('missing' + k, [False, True]):
                continue
        elif keys.index(k) % 3 == 1:
            continue
        c[k] = v.real('c' + k, 0, 100)
    order = list(c)
    if v.choice('reversed', [False, True]):
        order.reverse()
    c = {k: c[k] for k in order}
    got = lin().ordered_list_generator(dict(c), n)
    v.ensure('length', len(got) == 2 ** n)
    v.ensure_eq('counts in the order of the outcomes', list(got), [c.get(k, 0) for k in keys])
    z = np.asarray(lin().composite_pauli_z(n))
    v.ensure('Pauli Z on every qubit', z.shape == (2 ** n, 2 ** n) and all(z[i, j] == ((-1) ** bin(i).count('1') if i == j else 0) for i in range(2 ** n) for j in range(2 ** n)))
    want = 0
    for k in c:
        want = want + (-c[k] if k.count('1') % 2 else c[k])
    v.ensure_eq('parity', lin().composite_pauli_z_expvalue(dict(c), n), want)


class NoPlot:
    def __getattr__(self, name):
        return lambda *a, **k: None


@reg.contract(A + ':Plotter.get_fourier_info', mode='S', sizes=[dict(label=l, n=n, m=m) for l in ('mqc', 'po') for n, m in ((1, 4), (2, 6), (3, 8))], rsizes=[dict(label=l, n=n, m=m) for l in ('mqc', 'po') for n, m in ((2, 8), (5, 16))], samples=5, mods=[A],
              extra={'plt': NoPlot(), 'HAS_MATPLOTLIB': True, 'print': lambda *a, **k: None})
def fourier(v, label, n, m):
    """all data: components of the transform, bounds and fidelities of the raw and
    of the mitigated data"""
    import io
    import contextlib
    x = np.linspace(0, 2 * np.pi, m, endpoint=False)
    y, ym = v.array('y', m, lo=0, hi=1), v.array('ym', m, lo=0, hi=1)
    p = {k: v.real(k, 0, 1) for k in ('P0', 'P1', 'P0_m', 'P1_m')}
    if v.symbolic:
        tr = {}

        def fft(a, *_, **__):
            name = 'f' if all(s is t for s, t in zip(a, y)) else 'g' if all(s is t for s, t in zip(a, ym)) else None
            if name is None or len(a) != m:
                raise Unsupported('transform of other data')
            if name not in tr:
                tr[name] = v.array(name, m, kind='cplx', lo=-m, hi=m)
            return tr[name]
        v.standin('fft', fft)
        out = lin().Plotter(label).get_fourier_info(n, x, y, ym, dict(p))
        f, g = fft(y), fft(ym)
    else:
        import matplotlib
        matplotlib.use('Agg')
        from matplotlib import pyplot as plt
        with contextlib.redirect_stdout(io.StringIO()):
            out = lin().Plotter(label).get_fourier_info(n, x, y, ym, dict(p))
        plt.close('all')
        k = np.arange(m)
        dft = lambda a: np.array([np.sum(a * np.exp(-2j * np.pi * j * k / m)) for j in range(m)])
        f, g = dft(y), dft(ym)
    for t, suffix, a0, a1 in ((f, '', p['P0'], p['P1']), (g, '_m', p['P0_m'], p['P1_m'])):
        v.ensure_eq('In' + suffix, out['In' + suffix], t[n] / m)
        an = abs(t[n] / m)
        if label == 'po':
            v.ensure_eq('fidelity' + suffix, out['F' + suffix], (a0 + a1) / 2 + an)
            continue
        i0 = abs(t[0] / m)
        rt = (lambda z: z ** 0.5)
        v.ensure_eq('I0' + suffix, out['I0' + suffix], t[0] / m)
        v.ensure_eq('lower bound' + suffix, out['LB' + suffix], 2 * rt(an))
        v.ensure_eq('upper bound' + suffix, out['UB' + suffix], rt(an) + rt(i0 / 2))
        v.ensure_eq('fidelity' + suffix, out['F' + suffix], (a0 + a1) / 2 + rt(an))


@reg.contract(A + ':rho_to_fidelity', mode='S', sizes=[dict(n=n) for n in (1, 2)], rsizes=[dict(n=n) for n in (1, 2, 3)], samples=8, mods=[A])
def fidelity(v, n):
    """all hermitian matrices with non-negative populations"""
    d = 2 ** n
    rho = np.empty((d, d), dtype=object)
    for i in range(d):
        rho[i, i] = v.real('r%d' % i, 0, 1)
        for j in range(i):
            a, b = v.real('a%d%d' % (i, j), -1, 1), v.real('b%d%d' % (i, j), -1, 1)
            rho[i, j] = SymC(a, b) if v.symbolic else complex(a, b)
            rho[j, i] = rho[i, j].conjugate()
    if not v.symbolic:
        rho = rho.astype(complex)
    got = lin().rho_to_fidelity(rho)
    v.ensure_eq('overlap with the best GHZ state', got, (rho[0, 0] + rho[-1, -1]).real / 2 + abs(rho[0, -1]))


@reg.contract('round trip', mode='B', sizes=[dict(n=n) for n in (1, 2, 3)], samples=3)
def round_trip(v, n):
    """ideal MQC and parity-oscillation experiments are read as perfect GHZ states"""
    import io
    import contextlib
    import matplotlib
    matplotlib.use('Agg')
    from matplotlib import pyplot as plt
    m = 16
    xs = np.linspace(0, 2 * np.pi, m, endpoint=False)
    e = lin()
    p = dict(P0=.5, P1=.5, P0_m=.5, P1_m=.5)
    y = np.array([distribution(e.get_ghz_mqc(n, x)).get('0' * n, 0) for x in xs])
    with contextlib.redirect_stdout(io.StringIO()):
        out = e.Plotter('mqc').get_fourier_info(n, xs, y, y, p)
        v.ensure_eq('MQC fidelity', out['F'], 1.0)
        y = np.array([e.composite_pauli_z_expvalue(distribution(e.get_ghz_po(n, x)), n) for x in xs])
        out = e.Plotter('po').get_fourier_info(n, xs, y, y, p)
        v.ensure_eq('PO fidelity', out['F'], 1.0)
    plt.close('all')


# ------------------------------------------------------------------ any number of qubits
from contracts import ulib as UL
from pyvc import trace as TR


def _lin_extra():
    return {'QuantumCircuit': TR.Circ, 'QuantumRegister': TR.QReg, 'ClassicalRegister': TR.CReg, 'U1Gate': TR.gate('u1'), 'U2Gate': TR.gate('u2'),
            'Parameter': Angle}


class Angle(UL.Sym):
    """a circuit parameter: any angle, named"""

    def __init__(self, name):
        UL.Sym.__init__(self, UL.z3.Real('angle_' + name))


def _q(i):
    return ('q', i)


def ghz_word(n):
    return [TR.op('h', [_q(0)]), TR.rep(n - 1, lambda j: [TR.op('cx', [_q(j), _q(j + 1)])])]


def ghz_back(n):
    return [TR.rep(n - 1, lambda j: [TR.op('cx', [_q(n - 2 - j), _q(n - 1 - j)])]), TR.op('h', [_q(0)])]


def read_word(full):
    return [TR.op('measure', [_q(TR.ALL if full else 0)], (), [('c', TR.ALL)])]


def word_clause(v, u, circ, want, clause):
    got = [x for x in circ.plain if not (isinstance(x, TR.Op) and x.name == 'barrier')]
    d = TR.same(u, got, want, [])
    v.ensure(clause, d == '', lambda: d)


@reg.contract(L + ':get_ghz_simple; get_measurement_circ (any number of qubits)', sizes=[{'measure': m, 'full': f} for m, f in ((False, True), (True, True), (True, False))], **UL.U)
def any_simple(v, measure, full):
    """any number of qubits: h, then every qubit entangled with the next; measured in order"""
    u = UL.Engine.of(v)
    n = v.int('n', 1)
    c = UL.twin(L, 'get_ghz_simple', _lin_extra())(n, measure=measure, full_measurement=full)
    word_clause(v, u, c, ghz_word(n) + (read_word(full) if measure else []), 'entangling chain')
    v.ensure('register of n qubits', c.regs[0].name == 'q' and TR.proves(u, TR.tt(c.regs[0].size) == n.t, []))


@reg.contract(L + ':get_ghz_mqc; get_ghz_mqc_para (any number of qubits)', sizes=[{'para': p, 'full': f} for p in (False, True) for f in (False, True)], **UL.U)
def any_mqc(v, para, full):
    """any number of qubits, any angle: GHZ, phase and flip of every qubit, GHZ undone"""
    u = UL.Engine.of(v)
    n = v.int('n', 1)
    if para:
        c, delta = UL.twin(L, 'get_ghz_mqc_para', _lin_extra())(n, full_measurement=full)
    else:
        delta = v.real('delta')
        c = UL.twin(L, 'get_ghz_mqc', _lin_extra())(n, delta, full_measurement=full)
    word_clause(v, u, c, ghz_word(n) + [TR.op('u1', [_q(TR.ALL)], [delta]), TR.op('x', [_q(TR.ALL)])] + ghz_back(n) + read_word(full),
                'GHZ, phases and flips, GHZ undone')


@reg.contract(L + ':get_ghz_po; get_ghz_po_para (any number of qubits)', sizes=[{'para': False}, {'para': True}], **UL.U)
def any_po(v, para):
    """any number of qubits, any angle: GHZ and the rotated readout of every qubit"""
    u = UL.Engine.of(v)
    n = v.int('n', 1)
    if para:
        c, (delta, neg) = UL.twin(L, 'get_ghz_po_para', _lin_extra())(n)
        v.ensure('names of the parameters', UL.and_(UL.seq(delta, Angle('t')), UL.seq(neg, Angle('-t'))))
    else:
        delta = v.real('delta')
        neg = -delta
        c = UL.twin(L, 'get_ghz_po', _lin_extra())(n, delta)
    word_clause(v, u, c, ghz_word(n) + [TR.op('u2', [_q(TR.ALL)], [delta, neg])] + read_word(True), 'GHZ and rotated readout')
