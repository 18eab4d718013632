"""C12 CNOT-dihedral elements form a group faithfully represented by circuits

Specification: an element (P, L, s) on n qubits is the operator
|x> -> w^P(x) |L x + s>,  w = exp(i pi/4), up to a global phase; P is a phase
polynomial with coefficients in Z_8, its quadratic and cubic coefficients are
multiples of 2 and 4.
"""
from contracts.common import *
from pyvc.core import short

reg = Registry('C12')
reg.assumptions += ['QuantumCircuit, gate definitions and Operator of qiskit-terra behave as documented',
                    'integer weights are mathematical integers (the code stores values mod 8 in int8)']
D = IG + 'verification.randomized_benchmarking.dihedral'
RB = IG + 'verification.randomized_benchmarking'


def combos(n):
    return [list(itertools.combinations(range(n), r)) for r in range(4)]


def weights(poly):
    """{index tuple: coefficient} read from the weight arrays in lexicographic order"""
    n = poly.n_vars
    c = combos(n)
    out = {(): poly.weight_0}
    for r, arr in ((1, poly.weight_1), (2, poly.weight_2), (3, poly.weight_3)):
        for t, w in zip(c[r], arr):
            out[t] = w
    return out


def value(w, x):
    """value of the polynomial {term: coefficient} at the 0/1 vector x"""
    r = 0
    for t, c in w.items():
        if all(x[i] for i in t):
            r = r + c
    return r


def points(n):
    return list(itertools.product((0, 1), repeat=n))


def sym_poly(v, name, n, special=True, zero0=True, only=None):
    from qiskit.ignis.verification.randomized_benchmarking.dihedral import SpecialPolynomial
    p = SpecialPolynomial(n)
    c = combos(n)

    def coef(t):
        if only is not None and t not in only:
            return 0
        nm = name + '_' + '_'.join(map(str, t))
        if special and len(t) == 2:
            return 2 * v.int(nm, 0, 3)
        if special and len(t) == 3:
            return 4 * v.int(nm, 0, 1)
        return v.int(nm, 0, 7)
    p.weight_0 = 0 if zero0 else coef(())
    for r, at in ((1, 'weight_1'), (2, 'weight_2'), (3, 'weight_3')):
        arr = np.empty(len(c[r]), dtype=object if v.symbolic else np.int8)
        for i, t in enumerate(c[r]):
            arr[i] = coef(t)
        setattr(p, at, arr)
    return p


def invertible(n):
    if n == 1:
        return [((1,),)]
    out = []
    for bits in itertools.product((0, 1), repeat=n * n):
        m = np.array(bits).reshape(n, n)
        if round(np.linalg.det(m)) % 2:
            out.append(tuple(map(tuple, m)))
    return out


GL2 = invertible(2)
GL3 = [((1, 0, 0), (0, 1, 0), (0, 0, 1)), ((0, 1, 0), (0, 0, 1), (1, 0, 0)), ((1, 1, 1), (0, 1, 1), (0, 0, 1)),
       ((1, 0, 0), (1, 1, 0), (1, 1, 1)), ((0, 1, 1), (1, 0, 1), (1, 1, 1)), ((1, 1, 0), (0, 1, 1), (0, 0, 1)),
       ((1, 0, 0), (0, 1, 0), (1, 1, 1)), ((0, 0, 1), (0, 1, 0), (1, 0, 0))]


def linears(n, sym=True):
    return {1: [((1,),)], 2: GL2}.get(n) or (GL3 if n == 3 else None)


def element(poly, linear, shift, obj=False):
    from qiskit.ignis.verification.randomized_benchmarking import CNOTDihedral
    e = CNOTDihedral(poly.n_vars)
    e.poly = poly
    e.linear = np.array(linear, dtype=object if obj else np.int8)
    e.shift = np.array(shift, dtype=object if obj else np.int8)
    return e


def image(linear, shift, x):
    n = len(x)
    return tuple((sum(linear[i][j] * x[j] for j in range(n)) + shift[i]) % 2 for i in range(n))


def semantics(e):
    """x -> (phase exponent, image) as a dict (concrete linear and shift)"""
    w = weights(e.poly)
    lin = [[int(b) for b in r] for r in e.linear]
    sh = [int(b) for b in e.shift]
    return {x: (value(w, x), image(lin, sh, x)) for x in points(e.num_qubits)}


def ensure_same(v, clause, got, want, n):
    """two semantics equal up to a global phase"""
    z = (0,) * n
    v.ensure(clause + ': permutation', all(got[x][1] == want[x][1] for x in points(n)))
    v.ensure(clause + ': phases', and_(*[seq((got[x][0] - got[z][0] - want[x][0] + want[z][0]) % 8, 0) for x in points(n)]))


def in_group(v, clause, e):
    w = weights(e.poly)
    v.ensure(clause, and_(*[and_(seq(c % {0: 1, 1: 1, 2: 2, 3: 4}[len(t)], 0), c >= 0, c < 8) for t, c in w.items()]))


class Circ:
    """semantics of a circuit over x, y, z, u1, cx, cz, id, p, t.. by propagation
    of basis states (independent of the class under contract); u1 angles are in
    multiples of pi/4, possibly symbolic"""

    def __init__(self, n):
        self.n = n
        self.at = {x: (0, x) for x in points(n)}

    def gate(self, name, qs, k=None):
        for x, (ph, y) in self.at.items():
            y = list(y)
            if name == 'x':
                y[qs[0]] ^= 1
            elif name == 'y':
                ph = ph + 4 * y[qs[0]]
                y[qs[0]] ^= 1
            elif name == 'z':
                ph = ph + 4 * y[qs[0]]
            elif name == 'u1':
                ph = ph + k * y[qs[0]]
            elif name == 'cx':
                y[qs[1]] ^= y[qs[0]]
            elif name == 'cz':
                ph = ph + 4 * y[qs[0]] * y[qs[1]]
            elif name not in ('id', 'barrier'):
                raise Unsupported('gate ' + name)
            self.at[x] = (ph, tuple(y))


class U1Sym:
    """stand-in for U1Gate in a symbolic run (the angle may be symbolic)"""

    def __new__(cls, theta):
        from qiskit.circuit import Gate
        g = Gate('u1', 1, [])
        g.theta = theta
        return g


def circuit_semantics(circ):
    c = Circ(len(circ.qubits))
    qi = {b: i for i, b in enumerate(circ.qubits)}
    for op, q, _ in circ.data:
        k = None
        if op.name == 'u1':
            th = op.theta if hasattr(op, 'theta') else float(op.params[0])
            if is_sym(th):
                k = th * 4 / np.pi
                k = core.Sym(core.z3.ToInt(k.t)) if not k.t.is_int() else k
            else:
                k = int(round(float(th) * 4 / np.pi))
        c.gate(op.name, [qi[b] for b in q], k)
    return c.at


# ------------------------------------------------------------- polynomials
@reg.contract(D + ':SpecialPolynomial.get_term; set_term', mode='S', sizes=[{'n': n} for n in (1, 2, 3, 4, 5, 6)], rsizes=[{'n': n} for n in (2, 3, 4, 7, 10)],
              mods=[D], builtin=('int',), samples=2)
def terms(v, n):
    """every monomial has its own coefficient; other coefficients untouched"""
    from qiskit.ignis.verification.randomized_benchmarking.dihedral import SpecialPolynomial
    p = sym_poly(v, 'p', n, special=False, zero0=False)
    w = weights(p)
    v.ensure('get_term reads the coefficient of its monomial', and_(*[seq(p.get_term(list(t)), c) for t, c in w.items()]))
    ts = list(w)
    new = v.int('new', -20, 20)
    ok = []
    for t in ts:
        q = SpecialPolynomial(n)
        for u in ts:
            q.set_term(list(u), w[u])
        q.set_term(list(t), new)
        ok += [seq(c, (new % 8) if u == t else w[u]) for u, c in weights(q).items()]
        ok.append(seq(q.get_term(list(t)), new % 8))
    v.ensure('set_term sets exactly the named coefficient, modulo 8', and_(*ok))


@reg.contract(D + ':SpecialPolynomial.__add__; __mul__ (scalar)', mode='S', sizes=[{'n': n} for n in (1, 2, 3, 4, 6)], mods=[D], builtin=('int', 'isinstance'), samples=4)
def add_scale(v, n):
    """sum and integer multiples act coefficient by coefficient modulo 8"""
    p = sym_poly(v, 'p', n, False, False)
    q = sym_poly(v, 'q', n, False, False)
    k = v.choice('k', [-3, -1, 0, 1, 2, 7, 11])
    wp, wq = weights(p), weights(q)
    ws = weights(p + q)
    v.ensure('sum', and_(*[seq(ws[t], (wp[t] + wq[t]) % 8) for t in ws]))
    for r in (k * p, p * k):
        wk = weights(r)
        v.ensure('multiple', and_(*[seq(wk[t], (k * wp[t]) % 8) for t in wk]))
    v.ensure('operands unchanged', and_(*[seq(a, b) for a, b in zip(weights(p).values(), wp.values())]))


@reg.contract(D + ':SpecialPolynomial.mul_monomial', mode='S', sizes=[{'n': n} for n in (1, 2, 3, 4, 5)],
              rsizes=[{'n': n} for n in (1, 2, 3, 4, 5, 9, 10)], mods=[D], builtin=('int',), samples=3)
def monomial(v, n):
    """product with a monomial: coefficient of each union of index sets"""
    p = sym_poly(v, 'p', n, False, False)
    w = weights(p)
    m = v.choice('m', list(w)) if n < 5 or not v.symbolic else v.choice('m', [(0,), (4,), (1, 3), (0, 2, 4)])
    got = weights(p.mul_monomial(list(m)))
    want = {t: 0 for t in w}
    for t, c in w.items():
        u = tuple(sorted(set(t) | set(m)))
        if u in want:
            want[u] = want[u] + c
    v.ensure('coefficients', and_(*[seq(got[t], want[t] % 8) for t in w]))


@reg.contract(D + ':SpecialPolynomial.__mul__', mode='S', sizes=[{'n': 1}, {'n': 2}, {'n': 3}], rsizes=[{'n': n} for n in (1, 2, 3, 4, 9)],
              mods=[D], builtin=('int', 'isinstance'), samples=3, budget=60)
def product(v, n):
    """product of polynomials: for up to three variables the values multiply;
    with more, the terms with up to three variables are those of the product"""
    p = sym_poly(v, 'p', n, False, False)
    only = None
    if n > 2 and v.symbolic:
        only = v.choice('only', [[(), (0,), (1, 2)], [(2,), (0, 1), (0, 1, 2)]])
    q = sym_poly(v, 'q', n, False, False, only)
    r = p * q
    wp, wq, wr = weights(p), weights(q), weights(r)
    want = {t: 0 for t in wr}
    for a, x in wp.items():
        for b, y in wq.items():
            u = tuple(sorted(set(a) | set(b)))
            if u in want:
                want[u] = want[u] + x * y
    v.ensure('coefficients', and_(*[seq((wr[t] - want[t]) % 8, 0) for t in wr]))
    v.ensure('reduced modulo 8', and_(*[and_(c >= 0, c < 8) for c in wr.values()]))


@reg.contract(D + ':SpecialPolynomial.evaluate', mode='S', sizes=[{'n': 1}, {'n': 2}], rsizes=[{'n': n} for n in (1, 2, 3, 5)],
              mods=[D], builtin=('int', 'isinstance'), samples=3)
def evaluate_int(v, n):
    """value at every 0/1 vector"""
    p = sym_poly(v, 'p', n, False, False)
    w = weights(p)
    x = v.choice('x', points(n)) if n < 4 else tuple(v.choice('x%d' % i, [0, 1]) for i in range(n))
    v.ensure('value', seq(p.evaluate(list(x)), value(w, x) % 8))
    if not v.symbolic:
        y = [b + 2 * v.int('y%d' % i, -2, 3) for i, b in enumerate(x)]
        v.ensure('variables are taken modulo 2', p.evaluate(y) == value(w, x) % 8)


@reg.contract(D + ':SpecialPolynomial.set_pj', mode='S', sizes=[{'n': n} for n in (1, 2, 3, 4, 5)], samples=4)
def set_pj(v, n):
    """set_pj: value at x is the parity of the selected bits, modulo 8"""
    from qiskit.ignis.verification.randomized_benchmarking.dihedral import SpecialPolynomial
    sel = v.choice('sel', [s for r in range(n + 1) for s in itertools.combinations(range(n), r)])
    p = SpecialPolynomial(n)
    p.set_pj(list(sel))
    w = {t: int(c) for t, c in weights(p).items()}
    if len(sel) <= 3:
        v.ensure('parity', all(value(w, x) % 8 == sum(x[i] for i in sel) % 2 for x in points(n)))
    v.ensure('coefficients 1, 6, 4 on subsets of the selection', all(c == ((0, 1, 6, 4)[len(t)] if t and set(t) <= set(sel) else 0) for t, c in w.items()))
    q = SpecialPolynomial(n)
    for t, c in w.items():
        q.set_term(list(t), c)
    v.ensure('equal polynomials compare equal', p == q and p.key == q.key)


# ---------------------------------------------------------------- generators
@reg.contract(D + ':CNOTDihedral.phase; cnot; flip; append_circuit', mode='S', sizes=[{'n': 1}, {'n': 2}, {'n': 3}], mods=[D], builtin=('int', 'isinstance'),
              samples=6, budget=200, needs=[D + '.append_circuit'])
def generators(v, n):
    """appending any generating gate to any element acts as the gate after the
    element (the induction step for all circuits)"""
    from qiskit import QuantumCircuit
    from qiskit.circuit.library import U1Gate
    from qiskit.ignis.verification.randomized_benchmarking.dihedral import append_circuit
    p = sym_poly(v, 'p', n)
    lin = v.choice('lin', linears(n) if n < 3 or not v.symbolic else GL3[2:6])
    sh = v.choice('shift', points(n) if n < 3 or not v.symbolic else [(0, 1, 0), (1, 0, 1)])
    e = element(p, lin, sh)
    before = semantics(e)
    g = v.choice('gate', ['x', 'y', 'z', 'id', 'u1', 'phase', 'flip'] + (['cx', 'cz', 'cnot'] if n > 1 else []))
    qs = list(v.choice('q2' if g in ('cx', 'cz', 'cnot') else 'q1', list(itertools.permutations(range(n), 2 if g in ('cx', 'cz', 'cnot') else 1))))
    k = None
    if g == 'phase':
        k = v.int('k', 0, 7)
        e.phase(k, qs[0])
    elif g == 'flip':
        e.flip(qs[0])
    elif g == 'cnot':
        e.cnot(*qs)
    else:
        c = QuantumCircuit(n)
        if g == 'u1':
            k = v.choice('ku', list(range(-3, 9)) + [11, 15])
            c.append(U1Gate(k * np.pi / 4), qs)
        else:
            getattr(c, g)(*qs)
        form = v.choice('form', ['circuit', 'gate'] if n > 1 else ['circuit'])
        if form == 'circuit':
            append_circuit(e, c)
        else:
            append_circuit(e, c.data[0][0], qargs=qs)
    name = {'phase': 'u1', 'flip': 'x', 'cnot': 'cx'}.get(g, g)
    c = Circ(n)
    c.at = dict(before)
    c.gate(name, qs, k)
    ensure_same(v, 'acts as the gate after the element', semantics(e), c.at, n)
    in_group(v, 'stays in the group', e)


# ------------------------------------------------------------------- product
def term_groups(n):
    ts = [t for r in (1, 2, 3) for t in combos(n)[r]]
    return [ts[i:i + 3] for i in range(0, len(ts), 3)]


HOW = ['mul', 'compose', 'dot', 'front', 'rmul']


@reg.contract(D + ':CNOTDihedral.__mul__; compose; dot', mode='S', sizes=[{'n': n, 'how': h} for n in (1, 2, 3) for h in HOW], mods=[D], builtin=('int', 'isinstance'),
              samples=4, budget=300)
def multiply(v, n, how):
    """a product acts as the composition of its factors"""
    only = v.choice('terms', term_groups(n)) if v.symbolic and n > 2 else None
    a = element(sym_poly(v, 'a', n, only=only), v.choice('la', linears(n) if not v.symbolic else linears(n)[-2:]), v.choice('sa', points(n)[-2:] if v.symbolic else points(n)))
    b = element(sym_poly(v, 'b', n, only=only), v.choice('lb', linears(n) if n < 3 or not v.symbolic else GL3[1:6:2]), v.choice('sb', points(n) if n < 3 or not v.symbolic else [(0, 0, 0), (1, 0, 1)]))
    sa, sb = semantics(a), semantics(b)
    r = {'mul': lambda: a * b, 'compose': lambda: b.compose(a), 'dot': lambda: a.dot(b), 'front': lambda: a.compose(b, front=True),
         'rmul': lambda: b.__rmul__(a)}[how]()
    want = {x: (sb[x][0] + sa[sb[x][1]][0], sa[sb[x][1]][1]) for x in points(n)}
    ensure_same(v, 'acts as the composition', semantics(r), want, n)
    if how in ('compose', 'dot', 'front'):
        in_group(v, 'is an element of the group', r)
    v.ensure('factors unchanged', and_(*[seq(x[0], y[0]) for x, y in zip(list(semantics(a).values()) + list(semantics(b).values()), list(sa.values()) + list(sb.values()))]))


@reg.contract(D + ':CNOTDihedral.tensor; expand', mode='S', sizes=[{'n': a, 'm': b} for a, b in ((1, 1), (1, 2), (2, 1), (2, 2), (3, 1), (1, 3), (3, 2))],
              mods=[D], builtin=('int', 'isinstance'), samples=3)
def tensor(v, n, m):
    """tensor product: the factors act on their own qubits"""
    a = element(sym_poly(v, 'a', n), v.choice('la', linears(n)), v.choice('sa', [points(n)[1], points(n)[-1]]))
    b = element(sym_poly(v, 'b', m), v.choice('lb', linears(m)[-1:]), v.choice('sb', [points(m)[0], points(m)[-1]]))
    how = v.choice('how', ['tensor', 'expand'])
    r = a.tensor(b) if how == 'tensor' else b.expand(a)
    sa, sb = semantics(a), semantics(b)
    want = {x: (sa[x[:n]][0] + sb[x[n:]][0], sa[x[:n]][1] + sb[x[n:]][1]) for x in points(n + m)}
    v.ensure('number of qubits', r.num_qubits == n + m)
    ensure_same(v, 'each factor acts on its qubits', semantics(r), want, n + m)
    in_group(v, 'is an element of the group', r)


# ------------------------------------------------------------- decomposition
@reg.contract(D + ':decompose_cnotdihedral_2_qubits', mode='S', sizes=[{'n': 1}, {'n': 2}], mods=[D], extra={'U1Gate': U1Sym}, samples=10, budget=200)
def decompose_small(v, n):
    """the circuit of every one- and two-qubit element is that element"""
    p = sym_poly(v, 'p', n)
    e = element(p, v.choice('lin', linears(n)), v.choice('shift', points(n)))
    if v.symbolic and n == 2:
        # one branch of the case split at a time
        w = v.choice('w2', [0, 2, 4, 6])
        p.weight_2 = np.array([w], dtype=object)
    want = semantics(e)
    c = e.to_circuit()
    v.ensure('same number of qubits', len(c.qubits) == n)
    ensure_same(v, 'circuit of the element', circuit_semantics(c), want, n)


def _poly_eq(self, x):
    return type(x) is type(self) and bool(and_(*[seq(a, b) for a, b in zip(weights(self).values(), weights(x).values())]))


class with_eq:
    """in a symbolic run polynomials are compared by their coefficients (contract
    of SpecialPolynomial.__eq__, checked in ``equality``)"""

    def __init__(self, on):
        from qiskit.ignis.verification.randomized_benchmarking.dihedral import SpecialPolynomial
        self.c, self.on = SpecialPolynomial, on

    def __enter__(self):
        if self.on:
            self.old = self.c.__eq__
            self.c.__eq__ = _poly_eq

    def __exit__(self, *a):
        if self.on:
            self.c.__eq__ = self.old


@reg.contract(D + ':decompose_cnotdihedral_general', mode='S', sizes=[{'n': 3, 'lin': i} for i in range(3)], mods=[D], extra={'U1Gate': U1Sym}, samples=10, budget=300)
def decompose_three(v, n, lin):
    """the circuit of a three-qubit element is that element (all phase polynomials)"""
    p = sym_poly(v, 'p', n)
    e = element(p, GL3[lin] if v.symbolic else v.choice('lin', GL3), v.choice('shift', [(1, 0, 1)] if v.symbolic else points(3)))
    want = semantics(e)
    with with_eq(v.symbolic):
        c = e.to_circuit()
    ensure_same(v, 'circuit of the element', circuit_semantics(c), want, n)


@reg.contract(D + ':CNOTDihedral.to_circuit; from_circuit', mode='B', sizes=[{'part': i} for i in range(8)], samples=1, budget=100)
def exhaustive_two(v, part):
    """all 6144 two-qubit and all 16 one-qubit elements (an eighth per job):
    circuit, round trip, inverse"""
    n = 2
    k = 0
    from qiskit.ignis.verification.randomized_benchmarking import CNOTDihedral
    from qiskit.ignis.verification.randomized_benchmarking.dihedral import SpecialPolynomial
    step = v.choice('step', [7])
    off = v.choice('off', list(range(7)))
    for lin in GL2:
        for sh in points(2):
            for w1 in points(3):
                for w2 in points(3):
                    for w in (0, 2, 4, 6):
                        k += 1
                        if k % 8 != part or (k // 8) % step != off:
                            continue
                        p = SpecialPolynomial(2)
                        p.weight_1[:] = [w1[0] * 4 + w1[1] * 2 + w1[2], w2[0] * 4 + w2[1] * 2 + w2[2]]
                        p.weight_2[:] = [w]
                        e = element(p, lin, sh)
                        c = e.to_circuit()
                        ensure_same(v, 'circuit', circuit_semantics(c), semantics(e), 2)
                        v.ensure('round trip', CNOTDihedral(c) == e)


def rand_elem(v, r, n):
    from qiskit.ignis.verification.randomized_benchmarking import random_cnotdihedral
    return random_cnotdihedral(n, seed=r)


def near(v, r, n, a):
    """elements differing from a in one part only"""
    import copy
    out = []
    for _ in range(10):
        e = copy.deepcopy(a)
        kind = r.randint(7)
        i = int(r.randint(n))
        if kind > 3:                        # permute the coefficients of one degree
            w = [e.poly.weight_1, e.poly.weight_2, e.poly.weight_3][kind - 4]
            w[:] = r.permutation(w)
            out.append(e)
            continue
        if kind == 0:
            e.phase(int(r.randint(8)), i)
        elif kind == 1:
            e.flip(i)
        elif n > 1:
            j = int((i + 1 + r.randint(n - 1)) % n)
            if kind == 2:                   # exchange two qubits
                e.linear[[i, j]] = e.linear[[j, i]]
                e.shift[[i, j]] = e.shift[[j, i]]
            else:
                e.cnot(i, j)
        out.append(e)
    return out


@reg.contract(D + ':CNOTDihedral', mode='B', sizes=[{'n': n} for n in (1, 2, 3, 4, 5)], samples=6)
def group_laws(v, n):
    """random elements: circuits, products, inverse, adjoint, conjugate, transpose,
    powers, equality, copies -- as the unitary matrices"""
    from qiskit.quantum_info import Operator
    from qiskit.ignis.verification.randomized_benchmarking import CNOTDihedral
    r = nprng(v)
    a, b, c = (rand_elem(v, r, n) for _ in range(3))
    mat = {}

    def M(e):
        s = semantics(e)
        u = np.zeros((2 ** n, 2 ** n), dtype=complex)
        for x, (ph, y) in s.items():
            u[sum(y[i] << i for i in range(n)), sum(x[i] << i for i in range(n))] = np.exp(1j * np.pi / 4 * int(ph))
        return u
    A, B, C = M(a), M(b), M(c)
    v.ensure('valid', all(e.is_cnotdihedral() for e in (a, b, c)))
    v.ensure('to_circuit', phase_equal(Operator(a.to_circuit()).data, A, 1e-6))
    v.ensure('to_instruction, to_matrix, to_operator', phase_equal(a.to_matrix(), A, 1e-6) and phase_equal(a.to_operator().data, A, 1e-6))
    v.ensure('round trip', CNOTDihedral(a.to_circuit()) == a and CNOTDihedral(a.to_instruction()) == a and a.from_circuit(a.to_circuit()) == a)
    v.ensure('adjoint', phase_equal(M(a.adjoint()), A.conj().T, 1e-6))
    v.ensure('conjugate', phase_equal(M(a.conjugate()), A.conj(), 1e-6))
    v.ensure('transpose', phase_equal(M(a.transpose()), A.T, 1e-6))
    v.ensure('power', phase_equal(M(a.power(3)), A @ A @ A, 1e-6))
    iden = CNOTDihedral(n)
    v.ensure('inverse', a.compose(a.adjoint()) == iden and a.adjoint().compose(a) == iden)
    v.ensure('associative', a.compose(b).compose(c) == a.compose(b.compose(c)))
    v.ensure('identity', a.compose(iden) == a and iden.compose(a) == a)
    v.ensure('compose', phase_equal(M(a.compose(b)), B @ A, 1e-6))
    v.ensure('dot', phase_equal(M(a.dot(b)), A @ B, 1e-6))
    v.ensure('compose in front', phase_equal(M(a.compose(b, front=True)), A @ B, 1e-6))
    v.ensure('product', phase_equal(M(a * b), A @ B, 1e-6) and phase_equal(M(b.__rmul__(a)), A @ B, 1e-6))
    for other in near(v, r, n, a):
        v.ensure('equality is equality of operators', (a == other) == phase_equal(A, M(other), 1e-6), lambda: short((a.key, other.key)))
    v.ensure('equality is equality of operators', (a == b) == phase_equal(A, B, 1e-6))
    cp = CNOTDihedral(a)
    v.ensure('copy', cp == a and cp.num_qubits == n and a.copy() == a)
    from qiskit.quantum_info import ScalarOp
    v.ensure('from an identity ScalarOp', CNOTDihedral(ScalarOp(2 ** n)) == iden)
    for nm, p in (('compose', a.compose(b)), ('dot', a.dot(b))):
        P = M(p)
        v.ensure('product by %s is an element' % nm, p.is_cnotdihedral() and CNOTDihedral(p) == p and p.copy() == p)
        v.ensure('product by %s: operator' % nm, phase_equal(Operator(p.to_circuit()).data, P, 1e-6))
        v.ensure('product by %s: tensor' % nm, p.tensor(c).is_cnotdihedral() and c.tensor(p).is_cnotdihedral())
        v.ensure('product by %s: expand' % nm, p.expand(c).is_cnotdihedral() and c.expand(p).is_cnotdihedral())
        v.ensure('product by %s: tensor and expand agree' % nm, p.tensor(c) == c.expand(p) and c.tensor(p) == p.expand(c))
        i = n - 1
        p.flip(i)
        p.phase(3, i)
        if n > 1:
            p.cnot(i, 0)
        v.ensure('product by %s accepts further gates' % nm, p.is_cnotdihedral())
    v.ensure('element unchanged by all of this', phase_equal(M(a), A, 1e-9))


@reg.contract(D + ':CNOTDihedral; append_circuit', mode='B', sizes=[{'n': n} for n in (1, 2, 3, 4)], samples=8)
def circuits(v, n):
    """random circuits over the generating gates: same operator, and equal
    operators give equal elements"""
    from qiskit import QuantumCircuit
    from qiskit.circuit.library import U1Gate
    from qiskit.quantum_info import Operator
    from qiskit.ignis.verification.randomized_benchmarking import CNOTDihedral
    r = nprng(v)

    def rc():
        c = QuantumCircuit(n)
        for _ in range(r.randint(1, 12)):
            g = r.choice(['x', 'y', 'z', 'id', 'u1'] + (['cx', 'cz'] * 2 if n > 1 else []))
            qs = [int(x) for x in r.permutation(n)[:2 if g[0] == 'c' else 1]]
            if g == 'u1':
                c.append(U1Gate(int(r.randint(-16, 17)) * np.pi / 4), qs)
            else:
                getattr(c, g)(*qs)
        return c
    a, b = rc(), rc()
    ea, eb = CNOTDihedral(a), CNOTDihedral(b)
    v.ensure('same operator', phase_equal(ea.to_matrix(), Operator(a).data, 1e-6))
    v.ensure('product is concatenation', ea.compose(eb) == CNOTDihedral(a.compose(b)))
    v.ensure('inverse circuit', CNOTDihedral(a.inverse()) == ea.adjoint())
    v.ensure('equal exactly for equal operators', (ea == eb) == phase_equal(Operator(a).data, Operator(b).data, 1e-6))


@reg.contract(D + ':CNOTDihedral (rejections)', mode='B', samples=1)
def rejects(v):
    """input outside the group is rejected"""
    from qiskit import QuantumCircuit, QiskitError
    from qiskit.circuit.library import U1Gate, HGate, CZGate, IGate
    from qiskit.quantum_info import Pauli, Operator
    from qiskit.ignis.verification.randomized_benchmarking import CNOTDihedral, random_cnotdihedral
    bad = (QiskitError, ValueError)
    for mk in (lambda c: c.h(0), lambda c: c.ch(0, 1), lambda c: c.append(U1Gate(0.3), [0]), lambda c: c.append(U1Gate(0.7), [2]), lambda c: c.append(U1Gate(-np.pi / 8), [1]),
               lambda c: c.append(U1Gate(0.81 * np.pi), [1]), lambda c: c.rx(0.1, 1), lambda c: c.ccx(0, 1, 2)):
        c = QuantumCircuit(3)
        mk(c)
        v.ensure_raises('gate outside the group', bad, CNOTDihedral, c)
    v.ensure_raises('gate outside the group', bad, CNOTDihedral, HGate())
    for g in (U1Gate(np.pi / 4), CZGate(), IGate(), U1Gate(11 * np.pi / 4)):
        c = QuantumCircuit(g.num_qubits)
        c.append(g, range(g.num_qubits))
        v.ensure('single gates', phase_equal(CNOTDihedral(g).to_matrix(), Operator(c).data, 1e-6))
    v.ensure_raises('different sizes', bad, CNOTDihedral(2).compose, CNOTDihedral(3))
    v.ensure_raises('different sizes', bad, CNOTDihedral(2).dot, CNOTDihedral(3))
    v.ensure_raises('phase out of range', bad, CNOTDihedral(2).phase, 1, 2)
    v.ensure_raises('cnot out of range', bad, CNOTDihedral(2).cnot, 0, -1)
    v.ensure_raises('flip out of range', bad, CNOTDihedral(2).flip, 2)
    e = CNOTDihedral(2)
    e.poly.weight_2[0] = 3
    v.ensure('odd quadratic coefficient is not in the group', not e.is_cnotdihedral())
    e = CNOTDihedral(2)
    e.linear[:] = [[1, 1], [1, 1]]
    v.ensure('singular linear part is not in the group', not e.is_cnotdihedral())
    for lab in ('X', 'YZ', 'IXZ'):
        v.ensure('Pauli operators', phase_equal(CNOTDihedral(Pauli(lab)).to_matrix(), Operator(Pauli(lab)).data, 1e-7))
    v.ensure('reproducible', random_cnotdihedral(3, seed=5) == random_cnotdihedral(3, seed=5))
    a, b = random_cnotdihedral(9, seed=1), random_cnotdihedral(9, seed=2)
    r = a.compose(b)
    wa, wb, wr = weights(a.poly), weights(b.poly), weights(r.poly)
    for i in range(40):
        x = tuple((i * 37 + 11 * i * i) >> k & 1 for k in range(9))
        y = image(a.linear, a.shift, x)
        z = (0,) * 9
        y0 = image(a.linear, a.shift, z)
        v.ensure('nine qubits', (value(wr, x) - value(wr, z) - value(wa, x) - value(wb, y) + value(wa, z) + value(wb, y0)) % 8 == 0 and
                 image(r.linear, r.shift, x) == image(b.linear, b.shift, y))
