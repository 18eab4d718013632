"""C14 error-budget utilities of randomized benchmarking follow their formulas"""
from contracts.common import *
from pyvc.core import short

reg = Registry('C14')
reg.assumptions += ['floats treated as reals',
                    'exp(x+y) = exp(x) exp(y), exp > 0 (proof of coherence_limit)',
                    'x ** y for a non-integer number of gates is an uninterpreted function of (x, y)',
                    'circuit data: (instruction with a name, qubits with an index, clbits) per operation']
R = IG + 'verification.randomized_benchmarking.rb_utils'


def rbu():
    import qiskit.ignis.verification.randomized_benchmarking.rb_utils as m
    return m


# --------------------------------------------------------- coherence limit
class ExpStandin:
    """exp of minus a sum of c_i t / T_i (c_i small naturals) as a product of
    positive unknowns exp(-t/T_i)"""

    def __init__(self, v, t, times):
        self.t = t
        self.times = times
        self.val = []
        for i in range(len(times)):
            x = v.real('e%d' % i, 0, 1)
            v.require(x > 0)
            self.val.append(x)

    def __call__(self, x):
        n = len(self.times)
        for c in sorted(itertools.product(range(3), repeat=n), key=sum):
            s = sum((k * self.t / T for k, T in zip(c, self.times) if k), 0)
            tot = x + s
            if not is_sym(tot):
                if tot == 0:
                    return self.prod(c)
                continue
            if core.poly_identity(core.term(tot, True) == 0):
                return self.prod(c)
        raise Unsupported('exp of %s' % short(x))

    def prod(self, c):
        p = 1
        for k, e in zip(c, self.val):
            p = p * e ** k
        return p


def relaxation_error(ea, eb):
    """1 - average gate fidelity of independent relaxation of n qubits with
    e^(-t/T1) = ea[i], e^(-t/T2) = eb[i]: Pauli transfer matrix of one qubit has
    diagonal (1, e2, e2, e1); F_avg = (d F_pro + 1)/(d + 1)"""
    n = len(ea)
    d = 2 ** n
    tr = 1
    for a, b in zip(ea, eb):
        tr = tr * (1 + 2 * b + a)
    return 1 - (tr / d + 1) / (d + 1)          # F_pro = tr/d^2


@reg.contract(R + ':coherence_limit', mode='F', sizes=[{'n': n, 'dflt': f} for n in (1, 2) for f in (False, True)], mods=[R], samples=10)
def limit(v, n, dflt):
    """1 - average fidelity of the relaxation channel"""
    t = v.real('t', 0.001, None if v.symbolic else 5)
    T1 = [v.real('T1_%d' % i, 0.5, None if v.symbolic else 60) for i in range(n)]
    T2 = [2 * x for x in T1] if dflt else [v.real('T2_%d' % i, 0.5, None if v.symbolic else 60) for i in range(n)]
    if v.symbolic:
        ex = ExpStandin(v, t, T1 if False else (T2 if dflt else T1 + T2))
        v.standin('exp', ex)
        if dflt:                            # e^(-t/T1) = (e^(-t/2T1))^2
            ea, eb = [x ** 2 for x in ex.val], ex.val
        else:
            ea, eb = ex.val[:n], ex.val[n:]
    else:
        ea, eb = [math.exp(-t / x) for x in T1], [math.exp(-t / x) for x in T2]
    a, b = list(T1), list(T2)
    got = rbu().coherence_limit(n, a, None if dflt else b, t)
    v.ensure('error of the relaxation channel', v.eq(got, relaxation_error(ea, eb), 1e-12), lambda: short((got, ea, eb)))
    v.ensure('inputs unchanged', len(a) == n and all(x is y for x, y in zip(a + b, T1 + T2)))


@reg.contract(R + ':coherence_limit (defaults, rejection)', mode='B', sizes=[{'case': c} for c in ('default', 'short', 'long', 'T2', 'n3', 'n0')], samples=3)
def limit_reject(v, case):
    """invalid numbers of qubits or times are rejected"""
    f = rbu().coherence_limit
    T = [v.real('T%d' % i, 1, 60) for i in range(6)]
    if case == 'default':
        e1, e2 = [math.exp(-0.1 / x) for x in T[:2]], [math.exp(-0.1 / x) for x in T[2:4]]
        v.ensure('two qubits, gate of 0.1 by default', abs(f(T1_list=T[:2], T2_list=T[2:4]) - relaxation_error(e1, e2)) < 1e-12)
    elif case == 'short':
        v.ensure_raises('too few times', ValueError, f, 2, T[:1], T[:1], 0.1)
        v.ensure_raises('too few times', ValueError, f, 2, T[:1], None, 0.1)
    elif case == 'long':
        v.ensure_raises('too many times', ValueError, f, 1, T[:2], T[:2], 0.1)
    elif case == 'T2':
        v.ensure_raises('too few T2', ValueError, f, 2, T[:2], T[:1], 0.1)
        v.ensure_raises('too many T2', ValueError, f, 1, T[:1], T[:2], 0.1)
    elif case == 'n3':
        v.ensure_raises('three qubits', ValueError, f, 3, T[:3], T[3:], 0.1)
    else:
        v.ensure_raises('no qubits', ValueError, f, 0, [], [], 0.1)


# ------------------------------------------------- errors per gate / Clifford
QB = [0, 3, 1]
GATES = ['u1', 'u2', 'u3', 'cx', 'cz']


def counts_per_gate(v, qubits, gates, lo=0.05):
    """arbitrary gate counts per Clifford"""
    if v.symbolic:
        return {q: {g: v.real('n_%d_%s' % (q, g), lo) for g in gates} for q in qubits}
    return {q: {g: v.real('n_%d_%s' % (q, g), lo, 4) for g in gates} for q in qubits}


def rate(v, name):
    return v.real(name, 0, 0.1)


def frozen(v, *objs):
    import copy
    keep = copy.deepcopy(objs)
    return lambda: v.ensure('inputs unchanged', v.eq(list(keep), list(objs), 0))


def power(x, n):
    return x ** n


@reg.contract(R + ':calculate_1q_epg', mode='F', sizes=[{}], mods=[R], samples=10)
def epg1(v):
    """u3 has twice the error of u2, u1 none, and they add up to the error of
    the Clifford"""
    n = counts_per_gate(v, QB, ['u1', 'u2', 'u3'])
    e = rate(v, 'epc')
    q = v.choice('q', QB)
    zero_cx = v.choice('cx', [None, 0])
    if zero_cx is not None:
        n[q]['cx'] = 0
        n[QB[(QB.index(q) + 1) % 3]]['cx'] = 1
    ok = frozen(v, n)
    out = rbu().calculate_1q_epg(n, e, q)
    v.ensure('gates', set(out) == {'u1', 'u2', 'u3'})
    v.ensure('u1 is virtual', out['u1'] == 0)
    v.ensure('u3 twice u2', v.eq(out['u3'], 2 * out['u2'], 1e-12))
    v.ensure('total error', v.eq(out['u2'] * n[q]['u2'] + out['u3'] * n[q]['u3'], e, 1e-12))
    ok()


@reg.contract(R + ':calculate_1q_epc', mode='F', sizes=[{'given': g} for g in (['u1', 'u2', 'u3'], ['u2'], ['u3', 'u2', 'id'], [])], mods=[R], samples=6)
def epc1(v, given):
    """1 - product of gate fidelities"""
    n = counts_per_gate(v, QB, ['u1', 'u2', 'u3'], 0)
    e = {g: rate(v, 'e_' + g) for g in given}
    q = v.choice('q', QB)
    ok = frozen(v, n, e)
    out = rbu().calculate_1q_epc(n, e, q)
    fid = 1
    for g in given:
        if g in n[q]:
            fid = fid * power(1 - e[g], n[q][g])
    v.ensure('1 - product of fidelities of the gates of this qubit', v.eq(out, 1 - fid, 1e-12))
    ok()


@reg.contract(R + ':calculate_1q_epc (integer counts)', mode='F', sizes=[{'nn': x} for x in ((0, 1, 2), (3, 0, 1), (0, 0, 0))], mods=[R], rsizes=[], samples=0)
def epc1_int(v, nn):
    """whole numbers of gates: powers are products"""
    e = {g: rate(v, 'e_' + g) for g in ('u1', 'u2', 'u3')}
    out = rbu().calculate_1q_epc({5: dict(zip(('u1', 'u2', 'u3'), nn)), 4: {'u1': 9, 'u2': 9, 'u3': 9}}, e, 5)
    fid = 1
    for g, k in zip(('u1', 'u2', 'u3'), nn):
        for _ in range(k):
            fid = fid * (1 - e[g])
    v.ensure('1 - product of fidelities', seq(out, 1 - fid))


def alpha_of(v, n, q, e):
    """depolarising parameter of the single qubit gates of one qubit"""
    a = 1
    for g, x in e.items():
        if g in n[q]:
            a = a * power(1 - 2 * x, n[q][g])
    return a


PAIRS = [[0, 3], [3, 0], [1, 3]]
GIVEN = [(['u1', 'u2', 'u3'], ['u1', 'u2', 'u3']), (['u2'], ['u3', 'sx']), ([], ['u2']), (['u2'], []), None, (['u2'],)]


@reg.contract(R + ':calculate_2q_epg', mode='F', sizes=[{'given': g, 'gate': t} for g in GIVEN for t in ('cx', 'cz', None)], mods=[R], samples=4)
def epg2(v, given, gate):
    """the two-qubit error left when the one-qubit depolarisation is divided out"""
    n = counts_per_gate(v, QB, GATES)
    name = gate or 'cx'
    e = [{g: rate(v, 'e%d_%s' % (i, g)) for g in x} for i, x in enumerate(given or ())]
    epc = rate(v, 'epc')
    pair = v.choice('pair', PAIRS)
    ok = frozen(v, n, e)
    kw = {} if gate is None else {'two_qubit_name': gate}
    al = [alpha_of(v, n, q, x) for q, x in zip(pair, e)] + [1, 1]
    a1 = (al[0] + al[1] + 3 * al[0] * al[1]) / 5
    if v.symbolic:
        v.require(a1 > 0)
    out = rbu().calculate_2q_epg(n, epc, list(pair), *([] if given is None else [e]), **kw)
    # (1 - 4/3 epg N) a1 = 1 - 4/3 epc
    v.ensure('total depolarisation', v.eq((1 - 4 * out * n[pair[0]][name] / 3) * a1, 1 - 4 * epc / 3, 1e-12), lambda: short((out, n, e, epc)))
    ok()


@reg.contract(R + ':calculate_2q_epc', mode='F', sizes=[{'given': g, 'gate': t} for g in GIVEN if g is not None for t in ('cx', 'cz', None)], mods=[R], samples=4)
def epc2(v, given, gate):
    """depolarisation of all gates of the Clifford"""
    n = counts_per_gate(v, QB, GATES)
    name = gate or 'cx'
    e = [{g: rate(v, 'e%d_%s' % (i, g)) for g in x} for i, x in enumerate(given)]
    e2 = rate(v, 'e2')
    pair = v.choice('pair', PAIRS)
    ok = frozen(v, n, e)
    kw = {} if gate is None else {'two_qubit_name': gate}
    out = rbu().calculate_2q_epc(n, e2, list(pair), e, **kw)
    al = [alpha_of(v, n, q, x) for q, x in zip(pair, e)] + [1, 1]
    a1 = (al[0] + al[1] + 3 * al[0] * al[1]) / 5
    v.ensure('total depolarisation', v.eq(1 - 4 * out / 3, a1 * power(1 - 4 * e2 / 3, n[pair[0]][name]), 1e-12), lambda: short((out, n, e, e2)))
    ok()


@reg.contract(R + ':calculate_2q_epg; calculate_2q_epc', mode='F', sizes=[{}], mods=[R], samples=10)
def inverse2(v):
    """with one two-qubit gate per Clifford the two conversions are inverse"""
    n = counts_per_gate(v, QB, ['u2', 'u3'])
    pair = v.choice('pair', PAIRS)
    for q in QB:
        n[q]['cx'] = 1
    e = [{g: rate(v, 'e%d_%s' % (i, g)) for g in ('u2', 'u3')} for i in range(2)]
    e2 = rate(v, 'e2')
    if v.symbolic:
        al = [alpha_of(v, n, q, x) for q, x in zip(pair, e)]
        for a in al:
            v.require(a > 0)
    back = rbu().calculate_2q_epg(n, rbu().calculate_2q_epc(n, e2, pair, e), pair, e)
    v.ensure('inverse', v.eq(back, e2, 1e-9))


@reg.contract(R + ':calculate_1q_epg; calculate_1q_epc; calculate_2q_epg; calculate_2q_epc (rejection)', mode='B', sizes=[{}], samples=10)
def reject(v):
    """qubits, gates and pairs that are not there"""
    from qiskit import QiskitError
    m = rbu()
    n = counts_per_gate(v, [0, 3], ['u1', 'u2', 'u3'])
    e = [{'u2': 0.01}, {'u3': 0.02}]
    v.ensure_raises('unknown qubit', QiskitError, m.calculate_1q_epg, n, 0.1, 1)
    v.ensure_raises('unknown qubit', QiskitError, m.calculate_1q_epc, n, e[0], 2)
    v.ensure_raises('no two-qubit gate', QiskitError, m.calculate_2q_epg, n, 0.1, [0, 3], e)
    v.ensure_raises('no two-qubit gate', QiskitError, m.calculate_2q_epc, n, 0.1, [0, 3], e)
    n2 = {q: dict(x, cx=1.5) for q, x in n.items()}
    v.ensure_raises('two-qubit gate in one-qubit sequence', QiskitError, m.calculate_1q_epg, n2, 0.1, 0)
    for pair in ([0], [0, 3, 0], [], [0, 1], [1, 0]):
        v.ensure_raises('pair', QiskitError, m.calculate_2q_epg, n2, 0.1, pair, e)
        v.ensure_raises('pair', QiskitError, m.calculate_2q_epc, n2, 0.1, pair, e)
    v.ensure_raises('other two-qubit gate', QiskitError, m.calculate_2q_epg, n2, 0.1, [0, 3], e, 'cz')
    v.ensure_raises('other two-qubit gate', QiskitError, m.calculate_2q_epc, n2, 0.1, [0, 3], e, 'cz')
    for drop in ('u2', 'u3'):
        n3 = {0: {k: x for k, x in n[0].items() if k != drop}, 3: n[3]}
        v.ensure_raises('basis', QiskitError, m.calculate_1q_epg, n3, 0.1, 0)


@reg.contract(R + ':twoQ_clifford_error', mode='F', sizes=[{'order': o, 'missing': x} for o in ([0, 3], [3, 0]) for x in ([], ['u1'], ['u2', 'u3'])],
              rsizes=[{'order': [3, 0], 'missing': []}, {'order': [0, 3], 'missing': ['u1']}], mods=[R], samples=6)
def clifford_error(v, order, missing):
    """error of a two-qubit Clifford from gate errors (older interface)"""
    import warnings
    names = [g for g in ('u1', 'u2', 'u3', 'cx') if g not in missing]
    n = counts_per_gate(v, order, names)
    err = [rate(v, 'g%d' % i) for i in range(7)]
    place = v.choice('place', [[0, 0, 0, 1, 1, 1, -1], [1, 1, 1, 0, 0, 0, -1]])
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        out = rbu().twoQ_clifford_error(n, list(place), list(err))
    al = [1, 1, 1]
    for i, (q, g) in enumerate(((0, 'u1'), (0, 'u2'), (0, 'u3'), (3, 'u1'), (3, 'u2'), (3, 'u3'), (0, 'cx'))):
        if g in n[q]:
            al[place[i]] = al[place[i]] * power(1 - (2 if place[i] != -1 else 4 / 3) * err[i], n[q][g])
    a = (al[0] + al[1] + 3 * al[0] * al[1]) / 5 * al[2]
    v.ensure('depolarisation of all gates', v.eq(1 - 4 * out / 3, a, 1e-12), lambda: short((out, n, err)))


@reg.contract(R + ':twoQ_clifford_error (rejection)', mode='B', samples=3)
def clifford_error_reject(v):
    from qiskit import QiskitError
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        for qs in ([0], [0, 1, 2]):
            v.ensure_raises('two qubits', QiskitError, rbu().twoQ_clifford_error, counts_per_gate(v, qs, ['u1', 'u2', 'u3', 'cx']), [0, 0, 0, 1, 1, 1, -1], [0.01] * 7)


# ----------------------------------------------------------------- counting
OPS = [('u1', 1), ('u2', 1), ('u3', 1), ('cx', 2), ('barrier', 0), ('measure', 1), ('cz', 2), ('cx_1', 2), ('u2_a', 1)]


def random_ops(v, n, num, tag):
    """list of (name, qubits)"""
    out = []
    for i in range(num):
        name, k = v.choice('%s_%d' % (tag, i), OPS)
        if k == 0:
            out.append((name, list(range(n))))
        else:
            q = v.choice('%s_%d_q' % (tag, i), list(range(n)))
            qs = [q]
            if k == 2:
                qs.append((q + 1 + v.choice('%s_%d_r' % (tag, i), list(range(n - 1)))) % n)
            out.append((name, qs))
    return out


def circuit_of(ops, n):
    from qiskit import QuantumCircuit
    from qiskit.circuit import Gate
    c = QuantumCircuit(n, n)
    for name, qs in ops:
        if name == 'barrier':
            c.barrier(qs)
        elif name == 'measure':
            c.measure(qs, qs)
        elif name in ('cx', 'cz'):
            getattr(c, name)(*qs)
        elif '_' in name or name.isupper():
            c.append(Gate(name, len(qs), []), qs)      # a gate outside the basis with a similar name
        else:
            getattr(c, 'p' if False else name)(*([0.1, 0.2, 0.3][:int(name[1])] + qs))
    return c


@reg.contract(R + ':gates_per_clifford; count_gates', mode='B', sizes=[{'n': n, 'kind': k} for n in (2, 3, 5) for k in ('circuit', 'qobj', 'count')], samples=6)
def counting(v, n, kind):
    """every gate once for each of its qubits, divided by the number of
    Clifford elements including the inverses"""
    import warnings
    from qiskit.compiler import assemble
    from qiskit import QiskitError
    nseeds = v.choice('nseeds', [1, 2, 3])
    lens = v.choice('lens', [[1], [1, 4], [2, 5, 9]])
    ops = [[random_ops(v, n, 1 + 3 * v.choice('len%d_%d' % (s, k), [0, 1, 3]), 'op%d_%d' % (s, k)) for k in range(len(lens))] for s in range(nseeds)]
    basis = v.choice('basis', [['u1', 'u2', 'u3', 'cx'], ['cx', 'u2'], ['cz', 'u3', 'x']])
    qubits = v.choice('qubits', [[0, 1], [1, 0], list(range(n)), [n - 1]])
    circs = [[circuit_of(o, n) for o in row] for row in ops]
    num = lambda rows, q, g: sum(1 for row in rows for o in row for name, qs in o if name == g and q in qs)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        if kind == 'count':
            got = rbu().count_gates(assemble(circs[0]), basis, qubits)
            v.ensure('shape', got.shape == (len(lens), len(qubits), len(basis)))
            for i in range(len(lens)):
                for j, q in enumerate(qubits):
                    for k, g in enumerate(basis):
                        v.ensure('gate count', got[i][j][k] == num([[ops[0][i]]], q, g))
            return
        data = circs if kind == 'circuit' else [assemble(x) for x in circs]
        form = v.choice('form', [list, np.array])
        got = rbu().gates_per_clifford(data, form(lens), basis, qubits)
        tot = nseeds * sum(x + 1 for x in lens)
        v.ensure('qubits', set(got) == set(qubits))
        for q in qubits:
            v.ensure('gates', set(got[q]) == set(basis))
            for g in basis:
                v.ensure('gates per Clifford', abs(got[q][g] - num(ops, q, g) / tot) < 1e-12, lambda: short((q, g, got, ops)))
        v.ensure_raises('not a circuit', QiskitError, rbu().gates_per_clifford, [['x']], lens, basis, qubits)


class FakeOp:
    def __init__(self, name):
        self.name = name


class FakeQubit:
    def __init__(self, index):
        self.index = index


@reg.contract(R + ':gates_per_clifford', mode='S', sizes=[{'ns': s, 'nl': l, 'no': o} for s, l, o in ((1, 1, 2), (2, 1, 1), (1, 2, 1), (1, 1, 3))], rsizes=[], mods=[R], samples=0, budget=100,
              extra={'QuantumCircuit': type('Circ', (), {}), 'QasmQobj': type('Qobj', (), {})}, replay=False)
def counting_sym(v, ns, nl, no):
    """arbitrary lengths; gates and qubits enumerated"""
    circ = rbu().QuantumCircuit
    lens = [v.int('len%d' % i, 1) for i in range(nl)]
    data, ops = [], []
    for s in range(ns):
        row = []
        for k in range(nl):
            c = circ()
            c.data = []
            for o in range(no):
                name, qs = v.choice('op%d_%d_%d' % (s, k, o), [('u2', [0]), ('u3', [2]), ('cx', [0, 1]), ('cx', [2, 0]), ('barrier', [0, 1, 2]), ('cx_2', [2, 1]), ('u20', [0]), ('U2', [2])])
                c.data.append((FakeOp(name), [FakeQubit(q) for q in qs], []))
                ops.append((name, qs))
            row.append(c)
        data.append(row)
    got = rbu().gates_per_clifford(data, lens, ['u2', 'cx'], [2, 0])
    tot = ns * sum(x + 1 for x in lens)
    v.ensure('keys', set(got) == {0, 2} and all(set(x) == {'u2', 'cx'} for x in got.values()))
    for q in (0, 2):
        for g in ('u2', 'cx'):
            v.ensure('gates per Clifford', seq(got[q][g] * tot, sum(1 for name, qs in ops if name == g and q in qs)))
