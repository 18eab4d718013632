"""C10 gate set tomography circuits and linear inversion"""
from ast import literal_eval
from contracts.common import *
from pyvc.core import short

reg = Registry('C10')
reg.assumptions += ['floats treated as reals', 'numpy.linalg.inv is the inverse of a nonsingular matrix',
                    'qiskit PTM(gate) is the Pauli transfer matrix of the gate',
                    'scipy.optimize.minimize is run-time evaluated only']
T = IG + 'verification.tomography.'
GB, GF = T + 'basis.gatesetbasis', T + 'fitters.gateset_fitter'

PAULI = [np.eye(2), np.array([[0, 1], [1, 0]]), np.array([[0, -1j], [1j, 0]]), np.diag([1, -1])]


def ptm(u):
    return np.array([[np.trace(p @ u @ q @ u.conj().T).real / 2 for q in PAULI] for p in PAULI])


def vec(rho):
    return np.array([[np.trace(p @ rho).real / np.sqrt(2)] for p in PAULI])


class FakePTM:
    """stand-in for qiskit.quantum_info.PTM in symbolic runs"""
    def __init__(self, data):
        self.data = data.data if isinstance(data, FakePTM) else data


class FakeBasis:
    def __init__(self, spam, gates):
        self.spam_labels = tuple(spam)
        self.gate_labels = list(gates)


@reg.contract(GF + ':GatesetTomographyFitter.linear_inversion', mode='S', sizes=[{'m': 1}, {'m': 2}], rsizes=[], mods=[GF], samples=0,
              extra={'PTM': FakePTM}, budget=120, replay=False)
def inversion_exact(v, m):
    """two spam sequences: the result is B^-1 G B, E B, B^-1 rho with B = (F_j rho)
    (checked as B X = G B), for all matrices F, G, E, rho with invertible Gram matrix"""
    from qiskit.ignis.verification.tomography import GatesetTomographyFitter
    f = [np.array([[1, 0], [0, 1]], dtype=object), v.array('f', (2, 2), lo=0.1, hi=1)]
    e, rho = v.array('e', (1, 2), lo=0.1, hi=1), v.array('rho', (2, 1), lo=0.1, hi=1)
    labels = ['G%d' % i for i in range(m)]
    g = {l: v.array(l, (2, 2), lo=0.1, hi=1) for l in labels}
    spam = ('F0', 'F1')
    fm = dict(zip(spam, f))
    if v.choice('order', [False, True]):
        spam = spam[::-1]
    data = []
    for a in spam:
        data.append(((a,), (e @ fm[a] @ rho)[0, 0]))
        for b in spam:
            data.append(((b, a), (e @ fm[a] @ fm[b] @ rho)[0, 0]))
            for l in labels:
                data.append(((b, l, a), (e @ fm[a] @ g[l] @ fm[b] @ rho)[0, 0]))
    shots = 1
    named = [(str(k), {'0': p, '1': shots - p}) for k, p in data]
    fit = GatesetTomographyFitter([FakeResult(named)], [n for n, _ in named], FakeBasis(spam, labels))
    b = np.concatenate([fm[a] @ rho for a in spam], axis=1)
    def inv(a):
        # precondition of the contract: the Gram matrix is invertible
        det = (a[0, 0] * a[1, 1] - a[0, 1] * a[1, 0])
        q = lambda x: core.Sym(core.term(x, True) / core.term(det, True))
        return np.array([[q(a[1, 1]), q(-a[0, 1])], [q(-a[1, 0]), q(a[0, 0])]], dtype=object)
    v.inverse_is(inv)
    res = fit.linear_inversion()
    v.ensure('one matrix per gate, E and rho', set(res) == set(labels) | {'E', 'rho'})
    for l in labels:
        v.ensure_eq('gate in the gauge of the spam sequences', b @ res[l].data, g[l] @ b)
    v.ensure_eq('E in that gauge', np.asarray(res['E']), e @ b)
    v.ensure_eq('rho in that gauge', b @ np.asarray(res['rho']), rho)


@reg.contract(GF + ':GatesetTomographyFitter.linear_inversion', mode='S', sizes=[{'n': 2, 'm': 1}, {'n': 3, 'm': 2}, {'n': 4, 'm': 3}], rsizes=[],
              mods=[GF], samples=0, extra={'PTM': FakePTM}, replay=False)
def inversion_structure(v, n, m):
    """any number of sequences: the Gram matrix handed to the inverse and the
    products formed with it, for arbitrary probabilities"""
    from qiskit.ignis.verification.tomography import GatesetTomographyFitter
    spam = tuple('F%d' % i for i in range(n))
    labels = ['G%d' % i for i in range(m)]
    keys = [(a,) for a in spam] + list(itertools.product(spam, spam)) + list(itertools.product(spam, labels, spam))
    p = {k: v.real('_'.join(k), 0, 1) for k in keys}
    if v.choice('rev', [False, True]):
        keys = keys[::-1]
    shots = v.int('shots', 1)
    named = [(str(k), {'1': shots - shots * p[k], '0': shots * p[k]}) for k in keys]
    x = v.array('x', (n, n), lo=0.1, hi=1)
    seen = []

    def inv(a):
        seen.append(a)
        return x
    v.inverse_is(inv)
    res = GatesetTomographyFitter([FakeResult(named)], [c for c, _ in named], FakeBasis(spam, labels)).linear_inversion()
    if not seen:
        raise Unsupported('inverse computed elsewhere')
    v.ensure('one inverse', len(seen) == 1 and np.shape(seen[0]) == (n, n))
    for i, j in itertools.product(range(n), repeat=2):
        v.ensure_eq('Gram matrix: row = measurement sequence, column = preparation', seen[0][i, j], p[spam[j], spam[i]])
        for l in labels:
            v.ensure_eq('gate matrix = inverse Gram times data', res[l].data[i, j],
                        sum(x[i, k] * p[spam[j], l, spam[k]] for k in range(n)))
    for i in range(n):
        v.ensure_eq('E', res['E'][0][i], p[(spam[i],)])
        v.ensure_eq('rho', res['rho'][i][0], sum(x[i, k] * p[(spam[k],)] for k in range(n)))


def random_basis(v, r, nspam=4):
    """a basis of random unitary gates and random sequences"""
    from qiskit.extensions import UnitaryGate
    from qiskit.ignis.verification.tomography.basis import GateSetBasis
    us = {'g%d' % i: random_unitary(r, 2) for i in range(3)}
    us['Id'] = np.eye(2)
    gates = {k: (UnitaryGate(u) if k != 'g1' else (lambda c, q, u=u: c.append(UnitaryGate(u), [q]))) for k, u in us.items() if k != 'Id'}
    gates['Id'] = lambda c, q: None
    spam = {}
    with_id = r.rand() < 0.5
    for i in range(nspam):
        k = int(r.choice([1, 1, 2, 3, 4, 6]))
        spam['F%d' % i] = tuple('g%d' % x for x in r.randint(0, 3, k)) if i or not with_id else ('Id',)
    return GateSetBasis('rand', gates, spam), us


def seq_unitary(us, names):
    u = np.eye(2)
    for n in names:
        u = us[n] @ u
    return u


@reg.contract(GB + ':GateSetBasis', mode='B', sizes=[{}], samples=25)
def basis_matrices(v):
    """the matrices of gates and spam sequences are those of the circuits"""
    from qiskit import QuantumRegister, ClassicalRegister
    from qiskit.circuit.library import HGate
    from qiskit.quantum_info import Operator
    r = nprng(v)
    b, us = random_basis(v, r)
    if v.choice('add', [True, False]):
        b.add_gate(HGate())
        us['h'] = np.array([[1, 1], [1, -1]]) / np.sqrt(2)
        b.add_gate(lambda c, q: c.s(q), name='phase')
        us['phase'] = np.diag([1, 1j])
        v.ensure('added gates are listed last', list(b.gate_labels)[-2:] == ['h', 'phase'])
        from qiskit.extensions import UnitaryGate
        us['own'] = random_unitary(r, 2)
        b.add_gate(UnitaryGate(us['own']), name='own')
        if v.choice('again', [True, False]):
            b.add_gate(lambda c, q: c.sdg(q), name='phase')
            us['phase'] = np.diag([1, -1j])
        v.ensure_raises('a callable needs a name', RuntimeError, b.add_gate, lambda c, q: None)
    v.ensure('gate labels', set(b.gate_labels) == set(us))
    v.ensure('spam labels', tuple(b.spam_labels) == tuple(sorted(b.spam_spec)))
    for k in b.gate_labels:
        v.ensure('gate matrix', np.max(np.abs(b.gate_matrices[k] - ptm(us[k]))) < 1e-8)
        v.ensure('gate matrix by label', np.max(np.abs(b.preparation_matrix(k) - ptm(us[k]))) < 1e-8 and
                 np.max(np.abs(b.measurement_matrix(k) - ptm(us[k]))) < 1e-8)
    q, c = QuantumRegister(2, 'q'), ClassicalRegister(1, 'c')
    for k in b.spam_labels:
        u = seq_unitary(us, b.spam_spec[k])
        v.ensure('spam matrix is that of the sequence', np.max(np.abs(b.spam_matrix(k) - ptm(u))) < 1e-8, lambda: repr(b.spam_spec[k]))
        circ = b.preparation_circuit(k, q[1])
        v.ensure('preparation circuit applies the sequence', phase_equal(Operator(circ).data, np.kron(u, np.eye(2))))
        mc = b.measurement_circuit(k, q[1], c[0])
        v.ensure('measurement circuit applies the sequence and measures', phase_equal(unitary(mc), np.kron(u, np.eye(2))) and measure_map(mc) == [(1, 0)])
    v.ensure_raises('unknown sequence', RuntimeError, b.preparation_circuit, 'nope', q[0])
    tb = b.get_tomography_basis()
    v.ensure('tomography basis has the spam labels', tuple(tb.measurement_labels) == tuple(b.spam_labels) and
             tuple(tb.preparation_labels) == tuple(b.spam_labels))


@reg.contract(GB + ':default_gateset_basis', mode='F', sizes=[{}], samples=1)
def default_basis(v):
    """the default gates are Id, X90, Y90 up to phase; its sequences are
    informationally complete"""
    from qiskit.ignis.verification.tomography.basis import default_gateset_basis
    b = default_gateset_basis()
    s = 1 / np.sqrt(2)
    want = {'Id': np.eye(2), 'X_Rot_90': s * (PAULI[0] - 1j * PAULI[1]), 'Y_Rot_90': s * (PAULI[0] - 1j * PAULI[2])}
    v.ensure('gates', set(b.gate_labels) == set(want))
    for k, u in want.items():
        alt = [ptm(u), ptm(u.conj().T)]
        v.ensure('quarter turns', any(np.allclose(b.gate_matrices[k], a, atol=1e-9) for a in alt))
    rho = vec(np.diag([1, 0]))
    B = np.concatenate([b.spam_matrix(l) @ rho for l in b.spam_labels], axis=1)
    A = np.concatenate([rho.T @ b.spam_matrix(l) for l in b.spam_labels], axis=0)
    v.ensure('sequences are informationally complete', B.shape == (4, 4) and np.linalg.matrix_rank(B) == 4 and np.linalg.matrix_rank(A) == 4)


def opaque_basis(spec, ngates):
    from qiskit.circuit import Gate
    from qiskit.ignis.verification.tomography.basis import GateSetBasis

    class B2(GateSetBasis):
        def _gate_matrix(self, gate):
            return np.eye(4)
    return B2('op', {'g%d' % i: Gate('g%d' % i, 1, []) for i in range(ngates)}, spec)


@reg.contract(T + 'basis.circuits:gateset_tomography_circuits', mode='S',
              sizes=[{'spec': {'F0': ('g0',), 'F1': ('g1', 'g0')}, 'q': 0}, {'spec': {'F0': ('g0',), 'F1': ('g0', 'g1', 'g1'), 'F2': ('g2',)}, 'q': 2},
                     {'spec': {'B': ('g1', 'g2'), 'A': ('g2', 'g1')}, 'q': 1}], samples=1)
def circuits(v, spec, q):
    """for arbitrary gates (opaque): one circuit per (prep, gate, meas), (prep, meas)
    and (meas), applying exactly those gates in order on the qubit, then measuring"""
    from qiskit.ignis.verification.tomography import gateset_tomography_circuits
    b = opaque_basis(spec, 3)
    circs = gateset_tomography_circuits([q], b)
    got = {}
    for c in circs:
        name = literal_eval(c.name)
        v.ensure('every label once', name not in got)
        qi = {x: i for i, x in enumerate(c.qubits)}
        ops = [(op.name, [qi[x] for x in qs]) for op, qs, _ in c.data if op.name not in ('barrier', 'measure', 'id')]
        v.ensure('only the listed qubit', all(qs == [q] for _, qs in ops))
        v.ensure('measured into bit 0 at the end', measure_map(c) == [(q, 0)] and [x for x in c.data if x[0].name != 'barrier'][-1][0].name == 'measure')
        got[name] = [n for n, _ in ops]
    want = {}
    for m in spec:
        want[(m,)] = list(spec[m])
        for p in spec:
            want[(p, m)] = list(spec[p]) + list(spec[m])
            for g in b.gate_labels:
                want[(p, g, m)] = list(spec[p]) + [g] + list(spec[m])
    v.ensure('all combinations', set(got) == set(want))
    v.ensure('gates in order: preparation, gate, measurement sequence', got == want)


@reg.contract(T + 'basis.circuits:gateset_tomography_circuits', mode='B', samples=1)
def rejects(v):
    """only one qubit; default arguments"""
    from qiskit import QiskitError
    from qiskit.ignis.verification.tomography import gateset_tomography_circuits
    v.ensure_raises('two qubits', QiskitError, gateset_tomography_circuits, [0, 1])
    c = gateset_tomography_circuits()
    v.ensure('default: 3 gates, 4 sequences', len(c) == 4 + 16 + 48 and len({x.name for x in c}) == 68)


def exact_data(v, r, b, us, noise):
    """exact probabilities of '0' with noise channel after every gate except Id"""
    rho = vec(np.diag([1, 0]))
    e = rho.T
    mats = {k: (noise @ ptm(u) if k != 'Id' else ptm(u)) for k, u in us.items()}
    f = {}
    for l in b.spam_labels:
        m = np.eye(4)
        for g in b.spam_spec[l]:
            m = mats[g] @ m
        f[l] = m
    return rho, e, mats, f


@reg.contract(GF + ':GatesetTomographyFitter.linear_inversion (one qubit)', mode='B', sizes=[{'which': 'default'}, {'which': 'random'}], samples=8)
def inversion_runs(v, which):
    """circuits -> exact counts -> linear inversion equals B^-1 G B"""
    from qiskit.ignis.verification.tomography import gateset_tomography_circuits, GatesetTomographyFitter
    from qiskit.ignis.verification.tomography.basis import default_gateset_basis
    r = nprng(v)
    rho = vec(np.diag([1, 0]))
    for _ in range(60):
        if which == 'random':
            b, us = random_basis(v, r)
            mats = {k: ptm(u) for k, u in us.items()}
        else:
            b = default_gateset_basis()
            mats = {k: np.array(b.gate_matrices[k]) for k in b.gate_labels}
        f = {}
        for l in b.spam_labels:
            m = np.eye(4)
            for g in b.spam_spec[l]:
                m = mats[g] @ m
            f[l] = m
        B = np.concatenate([f[l] @ rho for l in b.spam_labels], axis=1)
        A = np.concatenate([rho.T @ f[l] for l in b.spam_labels], axis=0)
        if np.linalg.cond(A @ B) < 1e4:
            break
    else:
        raise core.Discard()
    circs = gateset_tomography_circuits([v.choice('q', [0, 1])], b)
    data = []
    for c in circs:
        p = distribution(c)
        data.append((c.name, {k: 1000 * x for k, x in p.items()}))
    fit = GatesetTomographyFitter([FakeResult(data)], circs, b)
    res = fit.linear_inversion()
    Bi = np.linalg.inv(B)
    for k in b.gate_labels:
        v.ensure('gate up to the gauge', np.max(np.abs(res[k].data - Bi @ mats[k] @ B)) < 1e-5, lambda: k)
    v.ensure('E', np.max(np.abs(res['E'] - rho.T @ B)) < 1e-6)
    v.ensure('rho', np.max(np.abs(res['rho'] - Bi @ rho)) < 1e-5)


@reg.contract(GF + ':GatesetTomographyFitter.fit', mode='B', sizes=[{}], samples=2, budget=120,
              assumes=['the optimiser converges on the sampled gate sets (fit is evaluated on the default basis only)'])
def full_fit(v):
    """fit() on exact data of the default gate set, with or without depolarising
    noise, returns the gate set in the ideal gauge"""
    from qiskit.ignis.verification.tomography import gateset_tomography_circuits, GatesetTomographyFitter
    from qiskit.ignis.verification.tomography.basis import default_gateset_basis
    b = default_gateset_basis()
    lam = v.choice('noise', [1.0, 0.9])
    noise = np.diag([1, lam, lam, lam])
    mats = {k: (noise @ b.gate_matrices[k] if k != 'Id' else b.gate_matrices[k]) for k in b.gate_labels}
    rho = vec(np.diag([1, 0]))
    f = {}
    for l in b.spam_labels:
        m = np.eye(4)
        for g in b.spam_spec[l]:
            m = mats[g] @ m
        f[l] = m
    data = []
    for c in gateset_tomography_circuits():
        k = literal_eval(c.name)
        if len(k) == 1:
            p = rho.T @ f[k[0]] @ rho
        elif len(k) == 2:
            p = rho.T @ f[k[1]] @ f[k[0]] @ rho
        else:
            p = rho.T @ f[k[2]] @ mats[k[1]] @ f[k[0]] @ rho
        p = float(p[0, 0])
        data.append((c.name, {'0': 1e4 * p, '1': 1e4 * (1 - p)}))
    res = GatesetTomographyFitter([FakeResult(data)], [n for n, _ in data]).fit()
    for k in b.gate_labels:
        v.ensure('gate', np.linalg.norm(res[k].data - mats[k]) < 0.2, lambda: short((k, res[k].data)))
    v.ensure('state', np.linalg.norm(res['rho'].data - np.diag([1, 0])) < 0.15)
    v.ensure('effect', np.linalg.norm(res['E'].data - np.diag([1, 0])) < 0.15)


@reg.contract(GF + ':GST_Optimize, GaugeOptimize', mode='B', sizes=[{}], samples=5,
              needs=[GF + '.GST_Optimize', GF + '.GaugeOptimize'])
def objective(v):
    """the likelihood objective vanishes exactly at the true gate set; the
    parameter vector converts back and forth; the gauge change keeps all outcome
    probabilities"""
    from qiskit.quantum_info import PTM
    from qiskit.ignis.verification.tomography.fitters import gateset_fitter as m
    r = nprng(v)
    b, us = random_basis(v, r)
    rho, e, mats, f = exact_data(v, r, b, us, np.diag([1, .9, .9, .9]))
    # a state and an effect different from each other (of the form the parameters can express)
    rho = np.array([[0.5], [0.1], [0.1], [0.3]]) * np.sqrt(2)
    e = np.array([[0.6, 0.05, 0.05, 0.25]]) * np.sqrt(2)
    probs = {}
    for p, q in itertools.product(b.spam_labels, repeat=2):
        for g in b.gate_labels:
            probs[p, g, q] = float((e @ f[q] @ mats[g] @ f[p] @ rho)[0, 0])
    o = m.GST_Optimize(list(b.gate_labels), b.spam_labels, b.spam_spec, probs)
    o.set_initial_value({'E': e, 'rho': rho, **{k: PTM(mats[k]) for k in b.gate_labels}})
    x = o.initial_value
    E2, rho2, Gs = o._split_input_vector(x)
    v.ensure('parameters convert back', np.allclose(E2, e, atol=1e-6) and np.allclose(rho2, rho, atol=1e-6) and
             all(np.allclose(G, mats[k], atol=1e-6) for G, k in zip(Gs, b.gate_labels)))
    v.ensure('objective vanishes at the truth', abs(o._obj_fn(x)) < 1e-9)
    y = x + 0.05 * r.randn(len(x))
    E2, rho2, Gs = o._split_input_vector(y)
    G = dict(zip(b.gate_labels, Gs))
    tot = 0
    for p, q in itertools.product(b.spam_labels, repeat=2):
        for g in b.gate_labels:
            t = rho2
            for h in list(b.spam_spec[p]) + [g] + list(b.spam_spec[q]):
                t = G[h] @ t
            tot += (np.real((E2 @ t)[0, 0]) - probs[p, g, q]) ** 2
    v.ensure('objective is the sum of squared deviations', abs(o._obj_fn(y) - tot) < 1e-8 * max(1, tot))
    cons = o._constraints()
    for c in cons:
        val = np.array(c['fun'](x))
        if c['type'] == 'eq':
            v.ensure('equality constraints hold at a physical gate set', np.max(np.abs(val)) < 1e-6, lambda: short(val))
        else:
            v.ensure('inequality constraints hold at a physical gate set', np.min(val) > -1e-6)

    def worst(xx):
        eq = max(np.max(np.abs(np.array(c['fun'](xx)))) for c in o._constraints() if c['type'] == 'eq')
        return eq, min(np.min(np.array(c['fun'](xx))) for c in o._constraints() if c['type'] != 'eq')

    def at(E=e, R=rho, **kw):
        return o._join_input_vector(E, R, [PTM(kw.get(k, mats[k])) for k in b.gate_labels])
    res = o._process_result(x)
    op = lambda w: sum(a * q for a, q in zip(np.ravel(w), PAULI)) / np.sqrt(2)
    v.ensure('result: state and effect as operators', np.allclose(res['rho'].data, op(rho), atol=1e-6) and np.allclose(res['E'].data, op(e), atol=1e-6))
    v.ensure('result: gates', all(np.allclose(res[k].data, mats[k], atol=1e-6) for k in b.gate_labels))
    v.ensure('a state of trace other than one violates a constraint', abs(worst(at(R=1.2 * rho))[0] - 0.2) < 1e-6)
    for k in b.gate_labels:
        v.ensure('a map that changes the trace violates a constraint', abs(worst(at(**{k: 0.9 * mats[k]}))[0] - 0.1) < 1e-6)
        for i in (1, 2, 3):
            m2 = np.diag([1, .2, .2, .2])
            m2[0, i] = 0.3
            eq, ineq = worst(at(**{k: m2}))
            v.ensure('a map that is not trace preserving violates a constraint', abs(eq - 0.3) < 1e-6 and ineq > 0)
            m2 = np.diag([1, .2, .2, .2])
            m2[i, 0] = 0.3
            eq, ineq = worst(at(**{k: m2}))
            v.ensure('a map that is not unital violates none', eq < 1e-6 and ineq > 0)
        for i in range(1, 4):
            m2 = np.zeros((4, 4))
            m2[0, 0], m2[i, i] = 1.7, 1.5
            if i == 3:
                m2[3, 0], m2[0, 3] = -1.4, -.1
            eq, ineq = worst(at(**{k: m2}))
            v.ensure('an entry larger than one violates a constraint', ineq < -.2, lambda: short((k, i, eq, ineq)))
    ini = {k: PTM(mats[k]) for k in b.gate_labels}
    ini.update({'E': e, 'rho': rho})
    ga = m.GaugeOptimize(ini, ini, b)
    B = r.randn(4, 4) + 3 * np.eye(4)
    gs = ga._x_to_gateset(B.ravel())
    names = [b.gate_labels[i] for i in r.randint(0, len(b.gate_labels), 4)]
    t1, t2 = rho, gs['rho']
    for n in names:
        t1, t2 = mats[n] @ t1, gs[n].data @ t2
    v.ensure('a gauge change keeps outcome probabilities', np.allclose(e @ t1, gs['E'] @ t2, atol=1e-6))
    v.ensure('gauge objective vanishes at the ideal', abs(ga._obj_fn(np.eye(4).ravel())) < 1e-9)
