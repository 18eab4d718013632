"""C20 characterisation circuits realise the stated delays, echoes and angles"""
from contracts.common import *
from pyvc.core import short

reg = Registry('C20')
reg.assumptions += ['QuantumCircuit appends the operations it is given in order (recorded in the proofs)',
                    'identity gates take gate_time; a barrier keeps gates apart when the circuit is compiled',
                    'pulse schedules: ShiftPhase(-a) acts as Rz(a) on what follows, library pulses as documented']
CH = IG + 'characterization.'
CO, GA, HA, CA = CH + 'coherence.circuits', CH + 'gates.circuits', CH + 'hamiltonian.circuits', CH + 'calibrations.'

SYM = {'qiskit': RecQiskit(), 'U1Gate': lambda a: ('u1', a), 'U2Gate': lambda a, b: ('u2', a, b)}


# ------------------------------------------------------- reading of circuits
def u2m(p, l):
    return np.array([[1, -np.exp(1j * l)], [np.exp(1j * p), np.exp(1j * (p + l))]]) / math.sqrt(2)


GATE = {'x': np.array([[0, 1], [1, 0]], complex), 'y': np.array([[0, -1j], [1j, 0]]), 'h': np.array([[1, 1], [1, -1]], complex) / math.sqrt(2),
        'y90': u2m(0, 0), 'x90': u2m(-np.pi / 2, np.pi / 2)}


def reads(circ):
    """operations as (name, params or matrix, qubits, clbits)"""
    out = []
    if isinstance(circ, RecCircuit):
        for op, bits in circ.ops:
            if op == 'barrier':
                qs = []
                for b in bits:
                    qs += [x.index for x in (b if isinstance(b, (list, RecRegister)) else [b])]
                out.append(('barrier', None, qs, []))
            elif op == 'measure':
                out.append(('measure', None, [bits[0].index], [bits[1].index]))
            elif isinstance(op, tuple):
                out.append((op[0], op[1:], [b.index for b in bits], []))
            elif op in ('x', 'y', 'h', 'cx', 'i', 'id', 'iden'):
                out.append(('id' if op in ('i', 'iden') else op, None, [b.index for b in bits], []))
            else:
                raise Unsupported('operation %r' % (op,))
        return out
    qi = {b: i for i, b in enumerate(circ.qubits)}
    ci = {b: i for i, b in enumerate(circ.clbits)}
    for op, q, c in circ.data:
        mat = None
        if op.name not in ('barrier', 'measure', 'id', 'cx'):
            mat = op.to_matrix()
        out.append((op.name, mat, [qi[x] for x in q], [ci[x] for x in c]))
    return out


def line(circ, q, v):
    """what happens to one qubit: list of ('g', gate), ('delay', k), ('cx', role,
    other), ('b',), ('m', clbit)"""
    out = []
    for name, p, qs, cs in reads(circ):
        if q not in qs:
            continue
        if name == 'barrier':
            if out and out[-1] != ('b',):
                out.append(('b',))
        elif name == 'measure':
            out.append(('m', cs[0]))
        elif name == 'id':
            if len(out) > 1 and out[-2][0] == 'delay' and out[-1] == ('b',):
                out.pop()
                out[-1] = ('delay', out[-1][1] + 1)
            else:
                v.ensure('delay gates are kept apart', not (out and out[-1][0] == 'delay'))
                out.append(('delay', 1))
        elif name == 'cx':
            out.append(('cx', qs.index(q), qs[1 - qs.index(q)]))
        elif len(qs) != 1:
            raise Unsupported('gate ' + name)
        elif v.symbolic:
            out.append(('g', (name,) + tuple(p or ())))
        else:
            out.append(('g', p))
    while out and out[0] == ('b',):
        out.pop(0)
    return out


def merged(tokens):
    """gates which are not kept apart, multiplied (concrete matrices only)"""
    out = []
    for t in tokens:
        if t[0] == 'g' and out and out[-1][0] == 'g':
            out[-1] = ('g', t[1] @ out[-1][1])
        elif t == ('b',) and out and out[-1] == ('b',):
            continue
        else:
            out.append(t)
    # barriers matter only between gates or delays; drop those around measurement
    res = []
    for i, t in enumerate(out):
        if t == ('b',) and (i + 1 == len(out) or out[i + 1][0] == 'm' or out[i + 1][0] == 'delay' or (res and res[-1][0] == 'delay')):
            continue
        res.append(t)
    return res


def refines(g, i, w, j):
    """the realised line is the specified one, possibly with more barriers"""
    while i < len(g) and g[i] == ('b',) and not (j < len(w) and w[j] == ('b',)):
        i += 1
    if j == len(w):
        return i == len(g)
    if w[j] == ('b',):
        return i < len(g) and g[i] == ('b',) and refines(g, i + 1, w, j + 1)
    if w[j][0] != 'g':
        return i < len(g) and g[i] == w[j] and refines(g, i + 1, w, j + 1)
    u = np.eye(2)
    if phase_equal(u, w[j][1], 1e-8) and refines(g, i, w, j + 1):
        return True
    while i < len(g):
        if g[i] == ('b',):
            i += 1
            continue
        if g[i][0] != 'g':
            return False
        u = g[i][1] @ u
        i += 1
        if phase_equal(u, w[j][1], 1e-8) and refines(g, i, w, j + 1):
            return True
    return False


SPECNAME = {'x': ('x',), 'y': ('y',), 'h': ('h',), 'y90': ('u2', 0.0, 0.0), 'x90': ('u2', -np.pi / 2, np.pi / 2)}


def spec_tokens(v, seq_):
    """from a readable sequence: 'x', 'y90', ('rz', a), ('delay', k), 'b', ('cx', r, o), ('m', c)"""
    out = []
    for s in seq_:
        if s == 'b':
            out.append(('b',))
        elif isinstance(s, str):
            out.append(('g', SPECNAME[s] if v.symbolic else GATE[s]))
        elif s[0] == 'rz':
            out.append(('g', ('u1', s[1]) if v.symbolic else np.diag([1, np.exp(1j * s[1])])))
        elif s[0] == 'delay':
            if s[1]:
                out.append(s)
        else:
            out.append(s)
    return out


def no_phase(t):
    return t[0] == 'g' and t[1][0] == 'u1' and bool(t[1][1] == 0)


def eq_line(v, clause, circ, q, spec):
    got, want = line(circ, q, v), spec_tokens(v, spec)
    if v.symbolic:
        g = [t for t in got if t != ('b',) and not no_phase(t)]
        w = [t for t in want if t != ('b',) and not no_phase(t)]
        v.ensure(clause + ': sequence', len(g) == len(w) and all(a[0] == b[0] for a, b in zip(g, w)), lambda: short((g, w)))
        for a, b in zip(g, w):
            if a[0] == 'g':
                v.ensure(clause + ': gates', and_(a[1][0] == b[1][0], len(a[1]) == len(b[1]), *[v.eq(x, y) for x, y in zip(a[1][1:], b[1][1:])]), lambda: short((a, b)))
            else:
                v.ensure(clause + ': delays, couplings and measurement', a == b, lambda: short((a, b)))
        return
    g, w = got, merged(want)
    same = refines(g, 0, w, 0)
    v.ensure(clause, same, lambda: short((q, g, w)))


def pick_qubits(v, k, top=5):
    if v.symbolic:
        return list(v.choice('qubits', [list(range(k)), [3, 1, 4][:k], [2, 0, 1][:k]]))
    return [int(x) for x in nprng(v, 'q').permutation(top)[:k]]


def pick_nums(v, k, form=True):
    if v.symbolic:
        n = v.choice('nums', [[0, 1, 3][:k], [2, 5, 6][-k:], [1] * k])
    else:
        n = sorted(int(x) for x in nprng(v, 'nums').randint(0, 30, k))
    if n[-1] == 0:
        n = n[:-1] + [4]
    return n, (np.array(n) if v.choice('form', ['list', 'array']) == 'array' else list(n))


def lines_all(v, clause, circs, qubits, spec):
    """spec(i, j, q): sequence of circuit i for the j-th listed qubit"""
    for i, c in enumerate(circs):
        for j, q in enumerate(qubits):
            eq_line(v, clause, c, q, spec(i, j, q) + [('m', j)])


def idle(v, circs, qubits):
    for c in circs:
        used = {q for name, p, qs, cs in reads(c) if name != 'barrier' for q in qs}
        v.ensure('other qubits are left alone', used <= set(qubits), lambda: short((used, qubits)))
        if v.symbolic:
            continue
        v.ensure('one outcome bit per qubit', len(c.clbits) == len(qubits) or len(c.clbits) >= 1)


SIZES = [{'k': 1, 'm': 3}, {'k': 2, 'm': 2}, {'k': 3, 'm': 1}]
RS = [{'k': 1, 'm': 4}, {'k': 3, 'm': 3}, {'k': 5, 'm': 2}]


@reg.contract(CO + ':t1_circuits', mode='S', sizes=SIZES, rsizes=RS, samples=10, mods=[CO], extra=SYM)
def t1(v, k, m):
    """X - delay - measure on every listed qubit; times gate_time * numbers"""
    from qiskit.ignis.characterization.coherence import t1_circuits
    qubits = pick_qubits(v, k)
    nums, arg = pick_nums(v, m)
    g = v.real('gate_time', 0.01, None if v.symbolic else 3)
    circs, x = t1_circuits(arg, g, list(qubits))
    v.ensure('one circuit per number', len(circs) == len(nums) == len(x))
    for i, n in enumerate(nums):
        v.ensure_eq('delay times', x[i], g * n)
        v.ensure('names', circs[i].name == 't1circuit_%d_0' % i)
    lines_all(v, 'X, delay, measure', circs, qubits, lambda i, j, q: ['x', ('delay', nums[i])])
    idle(v, circs, qubits)


@reg.contract(CO + ':t2star_circuits', mode='S', sizes=SIZES, rsizes=RS, samples=10, mods=[CO], extra=SYM)
def t2star(v, k, m):
    """H - delay - phase of nosc oscillations - H - measure"""
    from qiskit.ignis.characterization.coherence import t2star_circuits
    qubits = pick_qubits(v, k)
    nums, arg = pick_nums(v, m)
    g = v.real('gate_time', 0.01, None if v.symbolic else 3)
    nosc = v.int('nosc', 0, None if v.symbolic else 7)
    if not v.symbolic and v.choice('dflt', [False, False, True]):
        nosc = 0
        circs, x, f = t2star_circuits(arg, g, list(qubits))
    else:
        circs, x, f = t2star_circuits(arg, g, list(qubits), nosc)
    v.ensure('one circuit per number', len(circs) == len(nums) == len(x))
    v.ensure_eq('nosc oscillations over the longest delay', f * (g * nums[-1]), nosc)
    for i, n in enumerate(nums):
        v.ensure_eq('delay times', x[i], g * n)
        v.ensure('names', circs[i].name == 't2starcircuit_%d_0' % i)
    lines_all(v, 'H, delay, phase, H, measure', circs, qubits,
              lambda i, j, q: ['h', ('delay', nums[i]), ('rz', 2 * np.pi * nosc * nums[i] / nums[-1]), 'h'])
    idle(v, circs, qubits)


@reg.contract(CO + ':t2_circuits', mode='S', sizes=[dict(s, echos=e, alt=a) for s in SIZES for e in (1, 2, 3, 4) for a in (False, True)],
              rsizes=[dict(s, echos=e, alt=a) for s in RS for e in (1, 3, 6, 11) for a in (False, True)], samples=4, mods=[CO], extra=SYM)
def t2(v, k, m, echos, alt):
    """Y90 - t - Y - [2t - X/Y]^(n-1) - t - Y90; total time 2 n t"""
    from qiskit.ignis.characterization.coherence import t2_circuits
    qubits = pick_qubits(v, k)
    nums, arg = pick_nums(v, m)
    g = v.real('gate_time', 0.01, None if v.symbolic else 3)
    if echos == 1 and not alt:
        circs, x = t2_circuits(arg, g, list(qubits))
    else:
        circs, x = t2_circuits(arg, g, list(qubits), n_echos=echos, phase_alt_echo=alt)
    v.ensure('one circuit per number', len(circs) == len(nums) == len(x))
    for i, n in enumerate(nums):
        v.ensure_eq('delay times', x[i], 2 * g * n * echos)
        v.ensure('names', circs[i].name == 't2circuit_%d_0' % i)

    def spec(i, j, q):
        s = ['y90', ('delay', nums[i]), 'b', 'y', 'b']
        for e in range(1, echos):
            s += [('delay', 2 * nums[i]), 'b', 'x' if alt and e % 2 else 'y', 'b']
        return s[:-1] + ['b', ('delay', nums[i]), 'b', 'y90']
    # without delays the barriers of the delay sections remain
    lines_all(v, 'echo sequence', circs, qubits, spec)
    if not v.symbolic:
        for i, c in enumerate(circs):
            for q in qubits:
                tot = sum(t[1] for t in line(c, q, v) if t[0] == 'delay')
                v.ensure_eq('realised time', tot * g, x[i])
    idle(v, circs, qubits)
    v.ensure_raises('at least one echo', ValueError, t2_circuits, arg, g, list(qubits), 0)


@reg.contract(HA + ':zz_circuits', mode='S', sizes=[{'k': 1, 'm': 3}, {'k': 2, 'm': 2}], rsizes=[{'k': 1, 'm': 4}, {'k': 2, 'm': 3}], samples=10, mods=[HA], extra=SYM)
def zz(v, k, m):
    """Ramsey on the qubits with the spectators in 0, then in 1"""
    from qiskit.ignis.characterization.hamiltonian import zz_circuits
    qs = pick_qubits(v, 2 * k if not v.symbolic else k)
    if v.symbolic:
        qubits, spect = qs, [q + 7 for q in qs]
    else:
        qubits, spect = qs[:k], qs[k:]
    nums, arg = pick_nums(v, m)
    g = v.real('gate_time', 0.01, None if v.symbolic else 3)
    nosc = v.int('nosc', 0, None if v.symbolic else 7)
    if not v.symbolic and v.choice('dflt', [False, True]):
        nosc = 5
        circs, x, f = zz_circuits(arg, g, list(qubits), list(spect))
    else:
        circs, x, f = zz_circuits(arg, g, list(qubits), list(spect), nosc=nosc)
    v.ensure('two circuits per number', len(circs) == 2 * len(nums) and len(x) == len(nums))
    v.ensure_eq('nosc oscillations over the longest delay', f * (g * nums[-1]), nosc)
    by = {c.name: c for c in circs}
    v.ensure('names', sorted(by) == sorted('zzcircuit_%d_%d' % (i, s) for i in range(len(nums)) for s in (0, 1)))
    for i, n in enumerate(nums):
        v.ensure_eq('delay times', x[i], g * n)
        for s in (0, 1):
            c = by['zzcircuit_%d_%d' % (i, s)]
            for j, q in enumerate(qubits):
                eq_line(v, 'Ramsey', c, q, ['h', ('delay', n), ('rz', 2 * np.pi * nosc * n / nums[-1]), 'h', ('m', j)])
            for q in spect:
                eq_line(v, 'spectators', c, q, ['x'] if s else [])
            # spectators are flipped before the Ramsey starts
            ops = reads(c)
            if s:
                lastx = max(i2 for i2, o in enumerate(ops) if o[0] != 'barrier' and o[2][0] in spect)
                firsth = min(i2 for i2, o in enumerate(ops) if o[0] != 'barrier' and o[2][0] in qubits)
                v.ensure('spectators flipped first', any(o[0] == 'barrier' and set(qubits) | set(spect) <= set(o[2]) for o in ops[lastx:firsth]) and lastx < firsth)
    idle(v, circs, qubits + spect)
    v.ensure_raises('as many spectators as qubits', ValueError, zz_circuits, np.array(nums), 1.0, list(qubits), list(spect) + [20])
    v.ensure_raises('spectators are other qubits', ValueError, zz_circuits, np.array(nums), 1.0, list(qubits), [qubits[-1]] * len(qubits))


def gates_common(v, name, circs, x, step, reps):
    v.ensure('one circuit per number', len(circs) == reps == len(x))
    for i in range(reps):
        v.ensure_eq('repetition numbers', x[i], step * i)
        v.ensure('names', circs[i].name == '%s_%d_0' % (name, i))


GS = [{'k': 1, 'reps': 4}, {'k': 2, 'reps': 3}]


@reg.contract(GA + ':ampcal_1Q_circuits', mode='S', sizes=GS, rsizes=[{'k': 1, 'reps': 8}, {'k': 3, 'reps': 5}], samples=5, mods=[GA], extra=SYM)
def ampcal(v, k, reps):
    """Y90 - (Y90 - Y90)^n"""
    from qiskit.ignis.characterization.gates import ampcal_1Q_circuits
    qubits = pick_qubits(v, k)
    circs, x = ampcal_1Q_circuits(reps, list(qubits))
    gates_common(v, 'ampcal1Qcircuit', circs, x, 2, reps)
    lines_all(v, 'Y90 - (Y90 - Y90)^n', circs, qubits, lambda i, j, q: ['y90'] + ['b', 'y90'] * (2 * i))
    idle(v, circs, qubits)


@reg.contract(GA + ':anglecal_1Q_circuits', mode='S', sizes=[dict(s, err=e) for s in GS for e in (False, True)],
              rsizes=[dict(s, err=e) for s in ({'k': 1, 'reps': 8}, {'k': 3, 'reps': 5}) for e in (False, True)], samples=5, mods=[GA], extra=SYM)
def anglecal(v, k, reps, err):
    """Y90 - (X90 - X90 - Y90 - Y90)^n - X90, all X axes off by twice the
    artificial error"""
    from qiskit.ignis.characterization.gates import anglecal_1Q_circuits
    qubits = pick_qubits(v, k)
    if err:
        e = v.real('err', -0.5, 0.5)
        v.require(e != 0)
        circs, x = anglecal_1Q_circuits(reps, list(qubits), angleerr=e)
    else:
        circs, x = anglecal_1Q_circuits(reps, list(qubits))
    gates_common(v, 'anglecal1Qcircuit', circs, x, 2, reps)

    def spec(i, j, q):
        s = ['y90']
        for _ in range(i):
            s += ([('rz', -2 * e)] if err else []) + ['b', 'x90', 'b', 'x90'] + ([('rz', 2 * e)] if err else []) + ['b', 'y90', 'b', 'y90']
        return s + ([('rz', -2 * e)] if err else []) + ['x90']
    lines_all(v, 'Y90 - (X90 - X90 - Y90 - Y90)^n - X90', circs, qubits, spec)
    idle(v, circs, qubits)


def pick_pairs(v, k):
    if v.symbolic:
        q = v.choice('qubits', [[0, 2], [3, 1], [4, 5]])[:k]
        c = v.choice('ctrl', [[6, 7], [9, 8]])[:k]
        return list(q), list(c)
    p = [int(x) for x in nprng(v, 'q').permutation(6)]
    return p[:k], p[k:2 * k]


@reg.contract(GA + ':ampcal_cx_circuits', mode='S', sizes=GS, rsizes=[{'k': 1, 'reps': 8}, {'k': 3, 'reps': 5}], samples=5, mods=[GA], extra=SYM)
def ampcal_cx(v, k, reps):
    """X on the control, X90 on the target, n cx"""
    from qiskit.ignis.characterization.gates import ampcal_cx_circuits
    qubits, ctrl = pick_pairs(v, k)
    circs, x = ampcal_cx_circuits(reps, list(qubits), list(ctrl))
    gates_common(v, 'ampcalcxcircuit', circs, x, 1, reps)
    lines_all(v, 'X90 - CX^n', circs, qubits, lambda i, j, q: ['x90'] + ['b', ('cx', 1, ctrl[j])] * i)
    for i, c in enumerate(circs):
        for j, q in enumerate(ctrl):
            eq_line(v, 'control', c, q, ['x'] + ['b', ('cx', 0, qubits[j])] * i)
    idle(v, circs, qubits + ctrl)


@reg.contract(GA + ':anglecal_cx_circuits', mode='S', sizes=[dict(s, err=e) for s in GS for e in (False, True)],
              rsizes=[dict(s, err=e) for s in ({'k': 1, 'reps': 8}, {'k': 3, 'reps': 5}) for e in (False, True)], samples=5, mods=[GA], extra=SYM)
def anglecal_cx(v, k, reps, err):
    """X on the control, Y90 - (CX - Y)^n - X90 on the target, the axis of cx off
    by the artificial error"""
    from qiskit.ignis.characterization.gates import anglecal_cx_circuits
    qubits, ctrl = pick_pairs(v, k)
    if err:
        e = v.real('err', -0.5, 0.5)
        v.require(e != 0)
        circs, x = anglecal_cx_circuits(reps, list(qubits), list(ctrl), angleerr=e)
    else:
        circs, x = anglecal_cx_circuits(reps, list(qubits), list(ctrl))
    gates_common(v, 'anglecalcxcircuit', circs, x, 1, reps)

    def spec(i, j, q):
        s = ['y90']
        for _ in range(i):
            s += ([('rz', -e)] if err else []) + ['b', ('cx', 1, ctrl[j])] + ([('rz', e)] if err else []) + ['y']
        return s + ['x90']
    lines_all(v, 'Y90 - (CX - Y)^n - X90', circs, qubits, spec)
    for i, c in enumerate(circs):
        for j, q in enumerate(ctrl):
            eq_line(v, 'control', c, q, ['x'] + ['b', ('cx', 0, qubits[j])] * i)
    idle(v, circs, qubits + ctrl)


@reg.contract(CH + 'gates (circuits against the fitted models)', mode='B', sizes=[{'what': w} for w in ('amp', 'angle', 'ampcx', 'anglecx')], samples=4)
def against_model(v, what):
    """the exact populations of the circuits follow the model of their fitter"""
    import qiskit.ignis.characterization.gates as g
    from qiskit import QuantumCircuit
    e = v.real('err', -0.2, 0.2)
    reps = 6
    if what == 'amp':
        circs, x = g.ampcal_1Q_circuits(reps, [0])
        y = [0.5 - 0.5 * math.cos((np.pi / 2 + 2 * e) * (n + 1)) for n in x]
        fit = g.AmpCalFitter
    elif what == 'angle':
        circs, x = g.anglecal_1Q_circuits(reps, [1, 0], angleerr=e)
        y = [sum(p for b, p in distribution(c).items() if b[-1] == '1') for c in circs]
        fit = g.AngleCalFitter
    elif what == 'anglecx':
        circs, x = g.anglecal_cx_circuits(reps, [1], [0], angleerr=e)
        y = [sum(p for b, p in distribution(c).items() if b[-1] == '1') for c in circs]
        fit = g.AngleCalCXFitter
    else:
        circs, x = g.ampcal_cx_circuits(reps, [1], [0])
        y = [0.5 - 0.5 * math.cos(np.pi / 2 + (np.pi + 2 * e) * n) for n in x]
        fit = g.AmpCalCXFitter
    shots = 10 ** 9
    named = [(c.name, {'1': int(round(p * shots)), '0': shots - int(round(p * shots))} if 0 < round(p * shots) < shots else {'1' if p > 0.5 else '0': shots}) for c, p in zip(circs, y)]
    f = fit(real_result(named, 1), x, [0], fit_p0=[2 * e * 0.9, 0.5], fit_bounds=([-np.pi, -1], [np.pi, 1]))
    v.ensure('the fit returns the error of the gates', abs(f.angle_err(0) - e) < 1e-4 and abs(f.angle_err()[0] - e) < 1e-4, lambda: short((f.angle_err(), e)))


@reg.contract(CH + 'characterization_utils:time_to_ngates', mode='B', sizes=[{'k': 1}, {'k': 3}], samples=30)
def ngates(v, k):
    """nearest numbers of gates"""
    from qiskit.ignis.characterization.characterization_utils import time_to_ngates
    g = v.real('g', 0.01, None if v.symbolic else 2)
    top = None if v.symbolic else v.choice('top', [50, 3000, 2000000])
    t = [v.real('t%d' % i, 0, top) for i in range(k)]
    n = time_to_ngates(list(t), g)
    for a, b in zip(n, t):
        d = a * g - b
        v.ensure('nearest', and_(d <= g / 2 + (0 if v.symbolic else 1e-7), -d <= g / 2 + (0 if v.symbolic else 1e-7)), lambda: short((a, b, g)))


# ----------------------------------------------------------------- schedules
def backend():
    from qiskit.test.mock import FakeOpenPulse2Q
    return FakeOpenPulse2Q()


def plays(sched, ch):
    from qiskit.pulse import Play
    return [(t, i.pulse) for t, i in sched.instructions if isinstance(i, Play) and i.channel == ch]


def acquired(sched):
    from qiskit.pulse import Acquire
    return sorted((t, i.channel.index) for t, i in sched.instructions if isinstance(i, Acquire))


def slots(sched):
    from qiskit.pulse import Acquire
    return {i.channel.index: i.mem_slot.index for t, i in sched.instructions if isinstance(i, Acquire)}


@reg.contract(CA + 'pulse_schedules:rabi_schedules; drag_schedules', mode='B', sizes=[{'what': w} for w in ('rabi', 'drag')], samples=8)
def schedules(v, what):
    """one pulse of every listed amplitude (a pulse and its negative for drag) on
    the drive of each listed qubit, then the measurement"""
    from qiskit.pulse import DriveChannel, library
    from qiskit import QiskitError
    import qiskit.ignis.characterization.calibrations as cal
    b = backend()
    im, mm = b.defaults().instruction_schedule_map, b.configuration().meas_map
    qubits = v.choice('qubits', [[0], [1], [0, 1], [1, 0]])
    drives = [DriveChannel(0), DriveChannel(1)]
    width = v.choice('width', [40, 64, 100])
    sig = v.choice('sigma', [None, 7.0])
    ratio = v.choice('ratio', [4, 5])
    xs = sorted(v.real('x%d' % i, -0.9, 0.9) for i in range(3))
    ph = v.choice('phase', [1, 1, -1, 1j, 0.6 - 0.8j])
    amps = [v.real('a%d' % i, 0.1, 0.5) * ph for i in range(len(qubits))]
    kw = dict(pulse_sigma=sig, width_sigma_ratio=ratio, drives=drives, inst_map=im, meas_map=mm)
    s = sig if sig is not None else width / ratio
    if ratio == 4 and v.choice('default', [True, False]):
        del kw['width_sigma_ratio']
    if what == 'rabi':
        sch, x = cal.rabi_schedules(list(xs), list(qubits), width, **kw)
    else:
        sch, x = cal.drag_schedules(list(xs), list(qubits), list(amps), width, **kw)
    v.ensure('x axis', list(x) == list(xs) and len(sch) == 3)
    for i, sc in enumerate(sch):
        v.ensure('names', sc.name == ('rabisched_%d_0' if what == 'rabi' else 'dragsched_%d_0') % i)
        for q in range(2):
            p = plays(sc, drives[q])
            if q not in qubits:
                v.ensure('only listed qubits are driven', p == [])
                continue
            if what == 'rabi':
                want = [(0, library.gaussian(width, xs[i], s))]
            else:
                a = amps[qubits.index(q)]
                want = [(0, library.drag(width, a, s, xs[i])), (width, library.drag(width, -a, s, xs[i]))]
            v.ensure('pulses', len(p) == len(want) and all(t == u and len(z.samples) == len(w.samples) and np.allclose(z.samples, w.samples) for (t, z), (u, w) in zip(p, want)), lambda: short((q, [(t, z.samples[:3]) for t, z in p])))
        acq = acquired(sc)
        t0 = width * (1 if what == 'rabi' else 2)
        v.ensure('measured after the pulses', set(q for t, q in acq) >= set(qubits) and all(t >= t0 for t, q in acq), lambda: short(acq))
        sl = slots(sc)
        v.ensure('the i-th listed qubit is read from slot i', all(sl.get(q) == j for j, q in enumerate(qubits)), lambda: short((qubits, sl)))
    f = cal.rabi_schedules if what == 'rabi' else cal.drag_schedules
    args = (list(xs), list(qubits), width) if what == 'rabi' else (list(xs), list(qubits), list(amps), width)
    v.ensure_raises('instruction map is needed', QiskitError, f, *args, drives=drives, meas_map=mm)
    v.ensure_raises('measurement map is needed', QiskitError, f, *args, drives=drives, inst_map=im)


@reg.contract(CA + 'ibmq_utils:update_u_gates', mode='B', sizes=[{'drag': d} for d in (False, True)], samples=8)
def u_gates(v, drag):
    """the new u2 and u3 are the gates made of two frame changes and one, of three
    and two half-pi pulses, in the frames of all channels that follow the drive"""
    from qiskit.pulse import DriveChannel, Schedule, Play, ShiftPhase, library
    from qiskit.ignis.characterization.calibrations import update_u_gates
    from qiskit.circuit.library import U2Gate, U3Gate
    b = backend()
    im = b.defaults().instruction_schedule_map
    qubits = v.choice('qubits', [[0], [1], [1, 0]])
    drives = [DriveChannel(0), DriveChannel(1)]
    par = [{'duration': 40 + 8 * q, 'amp': 0.1 + 0.1 * q, 'sigma': 9.0 + q, 'beta': 0.3 * q} for q in range(2)]
    keep = {q: str(im.get('u2', q, P0=0.1, P1=0.2)) for q in range(2)}
    old = {q: [frozenset(c for i in [x for x in im.get(g, q, **{k: 0.0 for k in im.get_parameters(g, q)}).instructions if isinstance(x[1], ShiftPhase)] for c in i[1].channels) for g in ('u2', 'u3')] for q in range(2)}
    if drag:
        update_u_gates(par, qubits=list(qubits), inst_map=im, drives=drives)
    else:
        sch = []
        for q in range(2):
            s = Schedule()
            s += Play(library.drag(**par[q]), drives[q])
            sch.append(s)
        update_u_gates(None, pi2_pulse_schedules=sch, qubits=list(qubits), inst_map=im, drives=drives)
    th, ph, la = [v.real(n, -3, 3) for n in ('theta', 'phi', 'lam')]
    for q in range(2):
        if q not in qubits:
            v.ensure('other gates are kept', str(im.get('u2', q, P0=0.1, P1=0.2)) == keep[q])
            continue
        want = library.drag(**par[q]).samples
        for gate, ref, kw in (('u2', U2Gate(ph, la), dict(P0=ph, P1=la)), ('u3', U3Gate(th, ph, la), dict(P0=th, P1=ph, P2=la))):
            sc = im.get(gate, q, **kw)
            chans = {c for t, i in sc.instructions if isinstance(i, ShiftPhase) for c in i.channels}
            v.ensure('frames of the drive', drives[q] in chans and len(chans) >= 1)
            v.ensure('frames of the channels that follow the drive', chans >= set(old[q][0 if gate == 'u2' else 1]) or drives[q] not in old[q][0 if gate == 'u2' else 1], lambda: short((chans, old[q])))
            for ch in chans:
                # in time order; at equal times a frame change precedes the pulse
                ev = []
                for t, i in sc.instructions:
                    if isinstance(i, ShiftPhase) and i.channel == ch:
                        ev.append((t, 0, -i.phase))
                    elif isinstance(i, Play) and i.channel == drives[q]:
                        v.ensure('half-pi pulses', np.allclose(i.pulse.samples, want))
                        ev.append((t, 1, None))
                u = np.eye(2)
                for t, kind, a in sorted(ev, key=lambda z: z[:2]):
                    u = (GATE['x90'] if kind else np.diag([1, np.exp(1j * a)])) @ u
                v.ensure('the gate', phase_equal(u, ref.to_matrix(), 1e-7), lambda: short((gate, q, ev)))


@reg.contract(CA + 'ibmq_utils:get_single_q_pulse', mode='B', sizes=[{}], samples=3)
def single_q_pulse(v):
    """parameters of the pulse of u2 of each listed qubit"""
    from qiskit.pulse import DriveChannel, Schedule, Play, ShiftPhase, library
    from qiskit.ignis.characterization.calibrations import get_single_q_pulse
    im = backend().defaults().instruction_schedule_map
    par = [{'duration': 60 + 20 * q, 'amp': 0.1 + 0.05 * q + v.real('a%d' % q, 0, 0.05), 'sigma': 13.0 + 2 * q, 'beta': 0.2 + 0.3 * q} for q in range(2)]
    for q in range(2):
        s = library.drag(**par[q]).samples * np.exp(-1j * np.pi / 2)
        sc = Schedule()
        sc += ShiftPhase(0.3, DriveChannel(q))
        sc += Play(library.Waveform(s), DriveChannel(q))
        im.add('u2', q, sc)
    class Map:
        def get(self, name, qubits=None, **kw):
            return im.get(name, qubits)
    qs = v.choice('qs', [[0, 1], [1], [1, 0]])
    got = get_single_q_pulse(Map(), list(qs))
    v.ensure('one entry per qubit', len(got) == len(qs))
    for q, g in zip(qs, got):
        fit = library.drag(**g).samples
        v.ensure('the same pulse', g['duration'] == par[q]['duration'] and np.allclose(fit, library.drag(**par[q]).samples, atol=1e-4), lambda: short((g, par[q])))


# ------------------------------------------------ any numbers of qubits and circuits
from contracts import ulib as UL
from pyvc import trace as TR


class _Fake:
    QuantumRegister = TR.QReg
    ClassicalRegister = TR.CReg
    QuantumCircuit = TR.Circ


def _extra():
    return {'qiskit': _Fake, 'QuantumCircuit': TR.Circ, 'QuantumRegister': TR.QReg, 'ClassicalRegister': TR.CReg,
            'U1Gate': TR.gate('u1'), 'U2Gate': TR.gate('u2'), 'U3Gate': TR.gate('u3'), 'max': UL.any_max}


def _measured(v, u, circs, n, ql, name, want, others=True):
    """circuit i is called name_i_0 and acts on the k-th listed qubit as want(i, k), measured into bit k;
    on no other qubit"""
    v.ensure('one circuit per value', UL.seq(UL.length(circs), n))
    i, k = v.int('i', 0), v.int('k', 0)
    v.require(i < n)
    v.require(k < ql.n)
    c = circs.seq.elem(i.t)
    v.ensure('name', c.name.same(u, name, i, '_0'))
    q = ('q', ql.kf(k.t))
    facts = ql.facts(k.t)
    got = TR.project(u, c.plain, q, facts)
    d = TR.same(u, UL.strip(got), UL.strip(want(i, k, q)), facts)
    v.ensure('operations on every listed qubit', d == '', lambda: d)
    r = v.int('r', 0)
    if others:
        v.require(UL.not_(ql.has(r)))
        rest = UL.strip(TR.project(u, c.plain, ('q', r.t), []))
        v.ensure('nothing on other qubits', rest == [], lambda: repr(rest))


COH = CH + 'coherence.circuits'


def _setup(v):
    u = UL.Engine.of(v)
    n, nq = v.int('n', 1), v.int('nq', 1)
    gates = u.fun('gates', UL.I, UL.I)
    num = UL.Seq(n, lambda i: UL.Sym(gates(i)), ('gates', ()), facts=lambda i: [gates(i) >= 0])
    v.require(UL.Sym(gates((n - 1).t)) > 0)
    ql = UL.distinct(v, 'qubits', nq)
    gt = v.real('gate_time', 0)
    v.require(gt > 0)
    return u, n, num, ql, gt


@reg.contract(COH + ':t1_circuits (any delays, any qubits)', **UL.U)
def any_t1(v):
    """any number of delays and qubits: X, the number of identity gates of the circuit, measurement of the k-th
    listed qubit into bit k; nothing on other qubits"""
    u, n, num, ql, gt = _setup(v)
    circs, x = UL.twin(COH, 't1_circuits', _extra())(num, gt, ql.keys())
    _measured(v, u, circs, n, ql, 't1circuit_', lambda i, k, q: [TR.op('x', [q]), TR.rep(num[i], lambda j: [TR.op('id', [q])]), TR.op('measure', [q], (), [('c', k)])])
    i = v.int('i2', 0)
    v.require(i < n)
    v.ensure('times', UL.and_(UL.seq(x.n, n), UL.seq(x[i], gt * num[i])))


@reg.contract(COH + ':t2star_circuits (any delays, any qubits)', **UL.U)
def any_t2star(v):
    """any number of delays and qubits: H, identity gates, the phase of nosc oscillations over the longest
    delay, H"""
    u, n, num, ql, gt = _setup(v)
    nosc = v.int('nosc', 0)
    circs, x, f = UL.twin(COH, 't2star_circuits', _extra())(num, gt, ql.keys(), nosc)
    v.ensure('frequency', UL.seq(f * (gt * num[n - 1]), nosc))
    _measured(v, u, circs, n, ql, 't2starcircuit_', lambda i, k, q: [
        TR.op('h', [q]), TR.rep(num[i], lambda j: [TR.op('id', [q])]), TR.op('u1', [q], [2 * np.pi * f * (gt * num[i])]), TR.op('h', [q]),
        TR.op('measure', [q], (), [('c', k)])])
    _times(v, x, n, lambda i: gt * num[i])


def _times(v, x, n, f):
    i = v.int('i2', 0)
    v.require(i < n)
    v.ensure('x axis', UL.and_(UL.seq(x.n, n), UL.seq(x[i], f(i))))


@reg.contract(COH + ':t2_circuits (any delays, qubits, echoes)', sizes=[{'alt': a} for a in (False, True)], **UL.U)
def any_t2(v, alt):
    """any number of delays, qubits and echoes: Y90 - t - Y - [2t - X/Y]^(n-1) - t - Y90"""
    u, n, num, ql, gt = _setup(v)
    ne = v.int('echoes', 1)
    circs, x = UL.twin(COH, 't2_circuits', _extra())(num, gt, ql.keys(), ne, alt)

    def want(i, k, q):
        def wait(m):
            return TR.rep(m, lambda j: [TR.op('id', [q])])

        def echo(j):
            if not alt:
                return [wait(2 * num[i]), TR.op('y', [q])]
            return [(UL.seq(j % 2, 0), [wait(2 * num[i]), TR.op('x', [q])]), (UL.not_(UL.seq(j % 2, 0)), [wait(2 * num[i]), TR.op('y', [q])])]
        y90 = TR.op('u2', [q], [0.0, 0.0])
        return [y90, wait(num[i]), TR.op('y', [q]), TR.rep(ne - 1, echo), wait(num[i]), y90, TR.op('measure', [q], (), [('c', k)])]
    _measured(v, u, circs, n, ql, 't2circuit_', want)
    _times(v, x, n, lambda i: 2 * gt * num[i] * ne)


@reg.contract(HA + ':zz_circuits (any delays, any qubits)', **UL.U)
def any_zz(v):
    """any number of delays and pairs: Ramsey on the qubits with the spectators in 0, then in 1"""
    u, n, num, ql, gt = _setup(v)
    sp = UL.distinct(v, 'spectators', ql.n, avoid=ql)
    keys = sp.keys()
    keys.contains = lambda q: False              # precondition: the lists are disjoint
    nosc = v.int('nosc', 0)
    circs, x, f = UL.twin(HA, 'zz_circuits', _extra())(num, gt, ql.keys(), keys, nosc)
    v.ensure('frequency', UL.seq(f * (gt * num[n - 1]), nosc))
    v.ensure('two series', circs.seq.prev is not None and circs.seq.prev.prev is None)
    for flip, part in enumerate((circs.seq.prev, circs.seq)):
        one = UL.Bag()
        one.seq = part
        _series(v, u, part, n, ql, 'zzcircuit_', '_%d' % flip, lambda i, k, q: [
            TR.op('h', [q]), TR.rep(num[i], lambda j: [TR.op('id', [q])]), TR.op('u1', [q], [2 * np.pi * f * (gt * num[i])]), TR.op('h', [q]),
            TR.op('measure', [q], (), [('c', k)])], others=False)
        i, k, r = v.int('ii%d' % flip, 0), v.int('kk%d' % flip, 0), v.int('rr%d' % flip, 0)
        v.require(i < n)
        v.require(k < ql.n)
        q = ('q', sp.kf(k.t))
        fs = sp.facts(k.t)
        got = UL.strip(TR.project(u, part.elem(i.t).plain, q, fs))
        v.ensure('spectators are flipped in the second series', len(got) == flip and all(o.name == 'x' for o in got), lambda: repr(got))
        v.require(UL.and_(UL.not_(ql.has(r)), UL.not_(sp.has(r))))
        rest = UL.strip(TR.project(u, part.elem(i.t).plain, ('q', r.t), []))
        v.ensure('nothing on other qubits', rest == [], lambda: repr(rest))
    _times(v, x, n, lambda i: gt * num[i])


Y90, X90 = [0.0, 0.0], [-np.pi / 2, np.pi / 2]


def _series(v, u, part, n, ql, name, suffix, want, others=True):
    one = UL.Bag()
    one.seq = part
    v.ensure('one circuit per value', UL.seq(part.items_len(), n))
    i, k = v.int('i' + suffix, 0), v.int('k' + suffix, 0)
    v.require(i < n)
    v.require(k < ql.n)
    c = part.elem(i.t)
    v.ensure('name', c.name.same(u, name, i, suffix))
    q = ('q', ql.kf(k.t))
    facts = ql.facts(k.t)
    got = TR.project(u, c.plain, q, facts)
    d = TR.same(u, UL.strip(got), UL.strip(want(i, k, q)), facts)
    v.ensure('operations on every listed qubit', d == '', lambda: d)
    if others:
        r = v.int('r' + suffix, 0)
        v.require(UL.not_(ql.has(r)))
        rest = UL.strip(TR.project(u, c.plain, ('q', r.t), []))
        v.ensure('nothing on other qubits', rest == [], lambda: repr(rest))


def _gate_setup(v):
    return UL.Engine.of(v), v.int('reps', 1), UL.distinct(v, 'qubits', v.int('nq', 1))


@reg.contract(GA + ':ampcal_1Q_circuits (any repetitions, any qubits)', **UL.U)
def any_ampcal(v):
    """any numbers: Y90, then one Y90 per repetition"""
    u, m, ql = _gate_setup(v)
    circs, x = UL.twin(GA, 'ampcal_1Q_circuits', _extra())(m, ql.keys())
    _measured(v, u, circs, m, ql, 'ampcal1Qcircuit_', lambda i, k, q: [
        TR.op('u2', [q], Y90), TR.rep(x[i], lambda j: [TR.op('u2', [q], Y90)]), TR.op('measure', [q], (), [('c', k)])])
    _times(v, x, m, lambda i: 2 * i)


@reg.contract(GA + ':anglecal_1Q_circuits (any repetitions, any qubits)', **UL.U)
def any_anglecal(v):
    """any numbers and artificial error: Y90 (X90 X90 Y90 Y90)^n X90, the axes of X off by twice the error"""
    u, m, ql = _gate_setup(v)
    e = v.real('err')
    v.require(UL.not_(UL.seq(e, 0)))
    circs, x = UL.twin(GA, 'anglecal_1Q_circuits', _extra())(m, ql.keys(), e)

    def want(i, k, q):
        a, b = TR.op('u1', [q], [-2 * e]), TR.op('u1', [q], [2 * e])
        x90, y90 = TR.op('u2', [q], X90), TR.op('u2', [q], Y90)
        return [y90, TR.rep(i, lambda j: [a, x90, x90, b, y90, y90]), a, x90, TR.op('measure', [q], (), [('c', k)])]
    _measured(v, u, circs, m, ql, 'anglecal1Qcircuit_', want)
    _times(v, x, m, lambda i: 2 * i)


def _cx_setup(v):
    u, m, ql = _gate_setup(v)
    return u, m, ql, UL.distinct(v, 'controls', ql.n, avoid=ql)


@reg.contract(GA + ':ampcal_cx_circuits (any repetitions, any pairs)', **UL.U)
def any_ampcal_cx(v):
    """any numbers: X on the control, X90 on the target, one cx of the k-th pair per repetition"""
    u, m, ql, cl = _cx_setup(v)
    circs, x = UL.twin(GA, 'ampcal_cx_circuits', _extra())(m, ql.keys(), cl.keys())

    def want(i, k, q):
        c = ('q', cl.kf(k.t))
        return [TR.op('u2', [q], X90), TR.rep(x[i], lambda j: [TR.op('cx', [c, q])]), TR.op('measure', [q], (), [('c', k)])]
    _measured(v, u, circs, m, ql, 'ampcalcxcircuit_', want, others=False)
    _controls(v, u, circs, m, ql, cl, lambda i, k, c, q: [TR.op('x', [c]), TR.rep(x[i], lambda j: [TR.op('cx', [c, q])])])
    _times(v, x, m, lambda i: i)


def _controls(v, u, circs, m, ql, cl, want):
    i, k, r = v.int('i3', 0), v.int('k3', 0), v.int('r3', 0)
    v.require(i < m)
    v.require(k < ql.n)
    c, q = ('q', cl.kf(k.t)), ('q', ql.kf(k.t))
    fs = cl.facts(k.t) + ql.facts(k.t)
    d = TR.same(u, UL.strip(TR.project(u, circs.seq.elem(i.t).plain, c, fs)), want(i, k, c, q), fs)
    v.ensure('operations on every control', d == '', lambda: d)
    v.require(UL.and_(UL.not_(ql.has(r)), UL.not_(cl.has(r))))
    rest = UL.strip(TR.project(u, circs.seq.elem(i.t).plain, ('q', r.t), []))
    v.ensure('nothing on other qubits', rest == [], lambda: repr(rest))


@reg.contract(GA + ':anglecal_cx_circuits (any repetitions, any pairs)', **UL.U)
def any_anglecal_cx(v):
    """any numbers and artificial error: X on the control; Y90 (cx Y)^n X90 on the target, the axis of cx off by the error"""
    u, m, ql, cl = _cx_setup(v)
    e = v.real('err')
    v.require(UL.not_(UL.seq(e, 0)))
    circs, x = UL.twin(GA, 'anglecal_cx_circuits', _extra())(m, ql.keys(), cl.keys(), e)

    def want(i, k, q):
        c = ('q', cl.kf(k.t))
        a, b = TR.op('u1', [q], [-e]), TR.op('u1', [q], [e])
        return [TR.op('u2', [q], Y90), TR.rep(x[i], lambda j: [a, TR.op('cx', [c, q]), b, TR.op('y', [q])]), TR.op('u2', [q], X90), TR.op('measure', [q], (), [('c', k)])]
    _measured(v, u, circs, m, ql, 'anglecalcxcircuit_', want, others=False)
    _controls(v, u, circs, m, ql, cl, lambda i, k, c, q: [TR.op('x', [c]), TR.rep(x[i], lambda j: [TR.op('cx', [c, q])])])
    _times(v, x, m, lambda i: i)
