"""C08 tomography circuits implement the operators the fitters assume"""
from ast import literal_eval
from contracts.common import *
from pyvc.core import short

reg = Registry('C08')
reg.assumptions += ['qiskit-terra gates have their textbook matrices; QuantumCircuit composition, barrier and measure behave as documented',
                    'matrix identities of the finitely many basis operators compared to 1e-9']
B = IG + 'verification.tomography.basis.'

X, Y, Z = np.array([[0, 1], [1, 0]]), np.array([[0, -1j], [1j, 0]]), np.diag([1, -1])


def bloch(x, y, z):
    return (np.eye(2) + x * X + y * Y + z * Z) / 2


def sic(k):
    """|0> and the three other corners of the tetrahedron"""
    if k == 0:
        return bloch(0, 0, 1)
    ph = [None, 0, -2 * np.pi / 3, 2 * np.pi / 3][k]
    return bloch(2 * np.sqrt(2) / 3 * np.cos(ph), 2 * np.sqrt(2) / 3 * np.sin(ph), -1 / 3)


SPEC_PREP = {'Xp': bloch(1, 0, 0), 'Xm': bloch(-1, 0, 0), 'Yp': bloch(0, 1, 0), 'Ym': bloch(0, -1, 0),
             'Zp': bloch(0, 0, 1), 'Zm': bloch(0, 0, -1)}
SPEC_PREP.update({'S%d' % k: sic(k) for k in range(4)})
SPEC_MEAS = {('X', 0): SPEC_PREP['Xp'], ('X', 1): SPEC_PREP['Xm'], ('Y', 0): SPEC_PREP['Yp'],
             ('Y', 1): SPEC_PREP['Ym'], ('Z', 0): SPEC_PREP['Zp'], ('Z', 1): SPEC_PREP['Zm']}
DEFAULT_PREP = {'Pauli': ('Zp', 'Zm', 'Xp', 'Yp'), 'SIC': ('S0', 'S1', 'S2', 'S3')}


def on_qubits(circ, order):
    """the unitary gates of ``circ`` (no measurement), its matrix in the qubit
    order given, and the measured (qubit position, clbit)"""
    from qiskit import QuantumCircuit
    from qiskit.quantum_info import Operator
    pos = {q: i for i, q in enumerate(order)}
    out = QuantumCircuit(len(order))
    meas = []
    for op, q, c in circ:
        if op.name == 'barrier':
            continue
        if op.name == 'measure':
            meas.append((pos[q[0]], c[0]))
            continue
        if any(pos[x] in [m[0] for m in meas] for x in q):
            raise core.ContractViolation('measurements are final', op.name)
        out.append(op, [pos[x] for x in q])
    return Operator(out).data, meas


def kron_all(ops):
    """ops[i] acts on qubit i (little endian)"""
    m = np.eye(1)
    for o in ops:
        m = np.kron(o, m)
    return m


def close(a, b, tol=1e-9):
    return np.shape(a) == np.shape(b) and np.max(np.abs(np.asarray(a) - np.asarray(b))) < tol


@reg.contract(B + 'paulibasis, ' + B + 'sicbasis: preparation circuits and matrices', mode='F', sizes=[{}], samples=1)
def preparation(v):
    """every label: the circuit prepares the state of the matrix, which is the
    state the label names, on the given qubit only"""
    from qiskit import QuantumRegister
    from qiskit.ignis.verification.tomography import basis as m
    name = v.choice('basis', ['Pauli', 'SIC'])
    b = {'Pauli': m.PauliBasis, 'SIC': m.SICBasis}[name]
    v.ensure('labels', set(b.preparation_labels) == {k for k in SPEC_PREP if (k[0] == 'S') == (name == 'SIC')})
    lab = v.choice('label', sorted(b.preparation_labels))
    k = v.choice('qubit', [0, 1, 2])
    q = QuantumRegister(3, 'q')
    u, meas = on_qubits(b.preparation_circuit(lab, q[k]).data, list(q))
    v.ensure('no measurement', not meas)
    psi = u[:, 0]
    want = kron_all([SPEC_PREP[lab] if i == k else bloch(0, 0, 1) for i in range(3)])
    v.ensure('circuit prepares the named state', close(np.outer(psi, psi.conj()), want))
    v.ensure('matrix is the named state', close(b.preparation_matrix(lab), SPEC_PREP[lab]))


@reg.contract(B + 'paulibasis: measurement circuits and matrices', mode='F', sizes=[{}], samples=1)
def measurement(v):
    """every label and outcome: the circuit measures the projector of the
    measurement matrix, which is the named one, into the given bit"""
    from qiskit import QuantumRegister, ClassicalRegister
    from qiskit.ignis.verification.tomography.basis import PauliBasis as b
    v.ensure('labels', set(b.measurement_labels) == {'X', 'Y', 'Z'})
    lab = v.choice('label', ['X', 'Y', 'Z'])
    k = v.choice('qubit', [0, 1, 2])
    cb = v.choice('clbit', [0, 1])
    q, c = QuantumRegister(3, 'q'), ClassicalRegister(2, 'c')
    u, meas = on_qubits(b.measurement_circuit(lab, q[k], c[cb]).data, list(q))
    v.ensure('measures the qubit into the bit', meas == [(k, c[cb])])
    for out in (0, 1):
        proj = kron_all([np.diag([1 - out, out]) if i == k else np.eye(2) for i in range(3)])
        eff = u.conj().T @ proj @ u
        want = kron_all([SPEC_MEAS[lab, out] if i == k else np.eye(2) for i in range(3)])
        v.ensure('circuit measures the named effect', close(eff, want))
        v.ensure('matrix is the named effect', close(b.measurement_matrix(lab, out), SPEC_MEAS[lab, out]))
        v.ensure('matrix for string outcomes', close(b.measurement_matrix(lab, str(out)), SPEC_MEAS[lab, out]))


@reg.contract(B + 'tomographybasis:TomographyBasis', mode='F', sizes=[{}], samples=1)
def basis_dispatch(v):
    """a basis hands label, qubit and outcome unchanged to its own functions, and
    rejects what is not its own"""
    from qiskit import QuantumRegister, ClassicalRegister, QiskitError
    from qiskit.ignis.verification.tomography.basis import TomographyBasis, SICBasis, PauliBasis
    log = []

    def rec(tag):
        def f(*a):
            log.append((tag,) + a)
            return tag + repr(a)
        return f
    b = TomographyBasis('T', measurement=(('a', 'b'), rec('mc'), rec('mm')), preparation=(('p', 'r'), rec('pc'), rec('pm')))
    q, c = QuantumRegister(2), ClassicalRegister(2)
    lab = v.choice('lab', ['a', 'b'])
    pl = v.choice('pl', ['p', 'r'])
    out = v.choice('out', [0, 1, '0', '1'])
    v.ensure('measurement circuit', b.measurement_circuit(lab, q[1], c[0]) == 'mc' + repr((lab, q[1], c[0])))
    v.ensure('measurement matrix', b.measurement_matrix(lab, out) == 'mm' + repr((lab, out)))
    v.ensure('preparation circuit', b.preparation_circuit(pl, q[1]) == 'pc' + repr((pl, q[1])))
    v.ensure('preparation matrix', b.preparation_matrix(pl) == 'pm' + repr((pl,)))
    v.ensure('flags and labels', b.measurement is True and b.preparation is True and tuple(b.measurement_labels) == ('a', 'b')
             and tuple(b.preparation_labels) == ('p', 'r') and b.name == 'T')
    v.ensure_raises('unknown measurement label', ValueError, b.measurement_circuit, 'p', q[0], c[0])
    v.ensure_raises('unknown preparation label', ValueError, b.preparation_circuit, 'a', q[0])
    v.ensure_raises('unknown measurement label (matrix)', ValueError, b.measurement_matrix, 'p', 0)
    v.ensure_raises('unknown preparation label (matrix)', ValueError, b.preparation_matrix, 'a')
    v.ensure_raises('unknown outcome', ValueError, b.measurement_matrix, 'a', 2)
    v.ensure_raises('not a qubit', QiskitError, b.preparation_circuit, 'p', 0)
    v.ensure_raises('not a bit', QiskitError, b.measurement_circuit, 'a', q[0], 0)
    half = TomographyBasis('H', measurement=(('a', 'b'), rec('mc'), rec('mm')))
    v.ensure('a basis without preparations says so', half.preparation is False and half.preparation_labels is None and half.measurement is True)
    v.ensure_raises('no preparation matrix', QiskitError, half.preparation_matrix, 'a')
    v.ensure_raises('no preparation circuit', QiskitError, half.preparation_circuit, 'a', q[0])
    half = TomographyBasis('H', preparation=(('p', 'r'), rec('pc'), rec('pm')))
    v.ensure('a basis without measurements says so', half.measurement is False and half.measurement_labels is None and half.preparation is True)
    v.ensure_raises('no measurement matrix', QiskitError, half.measurement_matrix, 'p', 0)
    v.ensure('SIC is no measurement basis', SICBasis.measurement is False and SICBasis.measurement_labels is None)
    v.ensure_raises('SIC measurement rejected', QiskitError, SICBasis.measurement_circuit, 'S0', q[0], c[0])
    v.ensure_raises('Pauli: SIC label rejected', ValueError, PauliBasis.preparation_circuit, 'S0', q[0])


def under_test(kind, n, ncl=0):
    """a circuit containing one opaque gate on all its qubits: stands for every
    circuit.  kind: one register or two"""
    from qiskit import QuantumRegister, QuantumCircuit, ClassicalRegister
    from qiskit.circuit import Gate
    if kind == 'two' and n > 1:
        regs = [QuantumRegister(n - 1, 'zz'), QuantumRegister(1, 'aa')]
    else:
        regs = [QuantumRegister(n, 'q')]
    if ncl:
        regs.append(ClassicalRegister(ncl, 'old'))
    c = QuantumCircuit(*regs)
    c.append(Gate('opaque', n, []), list(c.qubits))
    return c


def as_arg(v, circ, qubits, name):
    how = v.choice(name, ['ints', 'bits', 'tuple'])
    if how == 'ints':
        return list(qubits)
    if how == 'tuple':
        return tuple(qubits)
    return [circ.qubits[i] for i in qubits]


def split(circ, cut):
    """(instructions before, opaque, after)"""
    data = list(circ.data)
    idx = [i for i, (op, _, _) in enumerate(data) if op.name == 'opaque']
    if len(idx) != 1:
        raise core.ContractViolation('circuit under test occurs once', '%d times' % len(idx))
    i = idx[0]
    if list(data[i][1]) != list(cut.qubits):
        raise core.ContractViolation('circuit under test acts on its own qubits', repr(data[i][1]))
    return data[:i], data[i + 1:]


def check_circuit(v, circ, cut, prep, pq, meas, mq):
    n = len(cut.qubits)
    before, after = split(circ, cut)
    u1, m1 = on_qubits(before, list(cut.qubits))
    v.ensure('nothing is measured before the circuit under test', not m1)
    want = [bloch(0, 0, 1)] * n
    if prep is not None:
        for j, l in enumerate(prep):
            want[pq[j]] = SPEC_PREP[l]
    v.ensure('prepares the named states on the prepared qubits', close(np.outer(u1[:, 0], u1[:, 0].conj()), kron_all(want)))
    u2, m2 = on_qubits(after, list(cut.qubits))
    # clbit j of the tomography register (the rightmost bits of the counts key)
    cl = list(circ.clbits)
    got = {cl.index(c): q for q, c in m2}
    v.ensure('measures qubit j into bit j', got == {j: mq[j] for j in range(len(mq))} and len(m2) == len(mq), lambda: short((got, mq)))
    for outs in itertools.product((0, 1), repeat=len(mq)):
        proj, eff = [np.eye(2)] * n, [np.eye(2)] * n
        for j, q in enumerate(mq):
            proj[q] = np.diag([1 - outs[j], outs[j]])
            eff[q] = SPEC_MEAS[meas[j], outs[j]]
        v.ensure('measures the named effects on the measured qubits',
                 close(u2.conj().T @ kron_all(proj) @ u2, kron_all(eff)))


QSEL = [{'n': 1, 'qs': [0]}, {'n': 2, 'qs': [0, 1]}, {'n': 2, 'qs': [1, 0]}, {'n': 2, 'qs': [1]}, {'n': 3, 'qs': [2, 0]}, {'n': 3, 'qs': [1, 2, 0]}]


@reg.contract(B + 'circuits:state_tomography_circuits', mode='S', sizes=QSEL, rsizes=[{'n': 4, 'qs': [3, 0, 2]}], samples=1)
def state_circuits(v, n, qs):
    """state_tomography_circuits(circuit, qubits) for an arbitrary circuit"""
    from qiskit.ignis.verification.tomography import state_tomography_circuits
    cut = under_test(v.choice('regs', ['one', 'two']), n, v.choice('ncl', [0, 2]))
    size = len(cut.data)
    arg = as_arg(v, cut, qs, 'arg')
    labels = v.choice('labels', [None, ('Z', 'Y')])
    if labels is None:
        circs = state_tomography_circuits(cut, arg)
        labels = ('X', 'Y', 'Z')
    else:
        circs = state_tomography_circuits(cut, arg, meas_labels=labels)
    names = [literal_eval(c.name) for c in circs]
    v.ensure('one circuit per label tuple', sorted(names) == sorted(itertools.product(labels, repeat=len(qs))))
    for c, lab in zip(circs, names):
        check_circuit(v, c, cut, None, None, lab, qs)
    v.ensure('circuit under test unchanged', len(cut.data) == size and len(cut.cregs) <= 1)


@reg.contract(B + 'circuits:state_tomography_circuits (register)', mode='S', sizes=[{'n': 1}, {'n': 2}], rsizes=[{'n': 1}, {'n': 2}, {'n': 3}], samples=4)
def state_register(v, n):
    """measured_qubits may be a register; string labels are split"""
    from qiskit.ignis.verification.tomography import state_tomography_circuits
    cut = under_test(v.choice('regs', ['one', 'two']), n)
    q = cut.qregs[v.choice('reg', list(range(len(cut.qregs))))]
    if v.choice('listed', [False, True]):
        q = list(cut.qregs)[::-1]
        qs = [cut.qubits.index(b) for r in q for b in r]
    else:
        qs = [cut.qubits.index(b) for b in q]
    circs = state_tomography_circuits(cut, q)
    names = [literal_eval(c.name) for c in circs]
    v.ensure('one circuit per label tuple', sorted(names) == sorted(itertools.product('XYZ', repeat=len(qs))))
    for c, lab in zip(circs, names):
        check_circuit(v, c, cut, None, None, lab, qs)
    want = [tuple(x) for x in itertools.product('XZ', repeat=len(qs))][::-1]
    circs = state_tomography_circuits(cut, q, meas_labels=want)
    v.ensure('explicit label list', [literal_eval(c.name) for c in circs] == want)
    for c, lab in zip(circs, want):
        check_circuit(v, c, cut, None, None, lab, qs)


PSEL = [{'n': 1, 'mq': [0], 'pq': None, 'basis': b} for b in ('Pauli', 'SIC')] + \
       [{'n': 2, 'mq': [1], 'pq': [0], 'basis': b} for b in ('Pauli', 'SIC')] + \
       [{'n': 2, 'mq': [0], 'pq': None, 'basis': 'Pauli'}, {'n': 2, 'mq': [1, 0], 'pq': None, 'basis': 'SIC'},
        {'n': 2, 'mq': [0, 1], 'pq': None, 'basis': 'Pauli'},
        {'n': 3, 'mq': [0, 2], 'pq': [1, 0], 'basis': 'Pauli'}, {'n': 3, 'mq': [2, 1], 'pq': [0, 1], 'basis': 'SIC'},
        {'n': 3, 'mq': [0, 1, 2], 'pq': [2, 0, 1], 'basis': 'few'}, {'n': 4, 'mq': [3, 1, 0], 'pq': [1, 0, 2], 'basis': 'few'}]


@reg.contract(B + 'circuits:process_tomography_circuits', mode='S', sizes=PSEL, samples=1)
def process_circuits(v, n, mq, pq, basis):
    """process_tomography_circuits(circuit, measured, prepared) for an arbitrary circuit"""
    from qiskit.ignis.verification.tomography import process_tomography_circuits
    cut = under_test(v.choice('regs', ['one', 'two'] if len(mq) == 1 else ['one']), n)
    kw = {} if basis == 'Pauli' else {'prep_labels': basis, 'prep_basis': basis}
    plabels, mlabels = DEFAULT_PREP.get(basis), 'XYZ'
    if basis == 'few':
        plabels, mlabels = ('Zm', 'Yp'), ('X', 'Z')
        kw = {'prep_labels': plabels, 'meas_labels': mlabels}
    if basis == 'Pauli' and len(mq) == 1 and v.choice('labels', ['default', 'all']) == 'all':
        plabels = ('Xp', 'Xm', 'Yp', 'Ym', 'Zp', 'Zm')
        kw['prep_labels'] = plabels
    if pq is None:
        circs = process_tomography_circuits(cut, as_arg(v, cut, mq, 'arg'), **kw)
    else:
        circs = process_tomography_circuits(cut, as_arg(v, cut, mq, 'arg'), as_arg(v, cut, pq, 'arg'), **kw)
    names = [literal_eval(c.name) for c in circs]
    want = [(p, m) for p in itertools.product(plabels, repeat=len(mq)) for m in itertools.product(mlabels, repeat=len(mq))]
    v.ensure('one circuit per pair of label tuples', sorted(names) == sorted(want))
    for i in range(len(circs)):
        check_circuit(v, circs[i], cut, names[i][0], pq or mq, names[i][1], mq)


@reg.contract(B + 'circuits', mode='B', samples=1)
def rejects(v):
    """inconsistent requests are rejected"""
    from qiskit import QuantumCircuit, QiskitError
    from qiskit.ignis.verification.tomography import process_tomography_circuits, state_tomography_circuits
    c = QuantumCircuit(3)
    v.ensure_raises('different numbers of qubits', QiskitError, process_tomography_circuits, c, [0, 1], [0])
    for rq in ([0, 0], [0, 1, 1], [1, 2, 1], [2, 0, 0], (1, 0, 1), [c.qubits[0], c.qubits[2], c.qubits[2]], [c.qregs[0], c.qubits[2]]):
        v.ensure_raises('repeated qubit', QiskitError, state_tomography_circuits, c, rq)
        if len(rq) == 3:
            v.ensure_raises('repeated prepared qubit', QiskitError, process_tomography_circuits, c, [0, 1, 2], rq)
            v.ensure_raises('repeated measured qubit', QiskitError, process_tomography_circuits, c, rq, [0, 1, 2])
    v.ensure_raises('SIC is no measurement basis', (QiskitError, ValueError), state_tomography_circuits, c, [0], meas_labels='Pauli', meas_basis='SIC')
    v.ensure_raises('unknown basis', ValueError, state_tomography_circuits, c, [0], meas_basis='nope')
    v.ensure_raises('unknown label', ValueError, state_tomography_circuits, c, [0], meas_labels=('A',))
    v.ensure_raises('labels without basis', ValueError, state_tomography_circuits, c, [0], meas_basis=None)


@reg.contract(B + 'circuits:tomography_circuit_tuples', mode='S', sizes=[{'n': 1}, {'n': 2}], samples=1,
              needs=[B + 'circuits.tomography_circuit_tuples'])
def tuples(v, n):
    """tomography_circuit_tuples(n, meas, prep): all pairs of preparation
    and measurement labels (the documentation does not fix the order in a pair)"""
    from qiskit.ignis.verification.tomography.basis.circuits import tomography_circuit_tuples
    pb = v.choice('prep', ['Pauli', 'SIC'])
    got = tomography_circuit_tuples(n, 'Pauli', pb)
    want = [(p, m) for p in itertools.product(DEFAULT_PREP[pb], repeat=n) for m in itertools.product('XYZ', repeat=n)]
    v.ensure('all pairs once', sorted(got) in (sorted(want), sorted((m, p) for p, m in want)))


@reg.contract(B + 'circuits', mode='B', sizes=[{'n': 2}, {'n': 3}], samples=4)
def end_to_end(v, n):
    """outcome distribution of every circuit for a random circuit under test
    equals Tr(effect * channel(prepared state))"""
    from qiskit import QuantumCircuit
    from qiskit.extensions import UnitaryGate
    from qiskit.ignis.verification.tomography import process_tomography_circuits
    r = nprng(v)
    u = random_unitary(r, 2 ** n)
    cut = QuantumCircuit(n)
    cut.append(UnitaryGate(u), range(n))
    perm = [int(x) for x in r.permutation(n)]
    k = v.choice('k', [1, 2] if n == 2 else [1])
    mq, pq = perm[:k], [int(x) for x in r.permutation(n)][:k]
    circs = process_tomography_circuits(cut, mq, pq)
    idx = r.choice(len(circs), 12, replace=False)
    for i in idx:
        c = circs[int(i)]
        p, m = literal_eval(c.name)
        rho = [bloch(0, 0, 1)] * n
        for j, l in enumerate(p):
            rho[pq[j]] = SPEC_PREP[l]
        rho = u @ kron_all(rho) @ u.conj().T
        dist = distribution(c)
        for outs in itertools.product((0, 1), repeat=k):
            eff = [np.eye(2)] * n
            for j, q in enumerate(mq):
                eff[q] = SPEC_MEAS[m[j], outs[j]]
            key = ''.join(str(o) for o in reversed(outs))
            v.ensure('outcome probability', abs(np.trace(kron_all(eff) @ rho).real - dist.get(key, 0)) < 1e-7)
