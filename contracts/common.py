"""Shared pieces of the contract harnesses: stand-ins for the dependencies
(results, circuits), independent specification functions."""
import itertools
import math

import numpy as np

from pyvc import core
from pyvc.core import and_, or_, not_, implies, ite, seq, is_sym, Unsupported
from pyvc.rt import Registry, Skip

IG = 'qiskit.ignis.'


# ------------------------------------------------------------------ results
class _Hdr:
    def __init__(self, name, **kw):
        self.name = name
        self.__dict__.update(kw)


class _Exp:
    def __init__(self, name, counts, shots):
        self.header = _Hdr(name)
        self.counts = counts
        self.shots = shots
        self.success = True


class FakeResult:
    """stand-in for qiskit.result.Result: an ordered list of named experiments
    with counts (assumed contract of Result: get_counts(name) returns the counts
    stored under that name, QiskitError when there is none)"""

    def __init__(self, named_counts):
        if isinstance(named_counts, dict):
            named_counts = list(named_counts.items())
        self.results = [_Exp(n, c, None) for n, c in named_counts]

    def get_counts(self, key=None):
        from qiskit import QiskitError, QuantumCircuit
        if key is None and len(self.results) == 1:
            return dict(self.results[0].counts)
        if isinstance(key, int):
            return dict(self.results[key].counts)
        if hasattr(key, 'name'):
            key = key.name
        for e in self.results:
            if e.header.name == key:
                return dict(e.counts)
        raise QiskitError('no data for experiment "%s"' % key)


def real_result(named_counts, n_clbits, memory=None, creg_sizes=None):
    """a genuine qiskit Result"""
    from qiskit.result import Result
    exps = []
    for n, c in named_counts:
        shots = int(sum(c.values()))
        hx = {hex(int(k.replace(' ', ''), 2)): x for k, x in c.items()}
        exps.append({'shots': shots, 'success': True, 'status': 'DONE', 'meas_level': 2,
                     'data': {'counts': hx},
                     'header': {'name': n, 'memory_slots': n_clbits,
                                'creg_sizes': creg_sizes or [['c', n_clbits]]}})
    return Result.from_dict({'backend_name': 'x', 'backend_version': '0', 'qobj_id': '0', 'job_id': '0',
                             'success': True, 'results': exps, 'status': 'COMPLETED', 'date': None,
                             'header': {}})


def bitstrings(n):
    """all n-bit strings in increasing numerical order (specification)"""
    return [''.join(b) for b in itertools.product('01', repeat=n)]


def counts_input(v, name, n, hi=60, positive=True, drop=True):
    """symbolic counts over all n-bit strings"""
    keys = bitstrings(n)
    if v.symbolic:
        c = {k: v.int('%s_%s' % (name, k), 0) for k in keys}
    else:
        c = {k: v.int('%s_%s' % (name, k), 0, hi) for k in keys}
    if positive:
        tot = sum(c.values())
        v.require(tot > 0)
    return c


def drop_zeros(c):
    """the form the simulators return: no zero entries (concrete runs only)"""
    return {k: x for k, x in c.items() if is_sym(x) or x != 0}


def perms(n):
    return list(itertools.permutations(range(n)))


# ---------------------------------------------------------- recorded circuits
class RecBit:
    def __init__(self, reg, index):
        self.register = reg
        self.index = index

    def __repr__(self):
        return '%s[%s]' % (self.register.name, self.index)


class RecRegister:
    """stand-in for QuantumRegister/ClassicalRegister in a symbolic run"""
    _n = 0

    def __init__(self, size=None, name=None):
        RecRegister._n += 1
        self.size = size
        self.name = name or 'r%d' % RecRegister._n

    def __getitem__(self, i):
        if isinstance(i, slice):
            raise Unsupported('register slice')
        if not (is_sym(i) or isinstance(i, (int, np.integer))):
            raise Unsupported('register index %r' % (i,))
        if bool(or_(i < 0, i >= self.size)):
            raise IndexError('register index out of range')
        return RecBit(self, i)

    def __len__(self):
        return int(self.size)

    def __iter__(self):
        for i in range(int(self.size)):
            yield RecBit(self, i)


class RecCircuit:
    """stand-in for QuantumCircuit in a symbolic run: an append-only list of
    (operation, bits).  Assumed contract of QuantumCircuit."""
    SIMPLE = {'x', 'y', 'z', 'h', 's', 'sdg', 'cx', 'cz', 'i', 'id', 'iden', 'barrier', 't', 'tdg',
              'swap', 'reset'}

    def __init__(self, *regs, name=None, **kw):
        self.regs = list(regs)
        self.name = name
        self.ops = []

    @property
    def qregs(self):
        return [r for r in self.regs if isinstance(r, RecQReg)]

    @property
    def cregs(self):
        return [r for r in self.regs if isinstance(r, RecCReg)]

    def measure(self, q, c):
        self.ops.append(('measure', (q, c)))

    def append(self, gate, qargs=None, cargs=None):
        self.ops.append((gate, tuple(qargs or ())))

    def add_register(self, *r):
        self.regs += list(r)

    def __getattr__(self, name):
        if name in RecCircuit.SIMPLE:
            def f(*bits):
                self.ops.append((name, bits))
            return f
        raise Unsupported('circuit method ' + name)


class RecQReg(RecRegister):
    pass


class RecCReg(RecRegister):
    pass


REC = {'QuantumCircuit': RecCircuit, 'QuantumRegister': RecQReg, 'ClassicalRegister': RecCReg}


class RecQiskit:
    """stand-in for the ``qiskit`` module in a symbolic run"""
    QuantumCircuit = RecCircuit
    QuantumRegister = RecQReg
    ClassicalRegister = RecCReg

    def __getattr__(self, name):
        import qiskit
        return getattr(qiskit, name)


def flips_and_measures(circ):
    """reads a circuit of x/barrier/measure operations (recorded or genuine):
    (list of (qubit index) x, list of (qubit index, clbit index) measured after
    all flips).  Anything else: None"""
    xs, ms = [], []
    if isinstance(circ, RecCircuit):
        for op, bits in circ.ops:
            if op in ('barrier', 'i', 'id', 'iden'):
                continue
            if op == 'x' and len(bits) == 1 and isinstance(bits[0], RecBit):
                if ms:
                    raise Unsupported('gate after a measurement')
                xs.append(bits[0].index)
            elif op == 'measure' and isinstance(bits[0], RecBit):
                ms.append((bits[0].index, bits[1].index))
            else:
                raise Unsupported('operation %r' % (op,))
        return xs, ms
    raise TypeError


# ------------------------------------------------ genuine circuits (concrete)
def measure_map(circ):
    """[(qubit position, clbit position)] of a genuine circuit, in order"""
    qi = {b: i for i, b in enumerate(circ.qubits)}
    ci = {b: i for i, b in enumerate(circ.clbits)}
    return [(qi[q[0]], ci[c[0]]) for op, q, c in circ.data if op.name == 'measure']


def strip_measure(circ):
    """the unitary part of a genuine circuit; every measurement must be final on
    its qubit"""
    from qiskit import QuantumCircuit
    out = QuantumCircuit(len(circ.qubits))
    qi = {b: i for i, b in enumerate(circ.qubits)}
    done = set()
    for op, q, c in circ.data:
        qs = [qi[x] for x in q]
        if op.name == 'measure':
            done.add(qs[0])
            continue
        if op.name in ('barrier', 'snapshot', 'save_expval'):
            continue
        if done & set(qs):
            raise core.ContractViolation('measurements are final', 'gate %s after measurement' % op.name)
        out.append(op, qs)
    return out


def unitary(circ):
    from qiskit.quantum_info import Operator
    return Operator(strip_measure(circ)).data


def statevector(circ):
    from qiskit.quantum_info import Statevector
    c = strip_measure(circ)
    return Statevector.from_instruction(c).data


def distribution(circ):
    """probabilities of the classical outcomes (string over all clbits, clbit 0
    rightmost) of a genuine circuit started in |0..0>; independent of qiskit's
    counts formatting"""
    psi = statevector(circ)
    p = np.abs(psi) ** 2
    mm = measure_map(circ)
    n = len(circ.clbits)
    out = {}
    for idx, pr in enumerate(p):
        if pr < 1e-12:
            continue
        bits = ['0'] * n
        for q, c in mm:
            bits[c] = str((idx >> q) & 1)
        key = ''.join(reversed(bits))
        out[key] = out.get(key, 0.0) + float(pr)
    return out


def phase_equal(a, b, tol=1e-7):
    """equality of matrices up to a global phase"""
    a = np.asarray(a)
    b = np.asarray(b)
    if a.shape != b.shape:
        return False
    k = np.unravel_index(np.argmax(np.abs(b)), b.shape)
    if abs(a[k]) < 1e-12:
        return False
    ph = b[k] / a[k]
    return bool(abs(abs(ph) - 1) < 1e-6 and np.max(np.abs(a * ph - b)) < tol)


def is_identity(u, tol=1e-7):
    return phase_equal(u, np.eye(len(u)), tol)


def nprng(v, name='np'):
    return np.random.RandomState(v.int(name + '_seed', 0, 2 ** 31 - 1))


def random_unitary(r, d):
    m = r.randn(d, d) + 1j * r.randn(d, d)
    q, rr = np.linalg.qr(m)
    return q * (np.diag(rr) / np.abs(np.diag(rr)))


def random_density(r, d, rank=None):
    m = r.randn(d, rank or d) + 1j * r.randn(d, rank or d)
    rho = m @ m.conj().T
    return rho / np.trace(rho)


def random_stochastic(r, d, eps=0.35):
    """column stochastic, diagonally dominant"""
    m = r.rand(d, d)
    m = m / m.sum(axis=0)
    return (1 - eps) * np.eye(d) + eps * m
