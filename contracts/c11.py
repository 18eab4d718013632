"""C11 randomized benchmarking sequences compose to the identity"""
from contracts.common import *
from pyvc.core import short

reg = Registry('C11')
reg.assumptions += ['QuantumCircuit composition, barrier and measure behave as documented',
                    'proved part: RBgroup is represented by the free group on its random draws (an identity of the free group '
                    'holds in every group); RBgroup itself is under run-time contract below, CNOTDihedral under C12']
R = IG + 'verification.randomized_benchmarking.'
CI = R + 'circuits'


# ---------------------------------------------------------------- free group
def reduce_word(w):
    out = []
    for x in w:
        if out and out[-1] == (x[0], -x[1]):
            out.pop()
        else:
            out.append(x)
    return tuple(out)


def word_circuit(word, n):
    from qiskit import QuantumCircuit
    from qiskit.circuit import Gate
    c = QuantumCircuit(n)
    g = Gate('word', n, [])
    g.word = word
    c.append(g, range(n))
    return c


def make_elem(kind, word, n):
    from qiskit.quantum_info import Clifford
    from qiskit.ignis.verification.randomized_benchmarking import CNOTDihedral
    base = CNOTDihedral if kind else Clifford

    class Elem(base):
        def __init__(self, word, n):            # no group representation: a word
            self.word = word
            self.n = n

        num_qubits = property(lambda self: self.n)

        def compose(self, o, *a, **k):
            return Elem(self.word + o.word, self.n)

        def dot(self, o, *a, **k):
            return Elem(o.word + self.word, self.n)

        def inverse(self):
            return Elem(tuple((x, -s) for x, s in reversed(self.word)), self.n)
        adjoint = inverse

        def to_circuit(self):
            return word_circuit(self.word, self.n)
        to_instruction = to_circuit

        def __getattr__(self, name):
            return unknown(name)
    return Elem(word, n)


def unknown(name):
    """the code asks the stand-in for something else than a group operation"""
    if name.startswith('__'):
        raise AttributeError(name)
    raise Skip('group operation outside the stand-in: ' + name)


class FreeMeta(type):
    def __getattr__(cls, name):
        return unknown(name)


class FreeRBgroup(metaclass=FreeMeta):
    """stand-in for RBgroup: the free group on the random draws"""
    draws = 0
    log = None

    def __init__(self, group_gates, num_qubits=2):
        self.kind = 1 if group_gates == '1' else 0
        self.n = num_qubits

    def num_qubits(self):
        return self.n

    def group_gates_type(self):
        return self.kind

    def rb_circ_type(self):
        return 'rb_cnotdihedral' if self.kind else 'rb'

    def iden(self, num_qubits):
        return make_elem(self.kind, (), num_qubits)

    def random(self, num_qubits, rand_seed=None):
        FreeRBgroup.draws += 1
        return make_elem(self.kind, ((('r', FreeRBgroup.draws), 1),), num_qubits)

    @staticmethod
    def compose(elem, other):
        return elem.compose(other)

    @staticmethod
    def inverse(elem):
        return word_circuit(tuple((x, -s) for x, s in reversed(elem.word)), elem.n)

    @staticmethod
    def to_circuit(elem):
        return elem.to_circuit()

    def __getattr__(self, name):
        return unknown(name)


def free(v):
    """the stand-in in run-time evaluations"""
    if not v.symbolic:
        v.replace(R + 'rb_groups.RBgroup', FreeRBgroup)


def words_of(v, circ, pattern, h_frame=False):
    """per pattern the list of words applied; ops other than words: list"""
    qi = {b: i for i, b in enumerate(circ.qubits)}
    out = [[] for _ in pattern]
    frame, tail = [], []
    for op, q, c in circ.data:
        if op.name in ('barrier',):
            continue
        qs = [qi[x] for x in q]
        if op.name == 'word':
            v.ensure('an element acts on exactly the qubits of its pattern', qs in [list(p) for p in pattern], lambda: short((qs, pattern)))
            v.ensure('nothing is applied after the final rotations', not tail)
            out[[list(p) for p in pattern].index(qs)].append(op.word)
        elif op.name == 'measure':
            tail.append(('m', qs[0], list(circ.clbits).index(c[0])))
        else:
            if any(out):
                tail.append((op.name, qs[0], tuple(float(x) for x in op.params)))
            else:
                frame.append((op.name, qs[0]))
    return out, frame, tail


PATTERNS = [[[0]], [[11, 2], [10]], [[1]], [[0, 1]], [[1, 0]], [[2], [0, 1]], [[3, 1], [0], [2]], [[0], [1]]]


def check_words(v, words, length, mult, interleaved):
    """product is the identity of the free group; letters = random draws"""
    v.ensure('composes to the identity', reduce_word([x for w in words for x in w]) == ())
    v.ensure('ends with the inverse of the whole sequence', len(words) > 0)
    body = words[:-1]
    k = 2 if interleaved else 1
    v.ensure('requested number of group elements', len(body) == k * length * mult, lambda: short((len(body), length, mult)))
    v.ensure('every element is a single group element', all(len(w) == 1 and w[0][1] == 1 for w in body))
    rand = body[0::k]
    v.ensure('elements are drawn afresh', len(set(rand)) == len(rand) and all(w[0][0][0] == 'r' for w in rand))
    if interleaved:
        v.ensure('the interleaved element follows every element', all(w[0][0][0] == 't' for w in body[1::2]) and len(set(body[1::2])) == 1)
    return rand


@reg.contract(CI + ':randomized_benchmarking_seq', mode='S',
              sizes=[{'pattern': p, 'kind': k} for p in PATTERNS for k in ('plain', 'interleaved', 'cnotdihedral', 'cnotdihedral_interleaved')],
              mods=[CI], extra={'RBgroup': FreeRBgroup}, samples=4)
def free_group(v, pattern, kind):
    """for every group and all random elements (free group): all circuits"""
    from qiskit.ignis.verification.randomized_benchmarking import randomized_benchmarking_seq
    free(v)
    wide = pattern[0][0] > 9
    lengths = list(v.choice('lengths', [tuple(range(1, 13))] if wide else [(1,), (2, 3), (1, 2, 5)]))
    multi = v.choice('mult', [5, 'list'] if wide else [1, 2, 'list'])
    ml = [1 + (i + 1) % 3 for i in range(len(pattern))] if multi == 'list' else [multi] * len(pattern)
    nseeds = v.choice('nseeds', [1, 2])
    off = v.choice('off', [9] if wide else [0, 7])
    gg = '1' if kind.startswith('cnot') else None
    inter = kind.endswith('interleaved')
    kw = {}
    if inter:
        kw['interleaved_elem'] = [make_elem(1 if gg else 0, ((('t', i), 1),), len(p)) for i, p in enumerate(pattern)]
    res = randomized_benchmarking_seq(nseeds=nseeds, length_vector=list(lengths), rb_pattern=[list(p) for p in pattern],
                                      length_multiplier=ml if multi == 'list' else multi, seed_offset=off,
                                      align_cliffs=v.choice('align', [False, True]), group_gates=gg, **kw)
    circs, xdata, rest = res[0], res[1], list(res[2:])
    v.ensure('number of returned fields', len(res) == 2 + (1 if gg else 0) + (1 if inter else 0) + (1 if gg and inter else 0))
    v.ensure('x axis is length times multiplier', np.array_equal(np.asarray(xdata), [[l * m for l in lengths] for m in ml]))
    base = 'rb_cnotdihedral' if gg else 'rb'
    sets = [(circs, '_Z' if gg else '', False, False)]
    if gg:
        sets.append((rest[0], '_X', True, False))
        rest = rest[1:]
    if inter:
        sets.append((rest[0], '_interleaved' + ('_Z' if gg else ''), False, True))
        if gg:
            sets.append((rest[1], '_interleaved_X', True, True))
    flat = [q for p in pattern for q in p]
    drawn = {}
    for cs, tag, frame_h, isint in sets:
        v.ensure('one list per seed, one circuit per length', len(cs) == nseeds and all(len(x) == len(lengths) for x in cs))
        for s in range(nseeds):
            prev = None
            for li, length in enumerate(lengths):
                c = cs[s][li]
                v.ensure('name', c.name == '%s%s_length_%d_seed_%d' % (base, tag, li, s + off), lambda: c.name)
                words, frame, tail = words_of(v, c, pattern)
                here = [check_words(v, w, length, ml[i], isint) for i, w in enumerate(words)]
                if prev is not None:
                    v.ensure('longer sequences extend shorter ones', all(a == b[:len(a)] for a, b in zip(prev, here)))
                prev = here
                key = (s, li)
                v.ensure('all circuits of a seed and length use the same random elements', drawn.setdefault(key, here) == here)
                meas = [('m', q, i) for i, q in enumerate(flat)]
                v.ensure('measures the pattern qubits in order', sorted(x for x in tail if x[0] == 'm') == sorted(meas))
                gates = [x for x in tail if x[0] != 'm']
                if frame_h:
                    v.ensure('Hadamard frame on all pattern qubits', sorted(frame) == sorted(('h', q) for q in flat) and
                             sorted(gates) == sorted(('h', q, ()) for q in flat))
                else:
                    v.ensure('no other gates', not frame and not gates)
    if nseeds == 2:
        v.ensure('seeds are independent', all(set(a).isdisjoint(b) for a, b in zip(drawn[0, 0], drawn[1, 0])))


@reg.contract(CI + ':randomized_benchmarking_seq (purity)', mode='S', sizes=[{'pattern': p} for p in ([[0]], [[1], [0]], [[1, 0]], [[0, 2], [3, 1]], [[0, 1, 2]])],
              mods=[CI], extra={'RBgroup': FreeRBgroup}, samples=2)
def free_group_purity(v, pattern):
    """purity circuits: the same sequence with the named final rotations"""
    from qiskit.ignis.verification.randomized_benchmarking import randomized_benchmarking_seq
    free(v)
    lengths = list(v.choice('lengths', [(1,), (1, 3)]))
    circs, xdata, npur = randomized_benchmarking_seq(nseeds=2, length_vector=list(lengths), rb_pattern=[list(p) for p in pattern],
                                                     is_purity=True, seed_offset=1)
    dim = len(pattern[0])
    v.ensure('3^n settings', npur == 3 ** dim and all(len(c) == npur for c in circs) and len(circs) == 2)
    flat = [q for p in pattern for q in p]
    for s in range(2):
        for li, length in enumerate(lengths):
            names, seqs = [], []
            for d in range(npur):
                c = circs[s][d][li]
                words, frame, tail = words_of(v, c, pattern)
                seqs.append([check_words(v, w, length, 1, False) for w in words])
                v.ensure('name', c.name.startswith('rb_purity_') and c.name.endswith('_length_%d_seed_%d' % (li, s + 1)), lambda: c.name)
                lab = c.name[len('rb_purity_'):].split('_')[0]
                names.append(lab)
                v.ensure('label', len(lab) == dim and set(lab) <= set('XYZ'))
                want = []
                for p in pattern:
                    for k, ch in enumerate(lab):
                        if ch != 'Z':
                            want.append(('rx' if ch == 'X' else 'ry', p[k], (round(np.pi / 2, 9),)))
                got = [(n, q, tuple(round(x, 9) for x in ps)) for n, q, ps in [x for x in tail if x[0] != 'm']]
                v.ensure('quarter turns about the named axes on the named qubits', sorted(got) == sorted(want) and not frame, lambda: short((lab, got)))
                v.ensure('measured after the rotations', [x[0] for x in tail][len(got):] == ['m'] * len(flat) and
                         sorted(x[1:] for x in tail[len(got):]) == sorted((q, i) for i, q in enumerate(flat)))
            v.ensure('every setting once', len(set(names)) == npur)
            v.ensure('same sequence in every setting', all(x == seqs[0] for x in seqs))
            v.ensure('the setting index is the label in base 3, first qubit least significant',
                     all(names[d] == ''.join('ZXY'[(d // 3 ** k) % 3] for k in range(dim)) for d in range(npur)))


# ------------------------------------------------------------ run-time part
def cliff_elem(v, r, n, group):
    """an interleaved element in one of the accepted forms and its unitary"""
    from qiskit import QuantumCircuit
    from qiskit.circuit.library import XGate, CXGate, SGate, TGate, U1Gate
    from qiskit.quantum_info import Clifford, Operator
    from qiskit.ignis.verification.randomized_benchmarking import CNOTDihedral
    qc = QuantumCircuit(n)
    for _ in range(3):
        q = int(r.randint(n))
        if n > 1 and r.rand() < 0.5:
            q2 = int((q + 1 + r.randint(n - 1)) % n)
            qc.cx(q, q2)
        else:
            (qc.x if r.rand() < 0.4 else ((lambda x: qc.append(U1Gate(np.pi / 4), [x])) if group else qc.h))(q)
    how = v.choice('how%d' % n, ['circuit', 'element', 'instruction'])
    u = Operator(qc).data
    if how == 'circuit':
        return qc, u
    if how == 'instruction':
        g = CXGate() if n == 2 else (TGate() if group else SGate()) if n == 1 else None
        if g is None:
            return qc, u
        c2 = QuantumCircuit(n)
        c2.append(g, range(n))
        return g, Operator(c2).data
    e = CNOTDihedral(n) if group else Clifford(qc)
    return (e.from_circuit(qc) if group else e), u


@reg.contract(CI + ':randomized_benchmarking_seq; ' + R + 'rb_groups:RBgroup', mode='B',
              sizes=[{'group': g} for g in (None, '0', 'Clifford', '1', 'CNOT-Dihedral', 'Non-Clifford')], samples=4, budget=100)
def real_groups(v, group):
    """circuits of the real groups are the identity up to phase before measurement"""
    from qiskit.ignis.verification.randomized_benchmarking import randomized_benchmarking_seq
    from qiskit.quantum_info import Operator
    r = nprng(v)
    cd = group in ('1', 'CNOT-Dihedral', 'Non-Clifford')
    pattern = v.choice('pattern', [[[0]], [[1, 0]], [[2], [0, 1]], [[0], [2], [1]]] + ([] if cd else [[[1, 2, 0]]]))
    lengths = v.choice('lengths', [[1, 4], [3], [2, 3, 6]])
    mult = v.choice('mult', [1, 2, 'list'])
    ml = [1 + i for i in range(len(pattern))] if mult == 'list' else mult
    inter = v.choice('inter', [False, True])
    seed = v.choice('seed', [None, 0, 1, 42, np.int64(7)])
    kw = {}
    us = None
    if inter:
        el = [cliff_elem(v, r, len(p), cd) for p in pattern]
        kw['interleaved_elem'] = [e for e, _ in el]
        us = [u for _, u in el]
    args = dict(nseeds=2, length_vector=lengths, rb_pattern=pattern, length_multiplier=ml, group_gates=group, rand_seed=seed)
    res = randomized_benchmarking_seq(**args, **kw)
    n = 1 + max(q for p in pattern for q in p)
    for cs in [res[0]] + list(res[2:]):
        for s in range(2):
            for c in cs[s]:
                v.ensure('identity up to phase before the measurement', is_identity(unitary(c), 1e-6), lambda: c.name)
                v.ensure('measures pattern qubits in order', sorted(measure_map(c)) == sorted((q, i) for i, q in enumerate(q for p in pattern for q in p)))
    if inter and len(pattern) == 1:
        # between consecutive barriers: random element, interleaved element
        c = res[2 + (1 if cd else 0)][0][-1]
        blocks, cur = [], []
        for op in c.data:
            if op[0].name == 'barrier':
                blocks.append(cur)
                cur = []
            elif op[0].name != 'measure':
                cur.append(op)
        from qiskit import QuantumCircuit
        m = ml[0] if isinstance(ml, list) else ml
        v.ensure('two blocks per element', len(blocks) == 2 * lengths[-1] * m)
        for b in blocks[1::2]:
            q = QuantumCircuit(n)
            qi = {x: i for i, x in enumerate(c.qubits)}
            for op, qs, _ in b:
                q.append(op, [pattern[0].index(qi[x]) for x in qs])
            v.ensure('the interleaved element is the one requested', phase_equal(Operator(q).data, us[0], 1e-6))
    if seed is not None:
        res2 = randomized_benchmarking_seq(**args, **kw)
        v.ensure('reproducible from the seed', all(a == b for x, y in zip(res[0], res2[0]) for a, b in zip(x, y)))
        if lengths[-1] >= 6 and not inter and len(pattern) == 1 and len(pattern[0]) >= 2:
            bl, cur = set(), []
            for op in res[0][0][-1].data:
                if op[0].name == 'barrier':
                    bl.add(repr(cur))
                    cur = []
                else:
                    cur.append((op[0].name, [q.index for q in op[1]]))
            v.ensure('elements are not all the same', len(bl) > 1)


def narrow(circ, qubits):
    """the circuit on the given qubits only"""
    from qiskit import QuantumCircuit
    qi = {b: i for i, b in enumerate(circ.qubits)}
    ci = {b: i for i, b in enumerate(circ.clbits)}
    out = QuantumCircuit(len(qubits), len(circ.clbits))
    for op, q, c in circ.data:
        out.append(op, [qubits.index(qi[x]) for x in q], [ci[x] for x in c])
    return out


@reg.contract(CI + ':randomized_benchmarking_seq', mode='B',
              sizes=[{'kind': k} for k in ('plain', 'interleaved', 'cnotdihedral', 'cnotdihedral_interleaved', 'purity')], samples=4, budget=100)
def requested(v, kind):
    """what was asked for: numbers of circuits and elements, names, x axis, measured bits, with
    large qubit indices, multipliers, offsets and many lengths"""
    from qiskit.ignis.verification.randomized_benchmarking import randomized_benchmarking_seq
    r = nprng(v)
    gg = 'CNOT-Dihedral' if kind.startswith('cnot') else v.choice('gg', [None, 'Clifford'])
    inter, purity = kind.endswith('interleaved'), kind == 'purity'
    pattern = v.choice('pattern', [[[10], [3]], [[11, 2]], [[12]]] + ([] if purity else [[[2], [13, 0]], [[11, 2], [10]]]))
    lengths = v.choice('lengths', [[1, 2, 4], [3], list(range(1, 13))])
    if v.choice('form', [False, True]):
        lengths = np.array(lengths)
    mult = 1 if purity else v.choice('mult', [1, 4, 6, 'list'])
    ml = [2 + 3 * i for i in range(len(pattern))] if mult == 'list' else [mult] * len(pattern)
    if len(lengths) > 3 and max(ml) > 3:
        lengths = lengths[:3]
    off = v.choice('off', [0, 5, 19])
    nseeds = v.choice('nseeds', [1, 2])
    kw = {}
    if inter:
        kw['interleaved_elem'] = [cliff_elem(v, r, len(p), bool(gg and gg != 'Clifford'))[0] for p in pattern]
    if purity:
        kw['is_purity'] = True
    if mult != 1 or v.choice('give', [False, True]) and not purity:
        kw['length_multiplier'] = ml if mult == 'list' else mult
    align = v.choice('align', [False, True])
    res = randomized_benchmarking_seq(nseeds=nseeds, length_vector=lengths, rb_pattern=pattern, seed_offset=off, align_cliffs=align, group_gates=gg, **kw)
    flat = [q for p in pattern for q in p]
    v.ensure('x axis is length times multiplier', np.array_equal(np.asarray(res[1]), [[l * m for l in lengths] for m in ml]))
    cd = kind.startswith('cnot')
    base = 'rb_cnotdihedral' if cd else 'rb'
    groups = []
    if purity:
        dim = len(pattern[0])
        v.ensure('3^n settings', res[2] == 3 ** dim)
        for d in range(res[2]):
            lab = ''.join('ZXY'[(d // 3 ** k) % 3] for k in range(dim))
            groups.append(([res[0][s][d] for s in range(nseeds)], '_purity_' + lab, False))
    else:
        tags = [('_Z', False), ('_X', False), ('_interleaved_Z', True), ('_interleaved_X', True)] if cd else [('', False), ('_interleaved', True)]
        tags = [t for t in tags if inter or not t[1]]
        v.ensure('number of returned fields', len(res) == 1 + len(tags))
        groups = [(cs, t, i) for cs, (t, i) in zip([res[0]] + list(res[2:]), tags)]
    for cs, tag, isint in groups:
        v.ensure('one list per seed, one circuit per length', len(cs) == nseeds and all(len(x) == len(lengths) for x in cs))
        for s in range(nseeds):
            for li, length in enumerate(lengths):
                c = cs[s][li]
                v.ensure('named by length and seed', c.name == '%s%s_length_%d_seed_%d' % (base, tag, li, s + off), lambda: c.name)
                v.ensure('measures pattern qubits in order', sorted(measure_map(c)) == sorted((q, i) for i, q in enumerate(flat)))
                qi = {b: i for i, b in enumerate(c.qubits)}
                used = [sorted(qi[x] for x in q) for op, q, _ in c.data]
                v.ensure('acts on the pattern qubits only', all(set(u) <= set(flat) for u in used))
                v.ensure('no gate across patterns', all(any(set(u) <= set(p) for p in pattern) for u, (op, _, _) in zip(used, c.data) if op.name != 'barrier'))
                if not align and not cd:
                    for p, m in zip(pattern, ml):
                        nb = sum(1 for u, (op, _, _) in zip(used, c.data) if op.name == 'barrier' and u == sorted(p))
                        v.ensure('requested number of group elements', nb == (2 if isint else 1) * length * m, lambda: short((nb, length, m)))
                if not purity:
                    v.ensure('identity up to phase before the measurement', is_identity(unitary(narrow(c, flat)), 1e-6), lambda: c.name)


@reg.contract(CI + ':randomized_benchmarking_seq', mode='B', sizes=[{'group': g, 'seed': s} for g in (None, '1') for s in (None, 0, 3, 'state')], samples=1)
def fresh_draws(v, group, seed):
    """the elements of a sequence, and those of different seeds, are different draws"""
    from qiskit.ignis.verification.randomized_benchmarking import randomized_benchmarking_seq
    runs = []
    for _ in range(2):
        rs = np.random.RandomState(11) if seed == 'state' else seed
        kw = {} if rs is None else {'rand_seed': rs}
        circs = randomized_benchmarking_seq(nseeds=3, length_vector=[2, 12], rb_pattern=[[0, 1]], group_gates=group, **kw)[0]
        seqs = []
        for s in range(3):
            blocks, cur = [], []
            for op in circs[s][-1].data:
                if op[0].name == 'barrier':
                    blocks.append(repr(cur))
                    cur = []
                else:
                    cur.append((op[0].name, [q.index for q in op[1]], [round(float(x), 6) for x in op[0].params]))
            seqs.append(blocks)
            v.ensure('a block per element', len(blocks) == 12)
            v.ensure('the elements of a sequence are different draws', len(set(blocks)) >= 8, lambda: short(len(set(blocks))))
        v.ensure('different seeds are different draws', all(sum(x == y for x, y in zip(seqs[i], seqs[j])) <= 4 for i in range(3) for j in range(i)))
        runs.append(seqs)
    v.ensure('reproducible exactly if seeded', (runs[0] == runs[1]) == (seed is not None))


@reg.contract(CI + ':randomized_benchmarking_seq (purity)', mode='B', sizes=[{}], samples=3)
def purity_real(v):
    """purity circuits of the Clifford group: exactly the final rotations remain"""
    from qiskit.ignis.verification.randomized_benchmarking import randomized_benchmarking_seq
    pattern = v.choice('pattern', [[[0]], [[1, 0]], [[1], [0]]])
    circs, _, npur = randomized_benchmarking_seq(nseeds=1, length_vector=[1, 3], rb_pattern=pattern, is_purity=True)
    rx = np.array([[1, -1j], [-1j, 1]]) / np.sqrt(2)
    ry = np.array([[1, -1], [1, 1]]) / np.sqrt(2)
    n = 1 + max(q for p in pattern for q in p)
    for d in range(npur):
        for c in circs[0][d]:
            lab = c.name.split('_')[2]
            ops = [np.eye(2)] * n
            for p in pattern:
                for k, ch in enumerate(lab):
                    ops[p[k]] = {'Z': np.eye(2), 'X': rx, 'Y': ry}[ch]
            m = np.eye(1)
            for o in ops:
                m = np.kron(o, m)
            v.ensure('rotation named by the label', phase_equal(unitary(c), m, 1e-6), lambda: c.name)


@reg.contract(R + 'rb_groups:RBgroup', mode='B', sizes=[{'group': g, 'n': n} for g, n in ((None, 1), (None, 2), (None, 3), ('1', 1), ('1', 2), ('CNOTDihedral', 2), ('NonClifford', 1))],
              samples=6)
def group_ops(v, group, n):
    """RBgroup: compose = circuit concatenation, inverse, to_circuit, identity"""
    from qiskit.quantum_info import Operator
    from qiskit.ignis.verification.randomized_benchmarking import RBgroup
    g = RBgroup(group)
    s = v.int('seed', 0, 10 ** 6)
    a, b = g.random(n, s), g.random(n, s + 1)
    ua, ub = (Operator(g.to_circuit(x)).data for x in (a, b))
    v.ensure('identity', is_identity(Operator(g.to_circuit(g.iden(n))).data, 1e-7))
    v.ensure('compose applies the first element first', phase_equal(Operator(g.to_circuit(g.compose(a, b))).data, ub @ ua, 1e-6))
    v.ensure('inverse', is_identity(Operator(g.inverse(a)).data @ ua, 1e-6))
    v.ensure('same seed, same element', phase_equal(Operator(g.to_circuit(g.random(n, s))).data, ua, 1e-7))
    v.ensure('group type and name', (g.group_gates_type(), g.rb_circ_type()) == ((0, 'rb') if group is None else (1, 'rb_cnotdihedral')))


@reg.contract(CI + ': check_pattern, handle_length_multiplier', mode='B', samples=1)
def rejects(v):
    """invalid requests are rejected"""
    from qiskit import QiskitError
    from qiskit.ignis.verification.randomized_benchmarking import randomized_benchmarking_seq as f
    from qiskit.circuit.library import CXGate, HGate, TGate
    bad = (ValueError, QiskitError)
    v.ensure_raises('duplicate qubit', bad, f, rb_pattern=[[0, 1], [1]])
    v.ensure_raises('multiplier of wrong length', bad, f, rb_pattern=[[0], [1]], length_multiplier=[1])
    v.ensure_raises('multiplier below one', bad, f, rb_pattern=[[0], [1]], length_multiplier=[1, 0])
    v.ensure_raises('fractional multiplier', bad, f, rb_pattern=[[0], [1]], length_multiplier=[1, 1.5])
    v.ensure_raises('purity with different sizes', bad, f, rb_pattern=[[0], [1, 2]], is_purity=True)
    v.ensure_raises('purity with multiplier', bad, f, rb_pattern=[[0], [1]], length_multiplier=[1, 2], is_purity=True)
    v.ensure_raises('interleaved element of wrong size', bad, f, rb_pattern=[[0]], interleaved_elem=[CXGate()])
    v.ensure_raises('interleaved element outside the group', bad, f, rb_pattern=[[0]], interleaved_elem=[TGate()])
    v.ensure_raises('unknown group', bad, f, rb_pattern=[[0]], group_gates='nope')
    a, b = (f(nseeds=2, length_vector=[2, 5], rb_pattern=[[0, 1]], rand_seed=s)[0] for s in (5, np.int64(5)))
    v.ensure('the type of an integer seed does not matter', all(x == y for s, t in zip(a, b) for x, y in zip(s, t)))
    c, x = f()
    v.ensure('defaults: one qubit, lengths 1, 10, 20', len(c) == 1 and [len(k) for k in c] == [3] and np.array_equal(x, [[1, 10, 20]]))


@reg.contract(CI + ':replace_q_indices', mode='S', sizes=[{'n': 1}, {'n': 2}, {'n': 3}], samples=2, needs=[CI + '.replace_q_indices'])
def relabel(v, n):
    """replace_q_indices: qubit i becomes q_nums[i], order and gates kept"""
    from qiskit import QuantumCircuit, QuantumRegister
    from qiskit.circuit import Gate
    from qiskit.ignis.verification.randomized_benchmarking.circuits import replace_q_indices
    qn = list(v.choice('perm', list(itertools.permutations(range(n + 1), n))))
    c = QuantumCircuit(n)
    for k in range(3):
        p = list(v.choice('p%d' % k, list(itertools.permutations(range(n), min(2, n))))) if not v.symbolic or k < 2 else [0]
        c.append(Gate('g%d' % k, len(p), [0.1 * k]), p)
    qr = QuantumRegister(n + 1, 'qr')
    out = replace_q_indices(c, qn, qr)
    v.ensure('gates kept in order on the mapped qubits',
             [(o.name, o.params, q) for o, q, _ in out.data] ==
             [(o.name, o.params, [qr[qn[x.index]] for x in q]) for o, q, _ in c.data])
