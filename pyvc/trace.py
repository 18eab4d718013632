"""Circuits built by loops of arbitrary length (mode U): a circuit is the trace of the
operations appended to it.  A loop that appends extends the trace by the product of
the words its body appends at each index,

    t' = t . w(i)     =>     t_end = t_0 . w(0) . w(1) ... w(n-1)

kept as a `Rep` item.  Traces are compared as they are, or projected onto one
(arbitrary) qubit: operations that provably do not touch it are dropped, a product over a
list of distinct qubits collapses to the factor of that qubit.
"""
import builtins
import z3

from . import core
from .core import Sym, SymBool, Unsupported, term, boolterm, is_sym
from .unb import Engine, State, Dict, Seq, contains_any, I, R

ALL = 'all'


def tt(x):
    """term of a number (constants included)"""
    if isinstance(x, (Sym, SymBool)):
        return x.t
    if isinstance(x, (builtins.int, builtins.float)):
        return term(x)
    return x


class Op:
    def __init__(self, name, params=(), qubits=(), clbits=(), inv=False):
        self.name = name
        self.params = tuple(tt(p) for p in params)
        self.qubits = tuple(qubits)
        self.clbits = tuple(clbits)

    def sub(self, *pairs):
        f = lambda x: z3.substitute(x, *pairs) if z3.is_expr(x) else x
        g = lambda x: tuple(f(y) for y in x) if isinstance(x, tuple) else f(x)
        return Op(self.name, [f(x) for x in self.params], [g(x) for x in self.qubits], [g(x) for x in self.clbits])

    def __repr__(self):
        return '%s%s%s%s' % (self.name, list(self.params) or '', list(self.qubits), '->%s' % (list(self.clbits),) if self.clbits else '')


class Rep:
    """product over 0 <= i < n of the words of the case that holds at i"""

    def __init__(self, n, i, cases, facts=(), d=None):
        self.n, self.i, self.cases, self.facts, self.d = n, i, cases, list(facts), d

    def sub(self, *pairs):
        f = lambda x: z3.substitute(x, *pairs)
        return Rep(f(self.n), self.i, [(f(c), [x.sub(*pairs) for x in w]) for c, w in self.cases], [f(x) for x in self.facts], self.d)

    def rename(self, j):
        p = (self.i, j)
        return Rep(self.n, j, [(z3.substitute(c, p), [x.sub(p) for x in w]) for c, w in self.cases], [z3.substitute(x, p) for x in self.facts], self.d)

    def range(self):
        return [self.i >= 0, self.i < self.n] + self.facts

    def __repr__(self):
        return 'Rep[%s<%s]%s' % (self.i, self.n, self.cases)


class Bit:
    """qubit or clbit: register name and index term"""

    def __init__(self, reg, t):
        self.reg, self.t = reg, t

    def key(self):
        return (self.reg.name, self.t)


class Reg:
    pytype = None

    def __init__(self, size=None, name=None):
        self.size = size
        self.name = name

    def __getitem__(self, k):
        if isinstance(k, slice):
            raise Unsupported('slice of a register')
        if isinstance(k, builtins.int) and k < 0:
            k = self.size + k
        return Bit(self, tt(k))

    def symlen(self):
        return self.size


class QReg(Reg):
    def __init__(self, size=None, name=None):
        Reg.__init__(self, size, name or 'q')


class CReg(Reg):
    def __init__(self, size=None, name=None):
        Reg.__init__(self, size, name or 'c')


class Gate:
    def __init__(self, name, params):
        self.name, self.params = name, params

    def inverse(self):
        return Gate(self.name, [-p for p in self.params]) if self.name in ('u1', 'rz', 'rx', 'ry', 'p') else Gate(self.name + '_inv', self.params)


def gate(name):
    return lambda *p, **k: Gate(name, p)


SELF_INVERSE = {'h', 'x', 'y', 'z', 'cx', 'cz', 'id', 'barrier'}
ONE = ('h', 'x', 'y', 'z', 's', 't', 'sdg', 'tdg')


class Circ(State):
    def __init__(self, *regs, name=None):
        State.__init__(self, 'circ')
        self.__dict__['regs'] = builtins.list(regs)
        self.name = name

    # -- recording
    def _add(self, item):
        self.written = True
        (self.plain if self.log is None else self.log).append(item)

    def _bits(self, x):
        if isinstance(x, Bit):
            return [x.key()]
        if isinstance(x, Reg):
            return [(x.name, ALL)]
        if isinstance(x, (builtins.list, builtins.tuple)):
            return [b for y in x for b in self._bits(y)]
        if isinstance(x, State) and x.kind == 'list' and x.isplain():
            return [b for y in x.plain for b in self._bits(y)]
        raise Unsupported('qubit given by %r' % (x,))

    def _one(self, name, x, params=()):
        bs = self._bits(x)
        for b in bs:
            self._add(Op(name, params, [b]))
        return self

    def __getattr__(self, k):
        if k in ONE:
            return lambda q: self._one(k, q)
        if k in ('i', 'id', 'iden'):
            return lambda q: self._one('id', q)
        if k.startswith('__'):
            raise AttributeError(k)
        raise Unsupported('circuit method %s' % k)

    def cx(self, a, b):
        self._add(Op('cx', (), self._bits(a) + self._bits(b)))

    def cz(self, a, b):
        self._add(Op('cz', (), self._bits(a) + self._bits(b)))

    def reset(self, q):
        self._one('reset', q)

    def barrier(self, *q):
        bs = [b for x in q for b in self._bits(x)] or [(None, ALL)]
        self._add(Op('barrier', (), bs))

    def measure(self, q, c):
        a, b = self._bits(q), self._bits(c)
        if builtins.len(a) != builtins.len(b):
            raise Unsupported('measure')
        for x, y in builtins.zip(a, b):
            self._add(Op('measure', (), [x], [y]))

    def append(self, g, qs, cs=None):
        if not isinstance(g, Gate):
            raise Unsupported('appending %r' % (g,))
        bs = self._bits(qs)
        if builtins.len(bs) > 1 and g.name[:1] == 'c':
            self._add(Op(g.name, g.params, bs))
        else:
            self._one(g.name, qs, g.params)

    def add_register(self, r):
        self.regs.append(r)

    def items_(self):
        if self.log is not None:
            raise Unsupported('reading a circuit in its loop')
        return self.plain

    def __add__(self, o):
        c = Circ(*self.regs)
        c.plain = builtins.list(self.items_()) + builtins.list(o.items_())
        return c

    def __iadd__(self, o):
        for x in o.items_():
            self._add(x)
        return self

    def copy(self, name=None):
        c = Circ(*self.regs)
        c.plain = builtins.list(self.items_())
        return c

    def inverse(self):
        c = Circ(*self.regs)
        c.plain = inverse(self.items_())
        return c

    def subst(self, pair):
        c = Circ.__new__(Circ)
        c.__dict__.update(self.__dict__)
        c.plain = [x.sub(pair) for x in self.plain]
        nm = self.name
        c.name = nm.sub(pair) if hasattr(nm, 'sub') else nm
        return c


def inverse(items):
    out = []
    for x in reversed(items):
        if isinstance(x, Op):
            if x.name in SELF_INVERSE:
                out.append(x)
            elif x.name in ('u1', 'rz', 'rx', 'ry', 'p'):
                out.append(Op(x.name, [-p for p in x.params], x.qubits))
            else:
                raise Unsupported('inverse of %s' % x.name)
        else:
            j = Engine.of(core.cur()).newix()
            p = (x.i, x.n - 1 - j)
            out.append(Rep(x.n, j, [(z3.substitute(c, p), inverse([y.sub(p) for y in w])) for c, w in x.cases], [z3.substitute(f, p) for f in x.facts]))
    return out


def fold_circ(u, s, it, i, logs, symnames):
    """the loop rule for traces"""
    for c, w in logs:
        if not u.free(c, symnames):
            raise Unsupported('operation depends on the loop state')
        for t in terms(w):
            if not u.free(t, symnames):
                raise Unsupported('operation depends on the loop state')
    d = it.ident if isinstance(it.ident, Dict) and not it.ident.args else None
    if it.guard is not None:
        g = boolterm(it.guard(i))
        logs = [(z3.And(c, g), w) if w else (c, w) for c, w in logs]
    r = Rep(term(it.n), i, [(c, list(w)) for c, w in logs if w], [f for f in (it.facts(i) if it.facts else [])], d)
    (s.plain if s.log is None else s.log).append(r)


def terms(items):
    for x in items:
        if isinstance(x, Op):
            for y in x.params:
                if z3.is_expr(y):
                    yield y
            for b in x.qubits + x.clbits:
                if z3.is_expr(b[1]):
                    yield b[1]
        else:
            yield x.n
            for c, w in x.cases:
                yield c
                for t in terms(w):
                    yield t


# ------------------------------------------------------------------ proving
def proves(u, t, facts):
    c = u.ctx
    c.stats.queries += 1
    s = z3.Solver()
    s.set('timeout', 4000)
    for f in facts + u.instances(t):
        s.add(f)
    for f in facts:
        for g in u.instances(f):
            s.add(g)
    for f in c.pc:
        if u.linear(f):
            s.add(f)
    s.add(z3.Not(t))
    return s.check() == z3.unsat


def sat(u, facts):
    return not proves(u, z3.BoolVal(False), facts)


def touch(op, q):
    """condition that the operation acts on the qubit q = (register, index term)"""
    out = []
    for reg, t in op.qubits:
        if reg is None or (reg == q[0] and isinstance(t, str)):
            return z3.BoolVal(True)
        if reg == q[0]:
            out.append(t == q[1])
    return z3.Or(*([z3.BoolVal(False)] + out))


class May(Unsupported):
    """cannot tell whether an operation touches the qubit"""


def project(u, items, q, facts=()):
    facts = list(facts)
    out = []
    for x in items:
        if isinstance(x, Op):
            t = touch(x, q)
            if proves(u, t, facts):
                out.append(x)
            elif not proves(u, z3.Not(t), facts):
                raise May(repr(x))
            continue
        try:
            cases = [(c, project(u, w, q, facts + x.range() + [c])) for c, w in x.cases if sat(u, facts + x.range() + [c])]
            cases = [(c, w) for c, w in cases if w]
            if cases:
                out.append(Rep(x.n, x.i, cases, x.facts, x.d))
            continue
        except May:
            cand = []
            if x.d is not None and x.d.key_sort == q[1].sort():
                cand.append(x.d.pf(q[1]))
            for d in set(u.families.values()):
                if d.key_sort == q[1].sort() and not d.args and d is not x.d:
                    cand.append(d.pf(q[1]))
            cand.append(q[1])                   # register indexed by the loop variable
            cand.append(q[1] - 1)
        for p in cand:
            try:
                rest = [project(u, w, q, facts + x.range() + [c, x.i != p]) for c, w in x.cases if sat(u, facts + x.range() + [c, x.i != p])]
            except May:
                continue
            if any(rest):
                continue
            y = x.sub((x.i, p))
            inside = z3.And(p >= 0, p < x.n)
            if proves(u, z3.Not(inside), facts):
                break
            if not proves(u, inside, facts):
                raise May('index of the qubit in the loop')
            f2 = facts + [z3.substitute(f, (x.i, p)) for f in x.facts]
            live = [(c, w) for c, w in y.cases if sat(u, f2 + [c])]
            done = False
            for c, w in live:
                if proves(u, c, f2):
                    out += project(u, w, q, f2)
                    done = True
                    break
            if not done:
                if len(live) > 0 or y.cases:
                    raise May('operations depend on the qubit')
            break
        else:
            raise May('loop over qubits')
    return out


def same(u, a, b, facts=(), bits=True):
    """are the traces provably the same word?  returns '' or the difference in numbers
    (qubits, bits, angles, repetitions); words of another shape or of other gates may still
    have the same effect and are undecided"""
    facts = list(facts)
    a, b = [x for x in a], [x for x in b]
    if len(a) != len(b):
        raise Unsupported('different length: %s / %s' % (a, b))
    for x, y in zip(a, b):
        if type(x) is not type(y):
            raise Unsupported('different shape: %r / %r' % (x, y))
        if isinstance(x, Op):
            if x.name != y.name or len(x.params) != len(y.params) or len(x.qubits) != len(y.qubits) or len(x.clbits) != len(y.clbits):
                raise Unsupported('%r / %r' % (x, y))
            eqs = []
            for p, r in zip(x.params, y.params):
                eqs.append(num_eq(p, r))
            for p, r in list(zip(x.qubits, y.qubits)) + list(zip(x.clbits, y.clbits)):
                if p[0] != r[0] or isinstance(p[1], str) != isinstance(r[1], str):
                    raise Unsupported('%r / %r' % (x, y))
                if not isinstance(p[1], str):
                    eqs.append(p[1] == r[1])
            if not proves(u, z3.And(*([z3.BoolVal(True)] + eqs)), facts):
                return '%r / %r' % (x, y)
            continue
        if not proves(u, x.n == y.n, facts):
            if not (proves(u, x.n <= 0, facts) and proves(u, y.n <= 0, facts)):
                return 'number of repetitions: %s / %s' % (x.n, y.n)
        y = y.rename(x.i)
        rng = facts + x.range() + y.range()
        ca, cb = with_rest(x.cases), with_rest(y.cases)
        for c1, w1 in ca:
            for c2, w2 in cb:
                if sat(u, rng + [c1, c2]):
                    d = same(u, w1, w2, rng + [c1, c2])
                    if d:
                        return d
    return ''


def with_rest(cases):
    return cases + [(z3.Not(z3.Or(*[c for c, _ in cases])), [])]


def num_eq(p, r):
    p, r = tt(p), tt(r)
    if p.sort() != r.sort():
        p, r = (z3.ToReal(p) if p.is_int() else p), (z3.ToReal(r) if r.is_int() else r)
    return p == r


# spec side
def op(name, qubits=(), params=(), clbits=()):
    return Op(name, params, [(r, tt(t)) if t is not ALL else (r, ALL) for r, t in qubits], [(r, tt(t)) if t is not ALL else (r, ALL) for r, t in clbits])


def rep(n, f):
    """f(i) -> items, or list of (cond, items)"""
    j = Engine.of(core.cur()).newix()
    w = f(Sym(j))
    if w and isinstance(w[0], tuple):
        cases = [(boolterm(c), x) for c, x in w]
    else:
        cases = [(z3.BoolVal(True), w)]
    return Rep(tt(n), j, cases)


class SymName:
    """a string with symbolic numbers in it"""

    def __init__(self, parts):
        self.parts = tuple(parts)

    def __add__(self, o):
        return SymName(self.parts + (o.parts if isinstance(o, SymName) else (o,)))

    def __radd__(self, o):
        return SymName((o,) + self.parts)

    def norm(self):
        out = []
        for p in self.parts:
            if isinstance(p, str) and out and isinstance(out[-1], str):
                out[-1] += p
            elif p != '' or not isinstance(p, str):
                out.append(p)
        return out

    def sub(self, pair):
        return SymName([Sym(z3.substitute(p.t, pair)) if isinstance(p, Sym) else p for p in self.parts])

    def same(self, u, *want):
        a = self.norm()
        if len(a) != len(want):
            return False
        return all((x == y) if isinstance(x, str) or isinstance(y, str) else proves(u, num_eq(x, y), []) for x, y in zip(a, want))
