"""Opaque values for the unbounded (mode U) contracts."""
import z3

from pyvc import core, unb
from pyvc.core import Sym, SymBool, Unsupported, boolterm, term, seq, ite, and_, or_, not_
from pyvc.unb import Engine, Obj, Seq, Dict, State, twin, I, B, R

STRING = z3.DeclareSort('String')


class Str(Obj):
    """a string of which only the identity and single characters are known"""

    def __getitem__(self, k):
        if not isinstance(k, int):
            raise Unsupported('slice of an opaque string')
        u = Engine.of(core.cur())
        return Char(u.fun('char', STRING, I, I)(self.t, z3.IntVal(k)))

    def symlen(self):
        return Sym(Engine.of(core.cur()).fun('strlen', STRING, I)(self.t))


class Char(Obj):
    """one character, as its code"""

    def __eq__(self, o):
        if isinstance(o, str):
            return SymBool(self.t == ord(o)) if len(o) == 1 else False
        return Obj.__eq__(self, o)

    def __ne__(self, o):
        e = self.__eq__(o)
        return core.not_(e) if isinstance(e, SymBool) else not e
    __hash__ = Obj.__hash__


def counts(v, name, n, args=(), low=0):
    """dictionary of any size from strings to counts of at least `low`"""
    u = Engine.of(v)
    f = u.fun(name + '.val', *[I for _ in args], I, I)
    return Dict(name, STRING, Str, lambda j: Sym(f(*args, j)), n, args,
                facts=lambda j: [f(*args, j) >= low, f(*args, j) >= 0])


def fresh_str(v, name='k'):
    return Str(z3.Const(name, STRING))


def iff(a, b):
    return SymBool(boolterm(a) == boolterm(b))


U = dict(mode="U", rsizes=[], samples=0, mods=[])


class Bag:
    """plain object for the attributes of self"""


class Len:
    """length of an opaque string; only  '0' * len(s)  is understood"""

    def __init__(self, s):
        self.s = s

    def __rmul__(self, c):
        if c == '0':
            return Zeros(self.s)
        raise Unsupported('arithmetic with the length of an opaque string')
    __mul__ = __rmul__


class Zeros:
    def __init__(self, s):
        self.s = s


class BitStr(Str):
    """string of bits: all zeros or not"""

    def symlen(self):
        return Len(self)

    def zero(self):
        return SymBool(Engine.of(core.cur()).fun('allzero', STRING, B)(self.t))

    def __eq__(self, o):
        if isinstance(o, Zeros):
            if o.s.t.eq(self.t):
                return self.zero()
            raise Unsupported('zeros of another length')
        return Obj.__eq__(self, o)

    def __ne__(self, o):
        return core.not_(self == o)
    __hash__ = Obj.__hash__

    def count(self, c):
        raise Unsupported('count')


COUNTS = z3.DeclareSort('Counts')


class OneCounts(Obj):
    """the counts of one circuit in one result"""


class AnyResults:
    """any number of Results; each has the counts of a circuit or not"""

    def __init__(self, v, marginals, name='results'):
        """marginals: the (circuit, bits, state) the contract speaks about"""
        self.u = Engine.of(v)
        self.n = v.int('n_' + name, 1)
        self.name = name
        self.marginals = marginals
        self.seq = Seq(self.n, lambda i: OneResult(self, i), (name, ()), facts=self.facts)
        for c in {m[0] for m in marginals}:
            v.require(self.shots(c) > 0)

    def facts(self, i):
        out = []
        for c, bits, st in self.marginals:
            k = self.counts(c, i)
            m, t = marginal_fun(self.u, bits, st)(k), shots_fun(self.u)(k)
            out += [m >= 0, m <= t]
        return out

    def shots(self, circ):
        return self.sum(circ, lambda c: Sym(shots_fun(self.u)(c)))

    def marginal(self, circ, bits, st):
        return self.sum(circ, lambda c: Sym(marginal_fun(self.u, bits, st)(c)))

    def has(self, circ, i):
        return self.u.fun('%s.has.%s' % (self.name, circ), I, B)(i)

    def counts(self, circ, i):
        return self.u.fun('%s.counts.%s' % (self.name, circ), I, COUNTS)(i)

    def sum(self, circ, f):
        """SUM over the results that have the circuit of f(counts)"""
        idx = Seq(self.n, Sym, (self.name, ()), facts=self.facts)
        return self.u.total(idx.map(lambda i: ite(SymBool(self.has(circ, i.t)), f(self.counts(circ, i.t)), 0)))


class OneResult:
    def __init__(self, owner, i):
        self.owner, self.i = owner, i

    def get_counts(self, circ):
        if not isinstance(circ, str):
            raise Unsupported('circuit by another key')
        from qiskit import QiskitError
        if bool(SymBool(self.owner.has(circ, self.i))):
            return OneCounts(self.owner.counts(circ, self.i))
        raise QiskitError('no counts')


class Combined:
    """contract of build_counts_dict_from_list: entries and totals add up (proved for
    every list of dictionaries in any_count_list); marginals by contract of
    marginal_counts: linear in the counts"""

    def __init__(self, lst):
        self.seq = Engine.of(core.cur()).iterable(lst)
        if not isinstance(self.seq, Seq):
            raise Unsupported('not the list of all counts')

    def values(self):
        u = Engine.of(core.cur())
        tot = u.fun('shots', COUNTS, I)
        return self.seq.map(lambda c: Sym(tot(c.t)))


    def get(self, key, default=None):
        if default != 0:
            raise Unsupported('get')
        u = Engine.of(core.cur())
        f = marginal_fun(u, (), key)
        return u.total(self.seq.map(lambda c: Sym(f(c.t))))


class Marginal:
    def __init__(self, comb, bits):
        self.comb, self.bits = comb, tuple(int(b) for b in bits)

    def get(self, state, default=None):
        if default != 0:
            raise Unsupported('get')
        u = Engine.of(core.cur())
        f = marginal_fun(u, self.bits, state)
        return u.total(self.comb.seq.map(lambda c: Sym(f(c.t))))


def marginal_fun(u, bits, state):
    return u.fun('marginal.%s.%s' % (','.join(map(str, bits)), state), COUNTS, I)


def shots_fun(u):
    return u.fun('shots', COUNTS, I)


def combine_stubs():
    return {'build_counts_dict_from_list': Combined, 'marginal_counts': Marginal}


def any_count_list(v):
    """any list of any dictionaries of counts: the combined entry of a key is the sum
    of the entries, and exactly the keys of the dictionaries occur"""
    u = Engine.of(v)
    ln = u.fun('sizes', I, I)
    n = v.int('n', 0)
    lst = Seq(n, lambda i: counts(v, 'cnt', Sym(ln(i)), (i,)), ('list', ()))
    r = twin('qiskit.ignis.utils', 'build_counts_dict_from_list')(lst)
    k = fresh_str(v)
    if isinstance(r, Dict):           # a single dictionary is returned as it is
        v.ensure('entries add up', and_(seq(n, 1), seq(r.get(k, 0), lst[0].get(k, 0))))
        v.ensure('keys', iff(r.has(k), lst[0].has(k)))
        return
    v.ensure('entries add up', seq(r.get(k, 0), u.total(lst.map(lambda d: d.get(k, 0)))))
    v.ensure('keys', iff(r.has(k), u.anyof(lst, lambda d: d.has(k))))


def any_combine(v):
    """two dictionaries of any size: entries add up, and neither is changed"""
    u = Engine.of(v)
    a, b = counts(v, 'a', v.int('na', 0)), counts(v, 'b', v.int('nb', 0))
    r = twin('qiskit.ignis.verification.tomography.data', 'combine_counts')(a, b)
    k = fresh_str(v)
    v.ensure('entries add up', seq(r.get(k, 0), a.get(k, 0) + b.get(k, 0)))
    v.ensure('keys', iff(r.has(k), or_(a.has(k), b.has(k))))


# ---------------------------------------------------------------- circuits
def distinct(v, name, n, avoid=None):
    """a list of any number of distinct qubit indices (keys of a dictionary), none of them in `avoid`"""
    u = Engine.of(v)
    d = []

    def facts(j):
        k = d[0].kf(j)
        return [k >= 0] + ([z3.Not(avoid.hf(k))] if avoid is not None else [])
    d.append(Dict(name, I, Sym, lambda j: 0, n, (), facts=lambda j: []))
    d[0].facts0 = facts
    return d[0]


def any_max(*a):
    u = Engine.of(core.cur())
    xs = [u.iterable(x) for x in a]
    if any(isinstance(x, (Seq, Sym)) or (isinstance(x, (list, tuple)) and any(isinstance(y, Sym) for y in x)) for x in xs):
        u.nmax = getattr(u, 'nmax', 0) + 1
        return Sym(z3.Int('max!%d' % u.nmax))       # only sizes of registers
    return max(*xs)


def length(st):
    return Engine.of(core.cur()).builtins()['len'](st)


def strip(items):
    """trace without barriers (their effect on compilation is not part of these contracts)"""
    from pyvc import trace as TR
    out = []
    for x in items:
        if isinstance(x, TR.Op):
            if x.name != 'barrier':
                out.append(x)
        else:
            cs = [(c, strip(w)) for c, w in x.cases]
            cs = [(c, w) for c, w in cs if w]
            if cs:
                out.append(TR.Rep(x.n, x.i, cs, x.facts, x.d))
    return out
