"""Symbolic core: z3-backed values, path exploration, obligations.

A *contract harness* is a Python function ``h(v, **params)`` that declares the
inputs of a function of /repo through ``v`` (``v.int``, ``v.real``, ...),
states the precondition with ``v.require``, calls the real function and states
the postcondition with ``v.ensure``.  The same harness is executed in three
ways:

* SymCtx      inputs are z3 constants; every ``ensure`` becomes an obligation
              "path condition implies clause" discharged by z3, on every
              feasible path through the real code (branching on a symbolic
              condition forks; the whole tree is explored by re-execution);
* ConcCtx     inputs come from a z3 model (replay) or from a seeded generator
              (run-time contract checking).
"""
import fractions
import math
import numbers
import random
import time

import numpy as np
import z3

from . import ratfun

Fraction = fractions.Fraction


class Unsupported(Exception):
    """The code left the fragment the symbolic engine can execute."""


class PathEnd(BaseException):
    """This path is finished (infeasible, or cut)."""


class Discard(BaseException):
    """Concrete sample does not satisfy the precondition."""


class ContractViolation(Exception):
    def __init__(self, clause, detail=''):
        Exception.__init__(self, '%s: %s' % (clause, detail))
        self.clause = clause
        self.detail = detail


CUR = None      # the active symbolic context


def cur():
    if CUR is None:
        raise Unsupported('symbolic value used outside a symbolic run')
    return CUR


# ---------------------------------------------------------------- numbers

def rationalise(f):
    """Exact rational standing for a float constant (floats treated as reals)."""
    f = float(f)
    if math.isinf(f) or math.isnan(f):
        raise Unsupported('non finite constant')
    if f == int(f):
        return Fraction(int(f))
    r = Fraction(f).limit_denominator(10 ** 6)
    if abs(float(r) - f) <= 2e-16 * max(1.0, abs(f)):
        return r
    return Fraction(f)


def is_num(x):
    return isinstance(x, (int, float, Fraction, np.integer, np.floating, np.bool_))


def is_sym(x):
    return isinstance(x, (Sym, SymBool, SymC))


def term(x, real=False):
    """z3 arithmetic term for a scalar."""
    if isinstance(x, Sym):
        t = x.t
        if real and t.is_int():
            t = z3.ToReal(t)
        return t
    if isinstance(x, SymBool):
        t = z3.If(x.t, z3.IntVal(1), z3.IntVal(0))
        return z3.ToReal(t) if real else t
    if isinstance(x, (bool, np.bool_)):
        x = int(x)
    if isinstance(x, (int, np.integer)):
        return z3.RealVal(int(x)) if real else z3.IntVal(int(x))
    if isinstance(x, Fraction):
        return z3.RealVal(str(x))
    if isinstance(x, (float, np.floating)):
        return z3.RealVal(str(rationalise(x)))
    raise Unsupported('no arithmetic term for %r' % type(x))


def _pair(a, b):
    ta, tb = term(a), term(b)
    if ta.is_int() != tb.is_int():
        ta, tb = term(a, True), term(b, True)
    return ta, tb


class SymBool:
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return cur().branch(self.t)

    def __invert__(self):
        return SymBool(z3.Not(self.t))

    def __and__(self, o):
        return SymBool(z3.And(self.t, boolterm(o)))
    __rand__ = __and__

    def __or__(self, o):
        return SymBool(z3.Or(self.t, boolterm(o)))
    __ror__ = __or__

    def __xor__(self, o):
        return SymBool(z3.Xor(self.t, boolterm(o)))
    __rxor__ = __xor__

    def _i(self):
        return Sym(z3.If(self.t, z3.IntVal(1), z3.IntVal(0)))

    def __add__(self, o): return self._i() + o
    __radd__ = __add__
    def __sub__(self, o): return self._i() - o
    def __rsub__(self, o): return o - self._i()
    def __mul__(self, o): return self._i() * o
    __rmul__ = __mul__
    def __mod__(self, o): return self._i() % o
    def __neg__(self): return -self._i()
    def __lt__(self, o): return self._i() < o
    def __gt__(self, o): return self._i() > o
    def __le__(self, o): return self._i() <= o
    def __ge__(self, o): return self._i() >= o

    def __eq__(self, o):
        if isinstance(o, (bool, np.bool_, SymBool)):
            return SymBool(self.t == boolterm(o))
        if is_num(o) or is_sym(o):
            return self._i() == o
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if isinstance(r, bool) else ~r

    def __hash__(self):
        return hash(bool(self))

    def __int__(self):
        return int(bool(self))
    __index__ = __int__

    def __repr__(self):
        return 'SymBool(%s)' % self.t


def boolterm(x):
    if isinstance(x, SymBool):
        return x.t
    if isinstance(x, (bool, np.bool_)):
        return z3.BoolVal(bool(x))
    if isinstance(x, Sym):
        return x.t != 0
    if isinstance(x, z3.BoolRef):
        return x
    raise Unsupported('no boolean term for %r' % type(x))


def _num_or_ni(f):
    def g(self, o):
        if isinstance(o, (np.ndarray, SymC, complex, np.complexfloating)):
            return NotImplemented
        if not (is_num(o) or isinstance(o, (Sym, SymBool))):
            return NotImplemented
        return f(self, o)
    return g


def mk(t):
    return Sym(t)


class Sym:
    """symbolic integer or real"""
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    # arithmetic
    @_num_or_ni
    def __add__(self, o):
        if is_num(o) and o == 0:
            return self
        a, b = _pair(self, o)
        return Sym(a + b)

    @_num_or_ni
    def __radd__(self, o):
        if is_num(o) and o == 0:
            return self
        a, b = _pair(o, self)
        return Sym(a + b)

    @_num_or_ni
    def __sub__(self, o):
        a, b = _pair(self, o)
        return Sym(a - b)

    @_num_or_ni
    def __rsub__(self, o):
        a, b = _pair(o, self)
        return Sym(a - b)

    @_num_or_ni
    def __mul__(self, o):
        if is_num(o):
            if o == 0:
                return 0
            if o == 1:
                return self
        a, b = _pair(self, o)
        return Sym(a * b)

    @_num_or_ni
    def __rmul__(self, o):
        return Sym.__mul__(self, o)

    @_num_or_ni
    def __truediv__(self, o):
        return divide(self, o)

    @_num_or_ni
    def __rtruediv__(self, o):
        return divide(o, self)

    @_num_or_ni
    def __floordiv__(self, o):
        if not (self.t.is_int() and isinstance(o, (int, np.integer)) and o > 0):
            if isinstance(o, (int, np.integer)) and o > 0:
                return Sym(z3.ToInt(term(self, True) / int(o)))
            raise Unsupported('// with symbolic or non-positive divisor')
        return Sym(self.t / int(o))

    @_num_or_ni
    def __mod__(self, o):
        if self.t.is_int() and isinstance(o, (int, np.integer)) and o > 0:
            return Sym(self.t % int(o))
        if isinstance(o, Sym) and self.t.is_int() and o.t.is_int():
            cur().require_term(o.t > 0, 'modulus positive')
            return Sym(self.t % o.t)
        if isinstance(o, (int, np.integer)) and o > 0:
            o = int(o)
            return Sym(self.t - o * z3.ToReal(z3.ToInt(self.t / o)))
        raise Unsupported('% with non-positive or symbolic real modulus')

    def __divmod__(self, o):
        return self // o, self % o

    @_num_or_ni
    def __rmod__(self, o):
        raise Unsupported('number % symbolic')

    def __pow__(self, o):
        if isinstance(o, (int, np.integer)) or (isinstance(o, float) and o == int(o)):
            o = int(o)
            if o >= 0:
                r = 1
                for _ in range(o):
                    r = r * self
                return r
            return 1 / (self ** (-o))
        if isinstance(o, float) and o == 0.5:
            return self.sqrt()
        if is_num(o) or isinstance(o, Sym):
            return cur().ufun('pow', self, o)
        return NotImplemented

    def __rpow__(self, o):
        if isinstance(o, (int, np.integer)) and self.t.is_int():
            k = concretise(self)
            return int(o) ** k
        return cur().ufun('pow', o, self)

    def __neg__(self):
        return Sym(-self.t)

    def __pos__(self):
        return self

    def __abs__(self):
        return Sym(z3.If(self.t >= 0, self.t, -self.t))

    # comparisons
    def _cmp(self, o, f):
        if isinstance(o, (np.ndarray,)):
            return NotImplemented
        if is_num(o):
            if isinstance(o, (float, np.floating)) and math.isinf(o):
                return f(0.0, float(o))
            a, b = _pair(self, o)
            return SymBool(f(a, b))
        if isinstance(o, (Sym, SymBool)):
            a, b = _pair(self, o)
            return SymBool(f(a, b))
        return NotImplemented

    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        if isinstance(o, SymC):
            return o == self
        if isinstance(o, (complex, np.complexfloating)):
            return SymC(self, 0) == o
        r = self._cmp(o, lambda a, b: a == b)
        return False if r is NotImplemented and not isinstance(o, np.ndarray) else r

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        if isinstance(r, bool):
            return not r
        return ~r

    def __bool__(self):
        return bool(SymBool(self.t != 0))

    def __hash__(self):
        return hash(concretise(self))

    def __index__(self):
        if not self.t.is_int():
            raise TypeError('symbolic real used as an index')
        return concretise(self)

    def __int__(self):
        if self.t.is_int():
            return concretise(self)
        raise Unsupported('int() of a symbolic real')

    def __float__(self):
        raise Unsupported('float() of a symbolic value')

    def __complex__(self):
        raise Unsupported('complex() of a symbolic value')

    def __format__(self, spec):
        if self.t.is_int():
            return format(concretise(self), spec)
        raise Unsupported('format of a symbolic value')

    def __round__(self, n=None):
        if n is None:
            raise Unsupported('round of a symbolic value to an integer')
        return cur().ufun('round', self, n)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __repr__(self):
        return 'Sym(%s)' % (self.t,)

    # numpy object-array ufunc hooks
    def conjugate(self): return self
    conj = conjugate

    @property
    def real(self): return self

    @property
    def imag(self): return 0

    def sqrt(self):
        return cur().sqrt(self)

    def exp(self):
        h = cur().hooks.get('exp')
        return h(self) if h else cur().ufun('exp', self)

    def log(self):
        h = cur().hooks.get('log')
        return h(self) if h else cur().ufun('log', self)

    def cos(self):
        h = cur().hooks.get('cos')
        return h(self) if h else cur().ufun('cos', self)

    def sin(self):
        h = cur().hooks.get('sin')
        return h(self) if h else cur().ufun('sin', self)

    def bit_count(self):
        return concretise(self).bit_count()

    # bit operations by case split (integers of known small range)
    def __and__(self, o):
        if isinstance(o, (int, np.integer)) and not isinstance(o, bool) and o == 1:
            return self % 2
        return concretise(self) & (concretise(o) if isinstance(o, Sym) else o)
    __rand__ = __and__

    def __xor__(self, o):
        return concretise(self) ^ (concretise(o) if isinstance(o, Sym) else o)
    __rxor__ = __xor__

    def __or__(self, o):
        return concretise(self) | (concretise(o) if isinstance(o, Sym) else o)
    __ror__ = __or__

    def __rshift__(self, o):
        return self // (2 ** int(o))

    def __lshift__(self, o):
        return self * (2 ** int(o))

    def __rlshift__(self, o):
        return o << concretise(self)


def divide(a, b):
    """real division; division by zero is a Python exception on its own path"""
    if is_num(b) and not is_sym(b):
        if b == 0:
            raise ZeroDivisionError('division by zero')
        tb = term(b, True)
        return Sym(term(a, True) / tb)
    tb = term(b, True)
    if cur().branch(tb == 0):
        raise ZeroDivisionError('division by zero')
    return Sym(term(a, True) / tb)


def concretise(x):
    if isinstance(x, Sym):
        return cur().concretise(x.t)
    if isinstance(x, SymBool):
        return int(bool(x))
    return x


class SymC:
    """symbolic complex number"""
    __slots__ = ('re', 'im')

    def __init__(self, re, im):
        self.re = re
        self.im = im

    @staticmethod
    def of(x):
        if isinstance(x, SymC):
            return x
        if isinstance(x, (complex, np.complexfloating)):
            return SymC(x.real, x.imag)
        if is_num(x) or isinstance(x, (Sym, SymBool)):
            return SymC(x, 0)
        return None

    def _bin(self, o, f):
        if isinstance(o, np.ndarray):
            return NotImplemented
        o = SymC.of(o)
        if o is None:
            return NotImplemented
        return f(self, o)

    def __add__(self, o): return self._bin(o, lambda a, b: SymC(a.re + b.re, a.im + b.im))
    __radd__ = __add__
    def __sub__(self, o): return self._bin(o, lambda a, b: SymC(a.re - b.re, a.im - b.im))
    def __rsub__(self, o): return self._bin(o, lambda a, b: SymC(b.re - a.re, b.im - a.im))

    def __mul__(self, o):
        return self._bin(o, lambda a, b: SymC(a.re * b.re - a.im * b.im,
                                              a.re * b.im + a.im * b.re))
    __rmul__ = __mul__

    def __truediv__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        o = SymC.of(o)
        if o is None:
            return NotImplemented
        if is_num(o.im) and o.im == 0:
            return SymC(sdiv(self.re, o.re), sdiv(self.im, o.re))
        d = o.re * o.re + o.im * o.im
        n = self * o.conjugate()
        return SymC(sdiv(n.re, d), sdiv(n.im, d))

    def __rtruediv__(self, o):
        return SymC.of(o) / self

    def __neg__(self): return SymC(-self.re, -self.im)
    def __pos__(self): return self

    def __pow__(self, o):
        if isinstance(o, int) and o >= 0:
            r = SymC(1, 0)
            for _ in range(o):
                r = r * self
            return r
        raise Unsupported('complex power')

    def conjugate(self): return SymC(self.re, -self.im)
    conj = conjugate

    @property
    def real(self): return self.re

    @property
    def imag(self): return self.im

    def __abs__(self):
        s = self.re * self.re + self.im * self.im
        return s.sqrt() if is_sym(s) else math.sqrt(s)

    def __eq__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        o = SymC.of(o)
        if o is None:
            return False
        return and_(seq(self.re, o.re), seq(self.im, o.im))

    def __ne__(self, o):
        r = self.__eq__(o)
        return not_(r)

    def __hash__(self):
        raise Unsupported('hash of a symbolic complex')

    def __bool__(self):
        return bool(not_(self == 0))

    def __complex__(self):
        raise Unsupported('complex() of a symbolic value')

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        return 'SymC(%r,%r)' % (self.re, self.im)


def sdiv(a, b):
    if is_sym(a) or is_sym(b):
        if is_num(a) and not is_sym(a) and a == 0:
            return 0
        return divide(a, b)
    return a / b


# logical helpers working on concrete and symbolic values
def and_(*xs):
    xs = [x for y in xs for x in (y if isinstance(y, (list, tuple)) else [y])]
    if all(isinstance(x, (bool, np.bool_)) for x in xs):
        return all(bool(x) for x in xs)
    return SymBool(z3.And([boolterm(x) for x in xs]))


def or_(*xs):
    xs = [x for y in xs for x in (y if isinstance(y, (list, tuple)) else [y])]
    if all(isinstance(x, (bool, np.bool_)) for x in xs):
        return any(bool(x) for x in xs)
    return SymBool(z3.Or([boolterm(x) for x in xs]))


def not_(x):
    if isinstance(x, (bool, np.bool_)):
        return not x
    return SymBool(z3.Not(boolterm(x)))


def implies(a, b):
    return or_(not_(a), b)


def ite(c, a, b):
    if isinstance(c, (bool, np.bool_)):
        return a if c else b
    if isinstance(a, SymC) or isinstance(b, SymC):
        a, b = SymC.of(a), SymC.of(b)
        return SymC(ite(c, a.re, b.re), ite(c, a.im, b.im))
    ta, tb = _pair(a, b)
    return Sym(z3.If(boolterm(c), ta, tb))


def seq(a, b):
    """symbolic/concrete equality as a boolean value (no fork)"""
    if isinstance(a, (SymC,)) or isinstance(b, SymC):
        a, b = SymC.of(a), SymC.of(b)
        if a is None or b is None:
            return False
        return and_(seq(a.re, b.re), seq(a.im, b.im))
    if isinstance(a, (complex, np.complexfloating)) or isinstance(b, (complex, np.complexfloating)):
        return seq(SymC.of(a), SymC.of(b))
    if is_sym(a) or is_sym(b):
        if not ((is_sym(a) or is_num(a)) and (is_sym(b) or is_num(b))):
            return False
        ta, tb = _pair(a, b)
        return SymBool(ta == tb)
    if is_num(a) and is_num(b):
        return abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b))
    return a == b


# ---------------------------------------------------------------- contexts

class Ctx:
    """common interface of the three execution modes"""
    symbolic = False
    # declared inputs are looked up by name

    def array(self, name, shape, kind='real', **kw):
        out = np.empty(shape, dtype=object)
        for idx in np.ndindex(*out.shape):
            out[idx] = getattr(self, kind)('%s_%s' % (name, '_'.join(map(str, idx))), **kw)
        if not self.symbolic:
            return np.array(out.tolist(), dtype={'real': float, 'int': int, 'cplx': complex,
                                                 'bit': int}.get(kind, object)).reshape(shape)
        return out

    def cplx(self, name, **kw):
        re = self.real(name + '.re', **kw)
        im = self.real(name + '.im', **kw)
        if self.symbolic:
            return SymC(re, im)
        return complex(re, im)

    def bit(self, name):
        return self.int(name, 0, 1)

    def distinct(self, name, n, lo=0, hi=None, conc_hi=7):
        """n pairwise distinct integers"""
        if self.symbolic:
            q = [self.int('%s%d' % (name, i), lo, hi) for i in range(n)]
            for i in range(n):
                for j in range(i):
                    self.require(not_(seq(q[i], q[j])))
            return q
        top = max(hi if hi is not None else conc_hi, lo + n - 1)
        pick = self.rng.sample(range(lo, top + 1), n)
        q = [int(self._get('%s%d' % (name, i), lambda i=i: pick[i])) for i in range(n)]
        self.require(len(set(q)) == n)
        return q

    def eq(self, a, b, tol=1e-7):
        """equality of scalars / arrays / nested containers: exact in a symbolic
        run, within tol in a concrete run"""
        return equal(a, b, tol, self.symbolic)

    def ensure_eq(self, clause, a, b, tol=1e-7):
        self.ensure(clause, self.eq(a, b, tol), lambda: 'got %s, specified %s' % (short(a), short(b)))

    def inverse_is(self, f):
        """symbolic runs: stand-in for the matrix inverse routine"""
        if self.symbolic:
            self.inverse_hook = f

    def standin(self, name, f, real=None):
        """symbolic runs: assumed contract of a scipy/numpy routine, as a function;
        with real='module.name' concrete runs of the harness replace that routine too"""
        if self.symbolic:
            self.hooks[name] = f
        elif real:
            self.replace(real, f)

    def ensure_raises(self, clause, exc, fn, *args, **kw):
        try:
            r = fn(*args, **kw)
        except exc:
            self.ensure(clause, True)
            return
        self.ensure(clause, False, lambda: 'no %s raised, returned %s' % (exc, short(r)))


def short(x, n=400):
    s = repr(x)
    return s if len(s) <= n else s[:n] + '...'


def equal(a, b, tol, symbolic):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a = np.asarray(a)
        b = np.asarray(b)
        if a.shape != b.shape:
            return False
        if a.dtype != object and b.dtype != object:
            if a.dtype.kind in 'USO' or b.dtype.kind in 'USO':
                return bool(np.all(a == b))
            return bool(np.all(np.abs(a - b) <= tol * np.maximum(1.0, np.abs(b))))
        return and_(*([True] + [equal(x, y, tol, symbolic) for x, y in zip(a.ravel(), b.ravel())]))
    if isinstance(a, dict) and isinstance(b, dict):
        if set(a) != set(b):
            return False
        return and_(*([True] + [equal(a[k], b[k], tol, symbolic) for k in b]))
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return False
        return and_(*([True] + [equal(x, y, tol, symbolic) for x, y in zip(a, b)]))
    if is_sym(a) or is_sym(b):
        return seq(a, b)
    if isinstance(a, (int, float, complex, Fraction, np.number)) and \
            isinstance(b, (int, float, complex, Fraction, np.number)):
        if a == b:
            return True
        try:
            return bool(abs(complex(a) - complex(b)) <= tol * max(1.0, abs(complex(b))))
        except OverflowError:
            return False
    return bool(a == b)


class Stats:
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0


class SymCtx(Ctx):
    symbolic = True

    def __init__(self, prefix, timeout_ms=20000, deadline=None):
        self.prefix = prefix
        self.trail = []
        self.alternates = []
        self.pc = []
        self.inputs = {}
        self.solver = z3.Solver()
        self.solver.set('timeout', timeout_ms)
        self.timeout_ms = timeout_ms
        self.deadline = deadline
        self.results = []          # (clause, status, model|None)
        self.stats = Stats()
        self.fresh_n = 0
        self.ufuns = {}
        self.sqrts = {}
        self.assumptions = []
        self.pos = set()
        self.squares = {}
        self.inverse_hook = None
        self.hooks = {}

    # -- solver
    def _check(self, *extra):
        if self.deadline and time.time() > self.deadline:
            raise Unsupported('time budget exhausted')
        t0 = time.time()
        r = self.solver.check(*extra)
        self.stats.queries += 1
        self.stats.solver_s += time.time() - t0
        return r

    def assume_term(self, t):
        self.pc.append(t)
        self.solver.add(t)

    def require_term(self, t, what):
        """a precondition of an operation of the engine itself"""
        if self._check(z3.Not(t)) != z3.unsat:
            raise Unsupported('cannot establish: ' + what)

    # -- decisions
    def decide(self, options):
        """options: list of z3 constraints, exactly one path per feasible option"""
        k = len(self.trail)
        if k < len(self.prefix):
            c = self.prefix[k]
            self.trail.append(c)
            self.assume_term(options[c])
            return c
        feas = [i for i, o in enumerate(options) if self._check(o) != z3.unsat]
        if not feas:
            raise PathEnd('no feasible option')
        for j in feas[1:]:
            self.alternates.append(self.trail + [j])
        self.trail.append(feas[0])
        self.assume_term(options[feas[0]])
        return feas[0]

    def branch(self, t):
        t = z3.simplify(t)
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        z = zero_test(t)
        if z is not None and self.positive(z):
            return False
        if z3.is_not(t):
            z = zero_test(t.arg(0))
            if z is not None and self.positive(z):
                return True
        return self.decide([t, z3.Not(t)]) == 0

    def concretise(self, t):
        t = z3.simplify(t)
        if z3.is_int_value(t):
            return t.as_long()
        # enumerate feasible values (bounded)
        k = len(self.trail)
        if k < len(self.prefix):
            val = self.prefix[k]
            self.trail.append(val)
            self.assume_term(t == val)
            return val
        vals = []
        self.solver.push()
        while True:
            r = self._check()
            if r == z3.unsat:
                break
            if r != z3.sat or len(vals) >= 128:
                self.solver.pop()
                raise Unsupported('too many values for a symbolic integer used as an index')
            m = self.solver.model()
            val = m.eval(t, model_completion=True)
            if not z3.is_int_value(val):
                self.solver.pop()
                raise Unsupported('non integer value')
            vals.append(val.as_long())
            self.solver.add(t != val)
        self.solver.pop()
        if not vals:
            raise PathEnd('infeasible')
        vals.sort()
        for x in vals[1:]:
            self.alternates.append(self.trail + [x])
        self.trail.append(vals[0])
        self.assume_term(t == vals[0])
        return vals[0]

    def positive(self, t):
        """syntactic: a sum/product of declared-positive inputs and numerals"""
        if z3.is_rational_value(t) or z3.is_int_value(t):
            return t.as_fraction() > 0 if z3.is_rational_value(t) else t.as_long() > 0
        k = t.decl().kind()
        if k in (z3.Z3_OP_MUL, z3.Z3_OP_ADD, z3.Z3_OP_TO_REAL, z3.Z3_OP_DIV):
            return all(self.positive(c) for c in t.children())
        if k == z3.Z3_OP_POWER:
            return self.positive(t.arg(0))
        return t.decl().name() in self.pos and t.num_args() == 0

    # -- inputs
    def int(self, name, lo=None, hi=None):
        if name in self.inputs:
            return self.inputs[name]
        if lo is not None and lo > 0:
            self.pos.add(name)
        t = z3.Int(name)
        x = Sym(t)
        self.inputs[name] = x
        if lo is not None:
            self.assume_term(t >= lo)
        if hi is not None:
            self.assume_term(t <= hi)
        return x

    def real(self, name, lo=None, hi=None):
        if name in self.inputs:
            return self.inputs[name]
        if lo is not None and lo > 0:
            self.pos.add(name)
        t = z3.Real(name)
        x = Sym(t)
        self.inputs[name] = x
        if lo is not None:
            self.assume_term(t >= term(lo, True))
        if hi is not None:
            self.assume_term(t <= term(hi, True))
        return x

    def bool(self, name):
        t = z3.Bool(name)
        x = SymBool(t)
        self.inputs[name] = x
        return x

    def choice(self, name, options):
        options = list(options)
        t = z3.Int(name)
        self.inputs[name] = Sym(t)
        k = self.decide([t == i for i in range(len(options))])
        return options[k]

    def fresh(self, base, sort='real'):
        self.fresh_n += 1
        n = '%s!%d' % (base, self.fresh_n)
        return Sym(z3.Real(n) if sort == 'real' else z3.Int(n))

    def sqrt(self, x):
        key = z3.simplify(term(x, True)).sexpr()
        if key in self.sqrts:
            return self.sqrts[key]
        y = self.fresh('sqrt')
        tx = term(x, True)
        if self._check(tx < 0) != z3.unsat:
            if self.branch(tx < 0):
                raise Unsupported('sqrt of a possibly negative number')
        self.assume_term(z3.And(y.t >= 0, y.t * y.t == tx))
        self.sqrts[key] = y
        self.squares[y.t.decl().name()] = tx
        return y

    def ufun(self, name, *args):
        key = (name, len(args))
        if key not in self.ufuns:
            self.ufuns[key] = z3.Function(name, *([z3.RealSort()] * (len(args) + 1)))
        return Sym(self.ufuns[key](*[term(a, True) for a in args]))

    # -- contract
    def require(self, c):
        if isinstance(c, (bool, np.bool_)):
            if not c:
                raise PathEnd('precondition false')
            return
        self.assume_term(boolterm(c))
        if self._check() == z3.unsat:
            raise PathEnd('precondition infeasible')

    def assume(self, c, why):
        """an assumed contract of a dependency (recorded)"""
        self.assumptions.append(why)
        self.require(c)

    def ensure(self, clause, c, detail=None):
        if isinstance(c, (bool, np.bool_)):
            if c:
                self.results.append((clause, 'proved', None))
                return
            t = z3.BoolVal(False)
        else:
            t = boolterm(c)
        parts = conjuncts(t)
        bad = None
        for p0 in parts:
            p = z3.simplify(p0)
            if z3.is_true(p) or poly_identity(p0, self.squares):
                continue
            r = self._check(z3.Not(p))
            if r == z3.unknown:
                r = self.second_opinion(z3.Not(p))
            if r == z3.unsat:
                continue
            if r == z3.sat:
                bad = ('refuted', self.decode(self.solver.model()))
                break
            bad = ('unknown', None)
        if bad is None:
            self.results.append((clause, 'proved', None))
        else:
            self.results.append((clause,) + bad)

    def second_opinion(self, neg):
        """retry with a fresh solver and other tactics"""
        for tac in ('qfnra-nlsat', 'smt'):
            try:
                s = z3.Then('simplify', 'purify-arith', tac).solver() if tac == 'qfnra-nlsat' \
                    else z3.Tactic('smt').solver()
                s.set('timeout', self.timeout_ms)
                for p in self.pc:
                    s.add(p)
                s.add(neg)
                t0 = time.time()
                r = s.check()
                self.stats.queries += 1
                self.stats.solver_s += time.time() - t0
                if r == z3.unsat:
                    return r
            except z3.Z3Exception:
                pass
        return z3.unknown

    def decode(self, m):
        out = {}
        for n, x in self.inputs.items():
            val = m.eval(x.t, model_completion=True)
            out[n] = decode_value(val)
        return out


def decode_value(val):
    if z3.is_true(val):
        return True
    if z3.is_false(val):
        return False
    if z3.is_int_value(val):
        return val.as_long()
    if z3.is_rational_value(val):
        return float(Fraction(val.numerator_as_long(), val.denominator_as_long()))
    if z3.is_algebraic_value(val):
        a = val.approx(20)
        return float(Fraction(a.numerator_as_long(), a.denominator_as_long()))
    return 0


def zero_test(t):
    """x when t is the test x == 0"""
    if z3.is_eq(t) and t.num_args() == 2 and z3.is_arith(t.arg(0)):
        a, b = t.children()
        for x, y in ((a, b), (b, a)):
            if (z3.is_rational_value(y) and y.numerator_as_long() == 0) or \
                    (z3.is_int_value(y) and y.as_long() == 0):
                return x
    return None


def poly_identity(p, squares=None):
    """both sides of the equation have the same rational-function normal form"""
    if not (z3.is_eq(p) and z3.is_arith(p.arg(0))):
        return False
    return ratfun.Normaliser(squares).equal(p.arg(0), p.arg(1))


def conjuncts(t):
    if z3.is_and(t):
        out = []
        for c in t.children():
            out += conjuncts(c)
        return out
    return [t]


class ConcCtx(Ctx):
    """concrete execution: inputs from a model or from a seeded generator"""

    def __init__(self, values=None, rng=None):
        self.values = dict(values) if values else {}
        self.rng = rng or random.Random(0)
        self.used = {}
        self.clauses = 0
        self.replaced = []

    def replace(self, path, f):
        """the routine of a dependency, wherever the package holds it, until restore()"""
        import importlib
        import sys
        mod, _, attr = path.rpartition('.')
        mod = importlib.import_module(mod)
        orig = getattr(mod, attr)
        for m in [mod] + [m for k, m in list(sys.modules.items()) if k.startswith('qiskit.ignis') and m is not None]:
            for k, x in list(vars(m).items()):
                if x is orig:
                    self.replaced.append((m, k, orig))
                    setattr(m, k, f)

    def restore(self):
        for m, k, x in reversed(self.replaced):
            setattr(m, k, x)
        self.replaced = []

    def _get(self, name, gen):
        if name in self.used:
            return self.used[name]
        x = self.values[name] if name in self.values else gen()
        self.used[name] = x
        return x

    def int(self, name, lo=None, hi=None):
        def gen():
            a = lo if lo is not None else (hi - 50 if hi is not None else -20)
            b = hi if hi is not None else a + 50
            r = self.rng.random()
            if r < 0.15:
                return a
            if r < 0.25:
                return b
            return self.rng.randint(a, b)
        return int(self._get(name, gen))

    def real(self, name, lo=None, hi=None):
        def gen():
            a = float(lo) if lo is not None else (float(hi) - 2 if hi is not None else -1.0)
            b = float(hi) if hi is not None else a + 2.0
            r = self.rng.random()
            if r < 0.05:
                return a
            if r < 0.1:
                return b
            return self.rng.uniform(a, b)
        return float(self._get(name, gen))

    def bool(self, name):
        return bool(self._get(name, lambda: self.rng.random() < 0.5))

    def choice(self, name, options):
        options = list(options)
        k = self._get(name, lambda: self.rng.randrange(len(options)))
        return options[int(k) % len(options)]

    def require(self, c):
        if not c:
            raise Discard()

    def assume(self, c, why):
        if not c:
            raise Discard()

    def ensure(self, clause, c, detail=None):
        self.clauses += 1
        if not bool(c):
            raise ContractViolation(clause, detail() if callable(detail) else (detail or ''))


def explore(harness, params, timeout_ms=20000, budget_s=120, max_paths=4000):
    """verify a harness: all feasible paths, all clauses.  Returns a dict."""
    global CUR
    stack = [[]]
    deadline = time.time() + budget_s
    out = {'clauses': {}, 'paths': 0, 'vacuous': 0, 'queries': 0, 'solver_s': 0.0,
           'undecided': None, 'assumptions': set()}

    def merge(clause, status, model):
        rank = {'proved': 0, 'unknown': 1, 'refuted': 2}
        old = out['clauses'].get(clause)
        if old is None:
            out['clauses'][clause] = {'status': status, 'model': model, 'n': 1}
        else:
            old['n'] += 1
            if rank[status] > rank[old['status']]:
                old['status'] = status
                old['model'] = model

    while stack:
        prefix = stack.pop()
        ctx = SymCtx(prefix, timeout_ms, deadline)
        CUR = ctx
        try:
            harness(ctx, **params)
            out['paths'] += 1
        except PathEnd:
            out['vacuous'] += 1
        except Unsupported as e:
            out['undecided'] = str(e)
        except RecursionError:
            out['undecided'] = 'recursion limit'
        except MemoryError:
            raise
        except Exception as e:      # raised by the code under contract
            if type(e).__name__ == 'Skip':
                raise
            if 'z3' in type(e).__module__ or isinstance(e, z3.Z3Exception):
                out['undecided'] = 'z3: %s' % e
            else:
                import traceback
                r = ctx._check() if time.time() < deadline else z3.unknown
                model = ctx.decode(ctx.solver.model()) if r == z3.sat else None
                merge('no-unexpected-exception', 'refuted' if r == z3.sat else 'unknown', model)
                out.setdefault('exceptions', []).append(traceback.format_exc()[-1500:])
        finally:
            CUR = None
        for c in ctx.results:
            merge(*c)
        out['queries'] += ctx.stats.queries
        out['solver_s'] += ctx.stats.solver_s
        out['assumptions'] |= set(ctx.assumptions)
        stack.extend(ctx.alternates)
        if out['undecided']:
            break
        if out['paths'] + out['vacuous'] > max_paths:
            out['undecided'] = 'path limit'
            break
        if time.time() > deadline and stack:
            out['undecided'] = 'time budget exhausted'
            break
    out['assumptions'] = sorted(out['assumptions'])
    return out
