"""Symbolic-run environment of the code under contract.

The functions of /repo are executed unmodified (same code objects).  While a
symbolic run is active the *global names* ``np``/``numpy``/``la`` and a few
builtins of the listed repo modules are rebound to the wrappers below, so that
numpy containers can hold symbolic numbers (dtype=object) and so that
inverse/sqrt/... are represented by their assumed contracts.  The bindings are
restored when the run ends.
"""
import builtins
import importlib
import math
import sys

import numpy as real_np

from . import core
from .core import Sym, SymBool, SymC, is_sym, Unsupported, and_, ite


def has_sym(x):
    if is_sym(x):
        return True
    if isinstance(x, real_np.ndarray):
        return x.dtype == object and any(has_sym(y) for y in x.ravel())
    if isinstance(x, (list, tuple)):
        return any(has_sym(y) for y in x)
    return False


def _obj(a):
    a = real_np.asarray(a)
    return a.astype(object)


def _elem(f, x):
    if isinstance(x, real_np.ndarray):
        out = real_np.empty(x.shape, dtype=object)
        for i in real_np.ndindex(*x.shape):
            out[i] = f(x[i])
        return out
    if isinstance(x, (list, tuple)):
        return _elem(f, real_np.array(x, dtype=object))
    return f(x)


def matrix_inverse(a, name='inv'):
    """assumed contract of numpy.linalg.inv / pinv on a nonsingular square
    matrix: the result X satisfies A.X == X.A == identity.  1x1 and 2x2 are
    computed exactly, otherwise X is a fresh matrix."""
    a = real_np.asarray(a)
    n, m = a.shape
    if n != m:
        raise Unsupported('inverse of a non-square matrix')
    ctx = core.cur()
    if ctx.inverse_hook is not None:
        return ctx.inverse_hook(a)
    if n == 2:
        det = a[0, 0] * a[1, 1] - a[0, 1] * a[1, 0]
        if bool(core.seq(det, 0)):
            raise real_np.linalg.LinAlgError('Singular matrix')
        out = real_np.empty((2, 2), dtype=object)
        out[0, 0] = core.sdiv(a[1, 1], det)
        out[1, 1] = core.sdiv(a[0, 0], det)
        out[0, 1] = core.sdiv(-a[0, 1], det)
        out[1, 0] = core.sdiv(-a[1, 0], det)
        return out
    out = real_np.empty((n, n), dtype=object)
    for i in real_np.ndindex(n, n):
        out[i] = ctx.fresh(name)
    ident = real_np.eye(n, dtype=int)
    for prod in (out @ a, a @ out):
        for i in real_np.ndindex(n, n):
            ctx.assume_term(core.boolterm(core.seq(prod[i], int(ident[i]))))
    ctx.assumptions.append('numpy.linalg.inv/pinv returns the two-sided inverse of a '
                           'nonsingular matrix')
    return out


def plain(x):
    """object arrays holding plain numbers become float/complex arrays"""
    if isinstance(x, real_np.ndarray) and x.dtype == object:
        try:
            return x.astype(complex if any(isinstance(y, complex) for y in x.ravel()) else float)
        except (TypeError, ValueError):
            return x
    return x


def hooked(f, name):
    """a library routine: its stand-in (assumed contract) when the harness has
    declared one, the routine itself on concrete data, no answer otherwise"""
    def g(*a, **k):
        h = core.CUR.hooks.get(name) if core.CUR is not None else None
        if h is not None:
            return h(*a, **k)
        if any(has_sym(x) for x in a):
            raise Unsupported('%s on symbolic data' % name)
        return f(*[plain(x) for x in a], **k)
    g.__name__ = name
    return g


class Linalg:
    LinAlgError = real_np.linalg.LinAlgError

    def __getattr__(self, name):
        f = getattr(self._base, name, None) or getattr(real_np.linalg, name)
        return hooked(f, name)

    def __init__(self, base=None):
        self._base = base or real_np.linalg

    def inv(self, a):
        if not has_sym(a):
            return real_np.linalg.inv(real_np.asarray(a, dtype=complex if real_np.iscomplexobj(a) else float))
        return matrix_inverse(a)

    def pinv(self, a, *args, **kw):
        if not has_sym(a):
            return real_np.linalg.pinv(real_np.asarray(a, dtype=complex if real_np.iscomplexobj(a) else float))
        return matrix_inverse(a, 'pinv')

    def norm(self, a, ord=None, axis=None):
        if not has_sym(a):
            return real_np.linalg.norm(real_np.asarray(a, dtype=complex if real_np.iscomplexobj(a) else float),
                                       ord=ord, axis=axis)
        if axis is not None or ord not in (None, 2) or (ord == 2 and real_np.ndim(a) > 1):
            raise Unsupported('norm variant')
        s = 0
        for x in real_np.asarray(a).ravel():
            x = core.SymC.of(x)
            s = s + x.re * x.re + x.im * x.im
        return s.sqrt() if is_sym(s) else math.sqrt(s)


class NpShim:
    """numpy with symbolic containers"""

    def __init__(self, keep_dtype=()):
        self.linalg = Linalg()
        self._keep = keep_dtype     # constructors that keep their dtype

    def __getattr__(self, name):
        return getattr(real_np, name)

    def _mk(self, name, fill):
        def f(shape, *a, **k):
            if name in self._keep:
                return getattr(real_np, name)(shape, *a, **k)
            out = real_np.empty(shape, dtype=object)
            out.fill(fill)
            return out
        return f

    @property
    def zeros(self): return self._mk('zeros', 0)

    @property
    def ones(self): return self._mk('ones', 1)

    @property
    def empty(self): return self._mk('empty', 0)

    def zeros_like(self, a, *_, **__):
        return self.zeros(real_np.shape(a))

    def ones_like(self, a, *_, **__):
        return self.ones(real_np.shape(a))

    def eye(self, n, *a, **k):
        return real_np.eye(n, dtype=int).astype(object)
    identity = eye

    def full(self, shape, val, *a, **k):
        out = real_np.empty(shape, dtype=object)
        out.fill(val)
        return out

    def array(self, x, dtype=None, **k):
        dtype = {_int: int, _float: float}.get(dtype, dtype)
        if has_sym(x):
            return real_np.array(x, dtype=object, **k)
        return real_np.array(x, dtype=dtype, **k)

    def asarray(self, x, dtype=None, **k):
        dtype = {_int: int, _float: float}.get(dtype, dtype)
        if has_sym(x):
            return real_np.asarray(x, dtype=object)
        return real_np.asarray(x, dtype=dtype, **k)

    def real(self, x):
        if has_sym(x):
            return _elem(lambda y: y.real if hasattr(y, 'real') else y, x)
        return real_np.real(x)

    def imag(self, x):
        if has_sym(x):
            return _elem(lambda y: y.imag if hasattr(y, 'imag') else 0, x)
        return real_np.imag(x)

    def conj(self, x):
        if has_sym(x):
            return _elem(lambda y: y.conjugate(), x)
        return real_np.conj(x)
    conjugate = conj

    def sqrt(self, x):
        if has_sym(x):
            return _elem(lambda y: y.sqrt() if is_sym(y) else math.sqrt(y), x)
        if isinstance(x, real_np.ndarray) and x.dtype == object:
            return _elem(lambda y: math.sqrt(y), x)
        return real_np.sqrt(x)

    def _u1(self, name, x):
        if has_sym(x):
            return _elem(lambda y: getattr(y, name)() if is_sym(y) else getattr(math, name)(y), x)
        return getattr(real_np, name)(x)

    def exp(self, x): return self._u1('exp', x)
    def log(self, x): return self._u1('log', x)
    def cos(self, x): return self._u1('cos', x)
    def sin(self, x): return self._u1('sin', x)

    def abs(self, x):
        if has_sym(x):
            return _elem(builtins.abs, x)
        return real_np.abs(x)
    absolute = abs

    def std(self, a, axis=None, **k):
        if not has_sym(a):
            return real_np.std(a, axis, **k)
        ddof = k.get('ddof', 0)
        a = real_np.array(a, dtype=object)
        n = a.size if axis is None else a.shape[axis]
        mean = real_np.sum(a, axis) / n
        if axis not in (None, 0):
            raise Unsupported('std axis')
        var = real_np.sum((a - mean) * (a - mean), axis) / (n - ddof)
        return self.sqrt(var)

    def var(self, a, axis=None, **k):
        if not has_sym(a):
            return real_np.var(a, axis, **k)
        a = real_np.array(a, dtype=object)
        n = a.size if axis is None else a.shape[axis]
        mean = real_np.sum(a, axis) / n
        if axis not in (None, 0):
            raise Unsupported('var axis')
        return real_np.sum((a - mean) * (a - mean), axis) / (n - k.get('ddof', 0))

    def mean(self, a, axis=None, **k):
        if not has_sym(a):
            return real_np.mean(a, axis, **k)
        a = real_np.array(a, dtype=object)
        n = a.size if axis is None else a.shape[axis]
        return real_np.sum(a, axis) / n

    def divide(self, a, b, out=None, where=True, **k):
        if not (has_sym(a) or has_sym(b)):
            return real_np.divide(real_np.asarray(a, dtype=float), real_np.asarray(b, dtype=float),
                                  **({'out': real_np.asarray(out, dtype=float)} if out is not None else {}),
                                  where=where)
        if where is True:
            return real_np.asarray(a, dtype=object) / real_np.asarray(b, dtype=object)
        a, b, w = real_np.broadcast_arrays(real_np.asarray(a, dtype=object),
                                           real_np.asarray(b, dtype=object),
                                           real_np.asarray(where, dtype=object))
        res = real_np.array(out, dtype=object) if out is not None else real_np.zeros(a.shape, dtype=object)
        for i in real_np.ndindex(*a.shape):
            if w[i] is True or (not is_sym(w[i]) and bool(w[i])):
                res[i] = core.sdiv(a[i], b[i])
            elif is_sym(w[i]):
                # guarded: the quotient is used only where the guard holds
                import z3
                core.cur().require_term(z3.Implies(core.boolterm(w[i]), core.term(b[i], True) != 0),
                                        'divisor nonzero under the guard')
                res[i] = ite(w[i], Sym(core.term(a[i], True) / core.term(b[i], True)), res[i])
        return res
    true_divide = divide

    def isclose(self, a, b, *_, **__):
        if has_sym(a) or has_sym(b):
            return bool(core.seq(a, b))
        return real_np.isclose(a, b, *_, **__)

    def allclose(self, a, b, *_, **__):
        if has_sym(a) or has_sym(b):
            return bool(core.equal(real_np.asarray(a), real_np.broadcast_to(b, real_np.shape(a)), 0, True))
        return real_np.allclose(a, b, *_, **__)

    def array_equal(self, a, b):
        if has_sym(a) or has_sym(b):
            return bool(core.equal(real_np.asarray(a), real_np.asarray(b), 0, True))
        return real_np.array_equal(a, b)

    def mod(self, a, b):
        return a % b
    remainder = mod

    @property
    def random(self):
        h = core.CUR.hooks.get('random') if core.CUR is not None else None
        return h if h is not None else real_np.random

    @property
    def fft(self):
        class Fft:
            def __getattr__(self, name):
                return hooked(getattr(real_np.fft, name), name)
        return Fft()

    def median(self, a, axis=None, **k):
        if not has_sym(a):
            return real_np.median(plain(real_np.asarray(a)), axis, **k)
        if axis is not None:
            raise Unsupported('median axis')
        a = builtins.sorted(real_np.asarray(a).ravel())
        n = len(a)
        return a[n // 2] if n % 2 else (a[n // 2 - 1] + a[n // 2]) / 2


class MathShim:
    """math on symbolic numbers: stand-ins of the harness, exact functions"""

    def __getattr__(self, name):
        f = getattr(math, name)
        if not callable(f):
            return f

        def g(*a, **k):
            if not any(is_sym(x) for x in a):
                return f(*a, **k)
            h = core.CUR.hooks.get(name) if core.CUR is not None else None
            if h is not None:
                return h(*a, **k)
            if name in ('sqrt', 'exp', 'log', 'cos', 'sin') and len(a) == 1:
                return getattr(a[0], name)()
            if name in ('pow',) and len(a) == 2:
                return a[0] ** a[1]
            if name == 'fabs':
                return builtins.abs(a[0])
            raise Unsupported('math.%s on symbolic data' % name)
        return g


def _int(x=0, *a):
    if isinstance(x, SymBool):
        return x._i()
    if isinstance(x, Sym):
        if x.t.is_int():
            return x
        raise Unsupported('int() of a symbolic real')
    return int(x, *a)


def _float(x=0.0):
    if isinstance(x, (Sym, SymBool)):
        return Sym(core.term(x, True))
    return float(x)


def _isinstance(x, c):
    cs = c if isinstance(c, tuple) else (c,)
    cs = tuple({_int: int, _float: float}.get(y, y) if not isinstance(y, type) else y for y in cs)
    if isinstance(x, Sym):
        import numbers
        ok = set()
        if x.t.is_int():
            ok |= {int, real_np.integer, numbers.Integral, numbers.Number, object, numbers.Real}
        else:
            ok |= {float, real_np.floating, numbers.Real, numbers.Number, object, real_np.inexact}
        return any(y in ok for y in cs) or isinstance(x, cs)
    if isinstance(x, SymC):
        import numbers
        return any(y in (complex, numbers.Number, numbers.Complex, object) for y in cs)
    return isinstance(x, cs)


BUILTINS = {'int': _int, 'float': _float, 'isinstance': _isinstance}


class patched:
    """context manager: bind the shims in the given repo modules"""

    def __init__(self, mods, extra=None, keep_dtype=(), builtin=()):
        self.mods = mods
        self.builtin = builtin
        self.extra = extra or {}
        self.np = NpShim(keep_dtype)

    def __enter__(self):
        self.saved = []
        for m in self.mods:
            mod = importlib.import_module(m) if isinstance(m, str) else m
            new = {}
            for nm in ('np', 'numpy'):
                if mod.__dict__.get(nm) is real_np:
                    new[nm] = self.np
            if mod.__dict__.get('math') is math:
                new['math'] = MathShim()
            if mod.__dict__.get('la') is not None and getattr(mod.__dict__['la'], '__name__', '').endswith('linalg'):
                new['la'] = Linalg(mod.__dict__['la'])
            for k, v in list(mod.__dict__.items()):
                if callable(v) and not isinstance(v, type) and \
                        str(getattr(v, '__module__', '')).split('.')[0] in ('scipy', 'numpy'):
                    new[k] = hooked(v, getattr(v, '__name__', k))
            new.update({k: BUILTINS[k] for k in self.builtin})
            for k, v in self.extra.items():
                if k in mod.__dict__ or hasattr(builtins, k):
                    new[k] = v
            for k, v in new.items():
                self.saved.append((mod, k, mod.__dict__.get(k, self)))
                mod.__dict__[k] = v
        return self

    def __exit__(self, *a):
        for mod, k, old in reversed(self.saved):
            if old is self:
                mod.__dict__.pop(k, None)
            else:
                mod.__dict__[k] = old
        return False
