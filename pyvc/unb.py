"""Unbounded loops: the source of a repo function is read on every run, its `for`
loops and comprehensions are rewritten mechanically into calls of `loop`/`comp`
below (nothing is dropped: statements, order and expressions are kept; loop bodies
become local functions) and executed on sequences and dictionaries of *arbitrary*
length.  A loop over such a sequence is cut: its body is run once, on all its
paths, at an arbitrary index and with arbitrary values of everything the loop
changes, and the effect on every changed variable must match one of the inductive
rules

    v' = v + g(i)                       =>  v_end = v_0 + SUM_i g(i)
    v' = v and c(i) / v or c(i)         =>  v_end = v_0 and ALL_i c(i) / v_0 or ANY_i c(i)
    v' = e if c(i) else v               =>  v_end = e if ANY_i c(i) else v_0      (e free of i)
    v' = e(i) if i == k else v          =>  v_end = e(k) if 0 <= k < n else v_0
    d[key(i)] += g(i)                   =>  d_end[k] = d_0[k] + SUM_i (key(i) = k) g(i)
    d[key_i] = e(i), keys distinct      =>  d_end[key_i] = e(i)
    l.append(e(i)) [if c(i)]            =>  the sequence of those e(i)
    a[i] = e(i)                         =>  the sequence of e(i)

with g, c, e free of everything the loop changes.  SUM and ANY are terms; two of
them over the same sequence are identified when the solver proves their summands
equal at an arbitrary index.  Anything else is outside the subset (undecided).
Refutations are not used: a failed obligation in this mode is undecided.
"""
import ast
import builtins
import copy
import importlib
import inspect
import textwrap

import z3

from . import core
from .core import Sym, SymBool, Unsupported, PathEnd, is_sym, term, boolterm, and_, or_, not_, ite, seq as eqv

BREAK = object()
MISSING = object()
I, B, R = z3.IntSort(), z3.BoolSort(), z3.RealSort()


# ------------------------------------------------------------------ rewriting
class Names(ast.NodeVisitor):
    def __init__(self):
        self.stored = set()
        self.attrs = set()

    def visit_Name(self, n):
        if isinstance(n.ctx, (ast.Store, ast.Del)):
            self.stored.add(n.id)

    def visit_Attribute(self, n):
        if isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name):
            self.attrs.add((n.value.id, n.attr))
        self.generic_visit(n)

    def visit_ExceptHandler(self, n):
        if n.name:
            self.stored.add(n.name)
        self.generic_visit(n)

    def visit_FunctionDef(self, n):
        self.stored.add(n.name)

    def visit_Lambda(self, n):
        pass

    def visit_ListComp(self, n):
        for g in n.generators:
            self.visit(g.iter)
    visit_SetComp = visit_GeneratorExp = visit_DictComp = visit_ListComp


def names_in(stmts):
    v = Names()
    for s in stmts:
        v.visit(s)
    return v


class Rewriter(ast.NodeTransformer):
    def __init__(self, params, loaded=()):
        self.k = 0
        self.loaded = loaded            # names read anywhere in the function
        self.params = params
        self.cells = set()

    def fresh(self, base):
        self.k += 1
        return '__%s%d' % (base, self.k)

    def call(self, name, *args):
        return ast.Call(ast.Attribute(ast.Name('__U', ast.Load()), name, ast.Load()), list(args), [])

    def visit_Dict(self, n):
        self.generic_visit(n)
        return self.call('newdict', n) if not n.keys else n

    def visit_List(self, n):
        self.generic_visit(n)
        return self.call('newlist', n) if isinstance(n.ctx, ast.Load) and not n.elts else n

    def lam(self, target, body):
        """function of one argument that unpacks into the target"""
        if isinstance(target, ast.Name):
            return ast.Lambda(ast.arguments([], [ast.arg(target.id)], None, [], [], None, []), body)
        flat = [x for x in ast.walk(target) if isinstance(x, ast.Name)]
        # (lambda *names: body)(*flattened)
        inner = ast.Lambda(ast.arguments([], [ast.arg(x.id) for x in flat], None, [], [], None, []), body)
        shape = ast.Constant(ast.unparse(target))
        x = self.fresh('x')
        return ast.Lambda(ast.arguments([], [ast.arg(x)], None, [], [], None, []),
                          ast.Call(inner, [ast.Starred(self.call('flat', shape, ast.Name(x, ast.Load())), ast.Load())], []))

    def comp(self, kind, gens, elt):
        g = gens[0]
        if g.is_async:
            return None
        rest = self.comp('gen', gens[1:], elt) if len(gens) > 1 else elt
        conds = g.ifs[0] if len(g.ifs) == 1 else (ast.BoolOp(ast.And(), g.ifs) if g.ifs else ast.Constant(True))
        return self.call('comp', ast.Constant(kind), ast.Constant(len(gens) > 1), self.lam(g.target, rest), self.lam(g.target, conds), g.iter)

    def visit_ListComp(self, n):
        self.generic_visit(n)
        return self.comp('list', n.generators, n.elt)

    def visit_GeneratorExp(self, n):
        self.generic_visit(n)
        return self.comp('gen', n.generators, n.elt)

    def visit_SetComp(self, n):
        self.generic_visit(n)
        return self.comp('set', n.generators, n.elt)

    def visit_DictComp(self, n):
        self.generic_visit(n)
        return self.comp('dict', n.generators, ast.Tuple([n.key, n.value], ast.Load()))

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)):
            c = self.call('contains', n.left, n.comparators[0])
            return c if isinstance(n.ops[0], ast.In) else ast.UnaryOp(ast.Not(), c)
        return n

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
            return self.call('fmt', n.left, n.right)
        return n

    def visit_Lambda(self, n):
        return n

    def visit_FunctionDef(self, n):
        return n

    def visit_For(self, n):
        stored = names_in(n.body)
        tnames = names_in([ast.Assign([n.target], ast.Constant(0))]).stored
        stored_names = sorted((stored.stored | tnames) & self.loaded)
        attrs = sorted((o, a) for o, a in stored.attrs if o not in stored.stored)
        it = self.visit(n.iter)
        body = []
        for s in n.body:
            r = self.visit(s)
            body += r if isinstance(r, list) else [r]
        body = [LoopExits().visit(s) for s in body]
        orelse = []
        for s in n.orelse:
            r = self.visit(s)
            orelse += r if isinstance(r, list) else [r]
        fn, x, r = self.fresh('body'), self.fresh('x'), self.fresh('r')
        self.cells |= set(stored_names)
        nl = [ast.Nonlocal(stored_names)] if stored_names else []
        f = ast.FunctionDef(fn, ast.arguments([], [ast.arg(x)], None, [], [], None, []),
                            nl + [ast.Assign([n.target], ast.Name(x, ast.Load()))] + body + [ast.Return(ast.Constant(None))], [], None, None, [])
        get, set_ = self.fresh('get'), self.fresh('set')
        getf = ast.parse('def %s():\n    %s\n    d = {}\n%s    return d' % (get, 'pass', ''.join(
            '    try: d[%r] = %s\n    except NameError: pass\n' % (s, s) for s in stored_names))).body[0]
        setf = ast.parse('def %s(d):\n    %s\n%s' % (set_, 'nonlocal ' + ', '.join(stored_names) if stored_names else 'pass', ''.join(
            '    %s = d.get(%r)\n    if %r not in d: del %s\n' % (s, s, s, s) for s in stored_names) or '    pass')).body[0]
        attr_list = ast.List([ast.Tuple([ast.Name(o, ast.Load()), ast.Constant(a)], ast.Load()) for o, a in attrs], ast.Load())
        call = ast.Assign([ast.Name(r, ast.Store())],
                          self.call('loop', it, ast.Name(fn, ast.Load()), ast.Name(get, ast.Load()), ast.Name(set_, ast.Load()), attr_list))
        ret = ast.parse('if __U.is_return(%s): return %s[1]' % (r, r)).body[0]
        out = [f, getf, setf, call, ret]
        if orelse:
            out.append(ast.If(ast.parse('not __U.is_break(%s)' % r, mode='eval').body, orelse, []))
        return out


class LoopExits(ast.NodeTransformer):
    """continue/break/return of a loop body that became a function"""

    def visit_FunctionDef(self, n):
        return n

    def visit_For(self, n):
        return n

    def visit_While(self, n):
        return n

    def visit_Continue(self, n):
        return ast.Return(ast.Constant(None))

    def visit_Break(self, n):
        return ast.parse('def f():\n return __U.BREAK').body[0].body[0]

    def visit_Return(self, n):
        return ast.Return(ast.Tuple([ast.Attribute(ast.Name('__U', ast.Load()), 'RET', ast.Load()), n.value or ast.Constant(None)], ast.Load()))

    def visit_If(self, n):
        # `if __U.is_return(r): return r[1]` of an inner loop: pass it outwards unchanged in kind
        return self.generic_visit(n)


CACHE = {}


def called_names(code):
    out, stack = set(), [code]
    while stack:
        c = stack.pop()
        out |= set(c.co_names)
        stack += [x for x in c.co_consts if inspect.iscode(x)]
    return out


def follow(h, extra):
    def f(*a, **k):
        return twin(h.__module__, h.__qualname__, extra)(*a, **k)
    f.__name__ = h.__name__
    return f


def twin(modname, qual, extra=None):
    """the rewritten function and its globals"""
    mod = importlib.import_module(modname)
    obj = mod
    for p in qual.split('.'):
        obj = inspect.getattr_static(obj, p)
    if isinstance(obj, (staticmethod, classmethod)):
        obj = obj.__func__
    if isinstance(obj, property):
        obj = obj.fget
    f = inspect.unwrap(obj)
    if (modname, qual) not in CACHE:
        src = textwrap.dedent(inspect.getsource(f))
        tree = ast.parse(src)
        fd = tree.body[0]
        fd.decorator_list = []
        if any(isinstance(x, (ast.Yield, ast.YieldFrom, ast.Await)) for x in ast.walk(fd)):
            raise Unsupported('generator function')
        args = {a.arg for a in fd.args.args + fd.args.kwonlyargs}
        loaded = {x.id for x in ast.walk(fd) if isinstance(x, ast.Name) and not isinstance(x.ctx, ast.Store)} | \
            {x.target.id for x in ast.walk(fd) if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name)}
        rw = Rewriter(args, loaded)
        body = []
        for s in fd.body:
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                continue
            r = rw.visit(s)
            body += r if isinstance(r, list) else [r]
        cells = rw.cells - args
        if cells:
            body = [ast.If(ast.Constant(False), [ast.Assign([ast.Name(c, ast.Store())], ast.Constant(None)) for c in sorted(cells)], [])] + body
        fd.body = body
        ast.fix_missing_locations(tree)
        CACHE[modname, qual] = (compile(tree, '<unbounded twin of %s.%s>' % (modname, qual), 'exec'), fd.name)
    code, name = CACHE[modname, qual]
    g = dict(f.__globals__)
    u = Engine.of(core.cur())
    g['__U'] = u
    g.update(u.builtins())
    for n in called_names(code):         # functions of the package are followed by their own twins
        h = f.__globals__.get(n)
        if inspect.isfunction(h) and (h.__module__ or '').startswith('qiskit.ignis') and '.' not in h.__qualname__:
            g[n] = follow(h, extra)
    g.update(extra or {})
    ns = {}
    exec(code, g, ns)
    return ns[name]


# ----------------------------------------------------------------- values
class Placeholder:
    """a value the loop changes that is not a number: may only be overwritten"""

    def __init__(self, name):
        self.__dict__['_n'] = name

    def _no(self, *a, **k):
        raise Unsupported('value of %s carried through a loop' % self.__dict__['_n'])
    __getattr__ = __call__ = __eq__ = __ne__ = __lt__ = __gt__ = __le__ = __ge__ = __add__ = __radd__ = __bool__ = _no
    __setattr__ = __len__ = __iter__ = __getitem__ = __contains__ = __str__ = __sub__ = __mul__ = __hash__ = __setitem__ = _no


class Obj:
    """base of opaque symbolic objects: a z3 term of some sort"""

    def __init__(self, t):
        self.t = t

    def __eq__(self, o):
        if isinstance(o, Obj) and o.t.sort() == self.t.sort():
            return SymBool(self.t == o.t)
        raise Unsupported('comparison of an opaque value')

    def __ne__(self, o):
        return not_(self == o)

    def __hash__(self):
        return hash(self.t)

    def __repr__(self):
        return '<%s>' % self.t


class Seq:
    """sequence of symbolic length; elem(i) at an index term; optional guard(i)"""

    agg = None
    prev = None         # list filled by several loops: what was there before

    def __init__(self, n, elem, ident, guard=None, facts=None):
        self.n, self.elem, self.ident, self.guard, self.facts = n, elem, ident, guard, facts

    def __iter__(self):
        raise Unsupported('iteration over a sequence of arbitrary length')

    def like(self, elem, guard):
        q = Seq(self.n, elem, self.ident, guard, self.facts)
        q.agg = self.agg
        return q

    def map(self, f):
        return self.like(lambda i: f(self.elem(i)), self.guard)

    def __len__(self):
        raise Unsupported('len() of a sequence of arbitrary length outside a rewritten function')

    def __getitem__(self, i):
        if self.guard is not None or isinstance(i, slice):
            raise Unsupported('index into a filtered sequence')
        if isinstance(i, builtins.int):
            if i < 0:
                i = self.n + i
            i = Sym(term(i))
        return self.elem(i.t if isinstance(i, Sym) else i)

    def items_len(self):
        u = Engine.of(core.cur())
        if self.guard is None:
            return self.n
        return u.total(self.map(lambda x: 1))

    def values(self):
        raise Unsupported('values')


class Vec(Seq):
    """numpy vector of symbolic length: arithmetic with numbers is elementwise"""

    def _un(self, f):
        q = Vec(self.n, lambda i: f(self.elem(i)), self.ident, self.guard, self.facts)
        q.agg = self.agg
        return q

    def _num(self, o):
        if not isinstance(o, (Sym, builtins.int, builtins.float)):
            raise Unsupported('vector operation')
        return o

    def __mul__(self, o):
        o = self._num(o)
        return self._un(lambda x: x * o)
    __rmul__ = __mul__

    def __truediv__(self, o):
        o = self._num(o)
        return self._un(lambda x: x / o)

    def __add__(self, o):
        o = self._num(o)
        return self._un(lambda x: x + o)
    __radd__ = __add__

    def __pow__(self, k):
        if not isinstance(k, builtins.int) or not 0 < k < 4:
            raise Unsupported('power of a vector')

        def f(x):
            r = x
            for _ in range(k - 1):
                r = r * x
            return r
        return self._un(f)

    def sum(self, *a, **k):
        if a or k:
            raise Unsupported('sum along an axis')
        return Engine.of(core.cur()).total(self)

    def dot(self, o):
        u = Engine.of(core.cur())
        if not isinstance(o, Vec) or u.seqid(o) != u.seqid(self) or self.guard is not None or o.guard is not None or self.agg or o.agg:
            raise Unsupported('product of vectors over different sequences')
        return u.total(Vec(self.n, lambda i: self.elem(i) * o.elem(i), self.ident, None, self.facts))
    __matmul__ = dot
    dtype = builtins.float


def vec(s):
    q = Vec(s.n, s.elem, s.ident, s.guard, s.facts)
    q.agg = s.agg
    return q


class Dict:
    """dictionary of arbitrary size with distinct keys, given by its items"""

    def __init__(self, name, key_sort, mkkey, mkval, n, args=(), facts=None):
        u = Engine.of(core.cur())
        self.name, self.args, self.n = name, tuple(args), n
        ss = [a.sort() for a in args]
        self.kf = u.fun(name + '.key', *ss, I, key_sort)
        self.pf = u.fun(name + '.pos', *ss, key_sort, I)
        self.hf = u.fun(name + '.has', *ss, key_sort, B)
        self.mkkey, self.mkval = mkkey, mkval
        self.facts0 = facts
        self.key_sort = key_sort
        u.families.setdefault(self.hf.name(), self)
        u.families.setdefault(self.kf.name(), self)

    def axioms(self, args, t):
        """facts about the key t of the member of the family with these arguments"""
        h, p = self.hf(*self.args, t), self.pf(*self.args, t)
        out = [z3.And(p >= 0, p < term(self.n), self.kf(*self.args, p) == t)]
        if self.facts0:
            out += [boolterm(x) for x in self.facts0(p)]
        ax = z3.Implies(h, z3.And(*out))
        return z3.substitute(ax, *zip(self.args, args)) if self.args else ax

    def key(self, i):
        return self.mkkey(self.kf(*self.args, i))

    def val(self, i):
        return self.mkval(i)

    def facts(self, i):
        """facts of the item at index i"""
        k = self.kf(*self.args, i)
        out = [self.hf(*self.args, k), self.pf(*self.args, k) == i]
        if self.facts0:
            out += [boolterm(x) for x in self.facts0(i)]
        return out

    def keyterm(self, k):
        t = getattr(k, 't', None)
        if t is None or t.sort() != self.key_sort:
            raise Unsupported('key of another kind')
        return t

    def has(self, k):
        t = self.keyterm(k)
        h = self.hf(*self.args, t)
        p = self.pf(*self.args, t)
        u = Engine.of(core.cur())
        u.axiom(z3.Implies(h, z3.And(p >= 0, p < term(self.n), self.kf(*self.args, p) == t)))
        if self.facts0:
            u.axiom(z3.Implies(h, z3.And(*[boolterm(x) for x in self.facts0(p)])))
        return SymBool(h)

    def at(self, k):
        return self.val(self.pf(*self.args, self.keyterm(k)))

    def ident(self):
        return (self.name, self.args)

    def items(self):
        return Seq(self.n, lambda i: (self.key(i), self.val(i)), self, facts=self.facts)

    def keys(self):
        return Seq(self.n, self.key, self, facts=self.facts)

    def values(self):
        return Seq(self.n, self.val, self, facts=self.facts)

    def __contains__(self, k):
        return bool(self.has(k))

    def __getitem__(self, k):
        if not bool(self.has(k)):
            raise KeyError(k)
        return self.at(k)

    def get(self, k, default=None):
        if default is not None and isinstance(default, (builtins.int, builtins.float, Sym)):
            return ite(self.has(k), self.at(k), default)
        return self.at(k) if bool(self.has(k)) else default

    def __iter__(self):
        raise Unsupported('iteration over a dictionary of arbitrary size')

    def copy(self):
        s = State('dict')
        s.has, s.at = (lambda k: self.has(k)), (lambda k: ite(self.has(k), self.at(k), 0))
        s.source = self
        return s
    __copy__ = copy

    def __deepcopy__(self, memo):
        return self.copy()

    def __len__(self):
        raise Unsupported('len')


class State:
    """dictionary or list built by the code itself"""
    count = 0

    def __init__(self, kind):
        State.count += 1
        self.id = State.count
        self.kind = kind
        self.has = lambda k: SymBool(z3.BoolVal(False))
        self.at = lambda k: 0
        self.plain = {} if kind == 'dict' else []        # ordinary contents
        self.seq = None                                  # list: sequence of arbitrary length
        self.log = None
        self.source = None
        self.abstract = False
        self.written = False
        self.wkeys = []                                  # keys written since the last reset
        self.agg = None                                  # how a loop filled it
        self.fresh = True
        self.mkkey = None
        Engine.of(core.cur()).states.append(self)

    def isplain(self):
        return not self.abstract and self.source is None and self.seq is None

    # -- dict
    def _k(self, k):
        return isinstance(k, (Obj, Sym))

    def __contains__(self, k):
        return bool(self.contains(k))

    def contains(self, k):
        if self.kind == 'list':
            if not self.isplain():
                raise Unsupported('membership in a list of arbitrary length')
            return any(bool(core.seq(x, k)) if is_sym(x) or is_sym(k) else x == k for x in self.plain)
        if not self._k(k):
            if self.isplain() and self.log is None:
                return k in self.plain
            raise Unsupported('mixed keys')
        if self.plain:
            raise Unsupported('mixed keys')
        return self.cur_has(k)

    def cur_has(self, k):
        return self.has(k)

    def cur_at(self, k):
        return self.at(k)

    def __getitem__(self, k):
        if self.kind == 'list':
            if self.isplain() and self.log is None:
                return self.plain[k]
            if self.seq is not None and self.log is None and self.seq.prev is None:
                return self.seq[k]
            raise Unsupported('reading a list changed by the loop')
        if not self._k(k):
            if self.isplain() and self.log is None:
                return self.plain[k]
            raise Unsupported('mixed keys')
        if not bool(self.cur_has(k)):
            raise KeyError(k)
        return self.cur_at(k)

    def get(self, k, default=None):
        if not self._k(k):
            return self.plain.get(k, default)
        if isinstance(default, (builtins.int, builtins.float, Sym)):
            return ite(self.cur_has(k), self.cur_at(k), default)
        return self.cur_at(k) if bool(self.cur_has(k)) else default

    def __setitem__(self, k, v):
        self.written = True
        if self.kind == 'list':
            if self.seq is not None:
                raise Unsupported('element of a list of arbitrary length assigned')
            self.plain[k] = v
            return
        if not self._k(k):
            if self.log is not None or not self.isplain():
                raise Unsupported('concrete key written in a loop')
            self.plain[k] = v
            return
        self.wkeys.append(k.t)
        if isinstance(k, Obj):
            self.mkkey = type(k)
        self.agg = None
        self.abstract = True
        self.source = None
        self.written = True
        if not isinstance(v, (Sym, SymBool, builtins.int, builtins.float)):
            raise Unsupported('dictionary of non-numbers')
        h0, a0 = self.has, self.at
        self.has = lambda q: SymBool(z3.Or(boolterm(h0(q)), q.t == k.t))
        self.at = lambda q: ite(SymBool(q.t == k.t), v, a0(q))

    def setdefault(self, k, v):
        if not (bool(self.cur_has(k)) if self._k(k) else k in self.plain):
            self[k] = v
        return self[k]

    def update(self, o):
        self.written = True
        if isinstance(o, builtins.dict) and self.isplain():
            self.plain.update(o)
            return
        raise Unsupported('update')

    def items(self):
        if self.isplain() and self.log is None:
            return self.plain.items() if self.kind == 'dict' else self.plain
        if self.source is not None and self.log is None:
            return self.source.items()
        if self.agg is not None and self.log is None:
            return self.agg_seq('items')
        raise Unsupported('items of a dictionary built in a loop')

    def keys(self):
        if self.isplain() and self.log is None:
            return self.plain.keys()
        if self.source is not None and self.log is None:
            return self.source.keys()
        if self.agg is not None and self.log is None:
            return self.agg_seq('keys')
        raise Unsupported('keys')

    def values(self):
        if self.isplain() and self.log is None:
            return self.plain.values()
        if self.source is not None and self.log is None:
            return self.source.values()
        if self.agg is not None and self.log is None:
            return self.agg_seq('values')
        raise Unsupported('values')

    def __iter__(self):
        if self.isplain() and self.log is None:
            return iter(self.plain)
        raise Unsupported('iteration over a container of arbitrary size')

    def __len__(self):
        if self.isplain() and self.log is None:
            return len(self.plain)
        raise Unsupported('len')

    def __bool__(self):
        if self.isplain() and self.log is None:
            return bool(self.plain)
        raise Unsupported('truth of a container of arbitrary size')

    def agg_seq(self, what):
        """the entries of a dictionary that a loop summed up, in some order; the
        number of keys and their order are unknown, sums over them are re-indexed
        by Engine.quant to sums over the loop that filled the dictionary"""
        KEY, VAL, nk, mk = self.agg[:4]

        def elem(i):
            k, v = mk(KEY(i)), Sym(VAL(KEY(i)))
            return {'items': (k, v), 'keys': k, 'values': v}[what]
        q = Seq(Sym(nk), elem, (('agg', self.id, str(KEY)), ()))
        q.agg = self.agg
        return q

    # -- list
    def append(self, x):
        self.written = True
        if self.log is not None:
            self.log.append(x)
        elif self.seq is not None:
            raise Unsupported('append after a loop')
        else:
            self.plain.append(x)

    def copy(self):
        s = State(self.kind)
        s.has, s.at, s.plain, s.seq, s.source, s.abstract = self.has, self.at, copy.copy(self.plain), self.seq, self.source, self.abstract
        if self.log:
            raise Unsupported('copy in a loop')
        return s
    __copy__ = copy

    def __deepcopy__(self, memo):
        return self.copy()


class Array(State):
    """numpy vector of symbolic length (zeros)"""

    def __init__(self, n, fill=0):
        State.__init__(self, 'array')
        self.n, self.fill = n, fill
        self.isplain = lambda: False
        self.done = None

    def __getitem__(self, i):
        if self.log is not None or self.done is None:
            raise Unsupported('reading an array in its loop')
        return self.done[i]

    def __setitem__(self, i, v):
        self.written = True
        if self.log is None:
            if Engine.of(core.cur()).tentative:
                return
            raise Unsupported('array write outside a loop')
        self.log.append((Sym(term(i)), v))


# ----------------------------------------------------------------- engine
class Formatted:
    """a string made of symbolic numbers; what may be done with it is up to the
    object that takes it as a key"""

    def __init__(self, f, args):
        self.fmt = (f, args)

    def __hash__(self):
        raise Unsupported('a formatted string as a key')

    def __eq__(self, o):
        raise Unsupported('comparison of formatted strings')
    __ne__ = __eq__


def contains_any(t, syms):
    """does the z3 term contain one of the declared symbols (by name)?"""
    seen, stack = set(), [t]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.decl().name() in syms:
                return True
            stack.extend(x.children())
    return False


def realise(t):
    """the same number as a term of sort Real, conversions at the leaves"""
    if t.sort() == R:
        if z3.is_to_real(t):
            return realise_int(t.arg(0))
        return t
    return realise_int(t)


def realise_int(t):
    if z3.is_int_value(t):
        return z3.RealVal(t.as_long())
    if z3.is_app(t):
        k = t.decl().kind()
        if k == z3.Z3_OP_ITE:
            return z3.If(t.arg(0), realise_int(t.arg(1)), realise_int(t.arg(2)))
        if k == z3.Z3_OP_ADD:
            return z3.Sum(*[realise_int(x) for x in t.children()])
        if k == z3.Z3_OP_MUL:
            return z3.Product(*[realise_int(x) for x in t.children()])
        if k == z3.Z3_OP_UMINUS:
            return -realise_int(t.arg(0))
        if k == z3.Z3_OP_SUB:
            r = realise_int(t.arg(0))
            for x in t.children()[1:]:
                r = r - realise_int(x)
            return r
    return z3.ToReal(t)


def same_plain(a, b):
    return len(a) == len(b) and all(k in b and a[k] is b[k] for k in a)


class Engine:
    BREAK = BREAK
    RET = '__return__'

    @staticmethod
    def of(ctx):
        if not hasattr(ctx, 'unb'):
            ctx.unb = Engine(ctx)
        return ctx.unb

    def __init__(self, ctx):
        self.ctx = ctx
        self.states = []
        self.sums = []          # (kind, ident, nterm, ivar, body, params, fdecl)
        self.depth = 0
        self.funs = {}
        self.ix = 0
        self.families = {}
        self.scope = []
        self.tentative = False
        self.lin = {}
        self.range_facts = None

    # helpers used by rewritten code
    def is_return(self, r):
        return isinstance(r, tuple) and len(r) == 2 and r[0] is self.RET

    def is_break(self, r):
        return r is BREAK

    def newdict(self, d):
        return State('dict')

    def newlist(self, l):
        return State('list')

    def flat(self, shape, x):
        tree = ast.parse(shape, mode='eval').body

        def go(t, x):
            if isinstance(t, ast.Name):
                return [x]
            out = []
            xs = list(x)
            if len(xs) != len(t.elts):
                raise ValueError('unpack')
            for a, b in zip(t.elts, xs):
                out += go(a, b)
            return out
        return go(tree, x)

    def contains(self, a, b):
        if isinstance(b, Dict):
            return b.has(a)
        if isinstance(b, State):
            return b.contains(a)
        if isinstance(b, (builtins.list, builtins.tuple)) and is_sym(a):
            return or_(*([False] + [eqv(a, x) for x in b]))
        if hasattr(b, 'contains'):
            return b.contains(a)
        return a in b

    def fmt(self, f, args):
        xs = args if isinstance(args, tuple) else (args,)
        return Formatted(f, xs) if any(isinstance(x, (Sym, Obj)) for x in xs) else f % args

    def fun(self, name, *sorts):
        key = (name,) + tuple(str(s) for s in sorts)
        if key not in self.funs:
            self.funs[key] = z3.Function(name, *sorts)
        return self.funs[key]

    def axiom(self, t):
        self.ctx.assume_term(t)

    def newix(self):
        self.ix += 1
        return z3.Int('ix!%d' % self.ix)

    # ---- sub-exploration
    def paths(self, seq_, fn):
        """run fn(elem) on all paths at an arbitrary index; yields (cond, result, snapshot)"""
        c = self.ctx
        i = self.newix()
        out = []
        stack = [[]]
        saved = (c.prefix, c.trail, c.alternates)
        base = len(c.pc)
        self.scope.append(i)
        try:
            while stack:
                pre = stack.pop()
                c.prefix, c.trail, c.alternates = pre, [], []
                c.solver.push()
                fn0 = c.fresh_n
                nres = len(c.results)
                try:
                    c.assume_term(z3.And(i >= 0, i < term(seq_.n)))
                    for f in (seq_.facts(i) if seq_.facts else []):
                        c.assume_term(f)
                    mark = len(c.pc)
                    conds = []
                    orig = c.assume_term
                    outer_decide = c.decide
                    decide = getattr(outer_decide, 'base', outer_decide)      # branches of an inner loop body are its own

                    def dec(options, conds=conds, decide=decide):
                        k = decide(options)
                        conds.append(options[k])
                        return k
                    dec.base = decide
                    c.decide = dec
                    try:
                        if seq_.guard is not None:
                            g = boolterm(seq_.guard(i))
                            if not c.branch(g):
                                out.append((z3.And(*(conds + [z3.Not(g)])), MISSING, None, i))
                                continue
                        r = fn(seq_.elem(i), i)
                    finally:
                        c.decide = outer_decide
                    if c.fresh_n != fn0:
                        raise Unsupported('new unknown inside a loop of arbitrary length')
                    if len(c.results) != nres:
                        raise Unsupported('obligation inside a loop')
                    out.append((z3.And(*conds) if conds else z3.BoolVal(True), r, None, i))
                except PathEnd:
                    pass
                finally:
                    stack.extend(c.alternates)
                    c.solver.pop()
                    del c.pc[base:]
                    if len(out) > 200:
                        raise Unsupported('too many paths in a loop body')
        finally:
            c.prefix, c.trail, c.alternates = saved
            self.scope.pop()
        return i, out

    # ---- SUM / ANY terms
    def valid(self, t, seq_, i):
        c = self.ctx
        fs = [z3.And(i >= 0, i < term(seq_.n))] + [f for f in (seq_.facts(i) if seq_.facts else [])] + self.instances(t)
        s = z3.Solver()
        s.set('timeout', 3000)
        for f in fs:
            s.add(f)
        s.add(z3.Not(t))
        c.stats.queries += 1
        if s.check() == z3.unsat:
            return True
        # with what is known on the path (fewer facts only make this fail)
        for f in c.pc:
            if self.linear(f):
                s.add(f)
        c.stats.queries += 1
        return s.check() == z3.unsat

    def linear(self, f):
        k = f.get_id()
        if k not in self.lin:
            ok, stack, seen = True, [f], set()
            while stack and ok:
                x = stack.pop()
                if x.get_id() in seen:
                    continue
                seen.add(x.get_id())
                if z3.is_mul(x) and sum(not (z3.is_int_value(y) or z3.is_rational_value(y)) for y in x.children()) > 1 or z3.is_div(x) or \
                        (z3.is_app(x) and x.decl().kind() in (z3.Z3_OP_POWER, z3.Z3_OP_DIV)):
                    ok = False
                stack.extend(x.children())
            self.lin[k] = (ok, f)
        return self.lin[k][0]

    def instances(self, t):
        """axioms of the dictionary look-ups occurring in a term"""
        out, seen, stack = [], set(), [t]
        while stack:
            x = stack.pop()
            if x.get_id() in seen or not z3.is_app(x):
                continue
            seen.add(x.get_id())
            d = self.families.get(x.decl().name())
            if d is not None:
                ch = x.children()
                if x.decl().name() == d.hf.name():
                    out.append(d.axioms(ch[:-1], ch[-1]))
                elif not d.args:
                    out.append(z3.Implies(z3.And(ch[0] >= 0, ch[0] < term(d.n)), z3.And(*d.facts(ch[0]))))
            stack.extend(x.children())
        return out

    def seqid(self, seq_):
        s = seq_.ident
        return (s.name, s.args) if isinstance(s, Dict) else s

    def quant(self, kind, seq_, i, body):
        """the term SUM_i body or ANY_i body"""
        if kind == 'sum':
            body = realise(body)
        body = z3.simplify(body)
        ident, args = self.seqid(seq_)
        if seq_.agg is not None and contains_any(body, {i.decl().name()}):
            t = self.reindex(kind, seq_, i, body)
            if t is not None:
                return t
        if kind == 'sum':
            if z3.is_rational_value(body) and body.numerator_as_long() == 0 or z3.is_int_value(body) and body.as_long() == 0:
                return body
            if not contains_any(body, {i.decl().name()}):
                return realise(term(seq_.n)) * body
            if z3.is_add(body):
                return z3.Sum(*[self.quant(kind, seq_, i, x) for x in body.children()])
            if z3.is_mul(body):
                free = [x for x in body.children() if not contains_any(x, {i.decl().name()})]
                dep = [x for x in body.children() if contains_any(x, {i.decl().name()})]
                if free:
                    d = dep[0]
                    for x in dep[1:]:
                        d = d * x
                    f = free[0]
                    for x in free[1:]:
                        f = f * x
                    return f * self.quant(kind, seq_, i, d)
            # a denominator that does not depend on i comes out of the sum
            x = self.over(body, i)
            if x is not None:
                return self.quant(kind, seq_, i, x[0]) / x[1]
            # unique keys: SUM_i (key_i = k) * g(i)
            col = self.collapse(seq_, i, body)
            if col is not None:
                return col
        else:
            if z3.is_true(body) or z3.is_false(body):
                return z3.BoolVal(False) if z3.is_false(body) else term(seq_.n) > 0
            if not contains_any(body, {i.decl().name()}):
                return z3.And(term(seq_.n) > 0, body)
            if z3.is_or(body):
                return z3.Or(*[self.quant(kind, seq_, i, x) for x in body.children()])
            col = self.collapse(seq_, i, body, True)
            if col is not None:
                return col
        for (k2, id2, args2, i2, b2, params2, f2) in self.sums:
            if k2 != kind or id2 != ident or b2.sort() != body.sort() or len(args2) != len(args):
                continue
            sub = [(x, y) for x, y in zip(args2, args)] + [(i2, i)]
            inst = z3.substitute(b2, *sub)
            extra = [p for p in params2 if not any(p.eq(a) for a in args2)]
            same = self.valid(body == inst, seq_, i)
            if same:
                return f2(*([x for x in args] + extra)) if (args or extra) else f2()
        params = [a for a in args]
        if any(not z3.is_const(a) for a in params):
            raise Unsupported('nested sequence at a computed index')
        for s in self.scope:
            if contains_any(body, {s.decl().name()}) and not s.eq(i) and not any(s.eq(p) for p in params):
                params.append(s)
        nm = '%s!%d' % (kind.upper(), len(self.sums))
        f = z3.Function(nm, *[p.sort() for p in params], B if kind == 'any' else body.sort())
        self.sums.append((kind, ident, list(args), i, body, params, f))
        t = f(*params)
        if kind == 'sum' and self.valid(body >= 0, seq_, i):
            self.ctx.assume_term(t >= 0)
        if kind == 'sum' and not params:
            # sums are monotone: order this sum against those over the same sequence
            for (k2, id2, args2, i2, b2, params2, f2) in self.sums[:-1]:
                if k2 == 'sum' and id2 == ident and not params2:
                    b3 = z3.substitute(b2, (i2, i))
                    if self.valid(body <= b3, seq_, i):
                        self.ctx.assume_term(t <= f2())
                    elif self.valid(b3 <= body, seq_, i):
                        self.ctx.assume_term(f2() <= t)
        return t

    def over(self, t, i):
        """(numerator, denominator) of a term when the denominator does not contain i"""
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_DIV:
            a, d = t.children()
            if not contains_any(d, {i.decl().name()}) and not z3.is_rational_value(d):
                return a, d
        if z3.is_mul(t):
            for n, x in enumerate(t.children()):
                r = self.over(x, i)
                if r is not None:
                    p = r[0]
                    for m, y in enumerate(t.children()):
                        p = p * y if m != n else p
                    return p, r[1]
        return None

    def collapse(self, seq_, i, body, boolean=False):
        d = seq_.ident
        if not isinstance(d, Dict):
            return None
        key = d.kf(*d.args, i)
        if boolean:
            cond, val = body, None
        else:
            if not (z3.is_app(body) and body.decl().kind() == z3.Z3_OP_ITE):
                return None
            cond, val, other = body.children()
            zero = (z3.is_rational_value(other) and other.numerator_as_long() == 0) or (z3.is_int_value(other) and other.as_long() == 0)
            if not zero:
                return None
        cs = list(cond.children()) if z3.is_and(cond) else [cond]
        for n, c in enumerate(cs):
            if z3.is_eq(c):
                a, b = c.children()
                for x, y in ((a, b), (b, a)):
                    if x.eq(key) and not contains_any(y, {i.decl().name()}):
                        h = boolterm(d.has(d.mkkey(y)))
                        p = d.pf(*d.args, y)
                        rest = [z3.substitute(q, (i, p)) for m, q in enumerate(cs) if m != n]
                        cc = z3.And(h, *rest)
                        if boolean:
                            return cc
                        return z3.If(cc, z3.substitute(val, (i, p)), z3.substitute(other, (i, p)))
        return None

    def merge_num(self, outs, real):
        r = None
        for cond, x, _, i in outs:
            t = term(0 if x is MISSING else x, real)
            r = t if r is None else z3.If(cond, t, r)
        return r

    def total(self, seq_, start=0):
        """SUM of a sequence of numbers"""
        i, outs = self.paths(seq_, lambda x, i: x)
        if not outs:
            return start
        real = any(x is not MISSING and (isinstance(x, float) or (isinstance(x, Sym) and not x.t.is_int())) for _, x, _, _ in outs)
        self.scope.append(i)
        try:
            t = self.quant('sum', seq_, i, self.merge_num(outs, real))
        finally:
            self.scope.pop()
        return start + core.mk(t)

    def anyof(self, seq_, f=None):
        i, outs = self.paths(seq_, lambda x, i: f(x) if f else x)
        body = z3.Or(*([z3.BoolVal(False)] + [z3.And(c, boolterm(x)) for c, x, _, _ in outs if x is not MISSING]))
        self.scope.append(i)
        try:
            return SymBool(self.quant('any', seq_, i, body))
        finally:
            self.scope.pop()

    # ---- comprehension
    def comp(self, kind, nested, elt, cond, it):
        it = self.iterable(it)
        if not isinstance(it, Seq):
            def gen():
                for x in it:
                    if cond(x):
                        r = elt(x)
                        if nested:
                            for y in r:
                                yield y
                        else:
                            yield r
            if kind == 'gen':
                xs = [x for x in gen()]
                return xs
            if kind == 'dict':
                out = State('dict')
                for k, v in gen():
                    out[k] = v
                return out
            return {'list': builtins.list, 'set': set}[kind](gen())
        if nested:
            raise Unsupported('nested comprehension over a sequence of arbitrary length')
        g0 = it.guard

        def guard(i):
            g = cond(it.elem(i))
            return and_(g0(i), g) if g0 is not None else g
        trivial = False
        try:
            trivial = cond(None) is True
        except Exception:
            pass
        out = it.like(lambda i: elt(it.elem(i)), g0 if trivial else guard)
        if kind == 'dict':
            st = State('dict')

            def one(kv, i):
                t = State('dict')
                t[kv[0]] = kv[1]
                return (t.has, t.at)
            i, outs = self.paths(out, one)
            self.fold_dict(st, out, i, [(c, None if r is MISSING else r) for c, r, _, _ in outs])
            return st
        if kind == 'set':
            raise Unsupported('set of arbitrary size')
        return out

    def iterable(self, it):
        if isinstance(it, Dict):
            return it.keys()
        if isinstance(it, State):
            if it.log is not None:
                raise Unsupported('iteration over a container changed by the loop')
            if it.kind == 'array':
                return it.done
            if it.kind == 'dict' and it.source is not None:
                return it.source.keys()
            if it.seq is not None:
                if it.seq.prev is not None:
                    raise Unsupported('list filled by several loops')
                return it.seq
            if it.isplain():
                return it.plain
            if it.agg is not None:
                return it.agg_seq('keys')
            raise Unsupported('iteration over a dictionary built in a loop')
        return it

    # ---- loop
    def loop(self, it, body, get, set_, attrs):
        it = self.iterable(it)
        if not isinstance(it, Seq):
            for x in it:
                r = body(x)
                if r is not None:
                    return r
            return None
        c = self.ctx
        entry = get()
        aentry = [getattr(o, a, MISSING) for o, a in attrs]
        self.depth += 1
        syms = {}

        keep = set(k for k, v in entry.items() if isinstance(v, State))     # assumed to stay the same object

        def havoc(name, val):
            if val is MISSING:
                return MISSING
            if name in keep:
                return val
            nm = 'st!%d!%s' % (self.ix + 1, name)
            if isinstance(val, (bool, SymBool)):
                syms[nm] = SymBool(z3.Bool(nm))
            elif isinstance(val, builtins.int) or (isinstance(val, Sym) and val.t.is_int()):
                # may become real inside the loop
                syms[nm] = Sym(z3.Real(nm))
            elif isinstance(val, float) or isinstance(val, Sym):
                syms[nm] = Sym(z3.Real(nm))
            elif isinstance(val, (State, Dict, Seq, Obj)) or callable(val) or hasattr(val, '__dict__'):
                return Placeholder(name)
            else:
                return Placeholder(name)
            return syms[nm]
        live = [s for s in self.states]
        wr0 = {s.id: s.written for s in live}
        hav = {k: havoc(k, v) for k, v in entry.items()}
        ahav = [havoc('attr%d' % j, v) for j, v in enumerate(aentry)]
        key_syms = {}
        saved_states = [(s, s.has, s.at, s.log, copy.copy(s.plain), s.seq, s.source, s.abstract) for s in live]
        saved_agg = [(s, s.agg, list(s.wkeys)) for s in live]

        def reset():
            for s, has, at, log, plain, sq, src, ab in saved_states:
                s.has, s.at, s.plain, s.seq, s.source, s.abstract = has, at, copy.copy(plain), sq, src, ab
                s.log = log
            for s, ag, wk in saved_agg:
                s.agg, s.wkeys = ag, list(wk)

        def s_has(nm, k):
            return SymBool(self.fun(nm + '.has', k.t.sort(), B)(k.t))

        lid = self.ix + 1
        W = set()       # containers the loop may change: found by running the body until nothing new is written

        def prepare():
            for s, has, at, log, plain, sq, src, ab in saved_states:
                if s.id not in W:
                    s.written = False
                    if log is not None:
                        s.log = builtins.list(log)       # what is written here is dropped again
                    continue
                if log and s.kind != 'circ':
                    raise Unsupported('container changed both in an outer and an inner loop')
                s.has, s.at, s.seq, s.source, s.abstract = has, at, sq, None, True if s.kind == 'dict' and not plain else ab
                s.plain = copy.copy(plain)
                s.log = []
                s.agg = None
                s.written = False
                s.wkeys = []
                if s.kind == 'dict':
                    nm = 'st!%d!d%d' % (lid, s.id)
                    s.has = lambda k, nm=nm: SymBool(self.fun(nm + '.has', k.t.sort(), B)(k.t))
                    s.at = lambda k, nm=nm: ite(s_has(nm, k), Sym(self.fun(nm + '.at', k.t.sort(), R)(k.t)), 0)
                    key_syms[nm + '.has'] = key_syms[nm + '.at'] = True

        def one(x, i):
            n0 = len(self.states)
            try:
                prepare()
                d = dict(hav)
                set_({k: v for k, v in d.items() if v is not MISSING})
                for (o, a), h in zip(attrs, ahav):
                    if h is not MISSING:
                        setattr(o, a, h)
                r = body(x)
                if r is not None:
                    raise Unsupported('break or return in a loop of arbitrary length')
                res = get()
                ares = [getattr(o, a, MISSING) for o, a in attrs]
                logs = {s.id: ((s.has, s.at, list(s.wkeys)) if s.written else None) if s.kind == 'dict' else list(s.log) for s in live if s.id in W}
                found.update(s.id for s in live if s.written)
                for s, has, at, log, plain, sq, src, ab in saved_states:
                    if s.id in W and s.kind == 'dict' and not same_plain(s.plain, plain):
                        raise Unsupported('ordinary entry changed in a loop')
                return ({k: v for k, v in res.items()}, ares, logs)
            except (Unsupported, PathEnd):
                raise
            except Exception as e:
                raise Unsupported('exception in a loop of arbitrary length: %r' % e)
            finally:
                reset()
                del self.states[n0:]
                set_({k: v for k, v in entry.items() if v is not MISSING})
                for (o, a), h in zip(attrs, aentry):
                    if h is not MISSING:
                        setattr(o, a, h)
        found = set()
        try:
            while True:
                found.clear()
                outer = self.tentative
                self.tentative = True
                try:
                    i, outs = self.paths(it, one)
                except Unsupported:
                    if len(W) == len(live):
                        raise
                    found.update(s.id for s in live)
                finally:
                    self.tentative = outer
                if not found <= W:
                    W |= found
                    continue
                moved = {k for k in keep for _, r, _, _ in outs if r is not MISSING and r[0].get(k, MISSING) is not entry[k]}
                if not moved:
                    break
                keep -= moved
                hav = {k: havoc(k, v) for k, v in entry.items()}
        finally:
            self.depth -= 1
        for s in live:
            s.written = s.id in W or wr0[s.id]
        if not outs:
            return None
        symnames = set(syms) | set(key_syms)
        self.scope.append(i)
        try:
            out_state = {}
            for name in set(k for _, r, _, _ in outs if r is not MISSING for k in r[0]) | set(entry):
                h = hav.get(name, MISSING)
                vals = [(cond, h if r is MISSING else r[0].get(name, MISSING)) for cond, r, _, _ in outs]
                out_state[name] = self.fold_var(name, it, i, entry.get(name, MISSING), h, vals, symnames)
            for j, (o, a) in enumerate(attrs):
                h = ahav[j]
                vals = [(cond, h if r is MISSING else r[1][j]) for cond, r, _, _ in outs]
                v = self.fold_var(a, it, i, aentry[j], h, vals, symnames)
                if v is not MISSING:
                    setattr(o, a, v)
            for s in live:
                if s.id not in W:
                    continue
                logs = [(cond, ([] if s.kind != 'dict' else None) if r is MISSING else r[2][s.id]) for cond, r, _, _ in outs]
                if not any(l for _, l in logs):
                    continue
                if s.kind == 'circ':
                    from .trace import fold_circ
                    fold_circ(self, s, it, i, logs, symnames)
                elif s.kind == 'dict':
                    self.fold_dict(s, it, i, logs, symnames)
                elif s.kind == 'list':
                    self.fold_list(s, it, i, logs, symnames)
                else:
                    self.fold_array(s, it, i, logs, symnames)
        finally:
            self.scope.pop()
        set_({k: v for k, v in out_state.items() if v is not MISSING})
        return None

    def free(self, t, symnames):
        return not contains_any(t, symnames)

    def fold_var(self, name, it, i, entry, h, vals, symnames):
        poison = Placeholder(name)
        changed = [(c, v) for c, v in vals if v is not h]
        if not changed:
            return entry
        if any(not self.free(c, symnames) for c, _ in vals):
            if not isinstance(h, SymBool):
                return poison
        if isinstance(h, SymBool):
            t = None
            for c, v in vals:
                if v is MISSING or isinstance(v, (Placeholder, str)):
                    return poison
                b = boolterm(v)
                t = b if t is None else z3.If(c, b, t)
            s = h.t
            t1, t0 = z3.simplify(z3.substitute(t, (s, z3.BoolVal(True)))), z3.simplify(z3.substitute(t, (s, z3.BoolVal(False))))
            if not (self.free(t1, symnames) and self.free(t0, symnames)):
                return poison
            e = boolterm(entry)
            if self.valid(z3.Not(t0), it, i):          # and
                return SymBool(z3.And(e, z3.Not(self.quant('any', it, i, z3.Not(t1)))))
            if self.valid(t1, it, i):                  # or
                return SymBool(z3.Or(e, self.quant('any', it, i, t0)))
            return poison
        if isinstance(h, Sym) and all(isinstance(v, (Sym, builtins.int, float, SymBool)) for _, v in vals):
            body = None
            ok = True
            deltas = []
            for c, v in vals:
                d = z3.simplify(term(v, True) - h.t, som=True)
                if not self.free(d, symnames):
                    ok = False
                    break
                deltas.append((c, d))
            if ok:
                body = None
                for c, d in deltas:
                    body = d if body is None else z3.If(c, d, body)
                t = self.quant('sum', it, i, self.narrow(body))
                return Sym(z3.simplify(term(entry, True) + (z3.ToReal(t) if t.is_int() else t)))
        # assignments
        W = z3.Or(*[c for c, v in vals if v is not h])
        for c, v in changed:
            if v is MISSING or isinstance(v, Placeholder):
                return poison
        writes = changed
        idx = self.unique_index(W, it, i)
        if idx is not None and len(writes) == 1:
            v = writes[0][1]
            inside = z3.And(idx >= 0, idx < term(it.n))
            v = self.subst(v, i, idx)
            if v is None:
                return poison
            if self.ctx.branch(inside):
                return v
            return entry
        firstv = writes[0][1]

        def const(v):
            return not is_sym(v) and not isinstance(v, (Obj, Seq, Dict, State, Formatted, tuple, list, dict))
        if all(const(v) and type(v) is type(firstv) and v == firstv for _, v in writes):
            anyw = self.quant('any', it, i, W)
            if isinstance(firstv, (builtins.int, float)) and isinstance(entry, (builtins.int, float, Sym)) and not isinstance(firstv, bool):
                return ite(SymBool(anyw), firstv, entry)
            return firstv if self.ctx.branch(anyw) else entry
        return poison

    def narrow(self, t):
        """ToReal(int expression) sums stay sums of integers where possible"""
        return t

    def subst(self, v, i, idx):
        if isinstance(v, State) and v.kind == 'circ':
            return v.subst((i, idx))
        if isinstance(v, Sym):
            return Sym(z3.substitute(v.t, (i, idx)))
        if isinstance(v, SymBool):
            return SymBool(z3.substitute(v.t, (i, idx)))
        if isinstance(v, Obj):
            w = copy.copy(v)
            w.t = z3.substitute(v.t, (i, idx))
            return w
        if isinstance(v, tuple):
            return tuple(self.subst(x, i, idx) for x in v)
        if isinstance(v, (builtins.int, float, str, bool)) or v is None:
            return v
        return None

    def unique_index(self, W, it, i):
        for c in core.conjuncts(z3.simplify(W)):
            if z3.is_eq(c):
                a, b = c.children()
                for x, y in ((a, b), (b, a)):
                    if x.eq(i) and not contains_any(y, {i.decl().name()}):
                        if self.valid(W == (i == y), it, i):
                            return y
        return None

    def fold_dict(self, s, it, i, logs, symnames=frozenset()):
        """effect of one iteration on the entry of an arbitrary key"""
        tag = '!d%d.' % s.id
        mine = {n for n in symnames if tag in n}
        other = symnames - mine
        h0, a0 = s.has, s.at
        memo = {}

        def step(k):
            kk = k.t
            key = kk.get_id()
            if key in memo:
                return memo[key][1]
            nm = next(n for n in mine if n.endswith('.has'))[:-4] if mine else 'none!'
            P = self.fun(nm + '.has', kk.sort(), B)
            D = self.fun(nm + '.at', kk.sort(), R)
            h, v = None, None
            for c, f in logs:
                hh = boolterm(f[0](k)) if f else P(kk)
                vv = term(f[1](k), True) if f else z3.If(P(kk), D(kk), z3.RealVal(0))
                h = hh if h is None else z3.If(c, hh, h)
                v = vv if v is None else z3.If(c, vv, v)

            def zero(t):
                return z3.simplify(z3.substitute_funs(t, (P, z3.BoolVal(False)), (D, z3.RealVal(0))))
            g, w = zero(v), zero(h)
            if not (self.free(g, symnames) and self.free(w, symnames)):
                raise Unsupported('dictionary update depends on the loop state')
            if not self.valid(h == z3.Or(P(kk), w), it, i):
                raise Unsupported('keys of the dictionary depend on the loop state')
            old = z3.If(P(kk), D(kk), z3.RealVal(0))
            if self.valid(v == old + g, it, i):
                r = ('add', g, w)
            elif self.valid(v == z3.If(w, g, old), it, i):
                # assignment: no key twice
                j = self.newix()
                w2 = z3.substitute(w, (i, j))
                c = self.ctx
                c.solver.push()
                try:
                    for x in (i, j):
                        c.solver.add(z3.And(x >= 0, x < term(it.n)))
                        for f in (it.facts(x) if it.facts else []):
                            c.solver.add(f)
                    c.solver.add(i != j)
                    if c._check(w, w2) != z3.unsat:
                        raise Unsupported('a key may be assigned twice')
                finally:
                    c.solver.pop()
                r = ('set', g, w)
            else:
                raise Unsupported('dictionary update is neither a sum nor an assignment')
            memo[key] = (kk, r)          # the term is kept: ids are reused
            return r

        def scoped(f):
            self.scope.append(i)
            try:
                return f()
            finally:
                self.scope.pop()

        def has(k):
            def f():
                _, g, w = step(k)
                return SymBool(z3.Or(boolterm(h0(k)), self.quant('any', it, i, w)))
            return scoped(f)

        def at(k):
            def f():
                kind, g, w = step(k)
                # entries are 0 where the key is absent
                t = self.quant('sum', it, i, z3.simplify(z3.If(w, g, z3.RealVal(0))) if kind == 'set' or not self.valid(z3.Implies(z3.Not(w), g == 0), it, i) else g)
                base = a0(k)
                if kind == 'set':
                    return ite(SymBool(self.quant('any', it, i, w)), Sym(t), base)
                self.ctx.assume_term(z3.Or(self.quant('any', it, i, w), t == 0))     # g is 0 where nothing is written
                return Sym(t) + base if is_sym(base) or base != 0 else Sym(t)
            return scoped(f)
        s.agg = self.aggregate(s, it, i, logs, step, h0, has, at)
        s.has, s.at = has, at
        if s.agg:
            KEY, VAL = s.agg[:2]

            def mine_(k):
                return z3.is_app(k.t) and k.t.decl().eq(KEY)
            s.has = lambda k: SymBool(z3.BoolVal(True)) if mine_(k) else has(k)
            s.at = lambda k: Sym(VAL(k.t)) if mine_(k) else at(k)
        s.abstract = True
        s.source = None
        s.written = True

    def aggregate(self, s, it, i, logs, step, h0, has, at):
        """(KEY, VAL, number of keys, key maker, loop, key_i, written_i, value_i) when one
        key is written per iteration and the dictionary was empty before"""
        keys = []
        for c, f in logs:
            for k in (f[2] if f and len(f) > 2 else []):
                if not any(k.eq(x) for x in keys):
                    keys.append(k)
        if len(keys) != 1 or s.fresh is False or it.agg is not None:
            return None
        kt = keys[0]
        q = z3.Const('q!%d' % s.id, kt.sort())
        o = Obj(q)
        if not z3.is_false(z3.simplify(boolterm(h0(o)))):
            return None
        kind, g, w = step(o)
        ci, vi = z3.substitute(w, (q, kt)), z3.substitute(g, (q, kt))
        if not self.valid(w == z3.And(ci, q == kt), it, i) or not self.valid(z3.Implies(w, g == vi), it, i):
            return None
        if kind == 'add' and not self.valid(z3.Implies(z3.Not(w), g == 0), it, i):
            return None
        n = len(self.funs)
        KEY, VAL = self.fun('KEY!%d!%d' % (s.id, n), I, kt.sort()), self.fun('VAL!%d!%d' % (s.id, n), kt.sort(), R)
        nk = z3.Int('nkeys!%d!%d' % (s.id, n))
        self.ctx.assume_term(nk >= 0)
        self.ctx.assume_term((nk > 0) == self.quant('any', it, i, ci))
        return (KEY, VAL, nk, s.mkkey or Obj, it, i, kt, ci, vi)

    def reindex(self, kind, seq_, i, body):
        """sum / any over the keys of an aggregated dictionary"""
        KEY, VAL, nk, mk, it, j, kt, cj, vj = seq_.agg
        kap = z3.Const('kappa!%s' % KEY.name(), kt.sort())
        b = z3.substitute(body, (KEY(i), kap))
        if contains_any(b, {i.decl().name()}):
            return None
        x = z3.Real('x!%s' % VAL.name())
        b = z3.substitute(b, (VAL(kap), x))
        if contains_any(b, {VAL.name(), KEY.name()}):
            return None
        jj = self.newix()

        def at_j(t):
            return z3.substitute(z3.substitute(t, (kap, kt)), (j, jj))
        self.scope.append(jj)
        try:
            if kind == 'any':
                if contains_any(b, {x.decl().name()}):
                    return None
                return self.quant('any', it, jj, z3.And(z3.substitute(cj, (j, jj)), at_j(b)))
            zero = z3.simplify(z3.substitute(b, (x, z3.RealVal(0))))
            one = z3.simplify(z3.substitute(b, (x, z3.RealVal(1))))
            c = self.ctx
            if c._check(zero != 0) != z3.unsat or c._check(b != x * one) != z3.unsat:
                return None
            return self.quant('sum', it, jj, z3.If(z3.substitute(cj, (j, jj)), at_j(one) * z3.substitute(vj, (j, jj)), z3.RealVal(0)))
        finally:
            self.scope.pop()

    def fold_list(self, s, it, i, logs, symnames):
        if s.plain:
            raise Unsupported('appending to a list that is not empty')
        first = s.seq
        if any(len(l) > 1 for _, l in logs):
            raise Unsupported('several elements appended per iteration')
        if any(not self.free(c, symnames) for c, _ in logs):
            raise Unsupported('append depends on the loop state')
        wr = [(c, l[0]) for c, l in logs if l]
        W = z3.simplify(z3.Or(*[c for c, _ in wr]))
        full = self.valid(W, it, i)
        vals = [v for _, v in wr]

        def elem(j):
            if len(wr) == 1:
                r = self.subst(vals[0], i, j)
                if r is None:
                    raise Unsupported('list of containers')
                return r
            r = None
            for c, v in wr:
                t = self.subst(v, i, j)
                if not isinstance(t, (Sym, builtins.int, float)):
                    raise Unsupported('list of different values')
                r = t if r is None else ite(SymBool(z3.substitute(c, (i, j))), t, r)
            return r
        for v in vals:
            if isinstance(v, (Sym, SymBool, Obj)) and not self.free(v.t, symnames):
                raise Unsupported('element depends on the loop state')
        g = None if full else (lambda j: SymBool(z3.substitute(W, (i, j))))
        if it.guard is not None:
            g1 = g
            g = (lambda j: and_(it.guard(j), g1(j))) if g1 else it.guard
        s.seq = it.like(elem, g)
        if first is not None:           # one segment after the other
            s.seq.prev = first

    def fold_array(self, s, it, i, logs, symnames):
        if any(len(l) != 1 for _, l in logs):
            raise Unsupported('array element not written once per iteration')
        for c, l in logs:
            k, v = l[0]
            if not self.free(c, symnames) or not k.t.eq(i):
                raise Unsupported('array index is not the loop index')
        if not self.ctx._check(term(s.n) != term(it.n)) == z3.unsat:
            raise Unsupported('array and loop of different length')

        def elem(j):
            r = None
            for c, l in logs:
                t = self.subst(l[0][1], i, j)
                if isinstance(t, (Sym,)) and not self.free(t.t, symnames):
                    raise Unsupported('element depends on the loop state')
                r = t if r is None else ite(SymBool(z3.substitute(c, (i, j))), t, r)
            return r
        s.done = it.like(elem, None)

    # ---- builtins of the rewritten functions
    def builtins(self):
        u = self

        def _sum(x, start=0):
            x = u.iterable(x)
            if isinstance(x, Seq):
                return u.total(x, start)
            return builtins.sum(x, start)

        def _len(x):
            if isinstance(x, Dict):
                return x.n
            if isinstance(x, Seq):
                return x.items_len()
            if isinstance(x, State):
                if x.kind == 'list' and x.seq is not None:
                    q, tot = x.seq.prev, x.seq.items_len()
                    while q is not None:
                        tot, q = tot + q.items_len(), q.prev
                    return tot
                if x.kind == 'array':
                    return x.n
                if x.source is not None and not x.abstract:
                    return x.source.n
            if hasattr(x, 'symlen'):
                return x.symlen()
            return builtins.len(x)

        def _range(*a):
            if builtins.len(a) == 2 and any(isinstance(x, Sym) for x in a):
                lo, n = a[0], Sym(z3.simplify(term(a[1]) - term(a[0])))
                return Seq(n, lambda i: Sym(i) + lo, (('range', str(n.t)), ()), facts=u.range_facts)
            if builtins.len(a) == 1 and isinstance(a[0], Sym):
                return Seq(a[0], lambda i: Sym(i), (('range', str(z3.simplify(a[0].t))), ()), facts=u.range_facts)
            return builtins.range(*a)

        def _enumerate(x, start=0):
            y = u.iterable(x)
            if isinstance(y, Seq):
                if y.guard is not None:
                    raise Unsupported('enumerate of a filtered sequence')
                return Seq(y.n, lambda i: (Sym(i) + start if start else Sym(i), y.elem(i)), y.ident, None, y.facts)
            return builtins.enumerate(y, start)

        def _zip(*xs):
            ys = [u.iterable(x) for x in xs]
            if any(isinstance(y, Seq) for y in ys):
                if not all(isinstance(y, Seq) and y.guard is None for y in ys):
                    raise Unsupported('zip')
                for y in ys[1:]:
                    if u.ctx._check(term(y.n) != term(ys[0].n)) != z3.unsat:
                        raise Unsupported('zip of different lengths')
                fs = [y.facts for y in ys if y.facts]
                return Seq(ys[0].n, lambda i: tuple(y.elem(i) for y in ys), ys[0].ident, None,
                           (lambda i: [t for f in fs for t in f(i)]) if fs else None)
            return builtins.zip(*ys)

        def _list(*a):
            if a:
                y = u.iterable(a[0])
                if isinstance(y, Seq):
                    return y
                return builtins.list(y)
            return State('list')

        def _any(x):
            x = u.iterable(x)
            return u.anyof(x) if isinstance(x, Seq) else builtins.any(x)

        def _all(x):
            x = u.iterable(x)
            return not_(u.anyof(x, lambda y: not_(y))) if isinstance(x, Seq) else builtins.all(x)

        def _isinstance(x, c):
            cs = c if isinstance(c, tuple) else (c,)
            cs = tuple({_list: builtins.list, _float: float, _dict: dict, _int: builtins.int, _str: builtins.str}.get(y, y) for y in cs)
            if isinstance(x, (Dict,)) or (isinstance(x, State) and x.kind == 'dict'):
                return builtins.dict in cs
            if isinstance(x, Seq) or isinstance(x, State):
                return builtins.list in cs
            if hasattr(x, 'pytype'):
                return x.pytype in cs or isinstance(x, cs)
            from .shim import _isinstance as inner
            return inner(x, cs)

        def _float(x=0.0):
            return Sym(term(x, True)) if isinstance(x, (Sym, SymBool)) else float(x)

        def _int(x=0, *a):
            from .shim import _int as inner
            if hasattr(x, 'to_int'):
                return x.to_int(*a)
            return inner(x, *a)

        def _dict(*a, **k):
            if a and isinstance(a[0], (Dict, State)):
                return a[0].copy()
            return builtins.dict(*a, **k) if a or k else State('dict')

        def _str(x=''):
            if isinstance(x, Obj):
                return x
            if isinstance(x, Sym):
                from .trace import SymName
                return SymName((x,))
            return builtins.str(x)

        def no(name):
            def f(*a, **k):
                if any(isinstance(x, (Seq, Dict)) or (isinstance(x, State) and not x.isplain()) for x in a):
                    raise Unsupported('%s of a sequence of arbitrary length' % name)
                return getattr(builtins, name)(*[x.plain if isinstance(x, State) else x for x in a], **k)
            return f
        return {'sum': _sum, 'len': _len, 'range': _range, 'enumerate': _enumerate, 'zip': _zip, 'list': _list,
                'any': _any, 'all': _all, 'isinstance': _isinstance, 'float': _float, 'int': _int, 'dict': _dict, 'str': _str,
                'sorted': no('sorted'), 'min': no('min'), 'max': no('max'), 'reversed': no('reversed'), 'set': no('set'),
                'np': NpU(u), 'copy': CopyU()}


class CopyU:
    def copy(self, x):
        return copy.copy(x)

    def deepcopy(self, x):
        return copy.deepcopy(x)


class NpU:
    """numpy on sequences of arbitrary length; the symbolic numpy otherwise"""

    def __init__(self, u):
        from .shim import NpShim
        self._u, self._np = u, NpShim()

    def __getattr__(self, name):
        return getattr(self._np, name)

    def _it(self, x):
        return self._u.iterable(x)

    def sum(self, x, *a, **k):
        y = self._it(x)
        return self._u.total(y) if isinstance(y, Seq) else self._np.sum(y, *a, **k)

    def mean(self, x, *a, **k):
        y = self._it(x)
        if isinstance(y, Seq):
            return self._u.total(y) / y.items_len()
        return self._np.mean(y, *a, **k)

    def zeros(self, shape, *a, **k):
        if isinstance(shape, Sym):
            return Array(shape)
        return self._np.zeros(shape, *a, **k)

    def array(self, x, *a, **k):
        y = self._it(x)
        return vec(y) if isinstance(y, Seq) else self._np.array(y, *a, **k)
    asarray = array

    def arange(self, *a, **k):
        if builtins.len(a) == 1 and isinstance(a[0], Sym):
            return vec(Seq(a[0], lambda i: Sym(i), (('range', str(z3.simplify(a[0].t))), ())))
        return self._np.arange(*a, **k)
