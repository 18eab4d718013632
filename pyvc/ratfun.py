"""Decision by normal form: equality of rational functions.

Terms built from +, -, *, / and integer powers are brought to (numerator,
denominator) with numerators and denominators as polynomials over the atoms
(inputs, uninterpreted applications).  Two terms whose cross-multiplied
difference is the zero polynomial are equal wherever the denominators are
nonzero; every division executed under contract has its divisor's zero case
split off on its own path, so the denominators are nonzero on this path.
"""
from fractions import Fraction

import z3


class TooBig(Exception):
    pass


LIMIT = 60000


def padd(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        x = r.get(m, 0) + s * c
        if x:
            r[m] = x
        else:
            r.pop(m, None)
    return r


def pmul(a, b):
    if len(a) * len(b) > 4000000:
        raise TooBig()
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = mmul(m, n)
            x = r.get(k, 0) + c * d
            if x:
                r[k] = x
            else:
                r.pop(k, None)
    if len(r) > LIMIT:
        raise TooBig()
    return r


def mmul(m, n):
    if not m:
        return n
    if not n:
        return m
    d = dict(m)
    for v, e in n:
        d[v] = d.get(v, 0) + e
    return tuple(sorted(d.items()))


ONE = {(): Fraction(1)}


class Normaliser:
    def __init__(self, squares=None):
        self.memo = {}
        self.keep = []
        self.squares = squares or {}    # atom name -> z3 term equal to its square

    def var(self, t):
        self.keep.append(t)
        key = t.decl().name() if t.num_args() == 0 else '#%d' % t.get_id()
        return {((key, 1),): Fraction(1)}

    def conv(self, t):
        i = t.get_id()
        if i in self.memo:
            return self.memo[i]
        r = self._conv(t)
        self.memo[i] = r
        self.keep.append(t)
        return r

    def _conv(self, t):
        if z3.is_int_value(t):
            c = Fraction(t.as_long())
            return ({(): c} if c else {}), ONE
        if z3.is_rational_value(t):
            c = Fraction(t.numerator_as_long(), t.denominator_as_long())
            return ({(): c} if c else {}), ONE
        k = t.decl().kind()
        ch = t.children()
        if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB):
            n, d = self.conv(ch[0])
            for c in ch[1:]:
                s = 1 if k == z3.Z3_OP_ADD else -1
                n2, d2 = self.conv(c)
                if d == d2:
                    n = padd(n, n2, s)
                else:
                    n = padd(pmul(n, d2), pmul(n2, d), s)
                    d = pmul(d, d2)
            return n, d
        if k == z3.Z3_OP_UMINUS:
            n, d = self.conv(ch[0])
            return {m: -c for m, c in n.items()}, d
        if k == z3.Z3_OP_MUL:
            n, d = ONE, ONE
            for c in ch:
                n2, d2 = self.conv(c)
                n, d = pmul(n, n2), pmul(d, d2)
            return n, d
        if k == z3.Z3_OP_DIV:
            n, d = self.conv(ch[0])
            n2, d2 = self.conv(ch[1])
            if not n2:
                raise TooBig()
            return pmul(n, d2), pmul(d, n2)
        if k == z3.Z3_OP_TO_REAL:
            return self.conv(ch[0])
        if k == z3.Z3_OP_POWER and z3.is_int_value(ch[1]) and 0 <= ch[1].as_long() <= 8:
            n, d = self.conv(ch[0])
            rn, rd = ONE, ONE
            for _ in range(ch[1].as_long()):
                rn, rd = pmul(rn, n), pmul(rd, d)
            return rn, rd
        return self.var(t), ONE

    def zero(self, n):
        """is the numerator zero, rewriting squares of roots"""
        for _ in range(40):
            if not n:
                return True
            name = None
            for m in n:
                for v, e in m:
                    if e >= 2 and v in self.squares:
                        name = v
                        break
                if name:
                    break
            if name is None:
                return False
            sn, sd = self.conv(self.squares[name])
            # multiply through by sd^k where k is the largest number of substitutions
            kmax = max(dict(m).get(name, 0) // 2 for m in n)
            r = {}
            for m, c in n.items():
                d = dict(m)
                e = d.pop(name, 0)
                q, rest = divmod(e, 2)
                if rest:
                    d[name] = 1
                p = {tuple(sorted(d.items())): c}
                for _i in range(q):
                    p = pmul(p, sn)
                for _i in range(kmax - q):
                    p = pmul(p, sd)
                r = padd(r, p)
            n = r
        return False

    def equal(self, a, b):
        try:
            n1, d1 = self.conv(a)
            n2, d2 = self.conv(b)
            if d1 == d2:
                return self.zero(padd(n1, n2, -1))
            return self.zero(padd(pmul(n1, d2), pmul(n2, d1), -1))
        except (TooBig, RecursionError):
            return False
