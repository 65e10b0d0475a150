"""Truncated series with rational coefficients in x and named statistics,
evaluated from sympy expressions without sympy's own series code.

A series is (coeffs, prec): coeffs maps (x-exponent, monomial) -> Fraction where
a monomial is a sorted tuple of (name, exponent); terms with x-exponent >= prec
are unknown.  x-exponents may be negative or halves."""
from fractions import Fraction
from math import isqrt

import sympy

INFP = 10**9


class Unsupported(Exception):
    pass


def mono_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for k, e in b:
        d[k] = d.get(k, 0) + e
    return tuple(sorted((k, e) for k, e in d.items() if e))


class Ser:
    __slots__ = ("c", "p")

    def __init__(self, c, p=INFP):
        self.c = {k: v for k, v in c.items() if v and k[0] < p}
        self.p = p

    @classmethod
    def const(cls, v):
        return cls({(Fraction(0), ()): Fraction(v)})

    def val(self):
        return min((k[0] for k in self.c), default=None)

    def __add__(self, o):
        c = dict(self.c)
        for k, v in o.c.items():
            c[k] = c.get(k, 0) + v
        return Ser(c, min(self.p, o.p))

    def scale(self, f):
        return Ser({k: v * f for k, v in self.c.items()}, self.p)

    def mul(self, o, cap):
        va, vb = self.val(), o.val()
        if va is None and self.p >= INFP or vb is None and o.p >= INFP:
            return Ser({})
        va = self.p if va is None else va
        vb = o.p if vb is None else vb
        p = min(INFP, va + o.p, vb + self.p)
        if p > cap and (self.p < INFP or o.p < INFP):
            p = min(p, cap)
        elif p > cap and len(self.c) * len(o.c) > 4000:
            p = cap
        c = {}
        for (i, m), v in self.c.items():
            for (j, n), w in o.c.items():
                if i + j < p:
                    k = (i + j, mono_mul(m, n))
                    c[k] = c.get(k, 0) + v * w
        return Ser(c, p)

    def lead(self):
        v = self.val()
        if v is None:
            raise Unsupported("leading term unknown or zero")
        head = [(k, w) for k, w in self.c.items() if k[0] == v]
        if len(head) != 1 or head[0][0][1]:
            raise Unsupported("leading coefficient is not a number")
        return v, head[0][1]

    def _unit(self, cap):
        """self = lead * x^v * (1 + u)"""
        v, a = self.lead()
        p = min(self.p - v, cap) if self.p < INFP else cap
        c = {(k[0] - v, k[1]): w / a for k, w in self.c.items()}
        c.pop((Fraction(0), ()), None)
        return v, a, Ser(c, p)

    def inv(self, cap):
        if len(self.c) == 1 and self.p >= INFP:
            v, a = self.lead()
            return Ser({(-v, ()): 1 / a})
        v, a, u = self._unit(cap)
        res = {(Fraction(0), ()): Fraction(1)}
        term = Ser({(Fraction(0), ()): Fraction(1)})
        tot = Ser(res, u.p)
        if u.c:
            step = min(k[0] for k in u.c)
            if step <= 0:
                raise Unsupported("unit part")
            k = 0
            while k * step < u.p:
                term = term.mul(u, cap).scale(-1)
                if not term.c:
                    break
                tot = tot + term
                k += 1
        return Ser({(k[0] - v, k[1]): w / a for k, w in tot.c.items()}, u.p - v)

    def power(self, e, cap):
        if e < 0:
            return self.inv(cap).power(-e, cap)
        res = Ser.const(1)
        base = self
        while e:
            if e & 1:
                res = res.mul(base, cap)
            e >>= 1
            if e:
                base = base.mul(base, cap)
        return res

    def root(self, q, cap):
        """principal q-th root, leading coefficient must be a q-th power"""
        if not self.c and self.p >= INFP:
            return Ser({})
        v, a, u = self._unit(cap)
        ra = rational_root(a, q)
        if ra is None:
            raise Unsupported("leading coefficient of a root")
        # (1+u)^(1/q) by the binomial series
        tot = Ser({(Fraction(0), ()): Fraction(1)}, u.p)
        term = Ser.const(1)
        if u.c:
            step = min(k[0] for k in u.c)
            if step <= 0:
                raise Unsupported("unit part")
            k = 0
            while k * step < u.p:
                term = term.mul(u, cap).scale((Fraction(1, q) - k) / (k + 1))
                if not term.c:
                    break
                tot = tot + term
                k += 1
        return Ser({(k[0] + v / q, k[1]): w * ra for k, w in tot.c.items()}, u.p + v / q)


def iroot(n, q):
    if q == 2:
        r = isqrt(n)
    else:
        r = round(n ** (1.0 / q))
    for s in (r - 1, r, r + 1):
        if s >= 0 and s**q == n:
            return s
    return None


def rational_root(a, q):
    if a < 0:
        return None
    n, d = iroot(a.numerator, q), iroot(a.denominator, q)
    if n is None or d is None:
        return None
    return Fraction(n, d)


def evaluate(expr, fun, cap, memo=None):
    """series of a sympy expression; fun(name, [Ser args]) gives the series of an
    applied function; precision about cap"""
    if memo is None:
        memo = {}
    if expr in memo:
        return memo[expr]
    res = _evaluate(expr, fun, cap, memo)
    memo[expr] = res
    return res


def _evaluate(expr, fun, cap, memo):
    if expr.is_Rational:
        return Ser.const(Fraction(int(expr.p), int(expr.q)))
    if expr.is_Symbol:
        if expr.name == "x":
            return Ser({(Fraction(1), ()): Fraction(1)})
        return Ser({(Fraction(0), ((expr.name, 1),)): Fraction(1)})
    if expr.is_Add:
        tot = Ser({})
        for a in expr.args:
            tot = tot + evaluate(a, fun, cap, memo)
        return tot
    if expr.is_Mul:
        tot = Ser.const(1)
        for a in expr.args:
            tot = tot.mul(evaluate(a, fun, cap, memo), cap)
        return tot
    if expr.is_Pow:
        b, e = expr.args
        if not e.is_Rational or int(e.q) > 4:
            raise Unsupported("power %s" % expr)
        s = evaluate(b, fun, cap, memo)
        if int(e.q) > 1:
            s = s.root(int(e.q), cap)
        return s.power(int(e.p), cap)
    if isinstance(expr, sympy.core.function.AppliedUndef):
        args = [evaluate(a, fun, cap, memo) for a in expr.args]
        return fun(expr.func.__name__, args)
    raise Unsupported("expression %s" % type(expr).__name__)
