"""Integer domain for process-grid arithmetic: polynomials in a symbolic grid
side n >= nmin and in bounded digits (row, column), with exact sign decision.

Signs are decided without a solver: an expression that is affine in every digit
attains its extrema at the digit bounds; at each vertex it is a polynomial in n,
and with n = nmin + k (k >= 0) it is nonnegative when all its coefficients are."""
from __future__ import annotations

import itertools
from fractions import Fraction

from . import algebra as A
from .algebra import Expr, sym

N = sym("n")
A.POSITIVE.add(N.as_atom())


def _eval_poly(coefs, shift):
    """coefficients of p(n = shift + k) in k"""
    out = {}
    from math import comb
    for e, c in coefs.items():
        for j in range(e + 1):
            out[j] = out.get(j, Fraction(0)) + c * comb(e, j) * Fraction(shift) ** (e - j)
    return out


class IntDom:
    def __init__(self, nmin, digits):
        """digits: {symbol Expr: (lo Expr, hi Expr)} with lo/hi polynomials in n"""
        self.nmin = nmin
        self.digits = {s.as_atom(): (A.to_expr(lo), A.to_expr(hi)) for s, (lo, hi) in digits.items()}

    def known(self, e: Expr):
        for a in e.atoms():
            if a is not N.as_atom() and a not in self.digits:
                return False
        return True

    def _nonneg(self, e: Expr, strict):
        """True if provably >= 0 (> 0) for all values"""
        if not self.known(e):
            return False
        ds = [a for a in e.atoms() if a in self.digits]
        for m in e.t:
            for a, p in m:
                if a in self.digits and p != 1:
                    return False
        for combo in itertools.product(*[(0, 1)] * len(ds)):
            v = A.subst(e, {a: self.digits[a][c] for a, c in zip(ds, combo)}) if ds else e
            # to polynomial in n
            neg = 0
            for m in v.t:
                for a, p in m:
                    neg = min(neg, p)
            co = {}
            for m, c in v.t.items():
                p = m[0][1] if m else 0
                co[p - neg] = co.get(p - neg, Fraction(0)) + c
            k = _eval_poly(co, self.nmin)
            if any(c < 0 for c in k.values()):
                return False
            if strict and not k.get(0, 0) > 0:
                return False
        return True

    def is_int(self, e: Expr):
        return self.known(e) and all(c.denominator == 1 and all(p > 0 for _, p in m) for m, c in e.t.items())

    def decide(self, op, a, b):
        if not isinstance(a, (Expr, int, Fraction)) or not isinstance(b, (Expr, int, Fraction)) or isinstance(a, bool) or isinstance(b, bool):
            return None
        d = A.to_expr(a) - A.to_expr(b)
        if d.is_const() or not self.known(d):
            return None
        pos, neg = self._nonneg(d, True), self._nonneg(-d, True)
        ge, le = pos or self._nonneg(d, False), neg or self._nonneg(-d, False)
        if op == "Eq":
            return False if pos or neg else None
        if op == "NotEq":
            return True if pos or neg else None
        if op == "Gt":
            return True if pos else False if le else None
        if op == "GtE":
            return True if ge else False if neg else None
        if op == "Lt":
            return True if neg else False if ge else None
        if op == "LtE":
            return True if le else False if pos else None
        return None

    def floor(self, e: Expr):
        if self.is_int(e):
            return e
        ip = Expr({m: Fraction(c.numerator // c.denominator) for m, c in e.t.items() if all(p > 0 for _, p in m) and c.denominator == 1})
        rest = e - ip
        for j in range(-8, 9):
            if self._nonneg(rest - j, False) and self._nonneg(Expr.const(j + 1) - rest, True):
                r = ip + j
                return r
        return None

    def hooks(self):
        def fl(I, e):
            r = self.floor(e)
            return None if r is None else _c(r)

        def it(I, e):
            if self.is_int(e):
                return _c(e)
            if self._nonneg(e, False):
                return fl(I, e)
            if self._nonneg(-e, False):
                r = self.floor(-e)
                return None if r is None else _c(-r)
            return None

        def dm(I, op, a, b):
            q = self.floor(a / b)
            if q is None:
                return None
            return _c(q) if op == "FloorDiv" else _c(a - b * q)

        return {"__floor__": fl, "__int__": it, "__divmod__": dm}


def _c(e: Expr):
    if e.is_const():
        v = e.const_value()
        return int(v) if v.denominator == 1 else v
    return e
