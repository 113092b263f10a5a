"""Identity testing of formulas extracted from the source.

The interpreter turns an array program into one closed formula (Expr) per
quantity.  Where the equality of two formulas is out of reach of the normal form
(nested radicals, inverse trigonometric functions), both formulas are evaluated
with 60 significant digits at generic algebraically independent points: two
analytic formulas that agree there to 40 digits are the same function.  Nothing of
the analysed program is executed.
"""
from __future__ import annotations

import hashlib
from fractions import Fraction

import mpmath as mp

from . import algebra as A
from .algebra import Expr
from .interp import Opaque
from .project import AnalysisError

mp.mp.dps = 60


class Point:
    """a generic assignment of values to the symbols and fields of extracted formulas"""

    def __init__(self, seed=0, values=None, default=None):
        self.seed = seed
        self.values = {k: mp.mpf(v) if not isinstance(v, mp.mpf) else v for k, v in (values or {}).items()}
        self.default = default
        self.cache = {}
        self.used = set()

    def at(self, **kw):
        """the same point with some values changed"""
        q = Point(self.seed, self.values, self.default)
        for k, v in kw.items():
            q.values[k] = v
        return q

    def value(self, name):
        self.used.add(name)
        v = self.values.get(name)
        if v is None:
            if self.default is not None:
                v = self.default(name)
            if v is None:
                h = hashlib.sha256(f"{self.seed}:{name}".encode()).hexdigest()
                v = mp.mpf(int(h, 16)) / mp.mpf(16) ** 64
                v = mp.mpf("0.2") + v * mp.mpf("0.6")
            self.values[name] = v
        return v

    def __call__(self, e):
        if isinstance(e, Expr):
            k = self.cache.get(e)
            if k is None:
                k = self.cache[e] = self._expr(e)
            return k
        if isinstance(e, bool):
            return mp.mpf(int(e))
        if isinstance(e, Fraction):
            return mp.mpf(e.numerator) / e.denominator
        if isinstance(e, (int, float)):
            return self._num(Fraction(e) if isinstance(e, int) else A.dec(e))
        raise AnalysisError(f"cannot evaluate {type(e).__name__} {e!r}"[:200])

    @staticmethod
    def _num(c):
        return mp.mpf(c.numerator) / c.denominator

    def _expr(self, e):
        tot = mp.mpf(0)
        for m, c in e.t.items():
            v = self._num(c)
            for a, k in m:
                x = self._atom(a)
                v *= x ** (self._num(Fraction(k)) if not isinstance(k, int) else k)
            tot += v
        return tot

    def _atom(self, a):
        r = self.cache.get(a)
        if r is not None:
            return r
        k = a.kind
        if k == "sym":
            nm = a.args[0]
            r = mp.pi if nm == "pi" else self.value(nm)
        elif k == "fld":
            r = self.value(str(a.args[0]).split("[")[0])
        elif k == "phi":
            r = self(a.args[1]) if self.cond(a.args[0]) else self(a.args[2])
        elif k == "pow":
            b, ex = self(a.args[0]), self(a.args[1])
            r = b ** ex
        else:
            f = {"sin": mp.sin, "cos": mp.cos, "tan": mp.tan, "sqrt": mp.sqrt, "inv": lambda x: 1 / x, "exp": mp.exp, "log": mp.log,
                 "atan": mp.atan, "asin": mp.asin, "acos": mp.acos, "atan2": mp.atan2, "abs": abs, "sinh": mp.sinh, "cosh": mp.cosh, "tanh": mp.tanh,
                 "max": max, "min": min}.get(k)
            if f is None or not all(isinstance(x, (Expr, int, Fraction)) for x in a.args):
                # an application of an unknown function is a value of its own
                r = self.value(repr(a))
            else:
                r = f(*[self(x) for x in a.args])
        if isinstance(r, mp.mpc):
            raise AnalysisError(f"{k} evaluates to a complex number")
        self.cache[a] = r
        return r

    def cond(self, text):
        c = A.PHI_CONDS.get(text)
        key = getattr(c, "key", None) or getattr(c, "tag", None) or c
        if isinstance(key, Opaque):
            key = key.key
        if isinstance(key, tuple) and len(key) == 2 and isinstance(key[1], Expr):
            key = key + (Fraction(0),)  # difference compared with zero
        if isinstance(key, tuple) and len(key) == 3 and key[0] in ("Lt", "LtE", "Gt", "GtE", "Eq", "NotEq"):
            x, y = self(key[1]), self(key[2])
            return {"Lt": x < y, "LtE": x <= y, "Gt": x > y, "GtE": x >= y, "Eq": x == y, "NotEq": x != y}[key[0]]
        if isinstance(key, tuple) and len(key) == 2 and key[0] == "Not":
            return not self.cond(str(key[1]))
        raise AnalysisError(f"condition {text[:120]} cannot be evaluated")


def close(a, b, scale=None, digits=35):
    s = max(abs(a), abs(b), mp.mpf(1) if scale is None else abs(scale))
    return abs(a - b) <= s * mp.mpf(10) ** (-digits)


def deriv(f, x, h=None, order=1):
    """derivative of an analytic function of one mp variable, by a 9-point central difference (error ~ h^8)"""
    h = mp.mpf(10) ** -5 if h is None else h
    if order == 1:
        c = [mp.mpf(4) / 5, mp.mpf(-1) / 5, mp.mpf(4) / 105, mp.mpf(-1) / 280]
        return sum(c[k] * (f(x + (k + 1) * h) - f(x - (k + 1) * h)) for k in range(4)) / h
    c0 = mp.mpf(-205) / 72
    c = [mp.mpf(8) / 5, mp.mpf(-1) / 5, mp.mpf(8) / 315, mp.mpf(-1) / 560]
    return (c0 * f(x) + sum(c[k] * (f(x + (k + 1) * h) + f(x - (k + 1) * h)) for k in range(4))) / h**2
