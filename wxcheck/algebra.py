"""Algebraic normal-form domain used by the abstract interpreter.

An Expr is a polynomial with rational coefficients over *atoms*.  Atoms are
symbols, or uninterpreted applications such as sin(e), sqrt(e), inv(e) (the
reciprocal of a non-monomial e), pow(e, f), phi(cond, a, b).  The normal form is
unique up to the rewriting rules below, and `is_zero` clears the reciprocals, so
equality of rational functions in the atoms is decided exactly - no solver, no
sampling.
"""
from __future__ import annotations

import math
from fractions import Fraction
from functools import lru_cache
from typing import Dict, Tuple

_ATOMS: Dict[tuple, "Atom"] = {}
PHI_CONDS: dict = {}  # text of a condition -> the condition (for evaluation of phi atoms at a point)


class Atom:
    __slots__ = ("id", "kind", "args", "_h", "nonzero", "lo")

    def __init__(self, kind, args):
        self.kind = kind
        self.args = args
        self.id = len(_ATOMS)
        self._h = hash((kind, self.id))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o

    def __lt__(self, o):
        return self.id < o.id

    def __repr__(self):
        if self.kind == "sym":
            return str(self.args[0])
        return f"{self.kind}({', '.join(map(str, self.args))})"

    def __deepcopy__(self, memo):
        return self


def atom(kind, *args) -> Atom:
    key = (kind,) + args
    a = _ATOMS.get(key)
    if a is None:
        a = Atom(kind, args)
        _ATOMS[key] = a
    return a


ONE_MONO: tuple = ()


def mono_mul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, 0) + e
        if d[a] == 0:
            del d[a]
    return tuple(sorted(d.items(), key=lambda t: t[0].id))


class Expr:
    __slots__ = ("t", "_hash")

    def __init__(self, terms: dict):
        self.t = terms
        self._hash = None

    # --- construction
    @staticmethod
    def const(c):
        c = Fraction(c)
        return Expr({(): c}) if c != 0 else Expr({})

    @staticmethod
    def of_atom(a, e=1):
        return Expr({((a, e),): Fraction(1)})

    # --- structure
    def __hash__(self):
        if self._hash is None:
            self._hash = hash(frozenset(self.t.items()))
        return self._hash

    def __eq__(self, o):
        if not isinstance(o, Expr):
            return NotImplemented
        return self.t == o.t

    def __deepcopy__(self, memo):
        return self

    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def const_value(self):
        return self.t.get((), Fraction(0)) if self.is_const() else None

    def is_monomial(self):
        return len(self.t) == 1

    def as_atom(self):
        if len(self.t) == 1:
            (m, c), = self.t.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                return m[0][0]
        return None

    def atoms(self, deep=False, acc=None):
        acc = set() if acc is None else acc
        for m in self.t:
            for a, _ in m:
                if a not in acc:
                    acc.add(a)
                    if deep:
                        for x in a.args:
                            if isinstance(x, Expr):
                                x.atoms(True, acc)
                            elif isinstance(x, tuple):
                                for y in x:
                                    if isinstance(y, Expr):
                                        y.atoms(True, acc)
        return acc

    # --- arithmetic
    def __add__(self, o):
        if getattr(o, "scalar", False):
            return NotImplemented
        o = to_expr(o)
        if len(self.t) < len(o.t):
            a, b = o.t, self.t
        else:
            a, b = self.t, o.t
        d = dict(a)
        for m, c in b.items():
            v = d.get(m, 0) + c
            if v == 0:
                d.pop(m, None)
            else:
                d[m] = v
        return Expr(d)

    __radd__ = __add__

    def __neg__(self):
        return Expr({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        if getattr(o, "scalar", False):
            return NotImplemented
        return self + (-to_expr(o))

    def __rsub__(self, o):
        return to_expr(o) + (-self)

    def __mul__(self, o):
        if getattr(o, "scalar", False):
            return NotImplemented
        o = to_expr(o)
        d: dict = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m = mono_mul(m1, m2)
                v = d.get(m, 0) + c1 * c2
                if v == 0:
                    d.pop(m, None)
                else:
                    d[m] = v
        return reduce_expr(Expr(d))

    __rmul__ = __mul__

    def inverse(self):
        if not self.t:
            raise ZeroDivisionError("symbolic division by zero")
        if len(self.t) == 1:
            (m, c), = self.t.items()
            return reduce_expr(Expr({tuple((a, -e) for a, e in m): 1 / c}))
        # normalise by the coefficient of the smallest monomial
        key = min(self.t, key=_mono_key)
        c = self.t[key]
        base = Expr({m: v / c for m, v in self.t.items()})
        return Expr({((atom("inv", base), 1),): 1 / c})

    def __truediv__(self, o):
        if getattr(o, "scalar", False):
            return NotImplemented
        return self * to_expr(o).inverse()

    def __rtruediv__(self, o):
        return to_expr(o) * self.inverse()

    def __pow__(self, n):
        if isinstance(n, Expr):
            cv = n.const_value()
            if cv is None:
                return Expr.of_atom(atom("pow", self, n))
            n = cv
        n = Fraction(n)
        if n.denominator == 1:
            n = int(n)
            if n == 0:
                return ONE
            if n < 0:
                return self.inverse() ** (-n)
            r = ONE
            b = self
            while n:
                if n & 1:
                    r = r * b
                n >>= 1
                if n:
                    b = b * b
            return r
        if n.denominator == 2:
            s = fsqrt(self)
            return s ** n.numerator
        return Expr.of_atom(atom("pow", self, Expr.const(n)))

    def __repr__(self):
        if not self.t:
            return "0"
        out = []
        for m, c in sorted(self.t.items(), key=lambda kv: _mono_key(kv[0])):
            s = "*".join(f"{a}" + (f"^{e}" if e != 1 else "") for a, e in m)
            if not s:
                out.append(_fr(c))
            elif c == 1:
                out.append(s)
            else:
                out.append(f"{_fr(c)}*{s}")
        r = " + ".join(out)
        return r if len(r) < 400 else r[:400] + "..."


def _fr(c):
    if c.denominator == 1:
        return str(c.numerator)
    if c.denominator < 100000:
        return str(c)
    return repr(float(c))


def _mono_key(m):
    return (sum(abs(e) for _, e in m), tuple((a.id, e) for a, e in m))


def to_expr(x) -> Expr:
    if isinstance(x, Expr):
        return x
    if isinstance(x, bool):
        return Expr.const(int(x))
    if isinstance(x, (int, Fraction)):
        return Expr.const(x)
    if isinstance(x, float):
        return Expr.const(dec(x))
    if isinstance(x, complex):
        return to_expr(x.real) + to_expr(x.imag) * I
    raise TypeError(f"not algebraic: {x!r}")


def dec(x: float) -> Fraction:
    """Exact value of the shortest decimal of a float literal"""
    if math.isinf(x) or math.isnan(x):
        raise TypeError("not finite")
    return Fraction(repr(x))


ZERO = Expr({})
ONE = Expr.const(1)


def sym(name) -> Expr:
    return Expr.of_atom(atom("sym", name))


PI = sym("pi")
I = sym("I")
_I_ATOM = I.as_atom()
_PI_ATOM = PI.as_atom()


def app(fn, *args) -> Expr:
    return Expr.of_atom(atom(fn, *args))


def reduce_expr(e: Expr) -> Expr:
    """sqrt(a)^2 -> a ; sin^2 -> 1-cos^2 ; I^2 -> -1 ; sign rules"""
    todo = None
    for m in e.t:
        for a, k in m:
            if (a.kind == "sqrt" and (k >= 2 or k < 0)) or (a.kind == "sin" and k >= 2) or (a is _I_ATOM and (k >= 2 or k < 0)):
                todo = True
                break
            if a.kind == "inv" and k < 0:
                todo = True
                break
        if todo:
            break
    if not todo:
        return e
    acc = ZERO
    for m, c in e.t.items():
        f = Expr.const(c)
        rest = []
        mult = None
        for a, k in m:
            if mult is None and a.kind == "sqrt" and (k >= 2 or k < 0):
                q, r = divmod(k, 2)
                mult = a.args[0] ** q
                if r:
                    rest.append((a, 1))
            elif mult is None and a.kind == "sin" and k >= 2:
                q, r = divmod(k, 2)
                c2 = Expr.of_atom(atom("cos", a.args[0]))
                mult = (ONE - c2 * c2) ** q
                if r:
                    rest.append((a, 1))
            elif mult is None and a is _I_ATOM and (k >= 2 or k < 0):
                q, r = divmod(k, 2)
                mult = Expr.const((-1) ** q)
                if r:
                    rest.append((a, 1))
            elif mult is None and a.kind == "inv" and k < 0:
                mult = a.args[0] ** (-k)
            else:
                rest.append((a, k))
        term = Expr({tuple(rest): c})
        acc = acc + (term * mult if mult is not None else term)
    return acc


def _is_square(fr: Fraction):
    if fr < 0:
        return None
    n, d = math.isqrt(fr.numerator), math.isqrt(fr.denominator)
    if n * n == fr.numerator and d * d == fr.denominator:
        return Fraction(n, d)
    return None


POSITIVE: set = set()  # atoms known to be > 0 (sqrt(x^2) = x)


def fsqrt(e) -> Expr:
    e = to_expr(e)
    if not e.t:
        return ZERO
    if len(e.t) == 1:
        (m, c), = e.t.items()
        out = ONE
        rest = []
        for a, k in m:
            if a in POSITIVE and k % 2 == 0:
                out = out * Expr({((a, k // 2),): Fraction(1)})
            elif a.kind == "inv":
                # sqrt(1/x) = 1/sqrt(x)
                out = out * fsqrt(a.args[0]) ** (-k) if True else out
            else:
                rest.append((a, k))
        r = _is_square(c)
        if r is not None:
            out = out * Expr.const(r)
            c = Fraction(1)
        if not rest and c == 1:
            return out
        return out * Expr.of_atom(atom("sqrt", Expr({tuple(rest): c})))
    # perfect squares of the form s*(...)^2 are not searched for except binomials: try structural root
    r = _poly_sqrt(e)
    if r is not None:
        return r
    # pull out rational content
    cs = list(e.t.values())
    g = cs[0]
    for c in cs[1:]:
        g = Fraction(math.gcd(g.numerator * c.denominator, c.numerator * g.denominator), g.denominator * c.denominator)
    if g != 0:
        r = _is_square(abs(g))
        if r is not None and r != 1:
            return Expr.const(r) * Expr.of_atom(atom("sqrt", Expr({m: c / abs(g) for m, c in e.t.items()})))
    return Expr.of_atom(atom("sqrt", e))


def _poly_sqrt(e: Expr):
    """root of e when e = p^2 with p a polynomial in POSITIVE atoms with positive coefficients"""
    for m in e.t:
        for a, k in m:
            if a not in POSITIVE:
                return None
    # leading-term algorithm
    def key(m):
        return tuple(sorted(((a.id, k) for a, k in m), reverse=True)), sum(k for _, k in m)

    lead = max(e.t, key=lambda m: (sum(k for _, k in m), tuple((a.id, k) for a, k in m)))
    c = _is_square(e.t[lead])
    if c is None or any(k % 2 for _, k in lead):
        return None
    root = Expr({tuple((a, k // 2) for a, k in lead): c})
    for _ in range(12):
        rem = e - root * root
        if not rem.t:
            if all(v > 0 for v in root.t.values()):
                return root
            return None
        lm = max(rem.t, key=lambda m: (sum(k for _, k in m), tuple((a.id, k) for a, k in m)))
        q = Expr({lm: rem.t[lm]}) / (2 * Expr({tuple((a, k // 2) for a, k in lead): c}))
        if any(k < 0 for m in q.t for _, k in m):
            return None
        root = root + q
    return None


def clear_inverses(e: Expr) -> Expr:
    """Multiply e by the product of all its denominators; zero-ness is preserved"""
    for _ in range(200):
        target = None
        for m in e.t:
            for a, k in m:
                if a.kind == "inv" and k > 0:
                    # choose the outermost (largest id) inverse first
                    if target is None or a.id > target.id:
                        target = a
        if target is None:
            break
        deg = max((k for m in e.t for a, k in m if a is target), default=0)
        P = target.args[0]
        pw = [ONE]
        for _ in range(deg):
            pw.append(pw[-1] * P)
        acc: Dict[int, dict] = {}
        for m, c in e.t.items():
            k = dict(m).get(target, 0)
            rest = tuple((a, x) for a, x in m if a is not target)
            acc.setdefault(deg - k, {})[rest] = acc.get(deg - k, {}).get(rest, 0) + c
        out = ZERO
        for k, d in acc.items():
            out = out + Expr({m: c for m, c in d.items() if c != 0}) * pw[k]
        e = out
    # clear negative powers of atoms
    for _ in range(200):
        neg = None
        for m in e.t:
            for a, k in m:
                if k < 0:
                    neg = (a, min(k, neg[1]) if neg and neg[0] is a else k)
        if neg is None:
            break
        a = neg[0]
        lowest = min(dict(m).get(a, 0) for m in e.t)
        e = e * Expr({((a, -lowest),): Fraction(1)})
    return e


def is_zero(e: Expr, tol=None) -> bool:
    if not e.t:
        return True
    e = clear_inverses(e)
    if not e.t:
        return True
    e = clear_inverses(reduce_expr(e))
    if not e.t:
        return True
    if tol is not None:
        return all(abs(c) <= tol for c in e.t.values())
    return False


def equal(a, b, tol=None) -> bool:
    return is_zero(to_expr(a) - to_expr(b), tol)


# --- trigonometry with exact values at multiples of pi/2 and pi/4
def _pi_multiple(e: Expr):
    if not e.t:
        return Fraction(0)
    if len(e.t) == 1:
        (m, c), = e.t.items()
        if m == ((_PI_ATOM, 1),):
            return c
    return None


def _split_pi(e: Expr):
    """e = r + k*pi with r free of the bare pi monomial"""
    k = e.t.get(((_PI_ATOM, 1),), Fraction(0))
    if k == 0:
        return e, Fraction(0)
    d = dict(e.t)
    del d[((_PI_ATOM, 1),)]
    return Expr(d), k


def _neg_lead(e: Expr):
    if not e.t:
        return False
    return e.t[min(e.t, key=_mono_key)] < 0


def fsin(e):
    e = to_expr(e)
    a = e.as_atom()
    if a is not None and a.kind == "phi":
        x, y = fsin(a.args[1]), fsin(a.args[2])
        if x == y:
            return x
        return app("phi", a.args[0], x, y)
    r, k = _split_pi(e)
    if k and (k * 2).denominator == 1:
        q = int(k * 2) % 4
        if q == 0:
            return fsin(r)
        if q == 1:
            return fcos(r)
        if q == 2:
            return -fsin(r)
        return -fcos(r)
    if not e.t:
        return ZERO
    if _neg_lead(e):
        return -fsin(-e)
    a = e.as_atom()
    if a is not None and a.kind == "asin":
        return a.args[0]
    if a is not None and a.kind == "acos":
        return fsqrt(ONE - a.args[0] ** 2)
    if a is not None and a.kind == "atan":
        return a.args[0] / fsqrt(ONE + a.args[0] ** 2)
    if a is not None and a.kind == "atan2":
        return a.args[0] / fsqrt(a.args[0] ** 2 + a.args[1] ** 2)
    return Expr.of_atom(atom("sin", e))


def fcos(e):
    e = to_expr(e)
    a = e.as_atom()
    if a is not None and a.kind == "phi":
        x, y = fcos(a.args[1]), fcos(a.args[2])
        if x == y:
            return x
        return app("phi", a.args[0], x, y)
    r, k = _split_pi(e)
    if k and (k * 2).denominator == 1:
        q = int(k * 2) % 4
        if q == 0:
            return fcos(r)
        if q == 1:
            return -fsin(r)
        if q == 2:
            return -fcos(r)
        return fsin(r)
    if not e.t:
        return ONE
    if _neg_lead(e):
        return fcos(-e)
    a = e.as_atom()
    if a is not None and a.kind == "acos":
        return a.args[0]
    if a is not None and a.kind == "asin":
        return fsqrt(ONE - a.args[0] ** 2)
    if a is not None and a.kind == "atan":
        return ONE / fsqrt(ONE + a.args[0] ** 2)
    if a is not None and a.kind == "atan2":
        return a.args[1] / fsqrt(a.args[0] ** 2 + a.args[1] ** 2)
    return Expr.of_atom(atom("cos", e))


def ftan(e):
    e = to_expr(e)
    if not e.t:
        return ZERO
    a = e.as_atom()
    if a is not None and a.kind == "atan":
        return a.args[0]
    if _neg_lead(e):
        return -ftan(-e)
    m = _pi_multiple(e)
    if m is not None and m == Fraction(1, 4):
        return ONE
    return Expr.of_atom(atom("tan", e))


def subst(e: Expr, mapping: dict) -> Expr:
    """Substitute atoms (keys: Atom) by expressions, also inside applications"""
    cache = {}

    def sub_atom(a):
        if a in mapping:
            return to_expr(mapping[a])
        if a in cache:
            return cache[a]
        if a.kind == "sym":
            r = Expr.of_atom(a)
        else:
            args = tuple(go(x) if isinstance(x, Expr) else x for x in a.args)
            if all(x == y if isinstance(x, Expr) else True for x, y in zip(args, a.args)):
                r = Expr.of_atom(a)
            else:
                r = rebuild(a.kind, args)
        cache[a] = r
        return r

    def go(x):
        acc = ZERO
        for m, c in x.t.items():
            t = Expr.const(c)
            for a, k in m:
                t = t * (sub_atom(a) ** k)
            acc = acc + t
        return acc

    return go(e)


def rebuild(kind, args):
    f = {"sin": fsin, "cos": fcos, "tan": ftan, "sqrt": fsqrt, "inv": lambda x: x.inverse()}.get(kind)
    if f is not None:
        return f(*args)
    if kind == "pow":
        return args[0] ** args[1]
    return app(kind, *args)


def numeric(e: Expr, env: dict) -> float:
    """Evaluate with numeric atoms (only used to print diagnostics)"""
    tot = 0.0
    for m, c in e.t.items():
        v = float(c)
        for a, k in m:
            v *= _num_atom(a, env) ** k
        tot += v
    return tot


def _num_atom(a, env):
    if a in env:
        return env[a]
    if a is _PI_ATOM:
        return math.pi
    f = {"sin": math.sin, "cos": math.cos, "tan": math.tan, "sqrt": math.sqrt, "inv": lambda x: 1 / x,
         "exp": math.exp, "log": math.log, "atan": math.atan, "asin": math.asin, "acos": math.acos}.get(a.kind)
    if f is None:
        raise KeyError(a)
    return f(*[numeric(x, env) for x in a.args])


def diff(e: Expr, x: Atom) -> Expr:
    acc = ZERO
    for m, c in e.t.items():
        for i, (a, k) in enumerate(m):
            da = _datom(a, x)
            if not da.t:
                continue
            rest = tuple(m[:i]) + (((a, k - 1),) if k != 1 else ()) + tuple(m[i + 1:])
            acc = acc + Expr({tuple(sorted(rest, key=lambda t: t[0].id)): c * k}) * da
    return acc


def _datom(a, x):
    if a is x:
        return ONE
    if a.kind == "sym":
        return ZERO
    if a.kind == "sin":
        return fcos(a.args[0]) * diff(a.args[0], x)
    if a.kind == "cos":
        return -fsin(a.args[0]) * diff(a.args[0], x)
    if a.kind == "tan":
        return (ONE + ftan(a.args[0]) ** 2) * diff(a.args[0], x)
    if a.kind == "sqrt":
        return diff(a.args[0], x) / (2 * Expr.of_atom(a))
    if a.kind == "inv":
        return -diff(a.args[0], x) * Expr.of_atom(a) ** 2
    if a.kind == "exp":
        return diff(a.args[0], x) * Expr.of_atom(a)
    if a.kind == "log":
        return diff(a.args[0], x) / a.args[0]
    if any(isinstance(y, Expr) and x in y.atoms(True) for y in a.args):
        raise TypeError(f"cannot differentiate {a}")
    return ZERO
