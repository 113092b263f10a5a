"""Constant folding with 60 digits: numbers, polynomials in one unknown (for the
symbolic construction of Lagrange bases) and the linear algebra on them.  Used for
source whose values are determined by the text alone (node tables, operator
matrices)."""
from __future__ import annotations

import ast
from fractions import Fraction

import mpmath as mp
import numpy as np

from . import algebra as A
from .algebra import Expr
from .interp import AbsVal, Hook, MISSING, Opaque, RaiseOutcome, ExtRef
from .layout import LA, ArrayError, plain, as_int, UNDEF
from .project import AnalysisError, loc

mp.mp.dps = max(mp.mp.dps, 60)
TOL = mp.mpf(10) ** -45


def num(x):
    """mp value of a constant, or None"""
    if isinstance(x, C):
        return x.v
    if isinstance(x, (bool, np.bool_)):
        return mp.mpf(int(x))
    if isinstance(x, (int, np.integer)):
        return mp.mpf(int(x))
    if isinstance(x, Fraction):
        return mp.mpf(x.numerator) / x.denominator
    if isinstance(x, (float, np.floating)):
        f = A.dec(float(x)) if x == x and abs(x) != float("inf") else None
        return mp.mpf(f.numerator) / f.denominator if f is not None else mp.mpf(x)
    if isinstance(x, mp.mpf):
        return x
    if isinstance(x, Expr):
        from .pit import Point
        p = Point(0, {})
        try:
            v = p(x)
        except AnalysisError:
            return None
        return None if p.used else v
    return None


class C(AbsVal):
    scalar = True
    """a constant"""

    py_types = ("float", "Float", "Expr")

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return f"C({mp.nstr(self.v, 12)})"

    def _op(self, o, f, swap=False):
        if isinstance(o, Poly):
            return NotImplemented
        w = num(o)
        if w is None:
            return NotImplemented
        a, b = (w, self.v) if swap else (self.v, w)
        try:
            return C(f(a, b))
        except ZeroDivisionError:
            return C(mp.nan if not a else mp.inf * mp.sign(a))

    def __add__(self, o): return self._op(o, lambda a, b: a + b)
    def __radd__(self, o): return self._op(o, lambda a, b: a + b)
    def __sub__(self, o): return self._op(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._op(o, lambda a, b: a - b, True)
    def __mul__(self, o): return self._op(o, lambda a, b: a * b)
    def __rmul__(self, o): return self._op(o, lambda a, b: a * b)
    def __truediv__(self, o): return self._op(o, lambda a, b: a / b)
    def __rtruediv__(self, o): return self._op(o, lambda a, b: a / b, True)
    def __pow__(self, o): return self._op(o, lambda a, b: a ** b)
    def __rpow__(self, o): return self._op(o, lambda a, b: a ** b, True)
    def __neg__(self): return C(-self.v)
    def __pos__(self): return self
    def __abs__(self): return C(abs(self.v))
    def __float__(self): return float(self.v)

    def cmp(self, o):
        w = num(o)
        if w is None:
            return None
        d = self.v - w
        if abs(d) <= TOL * max(1, abs(self.v), abs(w)):
            return 0
        return 1 if d > 0 else -1

    def __eq__(self, o): return self.cmp(o) == 0
    def __ne__(self, o): return not self == o
    def __lt__(self, o): return self.cmp(o) < 0
    def __le__(self, o): return self.cmp(o) <= 0
    def __gt__(self, o): return self.cmp(o) > 0
    def __ge__(self, o): return self.cmp(o) >= 0
    def __hash__(self): return hash(mp.nstr(self.v, 30))
    def __bool__(self): return abs(self.v) > TOL

    def a_binop(self, I, op, other, swapped, node):
        if isinstance(other, (LA, Poly)):
            return other.a_binop(I, op, self, not swapped, node)
        f = {"Add": lambda a, b: a + b, "Sub": lambda a, b: a - b, "Mult": lambda a, b: a * b, "Div": lambda a, b: a / b, "Pow": lambda a, b: a ** b,
             "FloorDiv": lambda a, b: mp.floor(a / b), "Mod": lambda a, b: a - b * mp.floor(a / b)}.get(op)
        w = num(other)
        if f is None or w is None:
            return Opaque((op, repr(self), I.keyof(other)))
        a, b = (w, self.v) if swapped else (self.v, w)
        try:
            return C(f(a, b))
        except ZeroDivisionError:
            raise RaiseOutcome(ExtRef("builtins.ZeroDivisionError"), node)

    def a_unary(self, I, op, node):
        return C(-self.v) if op == "USub" else (not bool(self) if op == "Not" else self)

    def a_truth(self, I):
        return bool(self)

    def a_compare(self, I, op, other, swapped, node):
        r = self.cmp(other)
        if r is None:
            return MISSING
        if swapped:
            r = -r
        return {"Eq": r == 0, "NotEq": r != 0, "Lt": r < 0, "LtE": r <= 0, "Gt": r > 0, "GtE": r >= 0}.get(op, MISSING)

    def a_attr(self, I, attr, node):
        if attr in ("evalf", "n", "subs", "simplify", "copy", "item", "astype", "expand", "doit"):
            return Hook(attr, lambda I, a, k, n: self)
        if attr in ("real", "imag"):
            return C(mp.re(self.v) if attr == "real" else mp.im(self.v))
        if attr == "shape":
            return ()
        return Opaque((repr(self), attr))


class Poly(AbsVal):
    """polynomial in the unknown, constant coefficients"""

    def __init__(self, c):
        self.c = list(c)

    def __repr__(self):
        return f"Poly({len(self.c) - 1})"

    @staticmethod
    def of(x):
        if isinstance(x, Poly):
            return x
        v = num(x)
        return None if v is None else Poly([v])

    def add(self, o, s=1):
        n = max(len(self.c), len(o.c))
        g = lambda c, i: c[i] if i < len(c) else mp.mpf(0)
        return Poly([g(self.c, i) + s * g(o.c, i) for i in range(n)])

    def mul(self, o):
        r = [mp.mpf(0)] * (len(self.c) + len(o.c) - 1)
        for i, a in enumerate(self.c):
            for j, b in enumerate(o.c):
                r[i + j] += a * b
        return Poly(r)

    def diff(self):
        return Poly([i * a for i, a in enumerate(self.c)][1:] or [mp.mpf(0)])

    def at(self, x):
        r = mp.mpf(0)
        for a in reversed(self.c):
            r = r * x + a
        return r

    def a_binop(self, I, op, other, swapped, node):
        if isinstance(other, LA):
            return other.a_binop(I, op, self, not swapped, node)
        o = Poly.of(other)
        if o is None:
            return Opaque((op, repr(self), I.keyof(other)))
        a, b = (o, self) if swapped else (self, o)
        if op == "Add":
            return a.add(b)
        if op == "Sub":
            return a.add(b, -1)
        if op == "Mult":
            return a.mul(b)
        if op == "Div" and len(b.c) == 1:
            return Poly([x / b.c[0] for x in a.c])
        if op == "Pow" and len(b.c) == 1 and b.c[0] == int(b.c[0]) and b.c[0] >= 0:
            r = Poly([mp.mpf(1)])
            for _ in range(int(b.c[0])):
                r = r.mul(a)
            return r
        return Opaque((op, repr(self), repr(other)))

    def a_unary(self, I, op, node):
        return Poly([-x for x in self.c]) if op == "USub" else self

    def a_attr(self, I, attr, node):
        def subs(I, a, k, n):
            d = k.get("subs") or (a[0] if a and isinstance(a[0], dict) else None)
            v = next(iter(d.values())) if d else (a[-1] if attr == "subs" else None)
            if v is None:
                return self
            w = num(v)
            return self if w is None else C(self.at(w))
        if attr in ("subs", "evalf", "xreplace"):
            return Hook(attr, subs)
        if attr == "diff":
            return Hook(attr, lambda I, a, k, n: self.diff())
        if attr in ("expand", "simplify", "factor", "doit", "copy"):
            return Hook(attr, lambda I, a, k, n: self)
        return Opaque((repr(self), attr))

    def a_call(self, I, a, k, n):
        w = num(a[0])
        return C(self.at(w))


X = Poly([mp.mpf(0), mp.mpf(1)])


def text_value(s):
    """value of a constant arithmetic expression given as text"""
    t = ast.parse(s.strip(), mode="eval").body

    def ev(e):
        if isinstance(e, ast.Constant) and isinstance(e.value, (int, float)):
            return num(e.value)
        if isinstance(e, ast.UnaryOp):
            v = ev(e.operand)
            return -v if isinstance(e.op, ast.USub) else v
        if isinstance(e, ast.BinOp):
            a, b = ev(e.left), ev(e.right)
            return {ast.Add: lambda: a + b, ast.Sub: lambda: a - b, ast.Mult: lambda: a * b, ast.Div: lambda: a / b, ast.Pow: lambda: a ** b}[type(e.op)]()
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name):
            f = {"sqrt": mp.sqrt, "cos": mp.cos, "sin": mp.sin, "Rational": lambda a, b=1: mp.mpf(a) / b}[e.func.id]
            return f(*[ev(x) for x in e.args])
        if isinstance(e, ast.Name) and e.id == "pi":
            return +mp.pi
        raise AnalysisError(f"sympify({s!r})")
    return ev(t)


def legendre(n):
    """Legendre polynomial as Poly"""
    a, b = Poly([mp.mpf(1)]), Poly([mp.mpf(0), mp.mpf(1)])
    if n == 0:
        return a
    for i in range(2, n + 1):
        a, b = b, Poly([(2 * i - 1) * c / i for c in b.mul(X).c]).add(Poly([(i - 1) * c / mp.mpf(i) for c in a.c]), -1)
    return b


def gauss(n):
    """nodes and weights (definition)"""
    P = legendre(n)
    D = P.diff()
    xs = []
    for i in range(n):
        x = mp.cos(mp.pi * (n - i - mp.mpf(1) / 4) / (n + mp.mpf(1) / 2))
        for _ in range(100):
            d = P.at(x) / D.at(x)
            x -= d
            if abs(d) < mp.mpf(10) ** -58:
                break
        xs.append(x)
    return xs, [2 / ((1 - x * x) * D.at(x) ** 2) for x in xs]


def matrix_of(x, undefined=False):
    a = plain(x)
    if not isinstance(a, np.ndarray):
        return None
    out = np.empty(a.shape, dtype=object)
    for ix in np.ndindex(*a.shape):
        v = num(a[ix])
        if v is None and undefined and a[ix] is UNDEF:
            v = UNDEF
        if v is None:
            return None
        out[ix] = v
    return out


def wrap(a):
    """array of mp numbers -> label array of constants"""
    return LA.wrap(np.frompyfunc(lambda v: UNDEF if v is UNDEF else C(v), 1, 1)(a)) if isinstance(a, np.ndarray) else C(a)


def inverse(a):
    n = len(a)
    M = mp.matrix(n, n)
    for i in range(n):
        for j in range(n):
            M[i, j] = a[i, j]
    Z = M ** -1
    out = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            out[i, j] = Z[i, j]
    return out


def install(I):
    """hooks for constant folding in a label-array interpreter"""
    fns = I.real_numpy.fns

    def into(I, r, k, n):
        out = k.get("out")
        if isinstance(out, LA):
            out.a_setitem(I, Ellipsis, r, n)
            return out
        return r

    def un(f):
        def g(I, a, k, n):
            v = a[0]
            if len(a) > 1 and isinstance(a[1], LA):
                k = dict(k, out=a[1])
            if isinstance(v, LA):
                m = matrix_of(v, True)
                return MISSING if m is None else into(I, wrap(np.frompyfunc(lambda x: UNDEF if x is UNDEF else f(x), 1, 1)(m)), k, n)
            w = num(v)
            return MISSING if w is None else C(f(w))
        return g

    def bi(f):
        def g(I, a, k, n):
            if len(a) > 2 and isinstance(a[2], LA):
                k = dict(k, out=a[2])
            v = [matrix_of(x, True) if isinstance(x, LA) else num(x) for x in a[:2]]
            if len(v) < 2 or any(x is None for x in v):
                return MISSING
            if not any(isinstance(x, LA) for x in a[:2]):
                return into(I, C(f(*v)), k, n)
            try:
                return into(I, wrap(np.frompyfunc(lambda x, y: UNDEF if x is UNDEF or y is UNDEF else f(x, y), 2, 1)(*v)), k, n)
            except ValueError as e:
                raise ArrayError(f"arrays of different shapes at {loc(n)}: {e}")
        return g

    for nm, f in (("maximum", max), ("fmax", max), ("minimum", min), ("fmin", min), ("power", lambda a, b: a ** b), ("add", lambda a, b: a + b), ("subtract", lambda a, b: a - b),
                  ("multiply", lambda a, b: a * b), ("divide", lambda a, b: a / b), ("true_divide", lambda a, b: a / b), ("hypot", lambda a, b: mp.sqrt(a * a + b * b)),
                  ("arctan2", mp.atan2)):
        fns[nm] = bi(f)

    def where(I, a, k, n):
        if len(a) == 1 and isinstance(a[0], LA) and all(isinstance(x, (bool, np.bool_)) for x in a[0].a.flat):
            return tuple(LA(np.array([int(i) for i in ix], dtype=object)) for ix in np.nonzero(a[0].a.astype(bool)))
        if len(a) != 3 or not any(isinstance(x, LA) for x in a):
            return MISSING
        c = a[0].a if isinstance(a[0], LA) else a[0]
        if isinstance(c, np.ndarray) and not all(isinstance(x, (bool, np.bool_)) for x in c.flat):
            return MISSING
        v = [plain(x) for x in a[1:]]
        if any(x is MISSING for x in v):
            return MISSING
        return LA.wrap(np.frompyfunc(lambda c, x, y: x if c else y, 3, 1)(c, *v))

    fns["where"] = where

    def isnan(I, a, k, n):
        if isinstance(a[0], LA) and matrix_of(a[0]) is not None:
            return LA.wrap(np.frompyfunc(lambda x: bool(mp.isnan(x)), 1, 1)(matrix_of(a[0])))
        return MISSING

    fns["isnan"] = isnan

    for nm, f in (("sqrt", mp.sqrt), ("exp", mp.exp), ("cos", mp.cos), ("sin", mp.sin), ("abs", abs), ("absolute", abs), ("fabs", abs), ("log", mp.log), ("floor", mp.floor),
                  ("square", lambda x: x * x), ("negative", lambda x: -x), ("reciprocal", lambda x: 1 / x), ("sign", mp.sign), ("tan", mp.tan), ("arctan", mp.atan), ("sinh", mp.sinh), ("cosh", mp.cosh), ("tanh", mp.tanh),
                  ("arccos", lambda x: mp.acos(x) if abs(x) <= 1 else mp.nan), ("arcsin", lambda x: mp.asin(x) if abs(x) <= 1 else mp.nan), ("deg2rad", lambda x: x * mp.pi / 180), ("rad2deg", lambda x: x * 180 / mp.pi)):
        fns[nm] = un(f)

    def hook(dotted, f):
        I.hooks[dotted] = f

    from . import interp as _i

    def b_minmax(nm):
        def g(I, a, k, n):
            vals = list(a)
            if len(a) == 1 and isinstance(a[0], (list, tuple)):
                vals = list(a[0])
            elif len(a) == 1 and isinstance(a[0], LA) and a[0].a.ndim == 1:
                vals = list(a[0].a)
            w = [num(x) for x in vals]
            if len(vals) > 1 and not k and all(isinstance(x, mp.mpf) for x in w) and any(isinstance(x, C) for x in vals):
                i = max(range(len(w)), key=lambda j: (w[j], -j)) if nm == "max" else min(range(len(w)), key=lambda j: (w[j], j))
                return vals[i]
            return _i.PYBUILTINS[nm](I, a, k, n)
        return g

    def b_abs(I, a, k, n):
        if isinstance(a[0], C):
            return C(abs(a[0].v))
        if isinstance(a[0], LA) and matrix_of(a[0]) is not None:
            return fns["abs"](I, a, k, n)
        return _i.PYBUILTINS["abs"](I, a, k, n)

    def b_whole(nm, f):
        def g(I, a, k, n):
            if len(a) == 1 and isinstance(a[0], C) and not k:
                if not mp.isfinite(a[0].v):
                    raise RaiseOutcome(ExtRef("builtins.ValueError"), n)
                return int(f(a[0].v))
            return _i.PYBUILTINS[nm](I, a, k, n)
        return g

    I.builtins = dict(getattr(I, "builtins", None) or {}, min=b_minmax("min"), max=b_minmax("max"), abs=b_abs, int=b_whole("int", lambda v: v), round=b_whole("round", lambda v: mp.nint(v)))
    I.pi = C(mp.pi + 0)
    I.complex_const = lambda v: C(mp.mpc(v))
    fns["real"], fns["imag"], fns["conj"] = un(mp.re), un(mp.im), un(mp.conj)
    hook("math.floor", b_whole("int", mp.floor))
    hook("math.ceil", b_whole("int", mp.ceil))

    def ndindex(I, a, k, n):
        sh = tuple(a[0]) if len(a) == 1 and isinstance(a[0], (tuple, list)) else tuple(a)
        return [tuple(int(i) for i in x) for x in np.ndindex(*(as_int(v) for v in sh))]

    fns["ndindex"] = ndindex

    for nm, f in (("sqrt", mp.sqrt), ("exp", mp.exp), ("cos", mp.cos), ("sin", mp.sin), ("log", mp.log), ("tan", mp.tan), ("acos", mp.acos), ("asin", mp.asin), ("atan", mp.atan), ("tanh", mp.tanh), ("cosh", mp.cosh), ("sinh", mp.sinh), ("fabs", abs)):
        def mk(f):
            def g(I, a, k, n):
                w = num(a[0])
                if w is None:
                    raise AnalysisError(f"math function of {a[0]!r}")
                return C(f(w))
            return g
        hook("math." + nm, mk(f))
        hook("sympy." + nm, mk(f))

    for nm, f in (("atan2", mp.atan2), ("hypot", lambda a, b: mp.sqrt(a * a + b * b)), ("pow", lambda a, b: a ** b)):
        def mk2(f):
            def g(I, a, k, n):
                w = [num(x) for x in a]
                if len(w) != 2 or any(x is None for x in w):
                    raise AnalysisError(f"math function of {a!r}")
                return C(f(*w))
            return g
        hook("math." + nm, mk2(f))

    def minv(I, a, k, n):
        m = matrix_of(a[0])
        if m is None:
            return MISSING
        try:
            return wrap(inverse(m))
        except ZeroDivisionError:
            raise RaiseOutcome(ExtRef("numpy.linalg.LinAlgError"), n)

    fns["linalg.inv"] = minv

    def lsolve(I, a, k, n):
        A_, b = (matrix_of(x) if isinstance(x, LA) else None for x in a[:2])
        if A_ is None or b is None or A_.shape[-1] != A_.shape[-2]:
            return MISSING
        vec = b.ndim == A_.ndim - 1
        b2 = b[..., None] if vec else b
        N = A_.shape[-1]
        if b2.shape[-2] != N:
            raise ArrayError(f"linear system of shapes {A_.shape} and {b.shape} at {loc(n)}")
        lead = np.broadcast_shapes(A_.shape[:-2], b2.shape[:-2])
        out = np.empty(lead + b2.shape[-2:], dtype=object)
        Ab, bb = np.broadcast_to(A_, lead + (N, N)), np.broadcast_to(b2, lead + b2.shape[-2:])
        for ix in np.ndindex(*lead):
            M = [{j: v for j, v in enumerate(row) if v} for row in Ab[ix]]
            rhs = [list(r) for r in bb[ix]]
            for c in range(N):
                piv = max((i for i in range(c, N) if c in M[i]), key=lambda i: abs(M[i][c]), default=None)
                if piv is None:
                    raise RaiseOutcome(ExtRef("numpy.linalg.LinAlgError"), n)
                M[c], M[piv], rhs[c], rhs[piv] = M[piv], M[c], rhs[piv], rhs[c]
                for i in range(N):
                    if i != c and c in M[i]:
                        f = M[i].pop(c) / M[c][c]
                        for j, v in M[c].items():
                            if j > c:
                                M[i][j] = M[i].get(j, 0) - f * v
                        rhs[i] = [x - f * y for x, y in zip(rhs[i], rhs[c])]
            for i in range(N):
                for j in range(out.shape[-1]):
                    out[ix + (i, j)] = rhs[i][j] / M[i][i]
        return wrap(out[..., 0] if vec else out)

    fns["linalg.solve"] = lsolve
    fns["moveaxis"] = lambda I, a, k, n: LA(np.moveaxis(a[0].a, *(a[1:3] if len(a) > 2 else (k["source"], k["destination"])))) if isinstance(a[0], LA) else MISSING

    def reduction(name):
        def red(v):
            return sum(v, mp.mpf(0)) if name == "sum" else sum(v, mp.mpf(0)) / len(v) if name == "mean" else max(v) if name == "max" else min(v)

        def g(I, a, k, n):
            m = matrix_of(a[0]) if isinstance(a[0], LA) else None
            if m is None or set(k) - {"axis"} or len(a) > 2:
                return MISSING
            ax = a[1] if len(a) > 1 else k.get("axis")
            if ax is None:
                return C(red(list(m.flat)))
            if not isinstance(ax, (int, tuple)):
                return MISSING
            ax = (ax,) if isinstance(ax, int) else ax
            m2 = np.moveaxis(m, ax, range(len(ax)))
            sh = m2.shape[len(ax):]
            m2 = m2.reshape((-1,) + sh)
            out = np.empty(sh, dtype=object)
            for i in np.ndindex(*sh):
                out[i] = red([m2[(j,) + i] for j in range(len(m2))])
            return wrap(out) if sh else C(out[()])
        return g
    for nm, canon in (("sum", "sum"), ("mean", "mean"), ("max", "max"), ("amax", "max"), ("min", "min"), ("amin", "min")):
        fns[nm] = reduction(canon)

    def argm(best):
        def g(I, a, k, n):
            m = matrix_of(a[0]) if isinstance(a[0], LA) else None
            if m is None or len(a) > 1 or k:
                return MISSING
            v = list(m.flat)
            return best(range(len(v)), key=lambda i: v[i])
        return g
    fns["argmin"], fns["argmax"] = argm(min), argm(max)
    fns["unravel_index"] = lambda I, a, k, n: tuple(int(x) for x in np.unravel_index(a[0], tuple(a[1]))) if len(a) > 1 and isinstance(a[0], int) and isinstance(a[1], (tuple, list)) else MISSING
    I.la_methods = dict(getattr(I, "la_methods", None) or {}, **{nm: fns[nm] for nm in ("sum", "mean", "max", "min", "argmin", "argmax")})

    def kron(I, a, k, n):
        x, y = plain(a[0]), plain(a[1])
        return LA.wrap(np.kron(x.astype(object), y.astype(object)))

    fns["kron"] = kron

    def eye(I, a, k, n):
        N = as_int(a[0])
        M = as_int(a[1]) if len(a) > 1 else N
        r = np.zeros((N, M), dtype=object)
        for i in range(min(N, M)):
            r[i, i] = 1
        return LA(r)

    fns["eye"] = fns["identity"] = eye

    def outer(I, a, k, n):
        x, y = plain(a[0]), plain(a[1])
        r = np.empty((x.size, y.size), dtype=object)
        for i, u in enumerate(x.reshape(-1)):
            for j, v in enumerate(y.reshape(-1)):
                r[i, j] = u * v
        return LA.wrap(r)

    fns["outer"] = outer
    fns["multiply.outer"] = outer

    def diag(I, a, k, n):
        x = plain(a[0])
        if x.ndim == 2:
            return LA.wrap(np.array([x[i, i] for i in range(min(x.shape))], dtype=object))
        r = np.zeros((x.size, x.size), dtype=object)
        for i in range(x.size):
            r[i, i] = x[i]
        return LA(r)

    fns["diag"] = diag

    def append(I, a, k, n):
        x, y = (np.asarray(plain(v), dtype=object).reshape(-1) for v in a[:2])
        return LA(np.concatenate([x, y]))

    fns["append"] = append

    def dot(I, a, k, n):
        x, y = plain(a[0]), plain(a[1])
        if x is MISSING or y is MISSING:
            return MISSING
        r = np.dot(x, y)
        o = k.get("out", a[2] if len(a) > 2 else None)
        if isinstance(o, LA):
            if o.a.shape != r.shape:
                raise ArrayError(f"numpy.dot at {loc(n)}: output has shape {o.a.shape}, result {r.shape}")
            o.a[...] = r
            return o
        return LA.wrap(r)

    fns["dot"] = fns["matmul"] = dot

    def nonzero(I, a, k, n):
        m = matrix_of(a[0])
        if m is None:
            return MISSING
        idx = np.nonzero(np.frompyfunc(lambda v: abs(v) > TOL, 1, 1)(m).astype(bool))
        return tuple(LA(i.astype(object)) for i in idx)

    fns["nonzero"] = nonzero

    def linspace(I, a, k, n):
        x, y = num(a[0] if a else k["start"]), num(a[1] if len(a) > 1 else k["stop"])
        N = as_int(a[2] if len(a) > 2 else k.get("num", 50))
        return wrap(np.array([x + (y - x) * i / (N - 1) for i in range(N)], dtype=object))

    fns["linspace"] = linspace

    def meshgrid(I, a, k, n):
        return [LA(np.array(x, dtype=object)) for x in np.meshgrid(*[plain(x) for x in a], indexing=k.get("indexing", "xy"))]

    fns["meshgrid"] = meshgrid
    # symbolic algebra package
    hook("sympy.symbols", lambda I, a, k, n: X)
    hook("sympy.Symbol", lambda I, a, k, n: X)

    def sympify(I, a, k, n):
        if isinstance(a[0], str):
            return C(text_value(a[0]))
        w = num(a[0])
        return a[0] if w is None else C(w)

    for nm in ("sympify", "S", "Float", "N", "nsimplify"):
        hook("sympy." + nm, sympify)

    def rational(I, a, k, n):
        return C(num(a[0]) / (num(a[1]) if len(a) > 1 else 1))

    hook("sympy.Rational", rational)

    def prod(I, a, k, n):
        xs = a[0].a_iter(I, n) if isinstance(a[0], LA) else list(a[0])
        r = C(mp.mpf(1))
        for x in xs:
            r = I.binop("Mult", r, x, n)
        return r

    for d in ("sympy.prod", "math.prod"):
        hook(d, prod)
    fns["prod"] = prod

    def diff(I, a, k, n):
        v = a[0]
        if isinstance(v, C) or num(v) is not None:
            return C(mp.mpf(0))
        if isinstance(v, Poly):
            return v.diff()
        return Opaque(("sympy.diff", repr(v)))

    hook("sympy.diff", diff)

    def leg(I, a, k, n):
        P = legendre(as_int(a[0]))
        w = num(a[1])
        return C(P.at(w)) if w is not None else P

    hook("sympy.legendre", leg)

    def roots(I, a, k, n):
        xs, ws = gauss(as_int(a[0]))
        return (wrap(np.array(xs, dtype=object)), wrap(np.array(ws, dtype=object)))

    for d in ("scipy.special.roots_legendre", "scipy.special.p_roots", "numpy.polynomial.legendre.leggauss"):
        hook(d, roots)
    fns["polynomial.legendre.leggauss"] = roots

    def finfo(I, a, k, n):
        from .interp import Obj
        return Obj(None, "finfo", {"eps": C(mp.mpf(2) ** -52)})

    hook("numpy.finfo", finfo)
    fns["finfo"] = finfo
    return I
