"""Domain for the control flow of iterative solvers: vectors are formal linear combinations
of atoms, norms are chosen per vector, and every comparison that the domain cannot decide is
a choice; all sequences of choices are enumerated."""
from __future__ import annotations

import math

from .interp import AbsVal, ExtRef, Func, Hook, Interp, MISSING, Obj, Opaque, Unsupported
from .project import loc


class Choices:
    def __init__(self, prefix=()):
        self.prefix = list(prefix)
        self.taken = []      # (chosen, arity)
        self.label = []

    def pick(self, n, label=""):
        i = len(self.taken)
        c = self.prefix[i] if i < len(self.prefix) else 0
        self.taken.append((c, n))
        self.label.append(label)
        return c


def enumerate_paths(run, limit=4000):
    """run(Choices) for every sequence of choices; yields (choices, result)"""
    prefix = []
    n = 0
    while True:
        ch = Choices(prefix)
        res = run(ch)
        n += 1
        yield ch, res
        t = list(ch.taken)
        while t and t[-1][0] == t[-1][1] - 1:
            t.pop()
        if not t:
            return
        prefix = [c for c, _ in t[:-1]] + [t[-1][0] + 1]
        if n >= limit:
            yield None, n
            return


class V(AbsVal):
    """a vector (linear combination of atoms) or, with no combination, anything unknown"""

    mutable = True
    N = 100

    def __init__(self, D, comb=None, tag=None):
        self.D = D
        if comb is None:
            comb = {tag if tag is not None else D.fresh(): 1.0}
        self.c = {k: v for k, v in comb.items() if v != 0}

    def key(self):
        return tuple(sorted(((repr(k), v) for k, v in self.c.items())))

    def __repr__(self):
        return "V<" + " + ".join(f"{v}*{k}" for k, v in list(self.c.items())[:3]) + ">"

    def copy(self):
        return V(self.D, dict(self.c))

    def add(self, o, s):
        r = dict(self.c)
        for k, v in o.c.items():
            r[k] = r.get(k, 0) + s * v
        return V(self.D, r)

    def scale(self, f):
        return V(self.D, {k: v * f for k, v in self.c.items()})

    def a_binop(self, I, op, other, swapped, node):
        if isinstance(other, V) and op in ("Add", "Sub"):
            if op == "Add":
                return self.add(other, 1.0)
            return other.add(self, -1.0) if swapped else self.add(other, -1.0)
        f = number(other)
        if f is not None:
            if op == "Mult" and math.isfinite(f):
                return self.scale(f)
            if op == "Div" and not swapped and f != 0 and math.isfinite(f):
                return self.scale(1.0 / f)
            if op in ("Add", "Sub") and f == 0:
                return self.copy() if op == "Add" or not swapped else self.scale(-1.0)
        if op == "MatMult" and isinstance(other, V):
            return Dot(self.D, self, other)
        return V(self.D, tag=(op, self.key(), other.key() if isinstance(other, V) else repr(other), swapped))

    def a_unary(self, I, op, node):
        return self.scale(-1.0) if op == "USub" else V(self.D) if op != "Not" else V(self.D)

    def a_inplace(self, I, v):
        if isinstance(v, V):
            self.c = dict(v.c)
            return True
        return False

    def a_attr(self, I, attr, node):
        same = Hook(attr, lambda I2, a, k, n: self.copy())
        if attr in ("copy", "ravel", "flatten", "reshape", "astype", "conj", "conjugate", "squeeze"):
            return same
        if attr == "item" or attr == "tolist":
            return Hook(attr, lambda I2, a, k, n: V(self.D, tag=("item", self.key())))
        if attr == "shape":
            return (V.N,)
        if attr == "size":
            return V.N
        if attr == "ndim":
            return 1
        if attr == "dtype":
            return ExtRef("numpy.float64")
        if attr in ("T", "real"):
            return self
        if attr in ("any", "all"):
            return Hook(attr, lambda I2, a, k, n: Cond(self.D, (attr, self.key())))
        if attr in ("dot",):
            return Hook(attr, lambda I2, a, k, n: I2.binop("MatMult", self, a[0], n))
        if attr in ("max", "min", "sum", "mean"):
            return Hook(attr, lambda I2, a, k, n: self.D.ext(I2, "numpy." + attr, [self] + list(a), k, n))
        return V(self.D, tag=("attr", attr, self.key()))

    def a_getitem(self, I, idx, node):
        if full(idx):
            return self
        return V(self.D, tag=("item", self.D.fresh(), self.key()))

    def a_setitem(self, I, idx, v, node):
        if full(idx) and isinstance(v, V):
            self.c = dict(v.c)
        elif full(idx) and number(v) == 0:
            self.c = {}
        else:
            self.c = {self.D.fresh(): 1.0}

    def a_len(self):
        return V.N

    def a_iter(self, I, node):
        return None

    def a_truth(self, I):
        return bool(self.D.ch.pick(2, "truth"))

    def a_isinstance(self, I, cs):
        return any("ndarray" in str(getattr(c, "dotted", c)) for c in cs)

    def a_compare(self, I, op, other, swapped, node):
        if op in ("Is", "IsNot"):
            return (other is self) == (op == "Is")
        f = number(other)
        if f == 0 and op in ("Eq", "NotEq"):
            return Cond(self.D, ("nonzero", self.key()), op == "NotEq")
        if f is None:
            return Cond(self.D, ("cmp", op, self.key()), True)
        return Cond(self.D, (op, f, swapped, self.key()))


class Dot(V):
    def __init__(self, D, a, b):
        super().__init__(D, tag=("dot", a.key(), b.key()))
        self.a, self.b = a, b


class Cond(V):
    """an undecided condition (also an elementwise one); generic: its value if fixed"""

    def __init__(self, D, key, generic=None):
        super().__init__(D, tag=("cond", key))
        self.k, self.generic = key, generic

    def a_attr(self, I, attr, node):
        if attr in ("any", "all", "item"):
            return Hook(attr, lambda I2, a, k, n: self)
        return super().a_attr(I, attr, node)

    def a_truth(self, I):
        if self.generic is not None:
            return self.generic
        d = self.D.decided
        if self.k not in d:
            d[self.k] = bool(self.D.ch.pick(2, str(self.k)[:60]))
        return d[self.k]

    def a_unary(self, I, op, node):
        if op == "Not":
            return not self.a_truth(I)
        if op == "Invert":
            return Cond(self.D, ("not", self.k), None if self.generic is None else not self.generic)
        return super().a_unary(I, op, node)


def number(x):
    if isinstance(x, bool):
        return None
    if isinstance(x, (int, float)):
        return float(x)
    if hasattr(x, "numerator") and hasattr(x, "denominator"):
        return float(x)
    return None


def full(idx):
    if idx is Ellipsis:
        return True
    if isinstance(idx, slice):
        return idx == slice(None)
    if isinstance(idx, tuple):
        return all(full(i) for i in idx)
    return type(idx).__name__ == "SliceV" and all(getattr(idx, q, None) is None for q in ("lo", "hi", "step", "lower", "upper"))


class Domain:
    """norm(D, kind, V) -> number"""

    def __init__(self, ch, norm):
        self.ch, self.normf = ch, norm
        self.n = 0
        self.decided = {}
        self.norms = {}

    def fresh(self):
        self.n += 1
        return ("?", self.n)

    def norm(self, kind, v):
        k = v.key()
        nk = v.scale(-1.0).key()
        k = min(k, nk)
        if (kind, k) not in self.norms:
            self.norms[(kind, k)] = 0.0 if not v.c else self.normf(self, kind, v)
        return self.norms[(kind, k)]

    def known(self, kind, v):
        return self.norms.get((kind, min(v.key(), v.scale(-1.0).key())))

    def ext(self, I, dotted, a, k, n):
        name = dotted.split(".", 1)[1] if "." in dotted else dotted
        a = [V(self, tag=("opaque", repr(x))) if isinstance(x, Opaque) else x for x in a]
        x = a[0] if a else None
        if name == "linalg.norm":
            return self.norm("2", x)
        if name in ("zeros", "zeros_like"):
            return V(self, {})
        if name in ("ones", "empty", "full", "full_like", "ones_like", "empty_like", "eye", "tril", "triu", "linalg.solve", "diag", "outer", "linspace", "concatenate", "vstack", "stack", "where"):
            return V(self)
        if name in ("array", "asarray", "ravel", "reshape", "copy", "conjugate", "conj", "squeeze", "atleast_1d", "real", "ascontiguousarray"):
            return x.copy() if isinstance(x, V) else V(self)
        if name in ("dot", "vdot", "inner", "matmul"):
            return I.binop("MatMult", a[0], a[1], n)
        if name == "sqrt":
            if isinstance(x, Dot):
                if x.a.key() == x.b.key():
                    return self.norm("2", x.a)
                return V(self)
            f = number(x)
            if f is not None:
                return math.sqrt(f) if f >= 0 else math.nan
            return V(self)
        if name in ("abs", "absolute", "fabs"):
            f = number(x)
            if f is not None:
                return abs(f)
            v = V(self, tag=("abs", x.key()))
            v.of = x
            return v
        if name in ("max", "amax", "nanmax"):
            if isinstance(x, V) and getattr(x, "of", None) is not None:
                return self.norm("inf" if name != "nanmax" else "naninf", x.of)
            return V(self, tag=("max", x.key())) if isinstance(x, V) else V(self)
        if name in ("any", "all") and isinstance(x, Cond):
            return x
        if name in ("isfinite", "isnan", "isinf"):
            f = number(x)
            if f is not None:
                return getattr(math, name)(f)
            return Cond(self, (name, x.key() if isinstance(x, V) else repr(x)))
        if name == "finfo":
            return Obj(None, "finfo", {"eps": 2.0 ** -52, "tiny": 1e-300})
        if name == "errstate":
            return Obj(None, "errstate", {"__enter__": Hook("e", lambda I, a, k, n: None), "__exit__": Hook("x", lambda I, a, k, n: None)})
        return V(self)


class PathInterp(Interp):
    def __init__(self, p, D, hooks=None, **kw):
        super().__init__(p, hooks or {}, **kw)
        self.D = D

    def call_ext(self, dotted, args, kwargs, node):
        root = dotted.split(".")[0]
        if dotted in ("math.sqrt", "math.isnan", "math.isinf", "math.isfinite", "math.fabs"):
            return self.D.ext(self, dotted, args, kwargs, node)
        if root in ("numpy", "cupy", "xp"):
            if dotted.split(".", 1)[1] in ("float64", "float32") and args and number(args[0]) is not None:
                return float(args[0])
            return self.D.ext(self, dotted, args, kwargs, node)
        if root == "scipy" and dotted not in self.hooks:
            return V(self.D)
        return super().call_ext(dotted, args, kwargs, node)
