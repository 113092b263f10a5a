"""Truncated B-series: the abstract domain in which the time integrators are interpreted.

A state vector is abstracted by its expansion around the state y at the start of
the step, in elementary differentials of the right-hand side(s):
    {tree: coefficient}, coefficient a truncated series in h (step size) and eps
    (the differencing increment of Jacobian-vector products).
Trees are (label, children): label 'Y' is the state itself, 'Z' a fresh vector,
any other label a right-hand side evaluated at y.
"""
from __future__ import annotations

import math
from fractions import Fraction

import numpy as np

from .algebra import Expr
from .interp import MISSING, AbsVal, Hook, Opaque, Unsupported
from .project import AnalysisError, loc

TINY = 1e-13
INC = 1e-5  # numeric constants below this size that multiply a state are differencing increments


class Inconsistent(Exception):
    """the right-hand side is evaluated at a point that does not tend to the state for h -> 0"""

    def __init__(self, msg):
        self.msg = msg


class Prec:
    P = 4
    E = 1


def num(x):
    """constant of the interpreter as a python number, or None"""
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, (int, float, complex)):
        return x
    if isinstance(x, Fraction):
        return float(x)
    if isinstance(x, np.generic):
        return x.item()
    if isinstance(x, Expr):
        if x.is_const():
            return float(x.const_value())
        try:
            from . import algebra as A
            v = 0j
            for m, c in x.t.items():
                f = complex(float(c))
                for a, e in m:
                    if a is A._I_ATOM:
                        f *= 1j ** int(e)
                    else:
                        return None
                v += f
            return v.real if v.imag == 0 else v
        except Exception:  # noqa: BLE001
            return None
    if isinstance(x, CA) and x.a.ndim == 0:
        return x.a.item()
    return None


class S(AbsVal):
    """scalar: truncated Laurent series in h and eps"""

    py_types = ("float",)

    def __init__(self, t=None):
        self.t = {k: v for k, v in (t or {}).items() if abs(v) > TINY and k[0] <= Prec.P and k[1] <= Prec.E}

    def __repr__(self):
        return "S(" + " ".join(f"{v:.4g}*h^{k[0]}e^{k[1]}" for k, v in sorted(self.t.items())) + ")"

    @staticmethod
    def const(c):
        return S({(0, 0): c})

    def __add__(self, o):
        t = dict(self.t)
        for k, v in o.t.items():
            t[k] = t.get(k, 0) + v
        return S(t)

    def scale(self, c):
        return S({k: v * c for k, v in self.t.items()})

    def __sub__(self, o):
        return self + o.scale(-1)

    def __mul__(self, o):
        t = {}
        for (a, b), v in self.t.items():
            for (c, d), w in o.t.items():
                if a + c > Prec.P or b + d > Prec.E:
                    continue
                t[(a + c, b + d)] = t.get((a + c, b + d), 0) + v * w
        return S(t)

    def inverse(self):
        if not self.t:
            raise ZeroDivisionError
        lead = min(self.t)
        c = self.t[lead]
        one = S({(k[0] - lead[0], k[1] - lead[1]): v / c for k, v in self.t.items()})
        r = one - S.const(1)
        if any(k[0] < 0 or k[1] < 0 for k in r.t):
            raise Unsupported("division by a series without a leading term")
        acc, p = S.const(1), S.const(1)
        for _ in range(Prec.P + 2):
            p = (p * r).scale(-1)
            if not p.t:
                break
            acc = acc + p
        return S({(k[0] - lead[0], k[1] - lead[1]): v / c for k, v in acc.t.items()})

    def at(self, h=0.01, e=0.0):
        return sum((v * h ** k[0] * (e ** k[1] if k[1] else 1)) for k, v in self.t.items())

    def real(self):
        return S({k: complex(v).real for k, v in self.t.items()})

    def imag(self):
        return S({k: complex(v).imag for k, v in self.t.items()})

    # --- interpreter protocol
    def a_binop(self, I, op, other, swapped, node):
        if op == "Pow" and not swapped:
            n = num(other)
            if n is not None and float(n).is_integer():
                r = S.const(1)
                base = self if n >= 0 else self.inverse()
                for _ in range(abs(int(n))):
                    r = r * base
                return r
            if self.const_value() is not None and n is not None:
                return float(self.const_value()) ** n
            return Opaque(("pow", repr(self), repr(other)))
        o = to_s(other)
        if o is None:
            if isinstance(other, AbsVal):
                return other.a_binop(I, op, self, not swapped, node)
            return Opaque((op, repr(self), I.keyof(other)))
        a, b = (o, self) if swapped else (self, o)
        if op == "Add":
            return a + b
        if op == "Sub":
            return a - b
        if op == "Mult":
            return a * b
        if op == "Div":
            return a * b.inverse()
        return Opaque((op, repr(a), repr(b)))

    def const_value(self):
        if not self.t:
            return 0.0
        if set(self.t) == {(0, 0)}:
            return self.t[(0, 0)]
        return None

    def a_truth(self, I):
        return bool(self.t)

    def a_compare(self, I, op, other, swapped, node):
        if op in ("Is", "IsNot"):
            return op == "IsNot"
        o = to_s(other)
        if o is None:
            return MISSING
        a, b = complex(self.at()).real, complex(o.at()).real
        if swapped:
            a, b = b, a
        return {"Lt": a < b, "LtE": a <= b, "Gt": a > b, "GtE": a >= b, "Eq": abs(a - b) < 1e-15, "NotEq": abs(a - b) >= 1e-15}.get(op, MISSING)

    def a_attr(self, I, attr, node):
        if attr == "real":
            return self.real()
        if attr == "imag":
            return self.imag()
        return Opaque((repr(self), attr))


def to_s(x):
    if isinstance(x, S):
        return x
    n = num(x)
    if n is None:
        return None
    return S.const(n)


def sabs(x):
    return x.scale(-1) if complex(x.at()).real < 0 else x


Y = ("Y", ())
SIZE = Opaque(("vector", "size"))


class BV(AbsVal):
    mutable = True
    py_types = ("ndarray",)

    def __init__(self, t=None):
        self.t = {k: v for k, v in (t or {}).items() if v.t}

    def __repr__(self):
        return f"BV({len(self.t)} terms, {id(self):x})"

    def copy(self):
        return BV(dict(self.t))

    def add(self, o, c=1):
        t = dict(self.t)
        for k, v in o.t.items():
            v = v if c == 1 else v.scale(c)
            t[k] = t[k] + v if k in t else v
        return BV(t)

    def mul(self, s):
        return BV({k: v * s for k, v in self.t.items()})

    def coef(self, tree):
        return self.t.get(tree, S())

    def is_zero(self, tol=1e-9, maxh=None):
        return all(abs(v) < tol for s in self.t.values() for k, v in s.t.items() if maxh is None or k[0] <= maxh)

    def a_inplace(self, I, v):
        v = as_bv(v)
        if v is None:
            return False
        self.t = dict(v.t)
        return True

    def a_binop(self, I, op, other, swapped, node):
        s = to_s(other)
        if s is not None:
            if set(s.t) == {(0, 0)} and abs(s.t[(0, 0)]) < INC:
                s = S({(0, 1): s.t[(0, 0)]})  # a numeric differencing increment
            elif set(s.t) == {(0, 0)} and abs(s.t[(0, 0)]) > 1 / INC:
                s = S({(0, -1): s.t[(0, 0)]})
            if op == "Mult":
                return self.mul(s)
            if op == "Div" and not swapped:
                return self.mul(s.inverse())
            if op in ("Add", "Sub") and not s.t:
                return self.mul(S.const(-1)) if (op == "Sub" and swapped) else self.copy()
            return Opaque((op, repr(self), repr(s)))
        o = as_bv(other)
        if o is None:
            return Opaque((op, repr(self), I.keyof(other)))
        a, b = (o, self) if swapped else (self, o)
        if op == "Add":
            return a.add(b)
        if op == "Sub":
            return a.add(b, -1)
        return Opaque((op, repr(a), repr(b)))

    def a_attr(self, I, attr, node):
        if attr in ("reshape", "ravel", "squeeze", "view", "get"):
            return Hook(attr, lambda I, a, k, n: self)
        if attr in ("flatten", "copy", "astype"):
            return Hook(attr, lambda I, a, k, n: self.copy())
        if attr == "T":
            return self
        if attr == "imag":
            return BV({k: v.imag() for k, v in self.t.items()})
        if attr == "real":
            return BV({k: v.real() for k, v in self.t.items()})
        if attr == "size":
            return SIZE
        if attr == "shape":
            return Opaque(("vector", "shape"))
        if attr == "dtype":
            return Opaque(("vector", "dtype"))
        if attr == "ndim":
            return 1
        return Opaque((repr(self), attr))

    def a_getitem(self, I, idx, node):
        if idx is Ellipsis or idx == slice(None) or (isinstance(idx, tuple) and all(i in (Ellipsis, None) or i == slice(None) for i in idx)):
            return self
        return Opaque(("item", repr(self), repr(idx)))

    def a_setitem(self, I, idx, v, node):
        if idx is Ellipsis or idx == slice(None) or (isinstance(idx, tuple) and all(i is Ellipsis or i == slice(None) for i in idx)):
            b = as_bv(v)
            if b is None and to_s(v) is not None and not to_s(v).t:
                b = BV()
            if b is not None:
                self.t = dict(b.t)
                return
        raise Unsupported(f"partial assignment to a state vector at {loc(node)}")

    def a_compare(self, I, op, other, swapped, node):
        if op in ("Is", "IsNot"):
            same = self is other
            return same if op == "Is" else not same
        return MISSING


class Rows(AbsVal):
    """a small stack of state vectors (first axis known, second the flattened state)"""

    mutable = True

    def __init__(self, rows, T=False):
        self.rows = list(rows)
        self.transposed = T

    def __repr__(self):
        return f"Rows({len(self.rows)},{id(self):x})"

    def _norm(self, idx):
        if not isinstance(idx, tuple):
            idx = (idx,)
        if idx and idx[0] is Ellipsis:
            return slice(None)
        for r in idx[1:]:
            if not (r is Ellipsis or (isinstance(r, slice) and r == slice(None))):
                ok = isinstance(r, slice) and r.step is None and r.start in (None, 0) and (r.stop is SIZE or r.stop is None)
                if not ok:
                    return None
        return idx[0]

    def a_getitem(self, I, idx, node):
        i = self._norm(idx)
        if isinstance(i, int):
            return self.rows[i]
        if isinstance(i, slice):
            return Rows(self.rows[slice(*(int(x) if x is not None else None for x in (i.start, i.stop, i.step)))], self.transposed)
        raise Unsupported(f"index {idx!r} of a stack of vectors at {loc(node)}")

    def a_setitem(self, I, idx, v, node):
        i = self._norm(idx)
        if isinstance(i, int):
            b = as_bv(v)
            if b is None and to_s(v) is not None and not to_s(v).t:
                b = BV()
            if b is None:
                raise Unsupported(f"assignment of {v!r} to a row at {loc(node)}")
            self.rows[i].t = dict(b.t)
            return
        if isinstance(i, slice) and isinstance(v, Rows):
            tgt = self.rows[slice(*(int(x) if x is not None else None for x in (i.start, i.stop, i.step)))]
            if len(tgt) == len(v.rows):
                for a, b in zip(tgt, v.rows):
                    a.t = dict(b.t)
                return
        raise Unsupported(f"assignment to {idx!r} of a stack of vectors at {loc(node)}")

    def a_attr(self, I, attr, node):
        if attr == "T":
            return Rows(self.rows, not self.transposed)
        if attr == "shape":
            return (len(self.rows), SIZE) if not self.transposed else (SIZE, len(self.rows))
        if attr in ("reshape", "ravel", "flatten", "squeeze") and len(self.rows) == 1:
            return Hook(attr, lambda I, a, k, n: self.rows[0] if attr != "flatten" else self.rows[0].copy())
        if attr == "copy":
            return Hook(attr, lambda I, a, k, n: Rows([r.copy() for r in self.rows], self.transposed))
        return Opaque((repr(self), attr))

    def a_binop(self, I, op, other, swapped, node):
        if op == "MatMult":
            c = other
            if isinstance(c, list):
                c = CA(np.array([num(x) for x in c]))
            if isinstance(c, CA) and c.a.ndim == 1 and len(c.a) == len(self.rows) and (self.transposed != swapped):
                r = BV()
                for w, b in zip(c.a, self.rows):
                    r = r.add(b.mul(S.const(w)))
                return r
            if isinstance(c, CA) and c.a.ndim == 2 and swapped and not self.transposed and c.a.shape[1] == len(self.rows):
                out = []
                for row in c.a:
                    r = BV()
                    for w, b in zip(row, self.rows):
                        r = r.add(b.mul(S.const(w)))
                    out.append(r)
                return Rows(out)
            raise Unsupported(f"matrix product with a stack of vectors at {loc(node)}")
        if len(self.rows) == 1:
            r = self.rows[0].a_binop(I, op, other.rows[0] if isinstance(other, Rows) else other, swapped, node)
            return Rows([r]) if isinstance(r, BV) and (isinstance(other, Rows) or to_s(other) is not None) else r
        s = to_s(other)
        if s is not None and op in ("Mult", "Div") and not (op == "Div" and swapped):
            return Rows([r.a_binop(I, op, s, swapped, node) for r in self.rows])
        if isinstance(other, BV) and op in ("Add", "Sub"):
            return Rows([r.a_binop(I, op, other, swapped, node) for r in self.rows])
        if isinstance(other, Rows) and len(other.rows) == len(self.rows):
            return Rows([a.a_binop(I, op, b, swapped, node) for a, b in zip(self.rows, other.rows)])
        raise Unsupported(f"operation {op} on a stack of vectors at {loc(node)}")

    def a_iter(self, I, node):
        return self.rows if not self.transposed else None

    def a_inplace(self, I, v):
        if isinstance(v, Rows) and len(v.rows) == len(self.rows):
            for a, b in zip(self.rows, v.rows):
                a.t = dict(b.t)
            return True
        return False


def as_bv(x):
    if isinstance(x, BV):
        return x
    if isinstance(x, Rows) and len(x.rows) == 1:
        return x.rows[0]
    return None


class CA(AbsVal):
    """array of constants (folded)"""

    mutable = True
    py_types = ("ndarray",)

    def __init__(self, a):
        self.a = np.asarray(a)

    def __repr__(self):
        return f"CA{self.a.tolist()!r}"[:200]

    @staticmethod
    def wrap(r):
        if isinstance(r, np.ndarray) and r.ndim:
            return CA(r)
        if isinstance(r, np.ndarray):
            return r.item()
        if isinstance(r, np.generic):
            return r.item()
        return r

    def _idx(self, idx):
        def one(i):
            if isinstance(i, slice):
                return slice(*(int(x) if x is not None else None for x in (i.start, i.stop, i.step)))
            if isinstance(i, CA):
                return i.a
            if i is None or i is Ellipsis or isinstance(i, (int, np.ndarray)):
                return i
            if isinstance(i, (list, tuple)) and all(isinstance(x, int) for x in i):
                return list(i)
            raise Unsupported(f"index {i!r} of a constant array")
        return tuple(one(i) for i in idx) if isinstance(idx, tuple) else one(idx)

    def a_getitem(self, I, idx, node):
        return CA.wrap(self.a[self._idx(idx)])

    def a_setitem(self, I, idx, v, node):
        w = v.a if isinstance(v, CA) else num(v)
        if w is None and isinstance(v, (list, tuple)):
            w = to_const(v)
        if w is None:
            raise Unsupported(f"assignment of {v!r} to a constant array at {loc(node)}")
        if isinstance(w, complex) and not np.iscomplexobj(self.a):
            raise Unsupported("complex value in a real constant array")
        if self.a.dtype.kind in "iub" and not isinstance(w, int):
            self.a = self.a.astype(float)
        self.a[self._idx(idx)] = w

    def a_binop(self, I, op, other, swapped, node):
        if isinstance(other, (BV, Rows)):
            if op == "MatMult" or self.a.ndim == 0:
                return other.a_binop(I, op, self if self.a.ndim else self.a.item(), not swapped, node)
            return Opaque((op, repr(self), repr(other)))
        if isinstance(other, S):
            c = other.const_value()
            if c is None:
                return Opaque((op, repr(self), repr(other)))
            o = c
        else:
            o = other.a if isinstance(other, CA) else num(other)
            if o is None and isinstance(other, (list, tuple)):
                o = to_const(other)
        if o is None:
            return Opaque((op, repr(self), I.keyof(other)))
        a, b = (o, self.a) if swapped else (self.a, o)
        f = {"Add": np.add, "Sub": np.subtract, "Mult": np.multiply, "Div": np.divide, "Pow": np.power, "MatMult": np.matmul, "FloorDiv": np.floor_divide, "Mod": np.mod,
             "BitOr": np.bitwise_or, "BitAnd": np.bitwise_and}.get(op)
        if f is None:
            raise Unsupported(f"{op} on constant arrays")
        if op == "Pow":
            a = np.asarray(a, dtype=float)
        with np.errstate(all="ignore"):
            return CA.wrap(f(a, b))

    def a_attr(self, I, attr, node):
        if attr in ("shape", "size", "ndim"):
            return getattr(self.a, attr)
        if attr == "T":
            return CA(self.a.T)
        if attr == "dtype":
            return Opaque(("dtype", str(self.a.dtype)))
        if attr in ("copy", "flatten", "ravel", "tolist", "sum", "prod", "max", "min", "transpose", "item", "any", "all", "argmax", "argmin", "dot", "squeeze"):
            def h(I, a, k, n, attr=attr):
                r = getattr(self.a, attr)(*[x.a if isinstance(x, CA) else x for x in a], **{q: v for q, v in k.items()})
                return CA.wrap(r)
            return Hook(attr, h)
        if attr == "reshape":
            return Hook(attr, lambda I, a, k, n: CA(self.a.reshape(*a)))
        if attr == "astype":
            return Hook(attr, lambda I, a, k, n: CA(self.a.copy()))
        return Opaque((repr(self), attr))

    def a_iter(self, I, node):
        return [CA.wrap(x) for x in self.a]

    def a_truth(self, I):
        return bool(self.a) if self.a.size == 1 else None

    def a_compare(self, I, op, other, swapped, node):
        if op in ("Is", "IsNot"):
            return (self is other) == (op == "Is")
        o = other.a if isinstance(other, CA) else num(other)
        if o is None:
            return MISSING
        a, b = (o, self.a) if swapped else (self.a, o)
        f = {"Lt": np.less, "LtE": np.less_equal, "Gt": np.greater, "GtE": np.greater_equal, "Eq": np.equal, "NotEq": np.not_equal}.get(op)
        return CA.wrap(f(a, b)) if f is not None else MISSING

    def a_inplace(self, I, v):
        if isinstance(v, CA) and v.a.shape == self.a.shape:
            self.a = v.a.copy()
            return True
        return False


def to_const(x):
    """nested lists of constants -> ndarray, or None"""
    def go(v):
        if isinstance(v, (list, tuple)):
            return [go(y) for y in v]
        if isinstance(v, CA):
            return v.a.tolist()
        n = num(v)
        if n is None:
            raise TypeError
        return n
    try:
        return np.array(go(x))
    except (TypeError, ValueError):
        return None


# ------------------------------------------------------------------ right-hand side
def rhs_of(label, B):
    """B-series of f(B) for the function `label`"""
    c = B.coef(Y)
    c0 = c.t.get((0, 0), 0)
    if abs(c0 - 1) > 1e-10 or any(k[0] < 0 or k[1] < 0 for k in c.t):
        raise Inconsistent(f"a right-hand side is evaluated at a point with weight {c0:.6g} on the state (must be 1)")
    delta = []
    for k, s in B.t.items():
        if k == Y:
            s = s - S.const(1)
            if abs(s.t.get((0, 0), 0)) <= 1e-10:
                s = S({q: v for q, v in s.t.items() if q != (0, 0)})
        if s.t:
            d = min(q[0] for q in s.t)
            if any(q[0] <= 0 and q[1] <= 0 for q in s.t):
                bad = max(abs(v) for q, v in s.t.items() if q[0] <= 0 and q[1] <= 0)
                if bad > 1e-9:
                    raise Inconsistent(f"a right-hand side is evaluated at a point that does not tend to the state as the step size goes to 0 (term {show(k)} has weight {s})")
                s = S({q: v for q, v in s.t.items() if not (q[0] <= 0 and q[1] <= 0)})
                if not s.t:
                    continue
            delta.append((d, k, s))
    delta.sort(key=lambda x: (x[0], repr(x[1])))
    out = {}

    def rec(i, acc, coef):
        key = (label, tuple(sorted(acc)))
        out[key] = out[key] + coef if key in out else coef
        for j in range(i, len(delta)):
            _, k, s = delta[j]
            c2, n = coef, 0
            kids = acc
            while True:
                n += 1
                c2 = (c2 * s).scale(1.0 / n)
                if not c2.t:
                    break
                kids = kids + [k]
                rec(j + 1, kids, c2)
    rec(0, [], S.const(1))
    return BV(out)


def show(t):
    return t[0] if not t[1] else f"{t[0]}[{','.join(show(c) for c in t[1])}]"


def integrate(B):
    return BV({k: S({(q[0] + 1, q[1]): v / (q[0] + 1) for q, v in s.t.items()}) for k, s in B.t.items()})


def scale_time(B, c):
    """substitute h -> c*h"""
    return BV({k: S({q: v * c ** q[0] for q, v in s.t.items()}) for k, s in B.t.items()})


def flow(labels, P):
    """exact solution of y' = sum of the labelled right-hand sides"""
    y = BV({Y: S.const(1)})
    for _ in range(P + 1):
        f = BV()
        for l in labels:
            f = f.add(rhs_of(l, y))
        y = BV({Y: S.const(1)}).add(integrate(f))
    return y


# ------------------------------------------------------------------ solver contracts
def linear_scale(I, f, x0):
    """coefficient of the identity in the linearisation of f around x0"""
    Z = ("Z", ())
    fx = as_bv(I.call(f, [x0.copy()], {}, None))
    fz = as_bv(I.call(f, [x0.add(BV({Z: S({(0, 1): 1.0})}))], {}, None))
    if fx is None or fz is None:
        raise Unsupported("residual function does not return a state vector")
    d = fz.add(fx, -1).coef(Z)
    s = S({(k[0], k[1] - 1): v for k, v in d.t.items()})
    return s


def solve_fixed_point(I, f, x0, s):
    inv = s.inverse()
    x = x0.copy()
    last = None
    for _ in range(2 * Prec.P + 6):
        r = as_bv(I.call(f, [x.copy()], {}, None))
        if r is None:
            raise Unsupported("residual function does not return a state vector")
        d = r.mul(inv)
        d = BV({k: S({q: v for q, v in c.t.items() if q[1] <= 0}) for k, c in d.t.items()})
        if d.is_zero(1e-11, Prec.P - 1):
            return x
        x = x.add(d, -1)
        last = d
    raise Inconsistent(f"the implicit equation has no solution near the state as a power series in the step size (residual {last})")


def phi_combination(I, taus, A, rows):
    """w_i = sum_k tau_i^k phi_k(tau_i A) u_k"""
    out = []
    for tau in taus:
        acc = BV()
        for k, u in enumerate(rows):
            v = u.copy()
            j = 0
            while v.t and j <= Prec.P + 2:
                acc = acc.add(v.mul(S.const(tau ** (j + k) / math.factorial(j + k))))
                v = as_bv(I.call(A, [v], {}, None))
                if v is None:
                    raise Unsupported("operator does not return a vector")
                v = BV({t: S({q: w for q, w in c.t.items() if q[1] <= 0}) for t, c in v.t.items()})
                j += 1
            if v.t and j > Prec.P + 2:
                raise Inconsistent("the operator passed to the exponential solver does not vanish with the step size")
        out.append(acc)
    return Rows(out)
