"""Label arrays: a domain in which an array holds, at each index, the *name* of a
value (or a symbolic expression).  Reshapes, transpositions, slices, copies and
element-wise operations act on the names, so the interpreter computes which value
ends up at which index - for all values at once.  Views share storage as in numpy."""
from __future__ import annotations

from fractions import Fraction
from typing import Any

import numpy as np

from . import algebra as A
from .algebra import Expr
from .interp import AbsVal, ExtRef, Hook, Interp, MISSING, Obj, Opaque, RaiseOutcome
from .project import AnalysisError, loc


class _Undef:
    def __repr__(self):
        return "undef"

    def __add__(self, o):
        return self

    __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = __neg__ = __pow__ = __add__


UNDEF = _Undef()


def num_ok(x):
    return isinstance(x, (int, float, Fraction, Expr, complex, np.integer, np.floating, str, tuple, bool)) or x is UNDEF or isinstance(x, Label)


class Label:
    """an opaque value (only its identity matters)"""
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f"<{self.name}>"

    def __eq__(self, o):
        return isinstance(o, Label) and o.name == self.name

    def __hash__(self):
        return hash(("L", self.name))


class ArrayError(AnalysisError):
    """an array operation that fails whatever the values are (wrong shape or index)"""


def _cmp(f):
    def g(a, b):
        if isinstance(a, (Expr, Label, str, tuple)) or isinstance(b, (Expr, Label, str, tuple)) or a is UNDEF or b is UNDEF:
            raise TypeError
        return bool(f(a, b))
    return g


COMPARE = {"Lt": _cmp(lambda a, b: a < b), "LtE": _cmp(lambda a, b: a <= b), "Gt": _cmp(lambda a, b: a > b), "GtE": _cmp(lambda a, b: a >= b),
           "Eq": _cmp(lambda a, b: a == b), "NotEq": _cmp(lambda a, b: a != b)}


_MUL = np.frompyfunc(lambda x, y: x * y, 2, 1)
_ADD = np.frompyfunc(lambda x, y: x + y, 2, 1)


def odot(a, b, node=None):
    """matrix product of object arrays (np.dot does not report failing element operations)"""
    a, b = np.asarray(a, dtype=object), np.asarray(b, dtype=object)
    if b.ndim > 2:
        return np.matmul(a, b)
    n = a.shape[-1] if a.ndim else 0
    if not a.ndim or not b.ndim or n != b.shape[0]:
        raise ArrayError(f"matrix product of shapes {a.shape} and {b.shape} at {loc(node)}")
    r = None
    for k in range(n):
        t = _MUL(a[..., k, None], b[k]) if b.ndim == 2 else _MUL(a[..., k], b[k])
        r = t if r is None else _ADD(r, t)
    return r


class LA(AbsVal):
    mutable = True
    py_types = ("ndarray",)

    def __init__(self, a, dtype=None):
        self.a = a
        self.dtype = dtype if dtype is not None else Opaque(("dtype", "float64"))

    def __repr__(self):
        return f"LA{self.a.shape}"

    @staticmethod
    def wrap(r, dtype=None):
        if isinstance(r, np.ndarray):
            return LA(r if r.dtype == object else r.astype(object), dtype) if r.ndim else r.item()
        if isinstance(r, np.generic):
            return r.item()
        if isinstance(r, (list, tuple)):
            return type(r)(LA.wrap(x, dtype) for x in r)
        return r

    def idx(self, I, idx):
        def one(i):
            if isinstance(i, slice):
                return slice(*(as_int(x) if x is not None else None for x in (i.start, i.stop, i.step)))
            if isinstance(i, LA):
                v = i.a
                return v.astype(bool) if v.size and all(isinstance(x, (bool, np.bool_)) for x in v.flat) else v.astype(int)
            if i is None or i is Ellipsis:
                return i
            if isinstance(i, (list, tuple, range)) and all(isinstance(x, (int, np.integer)) for x in i):
                return list(i)
            if isinstance(i, ExtRef) and i.dotted.endswith(".newaxis"):
                return None
            return as_int(i)
        return tuple(one(i) for i in idx) if isinstance(idx, tuple) else one(idx)

    def a_getitem(self, I, idx, node):
        try:
            return LA.wrap(self.a[self.idx(I, idx)], self.dtype)
        except IndexError as e:
            raise ArrayError(f"index error at {loc(node)}: {e}")

    def a_setitem(self, I, idx, v, node):
        self.narrowing(I, v, node)
        w = plain(v)
        if w is MISSING:
            raise AnalysisError(f"assignment of {v!r} to an array at {loc(node)}")
        try:
            if isinstance(w, (Expr, Fraction, Label, str, tuple)) or w is UNDEF:
                t = self.a[self.idx(I, idx)]
                if isinstance(t, np.ndarray) and not isinstance(idx, LA):
                    b = np.empty((), dtype=object)
                    b[()] = w
                    self.a[self.idx(I, idx)] = np.broadcast_to(b, t.shape)
                else:
                    self.a[self.idx(I, idx)] = w
            else:
                self.a[self.idx(I, idx)] = w
        except (ValueError, IndexError) as e:
            raise ArrayError(f"assignment at {loc(node)}: {e}")
        hook = getattr(I, "on_array_write", None)
        if hook:
            hook(self, node)

    def a_binop(self, I, op, other, swapped, node):
        if isinstance(other, AbsVal) and not isinstance(other, (LA, Opaque)) and not getattr(other, "scalar", False):
            return other.a_binop(I, op, self, not swapped, node)
        if op == "MatMult" and getattr(other, "records", False) and not getattr(self, "records", False):
            return other.a_binop(I, op, self, not swapped, node)
        o = plain(other)
        if o is MISSING:
            return Opaque((op, "LA", I.keyof(other)))
        if isinstance(o, float):
            o = A.dec(o) if o == o and abs(o) != float("inf") else o
        a, b = (o, self.a) if swapped else (self.a, o)
        dt = next((x.dtype for x in (self, other) if isinstance(x, LA) and getattr(x.dtype, "key", None) == ("dtype", "complex128")), None)
        if op == "MatMult":
            return LA.wrap(odot(a, b, node), dt)
        f = ELEMENTWISE.get(op)
        if f is None:
            raise AnalysisError(f"{op} on arrays at {loc(node)}")
        try:
            return LA.wrap(np.frompyfunc(f, 2, 1)(a, b), dt)
        except TypeError as e:
            raise AnalysisError(f"{op} of {self!r} and {other!r} at {loc(node)}: {e}")
        except ValueError as e:
            raise ArrayError(f"{op} of arrays of different shapes at {loc(node)}: {e}")

    def a_unary(self, I, op, node):
        if op == "USub":
            return LA.wrap(np.frompyfunc(lambda x: -x, 1, 1)(self.a), self.dtype)
        if op == "Not":
            return MISSING
        return self

    def narrowing(self, I, v, node):
        """tell who wants to know when complex values are written to a real array"""
        hook = getattr(I, "on_narrowing", None)
        if hook and isinstance(v, LA) and getattr(v.dtype, "key", None) == ("dtype", "complex128") and getattr(self.dtype, "key", None) == ("dtype", "float64"):
            hook(self, node)

    def a_inplace(self, I, v):
        self.narrowing(I, v, None)
        w = plain(v)
        if isinstance(w, np.ndarray) and w.shape == self.a.shape:
            self.a[...] = w
            hook = getattr(I, "on_array_write", None)
            if hook:
                hook(self, None)
            return True
        return False

    def a_attr(self, I, attr, node):
        a = self.a
        if attr in ("shape", "size", "ndim", "nbytes", "strides"):
            return getattr(a, attr)
        if attr == "T":
            return LA(a.T, self.dtype)
        if attr in ("real",):
            return self
        if attr == "dtype":
            return self.dtype
        if attr == "flat":
            return LA(a.reshape(-1), self.dtype)
        if attr in ("reshape", "transpose", "copy", "ravel", "flatten", "squeeze", "swapaxes", "repeat", "view", "tolist", "item", "take"):
            def h(I, aa, k, n):
                aa = [as_shape(x) for x in aa]
                k = {q: as_shape(v) for q, v in k.items() if q not in ("order",) or v != "C"}
                if k.get("order") not in (None, "C"):
                    k["order"] = k["order"]
                try:
                    return LA.wrap(getattr(a, attr)(*aa, **k), self.dtype)
                except ValueError as e:
                    raise ArrayError(f"{attr} at {loc(n)}: {e}")
            return Hook(attr, h)
        if attr in ("astype",):
            return Hook(attr, lambda I, aa, k, n: LA(a.copy(), aa[0] if aa else self.dtype))
        ext = getattr(I, "la_methods", {}).get(attr)
        if ext is not None:
            def em(I, aa, k, n):
                r = ext(I, [self] + list(aa), k, n)
                if r is MISSING and attr == "sum":
                    return LA.wrap(a.sum(*aa, **k))
                return Opaque((repr(self), attr)) if r is MISSING else r
            return Hook(attr, em)
        if attr == "sum":
            return Hook(attr, lambda I, aa, k, n: LA.wrap(a.sum(*aa, **k)))
        if attr == "fill":
            def fill(I, aa, k, n):
                self.a_setitem(I, Ellipsis, aa[0], n)
            return Hook(attr, fill)
        if attr == "__array_interface__" or attr == "data":
            return Opaque(("data", id(a)))
        if attr in ("set", "get"):
            return Hook(attr, lambda I, aa, k, n: self)
        return Opaque((repr(self), attr))

    def a_setattr(self, I, name, val):
        if name == "shape":
            try:
                v = self.a.view()
                v.shape = as_shape(val)
                self.a = v
            except (ValueError, AttributeError) as e:
                raise ArrayError(f"shape: {e}")

    def a_iter(self, I, node):
        return [LA.wrap(x, self.dtype) for x in self.a]

    def a_truth(self, I):
        return None

    def a_len(self):
        return len(self.a)

    def a_compare(self, I, op, other, swapped, node):
        if op in ("Is", "IsNot"):
            return (self is other) == (op == "Is")
        f = COMPARE.get(op)
        o = plain(other)
        if f is not None and o is not MISSING:
            try:
                a, b = (o, self.a) if swapped else (self.a, o)
                r = np.frompyfunc(f, 2, 1)(a, b)
                if isinstance(r, np.ndarray) and all(isinstance(x, (bool, np.bool_)) for x in r.flat):
                    return LA(r)
            except (TypeError, ValueError):
                pass
        if op in ("Eq", "NotEq"):
            return Opaque((op, id(self), repr(other)))
        return MISSING


def as_int(x):
    if isinstance(x, (int, np.integer)):
        return int(x)
    if isinstance(x, Fraction) and x.denominator == 1:
        return int(x)
    if isinstance(x, Expr) and x.is_const() and x.const_value().denominator == 1:
        return int(x.const_value())
    if isinstance(x, float) and x == int(x):
        return int(x)
    raise AnalysisError(f"index {x!r} is not an integer")


def as_shape(x):
    if isinstance(x, (tuple, list)):
        return tuple(as_shape(y) for y in x)
    if isinstance(x, (Fraction, Expr, np.integer)):
        return as_int(x)
    if isinstance(x, LA):
        return x.a
    return x


def plain(v):
    if isinstance(v, LA):
        return v.a
    if isinstance(v, (list, tuple)) and not (v and isinstance(v, tuple) and isinstance(v[0], str)):
        w = [plain(x) for x in v]
        if any(x is MISSING for x in w):
            return MISSING
        return obj_array(w)
    if v is None or isinstance(v, (Opaque, ExtRef, Obj)):
        return MISSING
    return v


def obj_array(w):
    """nested lists -> object array without splitting symbolic elements"""
    if isinstance(w, np.ndarray):
        return w
    if isinstance(w, (list, tuple)):
        parts = [obj_array(x) if isinstance(x, (list, tuple, np.ndarray)) else x for x in w]
        if parts and all(isinstance(x, np.ndarray) for x in parts):
            return np.stack([x.astype(object) for x in parts])
        r = np.empty(len(parts), dtype=object)
        for i, x in enumerate(parts):
            r[i] = x
        return r
    return w


def _div(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return Fraction(a, b) if b else UNDEF
    return a / b


ELEMENTWISE = {
    "Add": lambda a, b: a + b, "Sub": lambda a, b: a - b, "Mult": lambda a, b: a * b, "Div": _div, "Pow": lambda a, b: a ** b,
    "FloorDiv": lambda a, b: a // b, "Mod": lambda a, b: a % b,
}

SHAPE_FUNCS = ["moveaxis", "swapaxes", "transpose", "repeat", "tile", "flip", "squeeze", "expand_dims", "broadcast_to", "ravel", "reshape", "atleast_1d", "atleast_2d",
               "split", "array_split", "hsplit", "vsplit", "dsplit", "take", "rollaxis", "roll", "rot90", "fliplr", "flipud", "diag", "split"]
JOIN_FUNCS = ["concatenate", "stack", "vstack", "hstack", "dstack", "block", "column_stack", "row_stack"]


def np_functions():
    """numpy name -> transfer function on label arrays"""
    h = {}

    def shape_fn(nm):
        def f(I, a, k, n):
            if not any(isinstance(x, LA) for x in list(a) + list(k.values())):
                b = [plain(x) if isinstance(x, (list, tuple)) and i == 0 else x for i, x in enumerate(a)]
                if not any(isinstance(x, np.ndarray) for x in b):
                    return MISSING
                a = [LA(x) if isinstance(x, np.ndarray) else x for x in b]
            aa = [as_shape(x) for x in a]
            kk = {q: as_shape(v) for q, v in k.items()}
            dt = next((x.dtype for x in a if isinstance(x, LA)), None)
            try:
                return LA.wrap(getattr(np, nm)(*aa, **kk), dt)
            except (ValueError, IndexError) as e:
                raise ArrayError(f"numpy.{nm} at {loc(n)}: {e}")
        return f

    def join_fn(nm):
        def f(I, a, k, n):
            seq = a[0]
            if isinstance(seq, LA):
                seq = seq.a_iter(I, n)
            parts = []
            for x in seq:
                y = plain(x)
                if y is MISSING:
                    return MISSING
                parts.append(y)
            kk = {q: as_shape(v) for q, v in k.items() if q in ("axis",)}
            rest = [as_shape(x) for x in a[1:]]
            try:
                return LA.wrap(getattr(np, nm)([np.asarray(x, dtype=object) for x in parts], *rest, **kk))
            except ValueError as e:
                raise ArrayError(f"numpy.{nm} at {loc(n)}: {e}")
        return f

    for nm in SHAPE_FUNCS:
        h[nm] = shape_fn(nm)
    for nm in JOIN_FUNCS:
        h[nm] = join_fn(nm)

    def filled(val):
        def f(I, a, k, n):
            s = a[0] if a else k["shape"]
            s = as_shape(s.a.tolist() if isinstance(s, LA) else s)
            r = np.empty(s, dtype=object)
            r[...] = val
            return LA(r, k.get("dtype"))
        return f

    def like(val):
        def f(I, a, k, n):
            if not isinstance(a[0], LA):
                return MISSING
            r = np.empty(as_shape(k["shape"]) if k.get("shape") is not None else a[0].a.shape, dtype=object)
            r[...] = val
            return LA(r, k.get("dtype") or a[0].dtype)
        return f

    h.update({"empty": filled(UNDEF), "zeros": filled(0), "ones": filled(1), "empty_like": like(UNDEF), "zeros_like": like(0), "ones_like": like(1)})

    def full(I, a, k, n):
        r = np.empty(as_shape(a[0]), dtype=object)
        v = a[1] if len(a) > 1 else k["fill_value"]
        for i in np.ndindex(r.shape):
            r[i] = v
        return LA(r, k.get("dtype"))

    h["full"] = full

    def array(I, a, k, n):
        v = plain(a[0])
        if v is MISSING:
            return MISSING
        if isinstance(v, np.ndarray):
            return LA(v.copy(), k.get("dtype"))
        return v

    def asarray(I, a, k, n):
        if isinstance(a[0], LA):
            return a[0]
        return array(I, a, k, n)

    h["array"] = array
    h["asarray"] = h["ascontiguousarray"] = asarray
    h["copy"] = array

    def arange(I, a, k, n):
        return LA(np.arange(*[as_int(x) for x in a]).astype(object))

    h["arange"] = arange

    def shape(I, a, k, n):
        return a[0].a.shape if isinstance(a[0], LA) else MISSING

    h["shape"] = shape
    h["ndim"] = lambda I, a, k, n: a[0].a.ndim if isinstance(a[0], LA) else MISSING
    h["iscomplexobj"] = lambda I, a, k, n: False
    return h


class _S(AbsVal):
    def a_getitem(self, I, idx, node):
        return idx

    def __repr__(self):
        return "s_"


class XP(AbsVal):
    """stands for the array module (device.xp)"""

    def __init__(self, fns):
        self.fns = fns

    def __repr__(self):
        return "xp"

    def a_attr(self, I, attr, node):
        if attr in ("s_", "index_exp"):
            return _S()
        if attr == "newaxis":
            return None
        if attr in self.fns:
            f = self.fns[attr]

            def call(I, a, k, n):
                r = f(I, a, k, n)
                return I.call_ext("numpy." + attr, a, k, n) if r is MISSING else r
            return Hook(attr, call)
        return I.getattr_(ExtRef("numpy"), attr, node)


def make_interp(p, extra=None, decide=None):
    """interpreter in which arrays are label arrays, wherever numpy is called from"""
    fns = np_functions()
    xp = XP(fns)
    I = Interp(p, dict(extra or {}), decide=decide)
    I.xp = xp
    I.real_numpy = xp
    return I


def labels(shape, f=None):
    r = np.empty(shape, dtype=object)
    for i in np.ndindex(*r.shape):
        r[i] = Label(i) if f is None else f(i)
    return LA(r)


def content(x):
    """nested content, for comparison"""
    return x.a if isinstance(x, LA) else x


def same_layout(got, want):
    """None if the two object arrays hold the same labels, else a description of the first difference"""
    if not isinstance(got, np.ndarray):
        return f"result is {got!r}, not an array"
    if got.shape != want.shape:
        return f"shape {got.shape}, expected {want.shape}"
    for i in np.ndindex(*want.shape):
        w, g = want[i], got[i]
        if w is None:
            continue
        if isinstance(w, Expr) or isinstance(g, Expr):
            if not A.is_zero(A.to_expr(g) - A.to_expr(w)) if not isinstance(g, (Label, _Undef)) and not isinstance(w, Label) else True:
                return f"at {i}: {g}, expected {w}"
        elif g != w:
            return f"at {i}: {g}, expected {w}"
    return None


# ------------------------------------------------------------------ elementwise mathematics
def math_functions():
    def un(f):
        def g(I, a, k, n):
            if isinstance(a[0], LA):
                out = k.get("out")
                r = np.frompyfunc(lambda x: f(A.to_expr(x)) if not isinstance(x, _Undef) else x, 1, 1)(a[0].a)
                if isinstance(out, LA):
                    out.a[...] = r
                    return out
                return LA.wrap(r)
            return MISSING
        return g

    def bi(f):
        def g(I, a, k, n):
            if any(isinstance(x, LA) for x in a[:2]):
                x, y = plain(a[0]), plain(a[1])
                if x is MISSING or y is MISSING:
                    return MISSING
                return LA.wrap(np.frompyfunc(lambda u, v: f(A.to_expr(u), A.to_expr(v)) if not (isinstance(u, _Undef) or isinstance(v, _Undef)) else UNDEF, 2, 1)(x, y))
            return MISSING
        return g

    def const_pi(name):
        return None

    def linspace(I, a, k, n):
        lo, hi = (A.to_expr(I.as_expr(x)) for x in ((a[0] if a else k["start"]), (a[1] if len(a) > 1 else k["stop"])))
        num = as_int(a[2] if len(a) > 2 else k["num"])
        r = np.empty(num, dtype=object)
        for i in range(num):
            r[i] = lo + (hi - lo) * Fraction(i, num - 1)
        return LA(r)

    def meshgrid(I, a, k, n):
        parts = [plain(x) for x in a]
        if any(x is MISSING for x in parts):
            return MISSING
        return [LA(np.array(x, dtype=object)) for x in np.meshgrid(*parts, indexing=k.get("indexing", "xy"))]

    def atan2(y, x):
        return A.app("atan2", y, x)

    return {"tan": un(A.ftan), "sin": un(A.fsin), "cos": un(A.fcos), "sqrt": un(A.fsqrt), "linspace": linspace, "meshgrid": meshgrid,
            "arctan2": bi(atan2), "hypot": bi(lambda x, y: A.fsqrt(x * x + y * y)), "exp": un(lambda x: A.app("exp", x)), "log": un(lambda x: A.app("log", x)),
            "abs": un(lambda x: A.app("abs", x)), "maximum": bi(lambda x, y: A.app("max", x, y)), "minimum": bi(lambda x, y: A.app("min", x, y)),
            "square": un(lambda x: x * x), "arctan": un(lambda x: A.app("atan", x)), "arcsin": un(lambda x: A.app("asin", x))}


# ------------------------------------------------------------------ cubed-sphere layouts
def geometry_obj(p, dim, ne, nev, ns, panel=0):
    """the geometry built on a small grid (one tile), positions symbolic in the solution points -> (interp, geometry)"""
    from .geo import ptopo_obj
    I = make_interp(p)
    I.real_numpy.fns.update(math_functions())

    def cart2sph(I, a, k, n):
        def f(what):
            return np.frompyfunc(lambda x, y, z: A.app(what, A.to_expr(x), A.to_expr(y), A.to_expr(z)) if not isinstance(x, _Undef) else x, 3, 1)
        arrs = [plain(x) for x in a[:3]]
        return tuple(LA.wrap(f(w)(*arrs)) for w in ("lon_of", "lat_of", "r_of"))

    def base_init(I, args, kw, node):
        o = args[0]
        I.setattr_(o, "device", dev)
        I.setattr_(o, "num_solpts", ns)
        I.setattr_(o, "dtype", Opaque("dtype"))
        I.setattr_(o, "solutionPoints", LA(np.array([A.sym(f"xi{i}") for i in range(ns)], dtype=object)))
        I.setattr_(o, "extension", [-1, 1])
        for nm in ("glweights", "solutionPoints_sym", "extension_sym"):
            I.setattr_(o, nm, Opaque(nm))

    dev = Obj(None, "device", {"xp": I.xp})
    param = Obj(None, "param", {"case_number": 0, "depth_approx": "deep"})
    I.hooks["Geometry.__init__"] = base_init
    I.hooks["cart2sph"] = cart2sph
    I.hooks["geometry.sphere.cart2sph"] = cart2sph
    pt = ptopo_obj(panel, n=1, row=0, col=0)
    if dim == 2:
        return I, I.instantiate("geometry.cubed_sphere_2d", "CubedSphere2D", [ne, ns, 0, 0, 0, pt, param, dev])
    return I, I.instantiate("geometry.cubed_sphere_3d", "CubedSphere3D", [ne, nev, ns, 0, 0, 0, A.sym("ztop"), pt, param, dev])


class Grid:
    """which point of a small grid each index of an array refers to, by array shape"""

    def __init__(self, dim, ne, nev, ns):
        self.dim, self.ne, self.nev, self.ns = dim, ne, nev, ns
        e, s, v = ne, ns, nev
        self.maps = {}
        # a point: (x, y, z) with x = ("p", element, point) or ("i", interface)
        P = lambda el, pt: ("p", el, pt)
        F = lambda i: ("i", i)
        blk = lambda i: P(i // s, i % s)
        if dim == 2:
            self.maps[""] = {(e * s, e * s): lambda j, i: (blk(i), blk(j), None),
                             (e, e, s * s): lambda je, ie, q: (P(ie, q % s), P(je, q // s), None)}
            self.maps["_itf_i"] = {(e, e + 2, 2 * s): lambda je, ie, q: (self.face(ie, q // s), P(je, q % s), None),
                                   (e + 1, e * s): lambda i, j: (F(i), blk(j), None)}
            self.maps["_itf_j"] = {(e + 2, e, 2 * s): lambda je, ie, q: (P(ie, q % s), self.face(je, q // s), None),
                                   (e + 1, e * s): lambda j, i: (blk(i), F(j), None)}
        else:
            n2 = s * s
            self.maps[""] = {(v * s, e * s, e * s): lambda k, j, i: (blk(i), blk(j), blk(k)),
                             (v, e, e, s ** 3): lambda ke, je, ie, q: (P(ie, q % s), P(je, q // s % s), P(ke, q // n2)),
                             (e * s, e * s): lambda j, i: (blk(i), blk(j), None),
                             (e, e, s * s): lambda je, ie, q: (P(ie, q % s), P(je, q // s), None)}
            self.maps["_itf_i"] = {(v, e, e + 2, 2 * n2): lambda ke, je, ie, q: (self.face(ie, q // n2), P(je, q % s), P(ke, q % n2 // s)),
                                   (v * s, e * s, e + 1): lambda k, j, i: (F(i), blk(j), blk(k)),
                                   (e, e + 2, 2 * s): lambda je, ie, q: (self.face(ie, q // s), P(je, q % s), None),
                                   (e + 1, e * s): lambda i, j: (F(i), blk(j), None),
                                   (e * s, e + 1): lambda j, i: (F(i), blk(j), None)}
            self.maps["_itf_j"] = {(v, e + 2, e, 2 * n2): lambda ke, je, ie, q: (P(ie, q % s), self.face(je, q // n2), P(ke, q % n2 // s)),
                                   (v * s, e + 1, e * s): lambda k, j, i: (blk(i), F(j), blk(k)),
                                   (e + 2, e, 2 * s): lambda je, ie, q: (P(ie, q % s), self.face(je, q // s), None),
                                   (e + 1, e * s): lambda j, i: (blk(i), F(j), None)}
            self.maps["_itf_k"] = {(v + 2, e, e, 2 * n2): lambda ke, je, ie, q: (P(ie, q % s), P(je, q % n2 // s), self.face(ke, q // n2, v)),
                                   (v + 1, e * s, e * s): lambda k, j, i: (blk(i), blk(j), F(k))}

    def face(self, elem, side, n=None):
        """interface on the given side of element `elem` (counting the halo element 0); None for the far side of a halo element"""
        n = self.ne if n is None else n
        i = elem - 1 + side
        return ("i", i) if 0 <= i <= n else None

    def point(self, sfx, shape):
        return self.maps.get(sfx, {}).get(tuple(shape))

    def coord(self, c, n, lo, hi):
        d = (hi - lo) / n
        if c[0] == "i":
            return lo + d * c[1]
        return lo + d * (c[1] + (1 + A.sym(f"xi{c[2]}")) / 2)

    def x(self, c):
        pi = A.sym("pi")
        return self.coord(c, self.ne, -pi / 4, pi / 4)

    def eta(self, c):
        return self.coord(c, self.nev, A.to_expr(0), A.to_expr(1))


VEC_NAMES = {"radians": "radians", "coordVec_num": "radians", "coordVec": "radians", "gnomonic": "gnom", "coordVec_gnom": "gnom", "gnom": "gnom", "cart": "cart",
             "coordVec_cart": "cart", "polar": "polar", "coordVec_latlon": "polar"}
SCAL_NAMES = {"X": 0, "Y": 1, "delta2": 2, "delta": 3, "height": 4, "x3": 4, "eta": 5, "lon": 6, "lat": 7, "coslon": 8, "sinlon": 9, "coslat": 10, "sinlat": 11,
              "block_lon": 6, "block_lat": 7, "radians_x1": 12, "block_radians_x1": 12, "block_radians_x2": 13}


def split_name(nm):
    base = nm
    for v in ("_new", "_block"):
        base = base.replace(v, "")
    for s in ("_itf_i", "_itf_j", "_itf_k"):
        if base.endswith(s):
            return base[: -len(s)], s
    return base, ""


def check_positions(p, rep, rid, dim):
    """every index of every coordinate array holds the coordinates of the point that index stands for"""
    import mpmath as mp
    from .pit import Point, close
    ne, nev, ns = 2, 3, 2
    I, g = geometry_obj(p, dim, ne, nev, ns)
    rep.analysed |= I.analysed
    G = Grid(dim, ne, nev, ns)
    pt = Point(7, {"xi0": mp.mpf("-0.43"), "xi1": mp.mpf("0.61"), "ztop": mp.mpf(30000)})
    R = pt(A.to_expr(I.as_expr(g.attrs["earth_radius"])))
    where = f"wx_factory/geometry/cubed_sphere_{dim}d.py"
    n = 0
    for nm, v in g.attrs.items():
        if not isinstance(v, LA):
            continue
        base, sfx = split_name(nm)
        kind = VEC_NAMES.get(base)
        sc = SCAL_NAMES.get(base)
        if kind is None and sc is None:
            continue
        shape = v.a.shape[1:] if kind else v.a.shape
        f = G.point(sfx, shape)
        if f is None:
            continue
        bad = None
        for idx in np.ndindex(*shape):
            c = f(*idx)
            if c[0] is None or c[1] is None or (dim == 3 and c[2] is None and len(shape) == (4 if kind else 4)):
                continue  # outer side of a halo element
            x, y = pt(G.x(c[0])), pt(G.x(c[1]))
            eta = pt(G.eta(c[2])) if c[2] is not None else None
            z = eta * pt.value("ztop") if eta is not None else mp.mpf(0)
            X, Y = mp.tan(x), mp.tan(y)
            d = mp.sqrt(1 + X * X + Y * Y)
            r = R + z
            want = {"radians": (x, y, eta), "gnom": (X, Y, z), "cart": (r / d, r * X / d, r * Y / d)}.get(kind)
            get = (lambda i: v.a[(i,) + idx])
            if kind == "polar":
                lon, lat = get(0), get(1)
                ok = angle_is(pt, lon, x=r / d, y=r * X / d, z=r * Y / d, what="lon_of") and angle_is(pt, lat, x=r / d, y=r * X / d, z=r * Y / d, what="lat_of")
                got = None
            elif kind:
                m = v.a.shape[0]
                got = [val(pt, get(i)) for i in range(m)]
                ok = all(g_ is not None and close(g_, w, 1e3 if kind != "radians" else 1, 30) for g_, w in zip(got, want) if w is not None)
            else:
                e = v.a[idx]
                if sc in (6, 7):
                    ok = angle_is(pt, e, x=r / d, y=r * X / d, z=r * Y / d, what="lon_of" if sc == 6 else "lat_of", homogeneous=True)
                    got = None
                elif sc in (8, 9, 10, 11):
                    ok = trig_is(pt, e, (r / d, r * X / d, r * Y / d), sc)
                    got = None
                else:
                    got = val(pt, e)
                    w = {0: X, 1: Y, 2: d * d, 3: d, 4: z, 5: eta, 12: x, 13: y}[sc]
                    ok = w is None or (got is not None and close(got, w, 1e4 if sc == 4 else 1, 30))
            if not ok:
                bad = f"index {idx}: not the value at the point (x1 {name_of(c[0])}, x2 {name_of(c[1])}" + (f", vertical {name_of(c[2])})" if c[2] is not None else ")")
                break
        n += 1
        rep.check(bad is None, rid, f"{dim}D {nm} by index", bad, where)
    return n


def name_of(c):
    return f"interface {c[1]}" if c[0] == "i" else f"element {c[1]} point {c[2]}"


def val(pt, e):
    try:
        return pt(A.to_expr(e))
    except (TypeError, AnalysisError):
        return None


def angle_is(pt, e, x, y, z, what, homogeneous=True):
    """e is lon_of/lat_of of a vector parallel to (x, y, z)"""
    from .pit import close
    if isinstance(e, (_Undef, Label)):
        return False
    a = A.to_expr(e).as_atom()
    if a is None or a.kind != what:
        return False
    got = [pt(t) for t in a.args]
    import mpmath as mp
    n1, n2 = mp.sqrt(sum(t * t for t in got)), mp.sqrt(x * x + y * y + z * z)
    return all(close(g / n1, w / n2, 1, 30) for g, w in zip(got, (x, y, z)))


def trig_is(pt, e, vec, sc):
    if isinstance(e, (_Undef, Label)):
        return False
    a = A.to_expr(e).as_atom()
    if a is None or a.kind != ("cos" if sc in (8, 10) else "sin"):
        return False
    return angle_is(pt, a.args[0], *vec, "lon_of" if sc in (8, 9) else "lat_of")


def check_cubed_sphere(p, rep, rid):
    n = 0
    for dim in (2, 3):
        try:
            n += check_positions(p, rep, rid, dim)
            n += check_functions(p, rep, rid, dim)
        except (ArrayError, RaiseOutcome) as e:
            rep.bad(rid, f"{dim}D construction", f"the geometry of a tile of 2x2 elements cannot be built: {e}", f"wx_factory/geometry/cubed_sphere_{dim}d.py")
    return n


def check_functions(p, rep, rid, dim):
    """the layout conversions applied to arrays of labels"""
    ne, nev, ns = 2, 3, 2
    I, g = geometry_obj(p, dim, ne, nev, ns)
    G = Grid(dim, ne, nev, ns)
    mod, cls = (f"geometry.cubed_sphere_{dim}d", f"CubedSphere{dim}D")
    n = 0
    e, s, v = ne, ns, nev
    where = f"wx_factory/geometry/cubed_sphere_{dim}d.py"

    def lab(sfx, shape, lead, flat=False):
        f = G.point(sfx, shape)
        r = np.empty(lead + shape, dtype=object)
        for i in np.ndindex(*r.shape):
            c = f(*i[len(lead):])
            r[i] = None if c[0] is None or c[1] is None or (len(shape) == 4 and c[2] is None) else Label((i[: len(lead)],) + c)
        return r

    if dim == 2:
        blk, new = (e * s, e * s), (e, e, s * s)
        jobs = [("_to_new", "", blk, new, [(), (3,)]), ("to_single_block", "", new, blk, [(), (3,)]),
                ("_to_new_itf_i", "_itf_i", (e + 1, e * s), (e, e + 2, 2 * s), [(), (2,)]), ("_to_new_itf_j", "_itf_j", (e + 1, e * s), (e + 2, e, 2 * s), [(), (2,)])]
    else:
        blk, new = (v * s, e * s, e * s), (v, e, e, s ** 3)
        jobs = [("_to_new", "", blk, new, [(), (5,)]), ("to_single_block", "", new, blk, [(), (5,)]),
                ("_to_new_itf_i", "_itf_i", (v * s, e * s, e + 1), (v, e, e + 2, 2 * s * s), [(), (3,), (3, 3)]),
                ("_to_new_itf_j", "_itf_j", (v * s, e + 1, e * s), (v, e + 2, e, 2 * s * s), [(), (3,), (3, 3)]),
                ("_to_new_itf_k", "_itf_k", (v + 1, e * s, e * s), (v + 2, e, e, 2 * s * s), [(), (3,), (3, 3)]),
                ("to_new_floor", "", (e * s, e * s), (e, e, s * s), [()]),
                ("to_new_itf_i_floor", "_itf_i", (e * s, e + 1), (e, e + 2, 2 * s), [()]),
                ("to_new_itf_j_floor", "_itf_j", (e + 1, e * s), (e + 2, e, 2 * s), [()])]
    for name, sfx, a, b, leads in jobs:
        for lead in leads:
            src = lab(sfx, a, lead)
            try:
                m = I.getattr_(g, name, None)
                if isinstance(m, Opaque):
                    continue
                out = I.call(m, [LA(src.copy())], {}, None)
            except (ArrayError, RaiseOutcome) as ex:
                rep.bad(rid, f"{dim}D {name}{list(lead) if lead else ''}", f"fails on an array of the expected shape {lead + a}: {ex}", where)
                continue
            msg = same_layout(out.a if isinstance(out, LA) else out, lab(sfx, b, lead))
            rep.check(msg is None, rid, f"{dim}D {name}{list(lead) if lead else ''}", f"a value does not stay with its point: {msg}", where)
            n += 1
    if dim == 3:
        # floor <-> bulk
        for name, inp, outp, drop in (("get_floor", ("", new), ("", (e, e, s * s)), True), ("get_itf_i_floor", ("_itf_i", (v, e, e + 2, 2 * s * s)), ("_itf_i", (e, e + 2, 2 * s)), True),
                                      ("get_itf_j_floor", ("_itf_j", (v, e + 2, e, 2 * s * s)), ("_itf_j", (e + 2, e, 2 * s)), True),
                                      ("floor_to_bulk", ("", (e, e, s * s)), ("", new), False), ("floor_i_to_bulk", ("_itf_i", (e, e + 2, 2 * s)), ("_itf_i", (v, e, e + 2, 2 * s * s)), False),
                                      ("floor_j_to_bulk", ("_itf_j", (e + 2, e, 2 * s)), ("_itf_j", (v, e + 2, e, 2 * s * s)), False),
                                      ("floor_to_bulk/k", ("", (e, e, s * s)), ("_itf_k", (v + 2, e, e, 2 * s * s)), False)):
            m = I.getattr_(g, name.split("/")[0], None)
            if isinstance(m, Opaque):
                continue

            def mk(sfx, shape, floor):
                f = G.point(sfx, shape)
                r = np.empty(shape, dtype=object)
                for i in np.ndindex(*shape):
                    c = f(*i)
                    r[i] = None if c[0] is None or c[1] is None else Label((c[0], c[1]) if not floor else c)
                return r
            src = mk(*inp, drop)
            want = mk(*outp, False)
            if drop:
                for i in np.ndindex(*want.shape):
                    if want[i] is not None:
                        c = want[i].name
                        want[i] = Label((c[0], c[1], ("p", 0, 0)))
            kw = {"k_itf": True} if name.endswith("/k") else {}
            try:
                out = I.call(m, [LA(src)], kw, None)
            except (ArrayError, RaiseOutcome) as ex:
                rep.bad(rid, f"3D {name}", f"fails on an array of the expected shape: {ex}", where)
                continue
            msg = same_layout(out.a if isinstance(out, LA) else out, want)
            rep.check(msg is None, rid, f"3D {name}", f"a value does not stay with its point: {msg}", where)
            n += 1
    return n
