"""Abstract construction of the cubed-sphere geometries: the constructors are
interpreted over the pointwise algebraic domain (one generic grid point)."""
from __future__ import annotations

from fractions import Fraction

from . import algebra as A
from .algebra import Expr, sym
from .interp import BASE_HOOKS, ExtRef, Hook, Interp, NDA, Obj, Opaque, fld, NUMPY_HOOKS
from .project import AnalysisError

IDENT_METHODS = [
    "_to_new", "to_single_block", "_to_new_itf_i", "_to_new_itf_j", "_to_new_itf_k", "floor_to_bulk",
    "floor_i_to_bulk", "floor_j_to_bulk", "get_floor", "get_itf_i_floor", "get_itf_j_floor", "to_new_floor",
    "to_new_itf_i_floor", "to_new_itf_j_floor", "middle_itf_i", "middle_itf_j",
]


def loc_id(n):
    return getattr(n, "lineno", 0), getattr(n, "col_offset", 0)


def _ident(i):
    return lambda I, a, k, n: a[i]


def geo_numpy_hooks():
    h = {}

    def linspace(I, a, k, n):
        num = a[2] if len(a) > 2 else k["num"]
        d = I.binop("Sub", a[1], a[0], n)
        w = I.binop("Div", d, I.binop("Sub", num, 1, n), n)
        return I.binop("Add", a[0], I.binop("Mult", w, fld("b"), n), n)

    def meshgrid(I, a, k, n):
        return list(a)

    def hypot(I, a, k, n):
        return A.fsqrt(I.as_expr(a[0]) ** 2 + I.as_expr(a[1]) ** 2)

    table = {
        "linspace": linspace,
        "arange": lambda I, a, k, n: fld("e"),
        "repeat": _ident(0),
        "tile": _ident(0),
        "meshgrid": meshgrid,
        "hypot": hypot,
        "moveaxis": _ident(0), "swapaxes": _ident(0), "transpose": _ident(0), "expand_dims": _ident(0),
        "broadcast_to": _ident(0),
    }
    for nm, f in table.items():
        h["numpy." + nm] = f
        h["cupy." + nm] = f
    def norm(I, a, k, n):
        v = a[0]
        vals = list(v.cells.values()) + ([v.base] if v.base is not None else []) if isinstance(v, NDA) else (v if isinstance(v, list) else [v])
        try:
            es = [I.as_expr(x) for x in vals]
        except TypeError:
            return Opaque(("norm", loc_id(n)))
        if es and all(A.is_zero(x) for x in es):
            return 0
        return Opaque(("norm", tuple(es)))

    h["numpy.linalg.norm"] = norm
    h["numpy.dtype"] = lambda I, a, k, n: Opaque(("dtype",))
    return h


def base_geometry_init(I, args, kw, node):
    o = args[0]
    names = ["num_solpts", "device", "verbose"]
    vals = dict(zip(names, args[1:]))
    vals.update(kw)
    I.setattr_(o, "device", vals.get("device"))
    I.setattr_(o, "num_solpts", vals.get("num_solpts"))
    I.setattr_(o, "dtype", Opaque("dtype"))
    I.setattr_(o, "solutionPoints", fld("xi"))
    I.setattr_(o, "extension", [-1, 1])
    I.setattr_(o, "glweights", fld("glw"))
    I.setattr_(o, "solutionPoints_sym", Opaque("sps"))
    I.setattr_(o, "extension_sym", Opaque("exts"))


def make_interp(p, extra=None, decide=None):
    hooks = dict(geo_numpy_hooks())
    for c in ("CubedSphere2D", "CubedSphere3D"):
        for m in IDENT_METHODS:
            hooks[f"{c}.{m}"] = _ident(1)
    hooks["Geometry.__init__"] = base_geometry_init
    hooks.update(extra or {})
    return Interp(p, hooks, decide=decide)


def device_obj():
    d = Obj(None, "device", {"xp": ExtRef("numpy"), "comm": Obj(None, "comm", {"rank": 0, "size": 6})})
    return d


def ptopo_obj(panel, n=None, row=None, col=None):
    return Obj(None, "ptopo", {
        "my_panel": panel,
        "num_lines_per_panel": n if n is not None else sym("nline"),
        "my_row": row if row is not None else sym("row"),
        "my_col": col if col is not None else sym("col"),
    })


for _s in ("nline", "ne", "nev", "ns"):
    A.POSITIVE.add(sym(_s).as_atom())


def rot_decide(op, a, b):
    """generic grid rotation: phi0 / alpha0 are not within rounding of zero"""
    return None


def build(p, dim, panel, rotation="zero", deep=False, case=None, topo=False):
    """-> (interp, geometry object). rotation: 'zero' (phi0=alpha0=0, lambda0 symbolic) or 'generic'"""
    lam = sym("lambda0")
    phi, alp = (0, 0) if rotation == "zero" else (sym("phi0"), sym("alpha0"))

    def decide(op, a, b):
        if rotation == "generic" and op in ("Lt", "LtE") and isinstance(a, Expr):
            at = a.as_atom()
            if at is not None and at.kind == "abs":
                return False
        if rotation == "generic" and op in ("Gt", "GtE") and isinstance(a, Expr):
            at = a.as_atom()
            if at is not None and at.kind == "abs":
                return True
        return None

    I = make_interp(p, decide=decide)
    dev = device_obj()
    pt = ptopo_obj(panel)
    param = Obj(None, "param", {"case_number": case if case is not None else sym("case_number"), "depth_approx": "deep" if deep else "shallow"})
    if dim == 2:
        g = I.instantiate("geometry.cubed_sphere_2d", "CubedSphere2D", [sym("ne"), sym("ns"), lam, phi, alp, pt, param, dev])
    else:
        param.attrs["case_number"] = case if case is not None else 0
        g = I.instantiate("geometry.cubed_sphere_3d", "CubedSphere3D", [sym("ne"), sym("nev"), sym("ns"), lam, phi, alp, sym("ztop"), pt, param, dev])
    return I, g


def vec(I, v, n=3):
    """components of an abstract (n, ...) array"""
    out = []
    for i in range(n):
        x = I.getitem(v, i, None)
        if isinstance(x, NDA):
            x = x.base
        if x is None or not I.is_alg(x):
            raise AnalysisError(f"component {i} of a coordinate vector is not algebraic: {x!r}")
        out.append(I.as_expr(x))
    return out


def xy_subst(I, g):
    """substitution of tan(x1), tan(x2) by the symbols X, Y"""
    m = {}
    for attr, nm in (("x1", "X"), ("x2", "Y")):
        t = A.ftan(I.as_expr(g.attrs[attr]))
        s = 1
        a = t.as_atom()
        if a is None:
            a = (-t).as_atom()
            s = -1
        if a is None:
            raise AnalysisError(f"cannot identify tan({attr})")
        if a in m:
            raise AnalysisError("x1 and x2 coordinates coincide")
        m[a] = s * sym(nm)
    return m


def panel_map(I, g, attr="cart"):
    """direction of a point of the panel as linear form in (1, X, Y): 3x3 list rows (x,y,z) x cols (1,X,Y), times radius/delta"""
    m = xy_subst(I, g)
    X, Y = sym("X"), sym("Y")
    delta = A.fsqrt(1 + X * X + Y * Y)
    rows = []
    for e in vec(I, g.attrs[attr]):
        e = A.subst(e, m)
        rows.append(e * delta)
    return rows
