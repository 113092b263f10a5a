"""C14: wind conversions."""
from __future__ import annotations

import mpmath as mp

from .. import algebra as A
from .. import geo
from ..algebra import sym
from ..interp import Obj, Opaque, RaiseOutcome
from ..par import pmap
from ..pit import Point, close
from ..project import AnalysisError
from .c13 import direction, rotation_matrix, ROT, scalar, values


def frame(panel, R, x1, x2):
    """unit position, d/dx1, d/dx2, east, north at a point"""
    X, Y = mp.tan(x1), mp.tan(x2)
    c = ROT[panel]
    d = mp.sqrt(1 + X * X + Y * Y)

    def rot(v):
        return [sum(R[i][j] * v[j] for j in range(3)) for i in range(3)]

    num = [c[0][i] + X * c[1][i] + Y * c[2][i] for i in range(3)]
    n = rot([t / d for t in num])
    d1 = rot([(1 + X * X) * (c[1][i] / d - num[i] * X / d**3) for i in range(3)])
    d2 = rot([(1 + Y * Y) * (c[2][i] / d - num[i] * Y / d**3) for i in range(3)])
    h = mp.sqrt(n[0] ** 2 + n[1] ** 2)
    east = [-n[1] / h, n[0] / h, mp.mpf(0)]
    north = [-n[2] * n[0] / h, -n[2] * n[1] / h, h]
    return n, d1, d2, east, north


def metric_obj():
    a = {}
    for base, tag in (("h_cov", "K"), ("h_contra", "H")):
        m = [[sym(f"{tag}{min(i, j)}{max(i, j)}") for j in range(3)] for i in range(3)]
        for nm in (base, base + "_new", base.upper()[0] + base[1:], base + "_block"):
            a[nm] = m
    for nm in ("inv_dzdeta", "inv_dzdeta_new", "inv_dzdeta_block"):
        a[nm] = sym("invz")
    return Obj(None, "metric", a)


def run(p, rep, tier):
    rep.explanation = ("Every wind conversion is interpreted at one generic grid point with symbolic wind components, for each panel and symbolic rotation; the extracted "
                       "formulas are compared with the components of the same geometric vector and composed with their inverses (identity test with 60 digits).")
    rep.assumptions += ["points other than the geographic poles (longitude is undefined there)", "the metric handed to the 3-D conversions is that of the grid (C12)"]
    r1 = rep.rule("same-vector", "contravariant components denote the vector with the given zonal and meridional components", 40)
    r2 = rep.rule("inverse", "converting to contravariant components and back is the identity", 40)
    r3 = rep.rule("vertical", "the vertical wind is the radial component of the vector (level terrain)", 20)
    r4 = rep.rule("terrain", "over sloping terrain the contravariant components still denote the given vector", 4)
    r5 = rep.rule("terrain-back", "over sloping terrain the winds recovered from contravariant components are those of the vector they denote", 4)
    tasks = [(dim, deep, panel, rot) for (dim, deep) in ((3, True), (3, False), (2, False)) for rot in ("generic", "zero") for panel in (1, 3, 4, 5, 0, 2)
             if tier == "thorough" or dim == 2 or not (rot == "zero" and panel in (1, 2, 3))]
    pmap(lambda t: one(p, rep, tier, (r1, r2, r3, r4, r5), *t), tasks, rep)


def functions(p, I, g, dim):
    """[(label, to-contra callable, to-wind callable, needs metric)]"""
    out = []

    def meth(nm):
        m = I.getattr_(g, nm, None)
        return None if isinstance(m, Opaque) else m

    def fn(nm):
        try:
            return I.global_lookup("geometry.winds", nm)
        except (AnalysisError, KeyError):
            return None

    call = lambda f, *pre: (lambda *a: I.call(f, list(a) + list(pre), {}, None))
    if dim == 2:
        w, c = meth("wind2contra"), meth("contra2wind")
        if w and c:
            out.append(("CubedSphere2D.wind2contra/contra2wind", call(w), call(c), False))
    else:
        w, c = meth("wind2contra_2d"), meth("contra2wind_2d")
        if w and c:
            out.append(("CubedSphere3D.wind2contra_2d/contra2wind_2d", call(w), call(c), False))
        M = metric_obj()
        w, c = meth("wind2contra"), meth("contra2wind_3d") or meth("contra2wind")
        if w and c:
            out.append(("CubedSphere3D.wind2contra/contra2wind_3d", call(w, M), call(c, M), True))
        w, c = fn("wind2contra_2d"), fn("contra2wind_2d")
        if w and c:
            out.append(("winds.wind2contra_2d/contra2wind_2d", call(w, g), call(c, g), False))
        w, c = fn("wind2contra_3d"), fn("contra2wind_3d")
        if w and c:
            out.append(("winds.wind2contra_3d/contra2wind_3d", call(w, g, M), call(c, g, M), True))
    return out


def one(p, rep, tier, rules, dim, deep, panel, rot):
    r1, r2, r3, r4, r5 = rules
    I, g = geo.build(p, dim, panel, rot, deep=deep)
    # the legacy block functions are written for the flattened layout; pointwise they are the same formulas
    tag = f"{dim}D{' deep' if deep else ' shallow' if dim == 3 else ''} panel {panel}" + ("" if rot == "generic" else " (no tilt)")
    where = "wx_factory/geometry/" + ("cubed_sphere_2d.py" if dim == 2 else "cubed_sphere_3d.py")
    fns = functions(p, I, g, dim)
    if not fns:
        raise AnalysisError("anchor vanished: wind conversion functions")
    npts = 2 if tier == "quick" else 5
    for label, to_c, to_w, three in fns:
        w = where if label.startswith("Cubed") else "wx_factory/geometry/winds.py"
        a = [sym("wu"), sym("wv")] + ([sym("ww")] if three else [])
        b = [sym("c1"), sym("c2")] + ([sym("c3")] if three else [])
        try:
            con = [scalar(I, x) for x in to_c(*a)]
            win = [scalar(I, x) for x in to_w(*b)]
        except RaiseOutcome as e:
            rep.bad(r1, f"{label}, {tag}", f"the conversion raises {e.val!r}", w)
            continue
        for s in range(npts):
            base = Point(s, values(f"w{s}"))
            R = rotation_matrix(base, rot == "zero")
            x1, x2 = base(scalar(I, g.attrs["x1"])), base(scalar(I, g.attrs["x2"]))
            n, d1, d2, east, north = frame(panel, R, x1, x2)
            radius = base(scalar(I, g.attrs["earth_radius"]))
            if dim == 3 and deep:
                v = g.attrs.get("gnomonic", g.attrs.get("coordVec_gnom"))
                radius += base(scalar(I, I.getitem(v, 2, None)))
            sc = [base(scalar(I, g.attrs[k])) for k in ("delta_x1", "delta_x2")]
            for slopes in ((mp.mpf(0), mp.mpf(0)), (mp.mpf("0.3") * radius * sc[0] / 2, mp.mpf("-0.45") * radius * sc[1] / 2)) if three else ((mp.mpf(0), mp.mpf(0)),):
                flat = slopes[0] == 0
                pt = base.at()
                z = mp.mpf("517.7")
                g1 = [radius * q * sc[0] / 2 + slopes[0] * m for q, m in zip(d1, n)]
                g2 = [radius * q * sc[1] / 2 + slopes[1] * m for q, m in zip(d2, n)]
                g3 = [z * m for m in n]
                G = [g1, g2, g3]
                K = mp.matrix(3, 3)
                for i in range(3):
                    for j in range(3):
                        K[i, j] = sum(x * y for x, y in zip(G[i], G[j]))
                H = K ** -1
                for i in range(3):
                    for j in range(i, 3):
                        pt.values[f"K{i}{j}"] = K[i, j]
                        pt.values[f"H{i}{j}"] = H[i, j]
                pt.values["invz"] = 1 / z
                pt.values.update({"wu": mp.mpf("7.31"), "wv": mp.mpf("-4.77"), "ww": mp.mpf("2.13")})
                u, v_ = pt.values["wu"], pt.values["wv"]
                ww = pt.values["ww"] if three else mp.mpf(0)
                V = [u * q + v_ * m + ww * k for q, m, k in zip(east, north, n)]
                got = [pt(x) for x in con]
                if not three:
                    got3 = got + [mp.mpf(0)]
                else:
                    got3 = got
                W = [sum(got3[i] * G[i][k] for i in range(3)) for k in range(3)]
                scale = mp.mpf(10)
                same = all(close(x, y, scale, 30) for x, y in zip(W, V))
                back = pt.at(**{f"c{i+1}": got[i] for i in range(len(got))})
                res = [back(x) for x in win]
                want = [u, v_] + ([ww] if three else [])
                inv = all(close(x, y, scale, 30) for x, y in zip(res, want))
                # and the other way round
                pt2 = pt.at(c1=mp.mpf("1e-6"), c2=mp.mpf("-2e-6"), c3=mp.mpf("3e-4"))
                r = [pt2(x) for x in win]
                fw = pt2.at(wu=r[0], wv=r[1], **({"ww": r[2]} if three else {}))
                again = [fw(x) for x in con]
                inv2 = all(close(x, y, mp.mpf("1e-6"), 30) for x, y in zip(again, [pt2.values[f"c{i+1}"] for i in range(len(again))]))
                if flat:
                    # horizontal part
                    Wh = [sum(got3[i] * G[i][k] for i in range(2)) for k in range(3)]
                    Vh = [u * q + v_ * m for q, m in zip(east, north)]
                    rep.check(all(close(x, y, scale, 30) for x, y in zip(Wh, Vh)), r1, f"{label}, {tag}", "the contravariant components are not those of the given zonal/meridional wind", w)
                    rep.check(inv and inv2, r2, f"{label}, {tag}", f"wind ({', '.join(mp.nstr(x, 6) for x in want)}) comes back as ({', '.join(mp.nstr(x, 6) for x in res)})", w)
                    if three:
                        rep.check(same, r3, f"{label}, {tag}", "the vertical component is not the radial part of the vector", w)
                else:
                    rep.check(same, r4, label, f"with terrain slopes, the components computed for wind ({', '.join(mp.nstr(x, 6) for x in want)}) denote a different vector", w)
                    U = [sum(pt2.values[f"c{i+1}"] * G[i][k] for i in range(3)) for k in range(3)]
                    want2 = [sum(x * y for x, y in zip(U, e)) for e in (east, north, n)]
                    rep.check(all(close(x, y, mp.mpf(1), 30) for x, y in zip(r, want2)), r5, label, "with terrain slopes, the recovered winds are not those of the vector the components denote", w)
    rep.analysed |= I.analysed
