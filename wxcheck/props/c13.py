"""C13: the panels tile the sphere."""
from __future__ import annotations

import mpmath as mp

from .. import geo, layout
from ..interp import NDA
from ..par import pmap
from ..pit import Point, close
from ..project import AnalysisError

ROT = {  # canonical faces: columns = centre, X axis, Y axis
    0: [(1, 0, 0), (0, 1, 0), (0, 0, 1)],
    1: [(0, 1, 0), (-1, 0, 0), (0, 0, 1)],
    2: [(-1, 0, 0), (0, -1, 0), (0, 0, 1)],
    3: [(0, -1, 0), (1, 0, 0), (0, 0, 1)],
    4: [(0, 0, 1), (0, 1, 0), (-1, 0, 0)],
    5: [(0, 0, -1), (0, 1, 0), (1, 0, 0)],
}


def values(seed):
    import hashlib

    def h(name):
        return mp.mpf(int(hashlib.sha256(f"{seed}/{name}".encode()).hexdigest(), 16)) / mp.mpf(16) ** 64

    v = {"nline": mp.mpf(3), "ne": mp.mpf(5), "nev": mp.mpf(4), "ns": mp.mpf(4), "ztop": mp.mpf(30000)}
    v.update({"col": 2 * h("col"), "row": 2 * h("row"), "e": 4 * h("e"), "b": 3 * h("b"), "xi": 2 * h("xi") - 1})
    v.update({"lambda0": -h("l") * mp.mpf("1.5"), "phi0": (2 * h("p") - 1) * mp.mpf("0.75"), "alpha0": -h("a") * mp.mpf("1.5")})
    return v


def rotation_matrix(pt, zero):
    lam = pt.value("lambda0")
    phi, alp = (mp.mpf(0), mp.mpf(0)) if zero else (pt.value("phi0"), pt.value("alpha0"))
    cl, sl, cp, sp, ca, sa = mp.cos(lam), mp.sin(lam), mp.cos(phi), mp.sin(phi), mp.cos(alp), mp.sin(alp)
    centre = (cp * cl, cp * sl, sp)
    east = (-sl, cl, mp.mpf(0))
    north = (-sp * cl, -sp * sl, cp)
    Y = [ca * n + sa * e for n, e in zip(north, east)]
    X = [ca * e - sa * n for n, e in zip(north, east)]
    # columns are the images of the x, y and z axes of the unrotated cube
    return [[centre[i], X[i], Y[i]] for i in range(3)]


def direction(panel, R, X, Y):
    c = ROT[panel]
    d = mp.sqrt(1 + X * X + Y * Y)
    loc = [(c[0][i] + X * c[1][i] + Y * c[2][i]) / d for i in range(3)]
    return [sum(R[i][j] * loc[j] for j in range(3)) for i in range(3)]


def comps(I, v, n):
    out = []
    for i in range(n):
        x = I.getitem(v, i, None)
        if isinstance(x, NDA):
            x = x.base if not x.cells else None
        if x is None or not I.is_alg(x):
            raise AnalysisError(f"component {i} of a coordinate vector is not algebraic: {x!r}"[:160])
        out.append(I.as_expr(x))
    return out


def scalar(I, v):
    if isinstance(v, NDA) and not v.cells:
        v = v.base
    return I.as_expr(v)


# (kind, attribute names) at each location; x = location of the point
LOCS = {
    "": ["x1", "x2", "eta"],
    "_itf_i": ["x1_itf_i", "x2_itf_i", "eta_itf_i"],
    "_itf_j": ["x1_itf_j", "x2_itf_j", "eta_itf_j"],
    "_itf_k": ["x1_itf_k", "x2_itf_k", "eta_itf_k"],
}
VECS = {
    "radians": ["radians", "coordVec_num", "coordVec"],
    "gnom": ["coordVec_gnom", "gnomonic", "gnom"],
    "cart": ["cart", "coordVec_cart"],
    "polar": ["polar", "coordVec_latlon"],
}


def run(p, rep, tier):
    rep.explanation = ("The geometry constructors are interpreted at one generic grid point, for each panel, symbolic process grid, element grid and rotation angles; "
                       "the closed formulas of all coordinate attributes are extracted and compared with the exact cube-face projection (identity test with 60 digits). "
                       "Memory-layout conversions are interpreted on arrays of labels.")
    rep.assumptions += ["element-wise numpy functions act point by point; solution points lie in ]-1, 1["]
    r1 = rep.rule("one-cube", "the position of every point is the rigidly rotated gnomonic projection of its panel coordinates", 90)
    r2 = rep.rule("tiling", "tiles and elements partition [-pi/4, pi/4] (and the vertical extent) without gap or overlap", 60)
    r3 = rep.rule("same-point", "angular, gnomonic, polar coordinates and their trigonometric functions describe the point given by x1, x2 (and height)", 300)
    r4 = rep.rule("sphere-conversions", "longitude/latitude and Cartesian conversions are inverse to each other, longitude in [0, 2 pi[", 8)
    r5 = rep.rule("layout", "layout conversions keep every point's value with the element and the position it belongs to", 10)
    tasks = [(dim, panel, rot) for dim in (3, 2) for rot in ("generic", "zero") for panel in (1, 3, 4, 5, 0, 2)]
    pmap(lambda t: one(p, rep, tier, (r1, r2, r3), *t), tasks, rep)
    conversions(p, rep, r4)
    layout.check_cubed_sphere(p, rep, r5)


def element_var(I, exprs):
    names = set()
    for e in exprs:
        for a in e.atoms(deep=True):
            if a.kind == "fld":
                names.add(str(a.args[0]).split("[")[0])
    return "b" if "b" in names and "e" not in names else "e"


def one(p, rep, tier, rules, dim, panel, rot):
    r1, r2, r3 = rules
    I, g = geo.build(p, dim, panel, rot)
    rep.analysed |= I.analysed
    tag = f"{dim}D panel {panel}" + ("" if rot == "generic" else " (no tilt)")
    pts = [Point(s, values(f"{s}")) for s in range(2 if tier == "quick" else 6)]
    at = g.attrs
    where = "wx_factory/geometry/cubed_sphere_%dd.py" % dim
    X1 = {}
    for sfx, (n1, n2, n3) in LOCS.items():
        if n1 in at and n2 in at and (sfx != "_itf_k" or dim == 3):
            X1[sfx] = (scalar(I, at[n1]), scalar(I, at[n2]), scalar(I, at[n3]) if dim == 3 and n3 in at else None)
    need = ["", "_itf_i", "_itf_j"] + (["_itf_k"] if dim == 3 else [])
    for sfx in need:
        if sfx not in X1:
            raise AnalysisError(f"anchor vanished: {dim}D geometry coordinates x1{sfx}, x2{sfx}")
    radius = scalar(I, at["earth_radius"])

    # --- tiling
    for pt in pts:
        q = mp.pi / 4
        for axis, var, iface in ((0, "col", "_itf_i"), (1, "row", "_itf_j")):
            inner, edge = X1[""][axis], X1[iface][axis]
            ev = element_var(I, [inner])
            nl, ne = pt.value("nline"), pt.value("ne")
            first = pt.at(**{var: mp.mpf(0), "b": mp.mpf(0)})(edge)
            last = pt.at(**{var: nl - 1, "b": ne})(edge)
            rep.check(close(first, -q) and close(last, q), r2, f"{tag}: extent of x{axis+1}", f"interfaces run from {mp.nstr(first, 8)} to {mp.nstr(last, 8)}, expected -pi/4 to pi/4", where)
            a = pt.at(**{var: mp.mpf(1), "b": ne})(edge)
            b = pt.at(**{var: mp.mpf(2), "b": mp.mpf(0)})(edge)
            rep.check(close(a, b), r2, f"{tag}: tiles adjacent in x{axis+1}", f"a tile ends at {mp.nstr(a, 8)} and the next starts at {mp.nstr(b, 8)}", where)
            k = mp.mpf(2)
            ok = all(close(pt.at(**{ev: k, "xi": x})(inner), pt.at(b=k + (x + 1) / 2)(edge)) for x in (mp.mpf(-1), mp.mpf(0), mp.mpf(1), mp.mpf("0.3")))
            rep.check(ok, r2, f"{tag}: elements in x{axis+1}", "the solution points of an element do not span the interval between its interfaces", where)
            # the coordinate along the interface is the interior coordinate
            other = "_itf_j" if axis == 0 else "_itf_i"
            same = [other] + (["_itf_k"] if dim == 3 else [])
            for s in same:
                rep.check(close(pt(X1[s][axis]), pt(inner)), r2, f"{tag}: x{axis+1}{s}", "the coordinate along an interface differs from that of the interior points", where)
        if dim == 3:
            inner, edge = X1[""][2], X1["_itf_k"][2]
            ev = element_var(I, [inner])
            nev = pt.value("nev")
            lo, hi = pt.at(b=mp.mpf(0))(edge), pt.at(b=nev)(edge)
            ok = close(lo, 0) and close(hi, 1) and all(close(pt.at(**{ev: mp.mpf(2), "xi": x})(inner), pt.at(b=2 + (x + 1) / 2)(edge)) for x in (mp.mpf(-1), mp.mpf(1), mp.mpf("0.3")))
            rep.check(ok, r2, f"{tag}: vertical elements", "the vertical coordinate does not run from 0 to 1 through its elements", where)
            for s in ("_itf_i", "_itf_j"):
                rep.check(close(pt(X1[s][2]), pt(inner)), r2, f"{tag}: eta{s}", "the vertical coordinate at horizontal interfaces differs from the interior", where)
        dx = [pt(scalar(I, at[n])) for n in ("delta_x1", "delta_x2")]
        want = mp.pi / 2 / (pt.value("nline") * pt.value("ne"))
        rep.check(close(dx[0], want) and close(dx[1], want), r2, f"{tag}: element size", "delta_x1/delta_x2 are not the extent of an element", where)

    # --- positions
    n = 3 if dim == 3 else 2
    for pt in pts:
        R = rotation_matrix(pt, rot == "zero")
        for sfx, (e1, e2, e3) in X1.items():
            x, y = pt(e1), pt(e2)
            X, Y = mp.tan(x), mp.tan(y)
            u = direction(panel, R, X, Y)
            height = None
            if dim == 3:
                for nm in ("gnomonic", "coordVec_gnom"):
                    if nm + sfx in at:
                        height = pt(comps(I, at[nm + sfx], 3)[2])
                        break
                zname = "x3" + sfx
                if height is None:
                    raise AnalysisError(f"anchor vanished: height of the points ({zname})")
                # flat bottom: the height is the vertical coordinate times the depth of the domain
                rep.check(close(height, pt(e3) * pt.value("ztop"), pt.value("ztop")), r3, f"{tag}: height{sfx}", "the height of a point is not eta * ztop over a flat bottom", where)
                if zname in at:
                    rep.check(close(pt(scalar(I, at[zname])), height, 1e5), r3, f"{tag}: {zname}", "x3 differs from the height of the gnomonic coordinates", where)
            rr = pt(radius) + (height if height is not None else 0)
            pos = [rr * c for c in u]
            found = 0
            for kind, names in VECS.items():
                for nm in names:
                    full = nm + sfx
                    if full not in at or at[full] is None:
                        continue
                    v = at[full]
                    if kind == "cart":
                        got = [pt(c) for c in comps(I, v, 3)]
                        ok = all(close(a, b, rr) for a, b in zip(got, pos))
                        found += 1
                        rep.check(ok, r1, f"{tag}: {full}", f"Cartesian position ({', '.join(mp.nstr(c / rr, 8) for c in got)})*r, expected ({', '.join(mp.nstr(c, 8) for c in u)})*r", where)
                    elif kind == "polar":
                        c = comps(I, v, n)
                        lon, lat = pt(c[0]), pt(c[1])
                        ok = close(mp.cos(lat) * mp.cos(lon), u[0]) and close(mp.cos(lat) * mp.sin(lon), u[1]) and close(mp.sin(lat), u[2]) and abs(lat) <= mp.pi / 2
                        rep.check(ok, r1, f"{tag}: {full}", f"longitude {mp.nstr(lon, 8)}, latitude {mp.nstr(lat, 8)} is not the position of the point", where)
                        if dim == 3:
                            rep.check(close(pt(c[2]), height, 1e5), r3, f"{tag}: {full} height", "the vertical polar coordinate is not the height", where)
                        found += 1
                    elif kind == "gnom":
                        c = [pt(z) for z in comps(I, v, n)]
                        ok = close(c[0], X) and close(c[1], Y) and (dim == 2 or close(c[2], height, 1e5))
                        rep.check(ok, r3, f"{tag}: {full}", "gnomonic coordinates are not (tan x1, tan x2, height)", where)
                    else:
                        c = [pt(z) for z in comps(I, v, n)]
                        ok = close(c[0], x) and close(c[1], y) and (dim == 2 or close(c[2], pt(e3)))
                        rep.check(ok, r3, f"{tag}: {full}", "the angular coordinates are not (x1, x2, eta)", where)
            if not found:
                raise AnalysisError(f"anchor vanished: positions at {sfx or 'interior'} points")
            d2 = 1 + X * X + Y * Y
            lonlat = (("X", X), ("Y", Y), ("delta2", d2), ("delta", mp.sqrt(d2)))
            for base, want in lonlat:
                for v in ("", "_block", "_new"):
                    for full in (base + sfx + v, base + v + sfx):
                        if full in at and I.is_alg(at[full]):
                            rep.check(close(pt(scalar(I, at[full])), want), r3, f"{tag}: {full}", f"{full} does not have the value of its name at the point", where)
                            break
            for base in ("lon", "lat", "coslon", "sinlon", "coslat", "sinlat"):
                for v in ("", "_new", "block_"):
                    full = "block_" + base + sfx if v == "block_" else base + sfx + v
                    if full not in at or not I.is_alg(at[full]):
                        continue
                    got = pt(scalar(I, at[full]))
                    lonc = mp.sqrt(u[0] ** 2 + u[1] ** 2)
                    ok = {"lon": lambda: close(mp.cos(got), u[0] / lonc) and close(mp.sin(got), u[1] / lonc), "lat": lambda: close(mp.sin(got), u[2]) and abs(got) <= mp.pi / 2,
                          "coslon": lambda: close(got, u[0] / lonc), "sinlon": lambda: close(got, u[1] / lonc), "coslat": lambda: close(got, lonc), "sinlat": lambda: close(got, u[2])}[base]()
                    rep.check(ok, r3, f"{tag}: {full}", f"{full} does not have the value of its name at the point", where)


def conversions(p, rep, r4):
    from ..algebra import sym
    I = geo.make_interp(p)
    mod = "geometry.sphere"
    x, y, z = sym("cx"), sym("cy"), sym("cz")
    f1, f2 = I.global_lookup(mod, "cart2sph"), I.global_lookup(mod, "sph2cart")
    sph = I.call(f1, [x, y, z], {}, None)
    back = I.call(f2, list(sph), {}, None)
    az, el, r = sym("az"), sym("el"), sym("rad")
    cart = I.call(f2, [az, el, r], {}, None)
    rep.analysed |= I.analysed
    k = 0
    for sx in (1, -1):
        for sy in (1, -1):
            for sz in (1, -1):
                k += 1
                pt = Point(k, {"cx": sx * mp.mpf("0.37"), "cy": sy * mp.mpf("0.71"), "cz": sz * mp.mpf("0.53")})
                tag = f"octant {sx:+d}{sy:+d}{sz:+d}"
                got = [pt(scalar(I, c)) for c in back]
                lon, lat, rr = [pt(scalar(I, c)) for c in sph]
                ok = all(close(a, pt.value(n)) for a, n in zip(got, ("cx", "cy", "cz")))
                rep.check(ok and 0 <= lon < 2 * mp.pi and abs(lat) <= mp.pi / 2 and close(rr, mp.sqrt(sum(pt.value(n) ** 2 for n in ("cx", "cy", "cz")))), r4, "cart2sph/sph2cart " + tag,
                          f"({sx}, {sy}, {sz}) octant: converted to longitude {mp.nstr(lon, 6)}, latitude {mp.nstr(lat, 6)} and back to ({', '.join(mp.nstr(g, 6) for g in got)})", "wx_factory/geometry/sphere.py")
    pt = Point(1)
    a, e, r_ = pt.value("az"), pt.value("el"), pt.value("rad")
    got = [pt(scalar(I, c)) for c in cart]
    want = (r_ * mp.cos(e) * mp.cos(a), r_ * mp.cos(e) * mp.sin(a), r_ * mp.sin(e))
    rep.check(all(close(x, y) for x, y in zip(got, want)), r4, "sph2cart meaning", "azimuth/elevation do not give the Cartesian point", "wx_factory/geometry/sphere.py")
