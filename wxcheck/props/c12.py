"""C12: metric terms are those of the cubed-sphere coordinates."""
from __future__ import annotations

import hashlib

import mpmath as mp
import numpy as np

from .. import algebra as A
from .. import geo, layout
from ..algebra import Expr, sym
from ..interp import AbsVal, ExtRef, Hook, MISSING, Obj, Opaque, RaiseOutcome
from ..layout import ArrayError, Grid, LA, plain
from ..par import pmap
from ..pit import Point, close
from ..project import AnalysisError
from .c13 import ROT, rotation_matrix, scalar, values
from .c14 import frame

PANELS = (0, 1, 2, 3, 4, 5)


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def dot(a, b):
    return sum(x * y for x, y in zip(a, b))


def second(panel, R, x1, x2):
    """second derivatives of the unit position with respect to x1, x2 (3 x 3 array of vectors, by symmetry 2 x 2)"""
    h = mp.mpf(10) ** -20

    def d(i, a, b):
        return frame(panel, R, a, b)[1 + i]

    out = [[None, None], [None, None]]
    for i in range(2):
        for j in range(2):
            p_ = d(i, x1 + (h if j == 0 else 0), x2 + (h if j == 1 else 0))
            m_ = d(i, x1 - (h if j == 0 else 0), x2 - (h if j == 1 else 0))
            out[i][j] = [(u - v) / (2 * h) for u, v in zip(p_, m_)]
    return out


# ------------------------------------------------------------------ 2-D
def build2(p, ne=2, ns=2):
    I, g = layout.geometry_obj(p, 2, ne, 1, ns)
    G = Grid(2, ne, 1, ns)
    for sfx in ("", "_itf_i", "_itf_j"):
        for nm, f in (("X", lambda X, Y: X), ("Y", lambda X, Y: Y), ("delta2", lambda X, Y: 1 + X * X + Y * Y), ("delta", lambda X, Y: A.fsqrt(1 + X * X + Y * Y))):
            v = g.attrs.get(nm + sfx)
            if not isinstance(v, LA):
                raise AnalysisError(f"anchor vanished: {nm}{sfx} of CubedSphere2D")
            pts = G.point(sfx, v.a.shape)
            if pts is None:
                raise AnalysisError(f"{nm}{sfx} of CubedSphere2D has shape {v.a.shape}")
            out = np.empty(v.a.shape, dtype=object)
            for ix in np.ndindex(*v.a.shape):
                pt = pts(*ix)
                # the far side of a halo element is a slot of its own
                pid = Cell.pid(tuple(x or ("h",) + ix for x in pt[:2]))
                out[ix] = f(sym("X@" + pid), sym("Y@" + pid))
            g.attrs[nm + sfx] = LA.wrap(out)
    g.attrs["earth_radius"], g.attrs["rotation_speed"] = sym("earth"), sym("omega")
    g.attrs["delta_x1"], g.attrs["delta_x2"] = sym("dx1"), sym("dx2")
    for nm in ("lon_p", "lat_p", "angle_p"):
        g.attrs[nm] = sym(nm)
    m = I.instantiate("geometry.metric2d", "Metric2D", [g])
    return I, g, m, G


def two_d(p, rep, tier, rules):
    rm, rc, rf = rules
    w = "wx_factory/geometry/metric2d.py"
    try:
        I, g, m, G = build2(p)
    except (ArrayError, RaiseOutcome) as e:
        rep.bad(rm, "Metric2D", f"building the metric fails: {getattr(e, 'val', e)}", w)
        return
    rep.analysed |= I.analysed
    first = [None]
    seen = set()
    for panel, rot in [(q_, "generic") for q_ in PANELS] + [(0, "zero"), (4, "zero")]:
        I2, g2 = geo.build(p, 2, panel, rot)
        base = Point(3, values("m2"))
        R = rotation_matrix(base, rot == "zero")
        vals = {"earth": mp.mpf("6371.22"), "omega": mp.mpf("0.731"), "dx1": mp.mpf("0.31"), "dx2": mp.mpf("0.31")}
        for nm in ("lon_p", "lat_p", "angle_p"):
            vals[nm] = base(scalar(I2, g2.attrs[nm]))
        rad, om = vals["earth"], vals["omega"]
        dx = [vals["dx1"] / 2, vals["dx2"] / 2]
        tr = {}

        def quant(pid):
            if pid not in tr:
                X, Y = ((rnd(panel, b, pid) - mp.mpf("0.5")) * mp.mpf("1.9") for b in "XY")
                x1, x2 = mp.atan(X), mp.atan(Y)
                n, d1, d2, _, _ = frame(panel, R, x1, x2)
                e = [[rad * u * dx[0] for u in d1], [rad * u * dx[1] for u in d2]]
                K = mp.matrix(2, 2)
                for i in range(2):
                    for j in range(2):
                        K[i, j] = dot(e[i], e[j])
                H = K ** -1
                up = [[sum(H[i, k] * e[k][c] for k in range(2)) for c in range(3)] for i in range(2)]
                tr[pid] = (X, Y, n, e, K, H, up, (x1, x2))
            return tr[pid]

        gcache = {}

        def gamma(pid, i, j, k):
            if pid not in gcache:
                gcache[pid] = second(panel, R, *quant(pid)[7])
            return dot(quant(pid)[6][i], [rad * u * dx[j] * dx[k] for u in gcache[pid][j][k]])

        def default(nm):
            if nm in vals:
                return vals[nm]
            if "@" in nm:
                b, pid = nm.split("@")
                return quant(pid)["XY".index(b)]

        pt = Point(panel, {}, default)

        def compare(rule, nm, v, sfx, want, scale, digits=30, lim=None):
            a = plain(v)
            if not isinstance(a, np.ndarray):
                a = np.full(next(iter(G.maps[sfx])), a, dtype=object)
            pts = G.point(sfx, a.shape)
            if pts is None:
                rep.bad(rule, f"{nm}, Metric2D", f"has shape {a.shape}, which is no field of the grid", w)
                return
            cnt = 0
            for ix in np.ndindex(*a.shape):
                x = pts(*ix)
                if x[0] is None or x[1] is None:
                    continue
                if lim and cnt >= lim:
                    break
                cnt += 1
                pid = Cell.pid(x[:2])
                if a[ix] is layout.UNDEF:
                    rep.bad(rule, f"{nm}, Metric2D", "is left undefined at a grid point", w)
                    continue
                wv, got = want(pid), pt(a[ix])
                rep.check(close(got, wv, scale(pid), digits), rule, f"{nm}, Metric2D", f"on panel {panel} is {mp.nstr(got, 8)}, the coordinates give {mp.nstr(wv, 8)}", w)
            seen.add(nm)

        def attr(nm):
            v = m.attrs.get(nm)
            return v if isinstance(v, (LA, int, float, Expr)) and not isinstance(v, bool) else None

        for sfx in ("", "_itf_i", "_itf_j"):
            for bs, k in (("cov", 4), ("contra", 5)):
                whole = attr(f"h_{bs}{sfx}")
                for i in range(2):
                    for j in range(2):
                        wt = lambda pid, k=k, i=i, j=j: quant(pid)[k][i, j]
                        sc = lambda pid, k=k, i=i, j=j: mp.sqrt(quant(pid)[k][i, i] * quant(pid)[k][j, j])
                        v = attr(f"H_{bs}_{i+1}{j+1}{sfx}")
                        if v is not None:
                            compare(rm, f"H_{bs}_{i+1}{j+1}{sfx}", v, sfx, wt, sc)
                        if isinstance(whole, LA):
                            compare(rm, f"h_{bs}{sfx}[{i},{j}]", LA.wrap(whole.a[i, j]), sfx, wt, sc)
            v = attr("sqrtG" + sfx)
            if v is None:
                raise AnalysisError(f"anchor vanished: sqrtG{sfx}")
            rt = lambda pid: mp.sqrt(quant(pid)[4][0, 0] * quant(pid)[4][1, 1] - quant(pid)[4][0, 1] ** 2)
            compare(rm, "sqrtG" + sfx, v, sfx, lambda pid: rt(pid), rt)
            if sfx == "" and attr("inv_sqrtG") is not None:
                compare(rm, "inv_sqrtG", attr("inv_sqrtG"), sfx, lambda pid: 1 / (rt(pid)), lambda pid: 1 / rt(pid))
        for i in range(2):
            for j in range(2):
                for k in range(2):
                    v = attr(f"christoffel_{i+1}_{j+1}{k+1}")
                    if v is not None:
                        compare(rc, f"christoffel_{i+1}_{j+1}{k+1}", v, "", lambda pid, i=i, j=j, k=k: gamma(pid, i, j, k), lambda pid: dx[0], 18, lim=4)
                for nm in (f"christoffel_{i+1}_0{j+1}", f"christoffel_{i+1}_{j+1}0"):
                    v = attr(nm)
                    if v is not None:
                        compare(rc, nm, v, "", lambda pid, i=i, j=j: dot(quant(pid)[6][i], cross([0, 0, om], quant(pid)[3][j])), lambda pid: om, lim=4)
        v = attr("coriolis_f")
        if v is not None:
            compare(rf, "coriolis_f", v, "", lambda pid: 2 * om * quant(pid)[2][2], lambda pid: om, lim=4)
        rep.analysed |= I2.analysed
    need = {f"H_contra_{i}{j}{s}" for i in "12" for j in "12" for s in ("_itf_i", "_itf_j")} | {f"H_cov_{i}{j}" for i in "12" for j in "12"}
    need |= {f"christoffel_{i}_{j}{k}" for i in "12" for j in "012" for k in "12" if j <= k}
    if not (need <= seen):
        raise AnalysisError("anchor vanished: " + ", ".join(sorted(need - seen)))


# ------------------------------------------------------------------ 3-D
class Cell:
    """names of the quantities at the points of a small grid"""

    def __init__(self, ne, nev, ns):
        self.g = Grid(3, ne, nev, ns)
        self.ne, self.nev, self.ns = ne, nev, ns
        s = ns
        self.block = {"": (nev * s, ne * s, ne * s), "_itf_i": (nev * s, ne * s, ne + 1), "_itf_j": (nev * s, ne + 1, ne * s), "_itf_k": (nev + 1, ne * s, ne * s)}
        self.new = {"": (nev, ne, ne, s ** 3), "_itf_i": (nev, ne, ne + 2, 2 * s * s), "_itf_j": (nev, ne + 2, ne, 2 * s * s), "_itf_k": (nev + 2, ne, ne, 2 * s * s)}

    @staticmethod
    def pid(pt):
        return "/".join("".join(str(c) for c in x) for x in pt)

    def points(self, sfx, shape):
        f = self.g.point(sfx, shape)
        if f is None:
            return None
        out = np.empty(shape, dtype=object)
        for ix in np.ndindex(*shape):
            pt = f(*ix)
            out[ix] = None if pt[0] is None or pt[1] is None or (pt[2] is None and sfx == '_itf_k') else pt
        return out

    def arr(self, sfx, shape, f):
        pts = self.points(sfx, shape)
        out = np.empty(shape, dtype=object)
        for ix in np.ndindex(*shape):
            out[ix] = 0 if pts[ix] is None else f(pts[ix])
        return out


def q(name, pt):
    return sym(f"{name}@{Cell.pid(pt)}")


def moved(e, axis, face, cell):
    """the formula e of an element's interior point, at the face point (extrapolation of a smooth field)"""
    if not isinstance(e, Expr):
        return e
    m = {}
    for a in atoms_of(e):
        nm = a.args[0]
        if a.kind == "sym" and "@" in nm:
            b, pid = nm.split("@")
            parts = pid.split("/")
            parts[axis] = "".join(str(c) for c in face)
            m[a] = sym(b + "@" + "/".join(parts))
    return A.subst(e, m) if m else e


def atoms_of(e):
    out, todo, seen = set(), [e], set()
    while todo:
        x = todo.pop()
        if not isinstance(x, Expr) or x in seen:
            continue
        seen.add(x)
        for mon in x.t:
            for a, _ in mon:
                if a not in out:
                    out.add(a)
                    todo.extend(y for y in a.args if isinstance(y, Expr))
    return out


DERIV = {"i": ("d1", "dx1"), "j": ("d2", "dx2"), "k": ("d3", "deta")}
_counter = [0]


def deriv_cells(arr, ax, pts):
    """derivative (reference element) of the cells of an interior array along one direction"""
    nm, dl = DERIV[ax]
    out = np.empty(arr.shape, dtype=object)
    fresh = None
    for ix in np.ndindex(*arr.shape):
        e = arr[ix]
        pt = pts[ix]
        if isinstance(e, Expr) and e == q("H", pt):
            out[ix] = q(nm, pt) * sym(dl) / 2
        else:
            if fresh is None:
                _counter[0] += 1
                fresh = f"D{_counter[0]}"
            out[ix] = q(fresh, pt)
    return out


class Mat(AbsVal):
    """one of the operator matrices, acting on arrays of formulas"""

    def __init__(self, kind, ax, cell):
        self.kind, self.ax, self.cell = kind, ax, cell

    def a_attr(self, I, attr, node):
        return Opaque(("operator matrix", self.kind, self.ax, attr))

    def a_binop(self, I, op, other, swapped, node):
        o = plain(other)
        if op != "MatMult" or not swapped or o is MISSING:
            return Opaque((op, self.kind, I.keyof(other)))
        c = self.cell
        axis = {"i": 0, "j": 1, "k": 2}[self.ax]
        lead = o.shape[:-4] if self.kind != "correction" else o.shape[:-4]
        if self.kind == "derivative":
            pts = c.points("", o.shape[-4:])
            if pts is None:
                return Opaque(("@", self.kind, o.shape))
            out = np.empty(o.shape, dtype=object)
            for l in np.ndindex(*lead):
                out[l] = deriv_cells(o[l], self.ax, pts)
            return LA.wrap(out)
        if self.kind == "correction":
            return LA.wrap(np.zeros(lead + c.new[""], dtype=object) + 0)
        s2 = c.ns ** 2
        out = np.empty(o.shape[:-1] + (2 * s2,), dtype=object)
        for ix in np.ndindex(*out.shape):
            ke, je, ie, qq = ix[-4:]
            side, r = divmod(qq, s2)
            el = (ie, je, ke)[axis]
            src = {0: r * c.ns, 1: (r // c.ns) * s2 + r % c.ns, 2: r}[axis]
            out[ix] = moved(o[ix[:-1] + (src,)], axis, ("i", el + side), c)
        return LA.wrap(out)


def operators(c):
    def comma(ax):
        def f(I, a, k, n):
            arr = plain(a[0])
            pts = c.points("", arr.shape[-3:])
            if pts is None:
                raise ArrayError(f"comma_{ax} of an array of shape {arr.shape}")
            out = np.empty(arr.shape, dtype=object)
            for l in np.ndindex(*arr.shape[:-3]):
                out[l] = deriv_cells(arr[l], ax, pts)
            return LA.wrap(out)
        return Hook("comma_" + ax, f)

    def extrap(ax):
        def f(I, a, k, n):
            arr = plain(a[0])
            s, ne, nev = c.ns, c.ne, c.nev
            if arr.shape != c.block[""]:
                raise ArrayError(f"extrapolate_{ax} of an array of shape {arr.shape}")
            nk, nj, ni = arr.shape
            shape = {"i": (nk, nj, ne, 2), "j": (nk, ne, 2, ni), "k": (nev, 2, nj, ni)}[ax]
            out = np.empty(shape, dtype=object)
            for ix in np.ndindex(*shape):
                if ax == "i":
                    kk, jj, el, sd = ix
                    src = (kk, jj, el * s)
                elif ax == "j":
                    kk, el, sd, ii = ix
                    src = (kk, el * s, ii)
                else:
                    el, sd, jj, ii = ix
                    src = (el * s, jj, ii)
                out[ix] = moved(arr[src], {"i": 0, "j": 1, "k": 2}[ax], ("i", el + sd), c)
            return LA.wrap(out)
        return Hook("extrapolate_" + ax, f)

    at = {}
    for ax, (x, cc) in {"i": ("x", "WE"), "j": ("y", "SN"), "k": ("z", "DU")}.items():
        at["comma_" + ax] = comma(ax)
        at["extrapolate_" + ax] = extrap(ax)
        at["derivative_" + x] = Mat("derivative", ax, c)
        at["correction_" + cc] = Mat("correction", ax, c)
        at["extrap_" + x] = Mat("extrap", ax, c)
    return Obj(None, "operators", at)


class System:
    """linear systems set up by the source, solved only at evaluation"""

    def __init__(self):
        self.sys = []

    def add(self, lhs, rhs):
        n = len(self.sys)
        self.sys.append((lhs, rhs))
        out = np.empty(rhs.shape, dtype=object)
        for ix in np.ndindex(*rhs.shape):
            out[ix] = sym(f"sol{n}:" + ",".join(map(str, ix)))
        return LA.wrap(out)

    def value(self, pt, name, cache):
        n, ix = name[3:].split(":")
        n = int(n)
        ix = tuple(int(x) for x in ix.split(","))
        if n not in cache:
            lhs, rhs = self.sys[n]
            N = len(rhs)
            M = mp.matrix(N, N)
            for i in range(N):
                for j in range(N):
                    M[i, j] = pt(lhs[i, j])
            b = mp.matrix([pt(x) for x in rhs])
            try:
                cache[n] = mp.lu_solve(M, b)
            except ZeroDivisionError:
                raise AnalysisError("singular")
        return cache[n][ix[0]]


def fill(sh, pts, f, z):
    out = np.empty(sh, dtype=object)
    for ix in np.ndindex(*sh):
        pt = pts[ix]
        out[ix] = f((pt[0], pt[1], pt[2] or z))
    return out


def build3(p, deep, nev=1, ne=2, ns=1):
    I, g = layout.geometry_obj(p, 3, ne, nev, ns)
    c = Cell(ne, nev, ns)
    for sfx in ("", "_itf_i", "_itf_j", "_itf_k"):
        for nm, sh in (("coordVec_gnom", c.block[sfx]), ("gnomonic", c.new[sfx])):
            v = np.empty((3,) + sh, dtype=object)
            for i, b in enumerate(("X", "Y", "H")):
                v[i] = c.arr(sfx, sh, lambda pt: q(b, pt))
            if g.attrs.get(nm + sfx) is None:
                raise AnalysisError(f"anchor vanished: {nm}{sfx}")
            g.attrs[nm + sfx] = LA.wrap(v)
    g.attrs["earth_radius"], g.attrs["rotation_speed"] = sym("earth"), sym("omega")
    g.attrs["delta_x1"], g.attrs["delta_x2"], g.attrs["delta_eta"] = sym("dx1"), sym("dx2"), sym("deta")
    for nm in ("lon_p", "lat_p", "angle_p"):
        g.attrs[nm] = sym(nm)
    g.attrs["deep"] = deep
    blk = c.block[""]
    for nm, f in (("X_block", lambda pt: q("X", pt)), ("Y_block", lambda pt: q("Y", pt)),
                  ("delta2_block", lambda pt: 1 + q("X", pt) ** 2 + q("Y", pt) ** 2), ("delta_block", lambda pt: A.fsqrt(1 + q("X", pt) ** 2 + q("Y", pt) ** 2))):
        old = g.attrs.get(nm)
        if isinstance(old, LA):
            sh = old.a.shape
            pts = c.points("", sh)
            # two-dimensional fields have no height: use the lowest point of the column
            z = ("p", 0, 0)
            g.attrs[nm] = LA.wrap(fill(sh, pts, f, z))
    S = System()

    def solve(I, a, k, n):
        lhs, rhs = plain(a[0]), plain(a[1])
        if rhs.ndim == 1:
            return S.add(lhs, rhs)
        if rhs.shape[-2] != lhs.shape[-1] if rhs.ndim >= 2 else False:
            raise RaiseOutcome(ExtRef("builtins.ValueError"), n)  # numpy 2: the right-hand side is a stack of matrices
        out = np.empty(rhs.shape, dtype=object)
        for l in np.ndindex(*lhs.shape[:-2]):
            for col in range(rhs.shape[-1]):
                out[l + (slice(None), col)] = plain(S.add(lhs[l], rhs[l][:, col]))
        return LA.wrap(out)

    I.real_numpy.fns["linalg.solve"] = solve
    I.real_numpy.fns["solve"] = solve

    def exchange(I, a, k, n):
        vals = tuple(a[:4])
        return Obj(None, "request", {"wait": Hook("wait", lambda I, aa, kk, nn: vals)})

    pt = Obj(None, "ptopo", {**(g.attrs["ptopo"].attrs if isinstance(g.attrs.get("ptopo"), Obj) else {}), "size": 6, "rank": 0,
                             "start_exchange_vectors": Hook("exch", exchange)})
    g.attrs["ptopo"] = pt
    M = operators(c)
    grads = []

    def grad(I, a, k, n):
        arrs = [plain(x) for x in a[:4]]
        grads.append(arrs)
        lead = arrs[0].shape[:-3]
        pts = c.points("", arrs[0].shape[-3:])
        if pts is None:
            raise ArrayError(f"grad of an array of shape {arrs[0].shape}")
        _counter[0] += 1
        out = np.empty((3,) + arrs[0].shape, dtype=object)
        for ix in np.ndindex(*out.shape):
            out[ix] = q("grad" + "".join(map(str, (len(grads) - 1,) + ix[:-3])), pts[ix[-3:]])
        return LA.wrap(out)

    M.attrs["grad"] = Hook("grad", grad)
    m = I.instantiate("geometry.metric3d", "Metric3DTopo", [g, M])
    f = I.getattr_(m, "build_metric", None)
    I.call(f, [], {}, None)
    return I, g, m, c, S, grads


def truth(panel, R, X, Y, rad, d, dl, om):
    n, d1, d2, _, _ = frame(panel, R, mp.atan(X), mp.atan(Y))
    e = [[(rad * u + d[0] * v) * dl[0] / 2 for u, v in zip(d1, n)], [(rad * u + d[1] * v) * dl[1] / 2 for u, v in zip(d2, n)], [d[2] * v * dl[2] / 2 for v in n]]
    K = mp.matrix(3, 3)
    for i in range(3):
        for j in range(3):
            K[i, j] = dot(e[i], e[j])
    H = K ** -1
    root = abs(dot(e[0], cross(e[1], e[2])))
    up = [[sum(H[i, k] * e[k][x] for k in range(3)) for x in range(3)] for i in range(3)]
    rot = [[dot(up[i], cross([0, 0, om], e[j])) for j in range(3)] for i in range(3)]
    return n, K, H, root, rot


def rnd(*key):
    h = hashlib.sha256(repr(key).encode()).hexdigest()
    return mp.mpf(int(h, 16)) / mp.mpf(16) ** 64


ORDER9 = [(0, 1), (0, 2), (0, 3), (1, 1), (1, 2), (1, 3), (2, 2), (2, 3), (3, 3)]


def three_d(p, rep, tier, rules, deep):
    rm, rc, rf = rules
    tag0 = "Metric3DTopo, " + ("deep" if deep else "shallow") + " atmosphere"
    w = "wx_factory/geometry/metric3d.py"
    try:
        I, g, m, c, S, grads = build3(p, deep)
    except (ArrayError, RaiseOutcome) as e:
        rep.bad(rm, tag0, f"building the metric fails: {getattr(e, 'val', e)}", w)
        return
    rep.analysed |= I.analysed
    pan = PANELS if tier == "thorough" else ((0, 3, 4) if deep else (1, 2, 5))
    for panel in pan:
        tag = f"{tag0}, panel {panel}"
        I2, g2 = geo.build(p, 3, panel, "generic")
        base = Point(7, values("m3"))
        R = rotation_matrix(base, False)
        vals = {"earth": mp.mpf("6371.22"), "omega": mp.mpf("0.731"), "dx1": mp.mpf("0.31"), "dx2": mp.mpf("0.31"), "deta": mp.mpf("0.083")}
        for nm in ("lon_p", "lat_p", "angle_p"):
            vals[nm] = base(scalar(I2, g2.attrs[nm]))
        dl = [vals["dx1"], vals["dx2"], vals["deta"]]
        tr, gam, solved = {}, {}, {}

        def quant(pid):
            if pid not in tr:
                X = (rnd(panel, "X", pid) - mp.mpf("0.5")) * mp.mpf("1.9")
                Y = (rnd(panel, "Y", pid) - mp.mpf("0.5")) * mp.mpf("1.9")
                Hh = 100 + 400 * rnd(panel, "H", pid)
                d = [(rnd(panel, f"d{i}", pid) - mp.mpf("0.4")) * 3000 for i in range(2)] + [500 + 1000 * rnd(panel, "d3", pid)]
                rad = vals["earth"] + (Hh if deep else 0)
                tr[pid] = (X, Y, Hh, d) + truth(panel, R, X, Y, rad, d, dl, vals["omega"])
            return tr[pid]

        def connection(pid):
            """spatial connection and gradient of sqrt(g) h^ab for arbitrary derivatives of the metric"""
            if pid not in gam:
                _, _, _, _, n, K, H, root, rot = quant(pid)
                dg = [[[None] * 3 for _ in range(3)] for _ in range(3)]
                for i in range(3):
                    for j in range(i, 3):
                        for k in range(3):
                            dg[i][j][k] = dg[j][i][k] = (rnd(panel, "dg", pid, i, j, k) - mp.mpf("0.5")) * mp.sqrt(K[i, i] * K[j, j])
                G = [[[sum(H[a, d] * (dg[d][b][c_] + dg[d][c_][b] - dg[b][c_][d]) for d in range(3)) / 2 for c_ in range(3)] for b in range(3)] for a in range(3)]
                Gr = {}
                for k in range(3):
                    dr = root / 2 * sum(H[i, j] * dg[i][j][k] for i in range(3) for j in range(3))
                    for a in range(3):
                        for b in range(3):
                            Gr[(k, a, b)] = dr * H[a, b] - root * sum(H[a, i] * dg[i][j][k] * H[j, b] for i in range(3) for j in range(3))
                gam[pid] = (G, Gr)
            return gam[pid]

        def default(nm):
            if nm in vals:
                return vals[nm]
            if nm.startswith("sol"):
                return S.value(pt, nm, solved)
            if "@" in nm:
                b, pid = nm.split("@")
                t = quant(pid)
                if b in ("X", "Y", "H"):
                    return t["XYH".index(b)]
                if b in ("d1", "d2", "d3"):
                    return t[3][int(b[1]) - 1]
                if b.startswith("grad") and len(b) == 8:
                    return connection(pid)[1][tuple(int(x) for x in b[5:])]
            return None

        pt = Point(panel, {}, default)

        def compare(rule, nm, arr, sfx, want, scale, digits=30, every=True, lim=None):
            """cell by cell comparison of an array with the wanted value at its point"""
            a = plain(arr)
            sh = a.shape
            pts = c.points(sfx, sh)
            if pts is None:
                rep.bad(rule, f"{nm}, {tag0}", f"has shape {sh}, which is no field of the grid", w)
                return
            cnt = 0
            for ix in np.ndindex(*sh):
                if pts[ix] is None:
                    continue
                if lim and cnt >= lim:
                    break
                cnt += 1
                pid = Cell.pid(tuple(x or ("p", 0, 0) for x in pts[ix]))
                wv = want(pid)
                e = a[ix]
                if e is layout.UNDEF:
                    rep.bad(rule, f"{nm}, {tag0}", "is left undefined at a grid point", w)
                    continue
                got = pt(e)
                rep.check(close(got, wv, scale(pid), digits), rule, f"{nm}, {tag0}", f"on panel {panel} is {mp.nstr(got, 8)}, the coordinates give {mp.nstr(wv, 8)}", w)

        def attr(nm):
            v = m.attrs.get(nm)
            return v if isinstance(v, LA) else None

        one = lambda pid: mp.mpf(1)
        for sfx in ("", "_itf_i", "_itf_j", "_itf_k"):
            seen = 0
            for bs, k in (("cov", 5), ("contra", 6)):
                for nm in (f"H_{bs}{sfx}", f"h_{bs}{sfx}", f"h_{bs}{sfx}_new"):
                    v = attr(nm)
                    if v is None:
                        continue
                    seen += 1
                    for i in range(3):
                        for j in range(3):
                            compare(rm, f"{nm}[{i},{j}]", LA.wrap(v.a[i, j]), sfx, lambda pid, k=k, i=i, j=j: quant(pid)[k][i, j],
                                    lambda pid, k=k, i=i, j=j: mp.sqrt(quant(pid)[k][i, i] * quant(pid)[k][j, j]), lim=6)
                for i in range(3):
                    for j in range(3):
                        v = attr(f"H_{bs}_{i+1}{j+1}{sfx}")
                        if v is not None:
                            compare(rm, f"H_{bs}_{i+1}{j+1}{sfx}", v, sfx, lambda pid, k=k, i=i, j=j: quant(pid)[k][i, j],
                                    lambda pid, k=k, i=i, j=j: mp.sqrt(quant(pid)[k][i, i] * quant(pid)[k][j, j]), lim=3)
            for nm, inv in ((f"sqrtG{sfx}", False), (f"sqrtG{sfx}_new", False), (f"inv_sqrtG{sfx}", True), (f"inv_sqrtG{sfx}_new", True)):
                v = attr(nm)
                if v is not None:
                    seen += 1
                    compare(rm, nm, v, sfx, lambda pid, inv=inv: 1 / quant(pid)[7] if inv else quant(pid)[7], lambda pid, inv=inv: 1 / quant(pid)[7] if inv else quant(pid)[7])
            if seen < 3:
                raise AnalysisError(f"anchor vanished: metric arrays {sfx or 'interior'}")
        for nm in ("inv_dzdeta", "inv_dzdeta_new"):
            v = attr(nm)
            if v is not None:
                compare(rm, nm, v, "", lambda pid: 2 / (quant(pid)[3][2] * dl[2]), lambda pid: mp.mpf(1) / 100)
        # connection
        def conn(i, jk):
            j, k = jk
            if j == 0:
                return lambda pid: quant(pid)[8][i][k - 1], lambda pid: vals["omega"] * mp.sqrt(quant(pid)[6][i, i] * quant(pid)[5][k - 1, k - 1])
            return lambda pid: connection(pid)[0][i][j - 1][k - 1], lambda pid: mp.sqrt(quant(pid)[6][i, i] * quant(pid)[5][j - 1, j - 1] * quant(pid)[5][k - 1, k - 1] * quant(pid)[6][k - 1, k - 1])

        try:
            for i in range(3):
                for jk in ORDER9:
                    want, sc = conn(i, jk)
                    v = attr(f"christoffel_{i+1}_{jk[0]}{jk[1]}")
                    if v is not None:
                        compare(rc, f"christoffel_{i+1}_{jk[0]}{jk[1]}", v, "", want, sc, 25, lim=2)
            v = attr("christoffel")
            if v is None:
                raise AnalysisError("anchor vanished: christoffel")
            if v.a.shape[:2] != (3, 9):
                raise AnalysisError(f"christoffel has shape {v.a.shape}")
            for i in range(3):
                for x, jk in enumerate(ORDER9):
                    want, sc = conn(i, jk)
                    compare(rc, f"christoffel[{i},{x}] (Gamma^{i+1}_{jk[0]}{jk[1]})", LA.wrap(v.a[i, x]), "", want, sc, 25, lim=2)
        except AnalysisError as e:
            if str(e) == "singular":
                rep.bad(rc, f"spatial connection, {tag0}", "the linear system for the connection is singular", w)
            else:
                raise
        v = attr("coriolis_f")
        if v is not None:
            compare(rf, "coriolis_f", v, "", lambda pid: 2 * vals["omega"] * quant(pid)[4][2], lambda pid: vals["omega"])
        # what is differentiated is sqrt(g) h^ab everywhere
        for arrs in grads:
            for a, sfx in zip(arrs, ("", "_itf_i", "_itf_j", "_itf_k")):
                if a.shape[:2] != (3, 3):
                    continue
                for i in range(3):
                    for j in range(3):
                        compare(rc, f"gradient operand {sfx or 'interior'} [{i},{j}]", LA.wrap(a[i, j]), sfx, lambda pid, i=i, j=j: quant(pid)[7] * quant(pid)[6][i, j],
                                lambda pid, i=i, j=j: quant(pid)[7] * mp.sqrt(quant(pid)[6][i, i] * quant(pid)[6][j, j]), lim=3)
        rep.analysed |= I2.analysed


def run(p, rep, tier):
    rep.explanation = ("Metric2D is interpreted at one generic point of every panel with symbolic rotation; Metric3DTopo.build_metric is interpreted on a small grid whose point coordinates, heights and "
                       "slopes are symbols, with the real layout functions. Every metric array is compared, cell by cell, with the tensor derived from the point positions (identity test, 60 digits).")
    rep.assumptions += ["derivative and extrapolation operators are exact for the terrain (C15); halo exchange delivers the neighbour's value of the same point (C01, C02)",
                        "2-D volume element: compared up to one constant factor"]
    rm = rep.rule("metric", "covariant and contravariant metric and volume element are those of the point positions", 200)
    rc = rep.rule("connection", "connection coefficients are those of the metric plus the rotation of the earth", 200)
    rf = rep.rule("coriolis", "the Coriolis parameter is 2 Omega sin(latitude)", 12)
    rules = (rm, rc, rf)
    tasks = ["deep", "shallow", "2d"]
    pmap(lambda t: two_d(p, rep, tier, rules) if t == "2d" else three_d(p, rep, tier, rules, t == "deep"), tasks, rep)
