"""C15: quadrature, interpolation and differentiation are exact for polynomials."""
from __future__ import annotations

import hashlib

import mpmath as mp
import numpy as np

from .. import hp, layout
from ..hp import C, num
from ..interp import Obj, Opaque, RaiseOutcome
from ..layout import ArrayError, LA, plain
from ..par import pmap
from ..project import AnalysisError

EPS = mp.mpf(10) ** -12


def rnd(*key):
    h = hashlib.sha256(repr(key).encode()).hexdigest()
    return 2 * mp.mpf(int(h, 16)) / mp.mpf(16) ** 64 - 1


def interp(p):
    I = layout.make_interp(p)
    hp.install(I)
    return I


def device(I):
    return Obj(None, "device", {"xp": I.xp, "comm": Obj(None, "comm", {"rank": 0, "size": 6})})


def build(p, n, dim, ne=2, nev=2, **opts):
    """operators for n points per direction -> (interp, geometry, operators)"""
    I = interp(p)
    dev = device(I)
    cls = {3: ("geometry.cubed_sphere_3d", "CubedSphere3D"), 2: ("geometry.cubed_sphere_2d", "CubedSphere2D"), "cart": ("geometry.cartesian_2d_mesh", "Cartesian2D")}[dim]

    def init(I, args, kw, node):
        o = args[0]
        base = I.global_lookup("geometry.geometry", "Geometry")
        I.call(I.getattr_(base, "__init__", None), [o, n, dev], {}, None)
        for k, v in {"device": dev, "num_elements_x1": ne, "num_elements_x2": ne, "num_elements_x3": nev, "ni": ne * n, "nj": ne * n, "nk": nev * n, "num_solpts": n}.items():
            I.setattr_(o, k, v)

    I.hooks[cls[1] + ".__init__"] = init
    g = I.instantiate(cls[0], cls[1], [])
    par = {"filter_apply": False, "expfilter_apply": False, "apply_sponge": False, "filter_order": 8, "filter_cutoff": C(mp.mpf("0.25")), "expfilter_order": 4,
           "expfilter_strength": C(mp.mpf("1.7")), "expfilter_cutoff": C(mp.mpf("0.4"))}
    par.update(opts)
    op = I.instantiate("geometry.operators", "DFROperators", [g, Obj(None, "param", par), dev])
    return I, g, op


def arr(o, nm):
    v = o.attrs.get(nm)
    if not isinstance(v, LA):
        raise AnalysisError(f"anchor vanished: {nm}")
    m = hp.matrix_of(v)
    if m is None:
        raise AnalysisError(f"{nm} is not constant")
    return m


def near(a, b, scale=1):
    a, b = np.asarray(a, dtype=object), np.asarray(b, dtype=object)
    if a.shape != b.shape:
        return False
    return all(abs(x - y) <= EPS * max(1, scale) for x, y in zip(a.flat, b.flat))


def mono(xs, k):
    return np.array([x ** k if k else mp.mpf(1) for x in xs], dtype=object)


def dmono(xs, k):
    return np.array([k * x ** (k - 1) if k > 1 else mp.mpf(k) for x in xs], dtype=object)


W = "wx_factory/geometry/"


def quadrature(p, rep, rid, n):
    I = interp(p)
    f = I.global_lookup("geometry.quadrature", "gauss_legendre")
    lab = f"gauss_legendre({n})"
    try:
        r = I.call(f, [n, I.xp], {}, None)
    except RaiseOutcome as e:
        rep.bad(rid, lab, f"raises {e.val!r}", W + "quadrature.py")
        return
    if not isinstance(r, (tuple, list)) or len(r) != 3:
        raise AnalysisError(f"gauss_legendre returns {r!r}"[:200])
    s, x, w = r
    sv = [num(v) for v in (s.a_iter(I, None) if isinstance(s, LA) else s)]
    xv, wv = hp.matrix_of(x), hp.matrix_of(w)
    if xv is None or wv is None or any(v is None for v in sv):
        raise AnalysisError("quadrature tables are not constant")
    ok = xv.shape == wv.shape == (n,) and len(sv) == n
    rep.check(ok, rid, lab + " sizes", f"{len(sv)}, {xv.shape}, {wv.shape} points/weights", W + "quadrature.py")
    if not ok:
        return
    rep.check(near(np.array(sv, dtype=object), xv), rid, lab + " symbolic points", "the symbolic and numerical points differ", W + "quadrature.py")
    rep.check(all(xv[i] < xv[i + 1] for i in range(n - 1)) and all(-1 < v < 1 for v in xv), rid, lab + " ordering", "the points are not increasing inside ]-1, 1[", W + "quadrature.py")
    for k in range(2 * n):
        got = sum(w_ * (x_ ** k if k else 1) for w_, x_ in zip(wv, xv))
        want = mp.mpf(2) / (k + 1) if k % 2 == 0 else mp.mpf(0)
        rep.check(abs(got - want) < EPS, rid, f"{lab} degree {k}", f"the quadrature of x^{k} gives {mp.nstr(got, 10)} instead of {mp.nstr(want, 10)}", W + "quadrature.py")
    rep.analysed |= I.analysed


def one_d(rep, rids, g, op, n, tag):
    rx, rd, rw = rids
    w = W + "operators.py"
    xs = list(hp.matrix_of(g.attrs["solutionPoints"]))
    true_x, true_w = hp.gauss(n)
    rep.check(near(np.array(xs), np.array(true_x)), rx, f"solutionPoints, {tag}", "are not the Gauss-Legendre points", W + "geometry.py")
    ext = list(hp.matrix_of(g.attrs["extension"]))
    rep.check(near(np.array(ext), np.array([mp.mpf(-1)] + true_x + [mp.mpf(1)])), rx, f"extension, {tag}", "is not -1, the solution points, 1", W + "geometry.py")
    gw = hp.matrix_of(g.attrs["glweights"])
    rep.check(near(gw, np.array(true_w)), rw, f"glweights, {tag}", "are not the Gauss-Legendre weights", W + "geometry.py")
    for nm, at in (("extrap_west", -1), ("extrap_east", 1), ("extrap_south", -1), ("extrap_north", 1), ("extrap_down", -1), ("extrap_up", 1)):
        e = arr(op, nm)
        if e.shape != (n,):
            rep.bad(rx, f"{nm}, {tag}", f"has shape {e.shape}", w)
            continue
        for k in range(n):
            got = sum(a * b for a, b in zip(e, mono(xs, k)))
            rep.check(abs(got - mp.mpf(at) ** k) < EPS * 100, rx, f"{nm}, {tag}", f"extrapolates x^{k} to {mp.nstr(got, 8)} at {at}", w)
    ds, co, dx = arr(op, "diff_solpt"), arr(op, "correction"), arr(op, "diff_ext")
    for k in range(n + 2):
        b = np.array([mp.mpf(-1) ** k, mp.mpf(1)], dtype=object)
        got = ds.dot(mono(xs, k)) + co.dot(b)
        rep.check(near(got, dmono(xs, k), 100), rd, f"diff_solpt/correction, {tag}", f"the derivative of x^{k} is wrong at the solution points", w)
        e = [mp.mpf(-1)] + xs + [mp.mpf(1)]
        rep.check(near(dx.dot(mono(e, k)), dmono(e, k), 1000), rd, f"diff_ext, {tag}", f"the derivative of x^{k} is wrong", w)
    for nm, t in (("diff_solpt_tr", ds), ("correction_tr", co)):
        rep.check(near(arr(op, nm), t.T), rd, f"{nm}, {tag}", "is not the transpose", w)
    d = arr(op, "diff")
    for k in range(n):
        rep.check(near(d.dot(mono(xs, k)), dmono(xs, k), 100), rd, f"diff, {tag}", f"the derivative of x^{k} is wrong at the solution points", w)
    rep.check(near(arr(op, "diff_tr"), d.T), rd, f"diff_tr, {tag}", "is not the transpose of diff", w)
    rep.check(near(arr(op, "quad_weights"), np.array([[a * b for b in true_w] for a in true_w], dtype=object)), rw, f"quad_weights, {tag}", "are not the products of the one-dimensional weights", w)
    hf = arr(op, "highfilter")
    for k in range(n - 1):
        rep.check(near(hf.dot(mono(xs, k)), mono(xs, k), 100), rx, f"highfilter, {tag}", f"changes x^{k}", w)
    top = np.array([hp.legendre(n - 1).at(x) for x in xs], dtype=object)
    rep.check(near(hf.dot(top), np.array([mp.mpf(0)] * n, dtype=object), 100), rx, f"highfilter, {tag}", "keeps the highest mode", w)
    return xs, ds, co, {s: arr(op, "extrap_" + s) for s in ("west", "east", "south", "north", "down", "up")}, hf


def along(M, a, ax):
    return np.moveaxis(np.tensordot(M, a, axes=([1], [ax])), 0, ax)


def ten_d(rep, rid, op, n, dim, tag, ds, co, ex, hf):
    """element matrices of the operators on flattened elements: x fastest"""
    w = W + "operators.py"
    shape = (n,) * (3 if dim == 3 else 2)
    d = len(shape)
    N = n ** d
    F = np.array([rnd(tag, i) for i in range(N)], dtype=object)
    E = F.reshape(shape)
    dirs = {"x": d - 1, "y": d - 2, "z": 0}
    names = {"x": ("west", "east", "WE"), "y": ("south", "north", "SN"), "z": ("down", "up", "DU")}
    for x, ax in dirs.items():
        lo, hi, cc = names[x]
        m = arr(op, "derivative_" + x)
        rep.check(m.shape == (N, N) and near(F.dot(m), along(ds, E, ax).reshape(-1), 100), rid, f"derivative_{x}, {tag}", "does not differentiate along its direction of the element", w)
        m = arr(op, "extrap_" + x)
        want = np.concatenate([np.tensordot(ex[s], E, axes=([0], [ax])).reshape(-1) for s in (lo, hi)])
        rep.check(m.shape == (N, 2 * n ** (d - 1)) and near(F.dot(m), want, 100), rid, f"extrap_{x}, {tag}", "does not extrapolate to the two faces of its direction", w)
        m = arr(op, "correction_" + cc)
        B = np.array([rnd(tag, "b", i) for i in range(2 * n ** (d - 1))], dtype=object)
        b2 = B.reshape((2,) + tuple(s for i, s in enumerate(shape) if i != ax))
        want = along(co, np.moveaxis(b2, 0, ax), ax).reshape(-1)
        rep.check(m.shape == (2 * n ** (d - 1), N) and near(B.dot(m), want, 100), rid, f"correction_{cc}, {tag}", "does not apply the boundary correction of its direction", w)
    if dim == 3:
        m = arr(op, "highfilter_k")
        rep.check(m.shape == (N, N) and near(F.dot(m), along(hf, E, 0).reshape(-1), 100), rid, f"highfilter_k, {tag}", "does not filter along the vertical", w)


def block(p, rep, rid, I, g, op, n, ne, nev, tag, ds, co, ex):
    """operators on whole blocks (nk, nj, ni), with and without a leading variable index and output array"""
    w = W + "operators.py"
    nk, nj, ni = nev * n, ne * n, ne * n
    for lead in ((), (2,)):
        sh = lead + (nk, nj, ni)
        F = np.array([rnd(tag, lead, i) for i in range(int(np.prod(sh)))], dtype=object).reshape(sh)
        el = {"i": (ne, ni), "j": (ne, nj), "k": (nev, nk)}
        for dr, ax in (("i", -1), ("j", -2), ("k", -3)):
            m = el[dr][0]
            ax0 = len(sh) + ax
            bsh = sh[:ax0] + (m, 2) + sh[ax0 + 1:]
            B = np.array([rnd(tag, lead, dr, i) for i in range(int(np.prod(bsh)))], dtype=object).reshape(bsh)
            split = F.reshape(sh[:ax0] + (m, n) + sh[ax0 + 1:])
            want = (along(ds, split, ax0 + 1) + along(co, B, ax0 + 1)).reshape(sh)
            lo, hi = {"i": ("west", "east"), "j": ("south", "north"), "k": ("down", "up")}[dr]
            wex = np.stack([np.tensordot(ex[s], split, axes=([0], [ax0 + 1])) for s in (lo, hi)], axis=ax0 + 1)
            for out in (False, True):
                t = f"comma_{dr}{' (out=)' if out else ''}, {tag}, {len(lead)} leading"
                kw = {}
                if out:
                    kw["out"] = hp.wrap(np.array([mp.mpf(0)] * F.size, dtype=object).reshape(sh))
                fa = hp.wrap(F.copy())
                try:
                    r = I.call(I.getattr_(op, "comma_" + dr, None), [fa, hp.wrap(B.copy()), g], kw, None)
                    rep.check(near(hp.matrix_of(r), want, 100) and (not out or near(hp.matrix_of(kw["out"]), want, 100)), rid, t, "is not the corrected derivative along its direction", w)
                    rep.check(near(hp.matrix_of(fa), F) and fa.a.shape == sh, rid, t + " input", "changes its input", w)
                except (ArrayError, RaiseOutcome) as e:
                    rep.bad(rid, t, f"fails: {getattr(e, 'val', e)}", w)
                if lead and dr == "k":
                    pass
                t = f"extrapolate_{dr}{' (out=)' if out else ''}, {tag}, {len(lead)} leading"
                kw = {}
                if out:
                    kw["out"] = hp.wrap(np.array([mp.mpf(0)] * wex.size, dtype=object).reshape(wex.shape))
                try:
                    r = I.call(I.getattr_(op, "extrapolate_" + dr, None), [hp.wrap(F.copy()), g], kw, None)
                    rep.check(near(hp.matrix_of(r), wex, 100) and (not out or near(hp.matrix_of(kw["out"]).reshape(wex.shape), wex, 100)), rid, t, "is not the extrapolation to the faces of its direction", w)
                except (ArrayError, RaiseOutcome) as e:
                    rep.bad(rid, t, f"fails: {getattr(e, 'val', e)}", w)
        # gradient from interface values
        itf = {}
        for dr, ax in (("i", -1), ("j", -2), ("k", -3)):
            s2 = list(sh)
            s2[ax] = el[dr][0] + 1
            itf[dr] = np.array([rnd(tag, lead, "itf", dr, i) for i in range(int(np.prod(s2)))], dtype=object).reshape(s2)
        want = []
        for dr, ax in (("i", -1), ("j", -2), ("k", -3)):
            m = el[dr][0]
            ax0 = len(sh) + ax
            v = np.moveaxis(itf[dr], ax0, 0)
            B = np.moveaxis(np.stack([v[:-1], v[1:]], axis=1), (0, 1), (ax0, ax0 + 1))
            split = F.reshape(sh[:ax0] + (m, n) + sh[ax0 + 1:])
            want.append((along(ds, split, ax0 + 1) + along(co, B, ax0 + 1)).reshape(sh))
        t = f"grad, {tag}, {len(lead)} leading"
        try:
            r = I.call(I.getattr_(op, "grad", None), [hp.wrap(F.copy()), hp.wrap(itf["i"]), hp.wrap(itf["j"]), hp.wrap(itf["k"]), g], {}, None)
            rep.check(near(hp.matrix_of(r), np.array(want, dtype=object), 100), rid, t, "is not the gradient of the field with the given interface values", w)
        except (ArrayError, RaiseOutcome) as e:
            rep.bad(rid, t, f"fails: {getattr(e, 'val', e)}", w)


def filters(p, rep, rid, n):
    w = W + "operators.py"
    xs = hp.gauss(n)[0]
    for cut in (mp.mpf("0.4"), mp.mpf(0)):
        tag = f"{n} points, cutoff {mp.nstr(cut, 3)}"
        try:
            I, g, op = build(p, n, 3, expfilter_apply=True, expfilter_cutoff=C(cut))
        except (ArrayError, RaiseOutcome) as e:
            rep.bad(rid, f"DFROperators with the exponential filter, {tag}", f"construction fails: {getattr(e, 'val', e)}", w)
            continue
        f = arr(op, "expfilter")
        for k in range(n):
            P = np.array([hp.legendre(k).at(x) for x in xs], dtype=object)
            r = mp.mpf(k) / (n - 1)
            fac = mp.mpf(1) if r <= cut else mp.exp(-mp.mpf("1.7") * ((r - cut) / (1 - cut)) ** 4)
            rep.check(near(f.dot(P), fac * P, 100), rid, f"expfilter, {tag}", f"mode {k} is not multiplied by its filter factor", w)
        F = np.array([rnd("filter", i) for i in range(n ** 3)], dtype=object)
        E = F.reshape((n,) * 3)
        want = along(f, along(f, along(f, E, 0), 1), 2).reshape(-1)
        rep.check(near(F.dot(arr(op, "expfilter_new")), want, 100), rid, f"expfilter_new, {tag}", "is not the filter applied in the three directions", w)
        # applied to a state: the filter acts on the field weighted with the volume element
        sh = (5, 2, 1, 1, n ** 3)
        Q = np.array([rnd("Q", i) for i in range(int(np.prod(sh)))], dtype=object).reshape(sh)
        G = np.array([2 + rnd("G", i) for i in range(int(np.prod(sh[1:])))], dtype=object).reshape(sh[1:])
        met = Obj(None, "metric", {"sqrtG_new": hp.wrap(G.copy()), "inv_sqrtG_new": hp.wrap(1 / G)})
        try:
            r = hp.matrix_of(I.call(I.getattr_(op, "apply_filters", None), [hp.wrap(Q.copy()), g, met, C(mp.mpf(7))], {}, None))
            E = (Q * G).reshape(sh[:-1] + (n,) * 3)
            want = along(f, along(f, along(f, E, 4), 5), 6).reshape(sh) / G
            rep.check(r is not None and r.shape == sh and near(r, want, 100), rid, f"apply_filters, {tag}", "is not the filtered volume-weighted state", w)
        except (ArrayError, RaiseOutcome) as e:
            rep.bad(rid, f"apply_filters, {tag}", f"fails: {getattr(e, 'val', e)}", w)
        rep.analysed |= I.analysed
    I, g, op = build(p, n, 3)
    Q = np.array([rnd("Q", i) for i in range(5 * n ** 3)], dtype=object).reshape(5, 1, 1, 1, -1)
    r = hp.matrix_of(I.call(I.getattr_(op, "apply_filters", None), [hp.wrap(Q.copy()), g, Opaque("metric"), C(mp.mpf(7))], {}, None))
    rep.check(r is not None and near(r, Q), rid, f"apply_filters, no filter, {n} points", "changes the state although no filter is active", w)


def sponge(p, rep, rid, n):
    """damping layer of the Cartesian domain"""
    w = W + "operators.py"
    I = interp(p)
    dev = device(I)
    nx, nz = 2, 3
    z0, z1, depth, ts, dt = mp.mpf(0), mp.mpf(12), mp.mpf(7), mp.mpf(5), mp.mpf(3)
    tag = f"{n} points"
    try:
        g = I.instantiate("geometry.cartesian_2d_mesh", "Cartesian2D", [(C(mp.mpf(-4)), C(mp.mpf(6))), (C(z0), C(z1)), nx, nz, n, dev])
        par = {"filter_apply": False, "expfilter_apply": False, "apply_sponge": True, "z0": C(z0), "z1": C(z1), "sponge_zscale": C(depth), "sponge_tscale": C(ts)}
        op = I.instantiate("geometry.operators", "DFROperators", [g, Obj(None, "param", par), dev])
        sh = (4, nz, nx, n * n)
        Q = np.array([2 + rnd("Q", i) for i in range(int(np.prod(sh)))], dtype=object).reshape(sh)
        r = hp.matrix_of(I.call(I.getattr_(op, "apply_filters", None), [hp.wrap(Q.copy()), g, Opaque("metric"), C(dt)], {}, None))
    except (ArrayError, RaiseOutcome) as e:
        rep.bad(rid, f"sponge, {tag}", f"fails: {getattr(e, 'val', e)}", w)
        return
    xs = hp.gauss(n)[0]
    want = Q.copy()
    zs = z1 - depth
    iw = num(I.global_lookup("common.definitions", "idx_2d_rho_w"))
    if iw is None:
        raise AnalysisError("anchor vanished: idx_2d_rho_w")
    for k in range(nz):
        for j in range(n):
            z = z0 + (z1 - z0) / nz * (k + (1 + xs[j]) / 2)
            beta = mp.sin(mp.pi / 2 * (z - zs) / depth) ** 2 / ts if z >= zs else mp.mpf(0)
            want[int(iw), k, :, j * n:(j + 1) * n] = Q[int(iw), k, :, j * n:(j + 1) * n] / (1 + beta * dt)
    rep.check(r is not None and r.shape == sh and near(r, want, 100), rid, f"sponge, {tag}", "does not damp the vertical momentum in the layer, and only that", w)
    rep.analysed |= I.analysed


def interpolation(p, rep, rid, n):
    I = interp(p)
    try:
        f = I.global_lookup("geometry.operators", "lagrange_eval")
    except (KeyError, AnalysisError):
        f = None
    xs = hp.gauss(n)[0]
    if f is not None:
        for t in (mp.mpf("-0.83"), mp.mpf("0.19")):
            r = I.call(f, [hp.wrap(np.array(xs, dtype=object)), C(t)], {}, None)
            m = hp.matrix_of(r)
            if m is None:
                raise AnalysisError("lagrange_eval is not constant")
            for k in range(n):
                got = sum(a * b for a, b in zip(m, mono(xs, k)))
                rep.check(abs(got - (t ** k if k else 1)) < EPS * 10, rid, f"lagrange_eval, {n} points", f"evaluates x^{k} to {mp.nstr(got, 8)}", W + "operators.py")
    try:
        f = I.global_lookup("geometry.operators", "remesh_operator")
    except (KeyError, AnalysisError):
        f = None
    if f is not None:
        for m in (n - 1, n + 1):
            if m < 2:
                continue
            ys = hp.gauss(m)[0]
            M = hp.matrix_of(I.call(f, [hp.wrap(np.array(xs, dtype=object)), hp.wrap(np.array(ys, dtype=object))], {}, None))
            if M is None:
                raise AnalysisError("remesh_operator is not constant")
            ok = M.shape == (m, n)
            for k in range(min(n, m) - 1):
                ok = ok and near(M.dot(mono(xs, k)), mono(ys, k), 100)
            rep.check(ok, rid, f"remesh_operator({n} -> {m} points)", "does not reproduce the polynomials below the highest common degree", W + "operators.py")
    rep.analysed |= I.analysed


def run(p, rep, tier):
    rep.explanation = ("The node tables and the constructor of the operators depend on the number of points only: they are folded with 60 digits for each number of points, and the resulting "
                       "matrices are checked on the monomials; the functions that apply them are interpreted on small blocks of generic values and compared with the one-dimensional operators.")
    rep.assumptions += ["scipy.special.roots_legendre, sympy and numpy linear algebra implement their documented contracts", "rounding of the stored double precision tables is not modelled (tolerance 1e-12)"]
    r1 = rep.rule("quadrature", "n points integrate polynomials of degree 2n-1 exactly", 40)
    rx = rep.rule("extrapolation", "extrapolation to the element faces is exact for the element's polynomials", 60)
    rd = rep.rule("derivative", "the corrected derivative is exact for polynomials that take the given boundary values", 60)
    rw = rep.rule("weights", "quadrature weights belong to the points", 8)
    rt = rep.rule("element-operators", "the operators on flattened elements act along their own direction", 30)
    rb = rep.rule("block-operators", "the operators on blocks act along their own direction and leave their input alone", 40)
    rf = rep.rule("filter", "the modal filter multiplies each mode by its own factor", 6)
    ri = rep.rule("interpolation", "interpolation is exact for polynomials of the element", 10)
    top = 8 if tier == "thorough" else 7

    def task(t):
        kind, n = t
        if kind == "q":
            return quadrature(p, rep, r1, n)
        if kind == "f":
            return filters(p, rep, rf, n)
        if kind == "s":
            return sponge(p, rep, rf, n)
        if kind == "i":
            return interpolation(p, rep, ri, n)
        dim = {"3": 3, "2": 2, "c": "cart"}[kind]
        tag = f"{n} points, " + {3: "3-D", 2: "2-D", "cart": "Cartesian"}[dim]
        try:
            I, g, op = build(p, n, dim, 2, 3)
        except (ArrayError, RaiseOutcome) as e:
            rep.bad(rx, f"DFROperators, {tag}", f"construction fails: {getattr(e, 'val', e)}", W + "operators.py")
            return
        xs, ds, co, ex, hf = one_d(rep, (rx, rd, rw), g, op, n, tag)
        ten_d(rep, rt, op, n, dim, tag, ds, co, ex, hf)
        if dim == 3 and n <= 3:
            block(p, rep, rb, I, g, op, n, 2, 3, tag, ds, co, ex)
        rep.analysed |= I.analysed

    def block_tasks():
        out = [("q", n) for n in range(1, 9)]
        out += [("3", n) for n in (1, 2, 3, 4) + ((5, 6) if tier == "thorough" else ())]
        out += [("2", n) for n in range(1, top + 1)] + [("c", n) for n in (2, 4)]
        out += [("f", n) for n in (2, 3, 4)] + [("s", n) for n in (1, 2, 3)] + [("i", n) for n in (2, 3, 4, 5)]
        return out

    pmap(task, block_tasks(), rep)
