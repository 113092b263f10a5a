"""C27: the tendency is the discrete flux divergence plus the source terms of its equations."""
from __future__ import annotations

import mpmath as mp
import numpy as np

from .. import rhsdom as R
from ..interp import RaiseOutcome
from ..layout import ArrayError
from ..rhsdom import matmul, rand
from . import c11

F = lambda f, n: np.frompyfunc(f, n, 1)
LOG, EXP, SQRT, ABS, MAX, MIN = F(mp.log, 1), F(mp.exp, 1), F(mp.sqrt, 1), F(abs, 1), F(max, 2), F(min, 2)


class SendError(ArrayError):
    pass


def run(p, rep, tier):
    rep.explanation = ("The right-hand side code, Python and native, is interpreted over generic states, metric terms, operator matrices and halo values; the tendency it returns is compared with the formulas of the "
                       "scheme (extrapolation, numerical flux, flux divergence, Coriolis, metric, gravity and topography terms). Equality in unrelated generic values means equality as formulas.")
    rep.assumptions += ["the process topology returns the neighbour's edge state (C01, C02)"]
    re_ = rep.rule("euler", "tendency of the Euler equations on the cubed sphere", 5)
    rs = rep.rule("shallow", "tendency of the shallow-water equations, with and without topography", 6)
    rc = rep.rule("cartesian", "tendency of the Euler equations on a Cartesian slice", 4)
    again = rep.rule("again", "a second evaluation of the same object gives the same tendency", 1)
    cfg3 = [(2, 2, 2), (1, 3, 2)] if tier == "quick" else [(2, 2, 2), (1, 3, 2), (3, 1, 2), (2, 2, 3)]
    for ne, nev, n in cfg3:
        guard(rep, re_, f"{nev} x {ne} x {ne} elements, {n} points", "wx_factory/rhs/rhs_dfr.py", lambda: euler(p, rep, re_, again, ne, nev, n))
    for ne, n in ([(2, 2), (1, 3)] if tier == "quick" else [(2, 2), (1, 3), (3, 2), (2, 4)]):
        for topo in (True, False):
            guard(rep, rs, f"{ne} x {ne} elements, {n} points", "wx_factory/rhs/rhs_sw.py", lambda: shallow(p, rep, rs, ne, n, topo))
    br = R.Bridge(p)
    for nx, nz, n in ([(2, 3, 2), (3, 2, 3)] if tier == "quick" else [(2, 3, 2), (3, 2, 3), (4, 4, 2), (2, 2, 4)]):
        guard(rep, rc, f"{nz} x {nx} elements, {n} points", "wx_factory/pde/pde_euler_cartesian.py", lambda: cartesian(p, rep, rc, br, nx, nz, n))
    rep.analysed |= {f"native:{f}" for f in br.functions}


def guard(rep, rid, tag, where, f):
    try:
        f()
    except (ArrayError, RaiseOutcome) as e:
        rep.bad(rid, tag, f"the right-hand side cannot be evaluated: {R.fail(e)}", where)


def sides(half, ax, v):
    """values next to each interface of an array with halo: (left, right), interfaces counted along axis ax"""
    m = v.shape[ax]
    lo = np.take(v, range(m - 1), axis=ax)[..., half:2 * half]
    hi = np.take(v, range(1, m), axis=ax)[..., :half]
    return lo, hi


def faces(half, ax, left, right=None):
    """interface values -> values at the two faces of each inner element"""
    right = left if right is None else right
    m = left.shape[ax]
    lowface = np.take(right, range(m - 1), axis=ax)
    hiface = np.take(left, range(1, m), axis=ax)
    return np.concatenate([lowface, hiface], axis=-1)


def padded(q, ax, half, low, high):
    """element faces with a halo element at each end; only its face that touches the domain is defined"""
    def ext(v):
        e = np.expand_dims(v, ax)
        return np.concatenate([e, e], axis=-1)
    return np.concatenate([ext(low), q, ext(high)], axis=ax)


def euler(p, rep, rid, again, ne, nev, n):
    I = R.interp(p)
    c = R.constants(I, R.EULER)
    ix = {k: int(v) for k, v in R.constants(I, R.IDX3).items()}
    ir, it = ix["idx_rho"], ix["idx_rho_theta"]
    mom = [ix["idx_rho_u1"], ix["idx_rho_u2"], ix["idx_rho_w"]]
    iw = mom[2]
    half, N = n * n, n ** 3
    key = ("e", ne, nev, n)
    q = R.state3((5, nev, ne, ne, N), key, ix)
    mats = R.mats3(n, key)
    met = R.metric3(ne, nev, n, key)
    halo = {s: R.state3((5, nev, ne, half), key + (s,), ix) for s in ("south", "north", "west", "east")}
    expect = {}

    def reply(i, kind, sd):
        out = {}
        for s, own in sd.items():
            if kind == "scalar":
                v = ir if R.close(own, expect[s][ir]) is None else it if R.close(own, expect[s][it]) is None else None
                if v is None:
                    raise SendError(f"what is sent {s} is not the density or the density-weighted temperature at that edge")
                out[s] = halo[s][v]
            else:
                for k, x in enumerate(own):
                    d = R.close(x, expect[s][mom[k]])
                    if d is not None:
                        raise SendError(f"component {k + 1} sent {s} is not that of the momentum at that edge: {d}")
                out[s] = [halo[s][m] for m in mom]
        return out

    # reference
    def extrap(x):
        e = matmul(q, mats["extrap_" + x])
        for v in (ir, it):
            e[v] = EXP(matmul(LOG(q[v]), mats["extrap_" + x]))
        return e

    qi = [extrap("x"), extrap("y"), extrap("z")]
    expect.update(west=qi[0][:, :, :, 0, :half], east=qi[0][:, :, :, -1, half:], south=qi[1][:, :, 0, :, :half], north=qi[1][:, :, -1, :, half:])
    rho = q[ir]
    P = R.pressure(c, q[it])
    G, h = met["sqrtG_new"], met["h_contra_new"]
    total = 0
    wtotal = 0
    for d, (x, corr, nm) in enumerate((("x", "WE", "i"), ("y", "SN", "j"), ("z", "DU", "k"))):
        ax = 3 - d  # of a state array; metric arrays have one axis fewer
        u = q[mom[d]] / rho
        f = G * u * q
        adv = G * u * q[iw]
        for k, m in enumerate(mom):
            f[m] = f[m] + G * h[d, k] * P
        wp = G * h[d, 2]
        if d == 2:
            low, high = qi[2][:, 0, :, :, :half].copy(), qi[2][:, -1, :, :, half:].copy()
            low[iw], high[iw] = -low[iw], -high[iw]
        else:
            low, high = (halo["west"], halo["east"]) if d == 0 else (halo["south"], halo["north"])
        full = padded(qi[d], ax, half, low, high)
        L, Rr = sides(half, ax, full)
        if d == 2:
            # the wall: odd symmetry of the velocity only, the transported state is that of the element
            vl, vr = L[iw] / L[ir], Rr[iw] / Rr[ir]
            L, Rr = L.copy(), Rr.copy()
            L[iw][0] = -L[iw][0]
            Rr[iw][-1] = -Rr[iw][-1]
        else:
            vl, vr = L[mom[d]] / L[ir], Rr[mom[d]] / Rr[ir]
        Gl, Gr = sides(half, ax - 1, met[f"sqrtG_itf_{nm}_new"])
        Hl, Hr = sides(half, ax + 1, met[f"h_contra_itf_{nm}_new"])
        Pl, Pr = R.pressure(c, L[it]), R.pressure(c, Rr[it])
        lam = MAX(ABS(vl) + SQRT(Hl[d, d] * c["heat_capacity_ratio"] * Pl / L[ir]), ABS(vr) + SQRT(Hr[d, d] * c["heat_capacity_ratio"] * Pr / Rr[ir]))
        fl, fr = Gl * vl * L, Gr * vr * Rr
        num = (fl + fr - lam * Gl * (Rr - L)) / 2
        advn = num[iw].copy()
        for k, m in enumerate(mom):
            num[m] = num[m] + (Gl * Hl[d, k] * Pl + Gr * Hr[d, k] * Pr) / 2
        pw = (Gl * Hl[d, 2] * Pl + Gr * Hr[d, 2] * Pr) / 2
        D, C = mats["derivative_" + x], mats["correction_" + corr]
        total = total + matmul(f, D) + matmul(faces(half, ax, num), C)
        wa = matmul(adv, D) + matmul(faces(half, ax - 1, advn), C)
        wb = P * (matmul(wp, D) + matmul(faces(half, ax - 1, pw / Pl, pw / Pr), C))
        wc = P * wp * (matmul(LOG(P), D) + matmul(faces(half, ax - 1, LOG(Pl), LOG(Pr)), C))
        wtotal = wtotal + wa + wb + wc
    want = -total / G
    want[iw] = -wtotal / G
    forc = c11.forcing_formula(c, ix, q, P, h, met["christoffel"])
    for k, m in enumerate(mom):
        want[m] = want[m] - forc[k]
    want[iw] = want[iw] - met["inv_dzdeta_new"] * c["gravity"] / G * matmul(G * rho, mats["highfilter_k"])

    r = R.euler3d(p, q, mats, met, reply, ne=ne, nev=nev, n=n)
    tag = f"{nev} x {ne} x {ne} elements, {n} points"
    for k in R.IDX3:
        d = R.close(r.res[ix[k]], want[ix[k]])
        rep.check(d is None, rid, f"{tag}, {k}", f"the tendency is not the flux divergence and sources of that variable: {d}", "wx_factory/rhs/rhs_dfr.py")
    if (ne, nev, n) == (2, 2, 2):
        r2 = R.euler3d(p, q, mats, met, reply, ne=ne, nev=nev, n=n, times=2)
        d = R.close(r2.res, want)
        rep.check(d is None, again, f"{tag}", f"the second evaluation differs: {d}", "wx_factory/rhs/rhs.py")
    rep.analysed |= r.I.analysed


def shallow(p, rep, rid, ne, n, with_topo):
    I = R.interp(p)
    ix = {k: int(v) for k, v in R.constants(I, ["idx_h", "idx_hu1", "idx_hu2"]).items()}
    g = R.constants(I, ["gravity"])["gravity"]
    ih, mom = ix["idx_h"], [ix["idx_hu1"], ix["idx_hu2"]]
    N, half = n * n, n
    key = ("s", ne, n, with_topo)
    sh = (ne, ne, N)
    q = rand((3,) + sh, key, lo=1, hi=2)
    for m in mom:
        q[m] = rand(sh, key, m, lo=-1, hi=1)
    mats = {}
    for x in "xy":
        mats["extrap_" + x] = R.convex(N, 2 * half, key, x)
        mats["derivative_" + x] = rand((N, N), key, "d", x, lo=-1)
    for x in ("WE", "SN"):
        mats["correction_" + x] = rand((2 * half, N), key, "c", x, lo=-1)
    met = {"sqrtG": rand(sh, key, "G", lo=1, hi=2)}
    met["inv_sqrtG"] = 1 / met["sqrtG"]
    H = R.spd(2, sh, key, "H")
    for a in (0, 1):
        for b in (0, 1):
            met[f"H_contra_{a + 1}{b + 1}"] = H[a, b]
    for k in ("1_01", "1_02", "1_11", "1_12", "2_01", "2_02", "2_12", "2_22"):
        met["christoffel_" + k] = rand(sh, key, "c", k)
    met["christoffel_1_22"] = met["christoffel_2_11"] = rand(sh, key, "z") * 0
    topo = {"hsurf": rand(sh, key, "t", hi=mp.mpf("0.1")), "dzdx1": rand(sh, key, "t1"), "dzdx2": rand(sh, key, "t2")} if with_topo else None
    Hitf = {}
    for nm, ax in (("i", 1), ("j", 0)):
        s = [ne, ne, 2 * half]
        s[ax] += 2
        s = tuple(s)
        met[f"sqrtG_itf_{nm}"] = R.both_sides(s, ax, half, lambda t: rand(t, key, "G", nm, lo=1, hi=2))
        for a, b in ((1, 1), (1, 2), (2, 2)):
            v = R.both_sides(s, ax, half, lambda t: rand(t, key, "h", nm, a, b, lo=mp.mpf("0.1"), hi=mp.mpf("0.4")) + (1 if a == b else 0))
            met[f"H_contra_{a}{b}_itf_{nm}"] = v
            met[f"H_contra_{b}{a}_itf_{nm}"] = v
        if topo:
            topo[f"hsurf_itf_{nm}"] = R.both_sides(s, ax, half, lambda t: rand(t, key, "ts", nm, hi=mp.mpf("0.1")))
    halo = {}
    for s in ("south", "north", "west", "east"):
        halo[s] = rand((3, ne, half), key, s, lo=1, hi=2)
        for m in mom:
            halo[s][m] = rand((ne, half), key, s, m, lo=-1, hi=1)
    Q = q.copy()
    if topo:
        Q[ih] = Q[ih] + topo["hsurf"]
    qi = [matmul(Q, mats["extrap_x"]), matmul(Q, mats["extrap_y"])]
    expect = dict(west=qi[0][:, :, 0, :half], east=qi[0][:, :, -1, half:], south=qi[1][:, 0, :, :half], north=qi[1][:, -1, :, half:])

    def reply(i, kind, sd):
        out = {}
        for s, own in sd.items():
            for m, x in zip(mom if kind == "vector" else [ih], own if kind == "vector" else [own]):
                d = R.close(x, expect[s][m])
                if d is not None:
                    raise SendError(f"what is sent {s} for variable {m} is not the state at that edge: {d}")
            out[s] = [halo[s][m] for m in mom] if kind == "vector" else halo[s][ih]
        return out

    G = met["sqrtG"]
    total = 0
    u = [q[m] / q[ih] for m in mom]
    for d, (x, corr, nm) in enumerate((("x", "WE", "i"), ("y", "SN", "j"))):
        ax = 2 - d
        f = G * u[d] * q
        for k, m in enumerate(mom):
            f[m] = f[m] + G * g / 2 * H[d, k] * q[ih] ** 2
        low, high = (halo["west"], halo["east"]) if d == 0 else (halo["south"], halo["north"])
        L, Rr = sides(half, ax, padded(qi[d], ax, half, low, high))
        if topo:
            tl, tr = sides(half, ax - 1, topo[f"hsurf_itf_{nm}"])
            L, Rr = L.copy(), Rr.copy()
            L[ih], Rr[ih] = L[ih] - tl, Rr[ih] - tr
        Gl, Gr = sides(half, ax - 1, met[f"sqrtG_itf_{nm}"])
        hh = [sides(half, ax - 1, met[f"H_contra_{d + 1}{k + 1}_itf_{nm}"]) for k in (0, 1)]
        al, ar = SQRT(g * L[ih] * hh[d][0]), SQRT(g * Rr[ih] * hh[d][1])
        ml, mr = L[mom[d]] / (L[ih] * al), Rr[mom[d]] / (Rr[ih] * ar)
        M = ((ml + 1) ** 2 - (mr - 1) ** 2) / 4
        zero = mp.mpf(0)
        num = Gl * (MAX(M, zero) * al * L + MIN(M, zero) * ar * Rr)
        for k, m in enumerate(mom):
            pl, pr = Gl * g / 2 * hh[k][0] * L[ih] ** 2, Gr * g / 2 * hh[k][1] * Rr[ih] ** 2
            num[m] = num[m] + ((1 + ml) * pl + (1 - mr) * pr) / 2
        total = total + matmul(f, mats["derivative_" + x]) + matmul(faces(half, ax, num), mats["correction_" + corr])
    want = -total / G
    ch = lambda k: met["christoffel_" + k]
    for k, m in enumerate(mom):
        j = str(k + 1)
        s = 2 * (ch(j + "_01") * q[mom[0]] + ch(j + "_02") * q[mom[1]]) + 2 * ch(j + "_12") * q[mom[0]] * u[1]
        s = s + ch(f"{j}_{j}{j}") * q[m] * u[k]
        if topo:
            s = s + g * q[ih] * (H[k, 0] * topo["dzdx1"] + H[k, 1] * topo["dzdx2"])
        want[m] = want[m] - s
    r = R.shallow(p, q, mats, met, topo, reply, ne=ne, n=n)
    for k, v in ix.items():
        d = R.close(r.res[v], want[v])
        rep.check(d is None, rid, f"{ne} x {ne} elements, {n} points, {'with' if topo else 'without'} topography, {k}", f"the tendency is not the flux divergence and sources of that variable: {d}", "wx_factory/rhs/rhs_sw.py")
    rep.analysed |= r.I.analysed


def cartesian(p, rep, rid, br, nx, nz, n):
    I = R.interp(p)
    c = R.constants(I, R.EULER)
    ix = {k: int(v) for k, v in R.constants(I, R.IDX2).items()}
    ir, it, mom = ix["idx_2d_rho"], ix["idx_2d_rho_theta"], [ix["idx_2d_rho_u"], ix["idx_2d_rho_w"]]
    N, half = n * n, n
    key = ("c", nx, nz, n)
    q = rand((4, nz, nx, N), key, lo=mp.mpf("0.5"), hi=2)
    for m in mom:
        q[m] = rand((nz, nx, N), key, m, lo=-25, hi=25)
    q[it] = q[it] * 300
    mats = {}
    for x in "xz":
        mats["extrap_" + x] = R.convex(N, 2 * half, key, x)
        mats["derivative_" + x] = rand((N, N), key, "d", x, lo=-1)
    for x in ("WE", "DU"):
        mats["correction_" + x] = rand((2 * half, N), key, "c", x, lo=-1)
    dx = [rand((1,), key, "x", lo=10, hi=20)[0], rand((1,), key, "z", lo=10, hi=20)[0]]
    P = R.pressure(c, q[it])
    want = 0
    for d, (x, corr) in enumerate((("x", "WE"), ("z", "DU"))):
        ax = 2 - d
        f = q[mom[d]] / q[ir] * q
        f[mom[d]] = f[mom[d]] + P
        qi = matmul(q, mats["extrap_" + x])
        m = qi.shape[ax]
        L = np.take(qi, range(m - 1), axis=ax)[..., half:]
        Rr = np.take(qi, range(1, m), axis=ax)[..., :half]
        Pl, Pr = R.pressure(c, L[it]), R.pressure(c, Rr[it])
        al, ar = SQRT(c["heat_capacity_ratio"] * Pl / L[ir]), SQRT(c["heat_capacity_ratio"] * Pr / Rr[ir])
        ml, mr = L[mom[d]] / (L[ir] * al), Rr[mom[d]] / (Rr[ir] * ar)
        M = ((ml + 1) ** 2 - (mr - 1) ** 2) / 4
        zero = mp.mpf(0)
        num = MAX(M, zero) * al * L + MIN(M, zero) * ar * Rr
        num[mom[d]] = num[mom[d]] + ((1 + ml) * Pl + (1 - mr) * Pr) / 2
        fi = np.empty(qi.shape, dtype=object)
        fi[...] = zero
        lo = [slice(None)] * 4
        hi = [slice(None)] * 4
        lo[ax], lo[-1] = slice(0, m - 1), slice(half, None)
        hi[ax], hi[-1] = slice(1, m), slice(0, half)
        fi[tuple(lo)] = num
        fi[tuple(hi)] = num
        Pw = R.pressure(c, qi[it])
        for e, sl in ((0, slice(0, half)), (m - 1, slice(half, None))):
            s = [slice(None)] * 3
            s[ax - 1], s[-1] = e, sl
            fi[mom[d]][tuple(s)] = Pw[tuple(s)]
        want = want - 2 / dx[d] * (matmul(f, mats["derivative_" + x]) + matmul(fi, mats["correction_" + corr]))
    want[mom[1]] = want[mom[1]] - c["gravity"] * q[ir]
    r = R.cartesian(p, br, q, mats, nx, nz, n, dx[0], dx[1])
    for k, v in ix.items():
        d = R.close(r.res[v], want[v])
        rep.check(d is None, rid, f"{nz} x {nx} elements, {n} points, {k}", f"the tendency is not the flux divergence and sources of that variable: {d}", "wx_factory/pde/pde_euler_cartesian.py")
    rep.analysed |= r.I.analysed
