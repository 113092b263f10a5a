"""C28: diagnostics and output fields are the quantities their names say."""
from __future__ import annotations

import re

import mpmath as mp
import numpy as np

from .. import hp, layout
from .. import rhsdom as R
from ..interp import Hook, MISSING, Obj, RaiseOutcome
from ..layout import LA
from ..par import pmap
from ..project import AnalysisError
from ..rhsdom import rand
from ..simmpi import World
from . import c07, c15

DIAG = "output/diagnostic.py"
NCW = "output/output_cubesphere_netcdf.py"


def call(I, mod, name, args, kw=None):
    return I.call(I.get_func(mod, name), list(args), dict(kw or {}), None)


def closeto(got, want, eps=mp.mpf(10) ** -20):
    if isinstance(got, LA):
        g = R.values(got)
    else:
        g = np.array([R.num(got)], dtype=object).reshape(())
    w = np.asarray(want, dtype=object)
    if g.shape != w.shape:
        return f"shape {g.shape} instead of {w.shape}"
    for i in np.ndindex(*w.shape):
        if g[i] is None or not isinstance(g[i], mp.mpf) or not abs(g[i] - w[i]) <= eps * (1 + abs(w[i])):
            return f"at {i}: {mp.nstr(g[i], 8) if isinstance(g[i], mp.mpf) else g[i]} instead of {mp.nstr(w[i], 8)}"
    return None


def symmetric(key, sh):
    h = R.spd(2, sh, key, "H")
    return h


class Poly2:
    def __init__(self, n, key):
        self.c = rand((n, n), key, lo=-1, hi=1)      # c[a, b] x1^a x2^b

    def at(self, x, y, dx=0, dy=0):
        s = mp.mpf(0)
        for (a, b), c in np.ndenumerate(self.c):
            if a >= dx and b >= dy:
                s += c * (a if dx else 1) * (b if dy else 1) * x ** (a - dx) * y ** (b - dy)
        return s


def vorticity(p, R_, n, ne):
    """polynomial covariant winds: the derivatives are exact"""
    I, g, op = c15.build(p, n, 2)
    pts = [R.num(x) for x in g.attrs["solutionPoints"].a]
    sh = (ne, ne, n * n)
    key = ("c28", n, ne)
    H = symmetric(key, sh)
    inv_G = rand(sh, key, "g", lo=mp.mpf("0.5"), hi=2)
    f = rand(sh, key, "f", lo=-1, hi=1)
    h = rand(sh, key, "h", lo=1, hi=2)
    metric = Obj(None, "metric", {f"H_cov_{a + 1}{b + 1}": hp.wrap(H[a, b]) for a in (0, 1) for b in (0, 1)})
    metric.attrs["inv_sqrtG"] = hp.wrap(inv_G)
    metric.attrs["sqrtG"] = hp.wrap(1 / inv_G)
    metric.attrs["coriolis_f"] = hp.wrap(f)
    cov = np.empty((2,) + sh, dtype=object)
    curl = np.empty(sh, dtype=object)
    for ej in range(ne):
        for ei in range(ne):
            p1, p2 = Poly2(n, key + (ej, ei, 1)), Poly2(n, key + (ej, ei, 2))
            for q in range(n * n):
                x, y = pts[q % n], pts[q // n]
                cov[0, ej, ei, q], cov[1, ej, ei, q] = p1.at(x, y), p2.at(x, y)
                curl[ej, ei, q] = p2.at(x, y, dx=1) - p1.at(x, y, dy=1)
    det = H[0, 0] * H[1, 1] - H[0, 1] * H[1, 0]
    u1 = (H[1, 1] * cov[0] - H[0, 1] * cov[1]) / det
    u2 = (H[0, 0] * cov[1] - H[1, 0] * cov[0]) / det
    want = inv_G * curl
    U1, U2 = hp.wrap(u1), hp.wrap(u2)
    label = f"{ne}x{ne} elements of {n}x{n} points"
    d = closeto(call(I, "output.diagnostic", "relative_vorticity", [U1, U2, metric, op]), want)
    R_.check(d is None, "vorticity", f"relative vorticity, {label}", str(d), DIAG)
    d = closeto(call(I, "output.diagnostic", "absolute_vorticity", [U1, U2, metric, op]), want + f)
    R_.check(d is None, "vorticity", f"absolute vorticity, {label}", str(d), DIAG)
    d = closeto(call(I, "output.diagnostic", "potential_vorticity", [hp.wrap(h), U1, U2, metric, op]), (want + f) / h)
    R_.check(d is None, "vorticity", f"potential vorticity, {label}", str(d), DIAG)
    d = closeto(call(I, "output.diagnostic", "potential_enstrophy", [hp.wrap(h), U1, U2, g, metric, op, Obj(None, "config", {})]), (want + f) ** 2 / (2 * h))
    R_.check(d is None, "vorticity", f"potential enstrophy, {label}", str(d), DIAG)
    grav = R.constants(I, ["gravity"])["gravity"]
    for topo in (False, True):
        hs = rand(sh, key, "hs", lo=0, hi=1)
        tp = Obj(None, "topo", {"hsurf": hp.wrap(hs)}) if topo else None
        z = hs if topo else 0 * hs
        we = h * (u1 * cov[0] + u2 * cov[1]) / 2 + mp.mpf(grav) * ((h + z) ** 2 - z ** 2) / 2
        d = closeto(call(I, "output.diagnostic", "total_energy", [hp.wrap(h), U1, U2, tp, metric]), we)
        R_.check(d is None, "energy", f"total energy, {label}, {'with' if topo else 'no'} topography", str(d), DIAG)
    R_.analysed |= I.analysed


def integral(p, R_, n, nproc):
    I0, g, op = c15.build(p, n, 2)
    xs, ws = gauss(n)
    ne = 2
    sh = (ne, ne, n * n)
    total = mp.mpf(0)
    fields = []
    for r in range(nproc):
        fields.append((rand(sh, "int", n, r, lo=-1, hi=1), rand(sh, "intG", n, r, lo=1, hi=2)))
        for (ej, ei, q), x in np.ndenumerate(fields[-1][0]):
            total += x * fields[-1][1][ej, ei, q] * ws[q % n] * ws[q // n]
    its = []

    def body(r, world):
        I = R.interp(p)
        its.append(I)
        comm = world.obj(r)
        f, G = fields[r]
        keep = hp.wrap(f)
        return call(I, "output.diagnostic", "global_integral_2d", [keep, op, Obj(None, "metric", {"sqrtG": hp.wrap(G), "inv_sqrtG": hp.wrap(1 / G)}), n, comm])
    out = World(nproc).run(body)
    for r, (k, v) in enumerate(out):
        d = closeto(v, total) if k == "ok" else f"{k} {v}"
        R_.check(d is None, "integral", f"global integral, {n}x{n} points, {nproc} processes, process {r}", str(d), DIAG)
    for I in its:
        R_.analysed |= I.analysed


def gauss(n):
    xs, ws = [], []
    for i in range(n):
        x = mp.findroot(lambda t: mp.legendre(n, t), mp.cos(mp.pi * (n - i - mp.mpf(1) / 4) / (n + mp.mpf(1) / 2)))
        d = n * (x * mp.legendre(n, x) - mp.legendre(n - 1, x)) / (x * x - 1)
        xs.append(x)
        ws.append(2 / ((1 - x * x) * d * d))
    return xs, ws


# ---------------------------------------------------------------- the files
def written(p, R_, kind, case, topo):
    label = f"{kind}, case {case}, {'with' if topo else 'no'} topography"
    its = []

    def body(r, world):
        I = R.interp(p)
        I.exact = True
        its.append(I)
        box = {}
        orig = c07.NcFile

        W, Q, out = c07.scene(p, I, world, r, kind, case, topo)
        nc = out.attrs.get("ncfile")
        g, metric, ops = out.attrs["geometry"], out.attrs["metric"], out.attrs["operators"]
        T = lambda a: R.values(I.call(I.getattr_(g, "to_single_block", None), [hp.wrap(a)], {}, None))
        I.call(I.getattr_(out, "__write_result__", None), [Q, 1], {}, None)
        I.call(I.getattr_(out, "__write_result__", None), [Q, 7], {}, None)
        q = R.values(Q)
        want = {}
        if kind == "netcdf2":
            hs = R.values(out.attrs["topo"].a_attr(I, "hsurf", None)) if topo else 0 * q[0]
            want["h"] = T(q[0] + hs)
            if case >= 2:
                u1, u2 = hp.wrap(q[1] / q[0]), hp.wrap(q[2] / q[0])
                u, v = I.call(I.getattr_(g, "contra2wind", None), [u1, u2], {}, None)
                want["U"], want["V"] = T(R.values(u)), T(R.values(v))
                want["RV"] = T(R.values(call(I, "output.diagnostic", "relative_vorticity", [u1, u2, metric, ops])))
                want["PV"] = T(R.values(call(I, "output.diagnostic", "potential_vorticity", [hp.wrap(q[0]), u1, u2, metric, ops])))
        else:
            ix = {k: int(v) for k, v in R.constants(I, R.IDX3).items()}
            c = R.constants(I, ["p0", "Rd", "cpd", "cvd"])
            rho = q[ix["idx_rho"]]
            us = [hp.wrap(q[ix[k]] / rho) for k in ("idx_rho_u1", "idx_rho_u2", "idx_rho_w")]
            u, v, w = I.call(I.getattr_(g, "contra2wind_3d", None), us + [metric], {}, None)
            want.update(rho=T(rho), U=T(R.values(u)), V=T(R.values(v)), W=T(R.values(w)), theta=T(q[ix["idx_rho_theta"]] / rho))
            want["P"] = T(np.frompyfunc(lambda x: mp.mpf(c["p0"]) * (x * mp.mpf(c["Rd"]) / mp.mpf(c["p0"])) ** (mp.mpf(c["cpd"]) / mp.mpf(c["cvd"])), 1, 1)(q[ix["idx_rho_theta"]]))
            for i in {11: range(4), 12: range(1)}.get(case, ()):
                want[f"q{i + 1}"] = T(q[5 + i] / rho)
        return want, ({k: v.rec for k, v in nc.vars.items()} if nc is not None and hasattr(nc, "vars") else None)
    out = World(6).run(body)
    for i, (k, v) in enumerate(out):
        if k != "ok":
            if k == "raise":
                R_.bad("fields", f"{label}: process {i}", f"ends with {v}", NCW)
                return
            raise AnalysisError(f"{label}: process {i}: {k} {v}")
    rec = out[0][1][1]
    if rec is None:
        raise AnalysisError("no file on process 0")
    for name in out[0][1][0]:
        if name not in rec:
            R_.bad("fields", f"{label}: {name}", "not in the file", NCW)
            continue
        for t in (0, 1):
            sh = out[0][1][0][name].shape
            got = np.full((6,) + sh, None, dtype=object)
            for idx, v in rec[name]:
                ix = idx if isinstance(idx, tuple) else (idx,)
                if ix[0] == t and isinstance(v, LA):
                    got[ix[1:]] = R.values(v)
            for panel in range(6):
                d = closeto(hp.wrap(got[panel]) if all(x is not None for x in got[panel].flat) else None, out[panel][1][0][name]) if not any(x is None for x in got[panel].flat) else "not written"
                R_.check(d is None, "fields", f"{label}: {name}, record {t}, panel {panel}", str(d), NCW)
    for I in its:
        R_.analysed |= I.analysed


NUM = re.compile(r"C\((-?[0-9.]+(?:e[-+]?[0-9]+)?|-?inf|nan)\)")


def printed(lines):
    return [mp.mpf(x) for ln in lines for x in NUM.findall(ln) if x not in ("nan", "inf", "-inf")]


def has(nums, v):
    return any(abs(x - v) <= mp.mpf(10) ** -10 * (abs(v) + mp.mpf(10) ** -10) for x in nums)


HEIGHT = {0: "height_vortex", 1: "height_case1", 2: "height_case2", 10: "height_unsteady_zonal"}


def stats2(p, R_, case, topo):
    """block statistics of the shallow-water cases, two calls"""
    label = f"statistics of case {case}, {'with' if topo else 'no'} topography"
    where = "output/output_cubesphere.py"
    n = 2
    xs, ws = gauss(n)
    its = []

    def body(r, world):
        I = R.interp(p)
        I.exact = True
        its.append(I)
        lines = []
        I.builtins["print"] = lambda I2, a, k, nd: lines.append(" ".join(x if isinstance(x, str) else repr(x) for x in a))
        W, Q, out = c07.scene(p, I, world, r, "netcdf2", case, topo)
        g, metric, ops = out.attrs["geometry"], out.attrs["metric"], out.attrs["operators"]
        out.attrs["config"].attrs["t_end"] = hp.C(mp.mpf(80))      # the third step of 30 s is shortened
        ops.have["quad_weights"] = hp.wrap(np.array([[a * b for a in ws] for b in ws], dtype=object))
        res = []
        for step in (0, 3):
            if step:
                Q.a[...] = hp.wrap(rand(Q.a.shape, "stats", r, case, lo=1, hi=2)).a
            del lines[:]
            I.call(I.getattr_(out, "__blockstats__", None), [Q, step], {}, None)
            q = R.values(Q)
            G = R.values(metric.a_attr(I, "sqrtG", None))
            ref = None
            if case in HEIGHT:
                a = [g, metric, out.attrs["config"]] + ([hp.C(min(mp.mpf(step), mp.mpf(80) / 30))] if case < 2 else [])
                keep = list(lines)
                ref = call(I, "init.shallow_water_test", HEIGHT[case], a)
                lines[:] = keep
                ref = R.values(ref[0] if isinstance(ref, tuple) else ref)
            d = {"h": q[0], "G": G, "ref": ref}
            if case >= 2:
                u1, u2 = hp.wrap(q[1] / q[0]), hp.wrap(q[2] / q[0])
                d["energy"] = R.values(call(I, "output.diagnostic", "total_energy", [hp.wrap(q[0]), u1, u2, out.attrs["topo"], metric]))
                d["enstrophy"] = R.values(call(I, "output.diagnostic", "potential_enstrophy", [hp.wrap(q[0]), u1, u2, g, metric, ops, out.attrs["config"]]))
            res.append((d, list(lines)))
        return res
    out = World(6).run(body)
    for i, (k, v) in enumerate(out):
        if k != "ok":
            if k == "raise":
                R_.bad("statistics", f"{label}: process {i}", f"ends with {v}", where)
                return
            raise AnalysisError(f"{label}: process {i}: {k} {v}")
    for I in its:
        R_.analysed |= I.analysed

    def integ(step, f):
        s = mp.mpf(0)
        for _, v in out:
            d = v[step][0]
            x = f(d)
            for (ej, ei, q), y in np.ndenumerate(x):
                s += y * d["G"][ej, ei, q] * ws[q % n] * ws[q // n]
        return s
    init = {}
    for step in (0, 1):
        nums = printed(out[0][1][step][1])
        for i in range(1, 6):
            R_.check(not printed(out[i][1][step][1]), "statistics", f"{label}, call {step}: process {i}", "prints too", where)
        want = {}
        if out[0][1][0][0]["ref"] is not None:
            e1 = integ(step, lambda d: abs(d["h"] - d["ref"]))
            want["l1"] = e1 / integ(step, lambda d: abs(d["ref"]))
            want["l2"] = mp.sqrt(integ(step, lambda d: (d["h"] - d["ref"]) ** 2) / integ(step, lambda d: d["ref"] ** 2))
            want["linf"] = max(max(abs(v[step][0]["h"] - v[step][0]["ref"]).flat) for _, v in out) / max(max(v[step][0]["ref"].flat) for _, v in out)
        if case >= 2:
            for nm, f in (("mass", lambda d: d["h"]), ("energy", lambda d: d["energy"]), ("enstrophy", lambda d: d["enstrophy"])):
                v = integ(step, f)
                if step == 0:
                    init[nm] = v
                    want[f"integral of {nm}"] = v
                else:
                    want[f"normalized {nm}"] = (v - init[nm]) / init[nm]
        for nm, v in want.items():
            R_.check(has(nums, v), "statistics", f"{label}, call {step}: {nm}", f"{mp.nstr(v, 10)} is not among the numbers printed: {[mp.nstr(x, 8) for x in nums][:10]}", where)


def stats_cartesian(p, R_):
    where = "output/output_cartesian.py"
    box = []

    def body(r, world):
        I = R.interp(p)
        I.exact = True
        box.append(I)
        lines = []
        I.builtins["print"] = lambda I2, a, k, nd: lines.append(" ".join(x if isinstance(x, str) else repr(x) for x in a))
        W, Q, out = c07.scene(p, I, world, r, "cartesian", 2, False)
        del lines[:]
        I.call(I.getattr_(out, "__blockstats__", None), [Q, 0], {}, None)
        ix = {k: int(v) for k, v in R.constants(I, R.IDX2).items()}
        return R.values(Q), lines, ix
    (k, v), = World(1).run(body)
    if k != "ok":
        raise AnalysisError(f"Cartesian statistics: {k} {v}")
    q, lines, ix = v
    nums = printed(lines)
    rho = q[ix["idx_2d_rho"]]
    for nm, f in (("density", rho), ("u", q[ix["idx_2d_rho_u"]] / rho), ("w", q[ix["idx_2d_rho_w"]] / rho), ("theta", q[ix["idx_2d_rho_theta"]] / rho)):
        for what, x in (("minimum", min(f.flat)), ("maximum", max(f.flat)), ("mean", sum(f.flat) / f.size)):
            R_.check(has(nums, x), "statistics", f"Cartesian grid: {what} of {nm}", f"{mp.nstr(x, 10)} is not among the numbers printed", where)
    R_.analysed |= box[0].analysed


def run(p, R_, tier):
    R_.explanation = ("The diagnostics are interpreted over generic values with the model's own operators and compared with their definitions (winds whose covariant components are polynomials, so that the derivatives are known exactly); global integrals and block statistics on simulated processes; "
                      "the netCDF output is interpreted and every value it writes compared with the quantity the variable's name stands for.")
    R_.rule("vorticity", "vorticities and enstrophy are those of the wind: exact for polynomial covariant components", 8)
    R_.rule("energy", "energy per unit area is kinetic plus potential energy above the orography", 4)
    R_.rule("integral", "a global integral is the quadrature over all points of all processes, each counted once, on every process", 7)
    R_.rule("fields", "every field in the file is the quantity its name says, at every point and record", 60)
    R_.rule("statistics", "the error norms, integrals, normalized errors and extremes reported are those of the state", 40)
    for dim in (2, 3):
        c07.GEO[dim] = layout.geometry_obj(p, dim, 1, 2, 2, 0)[1]
    tasks = [("v", n, ne) for n, ne in (((2, 1), (3, 2), (4, 1)) if tier != "thorough" else ((2, 1), (2, 3), (3, 2), (4, 2), (5, 1), (6, 1), (7, 1)))]
    tasks += [("i", n, k) for n, k in ((2, 1), (3, 6), (4, 6))]
    tasks += [("w", "netcdf2", c, t) for c in (0, 1, 2, 5) for t in (False, True)] + [("w", "netcdf3", c, False) for c in (11, 12, 31)]
    tasks += [("s", c, t) for c in (0, 1, 2, 5, 6, 10) for t in (False, True)] + [("c",)]

    def one(t):
        if t[0] == "v":
            vorticity(p, R_, *t[1:])
        elif t[0] == "i":
            integral(p, R_, *t[1:])
        elif t[0] == "w":
            written(p, R_, *t[1:])
        elif t[0] == "s":
            stats2(p, R_, *t[1:])
        else:
            stats_cartesian(p, R_)
    pmap(one, tasks, R_)
