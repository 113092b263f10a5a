"""C11: physical constants and state layout agree between Python and the native kernels."""
from __future__ import annotations

import ast

import mpmath as mp
import numpy as np

from .. import cxx, hp, rhsdom
from ..hp import C, num
from ..interp import Obj, Opaque, RaiseOutcome
from ..layout import ArrayError, LA
from ..project import AnalysisError, loc
from ..rhsdom import Bridge, close, fail, rand, values

D = "wx_factory/pde/definitions.hpp"


def run(p, rep, tier):
    rep.explanation = ("The native sources are parsed and type-checked by clang; the instantiations bound to Python are interpreted over generic values together with the Python code that calls them, and the "
                       "result is compared with the flux and forcing formulas written with the Python constants and variable numbers.")
    rep.assumptions += ["clang's syntax tree is the program that the native compiler builds", "pybind11 passes contiguous arrays by reference and integers by value"]
    rc = rep.rule("constant", "a constant defined on both sides has one value", 5)
    rb = rep.rule("binding", "every native function used from Python is bound, for real and complex arrays, with one parameter list", 6)
    rl = rep.rule("layout", "kernels called from Python read and write each variable at its Python number", 8)
    rf = rep.rule("forcing", "the native forcing reads metric and connection terms at their Python position", 12)
    rd = rep.rule("duplicate", "a constant is not redefined with another value", 1)
    br = Bridge(p)
    I = rhsdom.interp(p, br)
    constants(p, rep, rc, br, I)
    binds(p, rep, rb, br)
    duplicates(p, rep, rd, I)
    for nx, nz, n in ((2, 3, 2), (3, 2, 1), (1, 2, 3)):
        cartesian(p, rep, rl, br, nx, nz, n)
    forcing(p, rep, rf, br, I)
    rep.analysed |= I.analysed | {f"native:{f}" for f in br.functions}


def constants(p, rep, rid, br, I):
    M = cxx.Machine(br.unit)
    seen = 0
    for d in list(br.unit.decl.values()):
        if d["kind"] != "VarDecl" or not d.get("name") or "double" not in d.get("type", {}).get("qualType", "") or "inner" not in d or d.get("name").startswith("_"):
            continue
        if d not in br.unit.tree["inner"]:
            continue
        nm = d["name"]
        try:
            M.vardecl(d, M.g)
            v = cxx.fnum(M.g[d["id"]].v)
        except (cxx.CxxError, AnalysisError):
            continue
        r = p.resolve("common.definitions", nm)
        if r is None:
            continue
        w = num(I.global_lookup("common.definitions", nm))
        if w is None:
            raise AnalysisError(f"constant {nm} of the Python side is not a number")
        seen += 1
        rep.check(abs(v - w) <= mp.mpf(10) ** -15 * abs(w), rid, nm, f"is {mp.nstr(v, 17)} in the native code and {mp.nstr(w, 17)} in Python", D)


def binds(p, rep, rid, br):
    used = {}
    for m in p.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Attribute) and n.attr in br.bind:
                used.setdefault(n.attr, loc(n))
    for nm, fs in br.bind.items():
        w = "wx_factory/pde/interface.cpp"
        if any(f is None for f in fs):
            raise AnalysisError(f"binding {nm} is not a plain function")
        sig = {tuple((q.get("name"), "array" if "array_t" in q["type"]["qualType"] else "scalar") for q in br.params(f)) for f in fs}
        kinds = {"complex" in f["type"]["qualType"] for f in fs}
        rep.check(len(sig) == 1, rid, nm, "is bound to functions with different parameter lists", w)
        rep.check(kinds == {True, False}, rid, nm + " types", "is not bound for both real and complex arrays", w)
        rep.check(len(fs) == len({f["type"]["qualType"] for f in fs}), rid, nm + " overloads", "is bound twice to the same instantiation", w)
        same = {f.get("name") for f in fs}
        rep.check(len(same) == 1, rid, nm + " target", f"real and complex arrays reach different functions {sorted(same)}", w)
    # every attribute taken from the native module exists
    for m in p.modules.values():
        for fn in ast.walk(m.tree):
            if not isinstance(fn, (ast.FunctionDef, ast.AsyncFunctionDef)):
                continue
            alias = set()
            for n in ast.walk(fn):
                if isinstance(n, ast.Assign) and isinstance(n.value, ast.Attribute) and n.value.attr == "pde" and is_device(n.value.value):
                    alias |= {t.id for t in n.targets if isinstance(t, ast.Name)}
            for n in ast.walk(fn):
                if isinstance(n, ast.Attribute) and (isinstance(n.value, ast.Name) and n.value.id in alias or isinstance(n.value, ast.Attribute) and n.value.attr == "pde" and is_device(n.value.value)):
                    rep.check(n.attr in br.bind, rid, f"{m.name}.{fn.name}: {n.attr}", "is not a native function", loc(n))


def is_device(n):
    return isinstance(n, ast.Name) and n.id == "device" or isinstance(n, ast.Attribute) and n.attr == "device"


NAMES = ("gravity", "p0", "Rd", "cpd", "cvd", "kappa", "heat_capacity_ratio", "day_in_secs")


def duplicates(p, rep, rid, I):
    """a name of a physical constant bound to a literal elsewhere has the same value"""
    ref = {}
    for n in NAMES:
        if p.resolve("common.definitions", n) is not None:
            ref[n] = num(I.global_lookup("common.definitions", n))
    for m in p.modules.values():
        if m.name == "common.definitions":
            continue
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Assign) and isinstance(n.value, (ast.Constant, ast.BinOp)):
                for t in n.targets:
                    if isinstance(t, ast.Name) and t.id in ref and ref[t.id] is not None:
                        try:
                            v = num(hp_const(n.value))
                        except ValueError:
                            continue
                        rep.check(v is None or abs(v - ref[t.id]) <= mp.mpf(10) ** -12 * abs(ref[t.id]), rid, f"{m.name}.{t.id}", f"is redefined as {mp.nstr(v, 12)} (common.definitions: {mp.nstr(ref[t.id], 12)})", loc(n))
    # the derived constants of the Python side
    e = ref
    if all(e.get(k) is not None for k in ("cpd", "cvd", "Rd", "kappa", "heat_capacity_ratio")):
        w = "wx_factory/common/definitions.py"
        rep.check(abs(e["cvd"] - (e["cpd"] - e["Rd"])) < mp.mpf(10) ** -12 * e["cvd"], rid, "cvd", "is not cpd - Rd", w)
        rep.check(abs(e["kappa"] - e["Rd"] / e["cpd"]) < mp.mpf(10) ** -12, rid, "kappa", "is not Rd / cpd", w)
        rep.check(abs(e["heat_capacity_ratio"] - e["cpd"] / e["cvd"]) < mp.mpf(10) ** -12, rid, "heat_capacity_ratio", "is not cpd / cvd", w)
    idx = {}
    for fam, names in (("3-D Euler", rhsdom.IDX3), ("2-D Euler", rhsdom.IDX2), ("shallow water", ["idx_h", "idx_hu1", "idx_hu2"])):
        vals = []
        for n in names:
            v = num(I.global_lookup("common.definitions", n)) if p.resolve("common.definitions", n) is not None else None
            if v is None:
                raise AnalysisError(f"anchor vanished: {n}")
            vals.append(int(v))
        rep.check(sorted(vals) == list(range(len(vals))), rid, f"{fam} variable numbers", f"{dict(zip(names, vals))} is not a numbering of the variables", "wx_factory/common/definitions.py")


def hp_const(n):
    v = eval_const(n)
    if v is None:
        raise ValueError
    return v


def eval_const(n):
    from .. import algebra as A
    if isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
        return C(num(n.value))
    if isinstance(n, ast.BinOp):
        a, b = eval_const(n.left), eval_const(n.right)
        if a is None or b is None:
            return None
        op = {"Add": lambda x, y: x + y, "Sub": lambda x, y: x - y, "Mult": lambda x, y: x * y, "Div": lambda x, y: x / y}.get(type(n.op).__name__)
        return op(a, b) if op else None
    return None


def cart_pde(I, br, nx, nz, n):
    par = Obj(None, "config", {"num_elements_horizontal": nx, "num_elements_vertical": nz, "num_solpts": n})
    dev = Obj(None, "device", {"pde": br.module(), "xp": I.xp})
    geom = Obj(None, "geometry", {"device": dev})
    return I.instantiate("pde.pde_euler_cartesian", "PDEEulerCartesian", [geom, par, Opaque("metric")])


def cartesian(p, rep, rid, br, nx, nz, n):
    I = rhsdom.interp(p, br)
    c = rhsdom.constants(I, rhsdom.EULER)
    ix = {k: int(v) for k, v in rhsdom.constants(I, rhsdom.IDX2).items()}
    r, u, w, t = (ix[k] for k in rhsdom.IDX2)
    pde = cart_pde(I, br, nx, nz, n)
    sh = (4, nz, nx, n * n)
    q = rand(sh, "q", nx, nz, n, lo=mp.mpf("0.5"), hi=2)
    q[t] = q[t] * 300
    f1, f3 = hp.wrap(np.zeros(sh, dtype=object)), hp.wrap(np.zeros(sh, dtype=object))
    tag = f"{nz} x {nx} elements, {n} points"
    where = "wx_factory/pde/kernels/pointwise_flux.hpp"
    try:
        I.call(I.getattr_(pde, "pointwise_fluxes", None), [hp.wrap(q.copy()), f1, None, f3], {}, None)
    except (ArrayError, RaiseOutcome) as e:
        rep.bad(rid, f"pointwise flux, {tag}", fail(e), "wx_factory/pde/pde_euler_cartesian.py")
        return
    P = rhsdom.pressure(c, q[t])
    W1, W3 = q * (q[u] / q[r]), q * (q[w] / q[r])
    W1[u] = W1[u] + P
    W3[w] = W3[w] + P
    for nm, got, want in (("x1", f1, W1), ("x3", f3, W3)):
        d = close(values(got), want)
        rep.check(d is None, rid, f"pointwise flux along {nm}, {tag}", f"is not the flux of the state: {d}", where)
    # each interface flux depends on the two states of its own interface point only
    qi1, qi3 = rand((4, nz, nx, 2 * n), "i1", tag, lo=mp.mpf("0.5"), hi=2), rand((4, nz, nx, 2 * n), "i3", tag, lo=mp.mpf("0.5"), hi=2)
    qi1[t] = qi1[t] * 300
    qi3[t] = qi3[t] * 300

    def riemann(a, b):
        g1, g3 = hp.wrap(np.zeros(a.shape, dtype=object)), hp.wrap(np.zeros(b.shape, dtype=object))
        for g in (g1, g3):
            g.a[...] = None
        I.call(I.getattr_(pde, "riemann_fluxes", None), [hp.wrap(a.copy()), None, hp.wrap(b.copy()), g1, None, g3], {}, None)
        return values(g1), values(g3)

    where = "wx_factory/pde/interface.cpp"
    try:
        b1, b3 = riemann(qi1, qi3)
        for nm, g in (("x1", b1), ("x3", b3)):
            miss = [i for i in np.ndindex(*g.shape) if g[i] is None]
            rep.check(not miss, rid, f"interface flux along {nm}, {tag}", f"is never set at {miss[:1]}", where)
        # perturb one state value at a time: only the fluxes at that interface point may change
        for nm, arr, ax in (("x1", qi1, 2), ("x3", qi3, 1)):
            step = max(1, arr.size // 14)
            for j, i in enumerate(np.ndindex(*arr.shape)):
                if j % step:
                    continue
                a = arr.copy()
                a[i] = a[i] + mp.mpf("0.25")
                c1, c3 = riemann(*((a, qi3) if nm == "x1" else (qi1, a)))
                ch, other = (c1, b3) if nm == "x1" else (c3, b1)
                base = b1 if nm == "x1" else b3
                oth = c3 if nm == "x1" else c1
                changed = {k[1:] for k in np.ndindex(*ch.shape) if ch[k] != base[k]}
                allowed = {i[1:]}
                nb = list(i)
                if i[3] < n:
                    nb[ax] -= 1
                    nb[3] += n
                else:
                    nb[ax] += 1
                    nb[3] -= n
                if 0 <= nb[ax] < arr.shape[ax]:
                    allowed.add(tuple(nb[1:]))
                rep.check(changed <= allowed and all(oth[k] == other[k] for k in np.ndindex(*oth.shape)), rid, f"interface flux along {nm}, {tag}, variable {i[0]}",
                          f"the state at {i} enters the flux at {sorted(changed - allowed)[:1] or 'the other direction'}", where)
    except (ArrayError, RaiseOutcome) as e:
        rep.bad(rid, f"interface flux, {tag}", fail(e), "wx_factory/pde/pde_euler_cartesian.py")
    rep.analysed |= I.analysed


PAIRS = [(1, 1), (1, 2), (1, 3), (2, 2), (2, 3), (3, 3)]


def forcing_formula(c, ix, q, P, h, ch):
    """ch[i, 0..2]: Coriolis terms, ch[i, 3..8]: the six connection terms of direction i"""
    r = q[ix["idx_rho"]]
    U = [q[ix[k]] / r for k in ("idx_rho_u1", "idx_rho_u2", "idx_rho_w")]
    out = []
    for i in range(3):
        f = 2 * r * sum(ch[i, j] * U[j] for j in range(3))
        for k, (a, b) in enumerate(PAIRS):
            f = f + (1 if a == b else 2) * ch[i, 3 + k] * (r * U[a - 1] * U[b - 1] + h[a - 1, b - 1] * P)
        out.append(f)
    return out


def forcing(p, rep, rid, br, I):
    c = rhsdom.constants(I, rhsdom.EULER)
    ix = {k: int(v) for k, v in rhsdom.constants(I, rhsdom.IDX3).items()}
    for nx1, nx2, nx3, n in ((2, 3, 2, 8), (1, 2, 3, 1)):
        sh = (nx3, nx2, nx1, n)
        q = rand((5,) + sh, "q", n, lo=mp.mpf("0.5"), hi=2)
        P = rand(sh, "p", n, lo=1, hi=2)
        g = rand(sh, "g", n, lo=1, hi=2)
        h = rand((3, 3) + sh, "h", n)
        for a in range(3):
            for b in range(a):
                h[a, b] = h[b, a]
        ch = rand((3, 9) + sh, "ch", n)
        out = hp.wrap(rand((5,) + sh, "out", n))
        before = values(out).copy()
        tag = f"{nx3} x {nx2} x {nx1} elements of {n} points"
        w = "wx_factory/pde/kernels/forcing.hpp"
        if "forcing_euler_cubesphere_3d" not in br.bind:
            break
        try:
            br.call("forcing_euler_cubesphere_3d", [hp.wrap(q), hp.wrap(P), hp.wrap(g), hp.wrap(h), hp.wrap(ch), out, nx1, nx2, nx3, n, 0])
        except ArrayError as e:
            rep.bad(rid, f"forcing_euler_cubesphere_3d, {tag}", fail(e), w)
            continue
        want = before.copy()
        for k, v in zip(("idx_rho_u1", "idx_rho_u2", "idx_rho_w"), forcing_formula(c, ix, q, P, h, ch)):
            want[ix[k]] = v
        got = values(out)
        for k in rhsdom.IDX3:
            d = close(got[ix[k]], want[ix[k]])
            rep.check(d is None, rid, f"forcing_euler_cubesphere_3d, {tag}, {k}", f"is not the forcing of that variable: {d}", w)
    # the Python variant reads the same positions
    for mod in ("pde.pde_euler_cubesphere",):
        if p.resolve(mod, "compute_forcings") is None:
            continue
        J = rhsdom.interp(p, br)
        sh = (2,)
        q = rand((5,) + sh, "qp", lo=mp.mpf("0.5"), hi=2)
        P = rand(sh, "pp", lo=1, hi=2)
        h = rand((3, 3) + sh, "hp")
        for a in range(3):
            for b in range(a):
                h[a, b] = h[b, a]
        ch = rand((3, 9) + sh, "chp")
        fn = p.resolve(mod, "compute_forcings")[2]
        names = [a.arg for a in fn.args.args]
        outs = [hp.wrap(np.zeros(sh, dtype=object)) for _ in range(3)]
        env = {}
        r = q[ix["idx_rho"]]
        U = [q[ix[k]] / r for k in ("idx_rho_u1", "idx_rho_u2", "idx_rho_w")]
        vals = outs + [hp.wrap(x) for x in (r, *U, P)] + [hp.wrap(ch[i, j]) for i in range(3) for j in range(9)] + [hp.wrap(h[a - 1, b - 1]) for a, b in PAIRS]
        if len(names) != len(vals):
            continue
        try:
            J.call(J.global_lookup(mod, "compute_forcings"), vals, {}, None)
        except (ArrayError, RaiseOutcome) as e:
            rep.bad(rid, f"{mod}.compute_forcings", fail(e), "wx_factory/pde/pde_euler_cubesphere.py")
            continue
        for k, o, wv in zip(("u1", "u2", "w"), outs, forcing_formula(c, ix, q, P, h, ch)):
            d = close(values(o), wv)
            rep.check(d is None, rid, f"compute_forcings, {k}", f"is not the forcing of that variable: {d}", "wx_factory/pde/pde_euler_cubesphere.py")
        rep.analysed |= J.analysed
