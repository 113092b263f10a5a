"""C06: evaluating the right-hand side never modifies its input."""
from __future__ import annotations

import mpmath as mp
import numpy as np

from .. import hp
from .. import rhsdom as R
from ..interp import Bound, Func, Hook, MISSING, Obj, Opaque, RaiseOutcome
from ..layout import ArrayError, LA
from ..par import pmap
from ..project import AnalysisError, loc
from ..rhsdom import rand

COMPLEX = Opaque(("dtype", "complex128"))


class Case:
    """a right-hand side object and the arrays it was built from"""

    def __init__(self, I, rhs, base, kept, where):
        self.I, self.rhs, self.base, self.kept, self.where = I, rhs, base, kept, where

    def eval(self, qa):
        return self.I.call(self.I.getattr_(self.rhs, "__call__", None), [qa], {}, None)


def keep(d, prefix):
    return {f"{prefix}.{k}": v for k, v in d.items() if isinstance(v, LA)}


def echo(i, kind, sides):
    """what comes back depends on what was sent, and on nothing else"""
    f = mp.mpf("1.25")
    back = {"south": "north", "north": "south", "west": "east", "east": "west"}
    if kind == "scalar":
        return {s: sides[back[s]] * f for s in sides}
    return {s: [x * f for x in sides[back[s]]] for s in sides}


def euler(p, case, ne=1, nev=2, n=2):
    I = R.interp(p)
    ix = {k: int(v) for k, v in R.constants(I, R.IDX3).items()}
    key = ("c06", ne, nev, n)
    nq = 5
    mats, met = R.mats3(n, key), R.metric3(ne, nev, n, key)
    dev = R.device(I)
    g = R.geometry(p, 3, ne, nev, n, dev)
    for k, v in list(g.attrs.items()):
        if isinstance(v, LA) and any(R.num(x) is None for x in v.a.flat):
            g.attrs[k] = hp.wrap(rand(v.a.shape, key, "geometry", k, lo=1, hi=30000))
    g.attrs["ztop"] = hp.C(mp.mpf(30000))
    g.attrs["wind2contra"] = Hook("wind2contra", lambda I2, a, k, nd: [hp.wrap(rand((nev, ne, ne, n ** 3), key, "wind", i)) for i in range(3)])
    par = Obj(None, "config", {"num_elements_horizontal": ne, "num_elements_vertical": nev, "num_solpts": n, "case_number": case})
    ops = Obj(None, "operators", {k: hp.wrap(v) for k, v in mats.items()})
    metric = Obj(None, "metric", {k: hp.wrap(v) for k, v in met.items()})
    ex = R.Exchange(I, echo)
    pde = I.instantiate("pde.pde_euler_cubesphere", "PDEEulerCubesphere", [g, par, metric])
    shape = (nq, nev, ne, ne, n ** 3)
    rhs = I.instantiate("rhs.rhs_dfr", "RHSDirecFluxReconstruction_mpi", [pde, g, ops, metric, None, ex.obj(), par, shape])
    return Case(I, rhs, lambda k: R.state3(shape, key + (k,), ix), {**keep(metric.attrs, "metric"), **keep(ops.attrs, "operators"), **keep(g.attrs, "geometry")}, "rhs/rhs_dfr.py")


def shallow(p, with_topo, ne=2, n=2):
    I = R.interp(p)
    ix = {k: int(v) for k, v in R.constants(I, ["idx_h", "idx_hu1", "idx_hu2"]).items()}
    N, half = n * n, n
    key = ("c06s", ne, n, with_topo)
    sh = (ne, ne, N)
    mats = {}
    for x in "xy":
        mats["extrap_" + x] = R.convex(N, 2 * half, key, x)
        mats["derivative_" + x] = rand((N, N), key, "d", x, lo=-1)
    for x in ("WE", "SN"):
        mats["correction_" + x] = rand((2 * half, N), key, "c", x, lo=-1)
    met = {"sqrtG": rand(sh, key, "G", lo=1, hi=2)}
    met["inv_sqrtG"] = 1 / met["sqrtG"]
    H = R.spd(2, sh, key, "H")
    for a in (0, 1):
        for b in (0, 1):
            met[f"H_contra_{a + 1}{b + 1}"] = H[a, b].copy()
    for k in ("1_01", "1_02", "1_11", "1_12", "2_01", "2_02", "2_12", "2_22", "1_22", "2_11"):
        met["christoffel_" + k] = rand(sh, key, "c", k)
    topo = {"hsurf": rand(sh, key, "t", hi=mp.mpf("0.1")), "dzdx1": rand(sh, key, "t1"), "dzdx2": rand(sh, key, "t2")} if with_topo else None
    for nm, ax in (("i", 1), ("j", 0)):
        s = [ne, ne, 2 * half]
        s[ax] += 2
        s = tuple(s)
        met[f"sqrtG_itf_{nm}"] = rand(s, key, "G", nm, lo=1, hi=2)
        for a, b in ((1, 1), (1, 2), (2, 1), (2, 2)):
            met[f"H_contra_{a}{b}_itf_{nm}"] = rand(s, key, "h", nm, a, b, lo=mp.mpf("0.1"), hi=mp.mpf("0.4")) + (1 if a == b else 0)
        if topo:
            topo[f"hsurf_itf_{nm}"] = rand(s, key, "ts", nm, hi=mp.mpf("0.1"))
    dev = R.device(I)
    g = R.geometry(p, 2, ne, 1, n, dev)
    ops = Obj(None, "operators", {k: hp.wrap(v) for k, v in mats.items()})
    metric = Obj(None, "metric", {k: hp.wrap(v) for k, v in met.items()})
    tp = None if topo is None else Obj(None, "topo", {k: hp.wrap(v) for k, v in topo.items()})
    ex = R.Exchange(I, echo)
    rhs = I.instantiate("rhs.rhs_sw", "RhsShallowWater", [(3,) + sh, g, ops, metric, tp, ex.obj(), n, ne])

    def base(k):
        q = rand((3,) + sh, key, k, lo=1, hi=2)
        for m in ("idx_hu1", "idx_hu2"):
            q[ix[m]] = rand(sh, key, k, m, lo=-1, hi=1)
        return q
    kept = {**keep(metric.attrs, "metric"), **keep(ops.attrs, "operators"), **keep(g.attrs, "geometry"), **(keep(tp.attrs, "topography") if tp else {})}
    return Case(I, rhs, base, kept, "rhs/rhs_sw.py")


def cartesian(p, nx=2, nz=2, n=2):
    br = R.Bridge(p)
    I = R.interp(p, br)
    ix = {k: int(v) for k, v in R.constants(I, R.IDX2).items()}
    N, half = n * n, n
    key = ("c06c", nx, nz, n)
    mats = {}
    for x in "xz":
        mats["extrap_" + x] = R.convex(N, 2 * half, key, x)
        mats["derivative_" + x] = rand((N, N), key, "d", x, lo=-1)
    for x in ("WE", "DU"):
        mats["correction_" + x] = rand((2 * half, N), key, "c", x, lo=-1)
    dev = R.device(I, br)
    g = Obj(None, "geometry", {"device": dev, "Δx1": hp.C(mp.mpf(13)), "Δx3": hp.C(mp.mpf(17)), "num_solpts": n})
    par = Obj(None, "config", {"num_elements_horizontal": nx, "num_elements_vertical": nz, "num_solpts": n})
    ops = Obj(None, "operators", {k: hp.wrap(v) for k, v in mats.items()})
    pde = I.instantiate("pde.pde_euler_cartesian", "PDEEulerCartesian", [g, par, None])
    rhs = I.instantiate("rhs.rhs_dfr", "RHSDirecFluxReconstruction", [pde, g, ops, None, None, None, par, (4, nz, nx, N)])

    def base(k):
        q = rand((4, nz, nx, N), key, k, lo=mp.mpf("0.5"), hi=2)
        for m in ("idx_2d_rho_u", "idx_2d_rho_w"):
            q[ix[m]] = rand((nz, nx, N), key, k, m, lo=-25, hi=25)
        q[ix["idx_2d_rho_theta"]] = q[ix["idx_2d_rho_theta"]] * 300
        return q
    return Case(I, rhs, base, keep(ops.attrs, "operators"), "rhs/rhs_dfr.py")


def shares(a, b):
    return np.may_share_memory(a, b) and np.shares_memory(a, b, max_work=10 ** 7)


def equal(a, b):
    return a.shape == b.shape and all(x is y or getattr(x, "v", x) == getattr(y, "v", y) for x, y in zip(a.flat, b.flat))


SCRIPTS = {
    "the same state again": [("A", None), ("A", None)],
    "another state in between": [("A", None), ("B", None), ("A", None)],
    "a complex evaluation in between": [("A", None), ("B", COMPLEX), ("A", None)],
    "a complex evaluation first": [("B", COMPLEX), ("A", None), ("B", COMPLEX), ("A", None)],
    "the result overwritten by the caller": [("A", None), "spoil", ("A", None)],
    "several states in between": [("A", None), ("B", None), ("C", None), ("A", None)],
    "the state array updated in place in between": [("A", "same"), ("B", "same"), ("A", "same")],
}


def history(R_, name, make, script):
    c = make()
    label = f"{name}, {script}"
    frozen = {k: v.a.copy() for k, v in c.kept.items()}
    states = {}
    results = {}
    live = []          # (array, snapshot, what)
    same = None
    for st in SCRIPTS[script]:
        if st == "spoil":
            out = live[-1][0]
            out.a[...] = hp.wrap(rand(out.a.shape, "spoil", lo=5, hi=9)).a
            live.pop()
            continue
        k, dt = st
        base = c.base(k)
        if dt == "same":
            if same is None:
                same = hp.wrap(base.copy())
            else:
                same.a[...] = hp.wrap(base.copy()).a
            qa = same
        else:
            qa = hp.wrap(base.copy())
            if dt is not None:
                qa.dtype = dt
        before = qa.a.copy()
        lost = []
        c.I.on_narrowing = lambda arr, node: lost.append(loc(node) if node is not None else "an in-place update")
        try:
            out = c.eval(qa)
        except RaiseOutcome as e:
            R_.bad("defined", label, f"the evaluation ends with {e.val!r}", c.where)
            return
        R_.ok("defined", label)
        if dt is COMPLEX:
            R_.check(not lost, "complex", label, f"{len(lost)} writes of complex values to real arrays left over from an earlier evaluation, first at {lost[:1]}: the answer depends on what was evaluated before", c.where)
        if not isinstance(out, LA):
            raise AnalysisError(f"the right-hand side returned {out!r}")
        d = R.close(R.values(qa), R.values(LA(before)))
        R_.check(d is None, "input", label + f": state {k}", f"the state passed in was changed: {d}", c.where)
        R_.check(not shares(out.a, qa.a), "no-alias", label + f": state {k}", "the result shares memory with the state passed in", c.where)
        for arr, snap, what in live:
            d = R.close(R.values(arr), R.values(LA(snap))) if arr is not qa else None
            R_.check(d is None and not shares(arr.a, out.a), "results-kept", label + f": {what}", f"an earlier result was changed by a later evaluation: {d or 'shared memory'}", c.where)
        for kk, v in c.kept.items():
            if not equal(v.a, frozen[kk]) or shares(v.a, out.a):
                R_.bad("fields", f"{label}: {kk}", "changed by an evaluation, or shared with its result", c.where)
                break
        else:
            R_.ok("fields", label)
        vals = R.values(out)
        if k in results:
            d = R.close(vals, results[k])
            R_.check(d is None, "history", label + f": state {k}", f"a second evaluation at the same state gives another answer: {d}", c.where)
        else:
            results[k] = vals
        live.append((out, out.a.copy(), f"result for {k}"))
    R_.analysed |= c.I.analysed


def matvecs(p, R_):
    shape = (2, 3)

    def rhs_hook(I, log):
        def f(I2, a, k, n):
            q = a[0]
            if not isinstance(q, LA):
                raise AnalysisError(f"right-hand side evaluated at {q!r}")
            log.append(q)
            return I2.binop("Mult", q, q, n)
        return Hook("rhs", f)

    todo = [("matvec_fun", {"method": "complex"}, "complex"), ("matvec_fun", {"method": "fd"}, "real"), ("matvec_rat", {}, "real"), ("MatvecOpBasic", None, "complex"), ("MatvecOpRat", None, "real")]
    for name, kw, kind in todo:
        I = R.interp(p)
        const = I.e_Constant
        I.e_Constant = lambda e, fr: hp.C(mp.mpc(e.value)) if isinstance(e.value, complex) else const(e, fr)

        def part(I2, v, attr):
            if attr in ("real", "imag") and isinstance(v, LA):
                if attr == "real" and all(isinstance(R.num(x), mp.mpf) for x in v.a.flat):
                    return v
                return LA(np.frompyfunc(lambda x: hp.C(getattr(mp, "re" if attr == "real" else "im")(x.v)), 1, 1)(v.a))
            return MISSING
        I.attr_hook = part
        log = []
        rhs = rhs_hook(I, log)
        label = name + (f" ({kw['method']})" if kw and "method" in kw else "")
        if not hasattr(p.modules.get("solvers.matvec"), "name"):
            raise AnalysisError("anchor vanished: solvers.matvec")
        Q = hp.wrap(rand(shape, "Q", lo=1, hi=2))
        F = hp.wrap(rand(shape, "F", lo=1, hi=2))
        args = {"Q": Q, "rhs": F}
        outs = {}
        op = None
        where = "solvers/matvec.py"
        try:
            if kw is None:
                op = I.instantiate("solvers.matvec", name, [hp.C(mp.mpf(3)), Q, F, rhs])
            seen = []
            for k in ("v", "w", "v"):
                v = hp.wrap(rand((6,), k, lo=-1, hi=1))
                snaps = [(n2, x, x.a.copy()) for n2, x in (("vector", v), ("state", Q), ("right-hand side", F))]
                if kw is None:
                    out = I.call(I.getattr_(op, "__call__", None), [v], {}, None)
                else:
                    out = I.call(I.get_func("solvers.matvec", name), [v, hp.C(mp.mpf(3)), Q, F, rhs], dict(kw), None)
                if not isinstance(out, LA):
                    raise AnalysisError(f"{name} returned {out!r}")
                for n2, x, s in snaps:
                    R_.check(equal(x.a, s), "matvec", f"{label}: {n2}", f"the {n2} was changed", where)
                    R_.check(not shares(out.a, x.a), "matvec", f"{label}: result and {n2}", "they share memory", where)
                for o, s in seen:
                    R_.check(equal(o.a, s) and not shares(o.a, out.a), "matvec", f"{label}: earlier result", "changed by a later product", where)
                if k in outs:
                    R_.check(equal(out.a, outs[k]), "matvec", f"{label}: again", "the same product gives another answer", where)
                outs[k] = out.a.copy()
                seen.append((out, out.a.copy()))
        except RaiseOutcome as e:
            R_.bad("matvec", label, f"{e.val!r}", where)
        R_.analysed |= I.analysed


def run(p, R_, tier):
    R_.explanation = ("The right-hand sides (Euler and shallow-water equations on the cubed sphere, Euler equations on the Cartesian grid with its native kernels) and the matrix-vector products are interpreted over generic values on arrays "
                      "with real sharing of memory; after every evaluation the state passed in, the fields the right-hand side was built from and all earlier results are compared with what they were, for several histories of evaluations.")
    R_.assumptions += ["neighbours answer an exchange with data that depend on what was sent only (C01)"]
    R_.rule("defined", "the evaluation returns", 10)
    R_.rule("complex", "an evaluation at a complex state writes to complex arrays only, whatever was evaluated before", 4)
    R_.rule("input", "the state passed in is unchanged", 20)
    R_.rule("no-alias", "the result shares no memory with the state passed in", 20)
    R_.rule("results-kept", "results of earlier evaluations are unchanged by later ones", 10)
    R_.rule("fields", "metric, topography, operators and geometry are unchanged", 20)
    R_.rule("history", "a second evaluation at the same state gives the same answer, whatever was evaluated in between", 10)
    R_.rule("matvec", "matrix-vector products leave vector, state and right-hand side unchanged and return new memory", 20)
    cases = [("Euler, cubed sphere, case 31", lambda: euler(p, 31)), ("shallow water", lambda: shallow(p, False)), ("shallow water with topography", lambda: shallow(p, True)), ("Euler, Cartesian", lambda: cartesian(p))]
    if tier == "thorough":
        cases += [(f"Euler, cubed sphere, case {c}", (lambda c: lambda: euler(p, c))(c)) for c in (12, 21, 22)]
        cases += [("Euler, Cartesian, 3 x 1 elements", lambda: cartesian(p, 3, 1)), ("shallow water, 3 points", lambda: shallow(p, True, 1, 3))]
    tasks = [(n, m, s) for n, m in cases for s in SCRIPTS]
    R.geometry(p, 3, 1, 2, 2, None)
    R.geometry(p, 2, 2, 1, 2, None)
    pmap(lambda i: history(R_, *tasks[i]) if i < len(tasks) else matvecs(p, R_), list(range(len(tasks) + 1)), R_)
