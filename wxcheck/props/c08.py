"""C08: every selectable time integrator has its nominal order of consistency."""
from __future__ import annotations

import ast
import json
import math
import os
import re

import numpy as np

from ..bseries import (BV, CA, SIZE, S, Inconsistent, Prec, Rows, Y, as_bv, flow, linear_scale, num, phi_combination, rhs_of, sabs, scale_time, show,
                       solve_fixed_point, to_const, to_s)
from ..interp import Bound, Func, Hook, Interp, Obj, Opaque, RaiseOutcome, ExtRef, Unsupported, BASE_HOOKS, NUMPY_HOOKS, PYBUILTINS, MISSING
from ..project import AnalysisError, loc

NAMES = {
    "euler1": 1, "tvdrk3": 3, "ros2": 2, "rosexp2": 2, "partrosexp2": 2, "imex2": 2, "backward_euler": 1, "bdf2": 2, "crank_nicolson": 2,
    "strang_epi2_ros2": 2, "strang_ros2_epi2": 2, "epi2": 2, "epi3": 3, "epi4": 4, "epi5": 5, "epi6": 6,
    "epi_stiff3": 3, "epi_stiff4": 4, "epi_stiff5": 5, "epi_stiff6": 6,
    "srerk3": 3, "srerk4": 4, "srerk5": 5, "srerk6": 6,
}
EXPSOLVERS = ("kiops", "pmex", "pmex_1s", "pmex_ne1s", "cwy_ne", "cwy_1s", "cwy_ne1s", "icwy_1s", "icwy_ne", "icwy_ne1s", "icwy_neiop", "dcgs2", "kiops_nest")
EPS = Opaque(("machine", "eps"))


def np_array(I, a, k, n):
    x = a[0]
    if isinstance(x, (BV, Rows)):
        return x.copy() if isinstance(x, BV) else Rows([r.copy() for r in x.rows])
    if isinstance(x, CA):
        return CA(x.a.copy())
    if isinstance(x, (list, tuple)):
        c = to_const(x)
        if c is not None:
            return CA(c if c.dtype.kind not in "iu" or k.get("dtype") else c)
        if all(as_bv(r) is not None for r in x):
            return Rows([as_bv(r).copy() for r in x])
    c = num(x)
    return c if c is not None else Opaque(("array", repr(x)))


def np_zeros(I, a, k, n, fill=0.0):
    sh = a[0] if a else k.get("shape")
    if isinstance(sh, (list, tuple)) and len(sh) == 2 and sh[1] is SIZE and isinstance(sh[0], int):
        return Rows([BV() for _ in range(sh[0])])
    if isinstance(sh, (list, tuple)) and all(isinstance(x, int) for x in sh):
        return CA(np.full(tuple(sh), fill))
    if isinstance(sh, int):
        return CA(np.full((sh,), fill))
    if sh is SIZE or isinstance(sh, Opaque):
        return BV()
    raise Unsupported(f"array of shape {sh!r} at {loc(n)}")


def np_like(I, a, k, n):
    x = a[0]
    if isinstance(x, BV):
        return BV()
    if isinstance(x, Rows):
        return Rows([BV() for _ in x.rows])
    if isinstance(x, CA):
        return CA(np.zeros_like(x.a, dtype=float))
    return Opaque(("zeros_like", repr(x)))


def np_reshape(I, a, k, n):
    x = a[0]
    if isinstance(x, BV):
        return x
    if isinstance(x, Rows) and len(x.rows) == 1:
        sh = a[1] if len(a) > 1 else None
        return x.rows[0]
    if isinstance(x, CA):
        return CA(x.a.reshape(a[1])) if len(a) > 1 else CA(x.a.ravel())
    raise Unsupported(f"reshape of {x!r} at {loc(n)}")


def sqrt_(I, a, k, n):
    if a[0] is EPS:
        return S({(0, 1): 1.0})
    c = num(a[0])
    if c is not None:
        return math.sqrt(c)
    if isinstance(a[0], S) and a[0].const_value() is not None:
        return math.sqrt(a[0].const_value())
    if isinstance(a[0], S) and len(a[0].t) == 1:
        (hp, ep), v = list(a[0].t.items())[0]
        if hp % 2 == 0 and ep % 2 == 0 and not isinstance(v, complex) and v > 0:
            return S({(hp // 2, ep // 2): math.sqrt(v)})
    if isinstance(a[0], CA):
        return CA(np.sqrt(a[0].a))
    return Opaque(("sqrt", repr(a[0])))


def abs_(I, a, k, n):
    if isinstance(a[0], S):
        return sabs(a[0])
    if isinstance(a[0], CA):
        return CA(np.abs(a[0].a))
    if isinstance(a[0], BV):
        return Opaque(("abs", repr(a[0])))
    return NUMPY_HOOKS["abs"](I, a, k, n)


def fold1(fn):
    def h(I, a, k, n):
        v = [x.a if isinstance(x, CA) else (to_const(x) if isinstance(x, (list, tuple)) else num(x)) for x in a]
        if any(x is None for x in v):
            return Opaque((fn.__name__, tuple(repr(x) for x in a)))
        kk = {q: (num(w) if num(w) is not None else w) for q, w in k.items()}
        return CA.wrap(fn(*v, **kk))
    return h


def poly_(I, a, k, n):
    c = to_const(a[0])
    if c is None:
        raise Unsupported("polynomial with unknown coefficients")
    o = Obj(None, "Polynomial")
    o.attrs["roots"] = Hook("roots", lambda I, a2, k2, n2: CA(np.polynomial.Polynomial(c).roots()))
    o.attrs["coef"] = CA(c)
    return o


def expsolver(I, a, k, n):
    names = ("tau_out", "A", "u")
    arg = dict(zip(names, a))
    arg.update({q: v for q, v in k.items() if q in names})
    t1 = k.get("task1", False)
    if t1:
        raise Unsupported("task1")
    tau = arg["tau_out"]
    taus = [num(x) for x in (tau.a_iter(I, n) if isinstance(tau, CA) else I.iterate(tau, n))]
    if any(x is None for x in taus):
        raise Unsupported("output times are not constant")
    u = arg["u"]
    if not isinstance(u, Rows):
        raise Unsupported("vectors passed to the exponential solver are not a stack of states")
    if abs(max(taus) - taus[-1]) > 1e-14 or any(b < a - 1e-14 for a, b in zip(taus, taus[1:])):
        raise Inconsistent(f"output times {taus} of the exponential solver are not increasing")
    return (phi_combination(I, taus, arg["A"], u.rows), tuple(Opaque(("stats", i)) for i in range(8)))


def exode_(I, a, k, n):
    names = ("tau_out", "A", "u")
    arg = dict(zip(names, a))
    arg.update({q: v for q, v in k.items() if q in names})
    tau = num(arg["tau_out"])
    if tau is None:
        tau = num(I.iterate(arg["tau_out"], n)[-1])
    r = phi_combination(I, [tau], arg["A"], arg["u"].rows)
    return (r.rows[0], tuple(Opaque(("stats", i)) for i in range(8)))


def linsolve(extra):
    def h(I, a, k, n):
        A = a[0] if a else k["A"]
        b = a[1] if len(a) > 1 else k["b"]
        b = as_bv(b)
        x0 = a[2] if len(a) > 2 else k.get("x0")
        x0 = as_bv(x0) if x0 is not None else None
        zero = BV()
        f = Hook("residual", lambda I2, a2, k2, n2: as_bv(I2.call(A, [a2[0]], {}, n2)).add(b, -1))
        s = linear_scale(I, A, x0 if x0 is not None else zero)
        x = solve_fixed_point(I, f, x0 if x0 is not None else zero, s)
        return tuple([x] + [Opaque((extra[i], loc(n) if n is not None else "")) if extra[i] != "flag" else 0 for i in range(len(extra))])
    return h


def newton(I, a, k, n):
    F = a[0] if a else k.get("F")
    x0 = as_bv(a[1] if len(a) > 1 else k.get("x0", k.get("xin")))
    if x0 is None or F is None:
        raise Unsupported("nonlinear solver called without function and starting point")
    s = linear_scale(I, F, x0)
    x = solve_fixed_point(I, F, x0, s)
    return (x, Opaque(("newton", "niter")), Opaque(("newton", "residuals")))


def finfo(I, a, k, n):
    return Obj(None, "finfo", {"eps": EPS, "epsneg": 1.1e-16, "tiny": 2.2e-308, "resolution": 1e-15, "max": 1.8e308})


def minmax(fn):
    base = PYBUILTINS[fn.__name__]

    def h(I, a, k, n):
        seq = list(a) if len(a) > 1 else I.iterate(a[0], n)
        if any(isinstance(x, (S, float)) for x in seq):
            ss = [to_s(x) for x in seq]
            if all(x is not None for x in ss):
                return seq[ss.index(fn(ss, key=lambda x: complex(x.at()).real))]
        return base(I, a, k, n)
    return h


def len_(I, a, k, n):
    x = a[0]
    if isinstance(x, BV):
        return SIZE
    if isinstance(x, Rows):
        return len(x.rows)
    if isinstance(x, CA):
        return len(x.a)
    return PYBUILTINS["len"](I, a, k, n)


def mean(I, a, k, n):
    return Opaque(("floor", repr(a)))


def hooks():
    h = {}
    for m in ("numpy", "cupy", "xp"):
        h.update({f"{m}.array": np_array, f"{m}.asarray": np_array, f"{m}.zeros": np_zeros, f"{m}.empty": np_zeros, f"{m}.zeros_like": np_like, f"{m}.empty_like": np_like,
                  f"{m}.ones": lambda I, a, k, n: np_zeros(I, a, k, n, 1.0),
                  f"{m}.reshape": np_reshape, f"{m}.ravel": np_reshape, f"{m}.squeeze": np_reshape, f"{m}.sqrt": sqrt_, f"{m}.abs": abs_, f"{m}.absolute": abs_, f"{m}.finfo": finfo,
                  f"{m}.copy": np_array, f"{m}.linalg.inv": fold1(np.linalg.inv), f"{m}.linalg.solve": fold1(np.linalg.solve), f"{m}.prod": fold1(np.prod), f"{m}.sum": fold1(np.sum),
                  f"{m}.polynomial.Polynomial": poly_, f"{m}.polynomial.polynomial.Polynomial": poly_, f"{m}.arange": fold1(np.arange), f"{m}.linspace": fold1(np.linspace),
                  f"{m}.any": fold1(np.any), f"{m}.all": fold1(np.all), f"{m}.concatenate": lambda I, a, k, n: CA(np.concatenate([to_const(x) if not isinstance(x, CA) else x.a for x in a[0]])),
                  f"{m}.imag": lambda I, a, k, n: I.getattr_(a[0], "imag", n), f"{m}.real": lambda I, a, k, n: I.getattr_(a[0], "real", n),
                  f"{m}.maximum": lambda I, a, k, n: Opaque(("maximum", repr(a))), f"{m}.sort": fold1(np.sort), f"{m}.flip": fold1(np.flip), f"{m}.roots": fold1(np.roots)})
        h.update({f"{m}.isnan": fold1(np.isnan), f"{m}.isinf": fold1(np.isinf), f"{m}.isfinite": fold1(np.isfinite)})
    h["math.sqrt"] = sqrt_
    h.update({"math.isnan": fold1(math.isnan), "math.isinf": fold1(math.isinf), "math.isfinite": fold1(math.isfinite)})
    h["math.floor"] = mean
    h["math.ceil"] = mean
    h["math.atan"] = fold1(math.atan)
    for s in EXPSOLVERS:
        h[f"solvers.{s}.{s}"] = expsolver
        h[s] = expsolver
    h["exode"] = exode_
    h["fgmres"] = linsolve(["norm_r", "norm_b", "niter", "flag", "residuals"])
    h["gcrot"] = linsolve(["error", "niter", "flag", "residuals"])
    h["newton_krylov"] = newton
    return h


class Setup:
    def __init__(self, p, split):
        self.p = p
        self.split = split
        self.I = Interp(p, hooks(), max_steps=40_000_000)
        I = self.I
        self.labels = ("E", "I") if split else ("F",)

        def rhs(labels):
            def fn(I, a, k, n):
                b = as_bv(a[0])
                if b is None:
                    raise Unsupported(f"right-hand side evaluated at {a[0]!r}")
                r = BV()
                for l in labels:
                    r = r.add(rhs_of(l, b))
                return r
            return Hook("rhs", fn)
        comm = Obj(None, "comm", {"rank": 0, "size": 1, "Get_rank": Hook("r", lambda I, a, k, n: 0), "Get_size": Hook("s", lambda I, a, k, n: 1)})
        self.device = Obj(None, "device", {"xp": ExtRef("numpy"), "comm": comm, "array": Hook("array", np_array), "to_host": Hook("to_host", lambda I, a, k, n: a[0]),
                                           "synchronize": Hook("synchronize", lambda I, a, k, n: None)})
        I.hooks["Device.get_default"] = lambda I, a, k, n: self.device
        self.rhs = Obj(None, "rhs", {"full": rhs(self.labels), "explicit": rhs(("E",)), "implicit": rhs(("I",))})
        I.attr_hook = None
        I.hooks["__builtin_abs__"] = abs_
        for m in p.modules.values():
            I.modvars[(m.name, "abs")] = Hook("abs", abs_)
            I.modvars[(m.name, "len")] = Hook("len", len_)
            I.modvars[(m.name, "max")] = Hook("max", minmax(max))
            I.modvars[(m.name, "min")] = Hook("min", minmax(min))

    def make(self, name, solver="pmex", jac="complex", lin="fgmres"):
        I = self.I
        cfg = Obj(None, "config", {"time_integrator": name, "exponential_solver": solver, "jacobian_method": jac, "linear_solver": lin, "tolerance": 1e-8,
                                   "verbose_solver": 0, "gmres_restart": 20, "case_number": 0, "num_elements_horizontal": 4, "exode_method": "BS3(2)",
                                   "exode_controller": "deadbeat", "krylov_size": 1})
        m, c = self.p.find_class("Simulation")
        r = self.p.find_method(m, c, "_create_time_integrator")
        if r is None:
            raise AnalysisError("anchor vanished: Simulation._create_time_integrator")
        sim = Obj((m, c), "simulation", {"config": cfg, "rhs": self.rhs, "device": self.device, "comm": self.device.attrs["comm"], "rank": 0, "preconditioner": None})
        return I.call_func(Func(r[0], r[2], cls=(r[0], r[1])), [sim], {}, None)

    def step(self, obj, Q, dt):
        r = self.I.call(self.I.getattr_(obj, "step", None), [Q, dt], {}, None)
        b = as_bv(r)
        if b is None:
            raise Unsupported(f"the step returned {r!r}")
        return b


def order_of(res, exact, upto, tol=1e-8):
    """first order in h at which the two series differ (None: equal up to `upto`)"""
    d = res.add(exact, -1)
    worst = None
    for t, s in d.t.items():
        for (hp, ep), v in s.t.items():
            if hp <= upto and ep <= 0 and abs(v) > tol:
                if ep < 0:
                    hp = 0
                if worst is None or hp < worst[0]:
                    worst = (hp, t, v)
    return worst


def where_of(p, obj):
    if isinstance(obj, Obj) and obj.cls:
        r = p.find_method(obj.cls[0], obj.cls[1], "__step__")
        if r:
            return loc(r[2])
    return ""


def selectables(p, name):
    path = os.path.join(p.repo, "config", "config-format.json")
    try:
        d = json.load(open(path))
    except (OSError, ValueError) as e:
        raise AnalysisError(f"cannot read {path}: {e}")
    out = []

    def walk(x):
        if isinstance(x, dict):
            if x.get("name") == name:
                out.extend(x.get("selectables", []))
            for v in x.values():
                walk(v)
        elif isinstance(x, list):
            for v in x:
                walk(v)
    walk(d)
    return out


def history(n):
    return [BV({Y: S.const(1)})]


def run(p, rep, tier):
    rep.explanation = ("Each integrator is built by interpreting the simulation's dispatcher and its step() is interpreted in the domain of truncated B-series "
                       "(all right-hand sides, all states at once); solver calls are replaced by what they are specified to compute; the result is compared with the exact flow.")
    rep.assumptions += ["exponential, linear and nonlinear solvers return the exact value they are specified to return (their tolerance is a run-time quantity)",
                        "the increment of the Jacobian-vector product is taken to its limit 0", "the right-hand side is autonomous and smooth"]
    r1 = rep.rule("order", "a step from the exact solution (with exact history for multistep methods) agrees with the exact flow up to the nominal order", 24)
    r2 = rep.rule("start-up", "the first steps of a multistep method are consistent steps of the requested length", 10)
    r3 = rep.rule("changed-step", "a step with a step size different from that of the previous steps is a consistent step of the new length", 20)
    r4 = rep.rule("input-kept", "a step does not modify the state it is given", 20)
    sel = selectables(p, "exponential_solver") or ["pmex", "kiops"]
    jacs = selectables(p, "jacobian_method") or ["complex", "fd"]
    from ..par import pmap
    tasks = sorted(NAMES.items(), key=lambda x: -x[1])
    for out in pmap(lambda t: one(p, rep, tier, sel, jacs, (r1, r2, r3, r4), *t), tasks, rep):
        if out:
            raise AnalysisError(out)


def one(p, rep, tier, sel, jacs, rules, name, nominal):
    r1, r2, r3, r4 = rules
    split = name in ("imex2", "partrosexp2") or name.startswith("strang")
    implicit = not name.startswith(("epi", "srerk", "euler", "tvdrk"))
    PHI = nominal + 2 if implicit else nominal
    Prec.P, Prec.E = PHI, 1
    st = Setup(p, split)
    ex = flow(st.labels, Prec.P)
    Prec.P = 3
    ex3 = flow(st.labels, 3)
    variants = [("pmex", "complex", "fgmres")]
    isexp = name.startswith(("epi", "srerk"))
    if isexp and (nominal <= 4 or tier == "thorough"):
        variants += [(s, "complex", "fgmres") for s in sel if s != "pmex"]
    if isexp:
        variants += [("pmex", j, "fgmres") for j in jacs if j != "complex"]
    if "ros2" in name and name != "partrosexp2":
        variants += [("pmex", "complex", "gcrot")]
    done_any = False
    for (solver, jac, lin) in variants:
        tag = f"{name}" + (f"/{solver}/{jac}/{lin}" if (solver, jac, lin) != variants[0] else "")
        try:
            obj = st.make(name, solver, jac, lin)
        except RaiseOutcome as e:
            rep.bad(r1, tag, f"the integrator cannot be created: raises {e.val!r}", "")
            continue
        w = where_of(p, obj)
        try:
            h = S({(1, 0): 1.0})
            nprev = obj.attrs.get("n_prev", 1 if "Qprev" in obj.attrs else 0)
            hist = int(nprev) + 1 if nprev else 0
            Prec.P = PHI
            for k in range(hist, 0, -1):
                st.step(obj, scale_time(ex, -k), h)
            q0 = BV({Y: S.const(1)})
            res = st.step(obj, q0, h)
            bad = order_of(res, ex, nominal)
            rep.check(bad is None, r1, tag, bad and f"nominal order {nominal}, but the step differs from the exact flow at order h^{bad[0]}: coefficient of {show(bad[1])} off by {bad[2]:.4g}", w)
            kept = order_of(q0, BV({Y: S.const(1)}), PHI) is None
            rep.check(kept, r4, tag, "the state passed to step() is modified", w)
            done_any = True
            Prec.P = 3
            if (solver, jac, lin) == variants[0]:
                if nprev:
                    # start-up, with the number of substeps the dispatcher asks for and with another one
                    for sub in (None, 3):
                        fresh = st.make(name, solver, jac, lin)
                        if sub is not None:
                            if "init_substeps" not in fresh.attrs:
                                continue
                            fresh.attrs["init_substeps"] = sub
                        res = st.step(fresh, BV({Y: S.const(1)}), h)
                        bad = order_of(res, ex3, 1)
                        rep.check(bad is None, r2, tag + (f"/substeps={sub}" if sub else ""), bad and f"the first step differs from a consistent step at order h^{bad[0]}: {show(bad[1])} by {bad[2]:.4g}", w)
                # change of step size: either the step is of the nominal order for the new length as well, or the past is discarded
                for ratio in (0.5, 0.96, 1.03) if hist else (0.5,):
                    obj2 = st.make(name, solver, jac, lin)
                    for k in range(hist, 0, -1):
                        st.step(obj2, scale_time(ex3, -k), h)
                    hh = S({(1, 0): ratio})
                    res = st.step(obj2, BV({Y: S.const(1)}), hh)
                    bad = order_of(res, scale_time(ex3, ratio), 1)
                    if bad is None and hist and order_of(res, scale_time(ex3, ratio), min(3, nominal)) is not None:
                        first = st.step(st.make(name, solver, jac, lin), BV({Y: S.const(1)}), hh)
                        bad = order_of(res, first, 3)
                    rep.check(bad is None, r3, f"{tag}/{ratio}", bad and f"a step of length {ratio} h after steps of length h is neither of the nominal order nor a start-up step: differs at order h^{bad[0]}: {show(bad[1])} by {bad[2]:.4g}", w)
                    if hist and nominal <= 4:
                        # once enough steps of the new length have been made, the nominal order is back
                        Prec.P = PHI
                        for k in range(hist, -1, -1):
                            res = st.step(obj2, scale_time(ex, -k * ratio), hh)
                        bad = order_of(res, scale_time(ex, ratio), nominal)
                        rep.check(bad is None, r3, f"{tag}/{ratio}/later", bad and f"after a change of the step size the nominal order {nominal} is not reached again: differs at order h^{bad[0]}: {show(bad[1])} by {bad[2]:.4g}", w)
                        Prec.P = 3
        except Inconsistent as e:
            rep.bad(r1, tag, e.msg, w)
        except RaiseOutcome as e:
            if solver == "pmex":
                rep.bad(r1, tag, f"the step raises {e.val!r}", w)
    rep.analysed |= st.I.analysed
    if not done_any and not rep.findings:
        return f"{name}: nothing decided"
