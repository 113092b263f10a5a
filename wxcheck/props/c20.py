"""C20: a failed solve or a state that is not finite is never silently accepted."""
from __future__ import annotations

import math

from ..bseries import BV, S, Y
from ..interp import ExtRef, Func, Hook, MISSING, Obj, Opaque, PYBUILTINS, RaiseOutcome, Unsupported
from ..pathdom import V, Domain, PathInterp, enumerate_paths, number
from ..par import pmap
from ..project import AnalysisError, loc
from ..simmpi import World
from . import c08, c18

TOL = 1e-3
NB = 4.0
KINDS = ("below", "above", "nan", "inf")
INTEGRATORS = ("ros2", "rosexp2", "partrosexp2", "strang_epi2_ros2", "strang_ros2_epi2", "imex2", "backward_euler", "bdf2", "crank_nicolson")


def value(kind, tol):
    return {"below": 0.25 * tol, "above": 64 * tol, "nan": math.nan, "inf": math.inf}[kind]


def residual_norm(kinds, nb):
    def f(D, kind, v):
        if v.key() == V(D, tag="b").key():
            return nb
        if "b" in v.c:
            return value(kinds[D.ch.pick(len(kinds), "residual")], TOL * nb)
        if kind == "inf":
            return (1.0, 1e-25, math.nan)[D.ch.pick(3, "change")]
        return 1.0
    return f


def setup(p, D):
    I = PathInterp(p, D, {}, max_steps=3_000_000)
    comm = Obj(None, "comm", {"rank": 0, "size": 1})

    def reduce_(I, a, k, n):
        return a[0]
    comm.attrs["allreduce"] = Hook("allreduce", reduce_)
    I.attr_hook = lambda I2, v, attr: comm if attr == "COMM_WORLD" and isinstance(v, ExtRef) else (Hook("item", lambda I3, a, k, n: v) if attr == "item" and isinstance(v, float) else MISSING)
    dev = Obj(None, "device", {"comm": comm, "xp": ExtRef("numpy"), "xalg": ExtRef("scipy"), "synchronize": Hook("s", lambda I, a, k, n: None),
                               "to_host": Hook("h", lambda I, a, k, n: a[0]), "array": Hook("array", lambda I, a, k, n: a[0])})
    I.hooks["Device.get_default"] = lambda I, a, k, n: dev
    I.hooks["time"] = I.hooks["time.time"] = lambda I, a, k, n: 0.0

    def b_abs(I, a, k, n):
        return D.ext(I, "numpy.abs", a, k, n)

    def mm(name):
        base = PYBUILTINS[name]

        def h(I, a, k, n):
            seq = list(a) if len(a) > 1 else I.iterate(a[0], n)
            if any(isinstance(x, V) for x in seq):
                return V(D)
            if all(number(x) is not None for x in seq):
                return {"max": max, "min": min}[name](seq)
            return base(I, a, k, n)
        return h

    def b_float(I, a, k, n):
        return a[0] if a and isinstance(a[0], V) else PYBUILTINS["float"](I, a, k, n)
    for m in p.modules.values():
        I.modvars[(m.name, "abs")] = Hook("abs", b_abs)
        I.modvars[(m.name, "max")] = Hook("max", mm("max"))
        I.modvars[(m.name, "min")] = Hook("min", mm("min"))
        I.modvars[(m.name, "float")] = Hook("float", b_float)
    return I, dev


def operator(D):
    def mv(I, a, k, n):
        x = a[0]
        if not isinstance(x, V):
            raise Unsupported(f"operator applied to {x!r}")
        return V(D, {("A", key): c for key, c in x.c.items()})
    h = Hook("A", mv)
    h.attrs = {"matvec": h}
    return h


def outcome(f):
    try:
        return "ok", f()
    except RaiseOutcome as e:
        return "raise", e.val


def flagged(p, R, rule, label, module, name, call, unpack, limit):
    """every path through a solver that returns a flag: 0 only for a solution whose residual is below tolerance"""
    paths = ok = 0
    worst = None
    where = loc(Interp_func(p, module, name))
    # residual norms from `kinds`; norm of b from (NB, 0)
    for nb in (NB, 0.0):
        def run(ch):
            D = Domain(ch, residual_norm(KINDS, nb))
            I, dev = setup(p, D)
            A = operator(D)
            b = V(D, tag="b")
            res = outcome(lambda: call(I, D, dev, A, b))
            R.analysed.update(I.analysed)
            return D, res
        for ch, res in enumerate_paths(run, limit):
            if ch is None:
                R.notes.append(f"{label}: stopped after {res} paths") if hasattr(R, "notes") else None
                break
            D, (kind, r) = res
            paths += 1
            if kind == "raise":
                continue
            try:
                x, flag, norm_r = unpack(r)
            except (TypeError, ValueError, IndexError):
                raise AnalysisError(f"{name} returns {r!r}")
            if not isinstance(flag, (int, float)):
                raise AnalysisError(f"the flag returned by {name} is {flag!r}")
            if flag != 0:
                continue
            ok += 1
            if isinstance(x, V):
                true = V(D, tag="b").add(V(D, {("A", k): c for k, c in x.c.items()}), -1.0)
                v = D.known("2", true)
            else:
                v = None
            good = nb == 0.0 or (v is not None and v <= TOL * nb)
            if not good and worst is None:
                worst = f"success is reported when the norm of b - A x, relative to b, is {'not computed' if v is None else v / nb} (tolerance {TOL}); residuals met: {[KINDS[c] for (c, n), l in zip(ch.taken, ch.label) if l == 'residual']}"
            if good and nb and isinstance(norm_r, float) and norm_r != v and worst is None:
                worst = f"the residual returned is {norm_r} where the one of the solution is {v}"
    R.check(worst is None, rule, f"{label}: {paths} paths, {ok} of them report success", worst, where)
    return paths, ok


def Interp_func(p, module, name):
    m = p.modules.get(module)
    f = m.functions.get(name) if m is not None and hasattr(m, "functions") else None
    if f is None:
        from ..interp import Interp
        g = Interp(p, {}).get_func(module, name)
        f = g.node
    return f


def solvers(p, R, tier):
    deep = tier == "thorough"
    limit = 5000 if deep else 3000
    tasks = []

    def fg(x0, heg, restart, maxiter):
        def call(I, D, dev, A, b):
            f = I.get_func("solvers.fgmres", "fgmres")
            return I.call(f, [A, b], {"x0": None if x0 == "none" else V(D, tag="x0"), "tol": TOL, "restart": restart, "maxiter": maxiter, "hegedus": heg, "device": dev}, None)
        a, c = flagged(p, R, "flag", f"fgmres, x0 {x0}, hegedus {heg}, restart {restart}, maxiter {maxiter}", "solvers.fgmres", "fgmres", call, lambda r: (r[0], r[4], r[1]), limit)
        return ("success", c)

    def gc(x0, maxiter, k):
        def call(I, D, dev, A, b):
            def inner(I2, a, kk, n):
                vs = [V(D), V(D)]
                return (V(D), V(D), V(D), vs, [V(D), V(D)], V2(D), V(D), 2)
            I.hooks["solvers.gcrot._fgmres"] = I.hooks["_fgmres"] = inner
            f = I.get_func("solvers.gcrot", "gcrot")
            return I.call(f, [A, b], {"x0": None if x0 == "none" else V(D, tag="x0"), "tol": TOL, "maxiter": maxiter, "m": 2, "k": k}, None)
        a, c = flagged(p, R, "flag", f"gcrot, x0 {x0}, maxiter {maxiter}, k {k}", "solvers.gcrot", "gcrot", call, lambda r: (r[0], r[3], r[1]), limit)
        return ("success", c)
    for x0, heg in (("none", False), ("given", False), ("given", True)):
        for restart in ((1, 2, 3) if deep else (1, 2)):
            for maxiter in ((1, 2, 3) if deep else (1, 2)):
                tasks.append((lambda *q: lambda: fg(*q))(x0, heg, restart, maxiter))
    for x0 in ("none", "given"):
        for maxiter in ((1, 2, 3) if deep else (1, 2)):
            for k in (1, 2):
                tasks.append((lambda *q: lambda: gc(*q))(x0, maxiter, k))
    return tasks[::-1]


class V2(V):
    """the coefficients of a combination of two vectors"""

    def a_iter(self, I, node):
        return [V(self.D), V(self.D)]

    def a_getitem(self, I, idx, node):
        if isinstance(idx, int):
            return V(self.D)
        return [V(self.D)]

    def a_binop(self, I, op, other, swapped, node):
        r = super().a_binop(I, op, other, swapped, node)
        return V2(self.D, r.c) if isinstance(r, V) and op != "MatMult" else r


def nonlinear(p, R, tier):
    where = loc(Interp_func(p, "solvers.nonlin", "newton_krylov"))
    return [(lambda *q: lambda: newton(p, R, where, *q))(ls, maxiter, how) for ls in ("armijo", "wolfe", None) for maxiter in ((1, 2, 3) if tier == "thorough" else (1, 2)) for how in ("default", "given")]


def newton(p, R, where, ls, maxiter, how):
    FT = 1e-5
    worst = None
    paths = ok = 0

    def norm(D, kind, v):
        if kind == "inf" and any(k == "F" or (isinstance(k, tuple) and k[0] == "F") for k in v.c):
            return value(("below", "above", "nan")[D.ch.pick(3, "residual")], D.ft)
        return 1.0

    def run(ch):
        D = Domain(ch, norm)
        D.ft = FT if how == "given" else (2.0 ** -52) ** (1 / 3)
        I, dev = setup(p, D)
        F = Hook("F", lambda I2, a, k, n: V(D, tag=("F", a[0].key())))
        I.hooks["fgmres"] = I.hooks["solvers.fgmres.fgmres"] = lambda I2, a, k, n: (V(D), 1.0, 1.0, 1, -1, [])
        I.hooks["scipy.optimize._linesearch.scalar_search_armijo"] = I.hooks["scipy.optimize.linesearch.scalar_search_armijo"] = lambda I2, a, k, n: search(I2, a, D, n)[:2]
        I.hooks["scipy.optimize._linesearch.scalar_search_wolfe1"] = I.hooks["scipy.optimize.linesearch.scalar_search_wolfe1"] = lambda I2, a, k, n: search(I2, a, D, n)
        I.hooks["packaging.version.parse"] = lambda I2, a, k, n: 1
        I.hooks["scipy.sparse.linalg.aslinearoperator"] = lambda I2, a, k, n: a[0]
        kw = {"maxiter": maxiter, "line_search": ls}
        if how == "given":
            kw["f_tol"] = FT
        x0 = V(D, tag="x0")
        f = I.get_func("solvers.nonlin", "newton_krylov")
        res = outcome(lambda: I.call(f, [F, x0], kw, None))
        R.analysed.update(I.analysed)
        return D, res
    for ch, res in enumerate_paths(run, 4000):
        if ch is None:
            break
        D, (kind, r) = res
        paths += 1
        if kind == "raise":
            continue
        ok += 1
        x = r[0]
        v = D.known("inf", V(D, tag=("F", x.key()))) if isinstance(x, V) else None
        if (v is None or not v <= D.ft) and worst is None:
            worst = f"a solution is returned when the norm of F(x) is {'not computed' if v is None else v} (tolerance {D.ft:.2e})"
    R.check(worst is None and ok > 0, "nonlinear", f"newton_krylov, line search {ls}, maxiter {maxiter}, tolerance {how}: {paths} paths, {ok} of them return", worst or "no path returns a solution", where)


def search(I, a, D, n):
    c = D.ch.pick(3, "line search")
    if c == 0:
        return (None, None, None)
    s = 1.0 if c == 1 else 0.5
    v = I.call(a[0], [s], {}, n)
    return (s, v, 1.0)


def exponential(p, R):
    """exode: a stepper that fails is reported"""
    where = loc(Interp_func(p, "solvers.exode", "exode"))
    for script in (["finished"], ["running", "finished"], ["failed"], ["running", "failed"], ["running", "running", "failed"], ["running", "running", "finished"]):
        class D0:
            pass
        D = Domain(None, lambda D, kind, v: 1.0)
        I, dev = setup(p, D)
        st = Obj(None, "stepper", {k: V(D) for k in ("nfev", "failed_steps", "error_estimation", "error_norm_old", "h_previous", "h", "t_old", "t")})
        st.attrs["y"] = V(D, tag="y0")
        st.attrs["status"] = "running"
        left = list(script)

        def step(I2, a, k, n):
            if not left:
                raise AnalysisError("the stepper is used after it has ended")
            st.attrs["status"] = left.pop(0)
            st.attrs["y"] = V(D, tag=("y", len(left), st.attrs["status"]))
            return None
        st.attrs["step"] = Hook("step", step)
        I.modvars[("integrators.butcher", "METHODS")] = {"M": Hook("M", lambda I2, a, k, n: st)}
        u = V(D, tag="u")
        u2 = U2(D, tag="u")
        f = I.get_func("solvers.exode", "exode")
        kind, r = outcome(lambda: I.call(f, [1.0, operator(D), u2], {"method": "m"}, None))
        R.analysed.update(I.analysed)
        label = "exode, stepper " + ", ".join(script)
        if script[-1] == "failed":
            R.check(kind == "raise", "stepper", label, f"a result is returned: {r!r}"[:160], where)
        else:
            y = r[0] if kind == "ok" else None
            R.check(kind == "ok" and isinstance(y, V) and y.key() == V(D, tag=("y", 0, "finished")).key(), "stepper", label, f"{kind} {r!r}"[:160], where)


class U2(V):
    def a_attr(self, I, attr, node):
        return (3, V.N) if attr == "shape" else super().a_attr(I, attr, node)

    def a_getitem(self, I, idx, node):
        return V(self.D, tag=("u", repr(idx)))


def integrators(p, R, split, name):
    for lin in (("fgmres", "gcrot") if name == "ros2" else ("fgmres",)):
        for solver in ("pmex",):
            for flag in (0, -1, 1):
                s = c08.Setup(p, split)
                I = s.I
                calls = []

                def lin_hook(extra):
                    base = c08.linsolve(extra)

                    def h(I, a, k, n):
                        r = list(base(I, a, k, n))
                        r[1 + extra.index("flag")] = flag
                        calls.append(loc(n) if n is not None else "?")
                        return tuple(r)
                    return h
                I.hooks["fgmres"] = lin_hook(["norm_r", "norm_b", "niter", "flag", "residuals"])
                I.hooks["gcrot"] = lin_hook(["error", "niter", "flag", "residuals"])
                label = f"{name}, {lin}, {'split' if split else 'full'} right-hand side, solver flag {flag}"
                try:
                    obj = s.make(name, solver, "fd", lin)
                except RaiseOutcome:
                    continue
                Q = BV({Y: S.const(1)})
                kind, r = outcome(lambda: steps(I, obj, Q))
                R.analysed.update(I.analysed)
                if not calls:
                    continue
                ff = obj.attrs.get("failure_flag")
                w = c08.where_of(p, obj) or "integrators"
                if flag == 0:
                    R.check(kind == "ok" and ff == 0, "recorded", label, f"the step that succeeded is marked {ff!r} ({kind})", w)
                else:
                    R.check(kind == "raise" or (isinstance(ff, int) and ff != 0), "recorded", label, f"failure_flag is {ff!r} after the solve at {calls[0]} failed", w)


def steps(I, obj, Q):
    for _ in range(2):
        Q = I.call(I.getattr_(obj, "step", None), [Q, c08_dt()], {}, None)
        ff = obj.attrs.get("failure_flag")
        if ff != 0:
            break
    return Q


def c08_dt():
    return S({(1, 0): 1.0})


def run_stops(p, R):
    for fail in (1, 2, 5):
        for script in (["run"], ["step"] * 7):
            res, tr, I = c18.drive(p, c18.config(2, 20), script, fail_at=fail)
            R.analysed |= I.analysed
            label = f"step {fail} fails, {script[0]}"
            if res[0] == "raise":
                R.ok("stops", label)
                continue
            if script[0] == "run":
                R.check(res[0] == "ok" and len(tr.steps) == fail, "stops", label, f"{res[0]}: {len(tr.steps)} steps are made", c18.WHERE)
            else:
                rets = res[1][0] if res[0] == "ok" else []
                first = next((i for i, (v, c) in enumerate(rets) if v is False), None)
                R.check(res[0] == "ok" and first == fail - 1, "stops", label, f"{res[0]}: step() says {[v for v, _ in rets]}", c18.WHERE)


class State(V):
    """a state of which one value may not be finite"""

    def __init__(self, what):
        self.what = what
        self.D = None
        self.c = {}

    def a_attr(self, I, attr, node):
        if attr in ("copy", "ravel", "flatten", "reshape"):
            return Hook(attr, lambda I2, a, k, n: self)
        if attr == "shape":
            return (5, 10)
        if attr == "size":
            return 50
        raise Unsupported(f"attribute {attr} of the state at {loc(node)}")

    def a_getitem(self, I, idx, node):
        if isinstance(idx, int):
            return State(self.what if idx % 5 == 3 else "finite")
        return self

    def a_len(self):
        return 5

    def a_binop(self, I, op, other, swapped, node):
        return self

    def a_compare(self, I, op, other, swapped, node):
        if other is self and op in ("Eq", "NotEq"):
            return Mask(self.what, {"Eq": {"nan": "some"}, "NotEq": {"nan": "one"}}[op].get(self.what, "all" if op == "Eq" else "none"))
        raise Unsupported(f"comparison of the state at {loc(node)}")

    def __repr__(self):
        return f"state({self.what})"


class Mask(V):
    def __init__(self, what, val):
        self.what, self.val = what, val
        self.D, self.c = None, {}

    def a_truth(self, I):
        raise Unsupported("truth of an array")

    def a_attr(self, I, attr, node):
        return Hook(attr, lambda I2, a, k, n: mask_fn(attr, self))

    def inv(self):
        return Mask(self.what, {"all": "none", "none": "all", "some": "one", "one": "some"}[self.val])


def mask_fn(name, m):
    """val: how many entries are set: all, none, some (all but one), one"""
    if name == "any":
        return m.val != "none"
    if name == "all":
        return m.val == "all"
    if name in ("sum", "count_nonzero"):
        return {"all": 50, "none": 0, "some": 49, "one": 1}[m.val]
    if name in ("max", "amax"):
        return m.val != "none"
    if name in ("min", "amin"):
        return m.val == "all"
    raise Unsupported(f"{name} of a mask")


def nonfinite(p, R):
    """Simulation._check_for_nan on several processes"""
    m, c = p.find_class("Simulation")
    meth = p.find_method(m, c, "_check_for_nan")
    if meth is None:
        raise AnalysisError("anchor vanished: Simulation._check_for_nan")
    where = loc(meth[2])
    cases = []
    for n in (1, 2, 3, 6):
        cases.append((n, {}))
        for what in ("nan", "inf", "-inf"):
            for r in range(n):
                cases.append((n, {r: what}))
        if n > 1:
            cases.append((n, {0: "nan", n - 1: "inf"}))
            cases.append((n, {r: "nan" for r in range(n)}))
    for n, badly in cases:
        w = World(n)

        def body(r, world):
            from .c19 import interp
            I = interp(p)
            comm = world.obj(r)
            arrays(I, comm, world, r)
            sim = Obj((m, c), "simulation", {"comm": comm, "rank": r, "size": n, "device": Obj(None, "device", {"comm": comm, "xp": ExtRef("numpy")})})
            I.call_func(Func(meth[0], meth[2], cls=(meth[0], meth[1])), [sim, State(badly.get(r, "finite"))], {}, None)
            R.analysed.update(I.analysed)
            return None
        out = w.run(body)
        kinds = [o[0] for o in out]
        label = f"{n} processes, " + (", ".join(f"{v} on process {r}" for r, v in badly.items()) or "all finite")
        if badly:
            R.check(all(k == "raise" for k in kinds), "finite", label, f"processes end with {kinds}", where)
        else:
            R.check(all(k == "ok" for k in kinds), "finite", label, f"processes end with {kinds}: {str(out[0][1])[:100]}", where)


class Small(V):
    """a small array of integers"""

    def __init__(self, vals):
        self.vals = list(vals)
        self.D, self.c = None, {}

    def __repr__(self):
        return f"small({self.vals})"

    def a_getitem(self, I, idx, node):
        if isinstance(idx, int):
            return self.vals[idx]
        return self

    def a_setitem(self, I, idx, v, node):
        if isinstance(idx, int):
            self.vals[idx] = int(v) if isinstance(v, bool) else v
        else:
            self.vals = [v] * len(self.vals) if not isinstance(v, Small) else list(v.vals)

    def a_len(self):
        return len(self.vals)

    def a_iter(self, I, node):
        return list(self.vals)

    def a_attr(self, I, attr, node):
        if attr == "item":
            return Hook(attr, lambda I2, a, k, n: self.vals[0])
        if attr in ("copy", "astype"):
            return Hook(attr, lambda I2, a, k, n: Small(self.vals))
        if attr in ("any", "all", "sum", "max", "min"):
            return Hook(attr, lambda I2, a, k, n: {"any": any, "all": all, "sum": sum, "max": max, "min": min}[attr](self.vals))
        if attr == "shape":
            return (len(self.vals),)
        raise Unsupported(f"attribute {attr} of a small array")

    def a_binop(self, I, op, other, swapped, node):
        o = other.vals if isinstance(other, Small) else [other] * len(self.vals)
        return Small([I.binop(op, y if swapped else x, x if swapped else y, node) for x, y in zip(self.vals, o)])

    def a_compare(self, I, op, other, swapped, node):
        if op in ("Is", "IsNot"):
            return (other is self) == (op == "Is")
        o = other.vals if isinstance(other, Small) else [other] * len(self.vals)
        return Small([I.compare(op, y if swapped else x, x if swapped else y, node) for x, y in zip(self.vals, o)])

    def a_truth(self, I):
        return bool(self.vals[0]) if len(self.vals) == 1 else None


def arrays(I, comm, world, rank):
    def fn(name):
        def h(I, a, k, n):
            x = a[0] if a else None
            if name in ("isfinite", "isnan", "isinf") and isinstance(x, State):
                hit = {"isfinite": x.what != "finite", "isnan": x.what == "nan", "isinf": x.what in ("inf", "-inf")}[name]
                if name == "isfinite":
                    return Mask(x.what, "some" if hit else "all")
                return Mask(x.what, "one" if hit else "none")
            if name in ("any", "all", "sum", "count_nonzero", "max", "min", "amax", "amin"):
                if isinstance(x, Mask):
                    return mask_fn(name, x)
                if isinstance(x, Small):
                    return {"any": any, "all": all, "sum": sum, "count_nonzero": sum, "max": max, "amax": max, "min": min, "amin": min}[name](x.vals)
                if isinstance(x, State) and name in ("sum",):
                    return {"nan": math.nan, "inf": math.inf, "-inf": -math.inf, "finite": 1.0}[x.what]
                if isinstance(x, State) and name in ("max", "amax", "min", "amin"):
                    return math.nan if x.what == "nan" else (math.inf if x.what == "inf" and name in ("max", "amax") else (-math.inf if x.what == "-inf" and name in ("min", "amin") else 1.0))
                if isinstance(x, (bool, int)):
                    return x
            if name in ("isfinite", "isnan", "isinf") and isinstance(x, (int, float)):
                return getattr(math, name)(x)
            if name == "logical_not" and isinstance(x, Mask):
                return x.inv()
            if name in ("array", "asarray") and isinstance(x, (list, tuple)):
                return Small([int(v) if isinstance(v, bool) else v for v in x])
            if name in ("array", "asarray") and isinstance(x, (int, bool)):
                return Small([int(x)])
            if name in ("zeros", "empty"):
                return Small([0] * (x if isinstance(x, int) else 1))
            if name in ("zeros_like", "empty_like", "copy"):
                return Small([0] * len(x.vals)) if name != "copy" else Small(x.vals)
            if name in ("ones",):
                return Small([1] * (x if isinstance(x, int) else 1))
            if name in ("abs", "absolute", "ravel") and isinstance(x, State):
                return x if x.what != "-inf" else State("inf")
            raise Unsupported(f"numpy.{name} of {x!r} at {loc(n)}")
        return h
    for nm in ("isfinite", "isnan", "isinf", "any", "all", "sum", "count_nonzero", "array", "asarray", "zeros", "empty", "zeros_like", "empty_like", "ones", "abs", "absolute", "max", "min", "amax", "amin", "logical_not",
               "copy", "ravel"):
        I.hooks["numpy." + nm] = fn(nm)

    def red(vals, op):
        vals = [v.vals[0] if isinstance(v, Small) else v for v in vals]
        vals = [int(v) if isinstance(v, bool) else v for v in vals]
        if op in ("MAX", "LOR", "BOR"):
            return max(vals)
        if op in ("MIN", "LAND", "BAND"):
            return min(vals)
        if op == "SUM":
            return sum(vals)
        raise Unsupported(f"reduction {op}")

    def opname(a, k, i):
        v = a[i] if len(a) > i else k.get("op", MISSING)
        return str(getattr(v, "dotted", v)).split(".")[-1] if v is not MISSING else "SUM"

    def allreduce(I, a, k, n):
        op = opname(a, k, 1)
        return world.world.collective(world, rank, "allreduce " + op, a[0] if a else k["sendobj"], n, lambda d: (lambda r: {m: r for m in d})(red([d[m] for m in sorted(d)], op)))

    def Allreduce(I, a, k, n):
        op = opname(a, k, 2)
        send, recv = (list(a) + [None, None])[:2]
        send = send if send is not None else k.get("sendbuf")
        recv = recv if recv is not None else k.get("recvbuf")
        src = recv if not isinstance(send, Small) else send
        r = world.world.collective(world, rank, "Allreduce " + op, list(src.vals), n, lambda d: {m: [red([d[q][i] for q in sorted(d)], op) for i in range(len(d[m]))] for m in d})
        recv.vals[:] = r
        return None
    comm.attrs["allreduce"] = Hook("allreduce", allreduce)
    comm.attrs["Allreduce"] = Hook("Allreduce", Allreduce)


def kept(p, R):
    """every state that step() keeps has been checked"""
    for script in (["run"],):
        res, tr, I = c18.drive(p, c18.config(2, 6, 0, 1, 1, 1), script, check=True)
        label = f"{script[0]}: the state of each step is checked before it is used"
        if res[0] != "ok":
            R.bad("checked", label, f"{res[0]} {str(res[1])[:120]}", c18.WHERE)
            continue
        want = [c18.state(k) for k in (1, 2, 3)]
        got = [q for q, _ in tr.checks]
        R.check(all(any(q is w for q in got) for w in want), "checked", label, f"states checked: {got!r}"[:150], c18.WHERE)
        late = [s for (q, made) in tr.checks for s in [q] if any(q is c18.state(k) and made > k for k in (1, 2, 3))]
        R.check(not late, "checked", label + " (before the next step)", f"{late!r}"[:150], c18.WHERE)


def run(p, R, tier):
    R.explanation = ("fgmres, gcrot and newton_krylov are interpreted on every sequence of outcomes of their tests (norms of residuals below/above tolerance, infinite, not a number; undecided comparisons both ways), with vectors as "
                     "formal linear combinations so that the residual of the returned solution is recognised; the time integrators are interpreted with inner solvers that fail; the check for non-finite states is "
                     "interpreted on 1-6 simulated processes with the value on any of them.")
    R.rule("flag", "a solver reports success only for a solution whose residual was found below tolerance", 8)
    R.rule("nonlinear", "newton_krylov returns only a solution whose residual was found within tolerance", 6)
    R.rule("stepper", "exode reports a stepper that failed", 4)
    R.rule("recorded", "an integrator whose linear solve failed says so", 8)
    R.rule("stops", "the run ends at a step that failed", 3)
    R.rule("finite", "a value that is not finite on any process is an error on all of them", 20)
    R.rule("checked", "the state of each step is checked", 2)
    tasks = solvers(p, R, tier) + nonlinear(p, R, tier) + [lambda: exponential(p, R), lambda: run_stops(p, R), lambda: nonfinite(p, R), lambda: kept(p, R)]
    tasks += [(lambda split, name: lambda: integrators(p, R, split, name))(split, name) for split in (False, True) for name in INTEGRATORS]
    out = pmap(lambda i: tasks[i](), list(range(len(tasks))), R)
    if not sum(x[1] for x in out if isinstance(x, tuple) and x[0] == "success"):
        raise AnalysisError("no path reports success in this domain")
