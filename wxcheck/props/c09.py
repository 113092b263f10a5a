"""C09: order conditions of the tabulated Runge-Kutta pairs."""
from __future__ import annotations

import ast
import re

import numpy as np

from ..constfold import Arr, Folder
from ..project import AnalysisError, loc


def rooted_trees(maxo):
    T = {1: [()]}
    flat = [(1, 0)]
    for o in range(2, maxo + 1):
        T[o] = []

        def rec(rem, start, acc):
            if rem == 0:
                T[o].append(tuple(acc))
                return
            for k in range(start, len(flat)):
                if flat[k][0] > rem:
                    break
                rec(rem - flat[k][0], k, acc + [flat[k]])

        rec(o - 1, 0, [])
        flat += [(o, i) for i in range(len(T[o]))]
    return T


def tables(p):
    """(module, class, env) of every Runge-Kutta table class"""
    out = []
    for m, c in p.subclasses("RungeKutta"):
        env = {}
        fails = {}
        for mm, cc in reversed(p.mro(m, c)):
            f = Folder(p, mm, env)
            env = f.body(cc.body)
            fails.update(f.failed)
        if isinstance(env.get("A"), Arr):
            out.append((m, c, env))
        elif any(x in fails for x in "ABCE"):
            raise AnalysisError(f"coefficients of {c.name} are not constant: {fails}")
    return out


def run(p, rep, tier):
    rep.explanation = ("The coefficient tables are folded from their literals; every rooted-tree order condition up to the declared order of the "
                       "main and of the embedded method is evaluated, with the row-sum, shape and explicitness conditions.")
    rep.assumptions += ["residuals below 1e-11 (below 1e-7 for error weights tabulated with 8 decimals) are rounding of the literals"]
    r1 = rep.rule("order-main", "sum_i b_i phi_i(tree) = 1/gamma(tree) for all rooted trees up to the declared order", 9)
    r2 = rep.rule("order-embedded", "the same for b + e up to the declared order of the error estimator, which must not exceed what makes the estimate vanish", 9)
    r3 = rep.rule("row-sums", "c_i = sum_j a_ij", 9)
    r4 = rep.rule("explicit", "the table is strictly lower triangular with c in [0, 1], and all shapes match the number of stages", 9)
    r5 = rep.rule("fsal", "an error weight on the extra stage is only present when that stage is f at the new solution; the two solutions differ", 9)
    r6 = rep.rule("registry", "every method name selects the table it names", 9)
    tabs = tables(p)
    maxo = max(int(e["order"]) for _, _, e in tabs)
    T = rooted_trees(maxo)
    total = 0
    for m, c, env in tabs:
        rep.analysed.add(f"{m.name}.{c.name}")
        where = loc(c)
        nm = f"{m.name}.{c.name}"
        s = int(env["n_stages"])
        o, eo = int(env["order"]), int(env["error_estimator_order"])
        A, B, C, E = (env[x] for x in "ABCE")
        shapes_ok = A.shape == (s, s) and B.shape == (s,) and C.shape == (s,) and E.shape == (s + 1,)
        tri = all(x == 0 for i, r in enumerate(A.d) for j, x in enumerate(r) if j >= i)
        inr = all(0 <= x <= 1 for x in C.d)
        rep.check(shapes_ok and tri and inr, r4, nm, f"shapes A{A.shape} B{B.shape} C{C.shape} E{E.shape} for {s} stages; strictly lower triangular: {tri}; c in [0,1]: {inr}", where)
        if not (len(A.d) == s and B.shape == (s,) and E.shape == (s + 1,) and C.shape == (s,)):
            continue
        a = np.zeros((s + 1, s + 1))
        for i, r in enumerate(A.d):
            for j, x in enumerate(r):
                a[i, j] = float(x)
        b = np.array([float(x) for x in B.d])
        a[s, :s] = b
        e = np.array([float(x) for x in E.d])
        bh = e.copy()
        bh[:s] += b
        rs = max(abs(sum(r) - ci) for r, ci in zip(A.d, C.d))
        rep.check(rs < 1e-11, r3, nm, f"row sums differ from c by {float(rs):.2e}", where)
        etol = 1e-11 if not short_literals(c, "E") else 1e-7
        worst, worste = (0.0, 0), (0.0, 0)
        phi, gam = {}, {}
        hi = max(o, eo)
        lin_vanish = True
        for k in range(1, hi + 1):
            for i, t in enumerate(T[k]):
                v = np.ones(s + 1)
                g = k
                for ch in t:
                    v = v * phi[ch]
                    g *= gam[ch]
                gam[k, i] = g
                total += 1
                if k <= o:
                    d = abs(b @ v[:s] - 1 / g)
                    if not d <= worst[0]:
                        worst = (d, k)
                d = abs(bh @ v - 1 / g)
                if k <= eo and not d <= worste[0]:
                    worste = (d, k)
                if d > 1e-6:
                    lin_vanish = False
                if k < hi:
                    phi[k, i] = a @ v
        rep.check(worst[0] < 1e-11, r1, nm, f"declared order {o}: a condition of order {worst[1]} fails by {worst[0]:.2e}", where)
        rep.check(worste[0] < etol, r2, nm, f"declared estimator order {eo}: a condition of order {worste[1]} fails by {worste[0]:.2e}", where)
        rep.check(np.abs(e).max() > 1e-8, r5, nm, "the error estimate is identically zero", where)
    # registry
    for mod in p.modules.values():
        if "METHODS" in mod.assigns and isinstance(mod.assigns["METHODS"], ast.Dict):
            d = mod.assigns["METHODS"]
            for k, v in zip(d.keys, d.values):
                if not (isinstance(k, ast.Constant) and isinstance(v, ast.Name)):
                    raise AnalysisError("METHODS is not a literal table of classes")
                r = p.resolve(mod.name, v.id)
                if not r or r[0] != "class":
                    rep.bad(r6, f"METHODS[{k.value!r}]", f"{v.id} is not a table class", loc(v))
                    continue
                env = next((e for m, c, e in tabs if c is r[2]), None)
                nums = re.findall(r"(\d+)\((\d+)\)", k.value)
                good = env is not None and nums and int(env["order"]) == int(nums[0][0]) and int(env["error_estimator_order"]) == int(nums[0][1])
                rep.check(bool(good), r6, f"METHODS[{k.value!r}]", f"selects {v.id} with order {env and int(env['order'])}({env and int(env['error_estimator_order'])})", loc(v))
    engine(p, rep, tabs)
    exode(p, rep)
    rep.extra["order_conditions_evaluated"] = total
    rep.extra["rooted_trees"] = {k: len(v) for k, v in T.items()}


def short_literals(c, name):
    """are the literals of the table given in short decimal form"""
    for st in c.body:
        if isinstance(st, ast.Assign) and isinstance(st.targets[0], ast.Name) and st.targets[0].id == name:
            fl = [x.value for x in ast.walk(st.value) if isinstance(x, ast.Constant) and isinstance(x.value, float) and x.value != int(x.value)]
            has_ratio = any(isinstance(x, ast.BinOp) and isinstance(x.op, ast.Div) for x in ast.walk(st.value))
            return bool(fl) and not has_ratio and all(len(repr(v).lstrip("-0.").replace(".", "")) <= 9 for v in fl) and any(len(repr(v)) >= 9 for v in fl)
    return False


def engine(p, rep, tabs):
    """the adaptive engine performs the step its table describes, in state and in time"""
    from ..bseries import BV, CA, S, Inconsistent, Prec, Y, as_bv, rhs_of, scale_time, show, to_s
    from ..interp import Func, Hook, Interp, Obj, RaiseOutcome, Opaque
    from .c08 import abs_, hooks, len_, minmax, order_of
    r7 = rep.rule("engine-step", "one accepted step of the engine is the Runge-Kutta step of its table, and the next step continues from its result", 18)
    r8 = rep.rule("engine-time", "every evaluation f(t, y) is made at the time t that belongs to y", 18)
    r9 = rep.rule("engine-reject", "a rejected attempt leaves no trace: the accepted step is the step of its table with the reduced step size", 9)
    LEAF = ("F", ())
    for m, c, env in tabs:
        s = int(env["n_stages"])
        A, B, C, E = (np.array([[float(y) for y in x] if isinstance(x, list) else float(x) for x in env[q].d]) for q in "ABCE")
        if A.shape != (s, s) or B.shape != (s,) or E.shape != (s + 1,) or C.shape != (s,):
            continue
        nm = f"{m.name}.{c.name}"
        Prec.P, Prec.E = 3, 1

        def table_step(y, h):
            K = []
            for i in range(s):
                arg = y
                for j in range(i):
                    if A[i, j]:
                        arg = arg.add(K[j].mul(S.const(A[i, j]) * h))
                K.append(rhs_of("F", arg))
            out = y
            for i in range(s):
                out = out.add(K[i].mul(S.const(B[i]) * h))
            return out

        for scenario in ("accept", "reject"):
            times = []
            norms = [0.5] if scenario == "accept" else [3.0, 0.5]
            state = {"k": 0}

            def norm(I, a, k, n):
                if isinstance(a[0], Opaque):
                    v = norms[min(state["k"], len(norms) - 1)]
                    state["k"] += 1
                    return v
                return 0.5

            def fun(I, a, k, n):
                t, y = to_s(a[0]), as_bv(a[1])
                times.append((t, y, n))
                return rhs_of("F", y)
            I = Interp(p, hooks(), max_steps=20_000_000, decide=size_decide)
            I.hooks["global_inf_norm"] = norm
            for mm in p.modules.values():
                I.modvars[(mm.name, "abs")] = Hook("abs", abs_)
                I.modvars[(mm.name, "max")] = Hook("max", minmax(max))
                I.modvars[(mm.name, "min")] = Hook("min", minmax(min))
                I.modvars[(mm.name, "len")] = Hook("len", len_)
            o = Obj((m, c), nm)
            for q, v in zip("ABCE", (A, B, C, E)):
                o.attrs[q] = CA(v)
            for q in ("n_stages", "order", "error_estimator_order"):
                o.attrs[q] = int(env[q])
            init = p.find_method(m, c, "__init__")
            stp = p.find_method(m, c, "step")
            if init is None or stp is None:
                raise AnalysisError("anchor vanished: RungeKutta.__init__/step")
            h = S({(1, 0): 1.0})
            y0 = BV({Y: S.const(1)})
            try:
                I.call_func(Func(init[0], init[2], cls=(init[0], init[1])), [o, Hook("fun", fun), 0.0, y0, 1000.0], {"first_step": h}, None)
                I.call_func(Func(stp[0], stp[2], cls=(stp[0], stp[1])), [o], {}, None)
                y1, t1 = as_bv(o.attrs["y"]), to_s(o.attrs["t"])
                if y1 is None or t1 is None:
                    raise AnalysisError(f"engine state not understood: {o.attrs.get('y')!r}")
                h1 = t1
                d = order_of(y1, table_step(BV({Y: S.const(1)}), h1), 3)
                rule = r7 if scenario == "accept" else r9
                rep.check(d is None, rule, f"{nm}/{scenario}", d and f"the new solution differs from the table's step at order h^{d[0]}: {show(d[1])} off by {d[2]:.3g}", loc(stp[2]))
                if scenario == "accept":
                    okt = abs(t1.t.get((1, 0), 0) - 1) < 1e-12 and len(t1.t) == 1
                    rep.check(okt, r7, f"{nm}/time", f"an accepted step of size h advances the time by {t1}", loc(stp[2]))
                else:
                    rep.check(0 < t1.at() < 0.01, r9, f"{nm}/time", f"the step after a rejection is not smaller: {t1}", loc(stp[2]))
                # second step
                I.call_func(Func(stp[0], stp[2], cls=(stp[0], stp[1])), [o], {}, None)
                y2, t2 = as_bv(o.attrs["y"]), to_s(o.attrs["t"])
                d = order_of(y2, table_step(y1, t2 - t1), 3)
                rep.check(d is None, r7, f"{nm}/{scenario}/second", d and f"the second step differs from the table's step at order h^{d[0]}: {show(d[1])} off by {d[2]:.3g}", loc(stp[2]))
                bad = [(t, y, n) for t, y, n in times if t is None or not S_eq(t, y.coef(LEAF))]
                rep.check(not bad, r8, f"{nm}/{scenario}", bad and f"f is evaluated at time {bad[0][0]} with a state that belongs to time {bad[0][1].coef(LEAF)}", loc(bad[0][2]) if bad and bad[0][2] is not None else "")
            except Inconsistent as e:
                rep.bad(r7, f"{nm}/{scenario}", e.msg, loc(stp[2]))
            except RaiseOutcome as e:
                rep.bad(r7, f"{nm}/{scenario}", f"the engine raises {e.val!r}", loc(stp[2]))
            rep.analysed |= I.analysed


def size_decide(op, a, b):
    """the state vector is not empty"""
    from ..bseries import SIZE
    f = {"Eq": lambda x, y: x == y, "NotEq": lambda x, y: x != y, "Lt": lambda x, y: x < y, "LtE": lambda x, y: x <= y, "Gt": lambda x, y: x > y, "GtE": lambda x, y: x >= y}.get(op)
    if op == "Truth" and a is SIZE:
        return True
    if f is None or not (a is SIZE or b is SIZE) or a is b:
        return None
    x, y = (10 ** 6 if q is SIZE else q for q in (a, b))
    return f(x, y) if isinstance(x, int) and isinstance(y, int) else None


def S_eq(a, b):
    d = a - b
    return all(abs(v) < 1e-9 for k, v in d.t.items() if k[0] <= 1)


def exode(p, rep):
    """the ODE handed to the engine has the requested combination of phi functions as its solution at t = 1"""
    from ..bseries import BV, S, Prec, Rows, as_bv, show, to_s, num
    from ..interp import Func, Hook, Interp, Obj, Opaque, ExtRef, RaiseOutcome
    from .c08 import abs_, hooks, len_, minmax, order_of
    r = rep.rule("exode-ode", "exode integrates y' = A y + sum_j t^(j-1)/(j-1)! u_j, y(0) = u_0 over [0, 1], whose solution is sum_k phi_k(A) u_k, and returns the solution", 4)
    m, f = p.find_function("exode")
    Prec.P, Prec.E = 8, 1
    for rows in (2, 4, 6):
        h = hooks()
        del h["exode"]
        I = Interp(p, h)
        cap = {}
        X, RES = ("X", ()), BV({("RESULT", ()): S.const(1)})
        u = Rows([BV({(f"U{i}", ()): S.const(1)}) for i in range(rows)])

        def A(I, a, k, n):
            return BV({("A", (t,)): v for t, v in as_bv(a[0]).t.items()})

        def ctor(I, a, k, n):
            names = ["fun", "t0", "y0", "t_bound", "max_step", "rtol", "atol", "first_step", "controller"]
            d = dict(zip(names, a))
            d.update(k)
            cap.update(d)
            o = Obj(None, "solver", {"status": "running", "y": RES, "t": 1.0, "t_old": 0.0})
            o.attrs["step"] = Hook("step", lambda I2, a2, k2, n2: o.attrs.__setitem__("status", "finished"))
            return o
        for mm in p.modules.values():
            if "METHODS" in mm.assigns:
                I.modvars[(mm.name, "METHODS")] = {"BS3(2)": Hook("method", ctor)}
        I.hooks["numpy.median"] = lambda I, a, k, n: Opaque(("median",))
        try:
            res = I.call_func(Func(m, f), [1.0, Hook("A", A), u], {"method": "BS3(2)"}, None)
        except RaiseOutcome as e:
            rep.bad(r, f"exode/{rows - 1} vectors", f"raises {e.val!r}", loc(f))
            continue
        if "fun" not in cap:
            raise AnalysisError("exode: the call of the Runge-Kutta engine was not found")
        t = S({(1, 0): 1.0})
        got = as_bv(I.call(cap["fun"], [t, BV({X: S.const(1)})], {}, None))
        want = BV({("A", (X,)): S.const(1)})
        fact = 1.0
        for j in range(rows - 1):
            fact *= max(1, j)
            want = want.add(BV({(f"U{j + 1}", ()): S({(j, 0): 1.0 / fact})}))
        d = order_of(got, want, 8)
        ok = d is None and num(cap["t0"]) == 0 and num(cap["t_bound"]) == 1 and order_of(as_bv(cap["y0"]), BV({("U0", ()): S.const(1)}), 8) is None
        msg = d and f"forcing differs: t^{d[0]} coefficient of {show(d[1])} off by {d[2]:.3g}" or f"integrates from {cap['t0']} to {cap['t_bound']} starting at {cap['y0']}"
        rep.check(ok, r, f"exode/{rows - 1} vectors", msg, loc(f))
        ret = res[0] if isinstance(res, tuple) else res
        rep.check(as_bv(ret) is not None and order_of(as_bv(ret), RES, 8) is None, r, f"exode/{rows - 1} vectors/result", "the returned vector is not the solution at the end of the interval", loc(f))
        rep.analysed |= I.analysed
