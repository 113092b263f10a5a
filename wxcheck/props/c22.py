"""C22: statistics records supply each column with the quantity it is named after."""
from __future__ import annotations

import sqlite3

from ..interp import ExtRef, Func, Hook, Interp, MISSING, Obj, Opaque, RaiseOutcome
from ..project import AnalysisError, loc
from ..simmpi import World
from .c19 import interp

WHERE = "output/solver_stats.py"
PHASES = (("extrapolation", "solution_extrapolation"), ("start_comm", "start_communication"), ("pointwise_flux", "pointwise_fluxes"), ("flux_div_1", "flux_divergence_partial"),
          ("end_comm", "end_communication"), ("riemann", "riemann_fluxes"), ("flux_div_2", "flux_divergence"), ("forcing", "forcing_terms"))
DURATION = {m: 0.5 + 0.25 * 2 ** i for i, (_, m) in enumerate(PHASES)}
# column of results_param -> attribute of the configuration
PARAMS = {"dg_order": "num_solpts", "num_elem_h": "num_elements_horizontal_total", "num_elem_v": "num_elements_vertical", "initial_dt": "dt", "equations": "equations",
          "case_number": "case_number", "grid_type": "grid_type", "time_integrator": "time_integrator", "solver_tol": "tolerance", "gmres_restart": "gmres_restart",
          "precond_interp": "dg_to_fv_interp", "precond_tol": "precond_tolerance", "mg_smoother": "mg_smoother", "kiops_dt_factor": "kiops_dt_factor",
          "num_mg_levels": "num_mg_levels", "num_pre_smoothe": "num_pre_smoothe", "num_post_smoothe": "num_post_smoothe", "pseudo_cfl": "pseudo_cfl"}
UNUSED = {"dg_to_fv_interp": "none", "precond_tolerance": 0, "mg_smoother": "none", "kiops_dt_factor": 0, "num_mg_levels": 0, "num_pre_smoothe": 0, "num_post_smoothe": 0, "pseudo_cfl": 0,
          "mg_solve_coarsest": 1}


def config(grid, precond, smoother):
    return {"num_solpts": 7, "num_elements_horizontal_total": 21, "num_elements_horizontal": 3, "num_elements_vertical": 9, "dt": 12.5, "equations": "euler_eq", "case_number": 31,
            "grid_type": grid, "time_integrator": "epi_five", "tolerance": 3.5e-7, "gmres_restart": 23, "preconditioner": precond, "dg_to_fv_interp": "lagrange_x",
            "precond_tolerance": 0.0625, "mg_smoother": smoother, "kiops_dt_factor": 1.75, "num_mg_levels": 4, "mg_solve_coarsest": False, "num_pre_smoothe": 5, "num_post_smoothe": 6,
            "pseudo_cfl": 2.25, "exp_smoothe_spectral_radii": [3.5, 4.5], "exp_smoothe_num_iters": [2, 3], "x0": 101.5, "x1": 202.5, "z0": 303.5, "z1": 404.5, "ztop": 505.5,
            "solver_stats_file": "stats.db", "output_dir": "outdir", "store_solver_stats": 1, "store_total_time": False, "exponential_solver": "pmex", "verbose_solver": 0,
            "output_freq": 0, "save_state_freq": 0, "stat_freq": 0, "base_output_file": "out", "output_format": "netcdf", "t_end": 1000.0, "starting_step": 0}


class Db:
    """the database engine, kept over the life of several runs; remembers who wrote"""

    def __init__(self):
        self.con = sqlite3.connect(":memory:", check_same_thread=False)
        self.files = set()
        self.users = set()
        self.errors = []
        self.log = []

    def connect(self, rank):
        def h(I, a, k, n):
            self.files.add(str(a[0] if a else k.get("database")))
            self.users.add(rank)
            cur = self.con.cursor()
            return Obj(None, "connection", {"cursor": Hook("cursor", lambda I, a, k, n: self.cursor(self.con.cursor(), rank)), "commit": Hook("commit", lambda I, a, k, n: self.con.commit()),
                                            "close": Hook("close", lambda I, a, k, n: None), "rollback": Hook("rollback", lambda I, a, k, n: self.con.rollback()),
                                            **{m: Hook(m, self.stmt(cur, m)) for m in ("execute", "executemany")}})
        return h

    def stmt(self, cur, m, wrap=None):
        def h(I, a, k, n):
            sql = a[0]
            if not isinstance(sql, str) or "\u27e6" in sql:
                raise AnalysisError(f"statement {sql!r} is not known at {loc(n)}")
            args = [sql]
            if len(a) > 1:
                v = a[1]
                rows = [plain(x, n) for x in I.iterate(v, n)] if m == "execute" else [[plain(y, n) for y in I.iterate(x, n)] for x in I.iterate(v, n)]
                args.append(rows)
            self.log.append(" ".join(sql.split())[:40])
            try:
                getattr(cur, m)(*args)
            except sqlite3.Error as e:
                self.errors.append(f"{type(e).__name__}: {e} ({loc(n)})")
                raise RaiseOutcome(ExtRef(f"sqlite3.{type(e).__name__}"), n)
            return wrap[0] if wrap else None
        return h

    def cursor(self, cur, rank):
        w = []
        o = Obj(None, "cursor", {"execute": Hook("execute", self.stmt(cur, "execute", w)), "executemany": Hook("executemany", self.stmt(cur, "executemany", w)),
                                 "fetchall": Hook("fetchall", lambda I, a, k, n: cur.fetchall()), "fetchone": Hook("fetchone", lambda I, a, k, n: cur.fetchone()),
                                 "close": Hook("close", lambda I, a, k, n: None)})
        w.append(o)
        I_last = Hook("lastrowid", None)
        return o

    def rows(self, table):
        try:
            c = self.con.execute(f"select * from {table} order by rowid")
        except sqlite3.Error as e:
            return None
        names = [d[0] for d in c.description]
        return [dict(zip(names, r)) for r in c.fetchall()]


def plain(x, n):
    if x is None or isinstance(x, (int, float, str)):
        return x
    if isinstance(x, (list, tuple)):
        raise AnalysisError(f"value {x!r} for a column at {loc(n)}")
    from fractions import Fraction
    if isinstance(x, Fraction):
        return float(x)
    raise AnalysisError(f"value {x!r} for a column is not known at {loc(n)}")


class Clock:
    def __init__(self, t=1000.0):
        self.t = t

    def now(self, I, a, k, n):
        return self.t


STEP = {"flag": 41, "time": 6.125, "total_num_it": 53, "iterations": [(0.5, 1.5, 2.5), (0.375, 1.625, 2.625), (0.3125, 1.6875, 2.6875)]}


def run_sim(p, db, cfg, steps, calls, nproc=2, precond=None, info=True):
    """`steps` steps of an integrator whose step evaluates the right-hand side calls[k] times, on nproc processes"""
    w = World(nproc)
    its = []
    recorded = []

    def body(r, world):
        I = interp(p)
        its.append(I)
        clock = Clock()
        comm = world.obj(r)
        I.attr_hook = lambda I2, v, attr: comm if attr == "COMM_WORLD" and isinstance(v, ExtRef) else MISSING
        I.hooks.update({"sqlite3.connect": db.connect(r), "time.time": clock.now, "time": clock.now, "time.perf_counter": clock.now,
                        "os.makedirs": lambda I, a, k, n: None, "os.path.abspath": lambda I, a, k, n: a[0]})
        I.modvars[("output.solver_stats", "sqlite_available")] = True
        m, c = p.find_class("CpuDevice")
        dev = Obj((m, c), "device", {"comm": comm, "xp": ExtRef("numpy"), "xalg": ExtRef("scipy"), "pde": None})
        param = Obj(None, "config", dict(cfg), strict=True)
        om = I.instantiate("output.output_manager", "OutputManager", [param, Obj(None, "geometry", {}), Obj(None, "operators", {}), dev], {})
        # right-hand side with phases of known length
        m, c = p.find_class("RHS")
        rhs = Obj((m, c), "rhs", {})
        args = {"pde": Obj(None, "pde", {"num_dim": 2, "num_var": 3}), "geometry": Obj(None, "geometry", {"device": dev}), "operators": None, "metric": None, "topography": None,
                "process_topo": None, "config": param, "expected_shape": (3, 4)}
        init = p.find_method(m, c, "__init__")
        I.call_func(Func(init[0], init[2], cls=(init[0], init[1])), [rhs], args, None)
        rhs.attrs["device"] = dev

        def phase(meth):
            def h(I, a, k, n):
                clock.t += DURATION[meth] * (1 + state["n"] / 64.0)
                return None
            return Hook(meth, h)
        state = {"n": 0}
        for _, meth in PHASES:
            if p.find_method(m, c, meth) is None:
                raise AnalysisError(f"anchor vanished: RHS.{meth}")
            rhs.attrs[meth] = phase(meth)

        def alloc(I, a, k, n):
            clock.t += 0.03125
        rhs.attrs["allocate_arrays"] = Hook("allocate_arrays", alloc)
        out = Opaque(("the result",))
        arr = Opaque(("rhs array",))
        rhs.attrs["rhs"] = arr
        q = Opaque(("the state",))
        m, c = p.find_class("Integrator")
        intg = Obj((m, c), "integrator", {})
        init = p.find_method(m, c, "__init__")
        I.call_func(Func(init[0], init[2], cls=(init[0], init[1])), [intg, param], {"device": dev, "output_manager": om, **({"preconditioner": precond(I)} if precond else {})}, None)
        intg.attrs["rhs"] = rhs
        intg.attrs["sim_time"] = 40.0

        def inner(I, a, k, n):
            clock.t += 3.0
            s = state["step"]
            for _ in range(calls[s]):
                state["n"] += 1
                I.call(rhs, [q], {}, n)
                clock.t += 0.125
            if info:
                m, c = p.find_class("SolverInfo")
                d = dict(STEP)
                d["total_num_it"] += s
                d["flag"] += s
                d["time"] += s
                intg.attrs["solver_info"] = I.instantiate("solvers.solver_info", "SolverInfo", [], d)
            return out
        intg.attrs["__step__"] = Hook("__step__", inner)
        for s in range(steps):
            state["step"] = s
            t0 = clock.t
            I.call(I.getattr_(intg, "step", None), [q, 12.5 - s], {}, None)
            if r == 0:
                recorded.append(clock.t - t0)
        return None
    out = w.run(body)
    return out, its, recorded


def ask(R, cond, rid, label, msg):
    R.check(cond, rid, label, msg, WHERE)


def near(a, b):
    return isinstance(a, (int, float)) and abs(a - b) <= 1e-9 * max(1, abs(b))


def same(a, b):
    return near(a, b) if isinstance(b, (int, float)) else a == b


def one_run(p, R, db, cfg, label, precond=None, radii=None, run_no=0, first_entry=1, calls=(2, 1, 3), nproc=2, info=True):
    before = {t: len(db.rows(t) or []) for t in ("results_param", "results_data", "rhs_timing")}
    steps = len(calls)
    out, its, total = run_sim(p, db, cfg, steps, calls, nproc, precond, info)
    for I in its:
        R.analysed |= I.analysed
    bad = next((f"process {i}: {k} {str(v)[:140]}" for i, (k, v) in enumerate(out) if k != "ok"), None)
    if bad or db.errors:
        ask(R, False, "stored", label, (bad or "") + " " + "; ".join(db.errors)[:200])
        db.errors.clear()
        return
    ask(R, db.users <= {0}, "one-writer", label, f"the database is opened by processes {sorted(db.users)}")
    rp = db.rows("results_param")
    if rp is None:
        ask(R, False, "stored", label, "there is no table results_param")
        return
    rp = rp[before["results_param"]:]
    ask(R, len(rp) == steps, "stored", f"{label}: one row per step", f"{len(rp)} rows for {steps} steps")
    if len(rp) != steps:
        return
    rid = rp[0].get("entry_id")
    others = db.rows("results_param")[:before["results_param"]]
    ask(R, all(r.get("run_id") == rid for r in rp), "run-id", f"{label}: parameters", f"run identifiers {[r.get('run_id') for r in rp]}, first entry {rid}")
    ask(R, all(r.get("run_id") != rid for r in others), "run-id", f"{label}: differs from other runs", f"run {rid} is also the identifier of an earlier run")
    ask(R, [r.get("step_id") for r in rp] == list(range(steps)), "run-id", f"{label}: steps", f"step numbers {[r.get('step_id') for r in rp]}")
    no_pre = cfg["preconditioner"] == "none"
    for s, row in enumerate(rp):
        want = {}
        for col, a in PARAMS.items():
            want[col] = cfg[a] if not (no_pre and a in UNUSED) else UNUSED[a]
        want["mg_solve_coarsest"] = 1 if no_pre else int(cfg["mg_solve_coarsest"])
        if not no_pre:
            if cfg["mg_smoother"] in ("kiops", "exp"):
                want["pseudo_cfl"] = 0
            if cfg["mg_smoother"] in ("erk1", "erk3", "ark1", "exp"):
                want["kiops_dt_factor"] = 0
        want["precond"] = cfg["preconditioner"] if precond else "none"
        want["dt"] = 12.5 - s
        want["simulation_time"] = 40.0 + sum(12.5 - j for j in range(s))
        want["total_solve_time"] = total[s]
        want["num_solver_it"] = STEP["total_num_it"] + s if info else 0
        want["solver_time"] = STEP["time"] + s if info else 0
        want["solver_flag"] = STEP["flag"] + s if info else 0
        want["backend"] = "cpu"
        want["num_procs"] = nproc
        cart = cfg["grid_type"] == "cartesian2d"
        for b in ("x0", "x1", "z0", "z1"):
            want[b] = cfg[b] if cart else 0
        want["ztop"] = 0 if cart else cfg["ztop"]
        rr = radii if radii is not None and cfg["mg_smoother"] == "exp" and precond else []
        for i in range(5):
            want[f"exp_radius_{i}"] = rr[i] if i < len(rr) else 0
        missing = [k for k in want if k not in row]
        ask(R, not missing, "columns", f"{label}: step {s}: all columns", f"no column {', '.join(missing)}")
        for k, v in want.items():
            if k in row:
                ask(R, same(row[k], v), "columns", f"{label}: step {s}: {k}", f"{row[k]!r} stored, the quantity is {v!r}")
    rd = (db.rows("results_data") or [])[before["results_data"]:]
    wd = [dict(run_id=rid, step_id=s, iteration=i, residual=t[0], time=t[1], work=t[2]) for s in range(steps) for i, t in enumerate(STEP["iterations"] if info else [])]
    table(R, "residuals", label, rd, wd, ("run_id", "step_id", "iteration"))
    rt = (db.rows("rhs_timing") or [])[before["rhs_timing"]:]
    wt, n = [], 0
    for s, k in enumerate(calls):
        for i in range(k):
            n += 1
            d = dict(run_id=rid, step_id=s, iteration=i)
            for col, meth in PHASES:
                d[col] = DURATION[meth] * (1 + n / 64.0)
            d["total"] = sum(DURATION.values()) * (1 + n / 64.0)
            wt.append(d)
    table(R, "timings", label, rt, wt, ("run_id", "step_id", "iteration"))


def table(R, rid, label, got, want, keys):
    ask(R, len(got) == len(want), rid, f"{label}: number of rows", f"{len(got)} rows for {len(want)} records: {[tuple(g.get(k) for k in keys) for g in got][:12]}")
    g = {tuple(x.get(k) for k in keys): x for x in got}
    for w in want:
        k = tuple(w[q] for q in keys)
        x = g.get(k)
        if x is None:
            ask(R, False, rid, f"{label}: step {k[1]} iteration {k[2]}", f"no row {k}")
            continue
        for col, v in w.items():
            ask(R, col in x and same(x[col], v), rid, f"{label}: step {k[1]} iteration {k[2]}: {col}", f"{x.get(col)!r} stored, the quantity is {v!r}")


def mg(radii):
    def make(I):
        m, c = I.p.find_class("Multigrid")
        return Obj((m, c), "preconditioner", {"spectral_radii": list(radii), "prepare": Hook("prepare", lambda I, a, k, n: None)})
    return make


def run(p, R, tier):
    R.explanation = ("Steps of an integrator with a right-hand side whose phases have known lengths are interpreted with the real output manager and statistics code on simulated processes; "
                     "the SQL statements they build are given to an SQL engine, and each column of the resulting tables is compared with the quantity it is named after. "
                     "Integrators are interpreted with solvers that return distinguishable results to see which of them becomes the iteration count, flag, time and residual history.")
    R.assumptions += ["the results database is an ordinary SQLite file", "the GPU device's timing events measure what their documentation says"]
    R.rule("stored", "every step stores one parameter row, without an error from the database", 4)
    R.rule("one-writer", "only one process opens the database", 4)
    R.rule("run-id", "the rows of a run carry its own identifier and consecutive step numbers", 10)
    R.rule("columns", "each column of results_param holds the quantity it is named after", 200)
    R.rule("residuals", "each residual of the solver is stored once with its step, iteration, time and work", 20)
    R.rule("timings", "each right-hand side evaluation's phase lengths are stored once, with the step they belong to", 50)
    R.rule("existing", "a database written by an earlier version gets the missing columns and keeps its rows", 2)
    R.rule("solver-info", "iteration count, flag, time and residuals reported by an integrator are those of its solver", 10)
    for grid in ("cartesian2d", "cubed_sphere"):
        for pre, smoother in (("none", "exp"), ("p-mg", "exp"), ("fv-mg", "kiops"), ("p-mg", "erk3")):
            db = Db()
            cfg = config(grid, pre, smoother)
            prec = mg([7.5, 8.5, 9.5]) if pre != "none" else None
            one_run(p, R, db, cfg, f"{grid}, preconditioner {pre}, smoother {smoother}", prec, [7.5, 8.5, 9.5], nproc=2 if grid == "cartesian2d" else 3)
            ask(R, db.files == {"outdir/stats.db"}, "stored", f"{grid}/{pre}/{smoother}: file", f"stored in {sorted(db.files)}")
            if pre == "p-mg" and smoother == "exp":
                # another run in the same file, with another number of radii and without solver information
                one_run(p, R, db, dict(cfg, num_solpts=8), f"{grid}, second run in the same file", mg([1.5, 2.5, 3.5, 4.5, 5.5]), [1.5, 2.5, 3.5, 4.5, 5.5], calls=(1, 1), nproc=1)
                one_run(p, R, db, dict(cfg, num_solpts=5), f"{grid}, third run, without solver information", mg([]), [], calls=(0, 2), info=False)
    existing(p, R)
    solver_info(p, R, tier)


def existing(p, R):
    """a file that lacks some of the columns"""
    for drop in (("backend",), ("ztop", "x0", "num_procs")):
        db0 = Db()
        cfg = config("cartesian2d", "none", "exp")
        run_sim(p, db0, cfg, 1, (1,))
        cols = db0.con.execute("PRAGMA table_info(results_param)").fetchall()
        if not cols:
            R.bad("existing", f"without {drop}", "no table", WHERE)
            continue
        db = Db()
        db.con.execute("CREATE TABLE results_param (" + ", ".join(f"{c[1]} {c[2]}" + (" PRIMARY KEY" if c[5] else "") for c in cols if c[1] not in drop) + ")")
        for (sql,) in db0.con.execute("select sql from sqlite_master where type='table' and name<>'results_param'").fetchall():
            db.con.execute(sql)
        db.con.execute("insert into results_param (run_id, step_id, dg_order) values (1, 0, 99)")
        one_run(p, R, db, cfg, f"file of an earlier version without {', '.join(drop)}")
        r = db.rows("results_param")
        ask(R, bool(r) and r[0].get("dg_order") == 99 and all(c in r[0] for c in drop), "existing", f"without {', '.join(drop)}", f"the row of the earlier run is now {str(r[:1])[:160]}")


# ---------------------------------------------------------------- integrators
def solver_info(p, R, tier):
    from . import c08
    from ..bseries import BV, Prec, S, Y
    from ..par import pmap

    def one(name):
        Prec.P, Prec.E = 2, 1
        for lin in (("fgmres", "gcrot") if name == "ros2" else ("fgmres",)):
            for solver in (("pmex", "kiops", "icwy_ne1s", "pmex_1s", "dcgs2", "exode") if name in ("epi2", "epi_stiff3", "srerk3") else ("pmex",)):
                try:
                    case(p, R, c08, name, lin, solver)
                except RaiseOutcome:
                    if solver == "pmex":  # other solvers may not be offered by every integrator
                        raise

    def case(p, R, c08, name, lin, solver):
        st = c08.Setup(p, name in ("imex2", "partrosexp2") or name.startswith("strang"))
        I = st.I
        clock = {"t": 100.0}
        seen = {"lin": [], "newton": [], "exp": []}
        base = dict(I.hooks)

        def now(I, a, k, n):
            clock["t"] += 0.25
            return clock["t"]
        for nm in ("time.time", "time", "time.perf_counter"):
            I.hooks[nm] = now

        def lin_(extra):
            solve = base["fgmres"]

            def h(I, a, k, n):
                x = solve(I, a, k, n)[0]
                c = 7 + 10 * len(seen["lin"])
                t = clock["t"]
                clock["t"] += 32 * (1 + len(seen["lin"]))
                v = {"norm_r": c + 0.5, "norm_b": c + 2.5, "error": c + 0.5, "niter": c + 1, "flag": 0, "residuals": [(c + .25, c + .375, c + .125)]}
                seen["lin"].append((v, clock["t"] - t))
                return tuple([x] + [v[e] for e in extra])
            return h

        def newton_(I, a, k, n):
            x = base["newton_krylov"](I, a, k, n)[0]
            c = 1007 + 10 * len(seen["newton"])
            t = clock["t"]
            clock["t"] += 64
            v = {"niter": c, "flag": 0, "residuals": [(c + .25, c + .375, c + .125)]}
            seen["newton"].append((v, clock["t"] - t))
            return (x, v["niter"], v["residuals"])

        def exp_(h0):
            def h(I, a, k, n):
                w = h0(I, a, k, n)[0]
                c = 2000 + 100 * len(seen["exp"])
                clock["t"] += 16
                seen["exp"].append(c + 2)
                return (w, tuple(c + i for i in range(8)))
            return h
        I.hooks["fgmres"] = lin_(["norm_r", "norm_b", "niter", "flag", "residuals"])
        I.hooks["gcrot"] = lin_(["error", "niter", "flag", "residuals"])
        I.hooks["newton_krylov"] = newton_
        for s in c08.EXPSOLVERS:
            for kk in (f"solvers.{s}.{s}", s):
                if kk in base:
                    I.hooks[kk] = exp_(base[kk])
        I.hooks["exode"] = exp_(base["exode"])
        obj = st.make(name, solver, "complex", lin)
        got = []

        def store(I, a, k, n):
            names = ("total_time", "simulation_time", "dt", "solver_info", "precond", "rhs_times")
            f = p.find_method(*p.find_class("OutputManager"), "store_solver_stats")
            if f is not None:
                names = tuple(x.arg for x in f[2].args.args[1:])
            d = dict(zip(names, a))
            d.update(k)
            got.append(d)
        om = Obj(None, "output manager", {"store_solver_stats": Hook("store_solver_stats", store)})
        obj.attrs["output_manager"] = om
        label = f"{name}/{solver}/{lin}"
        w = c08.where_of(p, obj)
        for i in range(4):
            seen["lin"].clear(), seen["newton"].clear(), seen["exp"].clear()
            got.clear()
            st.step(obj, BV({Y: S.const(1)}), S({(1, 0): 1.0}))
            si = got[-1].get("solver_info") if got else None
            if len(got) != 1 or not isinstance(si, Obj):
                R.bad("solver-info", label, f"{len(got)} records for one step", w)
                continue
            R.check(obj.attrs.get("solver_info") is None, "solver-info", f"{label}: step {i}: forgotten", "the information of this step stays for the next one", w)
            fl, tm, it, res = (si.attrs.get(q) for q in ("flag", "time", "total_num_it", "iterations"))
            solves = seen["lin"] or seen["newton"]
            if solves:
                cands = [v for v, _ in solves]
                sums = sum(v["niter"] for v in cands)
                ok = it in [v["niter"] for v in cands] + [sums] + [0] or it in seen["exp"]
                R.check(ok, "solver-info", f"{label}: step {i}: iterations", f"{it!r} reported, the solver made {[v['niter'] for v in cands]}", w)
                hists = [v["residuals"] for v in cands] + [sum((v["residuals"] for v in cands), [])] + [[]]
                R.check(as_list(res) in hists, "solver-info", f"{label}: step {i}: residuals", f"{res!r} reported", w)
                R.check(any(h[:1] == as_list(res)[:1] for h, v in zip(hists, cands) if v["niter"] == it) or it in (0, sums) or not as_list(res), "solver-info", f"{label}: step {i}: same solve", "residuals and iterations of different solves", w)
                times = [t for _, t in solves]
                R.check(tm == 0 or any(t <= tm <= t + 4 for t in times + [sum(times)]), "solver-info", f"{label}: step {i}: time", f"{tm!r} s reported, the solver took {times}", w)
                R.check(fl == 0, "solver-info", f"{label}: step {i}: flag", f"{fl!r} reported for a solve with flag 0", w)
            elif seen["exp"]:
                R.check(it in seen["exp"] + [sum(seen["exp"]), 0], "solver-info", f"{label}: step {i}: Krylov steps", f"{it!r} reported, the solver's iteration counts are {seen['exp']}", w)
            else:
                R.ok("solver-info", f"{label}: step {i}", w)
        R.analysed |= I.analysed
    names = [n for n in c08.NAMES if c08.NAMES[n] <= 3 and n not in ("srerk4",)]
    for o in pmap(one, names, R):
        if o:
            raise AnalysisError(o)


def as_list(x):
    return [tuple(t) for t in x] if isinstance(x, (list, tuple)) else []
