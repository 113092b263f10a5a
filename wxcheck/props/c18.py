"""C18: the simulation advances exactly to the requested end time."""
from __future__ import annotations

import math
from fractions import Fraction

from ..interp import ExtRef, Func, Hook, MISSING, Obj, Opaque, RaiseOutcome
from ..project import AnalysisError, loc
from ..simmpi import World
from .c19 import interp

WHERE = "simulation/simulation.py"
BUILD = ("_adjust_num_elements", "_make_device", "_create_geometry", "_create_preconditioner", "_create_output_manager", "_create_time_integrator")


class Trace:
    def __init__(self):
        self.steps, self.filters, self.writes, self.saves, self.stats, self.final, self.winds, self.checks = [], [], [], [], [], [], [], []


def state(k):
    return Opaque(("state after step", k))


def drive(p, cfg, script, start=None, fail_at=None, slow=0.0, check=False):
    """interprets Simulation(...) and then `script` (a list of "run" / "step"); returns the trace of process 0"""
    w = World(1)
    box = {}

    def body(r, world):
        I = interp(p)
        box["I"] = I
        tr = box["tr"] = Trace()
        comm = world.obj(r)
        clock = [10.0]
        I.attr_hook = lambda I2, v, attr: comm if attr == "COMM_WORLD" and isinstance(v, ExtRef) else MISSING

        def now(I, a, k, n):
            clock[0] += 0.125 + slow
            return clock[0]
        for nm in ("time.time", "time", "time.perf_counter"):
            I.hooks[nm] = now
        m, c = p.find_class("Configuration")
        config = Obj((m, c), "config", dict(cfg), strict=True)
        config.attrs["__str__"] = Hook("str", lambda I, a, k, n: "config")
        q0 = state(start or 0)
        dev = Obj(None, "device", {"comm": comm, "xp": ExtRef("numpy"), "to_host": Hook("to_host", lambda I, a, k, n: a[0])})
        im, ic = p.find_class("Integrator")
        intg = Obj((im, ic), "integrator", {})
        init = p.find_method(im, ic, "__init__")
        I.call_func(Func(init[0], init[2], cls=(init[0], init[1])), [intg, config], {"device": dev}, None)

        def step_(I, a, k, n):
            Q, dt = (list(a) + [k.get("Q"), k.get("dt")])[:2] if len(a) == 2 else (a[0] if a else k["Q"], k["dt"] if "dt" in k else a[1])
            tr.steps.append((Q, plain(dt), plain(intg.attrs.get("sim_time"))))
            if fail_at is not None and len(tr.steps) == fail_at:
                intg.attrs["failure_flag"] = 1
            return Opaque(("integrated", len(tr.steps)))
        intg.attrs["__step__"] = Hook("__step__", step_)
        om, oc = p.find_class("OutputManager")
        out = Obj((om, oc), "output", {})

        def sim_t():
            s = box.get("sim")
            return plain(s.attrs.get("t")) if s is not None else None
        out.attrs["__write_result__"] = Hook("write", lambda I, a, k, n: tr.writes.append((arg(a, k, 0, "Q"), arg(a, k, 1, "step_id"), sim_t())))
        out.attrs["__blockstats__"] = Hook("stats", lambda I, a, k, n: tr.stats.append((arg(a, k, 0, "Q"), arg(a, k, 1, "step_id"), sim_t())))
        out.attrs["__finalize__"] = Hook("finalize", lambda I, a, k, n: tr.final.append(len(tr.steps)))
        out.attrs["store_solver_stats"] = Hook("stats", lambda I, a, k, n: None)
        out.attrs["load_state_from_file"] = Hook("load", lambda I, a, k, n: (state(arg(a, k, 0, "step_id")), arg(a, k, 0, "step_id")))
        I.hooks["os.makedirs"] = lambda I, a, k, n: None
        I.hooks["os.path.abspath"] = lambda I, a, k, n: a[0]
        oi = p.find_method(om, oc, "__init__")
        I.call_func(Func(oi[0], oi[2], cls=(oi[0], oi[1])), [out, config, Obj(None, "geometry", {}), Obj(None, "operators", {}), dev], {}, None)
        I.hooks["save_state"] = I.hooks["output.state.save_state"] = lambda I, a, k, n: tr.saves.append((a[0], a[2] if len(a) > 2 else k.get("output_file_name"), sim_t()))
        nfile = p.find_method(om, oc, "state_file_name")
        out.attrs["state_file_name"] = Hook("name", lambda I, a, k, n: arg(a, k, 0, "step_id"))
        ops = Obj(None, "operators", {})

        def filt(I, a, k, n):
            names = ("Q", "geom", "metric", "dt")
            d = dict(zip(names, a))
            d.update(k)
            tr.filters.append((d.get("Q"), plain(d.get("dt"))))
            return state((start or 0) + len(tr.filters)) if len(tr.filters) <= 10 ** 6 else None
        ops.attrs["apply_filters"] = Hook("filters", filt)
        made = {"_make_device": dev, "_create_geometry": Obj(None, "geometry", {}), "_create_output_manager": out, "_create_time_integrator": intg}
        for b in BUILD:
            I.hooks[f"Simulation.{b}"] = (lambda v: lambda I, a, k, n: v)(made.get(b))
        I.hooks["ProcessTopology"] = lambda I, a, k, n: Obj(None, "topology", {})
        I.hooks["DFROperators"] = lambda I, a, k, n: ops
        I.hooks["init_state_vars"] = I.hooks["init.init_state_vars.init_state_vars"] = lambda I, a, k, n: (q0 if not start else Opaque(("initial state",)), None, None)
        I.hooks["RhsBundle"] = lambda I, a, k, n: Obj(None, "rhs", {})
        I.hooks["Simulation._check_for_nan"] = lambda I, a, k, n: tr.checks.append((a[-1] if a else k.get("Q"), len(tr.steps)))
        sim = Obj(p.find_class("Simulation"), "simulation", {})
        box["sim"] = None
        si = p.find_method(*p.find_class("Simulation"), "__init__")
        I.call_func(Func(si[0], si[2], cls=(si[0], si[1])), [sim, config], {"comm": comm}, None)
        box["sim"] = sim
        rets = []
        for what in script:
            tr.filters.clear()
            mark = len(tr.steps)
            v = I.call(I.getattr_(sim, what, None), [], {}, None)
            rets.append((v, len(tr.steps) - mark))
        return rets, plain(sim.attrs.get("t")), sim.attrs.get("step_id"), plain(intg.attrs.get("sim_time")), plain(config.attrs.get("dt")), plain(config.attrs.get("t_end"))
    out = w.run(body)
    return out[0], box.get("tr"), box["I"]


def arg(a, k, i, name):
    return a[i] if len(a) > i else k.get(name)


def plain(x):
    return x


def config(dt, t_end, start=0, out=0, save=0, stat=0):
    return {"dt": dt, "t_end": t_end, "starting_step": start, "output_freq": out, "save_state_freq": save, "stat_freq": stat, "case_number": 0, "grid_type": "cartesian2d",
            "num_elements_horizontal_total": 4, "num_elements_horizontal": 4, "num_elements_vertical": 2, "num_solpts": 3, "output_dir": "outdir", "store_solver_stats": 0,
            "store_total_time": False, "time_integrator": "x", "exponential_solver": "y", "verbose_solver": 0, "desired_device": "cpu", "output_format": "netcdf", "preconditioner": "none"}


def near(a, b, scale):
    if isinstance(a, Fraction) and isinstance(b, Fraction):
        return a == b
    try:
        return abs(a - b) <= 1e-9 * abs(scale)
    except TypeError:
        return False


def lengths(dt, t_end, start):
    """the steps needed: full ones and, if something is left, a shorter one"""
    exact = isinstance(dt, Fraction)
    n = Fraction(t_end) / Fraction(dt) if exact else Fraction(t_end).limit_denominator(10 ** 9) / Fraction(dt).limit_denominator(10 ** 9)
    full = n.numerator // n.denominator
    rest = n - full
    out = [dt] * max(0, full - start)
    if rest and full >= start:
        out.append(rest * (Fraction(dt) if exact else Fraction(dt).limit_denominator(10 ** 9)) if exact else float(rest * Fraction(dt).limit_denominator(10 ** 9)))
    return out


def case(p, R, dt, t_end, start=0, out=0, save=0, stat=0):
    label = f"dt={dt}, t_end={t_end}" + (f", from step {start}" if start else "") + (f", output every {out}/{save}/{stat}" if out or save or stat else "")
    res, tr, I = drive(p, config(dt, t_end, start, out, save, stat), ["run"], start)
    R.analysed |= I.analysed
    if res[0] != "ok":
        R.bad("end-time", label, f"the run ends with {res[0]} {str(res[1])[:160]}", WHERE)
        return
    rets, t, sid, simt, dt2, te2 = res[1]
    want = lengths(dt, t_end, start)
    got = [s[1] for s in tr.steps]
    R.check(len(got) == len(want), "steps", label, f"{len(got)} steps {tail(got)}, {len(want)} are needed", WHERE)
    if len(got) != len(want):
        return
    bad = [i for i, (g, w) in enumerate(zip(got, want)) if not near(g, w, dt)]
    R.check(not bad, "step-size", label, bad and f"step {start + bad[0] + 1} has length {got[bad[0]]} instead of {want[bad[0]]}", WHERE)
    fbad = [i for i, ((q, d), w) in enumerate(zip(tr.filters, want)) if not near(d, w, dt)] if len(tr.filters) == len(want) else [0]
    R.check(not fbad, "step-size", label + ": filters", "the filters are not applied once per step with the length of the step", WHERE)
    end = max(t_end, start * dt)
    R.check(near(t, end if want else start * dt, dt), "end-time", label, f"the simulated time at the end is {t}", WHERE)
    R.check(near(simt, (start * dt) + sum(want), dt), "end-time", label + ": integrator", f"the integrator's time at the end is {simt}", WHERE)
    R.check(sid == start + len(want), "step-id", label, f"the last step number is {sid} after {len(want)} steps from {start}", WHERE)
    R.check(dt2 == dt and te2 == t_end, "config-kept", label, f"the configuration now says dt={dt2}, t_end={te2}", WHERE)
    # each step starts from the state left by the one before
    exp = [state(start)] + [state(start + i + 1) for i in range(len(want))]
    qbad = [i for i, s in enumerate(tr.steps) if s[0] is not exp[i]]
    R.check(not qbad, "chained", label, qbad and f"step {start + qbad[0] + 1} starts from {tr.steps[qbad[0]][0]!r}", WHERE)
    tbad = [i for i, s in enumerate(tr.steps) if not near(s[2], (start + i) * dt, dt)]
    R.check(not tbad, "end-time", label + ": time of each step", tbad and f"step {start + tbad[0] + 1} is made at time {tr.steps[tbad[0]][2]}", WHERE)
    times = {start: start * dt}
    for i in range(len(want)):
        times[start + i + 1] = min((start + i + 1) * dt, t_end)
    for kind, freq, rec in (("output", out, tr.writes), ("saved states", save, tr.saves), ("statistics", stat, tr.stats)):
        due = [k for k in times if freq > 0 and k % freq == 0]
        R.check([r[1] for r in rec] == due, "output", f"{label}: {kind}", f"produced for steps {[r[1] for r in rec][:12]}, due for {due[:12]}", "output/output_manager.py")
        if [r[1] for r in rec] != due:
            continue
        R.check(all(r[0] is state(r[1]) for r in rec), "output", f"{label}: {kind}: state", "not the state of that step", "output/output_manager.py")
        R.check(all(r[2] is None or near(r[2], times[r[1]], dt) for r in rec), "output", f"{label}: {kind}: time", f"times {[(r[1], r[2]) for r in rec if r[2] is not None and not near(r[2], times[r[1]], dt)][:4]}", "output/output_manager.py")
    R.check(len(tr.final) == (1 if out > 0 else len(tr.final)) and all(f == len(want) for f in tr.final), "output", f"{label}: closed", f"output closed {len(tr.final)} times, after {tr.final} steps", WHERE)


def tail(x):
    return "(last lengths " + ", ".join(str(v) for v in x[-3:]) + ")"


def run(p, R, tier):
    R.explanation = ("Simulation's constructor, run() and step(), with the integrator's step() and the output manager's step(), are interpreted over grids of exact rational and of double "
                     "precision (dt, t_end, starting step, output intervals), with every other component replaced by a recorder; the recorded sequence of steps and outputs is compared with the one the configuration asks for.")
    R.assumptions += ["dt and t_end are positive"]
    R.rule("steps", "exactly the steps needed to reach t_end are made", 40)
    R.rule("step-size", "every step has length dt but the last, which ends at t_end; the filters use the same length", 40)
    R.rule("end-time", "simulated time is the sum of the lengths of the steps and ends at t_end", 40)
    R.rule("step-id", "step numbers increase by one per step", 40)
    R.rule("config-kept", "the configured step and end time are not changed by running", 40)
    R.rule("chained", "each step starts from the state left by the one before", 40)
    R.rule("output", "output, saved states and statistics are produced at the configured intervals, with the state and time of their step", 40)
    R.rule("again", "run() starts over; step() advances by one step and says when the end is reached", 5)
    R.rule("recorded-time", "the time recorded in output files is the time at which the state was computed", 4)
    R.rule("closing", "closing the output works whatever time it took", 5)
    F = Fraction
    exact = [(F(7, 3), F(7, 3) * k) for k in (1, 2, 5, 9)] + [(F(11, 5), F(11, 5) * (k + f)) for k in (0, 1, 4, 8) for f in (F(1, 7), F(1, 2), F(6, 7), F(1, 1000), F(999, 1000))]
    floats = [(0.1, 1.0), (0.1, 0.3), (0.1, 0.7), (0.2, 0.6), (0.1, 1.1), (0.3, 0.9), (0.7, 4.9), (0.01, 0.35), (1 / 3, 5.0), (100.0, 250.0), (900.0, 86400.0), (30, 1000), (5, 10), (7, 20),
              (1200.0, 7200), (0.1, 2.25), (1e-3, 0.0297), (450.0, 100.0), (1.1, 3.3), (0.6, 1.8), (1.4, 4.2)]
    if tier == "thorough":
        floats += [(d / 10, d * k / 10) for d in range(1, 30) for k in (3, 6, 7, 11, 13, 17)]
        exact += [(F(13, 9), F(13, 9) * F(k, 12)) for k in range(1, 60)]
    for dt, te in exact + floats:
        case(p, R, dt, te)
    for dt, te, start in [(F(7, 3), F(7, 3) * 6, 2), (F(7, 3), F(7, 3) * F(13, 2), 3), (F(7, 3), F(7, 3) * 4, 4), (F(7, 3), F(7, 3) * 4, 6), (0.1, 1.0, 3), (0.1, 1.0, 7), (900.0, 3600.0, 1), (60, 200, 2)]:
        case(p, R, dt, te, start)
    for freqs in [(1, 1, 1), (2, 3, 4), (3, 0, 2), (5, 2, 0), (0, 7, 1), (50, 50, 50), (-1, -1, -1)]:
        case(p, R, F(3, 2), F(3, 2) * 10, 0, *freqs)
        case(p, R, F(3, 2), F(3, 2) * F(21, 2), 0, *freqs)
        case(p, R, 0.1, 1.2, 4, *freqs)
    again(p, R)
    recorded(p, R, tier)
    closing(p, R)


def again(p, R):
    F = Fraction
    for dt, te, n in ((F(7, 3), F(7, 3) * 4, 4), (F(7, 3), F(7, 3) * F(9, 2), 5), (0.1, 1.0, 10)):
        for script, want in ((["run", "run"], [(None, n), (None, n)]), (["step"] * n + ["step", "step"], [(True, 1)] * n + [(False, 0)] * 2), (["step", "step", "run"], [(True, 1)] * 2 + [(None, n)])):
            res, tr, I = drive(p, config(dt, te), script)
            label = f"dt={dt}, t_end={te}: " + (", ".join(script) if len(script) < 4 else f"step x {len(script)}")
            if res[0] != "ok":
                R.bad("again", label, f"{res[0]} {str(res[1])[:160]}", WHERE)
                continue
            rets, t, sid, simt, _, _ = res[1]
            got = [(v if s == "step" else None, c) for s, (v, c) in zip(script, rets)]
            ok = [c for _, c in got] == [c for _, c in want] and all(bool(v) == bool(w) for (v, _), (w, _), s in zip(got, want, script) if s == "step" and w is False)
            R.check(ok and near(t, te, dt) and sid == n and near(simt, te, dt), "again", label, f"steps made {[c for _, c in got]}, answers {[v for v, _ in got]}, time {t}, step {sid}", WHERE)
            if script[-1] == "run":
                R.check(tr.steps[-n][0] is state(0), "again", label + ": initial state", f"starts from {tr.steps[-n][0]!r}", WHERE)
    res, tr, I = drive(p, config(2, 20), ["run"], fail_at=3)
    R.check(res[0] == "ok" and len(tr.steps) == 3, "again", "a step that failed ends the run", f"{res[0]}: {len(tr.steps)} steps", WHERE)


def recorded(p, R, tier):
    from . import c03
    w = "output/output_cubesphere_netcdf.py"
    for dt, te, ids in ((Fraction(5, 2), Fraction(25), [0, 1, 4, 10]), (Fraction(5, 2), Fraction(5, 2) * Fraction(7, 2), [0, 3, 4]), (100, 250, [0, 1, 2, 3]), (900.0, 3600.0, [2, 4])):
        b, ts = c03.netcdf(p, R, tier, "geometry.cubed_sphere_2d", "CubedSphere2D", 2, 1, (dt, te, ids))
        want = [min(i * dt, te) for i in ids]
        R.check(b is None and len(ts) == len(want) and all(near(a, c, dt) for a, c in zip(ts, want)), "recorded-time", f"netCDF, dt={dt}, t_end={te}, steps {ids}", f"{b or ''} times {ts} instead of {want}", w)


def closing(p, R):
    for slow in (0.0, 1e-8, 1e-4, 0.5, 30.0, 999.0, 1001.0, 4000.0, 1e6):
        res, tr, I = drive(p, config(2, 4, 0, 1, 1, 1), ["run"], slow=slow)
        R.check(res[0] == "ok", "closing", f"clock advances {slow} s per reading", f"{res[0]} {str(res[1])[:120]}", "output/output_manager.py")
