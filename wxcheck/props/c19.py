"""C19: single-process sections hand the outcome of the active process to every process."""
from __future__ import annotations

import ast
import os
import textwrap

from ..interp import ExtRef, Func, Hook, Interp, MISSING, Obj, Opaque, RaiseOutcome
from ..project import AnalysisError, loc, qualname
from ..simmpi import Stuck, World

EXCS = ("ValueError", "RuntimeError", "OSError", "KeyError", "AttributeError", "TypeError", "MemoryError", "SystemExit", "KeyboardInterrupt", "StopIteration", "Exception")


def driver(p, src, module="wx_mpi"):
    f = ast.parse(textwrap.dedent(src)).body[0]
    m = p.modules[module]
    for n in ast.walk(f):
        for c in ast.iter_child_nodes(n):
            c._parent = n
        n._file = getattr(m.tree, "_file", module)
    return Func(m, f)


def interp(p, hooks=None):
    I = Interp(p, dict(hooks or {}))
    I.exact = True
    return I


def raiser(name):
    def f(I, a, k, n):
        raise RaiseOutcome(ExtRef(name), n)
    return Hook("raise " + name, f)


def value(v):
    return Hook("value", lambda I, a, k, n: v)


def simulate(p, n, fn, members=None, hooks=None):
    """fn(I, rank, comm object) on the member processes of a communicator that spans only part of the world"""
    w = World(n)
    its = []

    def body(r, world):
        I = interp(p, hooks(r) if callable(hooks) else hooks)
        its.append(I)
        wc = world.obj(r)
        I.attr_hook = lambda I2, v, attr: wc if attr == "COMM_WORLD" and isinstance(v, ExtRef) else MISSING
        if members is None:
            return fn(I, r, wc)
        sub = sub_comm(w, world, members, r)
        if sub is None:
            return ("idle",)
        return fn(I, members.index(r), sub)

    out = w.run(body)
    return out, its, w


def sub_comm(w, world, members, r):
    from ..simmpi import Comm
    if r not in members:
        return None
    key = (id(w), tuple(members))
    if not hasattr(w, "subs"):
        w.subs = {}
    if key not in w.subs:
        w.subs[key] = Comm(w, tuple(members), "sub")
    return w.subs[key].obj(r)


def describe(out):
    return "; ".join(f"process {i}: {k} {short(v)}" for i, (k, v) in enumerate(out))[:300]


def short(v):
    return str(v)[:80]


SRC_SECTION = """
def driver(comm, root, action):
    with SingleProcess(comm, root) as s, Conditional(s):
        s.return_value = action()
    return s.return_value
"""
SRC_KW = """
def driver(comm, root, action):
    with SingleProcess(root_rank=root, comm=comm) as s:
        with Conditional(s):
            s.return_value = action()
    return s.return_value
"""
SRC_NOVALUE = """
def driver(comm, root, action):
    with SingleProcess(comm, root) as s, Conditional(s):
        action()
    return s.return_value
"""
SRC_ATTRS = """
def driver(comm, root, action):
    s = SingleProcess(comm, root)
    return [s.rank, s.root_rank, s.comm is comm]
"""
SRC_TWICE = """
def driver(comm, root, action):
    with SingleProcess(comm, root) as s, Conditional(s):
        s.return_value = action()
    with SingleProcess(comm, root) as t, Conditional(t):
        t.return_value = [s.return_value, comm.rank]
    return [s.return_value, t.return_value]
"""
SRC_ONCE = """
def driver(comm, root, action):
    return do_once(action, 3, 4, comm=comm)
"""
SRC_DEFAULT = """
def driver(comm, root, action):
    with SingleProcess() as s, Conditional(s):
        s.return_value = action()
    a = do_once(action)
    return [s.return_value, a]
"""
SRC_MULTI = """
def driver(comm, num, action):
    ran = 0
    with MultipleProcesses(comm, num) as m, Conditional(m):
        ran = 1 + m.sub_comm.allreduce(1)
        action(comm.rank)
    return ran
"""


def primitives(p, R):
    def go(src, n, arg, act, members=None):
        f = driver(p, src)
        calls = []

        def fn(I, r, c):
            def rec(I2, a, k, nn):
                calls.append((r, list(a)))
                return I.call(act(r), a, k, nn)
            return I.call(f, [c, arg, Hook("action", rec)], {}, None)

        out, its, w = simulate(p, n, fn, members)
        for I in its:
            R.analysed |= I.analysed
        return out, calls, w

    worlds = [(1, None), (2, None), (3, None), (4, [1, 2, 3]), (5, [4, 0, 2])]
    for nm, src in (("section", SRC_SECTION), ("nested with statements", SRC_KW), ("section without value", SRC_NOVALUE)):
        for n, mem in worlds:
            sz = len(mem) if mem else n
            mm = mem or list(range(n))
            for root in range(sz):
                for v in (7, 0, None, "x", False, [1, 2], {"a": 1}, Obj(None, "thing", {})):
                    want = None if src is SRC_NOVALUE else v
                    try:
                        out, calls, w = go(src, n, root, lambda r, v=v: value(v), mem)
                    except Stuck as e:
                        out, calls = [("stuck", str(e))], []
                    res = [out[m] for m in mm] if len(out) == n else out
                    same = all(k == "ok" and (x == want or (isinstance(x, Obj) and isinstance(want, Obj) and x.name == want.name)) and type(x) is type(want) for k, x in res)
                    R.check(same, "value", f"{nm}: {v!r} from process {root} of {sz}", f"{describe(out)}", "wx_mpi.py")
                    R.check([c[0] for c in calls] == [root], "once", f"{nm}: process {root} of {sz}", f"the body ran on processes {[c[0] for c in calls]}", "wx_mpi.py")
                for ex in EXCS:
                    out, calls, w = go(src, n, root, lambda r, ex=ex: raiser(ex), mem)
                    res = [out[m] for m in mm]
                    R.check(all(k == "raise" for k, _ in res), "raise", f"{nm}: {ex} on process {root} of {sz}", describe(out), "wx_mpi.py")
                    R.check(res[root][0] != "raise" or ex in interp(p).exc_names(res[root][1]), "original", f"{nm}: {ex} on process {root} of {sz}", f"the active process ends with {short(res[root][1])}", "wx_mpi.py")
    for n, mem in worlds:
        sz = len(mem) if mem else n
        mm = mem or list(range(n))
        for root in range(sz):
            out, _, _ = go(SRC_TWICE, n, root, lambda r: value(5), mem)
            R.check(all(out[m] == ("ok", [5, [5, root]]) for m in mm), "value", f"two sections in a row, process {root} of {sz}", describe(out), "wx_mpi.py")
            out, _, _ = go(SRC_ATTRS, n, root, lambda r: value(5), mem)
            R.check(all(out[m] == ("ok", [i, root, True]) for i, m in enumerate(mm)), "value", f"attributes rank, root_rank, comm; process {root} of {sz}", describe(out), "wx_mpi.py")
        out, calls, _ = go(SRC_ONCE, n, 0, lambda r: value(9), mem)
        R.check(all(out[m] == ("ok", 9) for m in mm), "value", f"do_once on {sz} of {n}", describe(out), "wx_mpi.py")
        R.check(len(calls) == 1 and calls[0][1] == [3, 4], "once", f"do_once on {sz} of {n}", f"calls {calls}", "wx_mpi.py")
        for ex in EXCS:
            out, calls, _ = go(SRC_ONCE, n, 0, lambda r: raiser(ex), mem)
            R.check(all(out[m][0] == "raise" for m in mm), "raise", f"do_once: {ex} on {sz} of {n}", describe(out), "wx_mpi.py")
    for n in (1, 3):
        out, calls, _ = go(SRC_DEFAULT, n, 0, lambda r: value(4))
        R.check(all(o == ("ok", [4, 4]) for o in out), "value", f"default communicator, {n} processes", describe(out), "wx_mpi.py")
    for n, mem in worlds:
        sz = len(mem) if mem else n
        mm = mem or list(range(n))
        for num in range(0, sz + 1):
            act = num or sz
            out, calls, _ = go(SRC_MULTI, n, num, lambda r: value(1), mem)
            R.check(all(out[m] == ("ok", 1 + act if i < act else 0) for i, m in enumerate(mm)), "value", f"MultipleProcesses({num}) of {sz}", describe(out), "wx_mpi.py")
            for bad in range(act):
                for ex in ("ValueError", "SystemExit", "KeyboardInterrupt"):
                    out, calls, _ = go(SRC_MULTI, n, num, lambda r: raiser(ex) if r == bad else value(1), mem)
                    R.check(all(out[m][0] == "raise" for m in mm), "raise", f"MultipleProcesses({num}) of {sz}: {ex} on process {bad}", describe(out), "wx_mpi.py")


# ------------------------------------------------------------------ sections of the program, interpreted whole
def site(R, name, fn):
    """one section of the program; what the interpreter cannot follow is left to the syntactic rules"""
    try:
        fn()
    except (AnalysisError, TypeError, AttributeError, KeyError, IndexError, ValueError) as e:
        if os.environ.get("WXCHECK_DEBUG"):
            raise
        R.extra.setdefault("sections_not_interpreted", []).append(f"{name}: {e}")
    else:
        R.extra.setdefault("sections_interpreted", []).append(name)


def config(**kw):
    d = dict(output_dir="out", store_solver_stats=0, dt=30, num_elements_horizontal_total=8, num_elements_horizontal=8, num_elements_vertical=4, num_solpts=4,
             output_freq=0, save_state_freq=0, stat_freq=0, schema=Opaque("schema"), base_output_file="base", equations="euler", case_number=31, grid_type="cubed_sphere",
             solver_stats_file="stats.db", t_end=300, preconditioner="none")
    d.update(kw)
    return Obj(None, "Configuration", d)


def device(c):
    return Obj(None, "device", {"comm": c, "xp": ExtRef("numpy"), "to_host": Hook("to_host", lambda I, a, k, n: a[0])})


MEMBERS = [(6, None), (8, [1, 2, 3, 4, 5, 6])]


def sections(p, R):
    def outcome(name, what, fn, expect, hooks=None, where="", fail=None):
        """expect: 'raise' or a function of the list of results"""
        for n, mem in MEMBERS:
            out, its, w = simulate(p, n, fn, mem, hooks)
            for I in its:
                R.analysed |= I.analysed
            mm = mem or list(range(n))
            res = [out[m] for m in mm]
            label = f"{name}, {what}, {len(mm)} of {n} processes"
            if expect == "raise":
                R.check(all(k == "raise" for k, _ in res), "section-raise", label, describe(out), where)
            else:
                ok = all(k == "ok" for k, _ in res) and expect([v for _, v in res])
                R.check(ok, "section-value", label, describe(out), where)

    # --- output manager
    om = p.find_class("OutputManager", "output.output_manager")
    where = "output/output_manager.py"

    def make(I, c, cls="OutputManager", mod="output.output_manager", **cf):
        o = Obj((p.find_class(cls, mod)[0], p.find_class(cls, mod)[1]), cls)
        I.call(I.getattr_(o, "__init__", None), [config(**cf), Obj(None, "geometry", {}), Obj(None, "operators", {}), device(c)], {}, None)
        return o

    def mk(errors):
        def f(rank_of):
            left = list(errors)

            def makedirs(I, a, k, n):
                if left:
                    e = left.pop(0)
                    if e:
                        raise RaiseOutcome(ExtRef(e), n)
                return None
            return {"os.makedirs": makedirs, "os.mkdir": makedirs, "pathlib.Path.mkdir": makedirs}
        return f

    def ctor():
        get = lambda I, r, c: make(I, c).attrs.get("output_dir")
        outcome("output directory", "created", get, lambda v: all(x == "out" for x in v), mk([]), where)
        outcome("output directory", "permission denied", get, lambda v: len(set(v)) == 1 and isinstance(v[0], str), mk(["PermissionError"]), where)
        outcome("output directory", "permission denied everywhere", get, "raise", mk(["PermissionError"] * 9), where)
        outcome("output directory", "name taken by a file", get, "raise", mk(["FileExistsError"] * 9), where)
        outcome("output directory", "disk full", get, "raise", mk(["OSError"] * 9), where)
    site(R, "OutputManager.__init__", ctor)

    # --- saving and loading the state
    cm, cc = p.find_class("OutputCubesphere", "output.output_cubesphere")

    def cube(I, r, c, **cf):
        got = []

        def dist(I2, a, k, n):
            got.append(a[0] if a else k.get("field"))
            c.attrs["barrier"].fn(I2, [], {}, n)
            return Obj(None, "tile", {"shape": (3, 4)})

        def gath(I2, a, k, n):
            c.attrs["barrier"].fn(I2, [], {}, n)
            return Obj(None, "whole", {}) if r == 0 else None
        o = Obj((cm, cc), "OutputCubesphere")
        pt = Obj(None, "topology", {"comm": c, "rank": r, "distribute_cube": Hook("distribute_cube", dist), "gather_cube": Hook("gather_cube", gath)})
        o.attrs.update(config=config(**cf), comm=c, rank=r, device=device(c), output_dir="out", config_hash=1, num_dim=3, process_topology=pt,
                       num_writes=0, num_save_states=0, num_blockstats=0, total_write_time=0, total_save_state_time=0, total_blockstat_time=0,
                       geometry=Obj(None, "geometry", {}))
        return o, got

    def load():
        def ld(exc):
            def h(r):
                def f(I, a, k, n):
                    if exc:
                        raise RaiseOutcome(ExtRef(exc), n)
                    return (Obj(None, "saved", {"shape": (3, 6, 4)}), Obj(None, "conf", {}))
                return {"load_state": f, "output.state.load_state": f}
            return h

        def go(I, r, c):
            o, got = cube(I, r, c)
            q = I.call(I.getattr_(o, "load_state_from_file", None), [5, (3, 4)], {}, None)
            return got, q
        for e in ("FileNotFoundError", "OSError", "ValueError", "EOFError"):
            outcome("loading a saved state", e, go, "raise", ld(e), where)
        outcome("loading a saved state", "read", go, lambda v: v[0][0] and getattr(v[0][0][0], "name", "") == "saved" and all(len(x[0]) == 1 and x[1][1] == 5 for x in v), ld(None), where)
    site(R, "OutputManager.load_state_from_file", load)

    def save():
        def sv(exc):
            def h(r):
                def f(I, a, k, n):
                    if exc:
                        raise RaiseOutcome(ExtRef(exc), n)
                return {"save_state": f, "output.state.save_state": f, "time.time": lambda I, a, k, n: 0}
            return h

        def go(I, r, c):
            o, got = cube(I, r, c, save_state_freq=1)
            return I.call(I.getattr_(o, "step", None), [Obj(None, "Q", {}), 5], {}, None)
        for e in ("OSError", "PermissionError"):
            outcome("saving the state", e, go, "raise", sv(e), where)
        outcome("saving the state", "written", go, lambda v: True, sv(None), where)
    site(R, "OutputManager.step", save)

    # --- solver statistics
    def stats():
        sm, sc = p.find_class("SolverStatsOutput", "output.solver_stats")

        def hk(exc, at):
            def h(r):
                def boom(what):
                    def f(I, a, k, n):
                        if at == what and exc:
                            raise RaiseOutcome(ExtRef(exc), n)
                        if what == "connect":
                            cur = Obj(None, "cursor", {"execute": Hook("execute", boom("execute")), "fetchall": Hook("fetchall", lambda I, a, k, n: []), "executemany": Hook("executemany", boom("execute"))})
                            return Obj(None, "connection", {"cursor": Hook("cursor", lambda I, a, k, n: cur), "commit": Hook("commit", boom("commit"))})
                    return f
                return {"sqlite3.connect": boom("connect"), "_sanitize_params": lambda I, a, k, n: a[0], "ColumnSet": lambda I, a, k, n: Obj(None, "ColumnSet", {"run_id": Obj(None, "col", {"type": "int"}), "step_id": Obj(None, "col", {"type": "int"})}),
                        "deepcopy": lambda I, a, k, n: a[0]}
            return h

        def go(I, r, c):
            I.modvars[("output.solver_stats", "sqlite_available")] = True
            o = Obj((sm, sc), "SolverStatsOutput")
            I.call(I.getattr_(o, "__init__", None), [config(), device(c)], {}, None)
            return r
        for e in ("sqlite3.OperationalError", "sqlite3.DatabaseError", "sqlite3.IntegrityError", "sqlite3.NotSupportedError", "PermissionError", "OSError"):
            for at in ("connect", "execute", "commit"):
                outcome("opening the statistics", f"{e} in {at}", go, "raise", hk(e, at), "output/solver_stats.py")
        outcome("opening the statistics", "done", go, lambda v: True, hk(None, None), "output/solver_stats.py")

        def go2(I, r, c):
            o = Obj((sm, sc), "SolverStatsOutput", {"comm": c, "is_writer": r == 0})
            ran = []

            def w(I2, a, k, n):
                ran.append(r)
                if I.fail:
                    raise RaiseOutcome(ExtRef(I.fail), n)
            o.attrs["_exec_write_output"] = Hook("_exec_write_output", w)
            I.call(I.getattr_(o, "write_output", None), [1, 2, 3, 4, 5, 0, [], None, None], {}, None)
            return ran
        if sc and any(isinstance(x, ast.FunctionDef) and x.name == "_exec_write_output" for x in sc.body):
            def f2(e):
                def g(I, r, c):
                    I.fail = e
                    return go2(I, r, c)
                return g
            outcome("writing statistics", "error", f2("sqlite3.OperationalError"), "raise", None, "output/solver_stats.py")
            outcome("writing statistics", "done", f2(None), lambda v: v[0] == [0] and not any(v[1:]), None, "output/solver_stats.py")
    site(R, "SolverStatsOutput", stats)

    # --- compilation of the kernels
    def comp():
        def hk(e):
            def h(r):
                ran = []

                def f(I, a, k, n):
                    I.ran = True
                    if e:
                        raise RaiseOutcome(ExtRef(e), n)
                return {"compile_extension": f, "compiler.compile_kernels.compile_extension": f, "load_module": lambda I, a, k, n: Opaque("module")}
            return h

        def go(I, r, c):
            I.ran = False
            f = p.find_function("compile", "compiler.compile_kernels")
            I.call(Func(f[0], f[1]), ["pde", "cpp"], {"comm": c}, None)
            return I.ran
        for e in ("SystemExit", "OSError", "RuntimeError"):
            outcome("compiling the kernels", e, go, "raise", hk(e), "compiler/compile_kernels.py")
        outcome("compiling the kernels", "done", go, lambda v: sum(map(bool, v)) == 1, hk(None), "compiler/compile_kernels.py")

        dm, dc = p.find_class("CpuDevice", "device.device")

        def go2(I, r, c):
            I.ran = False
            o = Obj((dm, dc), "CpuDevice")
            I.call(I.getattr_(o, "__init__", None), [], {"comm": c}, None)
            return I.ran
        for e in ("SystemExit", "OSError", "RuntimeError"):
            outcome("creating the device", e, go2, "raise", hk(e), "device/device.py")
        outcome("creating the device", "done", go2, lambda v: sum(map(bool, v)) == 1, hk(None), "device/device.py")
    site(R, "compile_kernels.compile", comp)

    # --- reading the configuration
    def sim():
        sm, sc = p.find_class("Simulation", "simulation.simulation")

        class Stop(Exception):
            pass

        def hk(e, which=0):
            def h(r):
                cnt = [0]

                def rf(I, a, k, n):
                    cnt[0] += 1
                    if e and cnt[0] == which:
                        raise RaiseOutcome(ExtRef(e), n)
                    return f"content of {a[0]}"

                def cfg(I, a, k, n):
                    I.seen.append(a[0])
                    return config()
                return {"readfile": rf, "common.readfile": rf, "ConfigurationSchema": lambda I, a, k, n: (I.seen.append(a[0]), Opaque("schema"))[1], "Configuration": cfg,
                        "Simulation._adjust_num_elements": lambda I, a, k, n: stop(n)}
            return h

        def stop(n):
            raise RaiseOutcome(ExtRef("Reached"), n)

        def go(show):
            def g(I, r, c):
                I.seen = []
                o = Obj((sm, sc), "Simulation")
                try:
                    I.call(I.getattr_(o, "__init__", None), ["the.ini"], {"comm": c, "print_allowed_pe_counts": show}, None)
                except RaiseOutcome as e:
                    if getattr(e.val, "dotted", "") == "Reached":
                        return [str(x) for x in I.seen]
                    raise
                return None
            return g
        for e in ("FileNotFoundError", "PermissionError", "UnicodeDecodeError"):
            for w in (1, 2):
                outcome("reading the configuration", f"{e} in file {w}", go(False), "raise", hk(e, w), "simulation/simulation.py")
        outcome("reading the configuration", "read", go(False), lambda v: all(x == v[0] and x and len(x) == 2 and "the.ini" in x[1] for x in v), hk(None), "simulation/simulation.py")
        outcome("printing the process counts", "exit", go(True), "raise", hk(None), "simulation/simulation.py")
    site(R, "Simulation.__init__", sim)

    # --- opening output files
    def nc():
        nm, ncls = p.find_class("OutputCubesphereNetcdf", "output.output_cubesphere_netcdf")

        def hk(e):
            def h(r):
                def ds(I, a, k, n):
                    I.ran = True
                    if e:
                        raise RaiseOutcome(ExtRef(e), n)
                    raise RaiseOutcome(ExtRef("Reached"), n)
                return {"netCDF4.Dataset": ds}
            return h

        def go(I, r, c):
            I.ran = False
            pt = Obj(None, "topology", {"comm": c, "rank": r, "num_lines_per_panel": 1})
            o = Obj((nm, ncls), "OutputCubesphereNetcdf", {"comm": c, "rank": r, "filename": "f.nc", "config": config(), "process_topology": pt, "geometry": Obj(None, "geometry", {}), "device": device(c)})
            return I.call(I.getattr_(o, "_output_init", None), [], {}, None)
        for e in ("PermissionError", "OSError", "RuntimeError"):
            outcome("opening the netCDF file", e, go, "raise", hk(e), "output/output_cubesphere_netcdf.py")
    site(R, "OutputCubesphereNetcdf._output_init", nc)


# ------------------------------------------------------------------ every section, by its syntax
COLLECTIVES = {"bcast", "Bcast", "gather", "Gather", "allgather", "Allgather", "scatter", "Scatter", "allreduce", "Allreduce", "reduce", "Reduce", "barrier", "Barrier", "Split",
               "alltoall", "Alltoall", "gather_cube", "distribute_cube", "_gather_field", "_distribute_field", "Create_dist_graph_adjacent", "Ineighbor_alltoall", "neighbor_alltoall"}


def main_script(p):
    path = os.path.join(p.repo, "WxFactory")
    if not os.path.exists(path):
        return None
    try:
        return ast.parse(open(path).read())
    except SyntaxError:
        return None


def is_single(e):
    return isinstance(e, ast.Call) and (e.func.attr if isinstance(e.func, ast.Attribute) else getattr(e.func, "id", "")) in ("SingleProcess", "MultipleProcesses")


def is_cond(e):
    return isinstance(e, ast.Call) and (e.func.attr if isinstance(e.func, ast.Attribute) else getattr(e.func, "id", "")) == "Conditional"


def stores(nodes):
    out = set()
    for b in nodes:
        local = {x for c in ast.walk(b) if isinstance(c, ast.comprehension) for x in ast.walk(c.target)}
        for n in ast.walk(b):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n not in local:
                out.add(n.id)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                out |= {(a.asname or a.name.split(".")[0]) for a in n.names}
            elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                out.add(n.name)
            elif isinstance(n, ast.ExceptHandler) and n.name:
                out.add(n.name)
    return out


def section_syntax(p, R):
    trees = [(m.tree, m.name) for m in p.modules.values()]
    ms = main_script(p)
    if ms is not None:
        trees.append((ms, "WxFactory"))
    for tree, mod in trees:
        if mod == "wx_mpi":
            continue
        par = {}
        for n in ast.walk(tree):
            for c in ast.iter_child_nodes(n):
                par[c] = n
        for w in ast.walk(tree):
            if not isinstance(w, ast.With):
                continue
            items = [i for i in w.items if is_single(i.context_expr)]
            if not items:
                continue
            it = items[0]
            fn = par.get(w)
            while fn is not None and not isinstance(fn, (ast.FunctionDef, ast.Lambda, ast.Module)):
                fn = par.get(fn)
            name = f"{mod}.{getattr(fn, 'name', '<module>')} line section {sum(1 for x in ast.walk(fn) if isinstance(x, ast.With) and x.lineno < w.lineno)}"
            where = f"{mod}:{w.lineno}"
            body = w.body
            conds = [i for i in w.items if is_cond(i.context_expr)]
            if not conds:
                inner = [b for b in body if isinstance(b, ast.With) and any(is_cond(i.context_expr) for i in b.items)]
                rest = [b for b in body if b not in inner and not (isinstance(b, ast.Expr) and isinstance(b.value, ast.Constant))]
                if inner:
                    conds = [i for i in inner[0].items if is_cond(i.context_expr)]
                    body = inner[0].body
                    bad = [b for b in rest if any(isinstance(c, ast.Call) for c in ast.walk(b))]
                    R.check(not bad, "guarded", name, "work outside the condition runs on every process", where)
            var = it.optional_vars.id if isinstance(it.optional_vars, ast.Name) else None
            okc = bool(conds) and (var is None or any(isinstance(a, ast.Name) and a.id == var for a in conds[0].context_expr.args + [k.value for k in conds[0].context_expr.keywords]))
            R.check(okc, "guarded", name, "the section is not restricted to one process (no Conditional on it)", where)
            # communicator
            call = it.context_expr
            arg = call.args[0] if call.args else next((k.value for k in call.keywords if k.arg == "comm"), None)
            txt = ast.unparse(arg) if arg is not None else "MPI.COMM_WORLD"
            if isinstance(arg, ast.Name):  # a local name for a communicator
                for a in ast.walk(fn):
                    if isinstance(a, ast.Assign) and any(isinstance(t, ast.Name) and t.id == arg.id for t in a.targets):
                        txt = ast.unparse(a.value)
            cls = fn
            while cls is not None and not isinstance(cls, ast.ClassDef):
                cls = par.get(cls)
            has_own = cls is not None or (isinstance(fn, ast.FunctionDef) and any(a.arg == "comm" for a in fn.args.args + fn.args.kwonlyargs))
            last = txt.split(".")[-1]
            R.check(not (last == "COMM_WORLD" and has_own) and last not in ("panel_comm", "panel_roots_comm", "sub_comm", "COMM_SELF", "comm_dist_graph"), "communicator", name,
                    f"the section involves {txt}, not the processes that enter it", where)
            # body
            col = [c for b in body for c in ast.walk(b) if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr in COLLECTIVES]
            R.check(not col, "no-collective", name, f"{ast.unparse(col[0])[:60] if col else ''} needs every process but only one gets there", where)
            leave = []

            def look(ns, loop):
                for b in ns:
                    if isinstance(b, ast.Return) or (isinstance(b, (ast.Break, ast.Continue)) and not loop):
                        leave.append(b)
                    elif isinstance(b, (ast.FunctionDef, ast.ClassDef, ast.Lambda)):
                        continue
                    else:
                        for c in ast.iter_child_nodes(b):
                            look([c], loop or isinstance(b, (ast.For, ast.While)))
            look(body, False)
            R.check(not leave, "no-escape", name, "one process leaves the section by another way than the others", where)
            # names made in the section
            made = stores(body)
            before = {n.id for n in ast.walk(fn) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.lineno < w.lineno}
            before |= {a.arg for a in fn.args.posonlyargs + fn.args.args + fn.args.kwonlyargs} if isinstance(fn, ast.FunctionDef) else set()
            inside = {n for b in body for n in ast.walk(b)}
            rebinds = {}
            for n in ast.walk(fn):
                if isinstance(n, ast.Name) and n not in inside and isinstance(n.ctx, ast.Store) and n.lineno > w.lineno:
                    rebinds[n.id] = min(rebinds.get(n.id, 10 ** 9), n.lineno)
            late = [n for n in ast.walk(fn) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n not in inside and n.id in made - before and n.lineno > w.lineno and n.lineno < rebinds.get(n.id, 10 ** 9)]
            R.check(not late, "names", name, f"{late[0].id if late else ''} only exists on the process that ran the section", where)


def run(p, R, tier):
    R.rule("value", "all processes of the communicator leave the section with the active process's return value", 60)
    R.rule("once", "the body runs on the active process only, once", 30)
    R.rule("raise", "if the active process raises, every process of the communicator raises; none waits forever", 60)
    R.rule("original", "the active process raises its own error", 30)
    primitives(p, R)
    R.rule("section-raise", "an error of the active process inside a delegated section of the program ends the section with an error on every process of its communicator, and no other process is waited for", 20)
    R.rule("section-value", "a successful section ends on every process with the active process's result", 5)
    sections(p, R)
    R.rule("guarded", "every delegated section is restricted to its active process by a Conditional on the same context", 8)
    R.rule("communicator", "a delegated section involves the communicator of the surrounding collective code, not the whole world nor a part of it", 8)
    R.rule("no-collective", "no collective operation inside a delegated section", 8)
    R.rule("no-escape", "no return, break or continue out of a delegated section", 8)
    R.rule("names", "values made in a delegated section reach the others only through the section's return value", 8)
    section_syntax(p, R)
    R.explanation = ("wx_mpi's context managers and the program's delegated sections are interpreted on several simulated processes at once (collectives are meeting points), "
                     "on communicators that span all or part of the world, for every active rank and for errors injected at the section's file, database and compiler calls; "
                     "all sections are also checked syntactically")
    R.assumptions += ["an MPI collective returns on all members once all members have called it, with the values MPI prescribes", "errors outside delegated sections are not part of this property"]
