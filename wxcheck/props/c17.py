"""C17: a run restarted from a saved state continues the original run."""
from __future__ import annotations

import itertools

import numpy as np

from .. import layout
from ..interp import ExtRef, Func, Hook, MISSING, Obj, Opaque, RaiseOutcome
from ..layout import LA
from ..project import AnalysisError, loc
from .c03 import Ranks, bad_status, diff

WHERE = "output/output_manager.py"
STATE = "output/state.py"
CONTENT = "[General]\nequations = shallow_water\n\n[Grid]\nnum_elements_horizontal = 12\nlon = 0.1 + 2 *\n   pi\nlist = [1,\n  2, 3]\n"


class Files(dict):
    """files shared by all runs: a list of arrays and byte strings each"""


class Handle:
    def __init__(self, fs, name, mode, node):
        self.fs, self.name, self.mode = fs, name, mode
        if "r" in mode and name not in fs:
            raise RaiseOutcome(ExtRef("FileNotFoundError"), node)
        if "x" in mode and name in fs:
            raise RaiseOutcome(ExtRef("FileExistsError"), node)
        if "w" in mode or "x" in mode or ("a" in mode and name not in fs):
            fs[name] = []
        self.items = list(fs[name])

    def obj(self):
        o = Obj(None, "file", {})
        o.handle = self

        def write(I, a, k, n):
            v = a[0]
            if isinstance(v, str) and "b" not in self.mode:
                v = v.encode()
            if not isinstance(v, bytes):
                raise AnalysisError(f"{v!r} is written to a file at {loc(n)}")
            self.fs[self.name].append(v)

        def lines():
            data = b"".join(x for x in self.items if isinstance(x, bytes))
            if any(not isinstance(x, bytes) for x in self.items):
                raise RaiseOutcome(ExtRef("ValueError"), None)
            return data.splitlines(keepends=True)

        def readline(I, a, k, n):
            ls = lines()
            if not ls:
                return b""
            self.items = ls[1:]
            return ls[0]

        def readlines(I, a, k, n):
            ls = lines()
            self.items = []
            return ls

        def read(I, a, k, n):
            ls = lines()
            self.items = []
            return b"".join(ls)
        for nm, f in (("write", write), ("readline", readline), ("readlines", readlines), ("read", read), ("flush", lambda I, a, k, n: None), ("close", lambda I, a, k, n: None),
                      ("__exit__", lambda I, a, k, n: None)):
            o.attrs[nm] = Hook(nm, f)
        o.attrs["__enter__"] = Hook("__enter__", lambda I, a, k, n: o)
        o.attrs["__iter__"] = Hook("__iter__", readlines)
        return o


def install(I, fs, salt, configs):
    """files, numpy.save/load, hash() as another interpreter process would have them"""
    def open_(I2, a, k, n):
        mode = a[1] if len(a) > 1 else k.get("mode", "r")
        return Handle(fs, str(a[0]), mode, n).obj()
    I.hooks["builtins.open"] = I.hooks["open"] = open_
    for m in p_modules(I):
        I.modvars[(m, "open")] = Hook("open", open_)
        I.modvars[(m, "bytes")] = Hook("bytes", lambda I2, a, k, n: a[0].encode(a[1] if len(a) > 1 else k.get("encoding", "utf-8")) if isinstance(a[0], str) else bytes(a[0]))
        I.modvars[(m, "str")] = Hook("str", lambda I2, a, k, n: a[0].decode(a[1] if len(a) > 1 else "utf-8") if isinstance(a[0], bytes) else str(a[0]))
        I.modvars[(m, "hash")] = Hook("hash", lambda I2, a, k, n: salted(a[0], salt))

    def save(I2, a, k, n):
        f, v = (a[0], a[1]) if len(a) > 1 else (a[0] if a else k["file"], k.get("arr"))
        if not isinstance(f, Obj) or not hasattr(f, "handle"):
            raise AnalysisError(f"array saved to {f!r} at {loc(n)}")
        if not isinstance(v, LA):
            raise AnalysisError(f"{v!r} saved at {loc(n)}")
        fs[f.handle.name].append(LA(v.a.copy(), v.dtype))

    def load(I2, a, k, n):
        h = a[0].handle
        if not h.items or not isinstance(h.items[0], LA):
            raise RaiseOutcome(ExtRef("ValueError"), n)
        x = h.items.pop(0)
        return LA(x.a.copy(), x.dtype)
    for m in ("numpy", "cupy"):
        I.hooks[f"{m}.save"], I.hooks[f"{m}.load"] = save, load
    if isinstance(I.xp.fns, dict):
        I.xp.fns = dict(I.xp.fns, save=save, load=load)

    def conf(I2, a, k, n):
        text = a[0] if a else k.get("cfg_file")
        configs.append(text)
        return Obj(None, "loaded configuration", {"config_content": text})
    I.hooks["Configuration"] = I.hooks["common.configuration.Configuration"] = conf
    I.hooks["os.makedirs"] = lambda I2, a, k, n: None
    I.hooks["os.path.abspath"] = lambda I2, a, k, n: a[0]
    I.hooks["time.time"] = I.hooks["time"] = lambda I2, a, k, n: 1.0
    prev = I.attr_hook

    def attr(I2, v, at):
        if at == "__hash__" and isinstance(v, (tuple, str, int, float)) and not isinstance(v, bool):
            return Hook("__hash__", lambda I3, a, k, n: salted(v, salt))
        return prev(I2, v, at) if prev else MISSING
    I.attr_hook = attr


def p_modules(I):
    return [m.name for m in I.p.modules.values()]


def salted(v, salt):
    """Python's hash(): numbers alike in all processes, strings different in each"""
    if isinstance(v, tuple):
        return hash(tuple(salted(x, salt) for x in v))
    if isinstance(v, (str, bytes)):
        return hash((salt, sum((i + 1) * c for i, c in enumerate(v.encode() if isinstance(v, str) else v))))
    if isinstance(v, (Obj, Opaque)):
        return hash((salt, id(v)))
    return hash(v)


def cfg(p, dt=30.0, ne=6, nv=3, ns=2, start=0, tot=None, **kw):
    d = {"dt": dt, "t_end": 3000.0, "num_elements_horizontal_total": tot or ne, "num_elements_horizontal": ne, "num_elements_vertical": nv, "num_solpts": ns, "output_dir": "outdir",
         "store_solver_stats": 0, "output_freq": 0, "save_state_freq": 5, "stat_freq": 0, "starting_step": start, "state_version": 1, "config_content": CONTENT, "equations": "shallow_water",
         "case_number": 2, "base_output_file": "f", "initial_num_solpts": ns, "time_integrator": "epi2", "tolerance": 1e-7}
    d.update(kw)
    return Obj(None, "config", dict(d, schema=Obj(None, "schema", {})), strict=True)


def field(pt, dim, h, side, version):
    """the state of one tile, labelled by variable and place on the globe"""
    panel, row, col = pt
    nvar, nk, npts = (3, (), 4) if dim == 2 else (5, (2,), 8)
    a = np.empty((nvar,) + nk + (h, h, npts), dtype=object)
    for i in np.ndindex(*a.shape):
        y, x = row * h + i[-3], col * h + i[-2]
        a[i] = layout.Label((version, i[0], panel) + tuple(i[1:-3]) + (y, x, i[-1]))
    return LA(a)


def output(I, p, topo, dev, conf, dim):
    g = Obj(p.find_class("CubedSphere2D" if dim == 2 else "CubedSphere3D"), "geometry", {})
    m, c = p.find_class("OutputCubesphere", "output.output_cubesphere")
    o = Obj((m, c), "output", {})
    init = p.find_method(m, c, "__init__")
    I.call_func(Func(init[0], init[2], cls=(init[0], init[1])), [o, conf, g, Obj(None, "operators", {}), dev, Obj(None, "metric", {}), None, topo], {}, None)
    return o


def save_run(p, R, fs, side, dim, full, steps, salt, tag=None, **kw):
    """states of the given steps saved by 6*side*side processes; returns problems"""
    h = full // side

    def fn(I, topo, dev, r, pt):
        install(I, fs, salt + r, [])
        conf = cfg(p, ne=h, tot=full, **kw)
        o = output(I, p, topo, dev, conf, dim)
        for s in steps:
            q = field(pt, dim, h, side, (s, tag) if tag else s)
            keep = q.a.copy()
            I.call(I.getattr_(o, "step", None), [q, s], {}, None)
            if not (q.a == keep).all():
                return "the state is changed by saving it"
        return None
    out = Ranks(p, R, side).run(fn)
    return bad_status(out) or next((v for _, v in out if v), None)


def load_run(p, R, fs, side, dim, full, step, salt, texts=None, whole=False, tag=None, **kw):
    """what each process gets from the state file: (kind, value) per process"""
    h = full // side

    def fn(I, topo, dev, r, pt):
        install(I, fs, salt + r, texts if texts is not None else [])
        conf = cfg(p, ne=h, tot=full, start=step, **kw)
        o = output(I, p, topo, dev, conf, dim)
        want = field(pt, dim, h, side, (step, tag) if tag else step)
        init = field(pt, dim, h, side, "initial")
        if whole:
            sm, sc = p.find_class("Simulation")
            sim = Obj((sm, sc), "simulation", {"config": conf, "output": o, "rank": r, "comm": topo.attrs["comm"], "initial_Q": init, "device": dev})
            q, s = I.call(I.getattr_(sim, "_determine_starting_state", None), [], {}, None)
            if q is init:
                return ("from the beginning", s)
        else:
            q, s = I.call(I.getattr_(o, "load_state_from_file", None), [step, want.a.shape], {}, None)
        if diff(q, init) is None:
            return ("from the beginning", s)
        d = diff(q, want)
        return ("loaded", s) if d is None else ("wrong state", d)
    return Ranks(p, R, side).run(fn)


def run(p, R, tier):
    R.explanation = ("Saving (output manager's step, state files) and restarting (load_state_from_file, Simulation._determine_starting_state) are interpreted on simulated processes over a shared set of "
                     "files, with arrays whose elements carry their place on the globe; every process must get back exactly its own part, for every pair of process counts.")
    R.assumptions += ["numpy.save and numpy.load are inverses", "Python hashes numbers alike in every process and strings differently", "the state asked for was saved at a multiple of the configured step"]
    R.rule("restored", "every process gets exactly the saved state of its part of the globe and the step number asked for", 10)
    R.rule("named", "the file of a saved state depends on the step, the time step and the resolution, and on nothing else", 10)
    R.rule("refused", "without a fitting saved state every process starts from the beginning", 6)
    R.rule("config", "the configuration saved with the state is the one that comes back", 2)
    sides = (1, 2, 3) if tier != "thorough" else (1, 2, 3, 6)
    full = 6
    for dim in (2, 3):
        for a in sides:
            fs = Files()
            b = save_run(p, R, fs, a, dim, full, [0, 5, 10, 12, 15], salt=100)
            label = f"{dim}-D, saved by {6 * a * a} processes"
            R.check(b is None, "restored", label, str(b), WHERE)
            if b is not None:
                continue
            R.check(len(fs) == 4, "named", f"{label}: one file for each saved step", f"files {sorted(fs)}", WHERE)
            for c in sides:
                for step in (5, 10) if c != a else (0, 5, 10, 15):
                    out = load_run(p, R, fs, c, dim, full, step, salt=7000 * c)
                    b = bad_status(out) or next((f"process {i}: {v}" for i, (_, v) in enumerate(out) if v != ("loaded", step)), None)
                    R.check(b is None, "restored", f"{label}, step {step} loaded by {6 * c * c}", str(b), WHERE)
                out = load_run(p, R, fs, c, dim, full, 10, salt=7000 * c, whole=True)
                b = bad_status(out) or next((f"process {i}: {v}" for i, (_, v) in enumerate(out) if v != ("loaded", 10)), None)
                R.check(b is None, "restored", f"{label}, simulation of {6 * c * c} processes started from step 10", str(b), "simulation/simulation.py")
    # a state saved again replaces the one saved before
    fs = Files()
    for k in ("first", "second"):
        save_run(p, R, fs, 1, 2, full, [5, 10], salt=5, tag=k)
    out = load_run(p, R, fs, 1, 2, full, 10, salt=6, tag="second")
    b = bad_status(out) or next((f"process {i}: {v}" for i, (_, v) in enumerate(out) if v != ("loaded", 10)), None)
    R.check(b is None, "restored", "state saved again in the same file", str(b), STATE)
    refused(p, R)
    names(p, R)
    content(p, R)


def refused(p, R):
    fs = Files()
    dim, full = 2, 6
    save_run(p, R, fs, 1, dim, full, [5, 10], salt=1)
    for what, kw in (("a step that was not saved", dict(step=15)), ("another time step", dict(step=10, dt=31.0)), ("another vertical resolution", dict(step=10, nv=4)), ("another number of points", dict(step=10, ns=3)),
                     ("another horizontal resolution", dict(step=10, full=12))):
        for side in (1, 2):
            k = dict(kw)
            f = k.pop("full", full)
            step = k.pop("step")
            out = load_run(p, R, fs, side, dim, f, step, salt=50 * side, whole=True, **k)
            b = bad_status(out) or next((f"process {i}: {v}" for i, (_, v) in enumerate(out) if v != ("from the beginning", 0)), None)
            R.check(b is None, "refused", f"{what}, {6 * side * side} processes", str(b), "simulation/simulation.py")
    # a file of the right name whose state has another shape, or which is damaged
    for what, items in (("a state of another shape", [LA(np.full((6, 3, 2, 2, 4), layout.Label(("x",)), dtype=object))]), ("a damaged file", [b"\x93NUM"]), ("an empty file", [])):
        broken = Files({k: list(items) + [b"1\n", CONTENT.encode()] if items and isinstance(items[0], LA) else list(items) for k in fs})
        for side in (1, 2):
            out = load_run(p, R, broken, side, dim, full, 10, salt=50 * side, whole=True)
            b = bad_status(out) or next((f"process {i}: {v}" for i, (_, v) in enumerate(out) if v != ("from the beginning", 0)), None)
            R.check(b is None, "refused", f"{what}, {6 * side * side} processes", str(b), "simulation/simulation.py")


def names(p, R):
    """names of state files over configurations"""
    def name(step, salt, side=1, **kw):
        def fn(I, topo, dev, r, pt):
            install(I, Files(), salt + r, [])
            return I.call(I.getattr_(output(I, p, topo, dev, cfg(p, **kw), 2), "state_file_name", None), [step], {}, None)
        out = Ranks(p, R, side).run(fn)
        b = bad_status(out)
        if b:
            raise AnalysisError(b)
        return {v for _, v in out}
    base = name(10, 1)
    R.check(len(base) == 1 and all(isinstance(x, str) and "\u27e6" not in x for x in base), "named", "one name on all processes", str(base)[:160], WHERE)
    R.check(name(10, 99, 2, ne=3, tot=6) == base, "named", "same name for another number of processes, in another session", f"{name(10, 99, 2, ne=3, tot=6)} / {base}", WHERE)
    for what, kw in (("time step", dict(dt=29.5)), ("horizontal resolution", dict(tot=12)), ("vertical resolution", dict(nv=9)), ("number of points", dict(ns=5)), ("swapped resolutions", dict(ne=3, tot=3, nv=6))):
        R.check(not (name(10, 1, **kw) & base), "named", f"other name for another {what}", "the same file name", WHERE)
    for what, kw in (("starting step", dict(start=10)), ("end time", dict(t_end=9000.0)), ("output interval", dict(output_freq=3, save_state_freq=10)), ("tolerance", dict(tolerance=1e-3)), ("case", dict(time_integrator="ros2"))):
        R.check(name(10, 1, **kw) == base, "named", f"same name whatever the {what}", f"{name(10, 1, **kw)} / {base}", WHERE)
    seen = {}
    for s in (0, 1, 9, 10, 99, 100, 12345, 99999999, 10 ** 8):
        n = name(s, 1)
        R.check(not (n & set(seen)), "named", f"step {s}: own name", f"the name of step {[seen[x] for x in n & set(seen)]}", WHERE)
        for x in n:
            seen[x] = s


def content(p, R):
    for text in (CONTENT, "[A]\nx = 1", "[A]\nx = 1\n\n\n[B]\ny = caf\u00e9\n"):
        fs, texts = Files(), []
        b = save_run(p, R, fs, 1, 2, 6, [5], salt=3, config_content=text)
        out = load_run(p, R, fs, 1, 2, 6, 5, salt=4, texts=texts, config_content=text)
        b = b or bad_status(out)
        R.check(b is None and len(texts) >= 1 and all(isinstance(t, str) and meaning(t) == meaning(text) for t in texts), "config", f"{len(text.splitlines())} lines", b or f"{texts[:1]!r} came back for {text!r}"[:300], STATE)


def meaning(text):
    import configparser
    c = configparser.ConfigParser()
    try:
        c.read_string(text)
    except configparser.Error as e:
        return f"{type(e).__name__}"
    return {s: {k: " ".join(v.split()) for k, v in c[s].items()} for s in c.sections()}
