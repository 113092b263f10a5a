"""C07: output, statistics and diagnostics only read."""
from __future__ import annotations

from fractions import Fraction

import mpmath as mp
import numpy as np

from .. import hp, layout
from .. import rhsdom as R
from ..interp import AbsVal, ExtRef, Hook, MISSING, Obj, Opaque, RaiseOutcome
from ..layout import ArrayError, LA
from ..par import pmap
from ..project import AnalysisError, loc
from ..rhsdom import rand
from ..simmpi import Stuck, World
from . import c18
from .c03 import NcFile, bad_status
from .c06 import equal


class Fields(AbsVal):
    """an object of read-only fields, made up on first use"""
    mutable = True

    def __init__(self, name, make, fixed=None):
        self.fname, self.make, self.have, self.written = name, make, dict(fixed or {}), []

    def __repr__(self):
        return f"<{self.fname}>"

    def a_attr(self, I, attr, node):
        if attr not in self.have:
            self.have[attr] = self.make(attr)
        return self.have[attr]

    def a_setattr(self, I, name, val):
        self.written.append(f"{self.fname}.{name}")
        self.have[name] = val

    def a_truth(self, I):
        return True

    def a_compare(self, I, op, other, swapped, node):
        if op in ("Is", "IsNot", "Eq", "NotEq"):
            return (self is other) == (op in ("Is", "Eq"))
        return MISSING


def numeric(v, key):
    """the same value over numbers"""
    if isinstance(v, LA):
        if any(R.num(x) is None for x in v.a.flat):
            return hp.wrap(rand(v.a.shape, key, lo=mp.mpf("0.1"), hi=1))
        return LA(v.a.copy(), v.dtype)
    if type(v).__name__ == "Expr":
        return hp.C(rand((1,), key, lo=1, hi=2)[0])
    return v


class Watch:
    """everything output must leave alone"""

    def __init__(self):
        self.arrays, self.objs, self.fields = {}, {}, {}

    def array(self, name, v):
        self.arrays[name] = (v, v.a.copy())

    def obj(self, name, o):
        self.objs[name] = (o, dict(o.attrs))
        for k, v in o.attrs.items():
            if isinstance(v, LA):
                self.array(f"{name}.{k}", v)

    def add_fields(self, f):
        orig = f.make

        def make(attr):
            v = orig(attr)
            if isinstance(v, LA):
                self.array(f"{f.fname}.{attr}", v)
            return v
        f.make = make
        self.fields[f.fname] = f

    def changed(self):
        for n, (v, s) in self.arrays.items():
            if not equal(v.a, s):
                return f"{n} is changed"
        for n, (o, s) in self.objs.items():
            for k, b in s.items():
                a = o.attrs.get(k, MISSING)
                if a is not b and not (isinstance(a, (int, float, str, tuple)) and type(a) is type(b) and a == b):
                    return f"{n}.{k} is replaced"
        for f in self.fields.values():
            if f.written:
                return f"{f.written[0]} is replaced"
        return None


class Sink(AbsVal):
    """a library that takes what it is given and only reads it"""
    mutable = True

    def __init__(self, name):
        self.sname = name

    def __repr__(self):
        return f"<{self.sname}>"

    def a_attr(self, I, attr, node):
        return Sink(f"{self.sname}.{attr}")

    def a_setattr(self, I, name, val):
        pass

    def a_call(self, I, a, k, node):
        return Sink(f"{self.sname}()")

    def a_getitem(self, I, idx, node):
        return Sink(f"{self.sname}[]")

    def a_setitem(self, I, idx, v, node):
        pass

    def a_iter(self, I, node):
        return []

    def a_truth(self, I):
        return True

    def a_len(self):
        return 0

    def a_binop(self, I, op, other, swapped, node):
        return Sink(self.sname)

    def a_compare(self, I, op, other, swapped, node):
        return {"Is": self is other, "IsNot": self is not other, "Eq": False, "NotEq": True}.get(op, True)


CONFIG = {"output_freq": 1, "save_state_freq": 1, "stat_freq": 1, "store_solver_stats": 0, "store_total_time": True, "output_dir": "results", "base_output_file": "out", "num_solpts": 2, "num_elements_horizontal": 1,
          "num_elements_horizontal_total": 1, "num_elements_vertical": 2, "state_version": "1", "config_content": "", "depth_approx": "deep", "time_integrator": "epi2", "exponential_solver": "kiops", "x0": 0, "x1": 1000, "z0": 0, "z1": 1000}


def shape_of(name, ne, nev, n, dim):
    N = n ** dim
    if name.startswith("derivative"):
        return (N, N)
    if name.startswith("quad_weights"):
        return (n,) * (2 if dim == 2 else 3)
    if name.startswith("extrap"):
        return (N, 2 * n ** (dim - 1))
    if name.startswith("correction"):
        return (2 * n ** (dim - 1), N)
    return None


def scene(p, I, world, rank, kind, case, topo, n=2, output=True):
    W = Watch()
    ne, nev = 1, 2
    dim = {"netcdf2": 2, "netcdf3": 3, "fst2": 2, "cartesian": 2}[kind]
    key = ("c07", kind, rank)
    to_host = Hook("to_host", lambda I2, a, k, nd: a[0])
    comm = world.obj(rank)
    dev = Obj(None, "device", {"xp": I.xp, "comm": comm, "to_host": to_host, "synchronize": Hook("synchronize", lambda *a: None)})
    cf = dict(CONFIG, case_number=case, equations="shallow_water" if dim == 2 and kind != "cartesian" else "euler", dt=hp.C(mp.mpf(30)), t_end=hp.C(mp.mpf(100)), grid_type="cartesian2d" if kind == "cartesian" else "cubed_sphere")
    config = Obj(None, "Configuration", cf)
    if kind == "cartesian":
        g = I.instantiate("geometry.cartesian_2d_mesh", "Cartesian2D", [(0, 1000), (0, 1000), 2, nev, n, dev])
        fshape = (nev, 2, n * n)
    else:
        g0 = GEO[dim]
        g = Obj(g0.cls, g0.name, {k: numeric(v, key + (k,)) for k, v in g0.attrs.items()})
        fshape = (ne, ne, n * n) if dim == 2 else (nev, ne, ne, n ** 3)
    g.attrs["device"] = dev
    if "lat" in g.attrs and isinstance(g.attrs["lat"], LA):
        sh = g.attrs["lat"].a.shape
        lon, lat = rand(sh, key, "lon", lo=mp.mpf("4.6"), hi=mp.mpf("4.8")), rand(sh, key, "lat", lo=mp.mpf("-0.1"), hi=mp.mpf("0.1"))
        for nm, v in (("lon", lon), ("lat", lat), ("coslat", np.frompyfunc(mp.cos, 1, 1)(lat)), ("sinlat", np.frompyfunc(mp.sin, 1, 1)(lat)), ("coslon", np.frompyfunc(mp.cos, 1, 1)(lon)), ("sinlon", np.frompyfunc(mp.sin, 1, 1)(lon))):
            if nm in g.attrs:
                g.attrs[nm] = hp.wrap(v)
    nq = 3 if kind in ("netcdf2", "fst2") else 4 if kind == "cartesian" else {11: 9, 12: 6}.get(case, 5)
    Q = hp.wrap(rand((nq,) + fshape, key, "Q", lo=1, hi=2))

    def field(what):
        def make(nm):
            sh = shape_of(nm, ne, nev, n, dim) or fshape
            base = nm.lower().removesuffix("_new")
            if base in ("h_cov", "h_contra"):
                sh = (dim, dim) + sh
            elif base == "christoffel":
                sh = (3, dim + 1, dim + 1) + sh
            return hp.wrap(rand(sh, key, what, nm, lo=mp.mpf("0.5"), hi=1))
        return make
    metric, ops, tp = Fields("metric", field("metric")), Fields("operators", field("operators")), Fields("topography", field("topo")) if topo else None
    W.array("state", Q)
    W.obj("geometry", g)
    W.obj("configuration", config)
    for f in (metric, ops, tp):
        if f is not None:
            W.add_fields(f)
    I.attr_hook = lambda I2, v, attr: world.obj(rank) if attr == "COMM_WORLD" and isinstance(v, ExtRef) else MISSING
    nc = NcFile()
    I.hooks["netCDF4.Dataset"] = lambda I2, a, k, nd: nc
    for m in ("subplots", "contourf", "savefig", "close", "figure", "title", "clf"):
        I.hooks["matplotlib.pyplot." + m] = lambda I2, a, k, nd: Sink("plot")
    I.hooks["matplotlib.pyplot.subplots"] = lambda I2, a, k, nd: (Sink("figure"), Sink("axes"))
    I.hooks["time.time"] = lambda I2, a, k, nd: hp.C(mp.mpf(1))
    I.hooks["os.makedirs"] = lambda I2, a, k, nd: None
    I.hooks["open"] = I.hooks["builtins.open"] = lambda I2, a, k, nd: Sink("file")
    if not output:
        out = Obj(None, "parts", {"geometry": g, "config": config, "metric": metric, "operators": ops, "topography": tp, "device": dev})
    elif kind == "cartesian":
        out = I.instantiate("output.output_cartesian", "OutputCartesian", [config, g, ops, dev])
    else:
        pt = I.instantiate("process_topology", "ProcessTopology", [dev], {"comm": comm})
        cls = ("output.output_cubesphere_fst", "OutputCubesphereFst") if kind == "fst2" else ("output.output_cubesphere_netcdf", "OutputCubesphereNetcdf")
        out = I.instantiate(*cls, [config, g, ops, dev, metric, tp, pt])
    return W, Q, out


GEO = {}


def one(p, R_, kind, case, topo, nproc):
    where = {"netcdf2": "output/output_cubesphere_netcdf.py", "netcdf3": "output/output_cubesphere_netcdf.py", "fst2": "output/output_cubesphere_fst.py", "cartesian": "output/output_cartesian.py"}[kind]
    label = f"{kind}, case {case}, {'with' if topo else 'no'} topography"
    its = []

    def body(r, world):
        I = R.interp(p)
        I.exact = True
        its.append(I)
        ev = []
        for m in ("rmn.fst24_file", "rmn.fst_record", "georef.TGeoRef"):
            I.hooks[m] = (lambda m: lambda I2, a, k, nd: Sink(m))(m)
        W, Q, out = scene(p, I, world, r, kind, case, topo)
        ev.append(("the constructor", W.changed()))
        bad = False
        parts = {"results": "output_freq", "state": "save_state_freq", "statistics": "stat_freq"}
        for step in (0, 1):
            for nm in parts:
                cfg = out.attrs["config"]
                for k, f in parts.items():
                    cfg.attrs[f] = 1 if k == nm else 0
                for o, s in [W.objs["configuration"]]:
                    s.update({f: cfg.attrs[f] for f in parts.values()})
                try:
                    I.call(I.getattr_(out, "step", None), [Q, step], {}, None)
                    end = ""
                except RaiseOutcome as e:
                    end = f" (ending with {e.val!r})"
                except Stuck:
                    raise
                except Exception:
                    if W.changed() is None:
                        raise
                    end = ""
                ev.append((f"step {step}, {nm}", W.changed(), end))
                if W.changed() is not None:
                    bad = True
                if bad and kind == "cartesian":
                    return ev
        try:
            I.call(I.getattr_(out, "finalize", None), [hp.C(mp.mpf(1))], {}, None)
        except RaiseOutcome:
            pass
        ev.append(("finalize", W.changed()))
        return ev
    out = World(nproc).run(body)
    for i, (k, v) in enumerate(out):
        if k == "stuck" or k == "error":
            raise AnalysisError(f"{label}: process {i}: {v}")
        if k == "raise":
            R_.bad("unchanged", f"{label}: process {i}", f"ends with {v}", where)
            continue
        for e in v:
            R_.check(e[1] is None, "unchanged", f"{label}: process {i}: {e[0]}", str(e[1]), where)
            if len(e) > 2 and e[2]:
                R_.notes = getattr(R_, "notes", [])
                R_.notes.append(f"{label}: {e[0]}{e[2]}")
    for I in its:
        R_.analysed |= I.analysed


def same_steps(p, R_, dt, t_end, start):
    """what the integrator is asked to do does not depend on what is written"""
    base = None
    for out, save, stat, total in [(0, 0, 0, False), (1, 0, 0, False), (0, 1, 0, False), (0, 0, 1, False), (2, 3, 1, True), (1, 1, 1, True), (7, 2, 5, False)]:
        cfg = c18.config(dt, t_end, start, out, save, stat)
        cfg["store_total_time"] = total
        cfg["save_state_freq"] = save
        res, tr, I = c18.drive(p, cfg, ["run"], start)
        R_.analysed |= I.analysed
        if res[0] not in ("ok", "raise"):
            raise AnalysisError(f"simulation: {res}")
        got = (res[0], [(repr(q), d, t) for q, d, t in tr.steps], len(tr.filters), res[1][1:] if res[0] == "ok" else None)
        label = f"dt={dt}, t_end={t_end}, from step {start}: output every {out}, states every {save}, statistics every {stat}"
        if base is None:
            base = got
        else:
            R_.check(got == base, "same-steps", label, f"steps {got[1][:4]} instead of {base[1][:4]}" if got[1] != base[1] else f"{got[2:]} instead of {base[2:]}", "simulation/simulation.py")


def run(p, R_, tier):
    R_.explanation = ("The output managers (netCDF, fst, Cartesian plots) are interpreted on simulated processes from their construction through several steps to their end, for every test case they treat differently; after each call every array and attribute of the state, geometry, "
                      "metric, topography, operators and configuration is compared with what it was. The time loop is interpreted with different output frequencies and must ask the integrator for the same steps.")
    R_.assumptions += ["the netCDF, rmn, georef and plotting libraries only read what they are given"]
    R_.rule("same-steps", "the steps the integrator is asked for do not depend on the output settings", 12)
    for dt, te, st in [(2, 20, 0), (Fraction(3), Fraction(10), 0), (2, 20, 4)]:
        same_steps(p, R_, dt, te, st)
    R_.rule("unchanged", "state, geometry, metric, topography, operators and configuration are the same after every call of the output manager", 50)
    for dim in (2, 3):
        GEO[dim] = layout.geometry_obj(p, dim, 1, 2, 2, 0)[1]
    tasks = [("netcdf2", c, t, 6) for c in (0, 1, 2, 5, 6, 8, 10) for t in (False, True)] + [("fst2", c, t, 6) for c in (2, 5) for t in (False, True)]
    tasks += [("netcdf3", c, False, 6) for c in (11, 12, 20, 21, 31, 77)] + [("cartesian", c, False, 1) for c in (0, 1, 2, 3, 4)]
    pmap(lambda t: one(p, R_, *t), tasks, R_)
