"""C03: gathering and distributing fields over the process grid."""
from __future__ import annotations

import os

import numpy as np

from .. import layout
from ..interp import AbsVal, ExtRef, Func, Hook, Interp, MISSING, Obj, Opaque, RaiseOutcome
from ..layout import LA
from ..project import AnalysisError, loc
from ..simmpi import Comm, Stuck, World

TRAILS = {2: [(), (3,), (2, 2)], 3: [(), (3,)], 4: [(), (3,)]}


def code(panel, lead, row, col, trail):
    return (panel,) + tuple(lead) + (row, col) + tuple(trail)


class Lab(tuple):
    """a point's identity"""


def tile_field(pt, num_dim, h, lead, trail, tag=None):
    panel, r0, c0 = pt
    a = np.empty(tuple(lead) + (h, h) + tuple(trail), dtype=object)
    for i in np.ndindex(*a.shape):
        l, (y, x), t = i[:len(lead)], i[len(lead):len(lead) + 2], i[len(lead) + 2:]
        a[i] = layout.Label(code(panel, l, r0 * h + y, c0 * h + x, t))
    return LA(a)


def cube_field(num_dim, side, h, lead, trail):
    a = np.empty((6,) + tuple(lead) + (side * h, side * h) + tuple(trail), dtype=object)
    for i in np.ndindex(*a.shape):
        a[i] = layout.Label(i)
    return LA(a)


def diff(got, want):
    if not isinstance(got, LA):
        return f"{got!r} instead of an array"
    return layout.same_layout(got.a, want.a)


class Ranks:
    """the same code on all processes of a topology with side x side tiles per panel"""

    def __init__(self, p, R, side, part=False):
        self.p, self.R, self.side = p, R, side
        self.n = 6 * side * side
        self.extra = 1 if part else 0

    def run(self, fn):
        w = World(self.n + self.extra)
        self.its = []
        subs = {}
        members = tuple(range(self.extra, self.n + self.extra))

        def body(r, world):
            if r not in members:
                return None
            if not self.extra:
                c = world.obj(r)
            else:
                if "c" not in subs:
                    subs["c"] = Comm(w, members, "part of the world")
                c = subs["c"].obj(r)
            I = layout.make_interp(self.p)
            I.exact = True
            wc = world.obj(r)
            I.attr_hook = lambda I2, v, attr: wc if attr == "COMM_WORLD" and isinstance(v, ExtRef) else MISSING
            self.its.append(I)
            dev = Obj(None, "device", {"xp": I.xp, "comm": c, "to_host": Hook("to_host", lambda I2, a, k, n: a[0])})
            o = I.instantiate("process_topology", "ProcessTopology", [dev], {"comm": c})
            pt = tuple(int(o.attrs[k]) for k in ("my_panel", "my_row", "my_col"))
            return fn(I, o, dev, members.index(r), pt)
        out = w.run(body)
        for I in self.its:
            self.R.analysed |= I.analysed
        return [out[m] for m in members]


def positions(p, R, tier):
    """all tiles have their own place"""
    for side in (1, 2, 3):
        rk = Ranks(p, R, side)
        out = rk.run(lambda I, o, d, r, pt: pt)
        pts = [v for k, v in out if k == "ok"]
        R.check(len(pts) == rk.n and len(set(pts)) == rk.n and all(0 <= a < 6 and 0 <= b < side and 0 <= c < side for a, b, c in pts), "tiles", f"{rk.n} processes", f"{out[:3]}", "process_topology.py")


def bad_status(out):
    for i, (k, v) in enumerate(out):
        if k != "ok":
            return f"process {i}: {k} {str(v)[:160]}"
    return None


def gather_distribute(p, R, tier):
    where = "process_topology.py"
    for side in (1, 2, 3) if tier != "thorough" else (1, 2, 3, 4):
        for num_dim in (2, 3, 4):
            for trail in TRAILS[num_dim]:
                for h in (1, 2) if side < 3 else (2,):
                    lead = (2, 3)[:num_dim - 2]
                    want = cube_field(num_dim, side, h, lead, trail)
                    label = f"{num_dim}-D field, tiles of {h}x{h} points with {trail or 'scalar'} values, {6 * side * side} processes"

                    def g(I, o, d, r, pt):
                        f = tile_field(pt, num_dim, h, lead, trail)
                        keep = f.a.copy()
                        got = I.call(I.getattr_(o, "gather_cube", None), [f, num_dim], {}, None)
                        return got, (f.a == keep).all()
                    out = run_(p, R, side, g)
                    b = bad_status(out)
                    if b is None:
                        b = diff(out[0][1][0], want) or ("other processes get data too" if any(v[0] is not None for _, v in out[1:]) else None) or (None if all(v[1] for _, v in out) else "the tile data is changed")
                    R.check(b is None, "gather", label, str(b), where)

                    def s(I, o, d, r, pt):
                        got = I.call(I.getattr_(o, "distribute_cube", None), [cube_field(num_dim, side, h, lead, trail) if r == 0 else None, num_dim], {}, None)
                        return diff(got, tile_field(pt, num_dim, h, lead, trail))
                    out = run_(p, R, side, s)
                    b = bad_status(out) or next((f"process {i}: {v}" for i, (_, v) in enumerate(out) if v), None)
                    R.check(b is None, "distribute", label, str(b), where)

                    def gs(I, o, d, r, pt):
                        f = tile_field(pt, num_dim, h, lead, trail)
                        got = I.call(I.getattr_(o, "gather_cube", None), [f, num_dim], {}, None)
                        back = I.call(I.getattr_(o, "distribute_cube", None), [got, num_dim], {}, None)
                        return diff(back, f)
                    if side > 1 or h > 1:
                        out = run_(p, R, side, gs, part=True)
                        b = bad_status(out) or next((f"process {i}: {v}" for i, (_, v) in enumerate(out) if v), None)
                        R.check(b is None, "round-trip", label + " of a larger world", str(b), where)


def run_(p, R, side, fn, part=False):
    return Ranks(p, R, side, part).run(fn)


def refused(p, R, tier):
    """fields that do not fit are refused by everyone"""
    where = "process_topology.py"
    cases = [("five panels", 2, (5, 4, 4)), ("panels that are not square", 2, (6, 4, 6)), ("too few dimensions", 3, (6, 4, 4)), ("a side the tiles do not divide", 2, (6, 5, 5)), ("a side the tiles do not divide", 3, (6, 2, 3, 3))]
    for side in (1, 2):
        for what, nd, sh in cases:
            if side == 1 and "divide" in what:
                continue

            def s(I, o, d, r, pt):
                return I.call(I.getattr_(o, "distribute_cube", None), [LA(np.empty(sh, dtype=object)) if r == 0 else None, nd], {}, None)
            out = run_(p, R, side, s, part=True)
            R.check(all(k == "raise" for k, _ in out), "refused", f"{what} {sh}, num_dim {nd}, {6 * side * side} processes", "; ".join(f"{i}: {k} {str(v)[:60]}" for i, (k, v) in enumerate(out))[:200], where)


# ---------------------------------------------------------------- what the output does with it
class NcVar(AbsVal):
    mutable = True

    def __init__(self, name, dims):
        self.vname, self.dims, self.rec, self.meta = name, dims, [], {}

    def a_attr(self, I, attr, node):
        if attr in self.meta:
            return self.meta[attr]
        if attr == "dimensions":
            return self.dims
        if attr == "shape":
            return (0,)
        return Hook(attr, lambda I, a, k, n: None)

    def a_setattr(self, I, name, val):
        self.meta[name] = val

    def a_setitem(self, I, idx, v, node):
        self.rec.append((idx, v))

    def a_len(self):
        return 1 + max([i for i, _ in self.rec if isinstance(i, int)], default=-1)


class NcFile(AbsVal):
    mutable = True

    def __init__(self):
        self.vars, self.sizes, self.meta = {}, {}, {}

    def a_attr(self, I, attr, node):
        def cv(I, a, k, n):
            nm = a[0] if a else k.get("varname")
            self.vars[nm] = NcVar(nm, a[2] if len(a) > 2 else k.get("dimensions"))
            return self.vars[nm]

        def cd(I, a, k, n):
            self.sizes[a[0] if a else k.get("dimname")] = a[1] if len(a) > 1 else k.get("size")
        if attr == "createVariable":
            return Hook(attr, cv)
        if attr == "createDimension":
            return Hook(attr, cd)
        if attr == "variables":
            return self.vars
        return Hook(attr, lambda I, a, k, n: None)

    def a_setattr(self, I, name, val):
        self.meta[name] = val

    def a_getitem(self, I, idx, node):
        return self.vars[idx]

    def a_truth(self, I):
        return True

    def a_compare(self, I, op, other, swapped, node):
        return {"Is": False, "IsNot": True, "Eq": False, "NotEq": True}.get(op)


def netcdf(p, R, tier, geometry_module, cls, dim, side, clock=None):
    """the whole of the netCDF initialisation and one write, on all processes"""
    where = "output/output_cubesphere_netcdf.py"
    ne, ns, nev = 1, 2, 2
    h = ne * ns
    nk = nev * ns
    full = side * h

    def setup(I, o, d, r, pt):
        panel, row, col = pt
        gm, gc = p.find_class(cls, geometry_module)

        def arr(shape, f):
            a = np.empty(shape, dtype=object)
            for i in np.ndindex(*shape):
                a[i] = f(i)
            return LA(a)

        def point2(name):
            return arr((h, h), lambda i: layout.Label((name, panel, row * h + i[0], col * h + i[1])))

        def point3(name):
            return arr((nk, h, h), lambda i: layout.Label((name, panel, i[0], row * h + i[1], col * h + i[2])))
        g = Obj((gm, gc), cls)
        I.exact = True
        g.attrs.update(device=d, num_solpts=ns, num_elements_x1=ne, num_elements_x2=ne, num_elements_x3=nev, ni=h, nj=h, nk=nk,
                       num_elem_horizontal=ne, nb_elements_horizontal=ne,
                       block_lon=NoScale(point2("lon")), block_lat=NoScale(point2("lat")),
                       x1=arr((h,), lambda i: layout.Label(("x1", col * h + i[0]))), x2=arr((h,), lambda i: layout.Label(("x2", row * h + i[0]))))
        if dim == 2:
            g.attrs.update(block_shape=(h, h), grid_shape_2d=(h, h), grid_shape=(ne, ne, ns * ns))
        else:
            g.attrs.update(block_shape=(nk, h, h), grid_shape_2d=(h, h), grid_shape_3d=(nk, h, h), grid_shape_3d_new=(nev, ne, ne, ns ** 3), grid_shape=(nev, ne, ne, ns ** 3),
                           x3=arr((nk, h, h), lambda i: layout.Label(("x3", i[0]))), zbot=point2("topo"))
            cv = np.empty((3, nk, h, h), dtype=object)
            for k in range(3):
                cv[k] = point3(("lon3", "lat3", "elev")[k]).a
            g.attrs["coordVec_latlon"] = LA(cv)
        return g

    def state(pt, var):
        """one field in the element layout"""
        panel, row, col = pt
        if dim == 2:
            a = np.empty((ne, ne, ns * ns), dtype=object)
            for (ej, ei, q) in np.ndindex(*a.shape):
                a[ej, ei, q] = layout.Label((var, panel, row * h + ej * ns + q // ns, col * h + ei * ns + q % ns))
        else:
            a = np.empty((nev, ne, ne, ns ** 3), dtype=object)
            for (ek, ej, ei, q) in np.ndindex(*a.shape):
                a[ek, ej, ei, q] = layout.Label((var, panel, ek * ns + q // (ns * ns), row * h + ej * ns + (q // ns) % ns, col * h + ei * ns + q % ns))
        return LA(a)

    def go(I, o, d, r, pt):
        g = setup(I, o, d, r, pt)
        f = NcFile()
        I.hooks["netCDF4.Dataset"] = lambda I2, a, k, n: f
        I.hooks["relative_vorticity"] = I.hooks["output.diagnostic.relative_vorticity"] = lambda I2, a, k, n: state(pt, "RV")
        I.hooks["potential_vorticity"] = I.hooks["output.diagnostic.potential_vorticity"] = lambda I2, a, k, n: state(pt, "PV")
        for m in ("contra2wind", "contra2wind_2d"):
            g.attrs[m] = Hook(m, lambda I2, a, k, n: (state(pt, "U"), state(pt, "V")))
        g.attrs["contra2wind_3d"] = Hook("c2w3", lambda I2, a, k, n: (state(pt, "U"), state(pt, "V"), state(pt, "W")))
        cf = Obj(None, "Configuration", {"equations": "shallow_water" if dim == 2 else "euler", "case_number": 2 if dim == 2 else 31, "dt": clock[0] if clock else 2, "t_end": clock[1] if clock else 100, "output_freq": 1,
                                         "depth_approx": "deep"})
        nm, ncls = p.find_class("OutputCubesphereNetcdf", "output.output_cubesphere_netcdf")
        out = Obj((nm, ncls), "OutputCubesphereNetcdf")
        out.attrs.update(config=cf, geometry=g, operators=Obj(None, "ops", {}), device=d, comm=o.attrs["comm"], rank=r, process_topology=o, metric=Obj(None, "metric", {}), topo=None,
                         filename="f.nc", ncfile=None, num_dim=dim, output_dir="out")
        I.call(I.getattr_(out, "_output_init", None), [], {}, None)
        nv = 3 if dim == 2 else 5
        Q = FieldStack([NoScale(state(pt, f"q{v}")) for v in range(nv)])
        for step in clock[2] if clock else [7]:
            I.call(I.getattr_(out, "__write_result__", None), [Q, step], {}, None)
        return {"vars": {k: (v.dims, v.rec) for k, v in f.vars.items()}, "sizes": f.sizes}

    out = run_(p, R, side, go)
    label = f"{dim}-D netCDF output, {6 * side * side} processes"
    b = bad_status(out)
    if clock:
        return b, None if b else [v for _, v in out[0][1]["vars"]["time"][1]]
    R.check(b is None, "output", label, str(b), where)
    if b is not None:
        return
    vs = out[0][1]["vars"]
    sizes = out[0][1]["sizes"]

    def assemble(rec, shape):
        a = np.full(shape, None, dtype=object)
        for ix, v in rec:
            ix = ix if isinstance(ix, tuple) else (ix,)
            a[ix] = v.a if isinstance(v, LA) else v
        return a

    def compare(name, shape, want):
        if name not in vs:
            R.bad("output", f"{label}: {name}", "the variable does not exist", where)
            return
        try:
            got = assemble(vs[name][1], shape)
        except ValueError as e:
            R.bad("output", f"{label}: {name}", f"what is written does not fit the variable: {e}", where)
            return
        for i in np.ndindex(*shape):
            w = want(i)
            if got[i] != w:
                R.bad("output", f"{label}: {name}", f"at {i} of the file: {got[i]}, expected {w}", where)
                return
        R.ok("output", f"{label}: {name}", where)
    L = layout.Label
    compare("lons", (6, full, full), lambda i: L(("lon",) + i))
    compare("lats", (6, full, full), lambda i: L(("lat",) + i))
    compare("Xdim", (full,), lambda i: L(("x1", i[0])))
    compare("Ydim", (full,), lambda i: L(("x2", i[0])))
    R.check(sizes.get("Xdim") == full and sizes.get("Ydim") == full and sizes.get("npe") == 6, "output", f"{label}: dimensions", str(sizes), where)
    sh = (6, full, full) if dim == 2 else (6, nk, full, full)
    if dim == 2:
        names = {"h": "q0", "U": "U", "V": "V", "RV": "RV", "PV": "PV"}
    else:
        names = {"rho": "q0", "U": "U", "V": "V", "W": "W", "theta": None}
        compare("elev", sh, lambda i: L(("elev",) + i))
        compare("topo", (6, full, full), lambda i: L(("topo",) + i))
        compare("Zdim", (nk,), lambda i: L(("x3", i[0])))
        R.check(sizes.get("Zdim") == nk, "output", f"{label}: vertical dimension", str(sizes), where)
    for nm, src in names.items():
        compare(nm, (1,) + sh, lambda i: L((src,) + i[1:]) if src else L(("q4",) + i[1:]))
    compare("time", (1,), lambda i: 14)


class NoScale(LA):
    """a field whose pointwise scaling does not matter here (only places do)"""

    def __init__(self, la):
        super().__init__(la.a, la.dtype)

    def a_binop(self, I, op, other, swapped, node):
        return NoScale(LA(self.a.copy(), self.dtype))

    def a_getitem(self, I, idx, node):
        r = super().a_getitem(I, idx, node)
        return NoScale(r) if isinstance(r, LA) else r


class FieldStack(AbsVal):
    """the state: one field per variable"""
    py_types = ("ndarray",)

    def __init__(self, fields):
        self.fields = fields

    def a_getitem(self, I, idx, node):
        ix = idx if isinstance(idx, tuple) else (idx,)
        if isinstance(ix[0], int) and all(i is Ellipsis or i == slice(None) for i in ix[1:]):
            return self.fields[ix[0]]
        raise AnalysisError(f"state indexed by {idx!r} at {loc(node)}")

    def a_attr(self, I, attr, node):
        if attr == "shape":
            return (len(self.fields),) + self.fields[0].a.shape
        if attr == "ndim":
            return 1 + self.fields[0].a.ndim
        raise AnalysisError(f"state.{attr} at {loc(node)}")


def run(p, R, tier):
    R.rule("tiles", "panel, row and column of the processes enumerate every tile once", 3)
    R.rule("gather", "the gathered cube holds every tile's values at the tile's place on its panel, on the root only", 10)
    R.rule("distribute", "distributing a cube gives every tile its own part", 10)
    R.rule("round-trip", "distributing what was gathered gives every tile back its own data", 8)
    R.rule("refused", "a field that does not fit the topology is refused by every process", 5)
    R.rule("output", "every value written to the netCDF file is at the place of its grid point", 10)
    positions(p, R, tier)
    gather_distribute(p, R, tier)
    refused(p, R, tier)
    for side in (1, 2, 3):
        for dim, mod, cls in ((2, "geometry.cubed_sphere_2d", "CubedSphere2D"), (3, "geometry.cubed_sphere_3d", "CubedSphere3D")):
            netcdf(p, R, tier, mod, cls, dim, side)
