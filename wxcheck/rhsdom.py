"""Interpretation of the right-hand side code, Python and native, over generic values."""
from __future__ import annotations

import hashlib
import os

import mpmath as mp
import numpy as np

from . import cxx, hp, layout
from .hp import C, num
from .interp import ExtRef, Hook, MISSING, Obj, Opaque, RaiseOutcome
from .layout import ArrayError, LA, odot, plain
from .project import AnalysisError, loc

PDE = "wx_factory/pde/"


def rnd(*key):
    h = hashlib.sha256(repr(key).encode()).hexdigest()
    return mp.mpf(int(h[:40], 16)) / mp.mpf(16) ** 40


def rand(shape, *key, lo=0, hi=1):
    r = np.empty(shape, dtype=object)
    for i in np.ndindex(*shape):
        r[i] = lo + (hi - lo) * rnd(key, i)
    return r


def matmul(a, b):
    """a @ b with b two-dimensional, over object arrays"""
    return np.tensordot(a, b, axes=([a.ndim - 1], [0]))


def close(a, b, eps=mp.mpf(10) ** -25):
    """None, or the first index at which the two arrays differ"""
    if a.shape != b.shape:
        return f"shape {a.shape} instead of {b.shape}"
    for i in np.ndindex(*a.shape):
        x, y = a[i], b[i]
        if x is None or not isinstance(x, mp.mpf) or not abs(x - y) <= eps * (1 + abs(y)):
            return f"at {i}: {mp.nstr(x, 8) if isinstance(x, mp.mpf) else x} instead of {mp.nstr(y, 8)}"
    return None


def values(v):
    """array of numbers held by an abstract array (None where a value is not known)"""
    if not isinstance(v, LA):
        return None
    r = np.empty(v.a.shape, dtype=object)
    for i in np.ndindex(*v.a.shape):
        r[i] = num(v.a[i])
    return r


def interp(p, bridge=None):
    I = layout.make_interp(p)
    hp.install(I)
    I.pi = C(+mp.pi)
    I.native = bridge
    return I


class Bridge:
    """the native module as seen from Python"""

    def __init__(self, p):
        path = os.path.join(p.repo, "wx_factory/pde/interface.cpp")
        if not os.path.exists(path):
            raise AnalysisError("anchor vanished: wx_factory/pde/interface.cpp")
        self.unit = cxx.Unit(path)
        self.bind = cxx.bindings(self.unit)
        self.calls = []
        self.functions = set()

    def pick(self, name):
        for f in self.bind.get(name, ()):
            if f is not None and "complex" not in f["type"]["qualType"]:
                return f
        return None

    def params(self, f):
        return [x for x in f.get("inner", ()) if x["kind"] == "ParmVarDecl"]

    def call(self, name, args, node=None):
        """args: arrays (LA) and integers"""
        f = self.pick(name)
        if f is None:
            raise ArrayError(f"no native function {name} for real arrays")
        ps = self.params(f)
        if len(ps) != len(args):
            raise ArrayError(f"{name} is called with {len(args)} arguments, it declares {len(ps)}")
        vals = []
        bufs = []
        for q, a in zip(ps, args):
            arr = "array_t" in q["type"]["qualType"]
            if arr != isinstance(a, LA):
                raise ArrayError(f"{name}: argument {q.get('name')} is {'not ' if arr else ''}an array")
            if arr:
                flat = [num(x) for x in a.a.reshape(-1)]
                b = cxx.Buf(q.get("name"), flat)
                const = q["type"]["qualType"].startswith("const")
                if not const and a.a.base is not None and not a.a.flags["C_CONTIGUOUS"]:
                    raise ArrayError(f"{name}: output {q.get('name')} is not contiguous")
                bufs.append((a, b, const))
                vals.append(b)
            else:
                v = num(a)
                vals.append(int(v) if v is not None else a)
        m = cxx.Machine(self.unit)
        try:
            m.call(f, vals)
        except cxx.CxxError as e:
            raise ArrayError(f"{name}: {e}")
        self.functions |= m.functions
        self.calls.append((name, len(args)))
        names = {b.name: (b, c) for a, b, c in bufs}
        for (bn, i), where in m.writes:
            if names[bn][1]:
                raise ArrayError(f"{name} writes to its input {bn} at {where}")
        for a, b, const in bufs:
            if not const:
                view = a.a.reshape(-1)
                for i, c in enumerate(b.cells):
                    v = c.v
                    view[i] = layout.UNDEF if v is None or v is cxx.UNSET else C(cxx.fnum(v))
                if not np.shares_memory(view, a.a):
                    a.a[...] = view.reshape(a.a.shape)

    def module(self):
        o = Obj(None, "native module", {})
        for nm in self.bind:
            def mk(nm):
                return Hook(nm, lambda I, a, k, n: self.call(nm, a, n))
            o.attrs[nm] = mk(nm)
        return o


def constants(I, names):
    out = {}
    for n in names:
        v = I.global_lookup("common.definitions", n)
        w = num(v) if v is not MISSING else None
        if w is None:
            raise AnalysisError(f"anchor vanished: constant {n}")
        out[n] = w
    return out


EULER = ["p0", "Rd", "cpd", "cvd", "heat_capacity_ratio", "gravity"]
IDX2 = ["idx_2d_rho", "idx_2d_rho_u", "idx_2d_rho_w", "idx_2d_rho_theta"]
IDX3 = ["idx_rho", "idx_rho_u1", "idx_rho_u2", "idx_rho_w", "idx_rho_theta"]


def pressure(c, rt):
    f = np.frompyfunc(lambda x: c["p0"] * (x * c["Rd"] / c["p0"]) ** (c["cpd"] / c["cvd"]), 1, 1)
    return f(rt)


def fail(e):
    return str(getattr(e, "val", e))


# -- right-hand sides ------------------------------------------------------------------------------------
class Recorder(LA):
    """operator matrix that remembers what it was applied to"""

    records = True

    def __init__(self, a, name, log):
        super().__init__(a)
        self.name = name
        self.log = log

    def a_binop(self, I, op, other, swapped, node):
        if op == "MatMult" and swapped and isinstance(other, LA):
            self.log.append((self.name, values(other), loc(node)))
            return LA.wrap(odot(other.a, self.a, node))
        return super().a_binop(I, op, other, swapped, node)


def convex(rows, cols, *key):
    """positive weights that sum to one in each column"""
    w = rand((rows, cols), *key, lo=mp.mpf("0.2"), hi=1)
    return w / w.sum(axis=0)


def face_same(m, half):
    """extrapolation in which both faces get the same value"""
    m = m.copy()
    m[:, half:] = m[:, :half]
    return m


class Exchange:
    """stands for the process topology: remembers what is sent, gives back what `reply` says"""

    def __init__(self, I, reply):
        self.I = I
        self.reply = reply
        self.sent = []
        self.waited = 0

    def obj(self):
        o = Obj(None, "ptopo", {"rank": 0, "size": 6})
        o.attrs["start_exchange_scalars"] = Hook("start_exchange_scalars", self.scalars)
        o.attrs["start_exchange_vectors"] = Hook("start_exchange_vectors", self.vectors)
        return o

    def args(self, names, a, k):
        d = dict(zip(names, a))
        d.update(k)
        return d

    def scalars(self, I, a, k, n):
        d = self.args(("south", "north", "west", "east", "boundary_shape", "flip_dim"), a, k)
        sides = {s: values(d[s]) for s in ("south", "north", "west", "east")}
        i = len(self.sent)
        self.sent.append(("scalar", sides, d))
        return self.request(i, "scalar", sides, [d["south"]])

    def vectors(self, I, a, k, n):
        d = self.args(("south", "north", "west", "east", "boundary_sn", "boundary_we", "flip_dim"), a, k)
        sides = {s: [values(x) for x in d[s]] for s in ("south", "north", "west", "east")}
        i = len(self.sent)
        self.sent.append(("vector", sides, d))
        return self.request(i, "vector", sides, list(d["south"]))

    def request(self, i, kind, sides, given=()):
        dt = given[0].dtype if given and isinstance(given[0], LA) else None

        def made(x):
            w = hp.wrap(x)
            if dt is not None:
                w.dtype = dt
            return w

        first = sides["south"] if kind == "scalar" else sides["south"][0]
        r = Obj(None, "request", {"shape": tuple(first.shape), "dtype": "float64"})

        def wait(I, a, k, n):
            self.waited += 1
            out = self.reply(i, kind, sides)
            if kind == "scalar":
                return tuple(made(out[s]) for s in ("south", "north", "west", "east"))
            return tuple(tuple(made(x) for x in out[s]) for s in ("south", "north", "west", "east"))

        r.attrs["wait"] = Hook("wait", wait)
        return r


_GEO = {}


def geometry(p, dim, ne, nev, n, dev):
    key = (p.repo, dim, ne, nev, n)
    if key not in _GEO:
        _, g = layout.geometry_obj(p, dim, ne, nev, n, 0)
        _GEO[key] = {k: v for k, v in g.attrs.items() if isinstance(v, (int, str, tuple, float)) or isinstance(v, LA)}
    o = Obj(None, "geometry", dict(_GEO[key]))
    o.attrs["device"] = dev
    return o


def device(I, bridge=None):
    d = Obj(None, "device", {"xp": I.xp, "comm": Obj(None, "comm", {"rank": 0, "size": 6})})
    if bridge is not None:
        d.attrs["pde"] = bridge.module()
    d.attrs["timestamp"] = Hook("timestamp", lambda I, a, k, n: 0)
    d.attrs["elapsed"] = Hook("elapsed", lambda I, a, k, n: [0] * 9)
    return d


class Run:
    pass


def euler3d(p, q, mats, met, reply, case=31, ne=2, nev=2, n=2, times=1, before=None):
    """evaluate the cubed-sphere Euler right-hand side"""
    I = interp(p)
    dev = device(I)
    g = geometry(p, 3, ne, nev, n, dev)
    par = Obj(None, "config", {"num_elements_horizontal": ne, "num_elements_vertical": nev, "num_solpts": n, "case_number": case})
    log = []
    ops = Obj(None, "operators", {k: (Recorder(hp.wrap(v).a, k, log) if k.startswith("correction") else hp.wrap(v)) for k, v in mats.items()})
    metric = Obj(None, "metric", {k: hp.wrap(v) for k, v in met.items()})
    ex = Exchange(I, reply)
    pde = I.instantiate("pde.pde_euler_cubesphere", "PDEEulerCubesphere", [g, par, metric])
    rhs = I.instantiate("rhs.rhs_dfr", "RHSDirecFluxReconstruction_mpi", [pde, g, ops, metric, None, ex.obj(), par, tuple(q.shape)])
    r = Run()
    for _ in range(times):
        log.clear()
        ex.sent.clear()
        qa = hp.wrap(q.copy())
        r.out = I.call(I.getattr_(rhs, "__call__", None), [qa], {}, None)
        r.input = values(qa)
    r.res = values(r.out)
    r.log = list(log)
    r.sent = list(ex.sent)
    r.I = I
    return r


def shallow(p, q, mats, met, topo, reply, ne=2, n=2):
    I = interp(p)
    dev = device(I)
    g = geometry(p, 2, ne, 1, n, dev)
    log = []
    ops = Obj(None, "operators", {k: (Recorder(hp.wrap(v).a, k, log) if k.startswith("correction") else hp.wrap(v)) for k, v in mats.items()})
    metric = Obj(None, "metric", {k: hp.wrap(v) for k, v in met.items()})
    ex = Exchange(I, reply)
    tp = None if topo is None else Obj(None, "topo", {k: hp.wrap(v) for k, v in topo.items()})
    rhs = I.instantiate("rhs.rhs_sw", "RhsShallowWater", [tuple(q.shape), g, ops, metric, tp, ex.obj(), n, ne])
    qa = hp.wrap(q.copy())
    r = Run()
    r.out = I.call(I.getattr_(rhs, "__call__", None), [qa], {}, None)
    r.input = values(qa)
    r.res = values(r.out)
    r.log, r.sent, r.I = log, ex.sent, I
    return r


def cartesian(p, bridge, q, mats, nx, nz, n, dx1, dx3):
    I = interp(p, bridge)
    dev = device(I, bridge)
    g = Obj(None, "geometry", {"device": dev, "Δx1": C(dx1), "Δx3": C(dx3), "num_solpts": n})
    par = Obj(None, "config", {"num_elements_horizontal": nx, "num_elements_vertical": nz, "num_solpts": n})
    log = []
    ops = Obj(None, "operators", {k: (Recorder(hp.wrap(v).a, k, log) if k.startswith("correction") else hp.wrap(v)) for k, v in mats.items()})
    pde = I.instantiate("pde.pde_euler_cartesian", "PDEEulerCartesian", [g, par, None])
    rhs = I.instantiate("rhs.rhs_dfr", "RHSDirecFluxReconstruction", [pde, g, ops, None, None, None, par, tuple(q.shape)])
    qa = hp.wrap(q.copy())
    r = Run()
    r.out = I.call(I.getattr_(rhs, "__call__", None), [qa], {}, None)
    r.input = values(qa)
    r.res = values(r.out)
    r.log, r.I = log, I
    return r


# -- generic inputs -------------------------------------------------------------------------------------
def spd(d, shape, *key):
    """symmetric positive definite tensors"""
    B = rand((d, d) + shape, *key, lo=mp.mpf("0.2"), hi=1)
    h = np.empty((d, d) + shape, dtype=object)
    for i in range(d):
        for j in range(d):
            h[i, j] = sum(B[i, k] * B[j, k] for k in range(d)) + (mp.mpf("0.5") if i == j else 0)
    return h


def both_sides(shape, axis, half, make):
    """values at interfaces, the same seen from both elements; `axis` counts elements (with halo)"""
    out = np.empty(shape, dtype=object)
    out[...] = mp.mpf(1)
    m = shape[axis]
    lo = [slice(None)] * len(shape)
    hi = [slice(None)] * len(shape)
    sub = list(shape)
    sub[axis] = m - 1
    sub[-1] = half
    v = make(tuple(sub))
    lo[axis], lo[-1] = slice(0, m - 1), slice(half, None)
    hi[axis], hi[-1] = slice(1, m), slice(0, half)
    out[tuple(lo)] = v
    out[tuple(hi)] = v
    return out


def invariant(a, axis):
    """the value of the first index along an axis everywhere on it"""
    s = [slice(None)] * a.ndim
    s[axis] = slice(0, 1)
    return np.broadcast_to(a[tuple(s)], a.shape).copy()


def metric3(ne, nev, n, key, inv=None):
    """generic metric; inv = 'x1'|'x2'|'x3': the same for all elements in that direction"""
    g = (nev, ne, ne, n ** 3)
    half = n * n
    axes = {"x3": 0, "x2": 1, "x1": 2}
    met = {}

    def iv(a, lead=0, nm=None):
        if inv is None:
            return a
        a = invariant(a, lead + axes[inv])
        if nm == {"x1": "i", "x2": "j", "x3": "k"}[inv]:
            a[..., :half] = a[..., half:]
        return a

    met["sqrtG_new"] = iv(rand(g, key, "G", lo=1, hi=2))
    met["inv_sqrtG_new"] = 1 / met["sqrtG_new"]
    met["h_contra_new"] = iv(spd(3, g, key, "h"), 2)
    met["christoffel"] = iv(rand((3, 9) + g, key, "ch"), 2)
    met["inv_dzdeta_new"] = iv(rand(g, key, "dz", lo=1, hi=2))
    for nm, ax in (("i", 2), ("j", 1), ("k", 0)):
        sh = list(g[:3]) + [2 * half]
        sh[ax] += 2
        sh = tuple(sh)
        met[f"sqrtG_itf_{nm}_new"] = iv(both_sides(sh, ax, half, lambda s: rand(s, key, "Gi", nm, lo=1, hi=2)), 0, nm)
        h = np.empty((3, 3) + sh, dtype=object)
        base = None
        for i in range(3):
            for j in range(i, 3):
                h[i, j] = h[j, i] = both_sides(sh, ax, half, lambda s: rand(s, key, "hi", nm, i, j, lo=mp.mpf("0.1"), hi=mp.mpf("0.4")) + (1 if i == j else 0))
        met[f"h_contra_itf_{nm}_new"] = iv(h, 2, nm)
    return met


def mats3(n, key, same=()):
    N, half = n ** 3, n * n
    m = {}
    for x in "xyz":
        e = convex(N, 2 * half, key, "e", x)
        m["extrap_" + x] = face_same(e, half) if x in same else e
        m["derivative_" + x] = rand((N, N), key, "d", x, lo=-1, hi=1)
    for c in ("WE", "SN", "DU"):
        m["correction_" + c] = rand((2 * half, N), key, "c", c, lo=-1, hi=1)
    m["highfilter_k"] = rand((N, N), key, "f")
    return m


def state3(shape, key, ix, inv=None):
    q = rand(shape, key, lo=mp.mpf("0.5"), hi=2)
    for k in ("idx_rho_u1", "idx_rho_u2", "idx_rho_w"):
        q[ix[k]] = rand(shape[1:], key, k, lo=-25, hi=25)
    q[ix["idx_rho_theta"]] = q[ix["idx_rho_theta"]] * 300
    if inv is not None:
        q = invariant(q, 1 + {"x3": 0, "x2": 1, "x1": 2}[inv])
    return q
