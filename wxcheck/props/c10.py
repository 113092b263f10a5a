"""C10: numerical interface fluxes are consistent, single-valued and wall-tight.

The right-hand side code is interpreted with a correction operator that copies the
interface values to the solution points and with all other operators zero, so that
the tendency it returns *is* the numerical flux (with a minus sign)."""
from __future__ import annotations

import mpmath as mp
import numpy as np

from . import c27
from .. import rhsdom as R
from ..interp import RaiseOutcome
from ..layout import ArrayError
from ..project import AnalysisError

SIDES = {0: ("west", "east"), 1: ("south", "north"), 2: (None, None)}


def ident(rows, cols):
    m = np.empty((rows, cols), dtype=object)
    m[...] = mp.mpf(0)
    for i in range(min(rows, cols)):
        m[i, i] = mp.mpf(1)
    return m


def zeros(*shape):
    m = np.empty(shape, dtype=object)
    m[...] = mp.mpf(0)
    return m


class Sys:
    """one equation set: where variables are, and how to get the flux at the faces of a direction"""

    def take(self, F, d, i, side):
        """flux (nvar, tangential..., point) at face `side` (0 low, 1 high) of element i along direction d"""
        ax = 1 + self.axis[d]
        v = np.take(F, i, axis=ax)
        h = v.shape[-1] // 2 if not self.face else self.face
        return v[..., :h] if side == 0 else v[..., h:2 * h]


class Euler3(Sys):
    name = "Euler equations on the cubed sphere"
    where = "wx_factory/pde/fluxes.py"
    axis = {0: 2, 1: 1, 2: 0}
    dirs = (0, 1, 2)
    halo = (0, 1)

    def __init__(self, p, n=2, ne=3, nev=3, case=31):
        self.p, self.n, self.ne, self.nev, self.case = p, n, ne, nev, case
        I = R.interp(p)
        ix = {k: int(v) for k, v in R.constants(I, R.IDX3).items()}
        self.ix = ix
        self.c = R.constants(I, R.EULER)
        self.rho, self.theta = ix["idx_rho"], ix["idx_rho_theta"]
        self.mom = [ix["idx_rho_u1"], ix["idx_rho_u2"], ix["idx_rho_w"]]
        self.nvar = 5
        self.shape = (nev, ne, ne)
        self.face = n * n
        self.advective = [self.theta]

    def count(self, d):
        return self.shape[self.axis[d]]

    def state(self, key):
        """one state per element"""
        s = R.rand((5,) + self.shape, key, lo=mp.mpf("0.5"), hi=2)
        for m in self.mom:
            s[m] = R.rand(self.shape, key, m, lo=-25, hi=25)
        s[self.theta] = s[self.theta] * 300
        return s

    def metric(self, key, d, diagonal=False, inv=True):
        m = R.metric3(self.ne, self.nev, self.n, key, "x" + str(d + 1) if inv else None)
        m["sqrtG_new"][...] = mp.mpf(1)
        m["inv_sqrtG_new"][...] = mp.mpf(1)
        for k in ("h_contra_new", "christoffel"):
            m[k][...] = mp.mpf(0)
        if diagonal:
            for k in "ijk":
                for a in range(3):
                    for b in range(3):
                        if a != b:
                            m[f"h_contra_itf_{k}_new"][a, b][...] = mp.mpf(0)
        return m

    def flux(self, states, halo, met, d):
        """numerical fluxes of direction d; halo: side -> state at the edge elements (nvar, tangential elements)"""
        n = self.n
        N, h = n ** 3, n * n
        mats = {}
        for x in "xyz":
            mats["extrap_" + x] = R.convex(N, 2 * h, "e", x)
            mats["derivative_" + x] = zeros(N, N)
        for k, c in enumerate(("WE", "SN", "DU")):
            mats["correction_" + c] = ident(2 * h, N) if k == d else zeros(2 * h, N)
        mats["highfilter_k"] = zeros(N, N)
        q = np.repeat(states[..., None], N, axis=-1)
        self.mats = mats

        def reply(i, kind, sides):
            out = {}
            for s, own in sides.items():
                if kind == "scalar":
                    v = self.which(own, s, states)
                    out[s] = np.broadcast_to(halo[s][v][..., None], own.shape).copy()
                else:
                    out[s] = [np.broadcast_to(halo[s][m][..., None], own[0].shape).copy() for m in self.mom]
            return out

        self.run = R.euler3d(self.p, q, mats, met, reply, case=self.case, ne=self.ne, nev=self.nev, n=n)
        return -self.run.res

    def which(self, own, side, states):
        e = self.edge(states, side)
        for v in (self.rho, self.theta):
            if R.close(own, np.broadcast_to(e[v][..., None], own.shape)) is None:
                return v
        raise NotSent(f"what is sent {side} is not the state at that edge")

    def edge(self, states, side):
        d, k = {"west": (0, 0), "east": (0, -1), "south": (1, 0), "north": (1, -1)}[side]
        return np.take(states, k, axis=1 + self.axis[d])

    def physical(self, q, G, h, d):
        """q (nvar, ...) at a face; G, h the metric there"""
        un = q[self.mom[d]] / q[self.rho]
        P = R.pressure(self.c, q[self.theta])
        F = np.empty(q.shape, dtype=object)
        for v in range(5):
            F[v] = G * un * q[v]
        for k, m in enumerate(self.mom):
            F[m] = F[m] + G * h[d, k] * P
        return F

    def face_metric(self, met, d, i, side):
        nm = "ijk"[d]
        ax = self.axis[d]
        cut = (lambda a, lead: np.take(a, i + 1, axis=lead + ax)[..., self.face * side:self.face * (side + 1)])
        return cut(met[f"sqrtG_itf_{nm}_new"], 0), cut(met[f"h_contra_itf_{nm}_new"], 2)

    def speed(self, q, G, h, d):
        P = R.pressure(self.c, q[self.theta])
        f = np.frompyfunc(lambda u, hh, P, r: abs(u) + (mp.sqrt(hh * self.c["heat_capacity_ratio"] * P / r) if self.case >= 13 else 0), 4, 1)
        return f(q[self.mom[d]] / q[self.rho], h[d, d], P, q[self.rho])

    wall = {2: (0, 1)}

    def wide(self):
        return type(self)(self.p, n=self.n, ne=4, nev=1, case=self.case)


class Shallow(Sys):
    name = "shallow-water equations"
    where = "wx_factory/rhs/rhs_sw.py"
    axis = {0: 1, 1: 0}
    dirs = (0, 1)
    halo = (0, 1)
    wall = {}

    def __init__(self, p, n=2, ne=3):
        self.p, self.n, self.ne = p, n, ne
        I = R.interp(p)
        ix = {k: int(v) for k, v in R.constants(I, ["idx_h", "idx_hu1", "idx_hu2"]).items()}
        self.g = R.constants(I, ["gravity"])["gravity"]
        self.rho = ix["idx_h"]
        self.theta = None
        self.mom = [ix["idx_hu1"], ix["idx_hu2"]]
        self.nvar = 3
        self.shape = (ne, ne)
        self.face = n
        self.advective = []

    count = Euler3.count
    edge = Euler3.edge

    def state(self, key):
        s = R.rand((3,) + self.shape, key, lo=mp.mpf("0.5"), hi=2)
        for m in self.mom:
            s[m] = R.rand(self.shape, key, m, lo=-1, hi=1)
        return s

    def metric(self, key, d, diagonal=False, inv=True):
        ne, n = self.ne, self.n
        g = (ne, ne, n * n)

        def iv(a, nm):
            if not inv:
                return a
            a = R.invariant(a, self.axis[d])
            if "ij"[d] == nm:
                a[..., :n] = a[..., n:]
            return a

        m = {"sqrtG": zeros(*g) + 1, "inv_sqrtG": zeros(*g) + 1}
        for a in (1, 2):
            for b in (1, 2):
                m[f"H_contra_{a}{b}"] = zeros(*g)
        for k in ("1_01", "1_02", "1_11", "1_12", "1_22", "2_01", "2_02", "2_11", "2_12", "2_22"):
            m["christoffel_" + k] = zeros(*g)
        for nm, ax in (("i", 1), ("j", 0)):
            sh = list(g[:2]) + [2 * n]
            sh[ax] += 2
            sh = tuple(sh)
            m[f"sqrtG_itf_{nm}"] = iv(R.both_sides(sh, ax, n, lambda s: R.rand(s, key, "G", nm, lo=1, hi=2)), nm)
            for a, b in ((1, 1), (1, 2), (2, 2)):
                v = iv(R.both_sides(sh, ax, n, lambda s: R.rand(s, key, "h", nm, a, b, lo=mp.mpf("0.1"), hi=mp.mpf("0.4")) + (1 if a == b else 0)), nm)
                if a != b and diagonal:
                    v = v * 0
                m[f"H_contra_{a}{b}_itf_{nm}"] = v
                m[f"H_contra_{b}{a}_itf_{nm}"] = v
        return m

    def flux(self, states, halo, met, d):
        n = self.n
        N = n * n
        mats = {}
        for x in "xy":
            mats["extrap_" + x] = R.convex(N, 2 * n, "e", x)
            mats["derivative_" + x] = zeros(N, N)
        for k, c in enumerate(("WE", "SN")):
            mats["correction_" + c] = ident(2 * n, N) if k == d else zeros(2 * n, N)
        q = np.repeat(states[..., None], N, axis=-1)

        def reply(i, kind, sides):
            if kind == "scalar":
                for s, own in sides.items():
                    if R.close(own, np.broadcast_to(self.edge(states, s)[self.rho][..., None], own.shape)) is not None:
                        raise NotSent(f"what is sent {s} is not the state at that edge")
                return {s: np.broadcast_to(halo[s][self.rho][..., None], own.shape).copy() for s, own in sides.items()}
            return {s: [np.broadcast_to(halo[s][m][..., None], own[0].shape).copy() for m in self.mom] for s, own in sides.items()}

        self.run = R.shallow(self.p, q, mats, met, None, reply, ne=self.ne, n=n)
        return -self.run.res

    def physical(self, q, G, h, d):
        F = np.empty(q.shape, dtype=object)
        un = q[self.mom[d]] / q[self.rho]
        for v in range(3):
            F[v] = G * un * q[v]
        for k, m in enumerate(self.mom):
            F[m] = F[m] + G * h[d, k] * self.g / 2 * q[self.rho] ** 2
        return F

    def face_metric(self, met, d, i, side):
        nm = "ij"[d]
        cut = (lambda a: np.take(a, i + 1, axis=self.axis[d])[..., self.face * side:self.face * (side + 1)])
        G = cut(met[f"sqrtG_itf_{nm}"])
        h = np.empty((2, 2) + G.shape, dtype=object)
        for a in range(2):
            for b in range(2):
                h[a, b] = cut(met[f"H_contra_{a + 1}{b + 1}_itf_{nm}"])
        return G, h

    upwind = True

    def wide(self):
        return type(self)(self.p, n=self.n, ne=4)


class Cartesian(Sys):
    name = "Euler equations on a Cartesian slice"
    where = "wx_factory/pde/kernels/riemann_flux.hpp"
    axis = {0: 1, 1: 0}
    dirs = (0, 1)
    halo = ()
    wall = {0: (0, 1), 1: (0, 1)}
    upwind = True

    def __init__(self, p, bridge, n=2, nx=4, nz=4):
        self.p, self.n, self.nx, self.nz, self.bridge = p, n, nx, nz, bridge
        I = R.interp(p)
        ix = {k: int(v) for k, v in R.constants(I, R.IDX2).items()}
        self.c = R.constants(I, R.EULER)
        self.rho, self.theta = ix["idx_2d_rho"], ix["idx_2d_rho_theta"]
        self.mom = [ix["idx_2d_rho_u"], ix["idx_2d_rho_w"]]
        self.nvar = 4
        self.shape = (nz, nx)
        self.face = n
        self.advective = [self.theta]

    count = Euler3.count

    def state(self, key):
        s = R.rand((4,) + self.shape, key, lo=mp.mpf("0.5"), hi=2)
        for m in self.mom:
            s[m] = R.rand(self.shape, key, m, lo=-25, hi=25)
        s[self.theta] = s[self.theta] * 300
        return s

    def metric(self, key, d, diagonal=False, inv=True):
        return None

    def flux(self, states, halo, met, d):
        n, nx, nz = self.n, self.nx, self.nz
        N = n * n
        mats = {}
        for x in "xz":
            mats["extrap_" + x] = R.convex(N, 2 * n, "e", x)
            mats["derivative_" + x] = zeros(N, N)
        for k, c in enumerate(("WE", "DU")):
            mats["correction_" + c] = ident(2 * n, N) if k == d else zeros(2 * n, N)
        q = np.repeat(states.reshape(4, nz, nx)[..., None], N, axis=-1)
        self.run = R.cartesian(self.p, self.bridge, q, mats, nx, nz, n, mp.mpf(2), mp.mpf(2))
        F = -self.run.res
        F = F.reshape((4, nz, nx, N))
        F[self.mom[1]] = F[self.mom[1]] - self.c["gravity"] * q[self.rho]
        return F

    def physical(self, q, G, h, d):
        un = q[self.mom[d]] / q[self.rho]
        P = R.pressure(self.c, q[self.theta])
        F = np.empty(q.shape, dtype=object)
        for v in range(4):
            F[v] = un * q[v]
        F[self.mom[d]] = F[self.mom[d]] + P
        return F

    def face_metric(self, met, d, i, side):
        sh = tuple(s for k, s in enumerate(self.shape) if k != self.axis[d]) + (self.n,)
        h = zeros(2, 2, *sh)
        h[0, 0] = h[1, 1] = zeros(*sh) + 1
        return zeros(*sh) + 1, h


class NotSent(Exception):
    pass


def flat_halo(s, states):
    """each edge repeated beyond it"""
    return {k: s.edge(states, k).copy() for k in ("south", "north", "west", "east")} if s.halo else None


def along(s, states, d, pattern):
    """states that alternate along a direction: element i carries the state of element pattern[i]"""
    return np.take(states, pattern, axis=1 + s.axis[d])


def face_state(s, states, d, i):
    v = np.take(states, i, axis=1 + s.axis[d])
    return np.repeat(v[..., None], s.face, axis=-1)


def run(p, rep, tier):
    rep.explanation = ("The right-hand side code, Python and native, is interpreted over generic states and metric terms with an operator set that makes the tendency equal to the numerical flux; equalities hold "
                       "in the values of unrelated generic quantities, hence for all of them (random interpretation).")
    rep.assumptions += ["the process topology returns the neighbour's edge state (C01, C02)", "the metric terms of an interface are the same seen from both elements"]
    rules = {"single": rep.rule("single", "both elements of an interface get the same flux", 8),
             "consistent": rep.rule("consistent", "equal states give the physical flux", 8),
             "mirror": rep.rule("mirror", "mirrored states give the mirrored flux", 8),
             "halo": rep.rule("halo", "an edge of the process treats its neighbour like an interior interface", 4),
             "wall": rep.rule("wall", "no flux but pressure at solid walls", 6),
             "upwind": rep.rule("upwind", "the flux is upwind, or damped by the fastest wave", 4)}
    from ..rhsdom import Bridge
    br = Bridge(p)
    ns = (2,) if tier == "quick" else (2, 3)
    todo = []
    for n in ns:
        todo += [Euler3(p, n=n), Shallow(p, n=n), Cartesian(p, br, n=n), Cartesian(p, br, n=n, nx=4, nz=5)]
    for s in todo:
        tag = f"{s.name}{', advection only' if getattr(s, 'case', 99) < 13 else ''}, {s.n} points"
        for d in s.dirs:
            try:
                check(s, d, rep, rules, f"{tag}, direction {d + 1}")
            except NotSent as e:
                rep.bad(rules["halo"], f"{tag}, direction {d + 1}", str(e), s.where)
            except (ArrayError, RaiseOutcome) as e:
                rep.bad(rules["single"], f"{tag}, direction {d + 1}", f"the right-hand side cannot be evaluated: {R.fail(e)}", s.where)
        rep.analysed |= s.run.I.analysed if hasattr(s, "run") else set()
    rep.analysed |= {f"native:{f}" for f in br.functions}
    # what is sent to a neighbour is the own side of the shared interface, for states that vary within elements
    for name, f in (("Euler equations on the cubed sphere", lambda: c27.euler(p, Quiet(), None, None, 1, 1, 2)), ("shallow-water equations", lambda: c27.shallow(p, Quiet(), None, 2, 2, True))):
        err = None
        try:
            f()
        except c27.SendError as e:
            err = str(e)
        except (ArrayError, RaiseOutcome):
            pass
        rep.check(err is None, rules["halo"], f"{name}, sent edges", f"the neighbour does not get the edge state: {err}", "wx_factory/rhs/")


class Quiet:
    """swallows reports"""

    def __init__(self):
        self.analysed = set()

    def check(self, *a, **k):
        pass

    bad = check


def check(s, d, rep, rules, tag):
    adv_only = getattr(s, "case", 99) < 13
    w = s.where
    m = s.count(d)
    base = s.state(("a", d))
    met = s.metric(("m", d), d, inv=False)
    # 1. single-valued, upwind
    F = s.flux(base, flat_halo(s, base), met, d)
    if not all(isinstance(x, mp.mpf) for x in F.flat):
        raise AnalysisError(f"{tag}: the flux could not be determined")
    for i in range(m - 1):
        a, b = s.take(F, d, i, 1), s.take(F, d, i + 1, 0)
        e = R.close(a, b)
        rep.check(e is None, rules["single"], f"{tag}, interface {i}|{i + 1}", f"the two elements get different fluxes: {e}", w)
        G, h = s.face_metric(met, d, i, 1)
        L, Rr = face_state(s, base, d, i), face_state(s, base, d, i + 1)
        dissipation(s, d, rep, rules, f"{tag}, interface {i}|{i + 1}", a, L, Rr, G, h)
    # 2. consistent: the same state everywhere along the direction
    st = R.invariant(base, 1 + s.axis[d])
    F = s.flux(st, flat_halo(s, st), met, d)
    for i in range(m):
        for side in (0, 1):
            if (i == 0 and side == 0 or i == m - 1 and side == 1) and d in s.wall:
                continue
            G, h = s.face_metric(met, d, i, side)
            e = R.close(s.take(F, d, i, side), s.physical(face_state(s, st, d, i), G, h, d))
            rep.check(e is None, rules["consistent"], f"{tag}, element {i}, face {side}", f"equal states on both sides do not give the physical flux: {e}", w)
    # 3. the outer faces
    if d in s.wall:
        for i, side in ((0, 0), (m - 1, 1)):
            G, h = s.face_metric(met, d, i, side)
            q = face_state(s, base, d, i)
            q0 = q.copy()
            for k in s.mom:
                q0[k] = q0[k] * 0
            F = s.flux(base, flat_halo(s, base), met, d)
            e = R.close(s.take(F, d, i, side), s.physical(q0, G, h, d))
            rep.check(e is None, rules["wall"], f"{tag}, {'last' if side else 'first'} face", f"flux through a solid wall is not the wall pressure alone: {e}", w)
    if d in s.halo:
        halo_rule(s.wide(), d, rep, rules, tag)
    # 4. mirror
    met3 = s.metric(("m3", d), d, diagonal=True)
    i, j = (m - 2) // 2, (m - 2) // 2 + 1
    F1 = s.flux(base, flat_halo(s, base), met3, d)
    rev = base.copy()
    rev[s.mom[d]] = -rev[s.mom[d]]
    pat = list(range(m))
    pat[i], pat[j] = j, i
    st = along(s, rev, d, pat)
    F2 = s.flux(st, flat_halo(s, st), met3, d)
    a, b = s.take(F1, d, i, 1), s.take(F2, d, i, 1)
    for v in range(s.nvar):
        sg = 1 if v == s.mom[d] else -1
        e = R.close(b[v], sg * a[v])
        rep.check(e is None, rules["mirror"], f"{tag}, variable {v}", f"mirrored states do not give the mirrored flux: {e}", w)


def dissipation(s, d, rep, rules, tag, F, L, Rr, G, h):
    if getattr(s, "upwind", False):
        mass = F[s.rho]
        up = np.empty(L.shape, dtype=object)
        for v in range(s.nvar):
            up[v] = np.frompyfunc(lambda f, a, b: a if f > 0 else b, 3, 1)(mass, L[v], Rr[v])
        for v in s.advective:
            e = R.close(F[v] * up[s.rho], mass * up[v])
            rep.check(e is None, rules["upwind"], f"{tag}, variable {v}", f"is not carried with the upwind value: {e}", s.where)
        # momentum across minus pressure is carried too: no pressure in tangential directions of an orthogonal metric
        if not s.advective or s.name.startswith("Euler equations on a Cart"):
            for k, mm in enumerate(s.mom):
                if k == d or any(x != 0 for x in h[d, k].flat):
                    continue
                e = R.close(F[mm] * up[s.rho], mass * up[mm])
                rep.check(e is None, rules["upwind"], f"{tag}, variable {mm}", f"is not carried with the upwind value: {e}", s.where)
        return
    fl, fr = s.physical(L, G, h, d), s.physical(Rr, G, h, d)
    lam = np.frompyfunc(max, 2, 1)(s.speed(L, G, h, d), s.speed(Rr, G, h, d))
    for v in range(s.nvar):
        got = (fl[v] + fr[v] - 2 * F[v]) / (G * (Rr[v] - L[v]))
        worst = None
        for i in np.ndindex(*got.shape):
            if got[i] < lam[i] * (1 - mp.mpf(10) ** -20):
                worst = f"{mp.nstr(got[i], 6)} < {mp.nstr(lam[i], 6)}"
        rep.check(worst is None, rules["upwind"], f"{tag}, variable {v}", f"the jump is damped with less than the fastest wave speed: {worst}", s.where)


def halo_rule(s, d, rep, rules, tag):
    w = s.where
    m = s.count(d)
    base = s.state(("w", d))
    met2 = s.metric(("m2", d), d)
    pat = [k % 2 for k in range(m)]
    st = along(s, base, d, pat)
    halo = flat_halo(s, st)
    A = np.take(base, 0, axis=1 + s.axis[d])
    B = np.take(base, 1, axis=1 + s.axis[d])
    lo, hi = SIDES[d]
    halo[lo] = B
    halo[hi] = A if pat[-1] else B
    other = SIDES[1 - d]
    for k in other:  # must not matter
        halo[k] = R.rand(halo[k].shape, "other", k, lo=1, hi=2)
    F = s.flux(st, halo, met2, d)
    e = R.close(s.take(F, d, 0, 0), s.take(F, d, 2, 0))
    rep.check(e is None, rules["halo"], f"{tag}, {lo} edge", f"the flux differs from that of an interior interface with the same two states: {e}", w)
    e = R.close(s.take(F, d, m - 1, 1), s.take(F, d, m - 3, 1))
    rep.check(e is None, rules["halo"], f"{tag}, {hi} edge", f"the flux differs from that of an interior interface with the same two states: {e}", w)
    for kind, sides, _ in s.run.sent:
        for name, v in sides.items():
            own = s.edge(st, name)
            if kind == "vector":
                for k, x in enumerate(v):
                    e = R.close(x, np.broadcast_to(own[s.mom[k]][..., None], x.shape))
                    rep.check(e is None, rules["halo"], f"{tag}, component {k + 1} sent {name}", f"is not that of the state at the edge: {e}", w)
