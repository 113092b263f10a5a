"""C01: neighbours, orientation and buffer slots of the halo exchange."""
from __future__ import annotations

from .. import algebra as A
from .. import topo as T
from ..algebra import Expr, sym
from ..interp import ClassRef, ExtRef, Hook, Interp, NDA, Obj, Opaque, nda_map1
from ..project import AnalysisError, loc


def expected(t, G, d):
    """(rank Expr, flip) of the tile adjacent to tile t across edge d, from the geometry"""
    n, r, c = A.to_expr(t.n), A.to_expr(t.row), A.to_expr(t.col)
    at_edge = {T.S: r, T.NO: r - (n - 1), T.W: c, T.E: c - (n - 1)}[d]
    if not A.is_zero(at_edge):  # interior side of the panel (classes are exact: 0, 1..n-2, n-1)
        dr, dc = {T.S: (-1, 0), T.NO: (1, 0), T.W: (0, -1), T.E: (0, 1)}[d]
        return T.simp(t.panel * n * n + (r + dr) * n + c + dc), False
    nb = G.neighbour(t.panel, d)
    if nb is None:
        raise AnalysisError(f"panel {t.panel}: edge {T.NAMES[d]} does not coincide with exactly one edge of another panel")
    q, e, fl = nb
    pos = c if d in (T.S, T.NO) else r
    if fl:
        pos = n - 1 - pos
    rq, cq = {T.S: (A.to_expr(0), pos), T.NO: (n - 1, pos), T.W: (pos, A.to_expr(0)), T.E: (pos, n - 1)}[e]
    return T.simp(q * n * n + rq * n + cq), fl


def same(a, b):
    try:
        return A.is_zero(A.to_expr(a) - A.to_expr(b))
    except TypeError:
        return False


def exchange_interp(p, flips, ncomp):
    """ProcessTopology object with symbolic conversions -> runs an exchange abstractly"""
    sent = []

    def flip(I, a, k, n):
        v = a[0]
        ax = k.get("axis", a[1] if len(a) > 1 else None)
        f = lambda e: A.app("flip", I.as_expr(e), I.as_expr(ax)) if ax is not None else A.app("flip", I.as_expr(e))
        return nda_map1(I, f, v) if isinstance(v, NDA) else f(v)

    def alltoall(I, a, k, n):
        send = a[0] if a else k["sendbuf"]
        recv = a[1] if len(a) > 1 else k["recvbuf"]
        snap = {}
        for i in range(4):
            if ncomp == 0:
                snap[i] = I.getitem(send, i, n)
            else:
                for c in range(ncomp):
                    snap[(i, c)] = I.getitem(send, (i, c), n)
        sent.append(snap)
        for i in range(4):
            if ncomp == 0:
                I.setitem(recv, i, sym(f"recv{i}"), n, None)
            else:
                for c in range(ncomp):
                    I.setitem(recv, (i, c), sym(f"recv{i}_{c}"), n, None)
        return Obj(None, "request", {"Wait": Hook("Wait", lambda I, a, k, n: None), "wait": Hook("wait", lambda I, a, k, n: None)})

    hooks = {"numpy.flip": flip, "process_topology.get_base_shape": lambda I, a, k, n: (sym("B0"), sym("B1"))}
    for w in ("flipud", "fliplr"):
        hooks["numpy." + w] = lambda I, a, k, n, w=w: A.app(w, I.as_expr(a[0]))
    I = Interp(p, hooks)
    cls = p.find_class("ProcessTopology")
    o = Obj(cls, "ptopo", {})
    g = Obj(None, "graph_comm", {"Ineighbor_alltoall": Hook("Ineighbor_alltoall", alltoall)})
    conv = lambda kind: [Hook(f"{kind}{i}", (lambda i: lambda I, a, k, n: (A.app(f"{kind}{i}a", *map(I.as_expr, a)), A.app(f"{kind}{i}b", *map(I.as_expr, a))))(i)) for i in range(4)]
    o.attrs.update({
        "device": Obj(None, "device", {"xp": ExtRef("numpy"), "synchronize": Hook("sync", lambda I, a, k, n: None)}),
        "flip": list(flips), "comm_dist_graph": g, "convert_contra": conv("ctr"), "convert_cov": conv("cov"),
    })
    return I, o, sent


def run(p, rep, tier):
    rep.explanation = (
        "ProcessTopology.__init__ is interpreted abstractly once per panel and tile class: n = 1, n = 2, and all n >= 3 at once with "
        "n, row and column symbolic (sign decision over affine integer polynomials); neighbours and orientation are compared with the "
        "ones derived from the positions the geometry constructors compute. The exchange routines are interpreted with symbolic edge "
        "data and the contents of each send slot and the order of the received tuple are compared.")
    rep.assumptions += ["MPI neighbour exchange delivers slot i to destinations[i] and fills slot i from sources[i]",
                        "float division and sqrt of process counts are exact for admissible counts"]
    r1 = rep.rule("neighbour", "the rank a tile lists for an edge (as source and as destination) is the tile touching that edge on the sphere", 300)
    r2 = rep.rule("orientation", "edge data is reversed exactly when the two tiles run along the edge in opposite directions", 300)
    r3 = rep.rule("send-slot", "slot i of the send buffer holds edge i's data (reversed iff flagged, along the requested axis)", 40)
    r4 = rep.rule("recv-slot", "the received south/north/west/east data is slot 0/1/2/3 of the receive buffer", 12)
    r5 = rep.rule("grid-position", "row, column and panel of a tile follow from its rank", 80)
    G = T.PanelGeometry(p)
    ptc = p.find_class("ProcessTopology")
    init = p.find_method(*ptc, "__init__")
    if init is None:
        raise AnalysisError("anchor vanished: ProcessTopology.__init__")
    where = loc(init[2])
    for t in T.tile_classes():
        I, o, log = T.build(p, t)
        rep.analysed |= I.analysed
        if len(log["graph"]) != 1:
            raise AnalysisError(f"{len(log['graph'])} neighbour graphs created for {t.label}")
        src, dst, gnode = log["graph"][0]
        ok = same(o.attrs.get("my_row"), t.row) and same(o.attrs.get("my_col"), t.col) and same(o.attrs.get("my_panel"), t.panel)
        rep.check(ok, r5, f"ProcessTopology.__init__: {t.label}", f"row/col/panel = {o.attrs.get('my_row')}, {o.attrs.get('my_col')}, {o.attrs.get('my_panel')}", where)
        for d in range(4):
            er, ef = expected(t, G, d)
            cons = f"ProcessTopology.__init__: {t.label}, {T.NAMES[d]} edge"
            good = len(src) == 4 and len(dst) == 4 and same(src[d], er) and same(dst[d], er)
            rep.check(good, r1, cons, f"neighbour is rank {er}, code uses source {src[d] if d < len(src) else '?'} / destination {dst[d] if d < len(dst) else '?'}", loc(gnode))
            fl = o.attrs.get("flip")
            fv = I.getitem(fl, d, None)
            tv = I.truth(fv)
            if tv is None:
                raise AnalysisError(f"flip flag not decided for {cons}: {fv!r}")
            rep.check(tv == ef, r2, cons, f"data must {'be' if ef else 'not be'} reversed, flag is {fv}", where)
    # exchanges
    names = ["Sd", "Nd", "Wd", "Ed"]
    pats = [[False] * 4, [True] * 4] + [[i == j for j in range(4)] for i in range(4)]
    for ncomp in (0, 2, 3):
        for fl in pats:
            for cov in ((False,) if ncomp == 0 else (False, True)):
                I, o, sent = exchange_interp(p, fl, ncomp)
                fd = sym("flip_dim")
                if ncomp == 0:
                    data = [sym(x) for x in names]
                    m = I.getattr_(o, "start_exchange_scalars", None)
                    req = I.call(m, [], dict(zip(T.NAMES, data), boundary_shape=(sym("bl"),), flip_dim=fd), None)
                    kind = "start_exchange_scalars"
                else:
                    data = [tuple(sym(f"{x}{c}") for c in range(ncomp)) for x in names]
                    m = I.getattr_(o, "start_exchange_vectors", None)
                    req = I.call(m, [], dict(zip(T.NAMES, data), boundary_sn=sym("bsn"), boundary_we=sym("bwe"), flip_dim=fd, covariant=cov), None)
                    kind = f"start_exchange_vectors({ncomp} components, {'cov' if cov else 'contra'}variant)"
                rep.analysed |= I.analysed
                if len(sent) != 1:
                    raise AnalysisError(f"{kind}: {len(sent)} neighbour exchanges started")
                for i in range(4):
                    comps = [(i, data[i])] if ncomp == 0 else []
                    if ncomp:
                        pre = ("cov" if cov else "ctr") + str(i)
                        bd = sym("bsn") if i < 2 else sym("bwe")
                        exp = [A.app(pre + "a", data[i][0], data[i][1], bd), A.app(pre + "b", data[i][0], data[i][1], bd)] + list(data[i][2:])
                        comps = [((i, c), e) for c, e in enumerate(exp)]
                    for key, e in comps:
                        want = A.app("flip", e, fd) if fl[i] else e
                        got = sent[0][key]
                        rep.check(same(strip(I, got), want), r3, f"{kind}: slot {key} ({T.NAMES[i]} edge, flip={fl[i]})",
                                  f"send buffer holds {short(got)}, expected {short(want)}", loc(m_node(m)))
                w = I.call(I.getattr_(req, "wait", None), [], {}, None)
                if not isinstance(w, (tuple, list)) or len(w) != 4:
                    raise AnalysisError(f"{kind}: wait() returns {w!r}")
                for i in range(4):
                    if ncomp == 0:
                        good = same(strip(I, w[i]), sym(f"recv{i}"))
                    else:
                        good = isinstance(w[i], (tuple, list)) and len(w[i]) == ncomp and all(same(strip(I, w[i][c]), sym(f"recv{i}_{c}")) for c in range(ncomp))
                    rep.check(good, r4, f"{kind}: received {T.NAMES[i]} data", f"is {short(w[i])}", loc(m_node(m)))


def m_node(m):
    return getattr(getattr(m, "func", m), "node", None)


def strip(I, v):
    if isinstance(v, NDA) and not v.cells and v.base is not None:
        return v.base
    return v


def short(v):
    return str(v)[:160]
