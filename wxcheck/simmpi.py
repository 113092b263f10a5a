"""Interpretation of code that runs on several processes at once: one interpreter per
process, collective operations as meeting points.  A meeting that cannot take place is
reported (not all members arrive, or they ask for different operations)."""
from __future__ import annotations

import sys
import threading

import numpy as np

from .interp import ExtRef, Hook, MISSING, Obj, Opaque, RaiseOutcome
from .layout import LA
from .project import AnalysisError, loc


class Stuck(AnalysisError):
    """processes wait for each other forever"""


class World:
    def __init__(self, n):
        self.n = n
        self.cv = threading.Condition()
        self.meet = {}       # (comm, index) -> {rank: (op, payload)}
        self.result = {}
        self.waiting = {}    # rank -> (comm, index)
        self.done = set()
        self.dead = None
        self.log = [[] for _ in range(n)]
        self.turn = None

    # -- scheduling: one process at a time, in rank order
    def _next(self):
        ready = [r for r in range(self.n) if r not in self.done and (r not in self.waiting or self.waiting[r] in self.result)]
        if ready:
            self.turn = ready[0]
        elif len(self.done) < self.n:
            self.dead = self.describe()
            self.turn = None
        self.cv.notify_all()

    def describe(self):
        parts = []
        for r in range(self.n):
            if r in self.waiting and self.waiting[r] not in self.result:
                k = self.waiting[r]
                op, where = self.meet[k][r][0], self.meet[k][r][2]
                parts.append(f"process {r} waits in {op} at {where}")
            elif r in self.done:
                parts.append(f"process {r} has ended")
        return "; ".join(parts[:4]) + (" ..." if len(parts) > 4 else "")

    def collective(self, comm, rank, op, payload, node, combine):
        """comm: Comm; rank: world rank; combine(dict member -> payload) -> dict member -> result"""
        with self.cv:
            i = comm.count.get(rank, 0)
            comm.count[rank] = i + 1
            key = (comm.id, i)
            self.log[rank].append((comm.name, op))
            m = self.meet.setdefault(key, {})
            m[rank] = (op, payload, loc(node) if node is not None else "?")
            if len(m) == len(comm.members):
                ops = {v[0] for v in m.values()}
                if len(ops) > 1:
                    self.dead = "different collective operations meet: " + "; ".join(f"process {r}: {v[0]} at {v[2]}" for r, v in sorted(m.items())[:4])
                    self.cv.notify_all()
                    raise Stuck(self.dead)
                try:
                    self.result[key] = combine({r: v[1] for r, v in m.items()})
                except Stuck as e:
                    self.dead = str(e)
                    self.cv.notify_all()
                    raise
            self.waiting[rank] = key
            self._next()
            while self.turn != rank or key not in self.result:
                if self.dead:
                    raise Stuck(self.dead)
                self.cv.wait()
            del self.waiting[rank]
            return self.result[key][rank]

    def run(self, fn):
        """fn(rank, comm) on every process; returns the list of (kind, value)"""
        out = [None] * self.n
        world = Comm(self, tuple(range(self.n)), "world")

        def body(r):
            with self.cv:
                while self.turn != r:
                    if self.dead:
                        out[r] = ("stuck", self.dead)
                        self.done.add(r)
                        return
                    self.cv.wait()
            try:
                out[r] = ("ok", fn(r, world))
            except RaiseOutcome as e:
                out[r] = ("raise", e.val)
            except Stuck as e:
                out[r] = ("stuck", str(e))
            except BaseException as e:  # noqa: BLE001
                out[r] = ("error", e)
            with self.cv:
                self.done.add(r)
                self._next()

        old = threading.stack_size(64 * 1024 * 1024)
        try:
            ts = [threading.Thread(target=body, args=(r,), daemon=True) for r in range(self.n)]
            for t in ts:
                t.start()
        finally:
            threading.stack_size(old)
        with self.cv:
            self.turn = 0
            self.cv.notify_all()
        for t in ts:
            t.join()
        for k, v in out:
            if k == "error":
                raise v
        return out


class Comm:
    _n = 0

    def __init__(self, world, members, name):
        Comm._n += 1
        self.id = Comm._n
        self.world = world
        self.members = members
        self.name = name
        self.count = {}

    def obj(self, rank):
        """the communicator as process `rank` sees it"""
        me = self.members.index(rank)
        size = len(self.members)
        w = self.world
        o = Obj(None, f"comm {self.name}", {"rank": me, "size": size})

        def hook(name, fn):
            o.attrs[name] = Hook(name, fn)

        def arg(a, k, i, nm, default=MISSING):
            if len(a) > i:
                return a[i]
            return k.get(nm, default)

        def coll(op, payload, node, f):
            return w.collective(self, rank, op, payload, node, f)

        def by_member(d):
            return [d[m] for m in self.members]

        def root_of(d):
            rs = {x[1] for x in d.values()}
            if len(rs) != 1:
                raise Stuck(f"different roots {sorted(map(str, rs))}")
            r = rs.pop()
            if not isinstance(r, int) or not 0 <= r < size:
                raise Stuck(f"root {r!r} is not a process of the communicator")
            return r

        def bcast(I, a, k, n):
            return coll("bcast", (arg(a, k, 0, "obj", None), arg(a, k, 1, "root", 0)), n,
                        lambda d: {m: (d[self.members[root_of(d)]][0] if m == self.members[root_of(d)] else fresh(d[self.members[root_of(d)]][0])) for m in self.members})

        def gather(I, a, k, n):
            return coll("gather", (arg(a, k, 0, "sendobj", None), arg(a, k, 1, "root", 0)), n,
                        lambda d: {m: ([fresh(x[0]) for x in by_member(d)] if i == root_of(d) else None) for i, m in enumerate(self.members)})

        def allgather(I, a, k, n):
            return coll("allgather", arg(a, k, 0, "sendobj", None), n, lambda d: {m: [fresh(x) for x in by_member(d)] for m in self.members})

        def scatter(I, a, k, n):
            def f(d):
                src = d[self.members[root_of(d)]][0]
                if not isinstance(src, (list, tuple)) or len(src) != size:
                    raise Stuck(f"scatter of {len(src) if isinstance(src, (list, tuple)) else src!r} parts to {size} processes")
                return {m: fresh(src[i]) for i, m in enumerate(self.members)}
            return coll("scatter", (arg(a, k, 0, "sendobj", None), arg(a, k, 1, "root", 0)), n, f)

        def opname(v):
            return str(getattr(v, "dotted", v)).split(".")[-1] if v is not MISSING else "SUM"

        def reduce_vals(I, vals, op, n):
            if op == "SUM":
                r = vals[0]
                for v in vals[1:]:
                    r = I.binop("Add", r, v, n)
                return r
            if op in ("MAX", "MIN") and all(isinstance(v, (int, float)) for v in vals):
                return (max if op == "MAX" else min)(vals)
            own = getattr(I, "builtins", {}).get(op.lower())
            if op in ("MAX", "MIN") and own is not None and len(vals) > 1:
                return own(I, list(vals), {}, n)
            return Opaque((op,) + tuple(I.keyof(v) for v in vals))

        def allreduce(I, a, k, n):
            op = opname(arg(a, k, 1, "op"))
            return coll("allreduce " + op, arg(a, k, 0, "sendobj"), n, lambda d: (lambda r: {m: fresh(r) for m in self.members})(reduce_vals(I, by_member(d), op, n)))

        def Allreduce(I, a, k, n):
            op = opname(arg(a, k, 2, "op"))
            recv = arg(a, k, 1, "recvbuf")
            r = coll("Allreduce " + op, arg(a, k, 0, "sendbuf"), n, lambda d: (lambda r: {m: fresh(r) for m in self.members})(reduce_vals(I, by_member(d), op, n)))
            if isinstance(recv, LA):
                recv.a_setitem(I, Ellipsis, r, n)
            return None

        def Split(I, a, k, n):
            def f(d):
                groups = {}
                for m in self.members:
                    c, key = d[m]
                    c = int(c) if isinstance(c, bool) else c
                    groups.setdefault(c, []).append((key, m))
                out = {}
                for c, ms in groups.items():
                    ms.sort(key=lambda t: (t[0], self.members.index(t[1])))
                    sub = Comm(w, tuple(m for _, m in ms), f"{self.name}/{c}")
                    for _, m in ms:
                        out[m] = sub
                return out
            sub = coll("Split", (arg(a, k, 0, "color", 0), arg(a, k, 1, "key", 0)), n, f)
            return sub.obj(rank)

        def Dup(I, a, k, n):
            return coll("Dup", None, n, lambda d: (lambda c: {m: c for m in self.members})(Comm(w, self.members, self.name + "/dup"))).obj(rank)

        def barrier(I, a, k, n):
            return coll("barrier", None, n, lambda d: {m: None for m in self.members})

        def graph(I, a, k, n):
            edges = tuple(tuple(x.a.flat) if isinstance(x, LA) else tuple(x) if isinstance(x, (list, tuple)) else x for x in (arg(a, k, 0, "sources", ()), arg(a, k, 1, "destinations", ())))

            def f(d):
                c = Comm(w, self.members, self.name + "/graph")
                c.edges = {m: d[m] for m in self.members}
                return {m: c for m in self.members}
            return coll("Create_dist_graph_adjacent", edges, n, f).obj(rank)

        def neighbours(I, a, k, n):
            """the blocks every process receives (sent ones are taken when the operation starts)"""
            send, recv = arg(a, k, 0, "sendbuf"), arg(a, k, 1, "recvbuf")
            if not isinstance(send, LA) or not isinstance(recv, LA):
                raise AnalysisError(f"neighbourhood exchange of {send!r} at {loc(n)}")

            def f(d):
                out = {}
                for m in self.members:
                    src, dst = self.edges[m]
                    got, seen = [], {}
                    for s in src:
                        q = self.members[s]
                        k_ = seen[s] = seen.get(s, -1) + 1
                        mine = [i for i, t in enumerate(self.edges[q][1]) if self.members[t] == m]
                        if k_ >= len(mine):
                            raise Stuck(f"process {m} receives from {q}, which does not send to it")
                        blocks = d[q].reshape((len(self.edges[q][1]), -1))
                        got.append(blocks[mine[k_]])
                    out[m] = np.stack(got) if got else np.empty((0,), dtype=object)
                return out
            r = coll("neighbor_alltoall", send.a.copy(), n, f)
            if r.size != recv.a.size:
                raise Stuck(f"{r.size} values arrive in a buffer of {recv.a.size} at {loc(n)}")
            return recv, r

        def Ineighbor(I, a, k, n):
            recv, r = neighbours(I, a, k, n)

            def wait(I2, a2, k2, n2):
                recv.a[...] = r.reshape(recv.a.shape)
                return None
            return Obj(None, "request", {"Wait": Hook("Wait", wait), "wait": Hook("wait", wait)})

        def neighbor(I, a, k, n):
            recv, r = neighbours(I, a, k, n)
            recv.a[...] = r.reshape(recv.a.shape)

        if hasattr(self, "edges"):
            hook("Ineighbor_alltoall", Ineighbor)
            hook("Neighbor_alltoall", neighbor)

        for nm, f in (("bcast", bcast), ("gather", gather), ("allgather", allgather), ("scatter", scatter), ("allreduce", allreduce), ("Allreduce", Allreduce), ("Split", Split), ("Dup", Dup),
                      ("barrier", barrier), ("Barrier", barrier), ("Create_dist_graph_adjacent", graph)):
            hook(nm, f)
        hook("Get_rank", lambda I, a, k, n: me)
        hook("Get_size", lambda I, a, k, n: size)
        hook("Free", lambda I, a, k, n: None)
        return o


def fresh(v):
    """what arrives is a copy"""
    if isinstance(v, LA):
        return LA(v.a.copy(), v.dtype)
    if isinstance(v, list):
        return [fresh(x) for x in v]
    if isinstance(v, tuple):
        return tuple(fresh(x) for x in v)
    if isinstance(v, dict):
        return {k: fresh(x) for k, x in v.items()}
    if isinstance(v, Obj):
        return Obj(v.cls, v.name, {k: fresh(x) for k, x in v.attrs.items()}, v.strict)
    return v
