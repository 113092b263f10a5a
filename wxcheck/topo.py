"""Abstract construction of the process topology for every tile class, and the
geometric oracle for panel edges."""
from __future__ import annotations

from fractions import Fraction

from . import algebra as A
from . import geo
from .algebra import Expr, sym
from .interp import BASE_HOOKS, ExtRef, Hook, Interp, NDA, Obj, Opaque, Func, fld
from .intdom import IntDom, N
from .project import AnalysisError

S, NO, W, E = 0, 1, 2, 3
NAMES = ["south", "north", "west", "east"]


class Tile:
    def __init__(self, panel, n, row, col, dom, label):
        self.panel, self.n, self.row, self.col, self.dom, self.label = panel, n, row, col, dom, label

    @property
    def rank(self):
        return simp(self.panel * A.to_expr(self.n) ** 2 + A.to_expr(self.row) * self.n + self.col)


def simp(e):
    e = A.to_expr(e)
    if e.is_const():
        v = e.const_value()
        return int(v) if v.denominator == 1 else v
    return e


def tile_classes(panels=range(6)):
    for p in panels:
        for n in (1, 2):
            for r in range(n):
                for c in range(n):
                    yield Tile(p, n, r, c, None, f"panel {p}, {n}x{n} tiles, row {r}, col {c}")
        rs, cs = sym("r"), sym("c")
        for rn, r in (("0", 0), ("mid", rs), ("n-1", N - 1)):
            for cn, c in (("0", 0), ("mid", cs), ("n-1", N - 1)):
                dom = IntDom(3, {rs: (1, N - 2), cs: (1, N - 2)})
                yield Tile(p, N, r, c, dom, f"panel {p}, any n>=3, row {rn}, col {cn}")


def comm_obj(t, log):
    size = simp(6 * A.to_expr(t.n) ** 2)

    def hk(name, fn):
        return Hook("comm." + name, fn)

    def split(I, a, k, n):
        color = a[0] if a else k.get("color")
        key = a[1] if len(a) > 1 else k.get("key", 0)
        i = len(log["split"])
        log["split"].append((color, key, n))
        o = Obj(None, f"split{i}", {})
        o.attrs["rank"] = sym(f"splitrank{i}")
        o.attrs["size"] = sym(f"splitsize{i}")
        o.attrs["split_index"] = i
        o.attrs["Get_rank"] = hk("Get_rank", lambda I, a, k, n: o.attrs["rank"])
        o.attrs["Get_size"] = hk("Get_size", lambda I, a, k, n: o.attrs["size"])
        return o

    def graph(I, a, k, n):
        src = a[0] if a else k.get("sources")
        dst = a[1] if len(a) > 1 else k.get("destinations")
        log["graph"].append((list(src), list(dst), n))
        return Obj(None, "graph_comm", {})

    return Obj(None, "comm", {
        "rank": t.rank, "size": size,
        "Get_rank": hk("Get_rank", lambda I, a, k, n: t.rank),
        "Get_size": hk("Get_size", lambda I, a, k, n: size),
        "Split": hk("Split", split),
        "Create_dist_graph_adjacent": hk("graph", graph),
    })


def build(p, t: Tile):
    """abstract ProcessTopology object for tile class t -> (interp, obj, log)"""
    hooks = {}
    decide = None
    if t.dom is not None:
        hooks.update(t.dom.hooks())
        decide = t.dom.decide
    I = Interp(p, hooks, decide=decide)
    log = {"split": [], "graph": []}
    comm = comm_obj(t, log)
    dev = Obj(None, "device", {"xp": ExtRef("numpy"), "comm": comm})
    o = I.instantiate("process_topology", "ProcessTopology", [dev], {"comm": comm})
    return I, o, log


# ---------------------------------------------------------------- geometry
_EDGE = {S: ("Y", -1, "X"), NO: ("Y", 1, "X"), W: ("X", -1, "Y"), E: ("X", 1, "Y")}


class PanelGeometry:
    """direction rows of each panel: d_p(X,Y) = A_p (1,X,Y) (exact, zero rotation)"""

    def __init__(self, p, dim=2):
        self.rows = {}
        self.src = {}
        X, Y = sym("X"), sym("Y")
        for pa in range(6):
            I, g = geo.build(p, dim, pa)
            lam = sym("lambda0").as_atom()
            rows = geo.panel_map(I, g)
            rows = [A.subst(r, {lam: Expr.const(0)}) for r in rows]
            if dim == 3:
                pass
            mat = []
            for r in rows:
                c1 = A.subst(r, {X.as_atom(): Expr.const(0), Y.as_atom(): Expr.const(0)})
                cx = A.diff(r, X.as_atom())
                cy = A.diff(r, Y.as_atom())
                if not A.is_zero(r - c1 - cx * X - cy * Y):
                    raise AnalysisError(f"panel {pa}: position is not the gnomonic projection of a plane: {r}")
                mat.append([c1, cx, cy])
            self.rows[pa] = mat
        rad = None
        for pa in range(6):
            for i in range(3):
                for j in range(3):
                    v = self.rows[pa][i][j]
                    if v.t:
                        rad = v if rad is None else rad
        self.mat = {}
        for pa in range(6):
            m = []
            for i in range(3):
                row = []
                for j in range(3):
                    for c in (0, 1, -1):
                        if A.is_zero(self.rows[pa][i][j] - c * rad):
                            row.append(Fraction(c))
                            break
                    else:
                        raise AnalysisError(f"panel {pa}: orientation entry {self.rows[pa][i][j]} is not one of 0, +-radius")
                m.append(row)
            self.mat[pa] = m

    def edge_dir(self, pa, d, t):
        fix, val, run = _EDGE[d]
        xy = {"X": val, "Y": val}
        xy[run] = t
        if fix == "X":
            v = (1, val, t)
        else:
            v = (1, t, val)
        return tuple(sum((self.mat[pa][i][j] * v[j] for j in range(3)), Fraction(0)) for i in range(3))

    def neighbour(self, pa, d):
        """-> (panel, edge, flipped)"""
        ends = self.edge_dir(pa, d, Fraction(-1)), self.edge_dir(pa, d, Fraction(1))
        hits = []
        for q in range(6):
            if q == pa:
                continue
            for e in range(4):
                oth = self.edge_dir(q, e, Fraction(-1)), self.edge_dir(q, e, Fraction(1))
                if oth == ends:
                    hits.append((q, e, False))
                elif oth == ends[::-1]:
                    hits.append((q, e, True))
        if len(hits) != 1:
            return None
        return hits[0]

    def contra_matrix(self, pa, d, q, e, flipped, z):
        """2x2 matrix M(z): contravariant components (d/dx1, d/dx2) on panel pa -> on panel q at the edge
        point with edge coordinate z (= tan of the angular coordinate along pa's edge)"""
        zq = -z if flipped else z
        def pt(panel, edge, zz):
            fix, val, run = _EDGE[edge]
            return (zz, A.to_expr(val)) if fix == "Y" else (A.to_expr(val), zz)
        def basis(panel, X, Y):
            m = self.mat[panel]
            d0 = [m[i][0] + m[i][1] * X + m[i][2] * Y for i in range(3)]
            r2 = 1 + X * X + Y * Y
            # r = d/sqrt(r2); dr/dX * r2^{3/2} = dX*r2 - d*X ; dX/dx1 = 1+X^2
            bx = [(1 + X * X) * (m[i][1] * r2 - d0[i] * X) for i in range(3)]
            by = [(1 + Y * Y) * (m[i][2] * r2 - d0[i] * Y) for i in range(3)]
            return bx, by
        X, Y = pt(pa, d, z)
        bx, by = basis(pa, X, Y)
        Xq, Yq = pt(q, e, zq)
        cx, cy = basis(q, Xq, Yq)
        # same point, same r2 -> solve [cx cy] M = [bx by] with normal equations
        dot = lambda u, v: sum((a * b for a, b in zip(u, v)), Expr.const(0))
        g11, g12, g22 = dot(cx, cx), dot(cx, cy), dot(cy, cy)
        det = g11 * g22 - g12 * g12
        M = [[None, None], [None, None]]
        for k, b in enumerate((bx, by)):
            p1, p2 = dot(cx, b), dot(cy, b)
            M[0][k] = (g22 * p1 - g12 * p2) / det
            M[1][k] = (g11 * p2 - g12 * p1) / det
        return M
