"""C02: vector components across panel edges."""
from __future__ import annotations

from .. import algebra as A
from .. import geo
from .. import topo as T
from ..algebra import sym
from ..interp import Func
from ..project import AnalysisError, loc


def run(p, rep, tier):
    rep.explanation = (
        "The conversion functions a tile installs for its four edges are extracted by abstract interpretation of ProcessTopology.__init__ "
        "(every panel, every tile class, all n) and applied to symbolic components and a symbolic edge coordinate; the resulting linear maps "
        "are compared, as rational functions, with the change of basis derived from the point positions computed by the geometry constructors.")
    rep.assumptions += ["components refer to the angular coordinates x1, x2; positions are those of the zero-rotation grid (a rotation is rigid, see C13)"]
    r1 = rep.rule("contravariant", "the converted contravariant components denote the same tangent vector in the neighbour's basis", 300)
    r2 = rep.rule("covariant", "the converted covariant components are the inverse transpose change of basis", 300)
    r3 = rep.rule("edge-coordinate", "the edge coordinate handed to the conversions is the tangent of the angular coordinate along the edge", 4)
    G = T.PanelGeometry(p)
    a1, a2, z = sym("a1"), sym("a2"), sym("z")
    cache = {}
    for t in T.tile_classes():
        I, o, log = T.build(p, t)
        rep.analysed |= I.analysed
        n, r, c = A.to_expr(t.n), A.to_expr(t.row), A.to_expr(t.col)
        for d in range(4):
            edge = A.is_zero({T.S: r, T.NO: r - (n - 1), T.W: c, T.E: c - (n - 1)}[d])
            if edge:
                if (t.panel, d) not in cache:
                    nb = G.neighbour(t.panel, d)
                    if nb is None:
                        raise AnalysisError(f"panel {t.panel}: no unique geometric neighbour across {T.NAMES[d]}")
                    cache[t.panel, d] = G.contra_matrix(t.panel, d, *nb, z)
                M = cache[t.panel, d]
            else:
                M = [[A.to_expr(1), A.to_expr(0)], [A.to_expr(0), A.to_expr(1)]]
            det = M[0][0] * M[1][1] - M[0][1] * M[1][0]
            want_c = (M[0][0] * a1 + M[0][1] * a2, M[1][0] * a1 + M[1][1] * a2)
            # inverse transpose
            want_k = ((M[1][1] * a1 - M[1][0] * a2) / det, (M[0][0] * a2 - M[0][1] * a1) / det)
            for rid, attr, want in ((r1, "convert_contra", want_c), (r2, "convert_cov", want_k)):
                f = I.getitem(o.attrs[attr], d, None)
                got = I.call(f, [a1, a2, z], {}, None)
                cons = f"{attr}: {t.label}, {T.NAMES[d]} edge"
                node = getattr(f, "node", None)
                if not isinstance(got, (tuple, list)) or len(got) != 2:
                    raise AnalysisError(f"{cons}: conversion returns {got!r}")
                good = all(A.is_zero(I.as_expr(x) - w) for x, w in zip(got, want))
                rep.check(good, rid, cons, f"({got[0]}, {got[1]}) is not the change of basis to the neighbouring panel", loc(node) if node is not None else "")
    for dim in (2, 3):
        I, g = geo.build(p, dim, 0)
        m = geo.xy_subst(I, g)
        for attr, s in (("boundary_sn", "X"), ("boundary_we", "Y"), ("boundary_sn_new", "X"), ("boundary_we_new", "Y")):
            if attr not in g.attrs:
                if attr.endswith("_new"):
                    continue
                raise AnalysisError(f"anchor vanished: geometry attribute {attr}")
            e, idx = strip_index(I.as_expr(g.attrs[attr]))
            e = A.subst(e, m)
            # the coordinate must vary along the edge: a fixed row for X, a fixed column for Y
            varies = all(edge_axis(i, s) for i in idx)
            if not varies:
                rep.bad(r3, f"CubedSphere{dim}D.{attr}", f"taken along the wrong axis ({sorted(idx)})")
                continue
            rep.check(A.is_zero(e - sym(s)), r3, f"CubedSphere{dim}D.{attr}", f"is {str(e)[:120]}, expected tan of the coordinate along the edge")


def strip_index(e):
    m, idx = {}, set()
    for a in e.atoms(True):
        if a.kind == "fld" and "[" in a.args[0]:
            base, _, rest = a.args[0].rpartition("[")
            m[a] = A.Expr.of_atom(A.atom("fld", base))
            idx.add("[" + rest)
    return (A.subst(e, m) if m else e), idx


def edge_axis(i, s):
    """is the index taken along the second (X) / first (Y) axis of a 2-D block"""
    parts = i.strip("[]").split(",")
    if "[" in i[1:] or len(parts) != 2:
        return True  # not a plain row / column selection: no claim about the axis
    full = [x.strip() == ":" for x in parts]
    return full == ([False, True] if s == "X" else [True, False])
