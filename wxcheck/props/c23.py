"""C23: matrix-free products are the derivative of the right-hand side."""
from __future__ import annotations

import ast

from .. import bseries
from ..bseries import BV, S, Inconsistent, Prec, Y, as_bv, rhs_of, show
from ..interp import ClassRef, Func, Hook, Obj, RaiseOutcome, Unsupported
from ..project import AnalysisError, loc, qualname
from . import c08

Z = ("Z", ())


def jv(label, t=Z):
    return (label, (t,))


def run(p, rep, tier):
    rep.explanation = ("Each product is interpreted with a symbolic state, a symbolic direction and a right-hand side given by its Taylor expansion; the result must be the "
                       "documented multiple of the directional derivative plus terms that vanish with the differencing increment.")
    r1 = rep.rule("derivative", "the product equals the documented combination of v and dt*F'(Q)v, plus terms of positive order in the increment", 6)
    r2 = rep.rule("zero", "the product with the zero vector is zero", 1)
    r3 = rep.rule("pairing", "the reference value handed to a product is the right-hand side of the handle it is paired with, at the same state", 6)
    bseries.Prec.P, bseries.Prec.E = 2, 3
    old = bseries.INC
    bseries.INC = 2e-3
    try:
        _run(p, rep, r1, r2)
    finally:
        bseries.INC = old
    pairing(p, rep, r3)


def _run(p, rep, r1, r2):
    h = S({(1, 0): 1.0})

    def setup():
        s = c08.Setup(p, False)
        I = s.I
        I.hooks["global_norm"] = lambda I, a, k, n: 0.8274651 if as_bv(a[0]) is None or as_bv(a[0]).t else 0.0
        I.hooks["global_inf_norm"] = lambda I, a, k, n: 1.3782913
        I.hooks["scipy.sparse.linalg.aslinearoperator"] = lambda I, a, k, n: a[0]
        calls = []
        for m in ("numpy", "cupy", "xp"):
            I.hooks[f"{m}.finfo"] = lambda I, a, k, n: Obj(None, "finfo", {"eps": S({(0, 2): 1.0}), "resolution": S({(0, 2): 4.5})})

        def rhs(I, a, k, n):
            b = as_bv(a[0])
            if b is None:
                raise Unsupported(f"right-hand side evaluated at {a[0]!r}")
            calls.append(b)
            z = b.coef(Z).real()
            if z.t and min(k[1] for k in z.t) >= 2:
                raise Inconsistent("a finite difference uses an increment of the size of the rounding error, so the difference is lost in cancellation")
            return rhs_of("F", b)
        return s, I, Hook("rhs", rhs), calls

    def expect(label, where, fn, want):
        try:
            r = fn()
        except RaiseOutcome as e:
            rep.bad(r1, label, f"raises {e.val!r}", where)
            return
        except Inconsistent as e:
            rep.bad(r1, label, e.msg, where)
            return
        b = as_bv(r)
        if b is None:
            raise Unsupported(f"{label} returned {r!r}")
        d = b.add(want, -1)
        bad = [(show(t), s) for t, s in d.t.items() if any(k[1] <= 0 and abs(v) > 1e-7 for k, v in s.t.items())]
        rep.check(not bad, r1, label, "differs from the documented product by " + ", ".join(f"{s!r}*{t}" for t, s in bad[:4]), where)

    Q = lambda: BV({Y: S.const(1)})  # noqa: E731
    v = lambda: BV({Z: S.const(1)})  # noqa: E731
    dtJ = BV({jv("F"): h})
    rat = BV({Z: S.const(1), jv("F"): h.scale(-0.5)})
    m, f = p.find_function("matvec_fun")
    methods = [x for x in c08.selectables(p, "jacobian_method")] or ["complex", "fd"]
    for meth in methods:
        def go(meth=meth):
            s, I, rhs, _ = setup()
            return I.call_func(Func(m, f), [v(), h, Q(), rhs_of("F", Q()), rhs, meth], {}, None)
        expect(f"matvec_fun({meth})", loc(f), go, dtJ)

    def go():
        s, I, rhs, _ = setup()
        return I.call_func(Func(m, f), [v(), h, Q(), rhs_of("F", Q()), rhs], {}, None)
    expect("matvec_fun(default)", loc(f), go, dtJ)
    m2, f2 = p.find_function("matvec_rat")

    def go():
        s, I, rhs, _ = setup()
        return I.call_func(Func(m2, f2), [v(), h, Q(), rhs_of("F", Q()), rhs], {}, None)
    expect("matvec_rat", loc(f2), go, rat)
    for cn, want in (("MatvecOpBasic", dtJ), ("MatvecOpRat", rat)):
        mc, c = p.find_class(cn)

        def go(mc=mc, c=c):
            s, I, rhs, _ = setup()
            o = I.call(ClassRef(mc, c), [h, Q(), rhs_of("F", Q()), rhs], {}, None)
            r = I.call(o, [v()], {}, None)
            rep.analysed.update(I.analysed)
            return r
        expect(cn, loc(c), go, want)
    mk, ck = p.find_class("KrylovJacobian")
    for upd in (False, True):
        def go(upd=upd):
            s, I, rhs, _ = setup()
            x = Q()
            other = Q().add(BV({jv("W"): h}))
            a = other if upd else x
            o = I.call(ClassRef(mk, ck), [a, rhs_of("F", a), rhs, 20, 50, None], {}, None)
            if upd:
                I.call(I.getattr_(o, "update", None), [x, rhs_of("F", x)], {}, None)
            r = I.call(I.getattr_(o, "matvec", None), [v()], {}, None)
            rep.analysed.update(I.analysed)
            return r
        expect("KrylovJacobian.matvec" + (" after update" if upd else ""), loc(ck), go, BV({jv("F"): S.const(1)}))
    # zero direction
    s, I, rhs, calls = setup()
    o = I.call(ClassRef(mk, ck), [Q(), rhs_of("F", Q()), rhs, 20, 50, None], {}, None)
    r = I.call(I.getattr_(o, "matvec", None), [BV()], {}, None)
    b = as_bv(r)
    rep.check(b is not None and not b.t, r2, "KrylovJacobian.matvec(0)", f"returns {r!r}", loc(ck))
    rep.analysed.update(I.analysed)


def pairing(p, rep, r3):
    """call sites: matvec_*(v, dt, Q, rhs, handle): rhs = handle(Q)"""
    for mm in p.modules.values():
        for c in [x for x in ast.walk(mm.tree) if isinstance(x, ast.Call)]:
            name = ast.unparse(c.func).split(".")[-1]
            args, kws = list(c.args), {k.arg: k.value for k in c.keywords}
            if name == "partial" and args and ast.unparse(args[0]).split(".")[-1] in ("matvec_fun", "matvec_rat"):
                args = [None] + args[1:]
            elif name not in ("matvec_fun", "matvec_rat"):
                continue
            pos = dict(zip(("vec", "dt", "Q", "rhs", "rhs_handle"), args))
            pos.update(kws)
            if not {"Q", "rhs", "rhs_handle"} <= set(pos):
                continue  # definitions with other arities are dead code in this tree
            where = f"{qualname(c)}:{name}"
            q, r, hd = ast.unparse(pos["Q"]), pos["rhs"], ast.unparse(pos["rhs_handle"])
            ok, why = check_pair(c, r, hd, q)
            rep.check(ok, r3, f"{where}({hd})", why, loc(c))


def scopes(c):
    out = []
    n = c
    while n is not None:
        n = getattr(n, "parent", None)
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            out.append(n)
    return out


def defs_of(expr, c):
    txt = ast.unparse(expr)
    out = []
    for sc in scopes(c):
        if isinstance(sc, ast.ClassDef) and not txt.startswith("self."):
            continue
        for s in ast.walk(sc):
            if isinstance(s, ast.Assign):
                for t in s.targets:
                    if ast.unparse(t) == txt:
                        out.append(s.value)
            elif isinstance(s, (ast.AnnAssign, ast.NamedExpr)) and s.value is not None and ast.unparse(s.target) == txt:
                out.append(s.value)
        if out:
            break
    return out


def strip(e):
    while True:
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ("flatten", "ravel", "copy", "reshape"):
            e = e.func.value
        elif isinstance(e, ast.Call) and ast.unparse(e.func).split(".")[-1] in ("ravel", "reshape", "asarray", "copy") and e.args:
            e = e.args[0]
        else:
            return e


def roots(e, c, depth=4):
    """texts of the expressions a name may stand for (copies only)"""
    e = strip(e)
    out = {ast.unparse(e)}
    if depth and isinstance(e, (ast.Name, ast.Attribute)):
        for d in defs_of(e, c):
            d = strip(d)
            if isinstance(d, (ast.Name, ast.Attribute)):
                out |= roots(d, c, depth - 1)
    return out


def check_pair(c, r, hd, q):
    r = strip(r)
    ds = [r] if isinstance(r, ast.Call) else [strip(x) for x in defs_of(r, c)]
    if not ds:
        return True, ""  # a parameter: judged at the caller
    hroots = roots(ast.parse(hd, mode="eval").body, c)
    qroots = roots(ast.parse(q, mode="eval").body, c)
    why = ""
    for d in ds:
        if not isinstance(d, ast.Call) or not d.args or len(d.args) != 1:
            return True, ""  # computed by a helper: not judged here
        fr, qr = roots(d.func, c), roots(d.args[0], c)
        fine_f = bool(fr & hroots) or not handle_like(fr) or not handle_like(hroots)
        fine_q = bool(qr & qroots) or not (atomic(d.args[0], c) and atomic(ast.parse(q, mode="eval").body, c))
        if fine_f and fine_q:
            return True, ""
        why = f"the reference value is {ast.unparse(d)}, not {hd}({q})"
    return False, why


def handle_like(texts):
    return any(t.split(".")[-1].startswith("rhs") or t.split(".")[-1] in ("full", "implicit", "explicit", "convective", "viscous") for t in texts)


def atomic(e, c):
    """a name that stands for a parameter, an attribute set from one, or a copy of one"""
    e = strip(e)
    if not isinstance(e, (ast.Name, ast.Attribute)):
        return False
    ds = [strip(d) for d in defs_of(e, c)]
    return all(isinstance(d, (ast.Name, ast.Attribute)) for d in ds)
