"""C24: angles stored in 24 bits."""
from __future__ import annotations

import ast
import json
import math
import os

from .. import algebra as A
from ..algebra import Expr
from ..interp import AbsVal, ClassRef, ExtRef, Func, Hook, Interp, MISSING, Obj, Opaque, RaiseOutcome, Unsupported
from ..project import AnalysisError, loc

N = 1 << 24
STEP = 2 * math.pi / N
TOL = 1e-9


def close(a, b):
    return abs(a - b) <= TOL * max(1.0, abs(a), abs(b))


def num(x):
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, (int, float)):
        return x
    if isinstance(x, ExtRef) and x.dotted in ("math.pi", "numpy.pi"):
        return math.pi
    if type(x).__name__ == "Fraction":
        return float(x)
    if isinstance(x, Expr):
        try:
            v = 0.0
            for m, c in x.t.items():
                f = float(c)
                for a, e in m:
                    if A.Expr({((a, 1),): 1}) == A.PI or repr(a) in ("pi", "PI"):
                        f *= math.pi ** float(e)
                    else:
                        return None
                v += f
            return v
        except Exception:  # noqa: BLE001
            return None
    return None


class Split(Exception):
    """a comparison divides the range of the input at this value of x"""

    def __init__(self, x):
        self.x = x


class V(AbsVal):
    """scale*base + off (+ k*mod, k unknown integer), up to err, in the range lo..hi; base real or integer"""

    def __init__(self, scale, off, lo, hi, hi_open, err=0.0, mod=None, isint=False, intbase=False, pyint=False, lo_open=False):
        self.lo_open = lo_open
        self.scale, self.off, self.lo, self.hi, self.hi_open = scale, off, lo, hi, hi_open
        self.err, self.mod, self.isint, self.intbase, self.pyint = err, mod, isint, intbase, pyint

    py_types = ("float",)

    def __repr__(self):
        return f"V({self.scale:.6g}*x+{self.off:.6g} mod {self.mod} err {self.err:.3g} in [{self.lo:.6g},{self.hi:.6g}{')' if self.hi_open else ']'})"

    def _c(self, **k):
        d = dict(scale=self.scale, off=self.off, lo=self.lo, hi=self.hi, hi_open=self.hi_open, err=self.err, mod=self.mod, isint=self.isint, intbase=self.intbase, pyint=self.pyint, lo_open=self.lo_open)
        d.update(k)
        return V(**d)

    def affine(self, s, c):
        if s == 0:
            raise Unsupported("angle multiplied by zero")
        lo, hi, lo_o, ho = self.lo * s + c, self.hi * s + c, self.lo_open, self.hi_open
        if s < 0:
            lo, hi, lo_o, ho = hi, lo, ho, lo_o
        integer = self.isint and float(s).is_integer() and float(c).is_integer()
        return self._c(scale=self.scale * s, off=self.off * s + c, lo=lo, hi=hi, lo_open=lo_o, hi_open=ho, err=self.err * abs(s), mod=self.mod * abs(s) if self.mod else None, isint=integer, pyint=self.pyint and integer)

    def exact_int(self):
        if self.isint:
            return True
        return self.intbase and self.err == 0 and close(self.scale, round(self.scale)) and round(self.scale) != 0 and close(self.off, round(self.off)) and (self.mod is None or close(self.mod, round(self.mod)))

    def snapped(self):
        return self._c(scale=float(round(self.scale)), off=float(round(self.off)), mod=float(round(self.mod)) if self.mod else None, lo=float(round(self.lo)), hi=float(round(self.hi)), isint=True, pyint=True) if not self.isint else self

    def rounded(self, how):
        if self.exact_int():
            return self.snapped()
        if self.intbase and self.err == 0 and close(self.scale, round(self.scale)) and round(self.scale) != 0 and (self.mod is None or close(self.mod, round(self.mod))):
            fr = self.off - math.floor(self.off)
            if 0.01 < fr < 0.99 and not (how == "round" and 0.49 < fr < 0.51) and not (how == "trunc" and self.lo < 0):
                g = {"round": round, "floor": math.floor, "ceil": math.ceil, "trunc": math.floor}[how]
                d = g(self.off) - self.off
                return self.affine(1.0, d)._c(off=float(g(self.off)), lo=rnd(self.lo + d), hi=rnd(self.hi + d), isint=True, pyint=True)
        if how == "round":
            return self._c(err=self.err + 0.5, lo=rnd(self.lo), hi=rnd(self.hi), hi_open=False, lo_open=False, isint=True, pyint=True)
        if how == "floor":
            hi = math.floor(self.hi + TOL)
            if self.hi_open and close(self.hi, hi):
                hi -= 1
            return self._c(off=self.off - 0.5, err=self.err + 0.5, lo=float(math.floor(self.lo + TOL)), hi=float(hi), hi_open=False, lo_open=False, isint=True, pyint=True)
        if how == "ceil":
            return self._c(off=self.off + 0.5, err=self.err + 0.5, lo=float(math.ceil(self.lo - TOL)), hi=float(math.ceil(self.hi - TOL)), hi_open=False, lo_open=False, isint=True, pyint=True)
        if self.lo >= -TOL:
            return self.rounded("floor")
        return self._c(err=self.err + 1.0, lo=float(math.trunc(self.lo)), hi=float(math.trunc(self.hi)), hi_open=False, lo_open=False, isint=True, pyint=True)

    def modulo(self, m):
        v = self
        if v.lo >= -TOL and (v.hi < m - TOL or (close(v.hi, m) and v.hi_open)):
            return v
        if v.mod is not None and not close(v.mod / m, round(v.mod / m)):
            raise Unsupported("nested reductions with incommensurate periods")
        if v.isint and float(m).is_integer():
            return v._c(mod=float(m), lo=0.0, hi=float(m - 1), hi_open=False, lo_open=False)
        return v._c(mod=float(m), lo=0.0, hi=float(m), hi_open=True, lo_open=False, isint=False, pyint=False)

    def a_binop(self, I, op, other, swapped, node):
        if isinstance(other, V):
            if op == "Sub" and not swapped and isinstance(other, V):
                pass
            raise Unsupported("operation between two angles")
        c = num(other)
        if c is None:
            return Opaque((op, repr(self), I.keyof(other)))
        if op == "Add":
            return self.affine(1.0, c)
        if op == "Sub":
            return self.affine(-1.0, c) if swapped else self.affine(1.0, -c)
        if op == "Mult":
            return self.affine(c, 0.0)
        if op == "Div" and not swapped:
            return self.affine(1.0 / c, 0.0)._c(isint=False, pyint=False)
        if op == "Mod" and not swapped and c > 0:
            return self.modulo(c)
        if op == "BitAnd" and isinstance(c, int) and c > 0 and (c & (c + 1)) == 0:
            v = self.snapped() if self.exact_int() and self.pyint else self
            if not v.isint:
                raise RaiseOutcome(ExtRef("builtins.TypeError"), node)
            return v.modulo(c + 1)
        if op == "BitXor" and isinstance(c, int) and self.isint and c > 0 and (c & (c - 1)) == 0 and self.lo >= 0 and self.hi <= 2 * c - 1:
            return self.affine(1.0, c).modulo(2 * c)
        if op == "FloorDiv" and not swapped:
            return self.affine(1.0 / c, 0.0).rounded("floor")
        if op == "LShift" and not swapped:
            return self.affine(2.0 ** c, 0.0)
        return Opaque((op, repr(self), repr(c)))

    def a_compare(self, I, op, other, swapped, node):
        if op in ("Is", "IsNot"):
            return op == "IsNot"
        c = num(other)
        if c is None:
            return MISSING
        if swapped:
            op = {"Lt": "Gt", "Gt": "Lt", "LtE": "GtE", "GtE": "LtE"}.get(op, op)
        tol = TOL * max(1.0, abs(c))
        lo_eq, hi_eq = abs(self.lo - c) <= tol, abs(self.hi - c) <= tol
        below = (self.hi < c and not hi_eq) or (hi_eq and self.hi_open)
        below_eq = self.hi < c or hi_eq
        above_eq = self.lo > c or lo_eq
        above = (self.lo > c and not lo_eq) or (lo_eq and self.lo_open)
        tab = {"Lt": (below, above_eq), "LtE": (below_eq, above), "Gt": (above, below_eq), "GtE": (above_eq, below)}
        if op not in tab:
            return MISSING
        t, f = tab[op]
        if t:
            return True
        if f:
            return False
        if self.err or self.mod is not None:
            raise Unsupported(f"comparison {op} {c} of {self!r} is not uniform at {loc(node)}")
        raise Split((c - self.off) / self.scale)

    def a_attr(self, I, attr, node):
        return Opaque((repr(self), attr))

    def a_truth(self, I):
        return None


def rnd(x):
    return float(round(x))


def hooks():
    def r(how):
        def h(I, a, k, n):
            if isinstance(a[0], V):
                if how == "round" and len(a) > 1:
                    raise Unsupported("round with digits")
                return a[0].rounded(how)
            c = num(a[0])
            if c is None:
                return Opaque((how, I.keyof(a[0])))
            return int({"round": round, "floor": math.floor, "ceil": math.ceil, "trunc": math.trunc}[how](c))
        return h
    h = {}
    for m in ("math", "numpy"):
        for f in ("floor", "ceil", "trunc"):
            h[f"{m}.{f}"] = r(f)
    for nme in ("round", "rint", "around"):
        h[f"numpy.{nme}"] = r("round")

    def fmod(I, a, k, n):
        c = num(a[1])
        if isinstance(a[0], V) and a[0].lo >= 0:
            return a[0].modulo(c)
        if isinstance(a[0], V):
            v = a[0]
            if abs(v.lo) <= c and abs(v.hi) <= c:
                return v
            return v._c(mod=float(c), lo=-c, hi=c, hi_open=True, lo_open=True)
        return math.fmod(num(a[0]), c)
    h["math.fmod"] = h["numpy.fmod"] = fmod
    h["numpy.mod"] = h["numpy.remainder"] = lambda I, a, k, n: I.binop("Mod", a[0], a[1], n)

    def remainder(I, a, k, n):
        c = num(a[1])
        v = a[0]
        if v.lo >= -c / 2 and v.hi <= c / 2:
            return v
        return v._c(mod=float(c), lo=-c / 2, hi=c / 2, hi_open=False, lo_open=False)
    h["math.remainder"] = remainder
    return h, r


def setup(p):
    h, r = hooks()
    I = Interp(p, h)
    ident = Hook("float", lambda I, a, k, n: a[0]._c(pyint=False) if isinstance(a[0], V) else (float(num(a[0])) if num(a[0]) is not None else Opaque(("float", I.keyof(a[0])))))
    for m in p.modules.values():
        I.modvars[(m.name, "round")] = Hook("round", r("round"))
        I.modvars[(m.name, "int")] = Hook("int", r("trunc"))
        I.modvars[(m.name, "float")] = ident
    return I


def run(p, rep, tier):
    rep.explanation = ("encode and decode are interpreted on a symbolic angle x in [-pi, pi[ shifted by a number of full turns, in a domain of affine forms with range, period and rounding error.")
    r1 = rep.rule("encode-range", "an encoded angle is an integer in 0 .. 2^24-1", 9)
    r2 = rep.rule("decode-range", "a decoded value lies in [-pi, pi[", 2)
    r3 = rep.rule("round-trip", "decode(encode(x)) is x modulo a full turn, within half a storage step", 9)
    r4 = rep.rule("idempotent", "encode(decode(u)) = u for every 24-bit u, and higher bits are dropped", 2)
    r5 = rep.rule("type", "the configuration type of the grid rotation stores decode(encode(x)), and the schema uses it for all three angles", 4)
    m, enc = find(p, "encode")
    _, dec = find(p, "decode")
    turns = range(-4, 5)
    two_pi = 2 * math.pi

    def call(f, v):
        I = setup(p)
        r = I.call_func(Func(m, f), [v], {}, None)
        rep.analysed.update(I.analysed)
        return r

    def pieces(v, fn, depth=0):
        """fn on v, splitting the input range where a comparison divides it"""
        try:
            return [(v, fn(v))]
        except Split as s:
            if depth > 12:
                raise Unsupported("too many case distinctions on the input angle")
            x = s.x * v.scale + v.off
            tol = TOL * max(1.0, abs(x))
            parts = []
            if v.lo < x - tol:
                parts.append(v._c(hi=x, hi_open=True))
            if not (abs(v.lo - x) <= tol and v.lo_open) and not (abs(v.hi - x) <= tol and v.hi_open):
                parts.append(v._c(lo=x, hi=x, lo_open=False, hi_open=False))
            if v.hi > x + tol:
                parts.append(v._c(lo=x, lo_open=True))
            if len(parts) < 2:
                raise Unsupported("a comparison does not divide the range")
            out = []
            for q in parts:
                out += pieces(q, fn, depth + 1)
            return out

    def angle(k):
        return V(1.0, k * two_pi, (2 * k - 1) * math.pi, (2 * k + 1) * math.pi, True)
    def both(v):
        try:
            e = call(enc, v)
        except RaiseOutcome as ex:
            return ("raise", ex.val), None
        if num(e) is not None:
            if v.lo == v.hi:
                return V(1.0, num(e) - v.lo, num(e), num(e), False, isint=float(num(e)).is_integer()), call(dec, V(1.0, num(e) - v.lo, num(e), num(e), False, isint=True))
            return ("raise", f"nothing: all these angles become {num(e)}"), None
        if not isinstance(e, V):
            raise Unsupported(f"encode returned {e!r}")
        try:
            return e, call(dec, e)
        except RaiseOutcome as ex:
            return e, ("raise", ex.val)
    for k in turns:
        for v, (e, d) in pieces(angle(k), both):
            lab = f"angle in {v.lo / math.pi:.6g} pi .. {v.hi / math.pi:.6g} pi"
            if isinstance(e, tuple):
                rep.bad(r1, lab, f"encode raises {e[1]}", loc(enc))
                continue
            rep.check(e.isint and e.lo >= 0 and e.hi <= N - 1, r1, lab, f"encode gives {e!r}", loc(enc))
            if isinstance(d, tuple):
                rep.bad(r3, lab, f"decode raises {d[1]!r}", loc(dec))
                continue
            if not isinstance(d, V):
                raise Unsupported(f"decode returned {d!r}")
            off = d.off / two_pi
            good = close(d.scale, 1.0) and abs(off - round(off)) < 1e-8 and (d.mod is None or close(d.mod, two_pi)) and d.err <= STEP / 2 * (1 + 1e-6)
            rep.check(good, r3, lab, f"decode(encode(x)) = {d!r}: not x modulo 2 pi within half a step ({STEP / 2:.3g})", loc(dec))
            if k == 0:
                rep.check(d.lo >= -math.pi - 1e-9 and d.hi < math.pi - STEP * 0.4, r2, f"decode(encode(x)), {lab}", f"range {d!r}", loc(dec))
    u = V(1.0, 0.0, 0.0, float(N - 1), False, isint=True, intbase=True, pyint=True)
    d = call(dec, u)
    if not isinstance(d, V):
        raise Unsupported(f"decode returned {d!r}")
    rep.check(d.lo >= -math.pi - 1e-9 and d.hi < math.pi - STEP * 0.4 and close(d.scale, STEP), r2, "decode(u)", f"range {d!r}", loc(dec))
    for _, e in pieces(u, lambda x: call(enc, call(dec, x))):
        rep.check(isinstance(e, V) and e.isint and e.err == 0 and close(e.scale, 1.0) and e.off % N == 0, r4, "encode(decode(u))", f"is {e!r}", loc(enc))
    u2 = V(1.0, float(N), float(N), float(2 * N - 1), False, isint=True, intbase=True, pyint=True)
    d2 = call(dec, u2)
    rep.check(isinstance(d2, V) and close(d2.scale, d.scale) and d2.lo >= -math.pi - 1e-9 and d2.hi < math.pi, r4, "decode(u + 2^24)", f"is {d2!r}, range must be that of a 24-bit value", loc(dec))
    # the configuration type
    mc, c = p.find_class("angle24")
    rr = p.find_method(mc, c, "__new__")
    if rr is None:
        raise AnalysisError("anchor vanished: angle24.__new__")
    I = setup(p)
    got = []
    for fh in [v for (mm, nm), v in I.modvars.items() if nm == "float"]:
        fh.attrs = {"__new__": Hook("float.__new__", lambda I, a, k, n: a[-1])}
    I.super_ext = lambda I, attr, a, k, n: (got.append(a[-1]), a[-1])[1]
    for _, v in pieces(angle(0), lambda a: I.call_func(Func(rr[0], rr[2], cls=(rr[0], rr[1])), [ClassRef(mc, c), a], {}, None)):
        if not isinstance(v, V):
            raise Unsupported(f"angle24.__new__ returned {v!r}")
        rep.check(close(v.scale, 1.0) and 0 < v.err <= STEP / 2 * (1 + 1e-6) and v.hi < math.pi - STEP * .4, r5, "angle24(x)", f"stores {v!r} instead of decode(encode(x))", loc(rr[2]))
    rep.analysed.update(I.analysed)
    path = os.path.join(p.repo, "config", "config-format.json")
    found = {}

    def walk(x):
        if isinstance(x, dict):
            if x.get("name") in ("lambda0", "phi0", "alpha0") and "type" in x:
                found[x["name"]] = x["type"]
            for y in x.values():
                walk(y)
        elif isinstance(x, list):
            for y in x:
                walk(y)
    walk(json.load(open(path)))
    ms, cs = p.find_class("ConfigurationSchema")
    table = {}
    for d_ in [x for x in ast.walk(cs) if isinstance(x, ast.Dict)]:
        for k, v in zip(d_.keys, d_.values):
            if isinstance(k, ast.Constant) and isinstance(k.value, str):
                table[k.value] = v
    for nm in ("lambda0", "phi0", "alpha0"):
        t = found.get(nm)
        tv = table.get(t)
        res = p.resolve(ms.name, tv.id) if isinstance(tv, ast.Name) else None
        ok = res is not None and res[0] == "class" and res[2] is c
        rep.check(ok, r5, nm, f"is declared as {t!r}, which is parsed by {ast.unparse(tv) if tv is not None else None}", "config/config-format.json")


def find(p, name):
    for m in p.modules.values():
        if m.name.endswith("angle24") and name in m.functions:
            return m, m.functions[name]
    raise AnalysisError(f"anchor vanished: angle24.{name}")
