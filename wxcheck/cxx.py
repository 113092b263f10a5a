"""Abstract interpretation of the native sources.

clang parses the sources against declaration-only stand-ins of the standard library and of pybind11
(cxxstub/) and prints the type-checked, instantiated syntax tree.  Integers, pointers and structures are
tracked exactly; floating point values are terms of the constant-folding domain `hp`.
"""
from __future__ import annotations

import json
import os
import re
import subprocess
from fractions import Fraction

import mpmath as mp

from . import algebra as A
from .project import AnalysisError

HERE = os.path.dirname(os.path.abspath(__file__))
FLAGS = ["-std=c++17", "-fsyntax-only", "-nostdinc++", "-w", "-I" + os.path.join(HERE, "cxxstub"), "-include", "complex", "-include", "limits"]


class CxxError(Exception):
    """undefined behaviour reached: out-of-range access, read of an unset value ..."""


class Cell:
    __slots__ = ("v", "tag")

    def __init__(self, v=None, tag=None):
        self.v = v
        self.tag = tag


class Ptr:
    def __init__(self, seq, off=0):
        self.seq = seq
        self.off = off

    def cell(self):
        if self.seq is None:
            raise CxxError("null pointer dereferenced")
        if not 0 <= self.off < len(self.seq):
            raise CxxError(f"access at offset {self.off} of an array of {len(self.seq)}")
        return self.seq[self.off]


NULL = Ptr(None, 0)


class CObj:
    def __init__(self, cls):
        self.cls = cls
        self.f = {}

    def copy(self):
        o = CObj(self.cls)
        o.f = {k: Cell(cp(c.v)) for k, c in self.f.items()}
        return o


class Buf:
    """an array handed in through the bindings"""

    def __init__(self, name, values):
        self.name = name
        self.cells = [Cell(v, (name, i)) for i, v in enumerate(values)]

    def values(self):
        return [c.v for c in self.cells]


def cp(v):
    if isinstance(v, CObj):
        return v.copy()
    if isinstance(v, list):
        return [Cell(cp(c.v)) for c in v]
    return v


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Brk(Exception):
    pass


class Cont(Exception):
    pass


def norm(t):
    t = t.replace("std::", "").replace("struct ", "").replace("class ", "")
    return re.sub(r"\s+", " ", t).strip()


def targs(t):
    """name and arguments of a template type"""
    t = norm(t)
    t = re.sub(r"^const ", "", t).rstrip("&* ")
    m = re.match(r"^([\w:]+)<(.*)>$", t)
    if not m:
        return t, []
    out, depth, cur = [], 0, ""
    for ch in m.group(2):
        if ch == "<":
            depth += 1
        elif ch == ">":
            depth -= 1
        if ch == "," and depth == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    return m.group(1), out + [cur.strip()]


class Unit:
    def __init__(self, path, flags=()):
        r = subprocess.run(["clang++", *FLAGS, *flags, "-Xclang", "-ast-dump=json", os.path.basename(path)], cwd=os.path.dirname(path), capture_output=True, text=True)
        if r.returncode != 0 or not r.stdout:
            raise AnalysisError(f"clang cannot parse {path}: {r.stderr[:400]}")
        self.path = path
        self.tree = json.loads(r.stdout)
        self.decl = {}
        self.classes = []
        self.funcs = {}
        self.globals = {}
        self._index(self.tree, None)

    def _index(self, n, parent):
        k = n.get("kind")
        if k and k.endswith("Decl"):
            old = self.decl.get(n["id"])
            if old is None or ("inner" in n and "inner" not in old):
                self.decl[n["id"]] = n
            if parent is not None and k in ("CXXConstructorDecl", "CXXMethodDecl", "FieldDecl", "CXXConversionDecl"):
                n["_cls"] = parent
            if k in ("ClassTemplateSpecializationDecl", "CXXRecordDecl") and n.get("completeDefinition"):
                self.classes.append(n)
            if k == "FunctionDecl":
                self.funcs.setdefault(n.get("name"), []).append(n)
        for x in n.get("inner", ()) or ():
            self._index(x, n if k in ("ClassTemplateSpecializationDecl", "CXXRecordDecl") else parent if k in ("FunctionTemplateDecl",) else None)

    def function(self, name, *targs_):
        """the instantiation with these template arguments"""
        for f in self.funcs.get(name, ()):
            a = [norm(x.get("type", {}).get("qualType", "")) for x in f.get("inner", ()) if x["kind"] == "TemplateArgument"]
            if a == [norm(t) for t in targs_] and any(x["kind"] == "CompoundStmt" for x in f.get("inner", ())):
                return f
        return None

    def find_class(self, t):
        name, args = targs(t)
        for c in self.classes:
            if c.get("name") != name or c["kind"] == "CXXRecordDecl" and args:
                continue
            mine = [norm(x.get("type", {}).get("qualType", "?")) if "type" in x else str(x.get("value", "?")) for x in c.get("inner", ()) if x["kind"] == "TemplateArgument"]
            if not args and not mine or len(args) == len(mine) and all(m in ("?", a) for m, a in zip(mine, args)):
                return c
        return None


def qt(n):
    t = n.get("type", {})
    return t.get("desugaredQualType") or t.get("qualType", "")


def is_ref(t):
    return t.rstrip().endswith("&")


UNSET = object()
MATH1 = {"sqrt": mp.sqrt, "exp": mp.exp, "log": mp.log, "fabs": abs, "abs": abs, "sin": mp.sin, "cos": mp.cos, "tan": mp.tan, "floor": mp.floor, "ceil": mp.ceil}


def fnum(v):
    """floating point value: 60 digits, decimal constants taken at their written value"""
    if v is None or v is UNSET:
        raise CxxError("value read before it is set")
    if isinstance(v, (int, bool)):
        return mp.mpf(int(v))
    if isinstance(v, Fraction):
        return mp.mpf(v.numerator) / v.denominator
    return v


class Machine:
    def __init__(self, unit: Unit, budget=2_000_000):
        self.u = unit
        self.g = {}
        self.budget = budget
        self.writes = []
        self.depth = 0
        self.functions = set()

    # -- calls -----------------------------------------------------------------
    def call(self, f, args, this=None):
        """args: values (raw) or Cells for reference parameters"""
        f = self.u.decl.get(f["id"], f)
        inner = f.get("inner", ())
        body = next((x for x in inner if x["kind"] == "CompoundStmt"), None)
        if body is None:
            raise AnalysisError(f"no body for {f.get('name')}")
        self.functions.add(f.get("name"))
        self.depth += 1
        if self.depth > 200:
            raise AnalysisError("recursion in native code")
        env = {"this": this}
        params = [x for x in inner if x["kind"] == "ParmVarDecl"]
        for i, p in enumerate(params):
            if i < len(args):
                a = args[i]
            else:
                raise AnalysisError(f"missing argument of {f.get('name')}")
            if is_ref(qt(p)):
                env[p["id"]] = a if isinstance(a, Cell) else Cell(a)
            else:
                env[p["id"]] = Cell(self.conv(cp(a.v if isinstance(a, Cell) else a), qt(p)))
        if f["kind"] == "CXXConstructorDecl":
            for ini in inner:
                if ini["kind"] != "CXXCtorInitializer":
                    continue
                fld = ini.get("anyInit", {})
                v = self.rv(ini["inner"][0], env)
                this.v.f[fld["name"]] = Cell(cp(v))
        try:
            self.stmt(body, env)
            return None
        except Ret as r:
            return r.v
        finally:
            self.depth -= 1

    def conv(self, v, t):
        t = norm(t).replace("const ", "").strip()
        if t in ("double", "float", "long double") and isinstance(v, (int, bool, Fraction)):
            return Fraction(v)
        return v

    def fields(self, cls):
        return [x for x in cls.get("inner", ()) if x["kind"] == "FieldDecl"]

    def default_value(self, t):
        t = norm(t)
        m = re.match(r"^(.*?)\s*\[(\d+)\]$", t)
        if m:
            return [Cell(self.default_value(m.group(1))) for _ in range(int(m.group(2)))]
        c = self.u.find_class(t) if not t.endswith("*") else None
        if c is not None:
            ctor = self.ctor(c, "void ()")
            o = CObj(c)
            self.init_fields(o)
            if ctor is not None and not ctor.get("isImplicit") and any(x["kind"] == "CompoundStmt" for x in ctor.get("inner", ())):
                self.call(ctor, [], Cell(o))
            return o
        return UNSET

    def init_fields(self, o):
        for fd in self.fields(o.cls):
            ini = [x for x in fd.get("inner", ()) if x["kind"] not in ("FullComment",)]
            if fd.get("hasInClassInitializer") and ini:
                try:
                    v = self.rv(ini[0], {"this": Cell(o)})
                except AnalysisError:
                    v = UNSET
            else:
                v = self.default_value(qt(fd))
            o.f[fd["name"]] = Cell(v)

    def ctor(self, cls, sig):
        want = norm(sig).replace(" noexcept", "")
        for x in cls.get("inner", ()):
            if x["kind"] == "CXXConstructorDecl" and norm(x["type"]["qualType"]).replace(" noexcept", "") == want:
                return x
        return None

    def construct(self, e, env):
        t = qt(e)
        args = [x for x in e.get("inner", ()) if x["kind"] != "CXXDefaultArgExpr"]
        m = re.match(r"^(.*?)\s*\[(\d+)\]$", norm(t))
        if m:
            return self.default_value(t)
        cls = self.u.find_class(t)
        if cls is None:
            raise AnalysisError(f"class {t} not found")
        sig = e.get("ctorType", {}).get("qualType", "")
        c = self.ctor(cls, sig)
        if len(args) == 1 and (c is None or c.get("isImplicit") or c.get("explicitlyDefaulted")):
            v = self.rv(args[0], env)
            if isinstance(v, CObj):
                return v.copy()
        if c is None:
            cand = [x for x in cls.get("inner", ()) if x["kind"] == "CXXConstructorDecl" and sum(y["kind"] == "ParmVarDecl" for y in x.get("inner", ())) == len(args) and not x.get("isImplicit")]
            if len(cand) == 1:
                c = cand[0]
        o = CObj(cls)
        self.init_fields(o)
        if c is None or not any(x["kind"] == "CompoundStmt" for x in c.get("inner", ())):
            if not args:
                return o
            raise AnalysisError(f"constructor {sig} of {t} not found")
        self.call(c, [self.ev(a, env) for a in args], Cell(o))
        return o

    # -- statements --------------------------------------------------------------
    def stmt(self, s, env):
        k = s.get("kind")
        self.budget -= 1
        if self.budget < 0:
            raise AnalysisError("native code: analysis budget exhausted")
        if k == "CompoundStmt":
            for x in s.get("inner", ()):
                self.stmt(x, env)
        elif k == "DeclStmt":
            for d in s["inner"]:
                if d["kind"] == "VarDecl":
                    self.vardecl(d, env)
        elif k == "IfStmt":
            inner = [x for x in s["inner"]]
            if s.get("hasInit") or s.get("hasVar"):
                self.stmt(inner.pop(0), env)
            c = self.truth(self.rv(inner[0], env))
            if c:
                self.stmt(inner[1], env)
            elif len(inner) > 2:
                self.stmt(inner[2], env)
        elif k == "ForStmt":
            init, _, cond, inc, body = (s["inner"] + [{}] * 5)[:5]
            if init:
                self.stmt(init, env)
            while not cond or self.truth(self.rv(cond, env)):
                try:
                    self.stmt(body, env)
                except Brk:
                    break
                except Cont:
                    pass
                if inc:
                    self.ev(inc, env)
        elif k in ("WhileStmt", "DoStmt"):
            if k == "DoStmt":
                body, cond = s["inner"]
            else:
                cond, body = s["inner"][-2:]
            first = k == "DoStmt"
            while first or self.truth(self.rv(cond, env)):
                first = False
                try:
                    self.stmt(body, env)
                except Brk:
                    break
                except Cont:
                    pass
        elif k == "ReturnStmt":
            inner = s.get("inner", ())
            raise Ret(self.ev(inner[0], env) if inner else None)
        elif k == "BreakStmt":
            raise Brk()
        elif k == "ContinueStmt":
            raise Cont()
        elif k in ("NullStmt", None):
            pass
        elif k == "SwitchStmt":
            v = self.rv(s["inner"][0], env)
            self.switch(v, s["inner"][-1], env)
        else:
            self.ev(s, env)

    def switch(self, v, body, env):
        flat = []

        def add(x):
            if x["kind"] == "CaseStmt":
                flat.append(("case", x["inner"][0]))
                add(x["inner"][-1])
            elif x["kind"] == "DefaultStmt":
                flat.append(("default", None))
                add(x["inner"][-1])
            else:
                flat.append(("s", x))

        for x in body.get("inner", ()):
            add(x)
        start = next((i for i, (t, c) in enumerate(flat) if t == "case" and self.rv(c, env) == v), None)
        if start is None:
            start = next((i for i, (t, c) in enumerate(flat) if t == "default"), len(flat))
        try:
            for t, x in flat[start:]:
                if t == "s":
                    self.stmt(x, env)
        except Brk:
            pass

    def vardecl(self, d, env):
        t = qt(d)
        ini = [x for x in d.get("inner", ()) if not x["kind"].endswith("Attr") and x["kind"] != "FullComment"]
        if ini:
            v = self.ev(ini[0], env)
            if is_ref(t):
                env[d["id"]] = v if isinstance(v, Cell) else Cell(v)
                return
            env[d["id"]] = Cell(self.conv(cp(v.v if isinstance(v, Cell) else v), t))
        else:
            env[d["id"]] = Cell(self.default_value(t))

    def truth(self, v):
        if isinstance(v, Ptr):
            return v.seq is not None
        if v is UNSET or v is None:
            raise CxxError("condition on a value that is not set")
        return bool(v)

    # -- expressions ---------------------------------------------------------------
    def rv(self, e, env):
        v = self.ev(e, env)
        return v.v if isinstance(v, Cell) else v

    def ev(self, e, env):
        m = getattr(self, "x_" + e["kind"], None)
        if m is None:
            raise AnalysisError(f"native code: {e['kind']} at {self.loc(e)} is not handled")
        return m(e, env)

    def loc(self, e):
        r = e.get("range", {}).get("begin", {})
        r = r.get("expansionLoc", r)
        return f"{os.path.basename(self.u.path)}:{r.get('line', '?')}"

    def first(self, e, env):
        return self.ev(e["inner"][0], env)

    x_ParenExpr = x_ExprWithCleanups = x_ConstantExpr = x_SubstNonTypeTemplateParmExpr_ = first

    def x_CXXBindTemporaryExpr(self, e, env):
        return self.first(e, env)

    def x_SubstNonTypeTemplateParmExpr(self, e, env):
        return self.rv(e["inner"][-1], env)

    def x_MaterializeTemporaryExpr(self, e, env):
        v = self.first(e, env)
        return v if isinstance(v, Cell) else Cell(v)

    def x_IntegerLiteral(self, e, env):
        return int(e["value"])

    def x_FloatingLiteral(self, e, env):
        return A.dec(float(e["value"]))

    def x_CXXBoolLiteralExpr(self, e, env):
        return bool(e["value"])

    def x_CXXNullPtrLiteralExpr(self, e, env):
        return NULL

    def x_GNUNullExpr(self, e, env):
        return NULL

    def x_StringLiteral(self, e, env):
        return e.get("value")

    def x_CXXThisExpr(self, e, env):
        return Ptr([env["this"]], 0)

    def x_ImplicitValueInitExpr(self, e, env):
        v = self.default_value(qt(e))
        return 0 if v is UNSET else v

    def x_CXXScalarValueInitExpr(self, e, env):
        return 0

    def x_DeclRefExpr(self, e, env):
        d = e["referencedDecl"]
        if d["id"] in env:
            return env[d["id"]]
        if d["kind"] in ("FunctionDecl", "CXXMethodDecl"):
            return ("fn", d["id"], d.get("name"))
        if d["kind"] == "EnumConstantDecl":
            return self.enum(d["id"])
        if d["id"] in self.g:
            return self.g[d["id"]]
        full = self.u.decl.get(d["id"])
        if full is not None and full["kind"] == "VarDecl":
            self.vardecl(full, self.g)
            return self.g[d["id"]]
        raise AnalysisError(f"native code: {d.get('name')} at {self.loc(e)} has no value")

    def enum(self, i):
        d = self.u.decl[i]
        for n in self.u.decl.values():
            if n["kind"] == "EnumDecl":
                v = -1
                for c in n.get("inner", ()):
                    if c["kind"] != "EnumConstantDecl":
                        continue
                    v = self.rv(c["inner"][0], {}) if c.get("inner") else v + 1
                    if c["id"] == i:
                        return v
        raise AnalysisError(f"enumerator {d.get('name')}")

    def cast(self, e, env):
        ck = e.get("castKind")
        v = self.first(e, env)
        if ck == "LValueToRValue":
            w = v.v if isinstance(v, Cell) else v
            if w is UNSET:
                raise CxxError(f"value read before it is set at {self.loc(e)}")
            return w
        if ck in ("NoOp", "ConstructorConversion", "UserDefinedConversion", "FunctionToPointerDecay", "BitCast", "DerivedToBase", "UncheckedDerivedToBase", "BuiltinFnToFnPtr"):
            return v
        w = v.v if isinstance(v, Cell) else v
        if ck == "ArrayToPointerDecay":
            if isinstance(w, str):
                return w
            return Ptr(w, 0)
        if ck == "NullToPointer":
            return NULL
        if ck == "IntegralToFloating":
            return Fraction(int(w))
        if ck == "FloatingToIntegral":
            return int(mp.floor(fnum(w))) if fnum(w) >= 0 else -int(mp.floor(-fnum(w)))
        if ck in ("IntegralCast", "FloatingCast", "IntegralToBoolean", "PointerToBoolean", "FloatingToBoolean", "ToVoid"):
            if ck.endswith("ToBoolean"):
                return self.truth(w)
            if ck == "FloatingCast" and norm(qt(e)).replace("const ", "") == "float":
                raise CxxError(f"value truncated to single precision at {self.loc(e)}")
            return w
        raise AnalysisError(f"native code: cast {ck} at {self.loc(e)}")

    x_ImplicitCastExpr = x_CXXStaticCastExpr = x_CStyleCastExpr = x_CXXFunctionalCastExpr = x_CXXReinterpretCastExpr = x_CXXConstCastExpr = cast

    def x_CXXConstructExpr(self, e, env):
        return self.construct(e, env)

    x_CXXTemporaryObjectExpr = x_CXXConstructExpr

    def x_InitListExpr(self, e, env):
        t = qt(e)
        m = re.match(r"^(.*?)\s*\[(\d+)\]$", norm(t))
        items = e.get("inner", ()) or [x for x in e.get("array_filler", ()) if x["kind"] not in ("ImplicitValueInitExpr",)]
        if m:
            n = int(m.group(2))
            r = [Cell(self.rv(x, env)) for x in items]
            while len(r) < n:
                v = self.default_value(m.group(1))
                r.append(Cell(0 if v is UNSET else v))
            return r
        if len(items) == 1 and self.u.find_class(t) is None:
            return self.rv(items[0], env)
        c = self.u.find_class(t)
        if c is None:
            if not items:
                return NULL if norm(t).endswith("*") else 0
            raise AnalysisError(f"initialiser of {t}")
        o = CObj(c)
        self.init_fields(o)
        for fd, x in zip(self.fields(c), items):
            o.f[fd["name"]] = Cell(self.rv(x, env))
        return o

    def x_ArrayInitLoopExpr(self, e, env):
        v = self.rv(e["inner"][0], env)
        return cp(v)

    def x_OpaqueValueExpr(self, e, env):
        return self.first(e, env)

    def x_CXXDefaultInitExpr(self, e, env):
        return UNSET

    def x_MemberExpr(self, e, env):
        v = self.first(e, env)
        if e.get("isArrow"):
            p = v.v if isinstance(v, Cell) else v
            v = p.cell()
        o = v.v if isinstance(v, Cell) else v
        d = self.u.decl.get(e.get("referencedMemberDecl"))
        if d is not None and d["kind"] != "FieldDecl":
            return ("method", d["id"], v if isinstance(v, Cell) else Cell(v), e["name"])
        if isinstance(o, Buf):
            return ("method", None, Cell(o), e["name"])
        if not isinstance(o, CObj):
            raise AnalysisError(f"native code: member {e.get('name')} at {self.loc(e)}")
        if e["name"] not in o.f:
            o.f[e["name"]] = Cell(UNSET)
        return o.f[e["name"]]

    def x_ArraySubscriptExpr(self, e, env):
        a, i = self.rv(e["inner"][0], env), self.rv(e["inner"][1], env)
        if isinstance(a, int):
            a, i = i, a
        if isinstance(a, list):
            a = Ptr(a, 0)
        return Ptr(a.seq, a.off + i).cell()

    def x_CallExpr(self, e, env):
        f = self.rv(e["inner"][0], env)
        args = e["inner"][1:]
        if isinstance(f, tuple) and f[0] == "fn":
            d = self.u.decl.get(f[1])
            if d is not None and any(x["kind"] == "CompoundStmt" for x in d.get("inner", ())):
                return self.call(d, [self.ev(a, env) for a in args])
            return self.external(f[2], [self.rv(a, env) for a in args], e)
        raise AnalysisError(f"native code: call at {self.loc(e)}")

    def external(self, name, a, e):
        if name in MATH1 and len(a) == 1:
            v = MATH1[name](fnum(a[0]))
            if isinstance(v, mp.mpc):
                raise CxxError(f"{name} of a negative number at {self.loc(e)}")
            return v
        if name in ("fmax", "fmin"):
            return (max if name == "fmax" else min)(fnum(a[0]), fnum(a[1]))
        if name == "pow":
            v = mp.power(fnum(a[0]), fnum(a[1]))
            if isinstance(v, mp.mpc):
                raise CxxError(f"pow of a negative number at {self.loc(e)}")
            return v
        if name == "hypot":
            return mp.hypot(fnum(a[0]), fnum(a[1]))
        if name in ("printf", "fprintf", "puts", "fflush"):
            return 0
        if name == "max" and len(a) == 2:
            return max(a)
        if name == "move" or name == "forward":
            return a[0]
        raise AnalysisError(f"native code: external function {name} at {self.loc(e)}")

    def x_CXXMemberCallExpr(self, e, env):
        f = self.ev(e["inner"][0], env)
        if not (isinstance(f, tuple) and f[0] == "method"):
            raise AnalysisError(f"native code: member call at {self.loc(e)}")
        _, did, this, name = f
        args = [x for x in e["inner"][1:] if x["kind"] != "CXXDefaultArgExpr"]
        if isinstance(this.v, Buf):
            b = this.v
            if name == "request":
                o = CObj(None)
                o.f = {"ptr": Cell(Ptr(b.cells, 0)), "size": Cell(len(b.cells))}
                return o
            if name in ("data", "mutable_data"):
                return Ptr(b.cells, 0)
            if name == "size":
                return len(b.cells)
            raise AnalysisError(f"native code: array_t::{name} at {self.loc(e)}")
        return self.call(self.u.decl[did], [self.ev(a, env) for a in args], this)

    def x_CXXOperatorCallExpr(self, e, env):
        f = self.rv(e["inner"][0], env)
        args = e["inner"][1:]
        d = self.u.decl.get(f[1]) if isinstance(f, tuple) else None
        if d is None:
            raise AnalysisError(f"native code: operator at {self.loc(e)}")
        if any(x["kind"] == "CompoundStmt" for x in d.get("inner", ())):
            if d["kind"] == "CXXMethodDecl":
                this = self.ev(args[0], env)
                return self.call(d, [self.ev(a, env) for a in args[1:]], this if isinstance(this, Cell) else Cell(this))
            return self.call(d, [self.ev(a, env) for a in args])
        if d.get("name") == "operator=":
            lhs = self.ev(args[0], env)
            v = self.rv(args[1], env)
            lhs.v = cp(v)
            return lhs
        raise AnalysisError(f"native code: {d.get('name')} at {self.loc(e)}")

    def arith(self, op, a, b, e):
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if op in ("==", "!="):
                same = isinstance(a, Ptr) and isinstance(b, Ptr) and a.seq is b.seq and (a.seq is None or a.off == b.off)
                return same if op == "==" else not same
            if op == "+":
                p, i = (a, b) if isinstance(a, Ptr) else (b, a)
                return Ptr(p.seq, p.off + i)
            if op == "-":
                return a.off - b.off if isinstance(b, Ptr) else Ptr(a.seq, a.off - b)
            raise AnalysisError(f"native code: pointer {op} at {self.loc(e)}")
        for v in (a, b):
            if v is UNSET or v is None:
                raise CxxError(f"value read before it is set at {self.loc(e)}")
        ints = isinstance(a, int) and isinstance(b, int)
        if not ints:
            if isinstance(a, (int, Fraction)) and isinstance(b, (int, Fraction)):
                a, b = Fraction(a), Fraction(b)
            else:
                a, b = fnum(a), fnum(b)
        try:
            if op == "+":
                return a + b
            if op == "-":
                return a - b
            if op == "*":
                return a * b
            if op == "/":
                if ints:
                    q = abs(a) // abs(b)
                    return q if (a < 0) == (b < 0) else -q
                return a / b
            if op == "%":
                q = abs(a) % abs(b)
                return q if a >= 0 else -q
        except ZeroDivisionError:
            raise CxxError(f"division by zero at {self.loc(e)}")
        if op in ("<", ">", "<=", ">=", "==", "!="):
            return {"<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b, "==": a == b, "!=": a != b}[op]
        if ints and op in ("&", "|", "^", "<<", ">>"):
            return {"&": a & b, "|": a | b, "^": a ^ b, "<<": a << b, ">>": a >> b}[op]
        raise AnalysisError(f"native code: operator {op} at {self.loc(e)}")

    def x_BinaryOperator(self, e, env):
        op = e["opcode"]
        l, r = e["inner"]
        if op == "=":
            v = self.rv(r, env)
            c = self.ev(l, env)
            if not isinstance(c, Cell):
                raise AnalysisError(f"native code: assignment at {self.loc(e)}")
            c.v = cp(v)
            if c.tag is not None:
                self.writes.append((c.tag, self.loc(e)))
            return c
        if op == "&&":
            return self.truth(self.rv(l, env)) and self.truth(self.rv(r, env))
        if op == "||":
            return self.truth(self.rv(l, env)) or self.truth(self.rv(r, env))
        if op == ",":
            self.ev(l, env)
            return self.ev(r, env)
        return self.arith(op, self.rv(l, env), self.rv(r, env), e)

    def x_CompoundAssignOperator(self, e, env):
        l, r = e["inner"]
        v = self.rv(r, env)
        c = self.ev(l, env)
        c.v = self.arith(e["opcode"][:-1], c.v, v, e)
        if c.tag is not None:
            self.writes.append((c.tag, self.loc(e)))
        return c

    def x_UnaryOperator(self, e, env):
        op = e["opcode"]
        v = self.first(e, env)
        w = v.v if isinstance(v, Cell) else v
        if op == "*":
            if isinstance(w, Ptr):
                return w.cell()
            raise AnalysisError(f"native code: dereference at {self.loc(e)}")
        if op == "&":
            if isinstance(v, tuple):
                return v
            return Ptr([v], 0)
        if op in ("++", "--"):
            d = 1 if op == "++" else -1
            old = v.v
            v.v = Ptr(old.seq, old.off + d) if isinstance(old, Ptr) else old + d
            return old if e.get("isPostfix") else v
        if op == "-":
            return -fnum(w) if not isinstance(w, (int, Fraction)) else -w
        if op == "+":
            return w
        if op == "!":
            return not self.truth(w)
        raise AnalysisError(f"native code: operator {op} at {self.loc(e)}")

    def x_ConditionalOperator(self, e, env):
        c, a, b = e["inner"]
        return self.ev(a if self.truth(self.rv(c, env)) else b, env)

    def x_UnaryExprOrTypeTraitExpr(self, e, env):
        return 8


def bindings(unit):
    """(name given to Python) -> list of (function name, template arguments, declaration)"""
    out = {}

    def walk(n):
        if n.get("kind") == "CXXMemberCallExpr":
            me = n["inner"][0]
            if me.get("kind") == "MemberExpr" and me.get("name") == "def":
                s = find(n["inner"][1], "StringLiteral")
                f = find(n["inner"][2], "DeclRefExpr")
                if s is None:
                    raise AnalysisError("binding without a literal name")
                out.setdefault(s["value"].strip('"'), []).append(unit.decl.get(f["referencedDecl"]["id"]) if f is not None else None)
        for x in n.get("inner", ()) or ():
            walk(x)

    for nm, fs in unit.funcs.items():
        if nm and nm.startswith("wx_bindings_"):
            for f in fs:
                walk(f)
    return out


def find(n, kind):
    if n.get("kind") == kind:
        return n
    for x in n.get("inner", ()) or ():
        r = find(x, kind)
        if r is not None:
            return r
    return None
