"""C16: configuration options are validated and every accepted choice is honoured."""
from __future__ import annotations

import ast
import configparser
import json
import math
import os
from fractions import Fraction

import mpmath as mpm
from mpmath import mp

from .. import hp, layout
from ..bseries import BV, Prec, S, Y
from ..interp import AbsVal, ExtRef, Func, Hook, MISSING, Obj, Opaque, RaiseOutcome, Unsupported
from ..layout import ArrayError, LA
from ..par import pmap
from ..project import AnalysisError, loc
from ..simmpi import World
from . import c07, c08, c15
from .c19 import interp

SCH, CNF, SIM = "common/configuration_schema.py", "common/configuration.py", "simulation/simulation.py"


# ------------------------------------------------------------------ the schema, read on its own
class F:
    """one declared option"""

    def __init__(self, section, d):
        self.section, self.name, self.raw = section, d["name"], d
        t = d["type"]
        self.is_list = t.startswith("list-")
        self.type = {"float64": "float", "float32": "float", "case-sensitive-str": "cs", "cs-str": "cs", "lower-case-str": "str", "lc-str": "str"}.get(t[5:] if self.is_list else t, t[5:] if self.is_list else t)
        if self.type not in ("int", "float", "angle24", "bool", "cs", "str"):
            raise AnalysisError(f"option {self.name} has the type {t}, which the check does not know")
        self.default = d.get("default")
        # "choices" under any spelling are what the author of the schema declares
        self.choices = next((d[k] for k in d if k.lower().rstrip("s") in ("selectable", "choice", "value", "option") and isinstance(d[k], list)), None)
        self.lo, self.hi = d.get("min"), d.get("max")
        dep = d.get("dependency")
        self.dep = (dep["name"], dep["values"]) if dep else None

    def want(self, text):
        """the value this text stands for"""
        if self.type == "int":
            return int(text)
        if self.type == "float":
            return float(text)
        if self.type == "angle24":
            return ("angle24", float(text))
        if self.type == "bool":
            return {"0": False, "1": True}[text]
        return text.lower() if self.type == "str" else text

    def sample(self, k=0):
        """texts of valid values"""
        if self.choices:
            return str(self.choices[k % len(self.choices)])
        if self.type in ("str", "cs"):
            return ("Some/Name_1", "x")[k % 2]
        if self.type == "bool":
            return ("1", "0")[k % 2]
        if self.type == "int":
            lo = self.lo if self.lo is not None else (self.hi - 40 if self.hi is not None else -3)
            return str(min(int(lo) + (0, 7, 31)[k % 3], self.hi if self.hi is not None else 10 ** 9))
        lo = float(self.lo) if self.lo is not None else (float(self.hi) - 9 if self.hi is not None else -2.5)
        return repr(lo + (0.0 if self.lo is not None else 0.5, 1.25, 4e-3)[k % 3])

    def outside(self):
        if self.choices:
            yield ("no_such_choice" if self.type in ("str", "cs") else str(max(self.choices) + 1))
        step = 1 if self.type == "int" else 1e-3
        for b, s in ((self.lo, -1), (self.hi, 1)):
            if b is not None:
                for m in (1, 1000):
                    v = b + s * m * step
                    yield str(int(v) if self.type == "int" else v)

    def malformed(self):
        return ("abc",) if self.is_list else {"int": ("abc", "1.5", ""), "float": ("abc", "1,5", ""), "angle24": ("abc",), "bool": ("abc", "")}.get(self.type, ())


def schema(p):
    path = os.path.join(p.repo, "config", "config-format.json")
    try:
        text = open(path, encoding="utf-8").read()
        d = json.loads(text)
    except (OSError, ValueError) as e:
        raise AnalysisError(f"cannot read {path}: {e}")
    fs = [F(s["name"], f) for s in d.get("sections", []) for f in s["fields"]] + [F(f["section"], f) for f in d.get("fields", [])]
    return text, fs


# ------------------------------------------------------------------ interpreting the reader
def raises(name):
    def f(*a):
        raise RaiseOutcome(ExtRef(name), a[-1])
    return f


class Angle(AbsVal):
    def __init__(self, v):
        self.v = v

    def a_compare(self, I, op, other, sw, node):
        o = other.v if isinstance(other, Angle) else other
        if isinstance(o, (int, float, Fraction)):
            x, y = (o, self.v) if sw else (self.v, o)
            return {"Lt": x < y, "LtE": x <= y, "Gt": x > y, "GtE": x >= y, "Eq": x == y, "NotEq": x != y}.get(op, MISSING)
        return MISSING


def b_int(I, a, k, n):
    v = a[0] if a else 0
    if isinstance(v, str):
        try:
            return int(v)
        except ValueError:
            raise RaiseOutcome(ExtRef("ValueError"), n)
    if isinstance(v, (bool, int, Fraction, float)):
        return int(v)
    raise Unsupported(f"int({v!r})")


def b_float(I, a, k, n):
    v = a[0] if a else 0.0
    if isinstance(v, (str, int, Fraction, float)):
        try:
            return float(v)
        except ValueError:
            raise RaiseOutcome(ExtRef("ValueError"), n)
    raise Unsupported(f"float({v!r})")


def b_bool(I, a, k, n):
    v = a[0] if a else False
    if isinstance(v, (bool, int, float, str, Fraction, list, dict, tuple)) or v is None:
        return bool(v)
    raise Unsupported(f"bool({v!r})")


def evaluate(text):
    """constant arithmetic (what eval_expr may compute is C21)"""
    ops = {ast.Add: lambda a, b: a + b, ast.Sub: lambda a, b: a - b, ast.Mult: lambda a, b: a * b, ast.Div: lambda a, b: a / b, ast.Pow: lambda a, b: a ** b}

    def ev(n):
        if isinstance(n, ast.Constant) and isinstance(n.value, (int, float)):
            return n.value
        if isinstance(n, ast.BinOp) and type(n.op) in ops:
            return ops[type(n.op)](ev(n.left), ev(n.right))
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            return -ev(n.operand)
        if isinstance(n, ast.Name) and n.id == "pi":
            return math.pi
        raise RaiseOutcome(ExtRef("ValueError"), None)
    return ev(ast.parse(text, mode="eval").body)


def reader(p):
    I = interp(p)
    I.builtins = dict(getattr(I, "builtins", None) or {}, int=b_int, float=b_float, bool=b_bool)
    I.value_classes = lambda I2, a, n: str(a[1]) if len(a) > 1 else ""
    I.super_ext = lambda I2, attr, a, k, e: str(a[-1]) if attr == "__new__" else None

    def loads(I2, a, k, n):
        try:
            return json.loads(a[0])
        except (ValueError, TypeError):
            raise RaiseOutcome(ExtRef("json.JSONDecodeError"), n)
    I.hooks["json.loads"] = loads
    for nm in ("eval_expr", "common.eval_expr.eval_expr"):
        I.hooks[nm] = lambda I2, a, k, n: evaluate(a[0])

    def angle(I2, a, k, n):
        return Angle(b_float(I2, a, k, n))
    for nm in ("angle24", "common.angle24.angle24"):
        I.hooks[nm] = angle
    I.hooks["numpy.float32"] = I.hooks["numpy.float64"] = b_float
    I.hooks["copy.deepcopy"] = I.hooks["deepcopy"] = lambda I2, a, k, n: json.loads(json.dumps(a[0])) if isinstance(a[0], (list, dict)) else a[0]

    def parser(I2, a, k, n):
        cp = configparser.ConfigParser(**{q: v for q, v in k.items() if q in ("interpolation", "strict", "allow_no_value")})

        def guard(fn):
            def h(I3, a3, k3, n3):
                try:
                    return fn(*a3, **k3)
                except configparser.Error as e:
                    raise RaiseOutcome(ExtRef("configparser." + type(e).__name__), n3)
                except ValueError:
                    raise RaiseOutcome(ExtRef("ValueError"), n3)
            return h
        return Obj(None, "ConfigParser", {q: Hook(q, guard(getattr(cp, q))) for q in ("read_string", "get", "getint", "getfloat", "getboolean", "has_option", "has_section", "sections", "options", "items")}, strict=True)
    for nm in ("configparser.ConfigParser", "ConfigParser"):
        I.hooks[nm] = parser
    return I


def ini(values):
    out = {}
    for (sec, name), v in values.items():
        out.setdefault(sec, []).append(f"{name} = {v}")
    return "\n".join(f"[{s}]\n" + "\n".join(ls) for s, ls in out.items()) + "\n"


class Reading:
    def __init__(self, p):
        self.p, self.I = p, reader(p)
        self.text, self.fields = schema(p)
        self.sch = self.I.instantiate("common.configuration_schema", "ConfigurationSchema", [self.text])  # may raise
        self.by = {}
        for f in self.fields:
            self.by.setdefault(f.name, []).append(f)

    def base(self, f=None, text=None):
        """a configuration with every mandatory option, in which option f is active (and has this value)"""
        vals, known = {}, {}

        def put(g, text):
            vals[(g.section, g.name)] = text
            known[g.name] = g.want(text)

        def active(g):
            return g.dep is None or known.get(g.dep[0], MISSING) in [v.lower() if isinstance(v, str) else v for v in g.dep[1]]
        need = {} if text is None else {f.name: text}
        g = f
        while g is not None and g.dep is not None:
            d = self.by.get(g.dep[0], [None])[0]
            if d is None:
                break
            need[d.name] = g.dep[1][0]
            g = d
        for rounds in range(3):
            for g in self.fields:
                if (g.section, g.name) in vals:
                    continue
                if g.name in need:
                    v = need[g.name]
                    put(g, {True: "1", False: "0"}.get(v, str(v)) if isinstance(v, bool) else str(v))
                elif not active(g):
                    continue
                elif g.default is None:
                    put(g, g.sample(1 if g.type in ("int", "float") else 0))
                elif g.name not in known:
                    known[g.name] = g.default.lower() if g.type == "str" and isinstance(g.default, str) else g.default
        return vals

    def read(self, vals):
        """-> ("ok", attributes) or ("raise", what)"""
        self.I.steps = 0
        try:
            o = self.I.instantiate("common.configuration", "Configuration", [ini(vals), self.sch])
        except RaiseOutcome as e:
            return "raise", e
        return "ok", o.attrs


def same(got, want):
    if isinstance(want, tuple):
        return isinstance(got, Angle) and got.v == want[1]
    if isinstance(want, list):
        return isinstance(got, (list, tuple)) and len(got) == len(want) and all(same(g, w) for g, w in zip(got, want))
    if isinstance(want, bool):
        return isinstance(got, bool) and got is want or isinstance(got, int) and got in (0, 1) and bool(got) is want
    if isinstance(want, float):
        return isinstance(got, (float, Fraction)) and float(got) == want
    if isinstance(want, int):
        return type(got) is int and got == want
    return isinstance(got, type(want)) and str(got) == str(want)


def parsing(p, R):
    try:
        rd = Reading(p)
    except RaiseOutcome as e:
        R.bad("read", "the schema of the repository", f"is refused: {why(e)}", SCH)
        return
    consts = {n.value for m in ("common.configuration_schema", "common.configuration") for n in ast.walk(p.modules[m].tree) if isinstance(n, ast.Constant) and isinstance(n.value, str)}
    js = "config/config-format.json"
    for f in rd.fields:
        lab = f"[{f.section}] {f.name}" + (f" ({f.dep[0]} in {f.dep[1]})" if f.dep else "")
        for k in f.raw:
            R.check(k in consts, "keys", f"{lab}: {k}", f"the schema reader never looks at the attribute '{k}': what it declares is ignored", js)
        key = (f.section, f.name)
        base = rd.base(f)
        texts = [f.sample(i) for i in range(3)] if not f.choices else [str(c) for c in f.choices]
        if f.type == "str":
            texts += [t.upper() for t in texts[:2]]
        for t in dict.fromkeys(texts):
            vals = rd.base(f, t)
            vals[key] = t
            if f.name == "discretization" and t.lower() == "fv":
                vals[("Spatial_discretization", "num_solpts")] = "1"
            kind, a = rd.read(vals)
            got = a.get(f.name, MISSING) if kind == "ok" else None
            R.check(kind == "ok" and same(got, f.want(t) if not f.is_list else [f.want(t)]), "read", f"{lab} = {t}",
                    f"refused: {why(a)}" if kind == "raise" else f"read as {got!r}", SCH)
        if f.is_list:
            ts = [f.sample(i) for i in range(3)]
            vals = dict(base)
            vals[key] = "[" + ", ".join(ts) + "]"
            kind, a = rd.read(vals)
            R.check(kind == "ok" and same(a.get(f.name), [f.want(t) for t in ts]), "read", f"{lab} = {vals[key]}", f"{why(a) if kind == 'raise' else a.get(f.name)!r}", SCH)
        bad = list(f.outside())
        if f.is_list:
            bad += [f"[{f.sample(0)}, {b}]" for b in bad]
        for t in bad + list(f.malformed()):
            vals = dict(base)
            vals[key] = t
            kind, a = rd.read(vals)
            R.check(kind == "raise", "refused", f"{lab} = {t!r}", f"accepted as {a.get(f.name)!r}" if kind == "ok" else "", SCH)
        vals = dict(base)
        vals.pop(key, None)
        kind, a = rd.read(vals)
        if f.default is None:
            R.check(kind == "raise", "default", f"{lab} missing", f"accepted as {a.get(f.name, 'unset')!r}" if kind == "ok" else "", SCH)
        else:
            d = f.default
            if isinstance(d, str) and f.type not in ("str", "cs"):
                d = evaluate(d)
            one = lambda x: x.lower() if f.type == "str" else float(x) if f.type == "float" else ("angle24", float(x)) if f.type == "angle24" else x
            d = [one(x) for x in d] if isinstance(d, list) else ([one(d)] if f.is_list else one(d))
            R.check(kind == "ok" and same(a.get(f.name, MISSING), d), "default", f"{lab} missing", f"{why(a) if kind == 'raise' else a.get(f.name)!r} instead of {d!r}", SCH)
    # a finite-volume discretization has one point per element
    f = rd.by.get("discretization")
    if f and "fv" in (f[0].choices or ()):
        for n, want in (("1", "ok"), ("3", "raise")):
            vals = rd.base()
            vals[("Grid", "discretization")] = "fv"
            vals[("Spatial_discretization", "num_solpts")] = n
            kind, a = rd.read(vals)
            R.check(kind == want, "read", f"discretization = fv, num_solpts = {n}", f"{'accepted' if kind == 'ok' else 'refused: ' + why(a)}", CNF)
    # total sizes are remembered for the process decomposition
    kind, a = rd.read(rd.base())
    R.check(kind == "ok" and a.get("num_elements_horizontal_total") == a.get("num_elements_horizontal") and a.get("initial_num_solpts") == a.get("num_solpts"), "read", "sizes of the whole problem", "not those of the file", CNF)
    R.analysed |= rd.I.analysed
    return None


def why(e):
    v = getattr(e, "val", e)
    if isinstance(v, Obj):
        return f"{v.cls[1].name if v.cls else v.name} {v.attrs.get('args', '')}"[:160]
    return str(getattr(v, "dotted", v))[:160]


# ------------------------------------------------------------------ what the program reads
CONFIG_NAMES = ("param", "config", "params")
SCOPE = ("simulation", "geometry", "init", "rhs", "pde", "integrators", "output", "solvers", "process_topology", "device", "common", "precondition")
NOT_CONFIG = ("stiff_pdes",)


def config_exprs(fn):
    """names that hold the configuration in this function"""
    out = set()
    a = fn.args
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        ann = ast.unparse(x.annotation) if x.annotation is not None else None
        if (ann is not None and "Configuration" in ann and "Schema" not in ann and "Field" not in ann) or (ann is None and x.arg in CONFIG_NAMES):
            out.add(x.arg)
    return out


def is_config(e, names, owned):
    if isinstance(e, ast.Name):
        return e.id in names
    if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id == "self":
        return e.attr in owned
    return False


def declared(p, R):
    _, fields = schema(p)
    mc, cc = p.find_class("Configuration")
    known = {f.name for f in fields} | {n.name for n in cc.body if isinstance(n, ast.FunctionDef)} | {"__dict__", "__class__"}
    for n in ast.walk(cc):
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == "self":
            known.add(n.attr)
    reads = []
    live = reachable(p)
    for m in p.modules.values():
        if m.name.split(".")[0] not in SCOPE or m.name not in live:
            continue
        for cls, fns in scopes(m.tree):
            owned = set()
            names_of = {}
            for f in fns:
                names_of[f] = config_exprs(f)
                for n in ast.walk(f):
                    if isinstance(n, ast.Assign) and isinstance(n.value, ast.Name) and n.value.id in names_of[f]:
                        for t in n.targets:
                            if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == "self":
                                owned.add(t.attr)
            for f in fns:
                for n in ast.walk(f):
                    if isinstance(n, ast.Attribute) and is_config(n.value, names_of[f], owned | {"config"} if cls is not None and "config" in owned else owned):
                        if isinstance(n.ctx, ast.Store):
                            known.add(n.attr)
                        elif isinstance(n.ctx, ast.Load):
                            reads.append((m, f, n))
    mods = {}
    for m, f, n in reads:
        mods.setdefault((m.name, n.attr), []).append(n)
    for (mod, attr), ns in sorted(mods.items()):
        R.check(attr in known, "declared", f"{mod}: option '{attr}'", f"is read, but the schema declares no such option", loc(ns[0]))


def reachable(p):
    """modules the simulation imports, directly or not"""
    todo, seen = [m for m in p.modules if m.split(".")[0] == "simulation"], set()
    if not todo:
        raise AnalysisError("anchor vanished: package simulation")

    def resolve(dotted):
        parts = dotted.split(".")
        for i in range(len(parts), 0, -1):
            if ".".join(parts[:i]) in p.modules:
                yield ".".join(parts[:i])
    while todo:
        m = todo.pop()
        if m in seen:
            continue
        seen.add(m)
        mod = p.modules[m]
        is_pkg = os.path.basename(getattr(mod, "path", "") or "") == "__init__.py" or any(x.startswith(m + ".") for x in p.modules)
        pk = m if is_pkg else m.rpartition(".")[0]
        for n in ast.walk(mod.tree):
            if isinstance(n, ast.Import):
                for a in n.names:
                    todo.extend(resolve(a.name))
            elif isinstance(n, ast.ImportFrom):
                base = n.module or ""
                if n.level:
                    b = pk.split(".") if pk else []
                    b = b[:len(b) - (n.level - 1)]
                    base = ".".join(b + ([n.module] if n.module else []))
                todo.extend(resolve(base) if base else [])
                for a in n.names:
                    todo.extend(resolve((base + "." if base else "") + a.name))
    return seen


def scopes(tree):
    out = []
    for n in tree.body:
        if isinstance(n, ast.ClassDef):
            out.append((n, [f for f in ast.walk(n) if isinstance(f, ast.FunctionDef)]))
        elif isinstance(n, ast.FunctionDef):
            out.append((None, [n]))
    return out


# ------------------------------------------------------------------ dispatch: solvers
SAME = {"pmex_ne": ("pmex", "pmex_ne"), "kiops_ne": ("kiops_nest", "kiops_ne")}


REFUSALS = ("ValueError", "NotImplementedError", "TypeError", "SystemExit", "Exception", "RuntimeError", "AssertionError")


def exc_name(v):
    if isinstance(v, Obj) and v.cls:
        return v.cls[1].name
    if isinstance(v, Opaque) and isinstance(v.key, tuple) and v.key[:1] == ("call",):
        return str(v.key[1]).split(".")[-1]
    return str(getattr(v, "dotted", getattr(v, "name", v))).split(".")[-1]


def explicit(e):
    """is this an error the program raises on purpose? -> (bool, name)"""
    name = exc_name(e.val)
    return name in REFUSALS or name.endswith("ValueError") or name.endswith("Error") and isinstance(e.val, Obj), name


def solver_choice(p, R, name):
    Prec.P, Prec.E = 2, 1
    sel = c08.selectables(p, "exponential_solver")
    lins = c08.selectables(p, "linear_solver")
    if not sel or not lins:
        raise AnalysisError("the schema offers no exponential or linear solvers")
    used = False
    for what, choices in (("exponential_solver", sel), ("linear_solver", lins)):
        for ch in choices:
            st = c08.Setup(p, name in ("imex2", "partrosexp2") or name.startswith("strang"))
            I = st.I
            seen = []

            def rec(nm, h):
                def g(I2, a, k, n):
                    seen.append((nm, dict(k), n))
                    return h(I2, a, k, n)
                return g
            for nm in c08.EXPSOLVERS + ("exode", "fgmres", "gcrot"):
                for kk in (f"solvers.{nm}.{nm}", nm):
                    if kk in I.hooks:
                        I.hooks[kk] = rec(nm, I.hooks[kk])
            lab = f"{name}, {what} = {ch}"
            refused = None
            obj = None
            try:
                obj = st.make(name, ch if what == "exponential_solver" else "pmex", "complex", ch if what == "linear_solver" else "fgmres")
                for _ in range(2):
                    st.step(obj, BV({Y: S.const(1)}), S({(1, 0): 1.0}))
            except RaiseOutcome as e:
                refused = e
            R.analysed |= I.analysed
            w = (c08.where_of(p, obj) if obj is not None else "") or "integrators"
            if refused is not None:
                ok, nm = explicit(refused)
                R.check(ok, "solver", lab, f"ends in {nm}", w)
                continue
            fam = (c08.EXPSOLVERS + ("exode",)) if what == "exponential_solver" else ("fgmres", "gcrot")
            mine = [s for s in seen if s[0] in fam]
            if not mine:
                continue
            if not consults(p, obj, what):
                continue
            wantd = SAME.get(ch, (ch,))
            bad = [s for s in mine if s[0] not in wantd]
            R.check(not bad, "solver", lab, f"runs {bad[0][0] if bad else ''}", loc(bad[0][2]) if bad and bad[0][2] is not None else w)
            if ch == "exode":
                ex = [s for s in mine if s[0] == "exode"]
                R.check(all(s[1].get("method") == "BS3(2)" and s[1].get("controller") == "deadbeat" for s in ex), "solver", lab + ": method and controller", f"{ex[0][1].get('method')!r}, {ex[0][1].get('controller')!r}" if ex else "", w)


def consults(p, obj, what):
    """does the integrator (or one it is built from) read this option?"""
    def classes(o):
        yield o
        for v in o.attrs.values():
            if isinstance(v, Obj) and v.cls and p.find_method(*v.cls, "__step__"):
                yield from classes(v)
    for o in classes(obj):
        for m, c in p.mro(*o.cls):
            for n in ast.walk(c):
                if isinstance(n, ast.Attribute) and n.attr == what:
                    return True
    return False


def methods(p, R):
    """the embedded Runge-Kutta methods the schema offers exist"""
    I = interp(p)
    tab = I.modvar(p.modules["integrators.butcher"], "METHODS") if hasattr(I, "modvar") else I.global_lookup("integrators.butcher", "METHODS")
    if not isinstance(tab, dict):
        raise AnalysisError("anchor vanished: integrators.butcher.METHODS")
    keys = {k for k in tab}
    for m in c08.selectables(p, "exode_method"):
        R.check(m.upper() in keys, "solver", f"exode_method = {m}", f"no such method among {sorted(keys)}", "integrators/butcher.py")


# ------------------------------------------------------------------ dispatch: components of a simulation
GEOM = {"CubedSphere2D": {"num_elements_horizontal": "num_elements_horizontal", "num_solpts": "num_solpts", "lambda0": "lambda0", "phi0": "phi0", "alpha0": "alpha0", "param": None},
        "CubedSphere3D": {"num_elements_horizontal": "num_elements_horizontal", "num_elements_vertical": "num_elements_vertical", "num_solpts": "num_solpts", "lambda0": "lambda0", "phi0": "phi0", "alpha0": "alpha0", "ztop": "ztop"},
        "Cartesian2D": {"domain_x": ("x0", "x1"), "domain_z": ("z0", "z1"), "num_elements_x": "num_elements_horizontal", "num_elements_z": "num_elements_vertical", "num_solpts": "num_solpts"}}
RHS = {"RHSDirecFluxReconstruction_mpi": "euler3", "RhsShallowWater": "sw", "RHSDirecFluxReconstruction": "euler2"}
OUT = {"OutputCartesian": "cartesian", "OutputCubesphereNetcdf": "netcdf", "OutputCubesphereFst": "fst"}


class Made(Exception):
    pass


def components(p, R, grid, eq, fmt, dev_name, precond, cuda_ok=True, disc="dg"):
    """interprets Simulation(...) with recording stand-ins for the components"""
    nproc = 6 if grid == "cubed_sphere" else 1
    lab = f"{grid}, {eq}" + (f", {fmt}" if fmt else "") + (f", {dev_name}" if dev_name != "cpu" else "") + (f", preconditioner {precond}" if precond != "none" else "") + (f", discretization {disc}" if disc != "dg" else "")
    made = {}

    def body(r, world):
        I = interp(p)
        comm = world.obj(r)
        I.attr_hook = lambda I2, v, attr: comm if attr == "COMM_WORLD" and isinstance(v, ExtRef) else MISSING
        cfg = {"grid_type": grid, "equations": eq, "output_format": fmt or "netcdf", "desired_device": dev_name, "cuda_devices": [], "preconditioner": precond, "discretization": disc,
               "num_elements_horizontal": 12, "num_elements_horizontal_total": 12, "num_elements_vertical": 5, "num_solpts": 4, "lambda0": 0.125, "phi0": 0.25, "alpha0": 0.375, "ztop": 1000.5,
               "x0": -7.0, "x1": 9.0, "z0": 2.0, "z1": 11.0, "case_number": 31, "starting_step": 0, "dt": 1.0, "t_end": 2.0, "time_integrator": "tvdrk3", "depth_approx": "deep", "verbose_solver": 0,
               "output_freq": 0, "stat_freq": 0, "save_state_freq": 0, "store_solver_stats": False, "output_dir": "out", "base_output_file": "b"}
        m, c = p.find_class("Configuration")
        config = Obj((m, c), "config", cfg, strict=True)
        config.attrs["__str__"] = Hook("str", lambda I, a, k, n: "config")
        mine = made.setdefault(r, {"cfg": dict(cfg)})

        def stand_in(cname):
            mm, cn = p.find_class(cname)
            init = p.find_method(mm, cn, "__init__")
            names = [x.arg for x in init[2].args.args[1:]] if init else []

            def h(I2, a, k, n):
                # the instance may come first (constructor hook)
                a = [x for x in a if not (isinstance(x, Obj) and x.cls == (mm, cn) and x.name == "?")]
                d = dict(zip(names, a))
                d.update(k)
                o = Obj((mm, cn), cname, {"comm": comm, "xp": ExtRef("numpy")} if "Device" in cname else {"pde": MISSING})
                if cname == "CudaDevice" and not cuda_ok:
                    raise RaiseOutcome(ExtRef("ValueError"), n)
                mine.setdefault(cname, []).append((d, o, n))
                return o
            return h
        for cname in list(GEOM) + list(RHS) + list(OUT) + ["CpuDevice", "CudaDevice", "ProcessTopology", "DFROperators", "Metric2D", "Metric3DTopo", "RHSFiniteVolume", "PDEEulerCubesphere", "PDEEulerCartesian", "Tvdrk3", "Multigrid", "Factorization"]:
            h = stand_in(cname)
            mm, cn = p.find_class(cname)
            I.hooks[cname] = I.hooks[f"{mm.name}.{cname}"] = h
        Q = Obj(None, "state", {"shape": (5, 2), "dtype": "float64"})
        for nm in ("initialize_euler", "initialize_sw"):
            def ini_(I2, a, k, n, nm=nm):
                mine.setdefault(nm, []).append((dict(enumerate(a)), None, n))
                return (Q, Obj(None, "topography", {}))
            I.hooks[nm] = I.hooks["init.initialize." + nm] = ini_

        def inic(I2, a, k, n):
            mine.setdefault("initialize_cartesian2d", []).append((dict(enumerate(a)), None, n))
            return Q
        I.hooks["initialize_cartesian2d"] = I.hooks["init.initialize.initialize_cartesian2d"] = inic
        mo, co = p.find_class("OutputManager")
        I.hooks["OutputManager.step"] = lambda I2, a, k, n: None
        for o in OUT:
            I.hooks[o + ".step"] = lambda I2, a, k, n: None
        sim = Obj(p.find_class("Simulation"), "simulation", {})
        si = p.find_method(*p.find_class("Simulation"), "__init__")
        if si is None:
            raise AnalysisError("anchor vanished: Simulation.__init__")
        try:
            I.call_func(Func(si[0], si[2], cls=(si[0], si[1])), [sim, config], {"comm": comm}, None)
        except RaiseOutcome as e:
            return e
        finally:
            R.analysed.update(I.analysed)
        return sim
    out = World(nproc).run(body)
    if any(k != "ok" for k, _ in out):
        raise AnalysisError(f"{lab}: {out[0]!r}"[:300])
    kinds = {"raise" if isinstance(v, RaiseOutcome) else "ok" for _, v in out}
    if len(kinds) != 1:
        R.bad("component", lab, f"processes disagree: {sorted(kinds)}", SIM)
        return
    sup = (grid, eq) in (("cubed_sphere", "euler"), ("cubed_sphere", "shallow_water"), ("cartesian2d", "euler"))
    if kinds != {"ok"}:
        e = out[0][1]
        ok, nm = explicit(e)
        R.check(ok and (not sup or precond != "none"), "component", lab, f"ends in {nm} at {loc(e.node) if e.node is not None else '?'}", SIM)
        return
    R.check(sup, "component", lab, "accepted, but this combination does not exist", SIM)
    R.check(precond == "none" or any("Multigrid" in made[r] or "Factorization" in made[r] for r in made), "component", lab + ": preconditioner", "the choice is ignored", SIM)
    if not sup:
        return
    want_g = "Cartesian2D" if grid == "cartesian2d" else ("CubedSphere2D" if eq == "shallow_water" else "CubedSphere3D")
    want_o = "OutputCartesian" if grid == "cartesian2d" else {"netcdf": "OutputCubesphereNetcdf", "fst": "OutputCubesphereFst"}[fmt or "netcdf"]
    want_i = {"Cartesian2D": "initialize_cartesian2d", "CubedSphere2D": "initialize_sw", "CubedSphere3D": "initialize_euler"}[want_g]
    want_d = "CudaDevice" if dev_name == "cuda" and cuda_ok else "CpuDevice"
    want_r = {"Cartesian2D": "RHSFiniteVolume" if disc == "fv" else "RHSDirecFluxReconstruction", "CubedSphere2D": "RhsShallowWater", "CubedSphere3D": "RHSDirecFluxReconstruction_mpi"}[want_g]
    for r, d in made.items():
        sim = out[r][1]
        for what, want, fam in (("geometry", want_g, GEOM), ("output", want_o, OUT), ("device", want_d, ("CpuDevice", "CudaDevice"))):
            got = sim.attrs.get(what)
            R.check(isinstance(got, Obj) and got.name == want, "component", f"{lab}: {what}, process {r}", f"{getattr(got, 'name', got)!r} instead of {want}", SIM)
        full = sim.attrs.get("rhs")
        full = full.attrs.get("full") if isinstance(full, Obj) else None
        R.check(isinstance(full, Obj) and full.name == want_r, "component", f"{lab}: right-hand side, process {r}", f"{getattr(full, 'name', full)!r} instead of {want_r}", "rhs/rhs_selector.py")
        R.check(set(x for x in d if x.startswith("initialize")) == {want_i}, "component", f"{lab}: initial conditions, process {r}", f"{[x for x in d if x.startswith('initialize')]} instead of {want_i}", "init/init_state_vars.py")
        if r:
            continue
        args = d.get(want_g, [({}, None, None)])[0][0]
        cf = dict(d["cfg"])
        for nm, opt in GEOM[want_g].items():
            if opt is None or nm not in args:
                continue
            got = args[nm]
            exp = tuple(cf[o] for o in opt) if isinstance(opt, tuple) else cf[opt]
            if nm == "num_elements_horizontal":
                exp = 12
            g = tuple(float(x) for x in got) if isinstance(got, (tuple, list)) else float(got) if isinstance(got, (int, float, Fraction)) else got
            e = tuple(float(x) for x in exp) if isinstance(exp, tuple) else float(exp)
            R.check(g == e, "component", f"{lab}: {want_g}({nm})", f"is given {g!r}, the option is {e!r}", SIM)


def attributes(p, R):
    """the right-hand sides a configuration can select only use attributes they have"""
    for cname in list(RHS) + ["RHSFiniteVolume"]:
        m, c = p.find_class(cname)
        mro = p.mro(m, c)
        if any(len(cc.bases) - sum(ast.unparse(b).split(".")[-1] in ("ABC", "object") for b in cc.bases) != len(p.class_bases(mm, cc)) for mm, cc in mro):
            continue
        have, used = set(), {}
        for mm, cc in mro:
            for n in ast.walk(cc):
                if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                    have.add(n.name)
                elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    have.add(n.id)
                elif isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == "self":
                    if isinstance(n.ctx, ast.Store):
                        have.add(n.attr)
                    elif not n.attr.startswith("__"):
                        used.setdefault(n.attr, n)
                elif isinstance(n, ast.Call) and ast.unparse(n.func).split(".")[-1] in ("setattr", "__setattr__"):
                    have.add("*")
        if "*" in have:
            continue
        R.ok("component", f"{cname}: attributes ({len(used)})")
        for a, n in sorted(used.items()):
            if a not in have:
                R.bad("component", f"{cname}: self.{a}", "is read but never set", loc(n))


def integrator_names(p, R):
    """the time integrators a configuration can name"""
    want = {"euler1": ("Euler1", None, "full"), "tvdrk3": ("Tvdrk3", None, "full"), "ros2": ("Ros2", None, "full"), "rosexp2": ("RosExp2", None, "full"), "partrosexp2": ("PartRosExp2", None, "full"),
            "imex2": ("Imex2", None, "explicit"), "backward_euler": ("BackwardEuler", None, "full"), "bdf2": ("Bdf2", None, "full"), "crank_nicolson": ("CrankNicolson", None, "full"),
            "strang_epi2_ros2": ("StrangSplitting", None, None), "strang_ros2_epi2": ("StrangSplitting", None, None)}
    for o in range(2, 7):
        want[f"epi{o}"] = ("Epi", o, "full")
        if o > 2:
            want[f"srerk{o}"] = ("Srerk", o, "full")
            want[f"epi_stiff{o}"] = ("EpiStiff", o, "full")
    for name in list(want) + ["no_such_method", "epi", "epi_stiff", "srerk", "EPI2x", "ros", ""]:
        I = interp(p)
        comm = Obj(None, "comm", {"rank": 0, "size": 1})
        dev = Obj(None, "device", {"comm": comm, "xp": ExtRef("numpy")})
        calls = []

        def stand_in(cname):
            mm, cn = p.find_class(cname)
            init = p.find_method(mm, cn, "__init__")
            names = [x.arg for x in init[2].args.args[1:]]

            def h(I2, a, k, n):
                d = dict(zip(names, a))
                d.update(k)
                o = Obj((mm, cn), cname, {})
                calls.append((cname, d, o))
                return o
            return h
        for cname in {w[0] for w in want.values()}:
            mm, cn = p.find_class(cname)
            I.hooks[cname] = I.hooks[f"{mm.name}.{cname}"] = stand_in(cname)
        rhs = Obj(None, "rhs", {k: Obj(None, k, {}) for k in ("full", "implicit", "explicit")})
        cfg = Obj(None, "config", {"time_integrator": name, "verbose_solver": 0})
        m, c = p.find_class("Simulation")
        f = p.find_method(m, c, "_create_time_integrator")
        if f is None:
            raise AnalysisError("anchor vanished: Simulation._create_time_integrator")
        pre = Obj(None, "preconditioner", {})
        sim = Obj((m, c), "simulation", {"config": cfg, "rhs": rhs, "device": dev, "comm": comm, "rank": 0, "preconditioner": pre})
        lab = f"time_integrator = {name!r}"
        try:
            got = I.call_func(Func(f[0], f[2], cls=(f[0], f[1])), [sim], {}, None)
        except RaiseOutcome as e:
            ok, nm = explicit(e)
            R.check(name not in want and ok, "integrator", lab, f"ends in {nm}", loc(f[2]))
            continue
        finally:
            R.analysed |= I.analysed
        if name not in want:
            R.bad("integrator", lab, f"runs {getattr(got, 'name', got)!r}", loc(f[2]))
            continue
        cname, order, handle = want[name]
        R.check(isinstance(got, Obj) and got.name == cname, "integrator", lab, f"{getattr(got, 'name', got)!r} instead of {cname}", loc(f[2]))
        args = calls[-1][1] if calls else {}
        if order is not None:
            R.check(args.get("order") == order, "integrator", lab + ": order", f"{args.get('order')!r}", loc(f[2]))
        if handle is not None:
            hs = [v for v in args.values() if isinstance(v, Obj) and v.name in ("full", "implicit", "explicit")]
            R.check(hs and hs[0] is rhs.attrs[handle], "integrator", lab + ": right-hand side", f"{[h.name for h in hs]}", loc(f[2]))
        if cname in ("Ros2", "RosExp2", "PartRosExp2", "BackwardEuler", "Bdf2", "CrankNicolson"):
            R.check(args.get("preconditioner") is pre, "integrator", lab + ": preconditioner", "is not handed over", loc(f[2]))
        if name.startswith("strang"):
            parts = [x[0] for x in calls[:-1]]
            order_ = ["Epi", "Ros2"] if name == "strang_epi2_ros2" else ["Ros2", "Epi"]
            steppers = [v.name for v in args.values() if isinstance(v, Obj) and v.name in ("Epi", "Ros2")]
            R.check(steppers == order_, "integrator", lab + ": order of the parts", f"{steppers}", loc(f[2]))


# ------------------------------------------------------------------ test cases
CASES = {"netcdf2": (0, 1, 2, 5, 6, 8, 9, 10), "netcdf3": (11, 12, 20, 21, 22, 31, 77), "cartesian": (0, 1, 2, 3, 4)}
INIT = {"netcdf2": "initialize_sw", "netcdf3": "initialize_euler", "cartesian": "initialize_cartesian2d"}


def real(p, I, world, r, kind, case, ne=1, nev=2, n=2, **options):
    """grid, metric and operators as the simulation builds them, in exact arithmetic"""
    I.strict = True
    num = lambda x: hp.C(mp.mpf(x))
    comm = world.obj(r)
    dev = Obj(None, "device", {"xp": I.xp, "comm": comm, "to_host": Hook("to_host", lambda I2, a, k, nd: a[0]), "synchronize": Hook("synchronize", lambda *a: None)})
    I.attr_hook = lambda I2, v, attr: comm if attr == "COMM_WORLD" and isinstance(v, ExtRef) else missing(I2, v, attr)
    eq = "shallow_water" if kind == "netcdf2" else "euler"
    cfg = Obj(None, "Configuration", dict(c07.CONFIG, case_number=case, equations=eq, grid_type="cartesian2d" if kind == "cartesian" else "cubed_sphere", dt=num(30), t_end=num(100), ztop=num(30000), depth_approx="shallow",
              bubble_theta=num("0.5"), bubble_rad=num(250), matsuno_wave_type="Rossby", matsuno_amp=num("1e-5"), num_elements_horizontal=ne, num_elements_vertical=nev, num_solpts=n, filter_apply=False, expfilter_apply=False,
              apply_sponge=False, lambda0=num("0.1"), phi0=num("0.2"), alpha0=num("0.3")), strict=True)
    cfg.attrs.update(options)
    if kind == "cartesian":
        g = I.instantiate("geometry.cartesian_2d_mesh", "Cartesian2D", [(0, 1000), (0, 1500), ne, nev, n, dev])
        ops = I.instantiate("geometry.operators", "DFROperators", [g, cfg, dev])
        return g, cfg, None, ops, dev
    pt = I.instantiate("process_topology", "ProcessTopology", [dev], {"comm": comm})
    where = [cfg.attrs[x] for x in ("lambda0", "phi0", "alpha0")]
    if kind == "netcdf2":
        g = I.instantiate("geometry.cubed_sphere_2d", "CubedSphere2D", [ne, n] + where + [pt, cfg, dev])
    else:
        g = I.instantiate("geometry.cubed_sphere_3d", "CubedSphere3D", [ne, nev, n] + where + [cfg.attrs["ztop"], pt, cfg, dev])
    ops = I.instantiate("geometry.operators", "DFROperators", [g, cfg, dev])
    metric = I.instantiate("geometry.metric2d", "Metric2D", [g]) if kind == "netcdf2" else I.instantiate("geometry.metric3d", "Metric3DTopo", [g, ops])
    return g, cfg, metric, ops, dev


STORED = {}


def stored(p):
    """names of all attributes any code of the project sets"""
    k = id(p)
    if k not in STORED:
        STORED[k] = {n.attr for m in p.modules.values() for n in ast.walk(m.tree) if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store)}
    return STORED[k]


def missing(I, v, attr):
    """an attribute that no instance of the class has -> AttributeError"""
    if not isinstance(v, Obj) or v.cls is None or attr in v.attrs or attr.startswith("__") or attr in stored(I.p):
        return MISSING
    for mm, cc in I.p.mro(*v.cls):
        if sum(ast.unparse(b).split("[")[0].split(".")[-1] not in ("ABC", "object", "Generic", "Protocol") for b in cc.bases) != len(I.p.class_bases(mm, cc)):
            return MISSING
        for st in cc.body:
            if isinstance(st, (ast.FunctionDef, ast.ClassDef)) and st.name in (attr, "__getattr__", "__getattribute__"):
                return MISSING
            if isinstance(st, (ast.Assign, ast.AnnAssign)) and any(isinstance(t, ast.Name) and t.id == attr for t in (st.targets if isinstance(st, ast.Assign) else [st.target])):
                return MISSING
        if any(isinstance(st, ast.Call) and ast.unparse(st.func).split(".")[-1] in ("setattr", "__setattr__", "update") for st in ast.walk(cc)):
            return MISSING
    raise RaiseOutcome(ExtRef("builtins.AttributeError"), None)


def start(p, R, kind, case, ne=1, **options):
    """the initial state of a test case has the layout of the grid and the variables of the equations"""
    lab = f"{INIT[kind]}, case_number = {case}" + "".join(f", {k} = {v}" for k, v in options.items()) + (f", {ne} elements per side" if ne > 1 else "")

    def body(r, world):
        I = c15.interp(p)
        g, cfg, metric, ops, dev = real(p, I, world, r, kind, case, ne=ne, **options)
        f = I.get_func("init.initialize", INIT[kind])
        args = [g, cfg] if kind == "cartesian" else [g, metric, ops, cfg]
        try:
            v = I.call(f, args, {}, None)
        except RaiseOutcome as e:
            return e, None
        except ArrayError as e:        # shapes that do not fit
            return RaiseOutcome(ExtRef("builtins.ValueError"), None), None
        finally:
            R.analysed.update(I.analysed)
        return v, (2, ne, 4) if kind == "cartesian" else g.attrs[next(x for x in ("grid_shape_3d_new", "grid_shape") if x in g.attrs)]
    out = World(1 if kind == "cartesian" else 6).run(body)
    where = "init/initialize.py"
    known = case in CASES[kind]
    for k, v in out:
        if k != "ok":
            raise AnalysisError(f"{lab}: " + " | ".join(str(x)[:150] for q, x in out if q != "ok" and "has ended" not in str(x))[:500])
    nvar = None if kind == "netcdf2" else num_var(p, "PDEEulerCartesian" if kind == "cartesian" else "PDEEulerCubesphere")
    for r, (k, v) in enumerate(out):
        if isinstance(v[0], RaiseOutcome):
            ok, nm = explicit(v[0])
            R.check(ok and not known, "case", lab, f"ends in {nm} at {loc(v[0].node) if v[0].node is not None else '?'}", where)
            continue
        if not known:
            R.bad("case", lab, "an unknown test case is accepted", where)
            continue
        val, shape = v
        Q = val[0] if isinstance(val, tuple) else val
        if not isinstance(Q, LA):
            raise AnalysisError(f"{lab}: the initial state is {Q!r}"[:200])
        R.check(Q.a.shape[1:] == tuple(shape), "case", lab + ": layout", f"shape {Q.a.shape}, the grid has {shape}", where)
        R.check(hp.matrix_of(Q) is not None and all(mp.isfinite(x) for x in hp.matrix_of(Q).flat), "case", lab + ": every point is set", "", where)
        if nvar is not None:
            R.check(Q.a.shape[0] == nvar, "variables", lab, f"{Q.a.shape[0]} variables, the right-hand side is made for {nvar}", where)


def num_var(p, cname):
    m, c = p.find_class(cname)
    for mm, cc in p.mro(m, c):
        f = next((x for x in cc.body if isinstance(x, ast.FunctionDef) and x.name == "__init__"), None)
        if f is None:
            continue
        for n in ast.walk(f):
            if isinstance(n, ast.Call) and ast.unparse(n.func).endswith("__init__") and len(n.args) + len(n.keywords) >= 3:
                ints = [x.value for x in list(n.args) + [k.value for k in n.keywords] if isinstance(x, ast.Constant) and isinstance(x.value, int) and not isinstance(x.value, bool)]
                kw = {k.arg: k.value.value for k in n.keywords if isinstance(k.value, ast.Constant)}
                return kw.get("num_var") or (max(ints) if ints else None)
    return None


def run(p, R, tier):
    R.explanation = ("The configuration reader is interpreted on the schema of the repository, once per option and class of value (choices, both sides of every bound, malformed texts, missing); reads of options are enumerated from the syntax tree; "
                     "the constructors that select components are interpreted with recording stand-ins for every choice; the initial conditions are interpreted on generic grids.")
    R.rule("keys", "every attribute of an option in the schema is one the reader looks at", 200)
    R.rule("read", "a valid value is accepted and stored under the option's name with the declared type", 100)
    R.rule("refused", "values outside the declared choices or bounds, and malformed values, are refused", 60)
    R.rule("default", "a missing option takes its declared default, or is refused when it has none", 60)
    R.rule("declared", "every option the program reads is declared in the schema", 60)
    R.rule("solver", "the solver that runs is the one chosen, or the choice is refused", 60)
    R.rule("integrator", "the time integrator that runs is the one named; unknown names are refused", 40)
    R.rule("component", "grid, equations, output format, device and preconditioner select the components of that name, with the options they are described by", 60)
    R.rule("case", "every test case offered starts, on the layout of the grid; unknown ones are refused", 30)
    R.rule("variables", "the initial state has the variables of the equations", 5)
    tasks = [("p",), ("d",), ("m",), ("n",), ("a",)] + [("s", n) for n in c08.NAMES if c08.NAMES[n] <= 3 or n == "srerk4"]
    for grid in c08.selectables(p, "grid_type"):
        for eq in c08.selectables(p, "equations"):
            for fmt in c08.selectables(p, "output_format") or ("netcdf", "fst"):
                tasks.append(("c", grid, eq, fmt, "cpu", "none"))
    for pc in c08.selectables(p, "preconditioner"):
        tasks.append(("c", "cubed_sphere", "shallow_water", None, "cpu", pc))
    for ds in c08.selectables(p, "discretization"):
        if ds != "dg":
            tasks += [("c", g_, e_, None, "cpu", "none", True, ds) for g_, e_ in (("cartesian2d", "euler"), ("cubed_sphere", "euler"), ("cubed_sphere", "shallow_water"))]
    tasks += [("c", "cartesian2d", "euler", None, "cuda", "none"), ("c", "cartesian2d", "euler", None, "cuda", "none", False)]
    for dim in (2, 3):
        c07.GEO[dim] = layout.geometry_obj(p, dim, 1, 2, 2, 0)[1]
    for k in CASES:
        tasks += [("i", k, c) for c in CASES[k] + (-1, 99)]
    tasks += [("i", "netcdf2", 9, 1, {"matsuno_wave_type": w}) for w in c08.selectables(p, "matsuno_wave_type") or ()]
    tasks += [("i", "netcdf2", 5, 2, {}), ("i", "cartesian", 2, 2, {}), ("i", "netcdf3", 21, 1, {"depth_approx": "deep"})]

    def one(t):
        if t[0] == "p":
            return parsing(p, R)
        if t[0] == "d":
            return declared(p, R)
        if t[0] == "m":
            return methods(p, R)
        if t[0] == "n":
            return integrator_names(p, R)
        if t[0] == "s":
            return solver_choice(p, R, t[1])
        if t[0] == "c":
            return components(p, R, *t[1:])
        if t[0] == "a":
            return attributes(p, R)
        return start(p, R, *t[1:4], **(t[4] if len(t) > 4 else {}))
    pmap(one, tasks, R)
