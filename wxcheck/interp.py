"""Abstract interpreter for the Python subset used by the project.

It evaluates functions over the algebraic normal-form domain (algebra.Expr) with
context-sensitive inlining of project functions, gated joins (phi) at branches
whose condition the domain cannot decide, and havoc for loops it cannot bound.
External calls are uninterpreted unless a hook gives them a transfer function.
No project code is executed.
"""
from __future__ import annotations

import ast
import builtins
import sqlite3
import itertools
import math
from fractions import Fraction
from typing import Any, Callable, Dict, List, Optional

from . import algebra as A
from .algebra import Expr, to_expr
from .project import AnalysisError, Project, loc, qualname


class Obj:
    """abstract object: instance of a project class, or an anonymous record"""

    def __init__(self, cls=None, name="obj", attrs=None, strict=False):
        self.cls = cls  # (Module, ClassDef) or None
        self.name = name
        self.attrs = dict(attrs or {})
        self.strict = strict

    def __repr__(self):
        return f"<{self.name}>"


class Opaque:
    """value about which nothing is known except its identity (hash-consed by key)"""

    _pool: Dict[Any, "Opaque"] = {}

    def __new__(cls, key):
        try:
            o = cls._pool.get(key)
        except TypeError:
            key = repr(key)
            o = cls._pool.get(key)
        if o is None:
            o = object.__new__(cls)
            o.key = key
            cls._pool[key] = o
        return o

    def __repr__(self):
        return f"?{self.key}"

    def __deepcopy__(self, m):
        return self

    @property
    def expr(self):
        return Expr.of_atom(A.atom("opq", str(self.key)))


class ExtRef:
    """reference to something external, by dotted name (numpy.sin, mpi4py.MPI.SUM...)"""

    def __init__(self, dotted):
        self.dotted = dotted

    def __repr__(self):
        return f"<ext {self.dotted}>"

    def __eq__(self, o):
        return isinstance(o, ExtRef) and o.dotted == self.dotted

    def __hash__(self):
        return hash(self.dotted)


class ModRef:
    def __init__(self, module):
        self.module = module


class ClassRef:
    def __init__(self, module, node):
        self.module = module
        self.node = node

    def __repr__(self):
        return f"<class {self.node.name}>"

    def __eq__(self, o):
        return isinstance(o, ClassRef) and o.node is self.node

    def __hash__(self):
        return hash(id(self.node))


class Func:
    def __init__(self, module, node, closure=None, cls=None, defaults=None):
        self.module = module
        self.node = node
        self.closure = closure  # Frame
        self.cls = cls
        self.defaults = defaults

    def __repr__(self):
        return f"<func {getattr(self.node, 'name', 'lambda')}>"


class Bound:
    def __init__(self, func, self_val):
        self.func = func
        self.self_val = self_val

    def __repr__(self):
        return f"<bound {self.func}>"


class Hook:
    """callable transfer function: fn(interp, args, kwargs, node) -> value"""

    def __init__(self, name, fn):
        self.name = name
        self.fn = fn

    def __repr__(self):
        return f"<hook {self.name}>"


class Phi:
    """gated join of two non algebraic values"""

    def __init__(self, cond, a, b):
        self.cond, self.a, self.b = cond, a, b

    def __repr__(self):
        return f"phi({self.cond}, {self.a}, {self.b})"


class AbsVal:
    """value of an abstract domain that supplies its own transfer functions"""

    mutable = False

    def a_binop(self, I, op, other, swapped, node):
        return Opaque((op, repr(self), I.keyof(other), swapped))

    def a_attr(self, I, attr, node):
        return Opaque((repr(self), attr))

    def a_getitem(self, I, idx, node):
        return Opaque(("item", repr(self), repr(idx)))

    def a_setitem(self, I, idx, v, node):
        raise Unsupported(f"assignment to an element of {self!r} at {loc(node)}")

    def a_iter(self, I, node):
        return None

    def a_truth(self, I):
        return None

    def a_compare(self, I, op, other, swapped, node):
        return MISSING

    def a_inplace(self, I, v):
        """update in place; False when the value is immutable"""
        return False


class Partial:
    def __init__(self, f, args, kw):
        self.f, self.args, self.kw = f, args, kw


class NDA:
    """abstract array: cells with constant leading indices; `base` for the others"""

    def __init__(self, base=None, cells=None, name="arr"):
        self.base = base
        self.cells = dict(cells or {})
        self.name = name
        self.shape = None

    def __repr__(self):
        return f"NDA({self.name},{len(self.cells)} cells)"


class ShapeV:
    """shape of an array of which only the leading extent is known"""

    def __init__(self, lead, tag):
        self.lead = lead
        self.tag = tag

    def __repr__(self):
        return f"shape({self.lead},{self.tag})"


class RaiseOutcome(Exception):
    def __init__(self, val, node):
        self.val = val
        self.node = node


class Unsupported(AnalysisError):
    pass


class _Return:
    def __init__(self, v):
        self.v = v


BREAK = object()
CONT = object()
FALL = None


class Frame:
    def __init__(self, module, parent=None, func=None):
        self.vars: Dict[str, Any] = {}
        self.module = module
        self.parent = parent
        self.func = func
        self.globals_decl = set()
        self.nonlocal_decl = set()
        self.pending: list = []


MISSING = object()


class Interp:
    def __init__(self, project: Project, hooks: Dict[str, Callable] = None, max_steps=2_000_000, decide=None):
        self.p = project
        self.hooks: Dict[str, Callable] = dict(BASE_HOOKS)
        if hooks:
            self.hooks.update(hooks)
        self.modvars: Dict[tuple, Any] = {}
        self.steps = 0
        self.max_steps = max_steps
        self.decide = decide  # decide(op, a, b) -> bool | None
        self.depth = 0
        self.journal: list = []
        self.notes: List[str] = []
        self.analysed: set = set()
        self.havoc_count = 0
        self.real_numpy = None  # array module of the label-array domain
        self.strict = False  # calls with missing arguments and undefined names raise what Python raises
        self.attr_hook = None  # fn(interp, value, attr) -> value | MISSING
        self.cond_stack: list = []
        self.exact = False  # exceptions and context managers with their exact meaning
        self._last_raise = None

    # ------------------------------------------------------------------ stores
    def _log(self, kind, cont, key, old):
        self.journal.append((kind, cont, key, old))

    def setvar(self, fr: Frame, name, val):
        if name in fr.nonlocal_decl:
            f = fr.parent
            while f is not None:
                if name in f.vars:
                    fr = f
                    break
                f = f.parent
        if name in fr.globals_decl:
            k = (fr.module.name, name)
            self._log("d", self.modvars, k, self.modvars.get(k, MISSING))
            self.modvars[k] = val
            return
        self._log("d", fr.vars, name, fr.vars.get(name, MISSING))
        fr.vars[name] = val

    def setattr_(self, o, name, val):
        if isinstance(o, Obj):
            self._log("d", o.attrs, name, o.attrs.get(name, MISSING))
            o.attrs[name] = val
        elif isinstance(o, Phi):
            pass
        elif isinstance(o, Func):
            d = o.__dict__.setdefault("fattrs", {})
            self._log("d", d, name, d.get(name, MISSING))
            d[name] = val
        elif isinstance(o, AbsVal) and hasattr(o, "a_setattr"):
            o.a_setattr(self, name, val)
        # opaque/external: effect ignored

    def snapshot(self, c):
        if isinstance(c, NDA):
            self._log("nda", c, None, (c.base, dict(c.cells)))
        elif isinstance(c, list):
            self._log("list", c, None, list(c))
        elif isinstance(c, set):
            self._log("set", c, None, set(c))
        elif isinstance(c, dict):
            self._log("dict", c, None, dict(c))

    def _restore(self, ent):
        kind, cont, key, old = ent
        if kind == "d":
            if old is MISSING:
                cont.pop(key, None)
            else:
                cont[key] = old
        elif kind == "nda":
            cont.base, cells = old
            cont.cells = dict(cells)
        elif kind == "list":
            cont[:] = old
        elif kind == "set":
            cont.clear()
            cont.update(old)
        elif kind == "dict":
            cont.clear()
            cont.update(old)

    def _current(self, kind, cont, key):
        if kind == "d":
            return cont.get(key, MISSING)
        if kind == "nda":
            return (cont.base, dict(cont.cells))
        if kind == "list":
            return list(cont)
        if kind == "set":
            return set(cont)
        return dict(cont)

    def _rollback(self, mark):
        """undo to mark; return final values of written locations {(kind,id,key): (cont, value)}"""
        final = {}
        for kind, cont, key, _ in self.journal[mark:]:
            k = (kind, id(cont), key)
            if k not in final:
                final[k] = (kind, cont, key, self._current(kind, cont, key))
        while len(self.journal) > mark:
            self._restore(self.journal.pop())
        return final

    def _apply_join(self, cond, fa, fb):
        for k in list(fa) + [k for k in fb if k not in fa]:
            kind, cont, key, _ = (fa.get(k) or fb.get(k))
            cur = self._current(kind, cont, key)
            va = fa[k][3] if k in fa else cur
            vb = fb[k][3] if k in fb else cur
            if kind == "d":
                if va is MISSING and vb is MISSING:
                    continue
                if va is MISSING:
                    v = vb
                elif vb is MISSING:
                    v = va
                else:
                    v = self.phi(cond, va, vb)
                self._log("d", cont, key, cont.get(key, MISSING))
                cont[key] = v
            elif kind == "nda":
                self.snapshot(cont)
                cont.base = self.phi(cond, va[0], vb[0])
                keys = list(va[1]) + [x for x in vb[1] if x not in va[1]]
                cont.cells = {x: self.phi(cond, va[1].get(x, va[0]), vb[1].get(x, vb[0])) for x in keys}
            elif kind == "list":
                self.snapshot(cont)
                if len(va) == len(vb):
                    cont[:] = [self.phi(cond, x, y) for x, y in zip(va, vb)]
                else:
                    cont[:] = va if len(va) > len(vb) else vb
                    self.notes.append("list of gated length")
            elif kind == "dict":
                self.snapshot(cont)
                cont.clear()
                for x in list(va) + [x for x in vb if x not in va]:
                    cont[x] = va[x] if x not in vb else vb[x] if x not in va else self.phi(cond, va[x], vb[x])
            elif kind == "set":
                self.snapshot(cont)
                cont.clear()
                cont.update(va | vb)

    def phi(self, cond, a, b):
        if same(a, b):
            return a
        try:
            ea, eb = self.as_expr(a), self.as_expr(b)
            A.PHI_CONDS[str(cond)] = cond
            return A.app("phi", str(cond), ea, eb)
        except TypeError:
            pass
        if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)) and len(a) == len(b):
            return type(a)(self.phi(cond, x, y) for x, y in zip(a, b))
        return Phi(cond, a, b)

    # ------------------------------------------------------------------ helpers
    def as_expr(self, v) -> Expr:
        if isinstance(v, Expr):
            return v
        if isinstance(v, Opaque):
            return v.expr
        if isinstance(v, (bool, int, Fraction)):
            return to_expr(v)
        if isinstance(v, float):
            if math.isinf(v):
                return A.sym("inf") if v > 0 else -A.sym("inf")
            if math.isnan(v):
                return A.sym("nan")
            return to_expr(v)
        if isinstance(v, complex):
            return to_expr(v)
        raise TypeError(f"not algebraic {v!r}")

    def is_alg(self, v):
        return isinstance(v, (Expr, Opaque, int, Fraction, float, complex)) and not isinstance(v, str)

    def simplify(self, e):
        """constants come back as python numbers"""
        if isinstance(e, Expr) and e.is_const():
            c = e.const_value()
            return int(c) if c.denominator == 1 and False else (c if c.denominator != 1 else int(c))
        return e

    # ------------------------------------------------------------------ calls
    def instantiate(self, module_hint, clsname, args=(), kwargs=None):
        m, c = self.p.find_class(clsname, module_hint)
        return self.call(ClassRef(m, c), list(args), dict(kwargs or {}), None)

    def get_func(self, module, name):
        m, f = self.p.find_function(name, module)
        return Func(m, f)

    def get_method(self, module_hint, clsname, meth):
        m, c = self.p.find_class(clsname, module_hint)
        r = self.p.find_method(m, c, meth)
        if r is None:
            raise AnalysisError(f"anchor vanished: method {clsname}.{meth}")
        return Func(r[0], r[2], cls=(r[0], r[1]))

    def call(self, f, args, kwargs, node):
        if isinstance(f, Hook):
            return f.fn(self, args, kwargs, node)
        if isinstance(f, Partial):
            kw = dict(f.kw)
            kw.update(kwargs)
            return self.call(f.f, list(f.args) + list(args), kw, node)
        if isinstance(f, Bound):
            return self.call_func(f.func, [f.self_val] + list(args), kwargs, node)
        if isinstance(f, Func):
            return self.call_func(f, list(args), kwargs, node)
        if isinstance(f, ClassRef):
            name = f"{f.module.name}.{f.node.name}"
            for k in (name, f.node.name):
                if k in self.hooks:
                    return self.hooks[k](self, args, kwargs, node)
            if getattr(self, "value_classes", None) is not None:
                ext = [ast.unparse(b) for (_, cc) in self.p.mro(f.module, f.node) for b in cc.bases]
                if any(b in ("str", "int", "float") for b in ext):
                    r = self.p.find_method(f.module, f.node, "__new__")
                    if r is not None:
                        return self.call_func(Func(r[0], r[2], cls=(r[0], r[1])), [f] + list(args), kwargs, node)
                    return self.value_classes(self, [f] + list(args), node)
            o = Obj((f.module, f.node), name=f.node.name)
            r = self.p.find_method(f.module, f.node, "__init__")
            if r is not None:
                self.call_func(Func(r[0], r[2], cls=(r[0], r[1])), [o] + list(args), kwargs, node)
            else:
                # dataclass / NamedTuple like
                fields = [st for (_, cc) in reversed(self.p.mro(f.module, f.node)) for st in cc.body if isinstance(st, ast.AnnAssign)]
                names = [st.target.id for st in fields]
                for n, v in zip(names, args):
                    o.attrs[n] = v
                o.attrs.update(kwargs)
                for st in fields:
                    if st.target.id not in o.attrs and st.value is not None:
                        o.attrs[st.target.id] = self.eval(st.value, Frame(f.module))
            return o
        if isinstance(f, ExtRef):
            return self.call_ext(f.dotted, args, kwargs, node)
        if isinstance(f, Phi):
            return self.phi(f.cond, self.call(f.a, args, kwargs, node), self.call(f.b, args, kwargs, node))
        if isinstance(f, Obj):
            m = self.getattr_(f, "__call__", node)
            if m is not None and not isinstance(m, Opaque):
                return self.call(m, args, kwargs, node)
        if isinstance(f, Opaque):
            return self.opaque_call(f.key, args, kwargs)
        if isinstance(f, Expr):
            return self.opaque_call(str(f), args, kwargs)
        if hasattr(f, "a_call"):
            return f.a_call(self, args, kwargs, node)
        raise Unsupported(f"cannot call {f!r} at {loc(node) if node is not None else '?'}")

    def opaque_call(self, key, args, kwargs):
        return Opaque(("call", key, tuple(self.keyof(a) for a in args), tuple(sorted((k, self.keyof(v)) for k, v in kwargs.items()))))

    def keyof(self, v):
        if isinstance(v, (Expr, Opaque)):
            return v
        if isinstance(v, (list, tuple)):
            return tuple(self.keyof(x) for x in v)
        if isinstance(v, (int, str, Fraction, float, bool, type(None))):
            return v
        return repr(v)

    def call_ext(self, dotted, args, kwargs, node):
        h = self.hooks.get(dotted)
        if h is None and self.real_numpy is not None and dotted.split(".")[0] in ("numpy", "cupy"):
            f = self.real_numpy.fns.get(dotted.split(".", 1)[1])
            if f is not None:
                r = f(self, args, kwargs, node)
                if r is not MISSING:
                    return r
        if h is None:
            short = dotted.split(".")[-1]
            root = dotted.split(".")[0]
            if root in ("numpy", "cupy", "math", "xp", "scipy"):
                h = NUMPY_HOOKS.get(short)
        if h is not None:
            return h(self, args, kwargs, node)
        return self.opaque_call(dotted, args, kwargs)

    def call_func(self, f: Func, args, kwargs, node):
        fn = f.node
        name = getattr(fn, "name", "<lambda>")
        qn = qualname(fn)
        for k in (qn, name if f.cls is None else f"{f.cls[1].name}.{name}"):
            if k in self.hooks:
                h = self.hooks[k]
                return h(self, args, kwargs, node)
        if self.depth > 60:
            return self.opaque_call(qn, args, kwargs)
        self.analysed.add(qn)
        fr = Frame(f.module, f.closure, f)
        self.bind(fr, f, args, kwargs, node)
        self.depth += 1
        try:
            if isinstance(fn, ast.Lambda):
                return self.eval(fn.body, fr)
            if any(isinstance(d, ast.Name) and d.id == "contextmanager" for d in fn.decorator_list):
                return Opaque(("ctx", qn))
            if _is_generator(fn):
                fr.vars["__yield__"] = []
                self.exec_block(fn.body, fr)
                return list(fr.vars["__yield__"])
            out = self.exec_block(fn.body, fr)
            val = out.v if isinstance(out, _Return) else None
            for (cond, v, fin, mark) in reversed(fr.pending):
                later = self._rollback(mark)
                self._apply_join(cond, fin, later)
                val = self.phi(cond, v, val) if out is not RAISED else v
            if out is RAISED and not fr.pending:
                raise RaiseOutcome(self._last_raise, node)
            return val
        finally:
            self.depth -= 1

    def bind(self, fr, f: Func, args, kwargs, node):
        a = f.node.args
        params = [x.arg for x in a.posonlyargs + a.args]
        kwargs = dict(kwargs)
        if a.vararg:
            fr.vars[a.vararg.arg] = tuple(args[len(params):])
        elif len(args) > len(params):
            raise Unsupported(f"too many arguments calling {qualname(f.node)} at {loc(node) if node is not None else '?'}")
        for n, v in zip(params, args):
            fr.vars[n] = v
        for n in params[len(args):] + [x.arg for x in a.kwonlyargs]:
            if n in kwargs:
                fr.vars[n] = kwargs.pop(n)
        dparams = params[len(params) - len(a.defaults):] if a.defaults else []
        dfr = Frame(f.module, f.closure)
        for n, d in zip(dparams, a.defaults):
            if n not in fr.vars:
                fr.vars[n] = f.defaults[n] if f.defaults and n in f.defaults else self.eval(d, dfr)
        for n, d in zip(a.kwonlyargs, a.kw_defaults):
            if n.arg not in fr.vars and d is not None:
                fr.vars[n.arg] = self.eval(d, dfr)
        if a.kwarg:
            fr.vars[a.kwarg.arg] = kwargs
        if self.strict and node is not None and (any(n not in fr.vars for n in params) or kwargs and not a.kwarg and not any(isinstance(v, Opaque) for v in kwargs.values())):
            raise RaiseOutcome(ExtRef("builtins.TypeError"), node)
        for n in params:
            if n not in fr.vars:
                fr.vars[n] = Opaque(("param", qualname(f.node), n))

    # ------------------------------------------------------------------ statements
    def exec_block(self, stmts, fr):
        for st in stmts:
            out = self.exec(st, fr)
            if out is not FALL:
                return out
        return FALL

    def exec(self, st, fr):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Unsupported("step budget exhausted")
        m = getattr(self, "s_" + type(st).__name__, None)
        if m is None:
            raise Unsupported(f"statement {type(st).__name__} at {loc(st)}")
        return m(st, fr)

    def s_Expr(self, st, fr):
        if isinstance(st.value, ast.Constant):
            return
        if isinstance(st.value, ast.Yield):
            v = self.eval(st.value.value, fr) if st.value.value else None
            f = fr
            self.snapshot(f.vars["__yield__"])
            f.vars["__yield__"].append(v)
            return
        try:
            self.eval(st.value, fr)
        except RaiseOutcome as r:
            self._last_raise = r.val
            return RAISED

    def s_Pass(self, st, fr):
        return

    def s_Import(self, st, fr):
        for a in st.names:
            tgt = a.asname or a.name.split(".")[0]
            base = a.name if a.asname else a.name.split(".")[0]
            self.setvar(fr, tgt, ModRef(self.p.modules[base]) if base in self.p.modules else ExtRef(base))

    def s_ImportFrom(self, st, fr):
        base = st.module or ""
        if st.level:
            parts = fr.module.name.split(".")
            parts = parts[: len(parts) - st.level]
            base = ".".join(parts + ([st.module] if st.module else []))
        for a in st.names:
            if base in self.p.modules:
                v = self.global_lookup(base, a.name)
                if v is MISSING:
                    v = ExtRef(f"{base}.{a.name}")
            else:
                v = ExtRef(f"{base}.{a.name}")
            self.setvar(fr, a.asname or a.name, v)

    def s_Global(self, st, fr):
        fr.globals_decl |= set(st.names)

    def s_Nonlocal(self, st, fr):
        fr.nonlocal_decl |= set(st.names)

    def s_FunctionDef(self, st, fr):
        self.setvar(fr, st.name, self.make_func(st, fr))

    def make_func(self, st, fr):
        dfl = {}
        a = st.args
        params = [x.arg for x in a.posonlyargs + a.args]
        for n, d in zip(params[len(params) - len(a.defaults):] if a.defaults else [], a.defaults):
            dfl[n] = self.eval(d, fr)
        return Func(fr.module, st, closure=fr, defaults=dfl)

    def s_ClassDef(self, st, fr):
        self.setvar(fr, st.name, ClassRef(fr.module, st))

    def s_Return(self, st, fr):
        try:
            return _Return(self.eval(st.value, fr) if st.value is not None else None)
        except RaiseOutcome as r:
            self._last_raise = r.val
            return RAISED

    def s_Break(self, st, fr):
        return BREAK

    def s_Continue(self, st, fr):
        return CONT

    def s_Raise(self, st, fr):
        self._last_raise = self.eval(st.exc, fr) if st.exc is not None else None
        return RAISED

    def s_Assert(self, st, fr):
        return

    def s_Delete(self, st, fr):
        for t in st.targets:
            if isinstance(t, ast.Name) and t.id in fr.vars:
                self._log("d", fr.vars, t.id, fr.vars[t.id])
                del fr.vars[t.id]

    def s_Assign(self, st, fr):
        try:
            v = self.eval(st.value, fr)
        except RaiseOutcome as r:
            self._last_raise = r.val
            return RAISED
        for t in st.targets:
            self.assign(t, v, fr)

    def s_AnnAssign(self, st, fr):
        if st.value is None:
            return
        try:
            v = self.eval(st.value, fr)
        except RaiseOutcome as r:
            self._last_raise = r.val
            return RAISED
        self.assign(st.target, v, fr)

    def s_AugAssign(self, st, fr):
        t = st.target
        try:
            rhs = self.eval(st.value, fr)
            if isinstance(t, ast.Name):
                cur = self.lookup(t.id, fr, t)
            elif isinstance(t, ast.Attribute):
                cur = self.eval(t, fr)
            else:
                cur = self.eval(t, fr)
        except RaiseOutcome as r:
            self._last_raise = r.val
            return RAISED
        if isinstance(cur, list) and isinstance(st.op, ast.Add):
            self.snapshot(cur)
            cur.extend(self.iterate(rhs, st))
            return
        if isinstance(cur, dict) and isinstance(st.op, ast.BitOr) and isinstance(rhs, dict):
            self.snapshot(cur)
            cur.update(rhs)
            return
        if isinstance(cur, set) and isinstance(rhs, (set, frozenset)) and isinstance(st.op, ast.BitOr):
            self.snapshot(cur)
            cur.update(rhs)
            return
        v = self.binop(type(st.op).__name__, cur, rhs, st)
        if isinstance(cur, AbsVal) and cur.a_inplace(self, v):
            if isinstance(t, ast.Subscript):
                self.assign(t, cur, fr)
            return
        if isinstance(cur, NDA):
            # in-place update: aliases see it
            self.snapshot(cur)
            if isinstance(v, NDA):
                cur.base, cur.cells = v.base, dict(v.cells)
            else:
                cur.base, cur.cells = v, {}
            if isinstance(t, ast.Subscript):
                self.assign(t, cur, fr)
            return
        self.assign(t, v, fr)

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.setvar(fr, t.id, v)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, fr)
            self.setattr_(o, t.attr, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            items = self.unpack(v, len(t.elts), t)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                i = star[0]
                n_after = len(t.elts) - i - 1
                vals = self.iterate(v, t)
                head, mid, tail = vals[:i], vals[i:len(vals) - n_after], vals[len(vals) - n_after:] if n_after else []
                for e, x in zip(t.elts[:i], head):
                    self.assign(e, x, fr)
                self.assign(t.elts[i].value, list(mid), fr)
                for e, x in zip(t.elts[i + 1:], tail):
                    self.assign(e, x, fr)
                return
            for e, x in zip(t.elts, items):
                self.assign(e, x, fr)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, fr)
            idx = self.eval_index(t.slice, fr)
            self.setitem(o, idx, v, t, fr)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, fr)
        else:
            raise Unsupported(f"assignment target {type(t).__name__} at {loc(t)}")

    def unpack(self, v, n, node):
        if isinstance(v, AbsVal):
            it = v.a_iter(self, node)
            return list(it) if it is not None else [self.getitem(v, i, node) for i in range(n)]
        if isinstance(v, (list, tuple)):
            if len(v) != n and not any(isinstance(e, ast.Starred) for e in node.elts):
                raise RaiseOutcome(ExtRef("builtins.ValueError"), node)
            return list(v)
        if isinstance(v, Phi):
            a = self.unpack(v.a, n, node)
            b = self.unpack(v.b, n, node)
            return [self.phi(v.cond, x, y) for x, y in zip(a, b)]
        if isinstance(v, (Opaque, Expr, NDA)):
            return [self.getitem(v, i, node) for i in range(n)]
        if isinstance(v, dict):
            return list(v.keys())
        if isinstance(v, str):
            return list(v)
        return [Opaque(("unpack", self.keyof(v), i)) for i in range(n)]

    def s_If(self, st, fr):
        try:
            c = self.eval(st.test, fr)
        except RaiseOutcome as r:
            self._last_raise = r.val
            return RAISED
        b = self.truth(c)
        if b is True:
            return self.exec_block(st.body, fr)
        if b is False:
            return self.exec_block(st.orelse, fr)
        return self.fork(c, lambda: self.exec_block(st.body, fr), lambda: self.exec_block(st.orelse, fr), fr, st)

    def fork(self, cond, run_a, run_b, fr, st):
        mark = len(self.journal)
        self.cond_stack.append((cond, True))
        oa = run_a()
        self.cond_stack.pop()
        fa = self._rollback(mark)
        self.cond_stack.append((cond, False))
        ob = run_b()
        self.cond_stack.pop()
        if oa is RAISED and ob is RAISED:
            return RAISED
        if oa is RAISED:
            return ob
        if ob is RAISED:
            self._rollback(mark)
            self._replay(fa)
            return oa
        if type(oa) is type(ob) and not isinstance(oa, _Return) and oa is ob:
            fb = self._rollback(mark)
            self._apply_join(cond, fa, fb)
            return oa
        if isinstance(oa, _Return) and isinstance(ob, _Return):
            fb = self._rollback(mark)
            self._apply_join(cond, fa, fb)
            return _Return(self.phi(cond, oa.v, ob.v))
        if isinstance(oa, _Return) and ob is FALL:
            fb = self._rollback(mark)
            m2 = len(self.journal)
            self._replay(fb)
            fr.pending.append((cond, oa.v, fa, m2))
            return FALL
        if isinstance(ob, _Return) and oa is FALL:
            fb = self._rollback(mark)
            m2 = len(self.journal)
            self._replay(fa)
            fr.pending.append((("not", cond), ob.v, fb, m2))
            return FALL
        # loop exits mixed with fall through
        raise MixedExit()

    def _replay(self, fin):
        for k, (kind, cont, key, val) in fin.items():
            if kind == "d":
                self._log("d", cont, key, cont.get(key, MISSING))
                if val is MISSING:
                    cont.pop(key, None)
                else:
                    cont[key] = val
            else:
                self.snapshot(cont)
                if kind == "nda":
                    cont.base, cont.cells = val[0], dict(val[1])
                elif kind == "list":
                    cont[:] = val
                elif kind == "set":
                    cont.clear(); cont.update(val)
                else:
                    cont.clear(); cont.update(val)

    def s_For(self, st, fr):
        try:
            it = self.eval(st.iter, fr)
        except RaiseOutcome as r:
            self._last_raise = r.val
            return RAISED
        try:
            seq = self.iterate(it, st)
        except TypeError:
            seq = None
        if seq is None or len(seq) > 4096:
            return self.havoc_loop(st, fr)
        mark = len(self.journal)
        try:
            for v in seq:
                self.assign(st.target, v, fr)
                out = self.exec_block(st.body, fr)
                if out is BREAK:
                    return FALL
                if out is CONT or out is FALL:
                    continue
                return out
            return self.exec_block(st.orelse, fr)
        except MixedExit:
            self._rollback(mark)
            return self.havoc_loop(st, fr)

    def s_While(self, st, fr):
        mark = len(self.journal)
        try:
            for _ in range(2000):
                c = self.truth(self.eval(st.test, fr))
                if c is False:
                    return self.exec_block(st.orelse, fr)
                if c is None:
                    self._rollback(mark)
                    return self.havoc_loop(st, fr)
                out = self.exec_block(st.body, fr)
                if out is BREAK:
                    return FALL
                if out is CONT or out is FALL:
                    continue
                return out
        except MixedExit:
            pass
        self._rollback(mark)
        return self.havoc_loop(st, fr)

    def havoc_loop(self, st, fr):
        """forget everything the loop may write"""
        self.havoc_count += 1
        hid = (qualname(fr.func.node) if fr.func else "", getattr(st, "lineno", 0), self.havoc_count)
        for n in ast.walk(st):
            tgts = []
            if isinstance(n, ast.Assign):
                tgts = n.targets
            elif isinstance(n, (ast.AugAssign, ast.AnnAssign)):
                tgts = [n.target]
            elif isinstance(n, ast.For):
                tgts = [n.target]
            elif isinstance(n, ast.withitem) and n.optional_vars is not None:
                tgts = [n.optional_vars]
            for t in tgts:
                for x in ast.walk(t):
                    if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                        self.setvar(fr, x.id, Opaque(("havoc", hid, x.id)))
                    elif isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store):
                        try:
                            o = self.eval(x.value, fr)
                            self.setattr_(o, x.attr, Opaque(("havoc", hid, x.attr)))
                        except (Unsupported, RaiseOutcome):
                            pass
                    elif isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store):
                        b = x.value
                        while isinstance(b, ast.Subscript):
                            b = b.value
                        try:
                            o = self.eval(b, fr)
                        except (Unsupported, RaiseOutcome):
                            continue
                        if isinstance(o, NDA):
                            self.snapshot(o)
                            o.cells = {}
                            o.base = Opaque(("havoc", hid, ast.unparse(b)))
                        elif isinstance(b, ast.Name):
                            self.setvar(fr, b.id, Opaque(("havoc", hid, b.id)))
            # calls of mutating methods on lists
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("append", "extend", "add", "update", "pop", "insert", "remove"):
                try:
                    o = self.eval(n.func.value, fr)
                except (Unsupported, RaiseOutcome):
                    continue
                if isinstance(n.func.value, ast.Name) and isinstance(o, (list, dict, set)):
                    self.setvar(fr, n.func.value.id, Opaque(("havoc", hid, n.func.value.id)))
        return FALL

    def s_Match(self, st, fr):
        try:
            v = self.eval(st.subject, fr)
        except RaiseOutcome as r:
            self._last_raise = r.val
            return RAISED
        for case in st.cases:
            b = {}
            m = self.match_pattern(case.pattern, v, fr, b)
            if m is None:
                raise Unsupported(f"pattern not decidable at {loc(case.pattern)}")
            if not m:
                continue
            for k, x in b.items():
                self.setvar(fr, k, x)
            if case.guard is not None:
                g = self.truth(self.eval(case.guard, fr))
                if g is None:
                    raise Unsupported(f"case guard not decidable at {loc(case.pattern)}")
                if not g:
                    continue
            return self.exec_block(case.body, fr)
        return FALL

    def match_pattern(self, pat, v, fr, b):
        if isinstance(pat, ast.MatchAs):
            if pat.pattern is not None:
                m = self.match_pattern(pat.pattern, v, fr, b)
                if not m:
                    return m
            if pat.name:
                b[pat.name] = v
            return True
        if isinstance(pat, ast.MatchOr):
            unk = False
            for q in pat.patterns:
                m = self.match_pattern(q, v, fr, b)
                if m:
                    return True
                unk = unk or m is None
            return None if unk else False
        if isinstance(pat, ast.MatchValue):
            return self.truth(self.compare("Eq", v, self.eval(pat.value, fr), pat))
        if isinstance(pat, ast.MatchSingleton):
            return v is pat.value if not isinstance(v, (Opaque, Phi)) else None
        if isinstance(pat, ast.MatchClass):
            c = self.eval(pat.cls, fr)
            m = self.truth(_b_isinstance(self, [v, c], {}, pat))
            if not m:
                return m
            names = []
            if pat.patterns:
                names = v.match_args() if hasattr(v, "match_args") else None
                if names is None:
                    return self.match_pattern(pat.patterns[0], v, fr, b) if len(pat.patterns) == 1 else None
            for n, q in list(zip(names, pat.patterns)) + list(zip(pat.kwd_attrs, pat.kwd_patterns)):
                m = self.match_pattern(q, self.getattr_(v, n, pat), fr, b)
                if not m:
                    return m
            return True
        if isinstance(pat, ast.MatchSequence) and isinstance(v, (list, tuple)):
            if any(isinstance(q, ast.MatchStar) for q in pat.patterns) or len(pat.patterns) != len(v):
                return False if not any(isinstance(q, ast.MatchStar) for q in pat.patterns) else None
            for q, x in zip(pat.patterns, v):
                m = self.match_pattern(q, x, fr, b)
                if not m:
                    return m
            return True
        return None

    # -- exceptions, exactly (used when outcomes are concrete)
    def exc_names(self, exc):
        """names of all classes an exception is an instance of"""
        if isinstance(exc, Opaque) and isinstance(exc.key, tuple) and len(exc.key) > 1 and exc.key[0] == "call":
            exc = exc.key[1]
        names = set()
        todo = []
        if isinstance(exc, Obj) and exc.cls is not None:
            todo = [exc.cls]
        elif isinstance(exc, ClassRef):
            todo = [(exc.module, exc.node)]
        else:
            todo = [str(getattr(exc, "dotted", exc))]
        while todo:
            c = todo.pop()
            if isinstance(c, str):
                n = c.split(".")[-1]
                names.add(n)
                k = getattr(builtins, n, None) if "." not in c else getattr({"sqlite3": sqlite3}.get(c.split(".")[0]), n, None)
                if isinstance(k, type):
                    names |= {x.__name__ for x in k.__mro__}
                continue
            for m, cc in self.p.mro(*c):
                names.add(cc.name)
                for b in cc.bases:
                    names.add(ast.unparse(b).split(".")[-1])
                    todo.append(ast.unparse(b)) if self.p.resolve(m.name if hasattr(m, "name") else m, ast.unparse(b)) is None else None
        return names

    def exc_type(self, exc):
        if isinstance(exc, Obj) and exc.cls is not None:
            return ClassRef(*exc.cls)
        if isinstance(exc, Opaque) and isinstance(exc.key, tuple) and len(exc.key) > 1 and exc.key[0] == "call":
            return ExtRef(exc.key[1]) if isinstance(exc.key[1], str) else exc
        return exc

    def with_exact(self, st, fr):
        entered = []
        out = FALL
        for item in st.items:
            try:
                v = self.eval(item.context_expr, fr)
                enter = v
                if isinstance(v, Obj):
                    m = self.getattr_(v, "__enter__", st)
                    enter = self.call(m, [], {}, st)
            except RaiseOutcome as r:
                self._last_raise = r.val
                out = RAISED
                break
            entered.append(v)
            if item.optional_vars is not None:
                self.assign(item.optional_vars, enter, fr)
        if out is FALL:
            try:
                out = self.exec_block(st.body, fr)
            except RaiseOutcome as r:
                self._last_raise = r.val
                out = RAISED
        for v in reversed(entered):
            if not isinstance(v, Obj):
                continue
            exc = self._last_raise if out is RAISED else None
            args = [self.exc_type(exc), exc, Opaque("traceback")] if out is RAISED else [None, None, None]
            try:
                r = self.call(self.getattr_(v, "__exit__", st), args, {}, st)
            except RaiseOutcome as x:
                self._last_raise = x.val
                out = RAISED
                continue
            if out is RAISED:
                t = self.truth(r)
                if t is None:
                    raise Unsupported(f"undetermined result of __exit__ at {loc(st)}")
                if t:
                    out = FALL
                else:
                    self._last_raise = exc
        return out

    def try_exact(self, st, fr):
        try:
            out = self.exec_block(st.body, fr)
        except RaiseOutcome as r:
            self._last_raise = r.val
            out = RAISED
        if out is RAISED:
            exc = self._last_raise
            names = self.exc_names(exc)
            for h in st.handlers:
                if h.type is not None:
                    ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
                    if not any(ast.unparse(t).split(".")[-1] in names for t in ts):
                        continue
                elif h.type is None:
                    pass
                if h.name:
                    self.setvar(fr, h.name, exc)
                save = getattr(self, "_handling", None)
                self._handling = exc
                try:
                    out = self.exec_block(h.body, fr)
                except RaiseOutcome as r:
                    self._last_raise = r.val
                    out = RAISED
                if out is RAISED and self._last_raise is None:
                    self._last_raise = exc
                self._handling = save
                break
            else:
                self._last_raise = exc
        elif out is FALL:
            out = self.exec_block(st.orelse, fr)
        keep = self._last_raise if out is RAISED else None
        o2 = self.exec_block(st.finalbody, fr)
        if o2 is not FALL:
            return o2
        if out is RAISED:
            self._last_raise = keep
        return out

    def s_With(self, st, fr):
        if self.exact:
            return self.with_exact(st, fr)
        names = []
        for item in st.items:
            v = self.eval(item.context_expr, fr)
            h = self.hooks.get("__with__")
            enter = v
            if h is not None:
                r = h(self, v, item, fr)
                if r is not None:
                    enter = r
            elif isinstance(v, Obj) and v.cls is not None:
                m = self.p.find_method(v.cls[0], v.cls[1], "__enter__")
                if m is not None:
                    enter = self.call_func(Func(m[0], m[2], cls=(m[0], m[1])), [v], {}, st)
            if item.optional_vars is not None:
                self.assign(item.optional_vars, enter, fr)
            names.append(v)
        skip = self.hooks.get("__withskip__")
        if skip is not None and any(skip(self, v) for v in names):
            return FALL
        out = self.exec_block(st.body, fr)
        return out

    def s_Try(self, st, fr):
        if self.exact:
            return self.try_exact(st, fr)
        mark = len(self.journal)
        out = self.exec_block(st.body, fr)
        if out is RAISED:
            if st.handlers:
                h = st.handlers[0]
                exc = self._last_raise
                ename = exc.cls[1].name if isinstance(exc, Obj) and exc.cls else str(getattr(exc, "dotted", exc))
                for cand in st.handlers:
                    if cand.type is None or any(n.id in str(ename) for n in ast.walk(cand.type) if isinstance(n, ast.Name)):
                        h = cand
                        break
                if h.name:
                    self.setvar(fr, h.name, exc)
                out = self.exec_block(h.body, fr)
        elif out is FALL:
            out = self.exec_block(st.orelse, fr)
        o2 = self.exec_block(st.finalbody, fr)
        return o2 if o2 is not FALL else out

    # ------------------------------------------------------------------ expressions
    def eval(self, e, fr):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Unsupported("step budget exhausted")
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(e).__name__} at {loc(e)}")
        return m(e, fr)

    def e_Constant(self, e, fr):
        v = e.value
        if isinstance(v, float) and not (math.isinf(v) or math.isnan(v)):
            return Fraction(repr(v))
        if isinstance(v, complex) and getattr(self, "complex_const", None) is not None:
            return self.complex_const(v)
        if isinstance(v, complex):
            return to_expr(v)
        if v is Ellipsis:
            return Ellipsis
        return v

    def e_Name(self, e, fr):
        return self.lookup(e.id, fr, e)

    def lookup(self, name, fr, node):
        f = fr
        while f is not None:
            if name in f.vars:
                return f.vars[name]
            f = f.parent
        v = self.global_lookup(fr.module.name, name)
        if v is not MISSING:
            return v
        if name in PYBUILTINS:
            return Hook(name, getattr(self, "builtins", {}).get(name) or PYBUILTINS[name])
        if name in ("True", "False", "None"):
            return {"True": True, "False": False, "None": None}[name]
        if self.strict and not hasattr(builtins, name) and f"builtins.{name}" not in self.hooks and name not in self.hooks:
            raise RaiseOutcome(ExtRef("builtins.NameError"), node)
        return ExtRef(f"builtins.{name}")

    def global_lookup(self, modname, name):
        k = (modname, name)
        if k in self.modvars:
            return self.modvars[k]
        r = self.p.resolve(modname, name)
        if r is None:
            return MISSING
        kind, m, node = r
        if kind == "func":
            v = Func(m, node)
        elif kind == "class":
            v = ClassRef(m, node)
        elif kind == "module":
            v = ModRef(m)
        elif kind == "ext":
            v = ExtRef(m)
        elif kind == "assign":
            kk = (m.name, "__busy__" + name)
            if kk in self.modvars:
                return Opaque(("global", m.name, name))
            self.modvars[kk] = True
            try:
                v = self.eval(node, Frame(m))
            except Unsupported:
                v = Opaque(("global", m.name, name))
            finally:
                self.modvars.pop(kk, None)
        else:
            return MISSING
        self.modvars[k] = v
        return v

    def e_Attribute(self, e, fr):
        v = self.eval(e.value, fr)
        return self.getattr_(v, e.attr, e)

    def getattr_(self, v, attr, node):
        if isinstance(v, Hook) and attr in getattr(v, "attrs", ()):
            return v.attrs[attr]
        if self.attr_hook is not None:
            r = self.attr_hook(self, v, attr)
            if r is not MISSING:
                return r
        if isinstance(v, AbsVal):
            return v.a_attr(self, attr, node)
        if isinstance(v, Obj):
            if attr in v.attrs:
                return v.attrs[attr]
            if attr == "__dict__" and v.cls is not None:
                return v.attrs
            if v.cls is not None:
                m = self.p.find_method(v.cls[0], v.cls[1], attr)
                if m is not None:
                    f = Func(m[0], m[2], cls=(m[0], m[1]))
                    decos = [ast.unparse(d) for d in m[2].decorator_list]
                    if "property" in decos:
                        return self.call_func(f, [v], {}, node)
                    if "staticmethod" in decos:
                        return f
                    if "classmethod" in decos:
                        return Bound(f, ClassRef(*v.cls))
                    return Bound(f, v)
                for (mm, cc) in self.p.mro(*v.cls):
                    for st in cc.body:
                        if isinstance(st, ast.Assign) and any(isinstance(t, ast.Name) and t.id == attr for t in st.targets):
                            return self.eval(st.value, self.class_frame(mm, cc))
                        if isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.target.id == attr and st.value is not None:
                            return self.eval(st.value, self.class_frame(mm, cc))
            if v.strict:
                raise Unsupported(f"unknown attribute {attr} of {v.name} at {loc(node) if node is not None else '?'}")
            o = Opaque((v.name, attr))
            return o
        if isinstance(v, ModRef):
            r = self.global_lookup(v.module.name, attr)
            if r is MISSING:
                return Opaque((v.module.name, attr))
            return r
        if isinstance(v, ExtRef):
            d = f"{v.dotted}.{attr}"
            if d in ("numpy.pi", "math.pi", "cupy.pi", "xp.pi"):
                return getattr(self, "pi", A.PI)
            if attr == "newaxis":
                return None
            if attr in ("inf",):
                return float("inf")
            return ExtRef(d)
        if isinstance(v, ClassRef):
            for (mm, cc) in self.p.mro(v.module, v.node):
                for st in cc.body:
                    if isinstance(st, (ast.FunctionDef,)) and st.name == attr:
                        f = Func(mm, st, cls=(mm, cc))
                        if any(ast.unparse(d) == "classmethod" for d in st.decorator_list):
                            return Bound(f, v)
                        return f
                    if isinstance(st, ast.Assign) and any(isinstance(t, ast.Name) and t.id == attr for t in st.targets):
                        return self.eval(st.value, self.class_frame(mm, cc))
            if attr == "__name__":
                return v.node.name
            return Opaque((v.node.name, attr))
        if isinstance(v, Phi):
            return self.phi(v.cond, self.getattr_(v.a, attr, node), self.getattr_(v.b, attr, node))
        if isinstance(v, Func) and attr in v.__dict__.get("fattrs", {}):
            return v.fattrs[attr]
        if isinstance(v, (list, dict, set, tuple, str)):
            return Hook(attr, lambda I, a, k, n, v=v, attr=attr: container_method(I, v, attr, a, k, n))
        if isinstance(v, NDA):
            return self.array_attr(v, attr, node)
        if isinstance(v, (Expr, int, Fraction, float)):
            return self.array_attr(v, attr, node)
        if isinstance(v, Opaque):
            if attr in ("reshape", "copy", "flatten", "ravel", "astype", "view", "squeeze"):
                return self.array_attr(v, attr, node)
            return Opaque((v.key, attr))
        if v is None:
            return Opaque(("None", attr))
        return Opaque((repr(v), attr))

    def class_frame(self, mm, cc):
        fr = Frame(mm)
        return fr

    def array_attr(self, v, attr, node):
        if attr in ("reshape", "flatten", "ravel", "astype", "view", "squeeze", "get", "conj", "conjugate", "transpose"):
            return Hook(attr, lambda I, a, k, n: v)
        if attr == "copy":
            return Hook(attr, lambda I, a, k, n: NDA(v.base, v.cells, v.name) if isinstance(v, NDA) else v)
        if attr == "fill":
            def fill(I, a, k, n):
                if isinstance(v, NDA):
                    I.snapshot(v)
                    v.base, v.cells = a[0], {}
            return Hook(attr, fill)
        if attr == "T":
            return v
        if attr == "real":
            return v
        if attr == "shape" and isinstance(v, NDA) and v.shape is not None:
            return v.shape
        if attr == "ndim" and isinstance(v, NDA) and v.shape is not None:
            return len(v.shape)
        if attr == "shape" and isinstance(v, NDA):
            ks = {k[0] for k in v.cells if isinstance(k[0], int)}
            if v.base is None and ks and ks == set(range(len(ks))):
                return ShapeV(len(ks), v.name)
        if attr in ("shape", "dtype", "size", "ndim"):
            return Opaque(("meta", attr, self.keyof(v) if not isinstance(v, NDA) else v.name))
        if attr in ("numerator", "denominator") and isinstance(v, (int, Fraction)):
            return getattr(v, attr)
        if attr in NUMPY_HOOKS:
            return Hook(attr, lambda I, a, k, n: NUMPY_HOOKS[attr](I, [v] + list(a), k, n))
        if isinstance(v, NDA):
            return Opaque(("arrattr", v.name, attr))
        return Opaque((self.keyof(v), attr))

    def e_Call(self, e, fr):
        # super().__init__(...)
        if isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Call) and isinstance(e.func.value.func, ast.Name) and e.func.value.func.id == "super":
            return self.super_call(e, fr)
        f = self.eval(e.func, fr)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value, fr)
                args.extend(self.iterate(v, e))
            else:
                args.append(self.eval(a, fr))
        kwargs = {}
        for k in e.keywords:
            if k.arg is None:
                v = self.eval(k.value, fr)
                if isinstance(v, dict):
                    kwargs.update(v)
            else:
                kwargs[k.arg] = self.eval(k.value, fr)
        h = self.hooks.get("__call__")
        if h is not None:
            r = h(self, f, args, kwargs, e, fr)
            if r is not MISSING:
                return r
        return self.call(f, args, kwargs, e)

    def super_call(self, e, fr):
        f = fr
        while f is not None and (f.func is None or f.func.cls is None):
            f = f.parent
        if f is None:
            raise Unsupported(f"super() outside a method at {loc(e)}")
        selfname = f.func.node.args.args[0].arg
        selfv = f.vars[selfname]
        cls = f.func.cls
        mro = self.p.mro(*(selfv.cls if isinstance(selfv, Obj) and selfv.cls else cls))
        idx = next((i for i, (m, c) in enumerate(mro) if c is cls[1]), 0)
        for (mm, cc) in mro[idx + 1:]:
            for st in cc.body:
                if isinstance(st, ast.FunctionDef) and st.name == e.func.attr:
                    args = []
                    for a in e.args:
                        if isinstance(a, ast.Starred):
                            args.extend(self.iterate(self.eval(a.value, fr), e))
                        else:
                            args.append(self.eval(a, fr))
                    kw = {}
                    for k in e.keywords:
                        if k.arg is None:
                            v = self.eval(k.value, fr)
                            if isinstance(v, dict):
                                kw.update(v)
                        else:
                            kw[k.arg] = self.eval(k.value, fr)
                    return self.call_func(Func(mm, st, cls=(mm, cc)), [selfv] + args, kw, e)
        args = [self.eval(a, fr) for a in e.args]
        if getattr(self, "super_ext", None) is not None:
            return self.super_ext(self, e.func.attr, args, {}, e)
        return None

    def e_Lambda(self, e, fr):
        return self.make_func(e, fr)

    def e_Tuple(self, e, fr):
        return tuple(self._elts(e, fr))

    def e_List(self, e, fr):
        return list(self._elts(e, fr))

    def e_Set(self, e, fr):
        return set(self._elts(e, fr))

    def _elts(self, e, fr):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                out.extend(self.iterate(self.eval(x.value, fr), e))
            else:
                out.append(self.eval(x, fr))
        return out

    def e_Dict(self, e, fr):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                vv = self.eval(v, fr)
                if isinstance(vv, dict):
                    d.update(vv)
            else:
                d[self.hashable(self.eval(k, fr))] = self.eval(v, fr)
        return d

    def hashable(self, k):
        if isinstance(k, list):
            return tuple(k)
        return k

    def e_JoinedStr(self, e, fr):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(str(v.value))
            elif self.exact:
                parts.append(self.format_exact(v, fr))
            else:
                try:
                    x = self.eval(v.value, fr)
                except (Unsupported, RaiseOutcome):
                    x = "?"
                parts.append(x if isinstance(x, str) else str(x) if isinstance(x, (int, Fraction)) else f"{{{x!r}}}")
        return "".join(parts)

    def format_exact(self, v, fr):
        x = self.eval(v.value, fr)
        spec = self.eval(v.format_spec, fr) if v.format_spec is not None else ""
        if isinstance(x, Fraction):
            x = float(x)
        if isinstance(x, (int, float, str, bool)) or x is None or (isinstance(x, (list, tuple)) and all(isinstance(q, (int, float, str, bool)) for q in x)):
            if v.conversion in (115, 114, 97):
                x = {115: str, 114: repr, 97: ascii}[v.conversion](x)
            try:
                return format(x, spec)
            except (ValueError, TypeError) as e:
                raise RaiseOutcome(ExtRef(type(e).__name__), v)
        return f"\u27e6{x!r}\u27e7"

    def e_FormattedValue(self, e, fr):
        return str(self.eval(e.value, fr))

    def e_IfExp(self, e, fr):
        c = self.eval(e.test, fr)
        b = self.truth(c)
        if b is True:
            return self.eval(e.body, fr)
        if b is False:
            return self.eval(e.orelse, fr)
        return self.phi(c, self.eval(e.body, fr), self.eval(e.orelse, fr))

    def e_NamedExpr(self, e, fr):
        v = self.eval(e.value, fr)
        self.assign(e.target, v, fr)
        return v

    def e_Starred(self, e, fr):
        return self.eval(e.value, fr)

    def e_UnaryOp(self, e, fr):
        v = self.eval(e.operand, fr)
        if isinstance(e.op, ast.Not):
            b = self.truth(v)
            return (not b) if b is not None else Opaque(("not", self.keyof(v)))
        if isinstance(e.op, ast.USub):
            return self.binop("Mult", -1, v, e)
        if isinstance(e.op, ast.UAdd):
            return v
        if isinstance(e.op, ast.Invert):
            if isinstance(v, int):
                return ~v
            return Opaque(("inv~", self.keyof(v)))

    def e_BoolOp(self, e, fr):
        isand = isinstance(e.op, ast.And)
        unknown = []
        last = None
        for x in e.values:
            v = self.eval(x, fr)
            b = self.truth(v)
            if b is None:
                unknown.append(v)
                continue
            if isand and b is False:
                return False if unknown else v
            if not isand and b is True:
                return True if unknown else v
            last = v
        if unknown:
            if len(unknown) == 1 and not isinstance(unknown[0], (Obj,)):
                return unknown[0]
            return Opaque(("and" if isand else "or", tuple(self.keyof(u) for u in unknown)))
        return last

    def e_Compare(self, e, fr):
        left = self.eval(e.left, fr)
        res = []
        for op, r in zip(e.ops, e.comparators):
            right = self.eval(r, fr)
            res.append(self.compare(type(op).__name__, left, right, e))
            left = right
        if len(res) == 1:
            return res[0]
        if any(self.truth(x) is False for x in res):
            return False
        if all(self.truth(x) is True for x in res):
            return True
        return Opaque(("and", tuple(self.keyof(x) for x in res)))

    def compare(self, op, a, b, node):
        for x, y, sw in ((a, b, False), (b, a, True)):
            if isinstance(x, AbsVal):
                r = x.a_compare(self, op, y, sw, node)
                if r is not MISSING:
                    return r
        if self.decide is not None:
            r = self.decide(op, a, b)
            if r is not None:
                return r
        if op in ("Is", "IsNot"):
            if a is None or b is None:
                x = b if a is None else a
                if x is None:
                    r = True
                elif isinstance(x, (Opaque, Phi)):
                    return Opaque((op, self.keyof(a), self.keyof(b)))
                else:
                    r = False
                return r if op == "Is" else not r
            if isinstance(a, bool) and isinstance(b, bool):
                return (a is b) if op == "Is" else (a is not b)
            if isinstance(a, (Obj, Func, ClassRef)) or isinstance(b, (Obj, Func, ClassRef)):
                return (a is b) if op == "Is" else (a is not b)
            op = "Eq" if op == "Is" else "NotEq"
        if op in ("In", "NotIn"):
            if isinstance(b, (list, tuple, set, frozenset, dict)) and (isinstance(a, (int, str, Fraction, bool, type(None)))):
                if not any(isinstance(x, (Opaque, Phi)) for x in b):
                    r = a in b
                    return r if op == "In" else not r
            if isinstance(a, str) and isinstance(b, str):
                return (a in b) if op == "In" else (a not in b)
            if isinstance(b, (set, list, tuple)) and isinstance(a, Expr):
                rs = [self.compare("Eq", a, x, node) for x in b]
                if any(r is True for r in rs):
                    return op == "In"
                if all(r is False for r in rs):
                    return op != "In"
            return Opaque((op, self.keyof(a), self.keyof(b)))
        num = (int, Fraction, float)
        if isinstance(a, num) and isinstance(b, num):
            return {"Eq": a == b, "NotEq": a != b, "Lt": a < b, "LtE": a <= b, "Gt": a > b, "GtE": a >= b}[op]
        if isinstance(a, (str, type(None), bool)) or isinstance(b, (str, type(None), bool)):
            if not isinstance(a, (Opaque, Phi, Expr)) and not isinstance(b, (Opaque, Phi, Expr)):
                if op == "Eq":
                    return a == b
                if op == "NotEq":
                    return a != b
                if isinstance(a, str) and isinstance(b, str):
                    return {"Lt": a < b, "LtE": a <= b, "Gt": a > b, "GtE": a >= b}[op]
        if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)) and op in ("Eq", "NotEq"):
            if len(a) != len(b):
                return op == "NotEq"
            rs = [self.compare("Eq", x, y, node) for x, y in zip(a, b)]
            if all(r is True for r in rs):
                return op == "Eq"
            if any(r is False for r in rs):
                return op == "NotEq"
            return Opaque((op, self.keyof(a), self.keyof(b)))
        if isinstance(a, ExtRef) and isinstance(b, ExtRef):
            if op in ("Eq", "NotEq"):
                return (a == b) == (op == "Eq")
        if op in ("Eq", "NotEq") and isinstance(a, Opaque) and isinstance(b, Opaque):
            ka, kb = a.key, b.key
            if isinstance(ka, tuple) and isinstance(kb, tuple) and len(ka) == len(kb) == 2 and ka[0] == kb[0] == "dtype":
                return (ka[1] == kb[1]) == (op == "Eq")
        try:
            d = self.as_expr(a) - self.as_expr(b)
            if d.is_const():
                c = d.const_value()
                return {"Eq": c == 0, "NotEq": c != 0, "Lt": c < 0, "LtE": c <= 0, "Gt": c > 0, "GtE": c >= 0}[op]
            return Opaque((op, d))
        except TypeError:
            pass
        return Opaque((op, self.keyof(a), self.keyof(b)))

    def truth(self, v) -> Optional[bool]:
        if isinstance(v, AbsVal):
            return v.a_truth(self)
        if isinstance(v, bool):
            return v
        if v is None:
            return False
        if isinstance(v, (int, Fraction, float)):
            return v != 0
        if isinstance(v, (str, list, tuple, dict, set)):
            return len(v) > 0
        if isinstance(v, (Obj, Func, Bound, ClassRef, Hook, ExtRef, ModRef)):
            return True
        if isinstance(v, Expr) and v.is_const():
            return v.const_value() != 0
        if isinstance(v, Phi):
            a, b = self.truth(v.a), self.truth(v.b)
            if a is not None and a == b:
                return a
            return None
        if self.decide is not None:
            return self.decide("Truth", v, None)
        return None

    def e_BinOp(self, e, fr):
        return self.binop(type(e.op).__name__, self.eval(e.left, fr), self.eval(e.right, fr), e)

    def binop(self, op, a, b, node):
        if isinstance(a, Phi):
            return self.phi(a.cond, self.binop(op, a.a, b, node), self.binop(op, a.b, b, node))
        if isinstance(b, Phi):
            return self.phi(b.cond, self.binop(op, a, b.a, node), self.binop(op, a, b.b, node))
        if isinstance(a, AbsVal):
            return a.a_binop(self, op, b, False, node)
        if isinstance(b, AbsVal):
            return b.a_binop(self, op, a, True, node)
        if isinstance(a, NDA) or isinstance(b, NDA):
            if op == "MatMult":
                return Opaque(("matmul", repr(a), repr(b), id(a), id(b)))
            return nda_map2(self, op, a, b, node)
        if op == "Add" and isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            return list(a) + list(b) if isinstance(a, list) else tuple(a) + tuple(b)
        if op == "Mult" and isinstance(a, (list, tuple, str)) and isinstance(b, int):
            return a * b
        if op == "Mult" and isinstance(b, (list, tuple, str)) and isinstance(a, int):
            return b * a
        if op == "Add" and isinstance(a, str) and isinstance(b, str):
            return a + b
        if op == "Mod" and isinstance(a, str):
            return a
        if isinstance(a, (list, tuple)) and (self.is_alg(b) or isinstance(b, (list, tuple))) and op in ("Mult", "Sub", "Div", "Add"):
            # numpy array literal used elementwise
            if isinstance(b, (list, tuple)):
                return [self.binop(op, x, y, node) for x, y in zip(a, b)]
            return [self.binop(op, x, b, node) for x in a]
        if isinstance(b, (list, tuple)) and self.is_alg(a) and op in ("Mult", "Sub", "Div", "Add"):
            return [self.binop(op, a, y, node) for y in b]
        if isinstance(a, (set, frozenset, dict)) or isinstance(b, (set, frozenset, dict)):
            if op == "BitOr" and isinstance(a, (set, dict)) and isinstance(b, (set, dict)):
                return {**a, **b} if isinstance(a, dict) else a | b
            if op == "Sub" and isinstance(a, set) and isinstance(b, set):
                return a - b
            if op == "BitAnd" and isinstance(a, set) and isinstance(b, set):
                return a & b
        num = (int, Fraction)
        if isinstance(a, num) and isinstance(b, num):
            try:
                return const_op(op, a, b)
            except Unsupported:
                pass
            except ZeroDivisionError:
                return Opaque(("div0", self.keyof(a), self.keyof(b)))
        if isinstance(a, float) or isinstance(b, float):
            if isinstance(a, (int, float, Fraction)) and isinstance(b, (int, float, Fraction)):
                try:
                    return const_op(op, float(a), float(b))
                except (ZeroDivisionError, OverflowError, Unsupported):
                    return float("nan")
        h = self.hooks.get("__binop__")
        if h is not None:
            r = h(self, op, a, b, node)
            if r is not MISSING:
                return r
        try:
            ea, eb = self.as_expr(a), self.as_expr(b)
        except TypeError:
            return Opaque((op, self.keyof(a), self.keyof(b)))
        if op == "Add":
            return self.simplify(ea + eb)
        if op == "Sub":
            return self.simplify(ea - eb)
        if op == "Mult":
            return self.simplify(ea * eb)
        if op == "Div":
            if not eb.t:
                return Opaque(("div0", ea))
            return self.simplify(ea / eb)
        if op == "Pow":
            return self.simplify(ea ** eb)
        if op in ("FloorDiv", "Mod"):
            h = self.hooks.get("__divmod__")
            if h is not None:
                r = h(self, op, ea, eb)
                if r is not None:
                    return r
        return A.app(op, ea, eb)

    # --- subscripts
    def eval_index(self, s, fr):
        if isinstance(s, ast.Tuple):
            out = []
            for x in s.elts:
                if isinstance(x, ast.Starred):
                    out.extend(self.iterate(self.eval(x.value, fr), s))
                else:
                    out.append(self.eval_index(x, fr))
            return tuple(out)
        if isinstance(s, ast.Slice):
            return slice(
                self.eval(s.lower, fr) if s.lower else None,
                self.eval(s.upper, fr) if s.upper else None,
                self.eval(s.step, fr) if s.step else None,
            )
        return self.eval(s, fr)

    def e_Slice(self, e, fr):
        return self.eval_index(e, fr)

    def e_Subscript(self, e, fr):
        v = self.eval(e.value, fr)
        idx = self.eval_index(e.slice, fr)
        return self.getitem(v, idx, e)

    def getitem(self, v, idx, node):
        if isinstance(v, AbsVal):
            return v.a_getitem(self, idx, node)
        if isinstance(v, Phi):
            return self.phi(v.cond, self.getitem(v.a, idx, node), self.getitem(v.b, idx, node))
        if isinstance(v, dict):
            k = self.hashable(idx)
            try:
                if k in v:
                    return v[k]
            except TypeError:
                pass
            if any(isinstance(x, (Opaque, Expr)) for x in v) or isinstance(idx, (Opaque, Expr, Phi)):
                return Opaque(("dictget", repr(v)[:80], self.keyof(idx)))
            self._last_raise = ExtRef("builtins.KeyError")
            raise RaiseOutcome(ExtRef("builtins.KeyError"), node)
        if isinstance(v, ShapeV):
            if idx == 0 and isinstance(idx, int):
                return v.lead
            return Opaque(("shapeitem", v.tag, repr(idx)))
        if isinstance(v, (list, tuple, str)):
            if isinstance(idx, bool):
                idx = int(idx)
            if isinstance(idx, int):
                if -len(v) <= idx < len(v):
                    return v[idx]
                raise RaiseOutcome(ExtRef("builtins.IndexError"), node)
            if isinstance(idx, slice):
                ok = all(x is None or isinstance(x, int) for x in (idx.start, idx.stop, idx.step))
                if ok:
                    return v[idx]
                return Opaque(("slice", repr(v)[:200], repr(idx)))
            if isinstance(idx, tuple) and idx and isinstance(v, (list, tuple)):
                # nested list used as an array
                first, rest = idx[0], idx[1:]
                if first is Ellipsis or first is None:
                    return self.getitem(v, rest, node) if rest else v
                if isinstance(first, slice):
                    sub = self.getitem(v, first, node)
                    if not rest:
                        return sub
                    if isinstance(sub, (list, tuple)):
                        return [self.getitem(x, rest if len(rest) > 1 else rest[0], node) for x in sub]
                sub = self.getitem(v, first, node)
                return self.getitem(sub, rest if len(rest) > 1 else rest[0], node) if rest else sub
            if isinstance(idx, (list, tuple)) and all(isinstance(i, int) for i in idx):
                return [v[i] for i in idx]
            return Opaque(("item", repr(v)[:200], self.keyof(idx)))
        if isinstance(v, NDA):
            return nda_get(self, v, idx, node)
        if isinstance(v, Expr) or isinstance(v, (int, Fraction)):
            if index_is_full(idx) or is_mask(idx) or isinstance(idx, ExtRef):
                return v
            e = self.as_expr(v)
            return self.simplify(index_expr(e, idx))
        if isinstance(v, Opaque):
            if index_is_full(idx):
                return v
            return Opaque(("item", v.key, self.keyof(idx) if not isinstance(idx, slice) else repr(idx)))
        if isinstance(v, ExtRef) and self.real_numpy is not None and v.dotted in ("numpy.s_", "cupy.s_", "numpy.index_exp"):
            return idx
        if isinstance(v, (ExtRef, ClassRef)):
            return v  # type annotations such as Tuple[int]
        if isinstance(v, Obj):
            m = self.p.find_method(v.cls[0], v.cls[1], "__getitem__") if v.cls else None
            if m:
                return self.call_func(Func(m[0], m[2], cls=(m[0], m[1])), [v, idx], {}, node)
        return Opaque(("item", repr(v)[:100], self.keyof(idx) if not isinstance(idx, slice) else repr(idx)))

    def setitem(self, o, idx, v, node, fr):
        if isinstance(o, AbsVal):
            return o.a_setitem(self, idx, v, node)
        if isinstance(o, dict):
            self.snapshot(o)
            try:
                o[self.hashable(idx)] = v
            except TypeError:
                pass
            return
        if isinstance(o, list):
            self.snapshot(o)
            if isinstance(idx, bool):
                idx = int(idx)
            if isinstance(idx, int):
                if -len(o) <= idx < len(o):
                    o[idx] = v
                    return
                raise Unsupported(f"list index {idx} out of range at {loc(node)}")
            if isinstance(idx, slice) and all(x is None or isinstance(x, int) for x in (idx.start, idx.stop, idx.step)):
                if isinstance(v, (list, tuple)):
                    o[idx] = list(v)
                else:
                    for i in range(*idx.indices(len(o))):
                        o[i] = v
                return
            if isinstance(idx, tuple):
                first, rest = idx[0], idx[1:]
                if isinstance(first, int) and rest:
                    tgt = o[first]
                    if isinstance(tgt, (list, NDA)):
                        return self.setitem(tgt, rest if len(rest) > 1 else rest[0], v, node, fr)
            for i in range(len(o)):
                o[i] = Opaque(("havoc-list", loc(node), i))
            return
        if isinstance(idx, ExtRef):
            return  # numpy.s_ edge slices: halo fill
        if isinstance(o, NDA):
            self.snapshot(o)
            nda_set(self, o, idx, v, node)
            return
        if is_mask(idx) and isinstance(o, (Expr, Opaque)) and isinstance(node.value, (ast.Name, ast.Attribute)):
            self.assign(_store(node.value), self.phi(idx, v, o), fr)
            return
        if isinstance(o, (Expr, Opaque, int, Fraction)) and isinstance(node.value, (ast.Name, ast.Attribute)):
            # pointwise array written through a slice
            if index_is_full(idx):
                self.assign(_store(node.value), v, fr)
            else:
                n = NDA(o, {}, name=ast.unparse(node.value))
                nda_set(self, n, idx, v, node)
                self.assign(_store(node.value), n, fr)
            return
        if isinstance(o, (Expr, Opaque)) and isinstance(node.value, ast.Subscript):
            # a[i][j] = v
            inner = node.value
            base = self.eval(inner.value, fr)
            i1 = self.eval_index(inner.slice, fr)
            i1 = i1 if isinstance(i1, tuple) else (i1,)
            i2 = idx if isinstance(idx, tuple) else (idx,)
            if isinstance(base, (NDA, list)):
                if isinstance(base, list):
                    if index_is_full(idx):
                        self.setitem(base, i1 if len(i1) > 1 else i1[0], v, inner, fr)
                    return
                self.snapshot(base)
                nda_set(self, base, i1 + i2, v, node)
            return
        return

    # --- comprehensions
    def e_ListComp(self, e, fr):
        r = self._comp(e.generators, lambda f: self.eval(e.elt, f), fr, e)
        return r if r is not None else Opaque(("listcomp", ast.unparse(e)))

    def e_GeneratorExp(self, e, fr):
        return self.e_ListComp(e, fr)

    def e_SetComp(self, e, fr):
        r = self._comp(e.generators, lambda f: self.eval(e.elt, f), fr, e)
        return set(r) if r is not None else Opaque(("setcomp", ast.unparse(e)))

    def e_DictComp(self, e, fr):
        r = self._comp(e.generators, lambda f: (self.eval(e.key, f), self.eval(e.value, f)), fr, e)
        return dict(r) if r is not None else Opaque(("dictcomp", ast.unparse(e)))

    def _comp(self, gens, fn, fr, node):
        f = Frame(fr.module, fr, None)
        out = []

        def rec(i):
            if i == len(gens):
                out.append(fn(f))
                return True
            g = gens[i]
            try:
                seq = self.iterate(self.eval(g.iter, f), node)
            except TypeError:
                return False
            for v in seq:
                self.assign(g.target, v, f)
                conds = [self.truth(self.eval(c, f)) for c in g.ifs]
                if any(c is False for c in conds):
                    continue
                if any(c is None for c in conds):
                    return False
                if not rec(i + 1):
                    return False
            return True

        return out if rec(0) else None

    def iterate(self, v, node):
        if isinstance(v, AbsVal):
            r = v.a_iter(self, node)
            if r is None:
                raise TypeError("not iterable statically")
            return list(r)
        if isinstance(v, (list, tuple)):
            return list(v)
        if isinstance(v, (set, frozenset)):
            return sorted(v, key=repr)
        if isinstance(v, dict):
            return list(v.keys())
        if isinstance(v, str):
            return list(v)
        if isinstance(v, range):
            return list(v)
        if isinstance(v, NDA) and v.cells and all(len(k) >= 1 and isinstance(k[0], int) for k in v.cells) and v.base is None:
            n = max(k[0] for k in v.cells) + 1
            return [self.getitem(v, i, node) for i in range(n)]
        raise TypeError("not iterable statically")

    def e_Yield(self, e, fr):
        v = self.eval(e.value, fr) if e.value else None
        f = fr
        while f is not None and "__yield__" not in f.vars:
            f = f.parent
        if f is not None:
            self.snapshot(f.vars["__yield__"])
            f.vars["__yield__"].append(v)
        return None

    def e_Await(self, e, fr):
        return self.eval(e.value, fr)


class MixedExit(Exception):
    pass


class _Raised:
    def __repr__(self):
        return "RAISED"


RAISED = _Raised()


def _store(n):
    return n


def _is_generator(fn):
    for n in ast.walk(fn):
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            p = n
            while p is not fn and not (isinstance(p, (ast.FunctionDef, ast.Lambda)) and p is not fn):
                p = p._parent
            if p is fn:
                return True
    return False


def same(a, b):
    if a is b:
        return True
    if isinstance(a, (bool, type(None), str)) or isinstance(b, (bool, type(None), str)):
        return type(a) is type(b) and a == b
    if isinstance(a, (int, Fraction, Expr)) and isinstance(b, (int, Fraction, Expr)):
        return to_expr(a) == to_expr(b)
    if isinstance(a, (tuple, list)) and type(a) is type(b) and len(a) == len(b):
        return all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, (ExtRef, ClassRef)) and type(a) is type(b):
        return a == b
    if isinstance(a, Func) and isinstance(b, Func):
        return a.node is b.node and a.closure is b.closure
    if isinstance(a, Bound) and isinstance(b, Bound):
        return a.func.node is b.func.node and a.self_val is b.self_val
    return False


def const_op(op, a, b):
    if op == "Add":
        return a + b
    if op == "Sub":
        return a - b
    if op == "Mult":
        return a * b
    if op == "Div":
        if isinstance(a, float) or isinstance(b, float):
            return a / b
        r = Fraction(a) / Fraction(b)
        return r if r.denominator != 1 else r  # keep Fraction: true division gives a float
    if op == "FloorDiv":
        return a // b
    if op == "Mod":
        return a % b
    if op == "Pow":
        if isinstance(a, float) or isinstance(b, float):
            r = float(a) ** float(b)
            if isinstance(r, complex):
                raise Unsupported("pow")
            return r
        if isinstance(b, int) or (isinstance(b, Fraction) and b.denominator == 1):
            return Fraction(a) ** int(b) if int(b) < 0 or isinstance(a, Fraction) else a ** int(b)
        raise Unsupported("pow")
    if isinstance(a, int) and isinstance(b, int):
        if op == "BitAnd":
            return a & b
        if op == "BitOr":
            return a | b
        if op == "BitXor":
            return a ^ b
        if op == "LShift":
            return a << b
        if op == "RShift":
            return a >> b
    raise Unsupported(op)


def is_mask(idx):
    return isinstance(idx, Opaque) and isinstance(idx.key, tuple) and idx.key and idx.key[0] in ("Lt", "LtE", "Gt", "GtE", "Eq", "NotEq", "and", "or", "not", "inv~")


def index_is_full(idx):
    items = idx if isinstance(idx, tuple) else (idx,)
    for x in items:
        if x is Ellipsis or x is None:
            continue
        if isinstance(x, slice) and x.start is None and x.stop is None and (x.step is None or x.step == 1):
            continue
        return False
    return True


def idx_repr(idx):
    items = idx if isinstance(idx, tuple) else (idx,)
    out = []
    for x in items:
        if x is None:
            continue
        if isinstance(x, slice):
            st = x.step
            if st == 1:
                st = None
            s0 = None if (x.start == 0 and (st is None)) else x.start
            out.append(f"{'' if s0 is None else s0}:{'' if x.stop is None else x.stop}" + (f":{st}" if st is not None else ""))
        elif x is Ellipsis:
            out.append("...")
        else:
            out.append(str(x))
    return ",".join(out)


def index_expr(e: Expr, idx):
    """indexing distributes over pointwise operations; only field atoms are affected"""
    r = idx_repr(idx)
    mapping = {}
    for a in e.atoms(True):
        if a.kind in ("fld", "opq"):
            mapping[a] = Expr.of_atom(A.atom(a.kind, a.args[0] + f"[{r}]"))
    return A.subst(e, mapping) if mapping else e


def fld(name) -> Expr:
    return Expr.of_atom(A.atom("fld", name))


def _split_idx(idx):
    items = list(idx) if isinstance(idx, tuple) else [idx]
    items = [x for x in items if x is not None]
    lead = []
    for i, x in enumerate(items):
        if isinstance(x, bool):
            x = int(x)
        if isinstance(x, int):
            lead.append(x)
        elif isinstance(x, Fraction) and x.denominator == 1:
            lead.append(int(x))
        else:
            return tuple(lead), tuple(items[i:])
    return tuple(lead), ()


def nda_get(I, v: NDA, idx, node):
    lead, rest = _split_idx(idx)
    if not index_is_full(rest) and rest:
        r = idx_repr(rest)
        key = lead + ("s:" + r,)
        if key in v.cells:
            return v.cells[key]
        # leading range of component indices
        if len(rest) >= 1 and isinstance(rest[0], slice) and index_is_full(rest[1:] if len(rest) > 1 else slice(None)):
            s = rest[0]
            if all(x is None or isinstance(x, int) for x in (s.start, s.stop, s.step)) and s.stop is not None and not any(isinstance(k[-1], str) for k in v.cells):
                rng = range(*s.indices(10 ** 6)) if s.stop >= 0 else None
                if rng is not None and len(rng) < 64:
                    out = NDA(v.base, {}, v.name)
                    for j, i in enumerate(rng):
                        sub = nda_get(I, v, lead + (i,), node)
                        if isinstance(sub, NDA):
                            for kk, vv in sub.cells.items():
                                out.cells[(j,) + kk] = vv
                        else:
                            out.cells[(j,)] = sub
                    return out
        base = nda_get(I, v, lead, node) if lead else v
        if isinstance(base, NDA):
            if any(isinstance(k[-1], str) for k in base.cells if len(k) == 1 + len(())):
                return Opaque(("ndaslice", id(v), repr(key), node.lineno if node is not None else 0))
            out = NDA(None, {}, v.name)
            out.base = I.getitem(base.base, rest, node) if base.base is not None and not isinstance(base.base, NDA) else base.base
            for k, x in base.cells.items():
                out.cells[k] = I.getitem(x, rest, node) if not isinstance(x, NDA) else x
            return out
        return I.getitem(base, rest if len(rest) > 1 else rest[0], node)
    if not lead:
        return v
    # exact cell
    if lead in v.cells:
        sub = {k[len(lead):]: x for k, x in v.cells.items() if len(k) > len(lead) and k[:len(lead)] == lead}
        if sub:
            return NDA(v.cells[lead], sub, v.name + str(list(lead)))
        return v.cells[lead]
    # prefix cell
    for n in range(len(lead) - 1, 0, -1):
        if lead[:n] in v.cells:
            return I.getitem(v.cells[lead[:n]], lead[n:] if len(lead) - n > 1 else lead[n], node)
    sub = {k[len(lead):]: x for k, x in v.cells.items() if len(k) > len(lead) and k[:len(lead)] == lead}
    base = v.base
    if base is not None and isinstance(base, (Expr, Opaque)):
        base = I.getitem(base, lead if len(lead) > 1 else lead[0], node)
    if sub:
        return NDA(base, sub, v.name + str(list(lead)))
    if base is None:
        return Opaque(("cell", v.name, lead))
    return base


def nda_set(I, o: NDA, idx, v, node):
    lead, rest = _split_idx(idx)
    if rest and not index_is_full(rest):
        o.cells[lead + ("s:" + idx_repr(rest),)] = v
        return
    for k in [k for k in o.cells if k[:len(lead)] == lead]:
        del o.cells[k]
    if isinstance(v, NDA):
        if not lead:
            o.base, o.cells = v.base, dict(v.cells)
            return
        for k, x in v.cells.items():
            o.cells[lead + k] = x
        if v.base is not None:
            o.cells[lead] = v.base
        return
    if isinstance(v, (list, tuple)):
        for i, x in enumerate(v):
            nda_set(I, o, lead + (i,), x, node)
        return
    if not lead:
        o.base, o.cells = v, {}
        return
    o.cells[lead] = v


def nda_map2(I, op, a, b, node):
    name = a.name if isinstance(a, NDA) else b.name
    ac = a.cells if isinstance(a, NDA) else {}
    bc = b.cells if isinstance(b, NDA) else {}

    def val(x, cells, k):
        if isinstance(x, NDA):
            if k in cells:
                return cells[k]
            return nda_get(I, x, k, node) if k and not any(isinstance(z, str) for z in k) else x.base
        if isinstance(x, (list, tuple)) and k and isinstance(k[0], int):
            y = x[k[0]]
            return y
        return x

    out = NDA(None, {}, name)
    ba = a.base if isinstance(a, NDA) else a
    bb = b.base if isinstance(b, NDA) else b
    if ba is not None and bb is not None and not isinstance(ba, (list, tuple)) and not isinstance(bb, (list, tuple)):
        out.base = I.binop(op, ba, bb, node)
    for k in list(ac) + [k for k in bc if k not in ac]:
        x, y = val(a, ac, k), val(b, bc, k)
        if x is None or y is None:
            continue
        out.cells[k] = I.binop(op, x, y, node)
    return out


def nda_map1(I, fn, a):
    out = NDA(None, {}, a.name)
    out.base = fn(a.base) if a.base is not None else None
    for k, x in a.cells.items():
        out.cells[k] = nda_map1(I, fn, x) if isinstance(x, NDA) else fn(x)
    return out


def container_method(I, v, attr, a, k, n):
    if isinstance(v, list):
        ml = getattr(v, "maxlen", None)
        if attr == "append":
            I.snapshot(v); v.append(a[0])
            if ml is not None and len(v) > ml:
                del v[0]
            return None
        if attr == "appendleft":
            I.snapshot(v); v.insert(0, a[0])
            if ml is not None and len(v) > ml:
                del v[-1]
            return None
        if attr == "popleft":
            I.snapshot(v)
            return v.pop(0) if v else Opaque(("pop", loc(n)))
        if attr == "extendleft":
            I.snapshot(v)
            for x in I.iterate(a[0], n):
                v.insert(0, x)
            return None
        if attr == "rotate":
            I.snapshot(v)
            if v:
                kk = (a[0] if a else 1) % len(v)
                v[:] = v[-kk:] + v[:-kk] if kk else v[:]
            return None
        if attr == "remove":
            I.snapshot(v)
            for i, x in enumerate(v):
                if same(x, a[0]):
                    del v[i]
                    return None
            raise RaiseOutcome(ExtRef("builtins.ValueError"), n)
        if attr == "extend":
            I.snapshot(v); v.extend(I.iterate(a[0], n)); return None
        if attr == "pop":
            I.snapshot(v)
            return v.pop(*[x for x in a]) if v else Opaque(("pop", loc(n)))
        if attr == "insert":
            I.snapshot(v); v.insert(a[0], a[1]); return None
        if attr == "copy":
            return list(v)
        if attr == "index" and all(not isinstance(x, Opaque) for x in v):
            try:
                return v.index(a[0])
            except ValueError:
                raise RaiseOutcome(ExtRef("builtins.ValueError"), n)
        if attr == "reverse":
            I.snapshot(v); v.reverse(); return None
        if attr == "clear":
            I.snapshot(v); v.clear(); return None
        if attr == "sort":
            I.snapshot(v)
            try:
                v.sort()
            except TypeError:
                pass
            return None
        if attr == "count":
            return sum(1 for x in v if same(x, a[0]))
    if isinstance(v, dict):
        if attr == "get":
            kk = I.hashable(a[0])
            try:
                return v.get(kk, a[1] if len(a) > 1 else None)
            except TypeError:
                return Opaque(("get", repr(a[0])))
        if attr == "keys":
            return list(v.keys())
        if attr == "values":
            return list(v.values())
        if attr == "items":
            return [tuple(x) for x in v.items()]
        if attr == "update":
            I.snapshot(v)
            if a and isinstance(a[0], dict):
                v.update(a[0])
            v.update(k)
            return None
        if attr == "pop":
            I.snapshot(v)
            return v.pop(a[0], a[1] if len(a) > 1 else None)
        if attr == "setdefault":
            I.snapshot(v)
            return v.setdefault(a[0], a[1] if len(a) > 1 else None)
        if attr == "copy":
            return dict(v)
    if isinstance(v, set):
        if attr == "add":
            I.snapshot(v); v.add(a[0]); return None
        if attr == "update":
            I.snapshot(v); v.update(I.iterate(a[0], n)); return None
        if attr == "copy":
            return set(v)
    if isinstance(v, str):
        if attr in ("lower", "upper", "strip", "startswith", "endswith", "replace", "split", "rstrip", "lstrip", "join", "title", "isdigit", "isnumeric", "isalpha", "count", "find", "index", "removeprefix", "removesuffix") and all(isinstance(x, (str, int)) or (isinstance(x, (list, tuple)) and all(isinstance(y, str) for y in x)) for x in a):
            return getattr(v, attr)(*a)
        return Opaque(("strmeth", v, attr, tuple(I.keyof(x) for x in a)))
    if isinstance(v, tuple):
        if attr in ("index", "count"):
            return getattr(v, attr)(*a)
    # list/tuple used as array literal
    if attr in ("copy", "reshape", "flatten", "ravel", "astype"):
        return list(v) if isinstance(v, list) else v
    if attr in NUMPY_HOOKS:
        return NUMPY_HOOKS[attr](I, [v] + list(a), k, n)
    return Opaque(("meth", repr(v)[:100], attr, tuple(I.keyof(x) for x in a)))


# ----------------------------------------------------------------------------- numpy / builtins
NUMPY_HOOKS: Dict[str, Callable] = {}


def np_hook(*names):
    def deco(fn):
        for n in names:
            NUMPY_HOOKS[n] = fn
        return fn

    return deco


def elementwise(fn):
    def h(I, a, k, n):
        x = a[0]

        def one(v):
            if isinstance(v, (list, tuple)):
                return [one(y) for y in v]
            if isinstance(v, NDA):
                return nda_map1(I, one, v)
            if isinstance(v, Phi):
                return I.phi(v.cond, one(v.a), one(v.b))
            try:
                return I.simplify(fn(I.as_expr(v)))
            except TypeError:
                return Opaque(("np", getattr(fn, "__name__", "?"), I.keyof(v)))

        r = one(x)
        if "out" in k and isinstance(k["out"], NDA):
            I.snapshot(k["out"])
            nda_set(I, k["out"], (), r, n)
        return r

    return h


def _abs(e):
    if e.is_const():
        return Expr.const(abs(e.const_value()))
    if A._neg_lead(e):
        e = -e
    return A.app("abs", e)


def _exp(e):
    return A.ONE if not e.t else A.app("exp", e)


def _log(e):
    return A.ZERO if e.const_value() == 1 else A.app("log", e)


for _n, _f in dict(
    sin=A.fsin, cos=A.fcos, tan=A.ftan, sqrt=A.fsqrt, exp=_exp, log=_log, abs=_abs, absolute=_abs, fabs=_abs,
    arctan=lambda e: A.ZERO if not e.t else A.app("atan", e), atan=lambda e: A.ZERO if not e.t else A.app("atan", e),
    arcsin=lambda e: A.app("asin", e), asin=lambda e: A.app("asin", e), arccos=lambda e: A.app("acos", e),
    acos=lambda e: A.app("acos", e), sinh=lambda e: A.app("sinh", e), cosh=lambda e: A.app("cosh", e),
    tanh=lambda e: A.app("tanh", e), square=lambda e: e * e, negative=lambda e: -e,
    deg2rad=lambda e: e * A.PI / 180, rad2deg=lambda e: e * 180 / A.PI, radians=lambda e: e * A.PI / 180,
    degrees=lambda e: e * 180 / A.PI, sign=lambda e: A.app("sign", e), cbrt=lambda e: e ** Fraction(1, 3),
).items():
    NUMPY_HOOKS[_n] = elementwise(_f)


@np_hook("arctan2", "atan2")
def _atan2(I, a, k, n):
    try:
        return A.app("atan2", I.as_expr(a[0]), I.as_expr(a[1]))
    except TypeError:
        return Opaque(("atan2", I.keyof(a[0]), I.keyof(a[1])))


def _bin(op):
    def h(I, a, k, n):
        r = I.binop(op, a[0], a[1], n)
        if "out" in k and isinstance(k["out"], NDA):
            I.snapshot(k["out"])
            nda_set(I, k["out"], (), r, n)
        return r

    return h


for _n, _o in dict(add="Add", subtract="Sub", multiply="Mult", divide="Div", true_divide="Div", power="Pow", pow="Pow").items():
    NUMPY_HOOKS[_n] = _bin(_o)


def _shaped(v, a, k):
    sh = a[0] if a else k.get("shape")
    if isinstance(sh, NDA):
        sh = sh.shape
    if isinstance(sh, (tuple, list)) and all(isinstance(x, (int, Expr)) for x in sh):
        v.shape = tuple(sh)
    return v


@np_hook("zeros", "zeros_like")
def _zeros(I, a, k, n):
    return _shaped(NDA(0, {}, name="zeros"), a, k)


@np_hook("ones", "ones_like")
def _ones(I, a, k, n):
    return _shaped(NDA(1, {}, name="ones"), a, k)


@np_hook("empty", "empty_like")
def _empty(I, a, k, n):
    return _shaped(NDA(None, {}, name="empty"), a, k)


@np_hook("full", "full_like")
def _full(I, a, k, n):
    return NDA(a[1], {}, name="full")


@np_hook("array", "asarray", "ascontiguousarray", "asfortranarray", "squeeze", "ravel", "broadcast_to", "float64", "reshape", "copy", "atleast_1d", "real_if_close")
def _array(I, a, k, n):
    v = a[0]
    if isinstance(v, list):
        return [list(x) if isinstance(x, (list, tuple)) else x for x in v]
    if isinstance(v, NDA):
        return NDA(v.base, v.cells, v.name)
    if isinstance(v, tuple):
        return list(v)
    return v


@np_hook("real")
def _real(I, a, k, n):
    return a[0]


@np_hook("prod")
def _prod(I, a, k, n):
    try:
        r = 1
        for x in I.iterate(a[0], n):
            r = I.binop("Mult", r, x, n)
        return r
    except TypeError:
        return Opaque(("prod", I.keyof(a[0])))


@np_hook("floor")
def _floor(I, a, k, n):
    v = a[0]
    if isinstance(v, (int, Fraction)):
        return math.floor(v)
    h = I.hooks.get("__floor__")
    if h is not None:
        r = h(I, I.as_expr(v))
        if r is not None:
            return r
    return A.app("floor", I.as_expr(v))


@np_hook("stack", "vstack", "hstack", "concatenate")
def _stack(I, a, k, n):
    return list(a[0]) if isinstance(a[0], (list, tuple)) else a[0]


@np_hook("factorial")
def _fact(I, a, k, n):
    if isinstance(a[0], (int, Fraction)):
        return math.factorial(int(a[0]))
    return A.app("factorial", I.as_expr(a[0]))


@np_hook("where")
def _where(I, a, k, n):
    if len(a) == 3:
        t = I.truth(a[0])
        if t is True:
            return a[1]
        if t is False:
            return a[2]
        return I.phi(a[0], a[1], a[2])
    return Opaque(("where", tuple(I.keyof(x) for x in a)))


def _minmax(name):
    def h(I, a, k, n):
        try:
            x, y = a[0], a[1]
            if isinstance(x, (int, Fraction)) and isinstance(y, (int, Fraction)):
                return max(x, y) if name == "max" else min(x, y)
            ex, ey = sorted([I.as_expr(x), I.as_expr(y)], key=repr)
            return A.app(name, ex, ey)
        except (TypeError, IndexError):
            return Opaque((name, tuple(I.keyof(x) for x in a)))

    return h


NUMPY_HOOKS["maximum"] = _minmax("max")
NUMPY_HOOKS["minimum"] = _minmax("min")


def _b_range(I, a, k, n):
    if all(isinstance(x, int) for x in a):
        return list(range(*a))
    return Opaque(("range", tuple(I.keyof(x) for x in a)))


def _b_len(I, a, k, n):
    v = a[0]
    if isinstance(v, AbsVal) and hasattr(v, "a_len"):
        return v.a_len()
    if isinstance(v, (list, tuple, dict, set, str)):
        return len(v)
    return Opaque(("len", I.keyof(v)))


def _b_enumerate(I, a, k, n):
    try:
        st = a[1] if len(a) > 1 else k.get("start", 0)
        return [(i + st, x) for i, x in enumerate(I.iterate(a[0], n))]
    except TypeError:
        return Opaque(("enumerate", I.keyof(a[0])))


def _b_zip(I, a, k, n):
    try:
        return [tuple(x) for x in zip(*[I.iterate(v, n) for v in a])]
    except TypeError:
        return Opaque(("zip", tuple(I.keyof(v) for v in a)))


def _b_int(I, a, k, n):
    if not a:
        return 0
    v = a[0]
    if isinstance(v, (int, Fraction, bool)):
        return int(v)
    if isinstance(v, str):
        try:
            return int(v)
        except ValueError:
            return Opaque(("int", v))
    if isinstance(v, Expr):
        h = I.hooks.get("__int__")
        if h is not None:
            r = h(I, v)
            if r is not None:
                return r
    return A.app("int", I.as_expr(v)) if I.is_alg(v) else Opaque(("int", I.keyof(v)))


def _b_float(I, a, k, n):
    v = a[0]
    if isinstance(v, (int, Fraction)):
        return Fraction(v)
    if isinstance(v, str):
        try:
            f = float(v)
            return f if math.isinf(f) or math.isnan(f) else Fraction(v)
        except ValueError:
            return Opaque(("float", v))
    return v


def _b_sum(I, a, k, n):
    try:
        r = a[1] if len(a) > 1 else 0
        for x in I.iterate(a[0], n):
            r = I.binop("Add", r, x, n)
        return r
    except TypeError:
        return Opaque(("sum", I.keyof(a[0])))


NUMPY_HOOKS["sum"] = _b_sum


def _b_minmax(name):
    def h(I, a, k, n):
        vals = a
        if len(a) == 1:
            try:
                vals = I.iterate(a[0], n)
            except TypeError:
                return Opaque((name, I.keyof(a[0])))
        if all(isinstance(x, (int, Fraction, float)) for x in vals) and vals:
            return max(vals) if name == "max" else min(vals)
        if len(vals) == 2:
            return _minmax(name)(I, vals, k, n)
        return Opaque((name, tuple(I.keyof(v) for v in vals)))

    return h


def _b_isinstance(I, a, k, n):
    v, c = a[0], a[1]
    cs = c if isinstance(c, tuple) else (c,)
    if isinstance(v, Obj) and v.cls is not None:
        names = {cc.name for _, cc in I.p.mro(*v.cls)}
        return any(isinstance(x, ClassRef) and x.node.name in names for x in cs)
    names = [getattr(x, "dotted", getattr(x, "name", "")) for x in cs]
    short = [str(x).split(".")[-1] for x in names]
    if isinstance(v, AbsVal) and hasattr(v, "a_isinstance"):
        return v.a_isinstance(I, cs)
    if isinstance(v, AbsVal):
        kinds = getattr(v, "py_types", ())
        return any(t in kinds for t in short) if kinds else Opaque(("isinstance", repr(v), tuple(short)))
    if isinstance(v, str):
        return "str" in short
    if isinstance(v, bool):
        return "bool" in short or "int" in short
    if isinstance(v, int):
        return "int" in short
    if isinstance(v, Fraction):
        return "float" in short
    if isinstance(v, list):
        return "list" in short
    if isinstance(v, tuple):
        return "tuple" in short
    if v is None:
        return False
    if isinstance(v, dict):
        return "dict" in short
    if isinstance(v, (set, frozenset)):
        return "set" in short
    if isinstance(v, float):
        return "float" in short
    if I.exact and isinstance(v, Obj) and v.cls is None:
        return v.name in short
    if I.exact and isinstance(v, (ExtRef, Opaque)):
        names = I.exc_names(v)
        if "BaseException" in names:
            return any(t in names for t in short)
    return Opaque(("isinstance", I.keyof(v), tuple(short)))


def _b_reversed(I, a, k, n):
    return list(reversed(I.iterate(a[0], n)))


def _b_getattr(I, a, k, n):
    if isinstance(a[1], str):
        if isinstance(a[0], Obj) and a[1] not in a[0].attrs and len(a) > 2:
            m = a[0].cls and I.p.find_method(*a[0].cls, a[1])
            if not m:
                return a[2]
        return I.getattr_(a[0], a[1], n)
    return Opaque(("getattr", I.keyof(a[0]), I.keyof(a[1])))


def _b_setattr(I, a, k, n):
    if isinstance(a[1], str):
        I.setattr_(a[0], a[1], a[2])


def _b_hasattr(I, a, k, n):
    if isinstance(a[0], Obj) and isinstance(a[1], str):
        if a[1] in a[0].attrs:
            return True
        if a[0].cls and I.p.find_method(*a[0].cls, a[1]):
            return True
        if a[0].strict or a[0].cls:
            return False
    if isinstance(a[0], Func):
        return a[1] in a[0].__dict__.get("fattrs", {})
    return Opaque(("hasattr", I.keyof(a[0]), I.keyof(a[1])))


def _b_str(I, a, k, n):
    v = a[0] if a else ""
    if I.exact and (isinstance(v, (float, Fraction)) or v is None or (isinstance(v, (list, tuple)) and all(isinstance(q, (int, float, str, Fraction)) for q in v))):
        if isinstance(v, (list, tuple)):
            return str(type(v)(float(q) if isinstance(q, Fraction) else q for q in v))
        return str(float(v) if isinstance(v, Fraction) else v)
    return v if isinstance(v, str) else str(v) if isinstance(v, (int, Fraction)) else Opaque(("str", I.keyof(v)))


def _b_all(name):
    def h(I, a, k, n):
        try:
            vals = I.iterate(a[0], n)
        except TypeError:
            return Opaque((name, I.keyof(a[0])))
        bs = [I.truth(v) for v in vals]
        if name == "all":
            if any(b is False for b in bs):
                return False
            if all(b is True for b in bs):
                return True
        else:
            if any(b is True for b in bs):
                return True
            if all(b is False for b in bs):
                return False
        return Opaque((name, tuple(I.keyof(v) for v in vals)))

    return h


def _b_map(I, a, k, n):
    try:
        seqs = [I.iterate(v, n) for v in a[1:]]
    except TypeError:
        return Opaque(("map",))
    return [I.call(a[0], list(x), {}, n) for x in zip(*seqs)]


def _b_sorted(I, a, k, n):
    try:
        v = I.iterate(a[0], n)
        return sorted(v, reverse=bool(k.get("reverse", False)))
    except TypeError:
        return Opaque(("sorted", I.keyof(a[0])))


def _b_divmod(I, a, k, n):
    return (I.binop("FloorDiv", a[0], a[1], n), I.binop("Mod", a[0], a[1], n))


def _b_issubclass(I, a, k, n):
    v = a[0]
    cs = a[1] if isinstance(a[1], tuple) else (a[1],)
    if isinstance(v, Hook) and v.name in PYBUILTINS and all(isinstance(x, (Hook, ClassRef)) for x in cs):
        return any(isinstance(x, Hook) and (x.name == v.name or (v.name, x.name) == ("bool", "int")) for x in cs)
    if isinstance(v, ClassRef) and any(isinstance(x, Hook) for x in cs):
        ext = [ast.unparse(b) for (_, cc) in I.p.mro(v.module, v.node) for b in cc.bases]
        if any(isinstance(x, Hook) and x.name in ext for x in cs):
            return True
    if isinstance(v, (ClassRef, ExtRef)):
        names = I.exc_names(v)
        return any((x.node.name if isinstance(x, ClassRef) else str(getattr(x, "dotted", x)).split(".")[-1]) in names for x in cs)
    return Opaque(("issubclass", I.keyof(v)))


def _seq(kind, I, a, n):
    if not a:
        return kind()
    try:
        return kind(I.iterate(a[0], n))
    except TypeError as e:
        if "not iterable statically" not in str(e):
            raise
        return Opaque((kind.__name__, I.keyof(a[0])))


PYBUILTINS: Dict[str, Callable] = {
    "issubclass": _b_issubclass,
    "range": _b_range, "len": _b_len, "enumerate": _b_enumerate, "zip": _b_zip, "int": _b_int, "float": _b_float,
    "sum": _b_sum, "max": _b_minmax("max"), "min": _b_minmax("min"), "isinstance": _b_isinstance,
    "reversed": _b_reversed, "getattr": _b_getattr, "setattr": _b_setattr, "hasattr": _b_hasattr, "str": _b_str, "vars": lambda I, a, k, n: a[0].attrs if isinstance(a[0], Obj) else Opaque(("vars", I.keyof(a[0]))),
    "abs": NUMPY_HOOKS["abs"], "all": _b_all("all"), "any": _b_all("any"), "map": _b_map, "sorted": _b_sorted,
    "print": lambda I, a, k, n: None, "divmod": _b_divmod,
    "list": lambda I, a, k, n: _seq(list, I, a, n),
    "tuple": lambda I, a, k, n: _seq(tuple, I, a, n),
    "dict": lambda I, a, k, n: dict(a[0]) if a and isinstance(a[0], dict) else dict(k),
    "set": lambda I, a, k, n: _seq(set, I, a, n),
    "bool": lambda I, a, k, n: (I.truth(a[0]) if I.truth(a[0]) is not None else a[0]),
    "pow": _bin("Pow"), "round": lambda I, a, k, n: round(a[0]) if isinstance(a[0], (int, Fraction)) else Opaque(("round", I.keyof(a[0]))),
    "iter": lambda I, a, k, n: a[0],
}


def _partial(I, a, k, n):
    return Partial(a[0], list(a[1:]), dict(k))


def _reduce(I, a, k, n):
    seq = I.iterate(a[1], n)
    acc = a[2] if len(a) > 2 else seq.pop(0)
    for x in seq:
        acc = I.call(a[0], [acc, x], {}, n)
    return acc


class DQ(list):
    maxlen = None


def _deque(I, a, k, n):
    d = DQ(I.iterate(a[0], n) if a else [])
    ml = k.get("maxlen", a[1] if len(a) > 1 else None)
    if isinstance(ml, int):
        d.maxlen = ml
        while len(d) > ml:
            del d[0]
    return d


def _deepcopy(I, a, k, n):
    v = a[0]
    if isinstance(v, NDA):
        return NDA(v.base, v.cells, v.name)
    if isinstance(v, list):
        return [_deepcopy(I, [x], {}, n) for x in v]
    if isinstance(v, Obj):
        return Obj(v.cls, v.name, v.attrs, v.strict)
    return v


BASE_HOOKS: Dict[str, Callable] = {
    "functools.partial": _partial, "functools.reduce": _reduce, "copy.deepcopy": _deepcopy, "copy.copy": _deepcopy,
    "time.time": lambda I, a, k, n: A.sym("walltime"),
    "time.perf_counter": lambda I, a, k, n: A.sym("walltime"),
    "collections.deque": lambda I, a, k, n: _deque(I, a, k, n),
    "itertools.combinations": lambda I, a, k, n: [tuple(c) for c in itertools.combinations(I.iterate(a[0], n), a[1])],
    "itertools.product": lambda I, a, k, n: [tuple(c) for c in itertools.product(*[I.iterate(x, n) for x in a], repeat=k.get("repeat", 1))],
    "itertools.chain": lambda I, a, k, n: [y for x in a for y in I.iterate(x, n)],
}
