"""Constant folding of literal tables (class bodies, module assignments): numbers, nested arrays, slices, arithmetic."""
from __future__ import annotations

import ast
import math
from fractions import Fraction

from .project import AnalysisError


class Arr:
    """n-dimensional constant array (nested lists of Fractions)"""

    def __init__(self, data):
        self.d = data

    @property
    def shape(self):
        s, x = [], self.d
        while isinstance(x, list):
            s.append(len(x))
            x = x[0] if x else None
        return tuple(s)


def _num(x):
    if isinstance(x, bool):
        return x
    if isinstance(x, (int, Fraction)):
        return Fraction(x)
    if isinstance(x, float):
        return Fraction(repr(x)) if x == x and abs(x) != float("inf") else x
    return x


def _map2(op, a, b):
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            if len(a) == 1:
                return [_map2(op, a[0], y) for y in b]
            if len(b) == 1:
                return [_map2(op, x, b[0]) for x in a]
            if a and isinstance(a[0], list) and not isinstance(b[0], list):
                return [_map2(op, x, b) for x in a]
            raise AnalysisError("shape mismatch in constant table")
        if a and isinstance(a[0], list) != isinstance(b[0], list):
            if isinstance(a[0], list):
                return [_map2(op, x, b) for x in a]
            return [_map2(op, a, y) for y in b]
        return [_map2(op, x, y) for x, y in zip(a, b)]
    if isinstance(a, list):
        return [_map2(op, x, b) for x in a]
    if isinstance(b, list):
        return [_map2(op, a, y) for y in b]
    return op(a, b)


OPS = {
    "Add": lambda a, b: a + b, "Sub": lambda a, b: a - b, "Mult": lambda a, b: a * b, "Div": lambda a, b: a / b,
    "Pow": lambda a, b: (a ** int(b)) if Fraction(b).denominator == 1 else _num(float(a) ** float(b)),
    "FloorDiv": lambda a, b: Fraction(a // b), "Mod": lambda a, b: a % b,
}


class Folder:
    """folds the statements of a body; names it cannot fold stay unknown"""

    def __init__(self, project, module, env=None):
        self.p = project
        self.m = module
        self.env = dict(env or {})
        self.failed = {}

    def body(self, stmts):
        for st in stmts:
            try:
                self.stmt(st)
            except AnalysisError as e:
                for t in ast.walk(st):
                    if isinstance(t, ast.Name) and isinstance(t.ctx, ast.Store):
                        self.env.pop(t.id, None)
                        self.failed[t.id] = str(e)
        return self.env

    def stmt(self, st):
        if isinstance(st, ast.Assign):
            v = self.ev(st.value)
            for t in st.targets:
                self.store(t, v)
        elif isinstance(st, ast.AnnAssign) and st.value is not None:
            self.store(st.target, self.ev(st.value))
        elif isinstance(st, ast.AugAssign):
            cur = self.ev(_load(st.target))
            self.store(st.target, self.bin(type(st.op).__name__, cur, self.ev(st.value)))
        elif isinstance(st, ast.For):
            for v in self.iter(self.ev(st.iter)):
                self.store(st.target, v)
                for s in st.body:
                    self.stmt(s)
        elif isinstance(st, (ast.Expr, ast.Pass, ast.FunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom)):
            return
        else:
            raise AnalysisError(f"cannot fold {type(st).__name__}")

    def iter(self, v):
        if isinstance(v, Arr):
            return [Arr(x) if isinstance(x, list) else x for x in v.d]
        if isinstance(v, (list, tuple, range)):
            return [(_num(x) if isinstance(x, int) else x) for x in v]
        raise AnalysisError("cannot iterate")

    def store(self, t, v):
        if isinstance(t, ast.Name):
            self.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            for a, b in zip(t.elts, self.iter(v)):
                self.store(a, b)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value)
            if isinstance(o, dict):
                o[self.ev(t.slice)] = v
                return
            idx = self.index(t.slice)
            _set(o.d if isinstance(o, Arr) else o, idx, v.d if isinstance(v, Arr) else v)
        else:
            raise AnalysisError("store target")

    def index(self, s):
        items = s.elts if isinstance(s, ast.Tuple) else [s]
        out = []
        for i in items:
            if isinstance(i, ast.Slice):
                f = lambda x: None if x is None else int(self.ev(x))
                out.append(slice(f(i.lower), f(i.upper), f(i.step)))
            else:
                v = self.ev(i)
                if v is Ellipsis:
                    raise AnalysisError("ellipsis index")
                out.append(int(v))
        return out

    def bin(self, op, a, b):
        if op == "Add" and isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            return a + b
        if op == "Mult" and isinstance(a, list) and isinstance(b, Fraction):
            return a * int(b)
        f = OPS.get(op)
        if f is None:
            raise AnalysisError(f"operator {op}")
        if isinstance(a, Arr) or isinstance(b, Arr):
            return Arr(_map2(f, a.d if isinstance(a, Arr) else a, b.d if isinstance(b, Arr) else b))
        if isinstance(a, (Fraction, float)) and isinstance(b, (Fraction, float)):
            try:
                return _num(f(a, b))
            except ZeroDivisionError:
                raise AnalysisError("division by zero in a constant")
        raise AnalysisError(f"operands of {op}")

    def ev(self, e):
        if isinstance(e, ast.Constant):
            if isinstance(e.value, float):
                seg = None
                src = getattr(self.m, "src", None)
                if src is not None:
                    seg = ast.get_source_segment(src, e) if len(src) < 20000 else None
                try:
                    return Fraction(seg.replace("_", "")) if seg else _num(e.value)
                except (ValueError, ZeroDivisionError):
                    return _num(e.value)
            return _num(e.value)
        if isinstance(e, ast.Name):
            if e.id in self.env:
                return self.env[e.id]
            r = self.p.resolve(self.m.name, e.id)
            if r and r[0] == "assign":
                return Folder(self.p, r[1]).ev(r[2])
            raise AnalysisError(f"name {e.id}")
        if isinstance(e, ast.UnaryOp):
            v = self.ev(e.operand)
            if isinstance(e.op, ast.USub):
                return Arr(_map2(lambda a, b: -a, v.d, 0)) if isinstance(v, Arr) else -v
            if isinstance(e.op, ast.UAdd):
                return v
            if isinstance(e.op, ast.Not):
                return not v
        if isinstance(e, ast.BinOp):
            return self.bin(type(e.op).__name__, self.ev(e.left), self.ev(e.right))
        if isinstance(e, (ast.List, ast.Tuple)):
            out = []
            for x in e.elts:
                if isinstance(x, ast.Starred):
                    out += list(self.iter(self.ev(x.value)))
                else:
                    out.append(self.ev(x))
            return out if isinstance(e, ast.List) else tuple(out)
        if isinstance(e, ast.Dict):
            return {self.ev(k): self.ev(v) for k, v in zip(e.keys, e.values)}
        if isinstance(e, ast.Subscript):
            o = self.ev(e.value)
            if isinstance(o, dict):
                return o[self.ev(e.slice)]
            r = _get(o.d if isinstance(o, Arr) else list(o), self.index(e.slice))
            return Arr(r) if isinstance(r, list) and isinstance(o, Arr) else r
        if isinstance(e, ast.Attribute):
            base = ast.unparse(e.value)
            if base in ("math", "numpy", "np", "xp") and e.attr in ("pi", "e", "inf"):
                return Fraction(repr(getattr(math, e.attr))) if e.attr != "inf" else math.inf
            v = self.ev(e.value)
            if e.attr == "T" and isinstance(v, Arr):
                return Arr([list(r) for r in zip(*v.d)])
            if e.attr == "shape":
                return tuple(Fraction(x) for x in v.shape)
            raise AnalysisError(f"attribute {e.attr}")
        if isinstance(e, ast.Call):
            return self.call(e)
        if isinstance(e, ast.ListComp) and len(e.generators) == 1 and not e.generators[0].ifs:
            g = e.generators[0]
            out = []
            for v in self.iter(self.ev(g.iter)):
                self.store(g.target, v)
                out.append(self.ev(e.elt))
            return out
        raise AnalysisError(f"expression {type(e).__name__}")

    def call(self, e):
        fn = ast.unparse(e.func)
        tail = fn.split(".")[-1]
        args = [self.ev(a) for a in e.args if not isinstance(a, ast.Starred)]
        if tail in ("array", "asarray") and args:
            return Arr(_tolist(args[0]))
        if tail in ("float", "float64", "Fraction", "int") and args:
            if tail == "Fraction" and len(args) == 2:
                return Fraction(args[0], args[1])
            return Fraction(args[0]) if not isinstance(args[0], Arr) else args[0]
        if tail in ("sqrt", "cos", "sin", "exp", "tan", "log") and isinstance(args[0], Fraction):
            return _num(getattr(math, tail)(args[0]))
        if tail in ("zeros", "ones", "empty"):
            sh = args[0]
            sh = [int(x) for x in sh] if isinstance(sh, (tuple, list)) else [int(sh)]
            return Arr(_full(sh, Fraction(1 if tail == "ones" else 0)))
        if tail == "range":
            return range(*[int(a) for a in args])
        if tail == "len":
            return Fraction(len(args[0].d if isinstance(args[0], Arr) else args[0]))
        if tail == "copy" and isinstance(e.func, ast.Attribute) and not args:
            v = self.ev(e.func.value)
            import copy
            return copy.deepcopy(v)
        if tail in ("append", "hstack", "concatenate") and len(args) >= 1:
            parts = args if tail == "append" else list(args[0])
            out = []
            for x in parts:
                out += list(x.d if isinstance(x, Arr) else x if isinstance(x, (list, tuple)) else [x])
            return Arr(out)
        if tail in ("sum",) and len(args) == 1 and isinstance(args[0], Arr) and len(args[0].shape) == 1:
            return sum(args[0].d, Fraction(0))
        raise AnalysisError(f"call {fn}")


def _full(sh, v):
    return [_full(sh[1:], v) for _ in range(sh[0])] if sh else v


def _tolist(v):
    if isinstance(v, Arr):
        import copy
        return copy.deepcopy(v.d)
    if isinstance(v, (list, tuple)):
        return [_tolist(x) for x in v]
    return v


def _get(d, idx):
    if not idx:
        return d
    i = idx[0]
    if isinstance(i, slice):
        return [_get(x, idx[1:]) for x in d[i]]
    try:
        return _get(d[i], idx[1:])
    except IndexError:
        raise AnalysisError("index out of range in a constant table")


def _set(d, idx, v):
    i = idx[0]
    if isinstance(i, slice):
        rng = range(*i.indices(len(d)))
        for k, j in enumerate(rng):
            x = v[k] if isinstance(v, list) else v
            if len(idx) == 1:
                d[j] = x
            else:
                _set(d[j], idx[1:], x)
    elif len(idx) == 1:
        d[i] = v
    else:
        _set(d[i], idx[1:], v)


def _load(t):
    import copy
    t2 = copy.copy(t)
    t2.ctx = ast.Load()
    return t2
