"""C21: configuration expressions can only do arithmetic."""
from __future__ import annotations

import ast
import builtins
import re

from .. import algebra as A
from ..algebra import Expr, sym
from ..interp import AbsVal, ExtRef, Func, Hook, Interp, MISSING, Obj, Opaque, RaiseOutcome, Unsupported, PYBUILTINS, _b_isinstance
from ..project import AnalysisError, loc, qualname


class Node(AbsVal):
    """abstract syntax node of the expression being evaluated"""

    def __init__(self, kind_, /, **fields):
        self.kind = kind_
        self.fields = fields

    def __repr__(self):
        return f"ast.{self.kind}"

    def a_attr(self, I, attr, node):
        if attr in self.fields:
            return self.fields[attr]
        if attr == "__class__":
            return ExtRef(f"ast.{self.kind}")
        if attr == "_fields":
            return tuple(self.match_args())
        if attr in getattr(ast, self.kind)._fields:
            return Opaque(("field", self.kind, attr))
        if attr in ("lineno", "col_offset"):
            return 1
        raise RaiseOutcome(ExtRef("builtins.AttributeError"), node)

    def a_truth(self, I):
        return True

    def a_compare(self, I, op, other, swapped, node):
        if op in ("Is", "IsNot", "Eq", "NotEq"):
            r = self is other
            return r if op in ("Is", "Eq") else not r
        return MISSING

    def match_args(self):
        return list(getattr(ast, self.kind)._fields)

    def a_isinstance(self, I, cs):
        out = False
        flat = []
        for c in cs:
            flat += list(c) if isinstance(c, (tuple, list)) else [c]
        for c in flat:
            d = getattr(c, "dotted", "")
            k = getattr(ast, d.split(".")[-1], None) if d.startswith("ast.") else None
            if isinstance(k, type) and issubclass(getattr(ast, self.kind), k):
                out = True
        return out


class Const(AbsVal):
    """literal whose value is an arbitrary member of a python type"""

    def __init__(self, pytype, expr=None):
        self.pytype = pytype
        self.expr = expr

    def __repr__(self):
        return f"<{self.pytype} literal>"

    def a_isinstance(self, I, cs):
        flat = []
        for c in cs:
            flat += list(c) if isinstance(c, (tuple, list)) else [c]
        names = [str(getattr(c, "dotted", getattr(c, "name", c))).split(".")[-1] for c in flat]
        sup = {"int": ("int", "object", "Number", "Real", "Integral", "Complex"), "float": ("float", "object", "Number", "Real", "Complex"), "bool": ("bool", "int", "object", "Number", "Real", "Integral"),
               "complex": ("complex", "object", "Number", "Complex"), "str": ("str", "object"), "bytes": ("bytes", "object"), "NoneType": ("NoneType", "object"), "ellipsis": ("EllipsisType", "object")}[self.pytype]
        return any(n in sup for n in names)

    def a_truth(self, I):
        return None

    def a_attr(self, I, attr, node):
        if attr == "__class__":
            return ExtRef("builtins." + self.pytype)
        return Opaque((repr(self), attr))

    def a_binop(self, I, op, other, swapped, node):
        if self.expr is None:
            return Opaque((op, repr(self), repr(other)))
        o = other.expr if isinstance(other, Const) else other
        return I.binop(op, o, self.expr, node) if swapped else I.binop(op, self.expr, o, node)

    def a_compare(self, I, op, other, swapped, node):
        if op in ("Is", "IsNot") and other is None:
            r = self.pytype == "NoneType"
            return r if op == "Is" else not r
        return MISSING


OPS = {"add": "Add", "sub": "Sub", "mul": "Mult", "truediv": "Div", "pow": "Pow", "floordiv": "FloorDiv", "mod": "Mod", "matmul": "MatMult", "xor": "BitXor", "and_": "BitAnd", "or_": "BitOr",
       "lshift": "LShift", "rshift": "RShift"}


def hooks(state):
    h = {}
    for k, v in OPS.items():
        h[f"operator.{k}"] = lambda I, a, kw, n, v=v: I.binop(v, a[0], a[1], n)
    h["operator.neg"] = lambda I, a, k, n: I.binop("Mult", -1, a[0], n)
    h["operator.pos"] = lambda I, a, k, n: a[0]
    h["operator.invert"] = h["operator.inv"] = h["operator.not_"] = lambda I, a, k, n: Opaque(("op", "not", repr(a[0])))
    def parse(I, a, k, n):
        mode = k.get("mode", a[2] if len(a) > 2 else "exec")
        if mode == "eval":
            return Node("Expression", body=state["node"])
        return Node("Module", body=[Node("Expr", value=state["node"])])
    h["ast.parse"] = parse

    def danger(name):
        def f(I, a, k, n):
            state["danger"].append((name, n))
            return Opaque((name,))
        return f
    for d in ("eval", "exec", "compile", "__import__", "open", "globals", "vars"):
        h[f"builtins.{d}"] = danger(d)
    for d in ("ast.literal_eval", "os.system", "subprocess.run", "importlib.import_module"):
        h[d] = danger(d)
    return h


def type_hook(I, a, k, n):
    v = a[0]
    if isinstance(v, Node):
        return ExtRef(f"ast.{v.kind}")
    if isinstance(v, Const):
        return ExtRef("builtins." + v.pytype)
    return Opaque(("type", repr(v)))


def run(p, rep, tier):
    rep.explanation = ("The evaluator is interpreted on one abstract syntax node per node class of the Python expression grammar (children abstract), which by structural "
                       "induction covers every expression; dynamic evaluation sites are enumerated in the whole tree.")
    r1 = rep.rule("arithmetic", "number literals, + - * / and unary - have their usual meaning", 9)
    r2 = rep.rule("closed", "every other kind of expression, operator, literal or name is rejected with an exception", 60)
    r3 = rep.rule("names", "a name evaluates to the mathematical constant it denotes or is rejected", 3)
    r4 = rep.rule("no-dynamic", "no source text or name from outside is handed to the interpreter (eval, exec, compile, __import__)", 1)
    m, f = p.find_function("eval_expr")
    fn = Func(m, f)

    def ev(node):
        state = {"node": node, "danger": []}
        I = Interp(p, hooks(state))
        for mm in p.modules.values():
            I.modvars[(mm.name, "type")] = Hook("type", type_hook)
        try:
            v = I.call_func(fn, [Const("str")], {}, None)
            out = ("value", v)
        except RaiseOutcome as e:
            out = ("raise", e.val)
        rep.analysed.update(I.analysed)
        if state["danger"]:
            return ("danger", state["danger"][0])
        return out

    def val(v):
        if isinstance(v, Const):
            return v.expr
        if isinstance(v, (Expr, int, float)) or type(v).__name__ == "Fraction":
            return A.to_expr(v)
        return None

    a, b, c = sym("a"), sym("b"), sym("c")
    num = lambda e, t="float": Node("Constant", value=Const(t, e), kind=None)  # noqa: E731
    nodes = {
        "integer literal": (num(a, "int"), a), "real literal": (num(a), a),
        "a + b": (Node("BinOp", left=num(a), op=Node("Add"), right=num(b)), a + b), "a - b": (Node("BinOp", left=num(a), op=Node("Sub"), right=num(b)), a - b),
        "a * b": (Node("BinOp", left=num(a), op=Node("Mult"), right=num(b)), a * b), "a / b": (Node("BinOp", left=num(a), op=Node("Div"), right=num(b)), a / b),
        "-a": (Node("UnaryOp", op=Node("USub"), operand=num(a)), -a),
        "(a - b) - (-c)": (Node("BinOp", left=Node("BinOp", left=num(a), op=Node("Sub"), right=num(b)), op=Node("Sub"), right=Node("UnaryOp", op=Node("USub"), operand=num(c))), a - b + c),
        "a / (b * c)": (Node("BinOp", left=num(a), op=Node("Div"), right=Node("BinOp", left=num(b), op=Node("Mult"), right=num(c))), a / (b * c)),
    }
    for name, (n, want) in nodes.items():
        k, v = ev(n)
        e = val(v) if k == "value" else None
        rep.check(e is not None and A.equal(e, want), r1, name, f"evaluates to {v!r} ({k}) instead of {want}", loc(f))

    def reject(label, n):
        k, v = ev(n)
        if k == "danger":
            rep.bad(r2, label, f"is handed to {v[0]}", loc(v[1]) if v[1] is not None else loc(f))
        else:
            rep.check(k == "raise", r2, label, f"is accepted and evaluates to {v!r}", loc(f))

    # all other expression node classes of the grammar
    handled = {"BinOp", "UnaryOp", "Constant", "Name"}
    for k in sorted(x.__name__ for x in ast.expr.__subclasses__()):
        if k in handled or getattr(ast, k, None) is None or k in ("Num", "Str", "Bytes", "NameConstant", "Ellipsis"):
            continue
        fields = {}
        for fl in getattr(ast, k)._fields:
            fields[fl] = [num(a)] if fl in ("elts", "args", "values", "keys", "comparators", "generators", "keywords") else num(b)
        if k in ("Compare",):
            fields["ops"] = [Node("Lt")]
        if k == "BoolOp":
            fields["op"] = Node("And")
        if k in ("Attribute",):
            fields["attr"] = "__class__"
        if k == "Call":
            fields["func"] = Node("Name", id="pi", ctx=Node("Load"))
        reject(f"{k} expression", Node(k, **fields))
        if k == "Call":
            for nm in ("eval", "__import__", "open"):
                reject(f"call of {nm}", Node("Call", func=Node("Name", id=nm, ctx=Node("Load")), args=[num(a)], keywords=[]))
    for o in sorted(x.__name__ for x in ast.operator.__subclasses__()):
        if o not in ("Add", "Sub", "Mult", "Div"):
            reject(f"binary operator {o}", Node("BinOp", left=num(a), op=Node(o), right=num(b)))
    for o in ("Not", "Invert"):
        reject(f"unary operator {o}", Node("UnaryOp", op=Node(o), operand=num(a)))
    k, v = ev(Node("UnaryOp", op=Node("UAdd"), operand=num(a)))
    rep.check(k == "raise" or (k == "value" and val(v) is not None and A.equal(val(v), a)), r1, "+a", f"evaluates to {v!r}", loc(f))
    for t in ("str", "bytes", "NoneType", "ellipsis", "complex"):
        reject(f"{t} literal", Node("Constant", value=Const(t), kind=None))
    # names
    names = set(dir(builtins)) | set(m.functions) | set(m.assigns) | set(m.imports) | {"x", "sin", "self", "inf", "nan", "e", "tau", "pie"}
    consts = {"pi": A.PI}
    for nm in sorted(names):
        for v_ in {nm, nm.upper()}:
            k, v = ev(Node("Name", id=v_, ctx=Node("Load")))
            known = {"e": "e", "tau": "tau", "inf": "inf", "nan": "nan"}
            if k == "raise":
                rep.ok(r2, f"name {v_}")
            elif v_.lower() in ("e", "tau", "inf", "nan", "infinity") and (val(v) is not None or isinstance(v, (ExtRef, float))):
                rep.ok(r3, f"name {v_}")
            else:
                rep.bad(r2, f"name {v_}", f"is accepted and evaluates to {v!r}", loc(f))
    for nm in ("pi", "Pi", "PI"):
        k, v = ev(Node("Name", id=nm, ctx=Node("Load")))
        e = val(v) if k == "value" else None
        rep.check(e is not None and A.equal(e, A.PI), r3, nm, f"evaluates to {v!r} ({k})", loc(f))
    # dynamic evaluation sites
    n = 0
    for mm in p.modules.values():
        for x in ast.walk(mm.tree):
            if isinstance(x, ast.Call):
                n += 1
                nm = x.func.id if isinstance(x.func, ast.Name) else (ast.unparse(x.func) if isinstance(x.func, ast.Attribute) else "")
                if nm in ("eval", "exec", "compile", "__import__") and nm not in mm.functions and p.resolve(mm.name, nm) is None:
                    const = all(isinstance(y, ast.Constant) for y in x.args)
                    rep.check(const, r4, f"{qualname(x)}: {ast.unparse(x)[:60]}", f"calls {nm} on run-time text", loc(x))
                elif nm in ("builtins.eval", "builtins.exec", "os.system", "ast.literal_eval") or (nm.startswith("subprocess.") and any(isinstance(q.value, ast.Constant) and q.arg == "shell" and q.value.value for q in x.keywords)):
                    rep.bad(r4, f"{qualname(x)}: {ast.unparse(x)[:60]}", f"calls {nm}", loc(x))
    rep.ok(r4, f"{n} call sites inspected")
    rep.extra["call_sites"] = n
