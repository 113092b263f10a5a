"""Loads the source tree of the project (parsed afresh on every run)."""
from __future__ import annotations

import ast
import hashlib
import os
from dataclasses import dataclass, field
from typing import Dict, List, Optional, Tuple

REPO = os.environ.get("WXCHECK_REPO", "/repo")


class AnalysisError(Exception):
    """The analysis could not be carried out (anchor vanished, unsupported construct): error exit."""


@dataclass
class Module:
    name: str
    path: str
    rel: str
    tree: ast.Module
    src: str
    functions: Dict[str, ast.FunctionDef] = field(default_factory=dict)
    classes: Dict[str, ast.ClassDef] = field(default_factory=dict)
    imports: Dict[str, Tuple[str, Optional[str]]] = field(default_factory=dict)  # local -> (module, attr|None)
    assigns: Dict[str, ast.AST] = field(default_factory=dict)


class Project:
    def __init__(self, root: str = None):
        self.repo = root or REPO
        self.pkg = os.path.join(self.repo, "wx_factory")
        if not os.path.isdir(self.pkg):
            raise AnalysisError(f"source package directory not found: {self.pkg}")
        self.modules: Dict[str, Module] = {}
        for dp, dn, fn in os.walk(self.pkg):
            dn[:] = [d for d in sorted(dn) if d not in ("__pycache__",) and not d.startswith(".")]
            for f in sorted(fn):
                if not f.endswith(".py"):
                    continue
                p = os.path.join(dp, f)
                rel = os.path.relpath(p, self.repo)
                mod = os.path.relpath(p, self.pkg)[:-3].replace(os.sep, ".")
                if mod.endswith(".__init__"):
                    mod = mod[: -len(".__init__")]
                self._load(mod, p, rel)
        main = os.path.join(self.repo, "WxFactory")
        if os.path.isfile(main):
            self._load("WxFactory", main, "WxFactory")

    def _load(self, mod, p, rel):
        with open(p, "rb") as fh:
            raw = fh.read()
        try:
            src = raw.decode("utf-8")
            tree = ast.parse(src)
        except (SyntaxError, UnicodeDecodeError) as e:
            raise AnalysisError(f"cannot parse {rel}: {e}")
        m = Module(mod, p, rel, tree, src)
        is_pkg = p.endswith("__init__.py")
        for n in ast.walk(tree):
            for c in ast.iter_child_nodes(n):
                c._parent = n  # type: ignore
            n._module = m  # type: ignore
        self._collect(m, tree.body, is_pkg)
        self.modules[mod] = m

    def _collect(self, m: Module, body, is_pkg):
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                m.functions[st.name] = st
            elif isinstance(st, ast.ClassDef):
                m.classes[st.name] = st
            elif isinstance(st, ast.Import):
                for a in st.names:
                    if a.asname:
                        m.imports[a.asname] = (a.name, None)
                    else:
                        m.imports[a.name.split(".")[0]] = (a.name.split(".")[0], None)
            elif isinstance(st, ast.ImportFrom):
                base = st.module or ""
                if st.level:
                    parts = m.name.split(".")
                    up = st.level if not is_pkg else st.level - 1
                    parts = parts[: len(parts) - up] if up else parts
                    base = ".".join(parts + ([st.module] if st.module else []))
                for a in st.names:
                    m.imports[a.asname or a.name] = (base, a.name)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        m.assigns[t.id] = st.value
                    elif isinstance(t, ast.Tuple) and isinstance(st.value, ast.Tuple):
                        for a, b in zip(t.elts, st.value.elts):
                            if isinstance(a, ast.Name):
                                m.assigns[a.id] = b
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value is not None:
                m.assigns[st.target.id] = st.value
            elif isinstance(st, (ast.If, ast.Try, ast.With)):
                for fld in ("body", "orelse", "finalbody"):
                    self._collect(m, getattr(st, fld, []), is_pkg)

    # --- lookups
    def resolve(self, module: str, name: str, seen=None):
        """-> ('func'|'class'|'assign', Module, node) | ('module', Module, None) | ('ext', dotted, None) | None"""
        seen = seen or set()
        if (module, name) in seen:
            return None
        seen.add((module, name))
        m = self.modules.get(module)
        if m is None:
            return ("ext", f"{module}.{name}", None)
        if name in m.classes:
            return ("class", m, m.classes[name])
        if name in m.functions:
            return ("func", m, m.functions[name])
        if name in m.assigns:
            return ("assign", m, m.assigns[name])
        if name in m.imports:
            base, attr = m.imports[name]
            if attr is None:
                if base in self.modules:
                    return ("module", self.modules[base], None)
                return ("ext", base, None)
            if f"{base}.{attr}" in self.modules and base not in self.modules:
                return ("module", self.modules[f"{base}.{attr}"], None)
            if base in self.modules:
                r = self.resolve(base, attr, seen)
                if r is not None:
                    return r
                if f"{base}.{attr}" in self.modules:
                    return ("module", self.modules[f"{base}.{attr}"], None)
                return None
            return ("ext", f"{base}.{attr}", None)
        if f"{module}.{name}" in self.modules:
            return ("module", self.modules[f"{module}.{name}"], None)
        return None

    def find_class(self, name: str, module_hint: str = None):
        hits = [(m, m.classes[name]) for m in self.modules.values() if name in m.classes]
        if module_hint:
            h2 = [h for h in hits if h[0].name == module_hint]
            hits = h2 or hits
        if not hits:
            raise AnalysisError(f"anchor vanished: class {name}")
        return hits[0]

    def find_function(self, name: str, module_hint: str = None):
        hits = [(m, m.functions[name]) for m in self.modules.values() if name in m.functions]
        if module_hint:
            h2 = [h for h in hits if h[0].name == module_hint]
            hits = h2 or hits
        if not hits:
            raise AnalysisError(f"anchor vanished: function {name}")
        return hits[0]

    def class_bases(self, m: Module, c: ast.ClassDef):
        out = []
        for b in c.bases:
            if isinstance(b, ast.Name):
                r = self.resolve(m.name, b.id)
                if r and r[0] == "class":
                    out.append((r[1], r[2]))
            elif isinstance(b, ast.Attribute) and isinstance(b.value, ast.Name):
                r = self.resolve(m.name, b.value.id)
                if r and r[0] == "module":
                    r2 = self.resolve(r[1].name, b.attr)
                    if r2 and r2[0] == "class":
                        out.append((r2[1], r2[2]))
        return out

    def mro(self, m: Module, c: ast.ClassDef):
        out = [(m, c)]
        for b in self.class_bases(m, c):
            for x in self.mro(*b):
                if x not in out:
                    out.append(x)
        return out

    def find_method(self, m: Module, c: ast.ClassDef, name: str, skip=0):
        for (mm, cc) in self.mro(m, c)[skip:]:
            for st in cc.body:
                if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)) and st.name == name:
                    return mm, cc, st
        return None

    def subclasses(self, name: str):
        out = []
        for m in self.modules.values():
            for c in m.classes.values():
                if any(cc.name == name for _, cc in self.mro(m, c)[1:]):
                    out.append((m, c))
        return out

    def digest(self):
        h = hashlib.sha256()
        for m in sorted(self.modules.values(), key=lambda x: x.rel):
            h.update(m.rel.encode() + b"\0" + m.src.encode())
        return h.hexdigest()


def loc(node) -> str:
    m = getattr(node, "_module", None)
    return f"{m.rel if m else '?'}:{getattr(node, 'lineno', '?')}"


def enclosing_function(node):
    n = node
    while n is not None and not isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
        n = getattr(n, "_parent", None)
    return n


def qualname(node) -> str:
    parts = []
    n = node
    while n is not None and not isinstance(n, ast.Module):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            parts.append(n.name)
        elif isinstance(n, ast.Lambda):
            parts.append("<lambda>")
        n = getattr(n, "_parent", None)
    m = getattr(node, "_module", None)
    return (m.name + "." if m else "") + ".".join(reversed(parts))
