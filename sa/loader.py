"""Parses /repo/pycid from source (stdlib ast only; nothing of the repository is imported or executed) and resolves
names, imports, classes and method resolution order."""
from __future__ import annotations

import ast
import os
from dataclasses import dataclass, field
from typing import Dict, List, Optional, Tuple, Union

REPO = os.environ.get("VERIF_REPO", "/repo")


class AnalysisBroken(Exception):
    """An anchor of an analysis has vanished: reported as an analysis error, never as a pass or a violation."""


@dataclass(eq=False)
class Func:
    name: str
    qual: str  # module:Class.method
    node: Union[ast.FunctionDef, ast.Lambda]
    module: "Module"
    cls: Optional["Cls"] = None
    decorators: Tuple[str, ...] = ()

    @property
    def file(self) -> str:
        return self.module.relpath

    @property
    def lineno(self) -> int:
        return self.node.lineno


@dataclass(eq=False)
class Cls:
    name: str
    qual: str
    node: ast.ClassDef
    module: "Module"
    outer: Optional["Cls"] = None
    bases: List[Union["Cls", str]] = field(default_factory=list)
    methods: Dict[str, Func] = field(default_factory=dict)
    inner: Dict[str, "Cls"] = field(default_factory=dict)
    attrs: Dict[str, ast.expr] = field(default_factory=dict)

    def mro(self) -> List[Union["Cls", str]]:
        out: List[Union[Cls, str]] = [self]
        for b in self.bases:
            for c in b.mro() if isinstance(b, Cls) else [b]:
                if c in out:
                    out.remove(c)
                out.append(c)
        return out

    def lookup(self, name: str, after: Optional["Cls"] = None):
        """find the method in the MRO (optionally after the given class, as super() does).
        Returns a Func, or the name (str) of the first external base, or None"""
        mro = self.mro()
        if after is not None and after in mro:
            mro = mro[mro.index(after) + 1 :]
        for c in mro:
            if isinstance(c, Cls):
                if name in c.methods:
                    return c.methods[name]
            else:
                return c
        return None

    def lookup_inner(self, name: str) -> Optional["Cls"]:
        for c in self.mro():
            if isinstance(c, Cls) and name in c.inner:
                return c.inner[name]
        return None

    def is_sub(self, other: str) -> bool:
        return any((c.name if isinstance(c, Cls) else c.split(".")[-1]) == other for c in self.mro())

    def __repr__(self):
        return f"Cls({self.qual})"


@dataclass(eq=False)
class Module:
    name: str
    path: str
    relpath: str
    tree: ast.Module
    source: str
    imports: Dict[str, str] = field(default_factory=dict)  # local name -> dotted target
    funcs: Dict[str, Func] = field(default_factory=dict)
    classes: Dict[str, Cls] = field(default_factory=dict)
    consts: Dict[str, ast.expr] = field(default_factory=dict)


class Program:
    def __init__(self, root: Optional[str] = None, extra: Optional[Dict[str, str]] = None, overlay: Optional[Dict[str, str]] = None):
        self.root = root or REPO
        self.overlay = overlay or {}  # relative path -> source text used instead of the file
        self.modules: Dict[str, Module] = {}
        pkg = os.path.join(self.root, "pycid")
        if not os.path.isdir(pkg):
            raise AnalysisBroken("package directory pycid not found")
        for dirpath, dirs, files in os.walk(pkg):
            dirs[:] = sorted(d for d in dirs if d != "__pycache__")
            for f in sorted(files):
                if f.endswith(".py"):
                    path = os.path.join(dirpath, f)
                    rel = os.path.relpath(path, self.root)
                    name = rel[:-3].replace(os.sep, ".")
                    if name.endswith(".__init__"):
                        name = name[: -len(".__init__")]
                    self.add(name, path, rel)
        for name, path in (extra or {}).items():
            self.add(name, path, path)
        for m in self.modules.values():
            for c in m.classes.values():
                self._link(c)

    def add(self, name: str, path: str, rel: str) -> None:
        if rel in self.overlay:
            src = self.overlay[rel]
        else:
            with open(path, encoding="utf-8") as fh:
                src = fh.read()
        try:
            tree = ast.parse(src, path)
        except SyntaxError as e:
            raise AnalysisBroken(f"{rel} does not parse: {e}")
        m = Module(name, path, rel, tree, src)
        self.modules[name] = m
        is_pkg = path.endswith("__init__.py")
        for node in ast.walk(tree):
            if isinstance(node, ast.Import):
                for a in node.names:
                    m.imports[a.asname or a.name.split(".")[0]] = a.name if a.asname else a.name.split(".")[0]
            elif isinstance(node, ast.ImportFrom):
                base = node.module or ""
                if node.level:
                    parts = name.split(".")
                    parts = parts[: len(parts) - node.level + (1 if is_pkg else 0)]
                    base = ".".join(parts + ([base] if base else []))
                for a in node.names:
                    m.imports[a.asname or a.name] = f"{base}.{a.name}"
        self._scan(m, tree.body)

    def _scan(self, m: Module, body) -> None:
        for st in body:
            if isinstance(st, ast.FunctionDef):
                m.funcs[st.name] = Func(st.name, f"{m.name}:{st.name}", st, m, None, _decos(st))
            elif isinstance(st, ast.ClassDef):
                m.classes[st.name] = self._cls(m, st, None)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        m.consts[t.id] = st.value
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value is not None:
                m.consts[st.target.id] = st.value
            elif isinstance(st, (ast.If, ast.Try)):
                self._scan(m, st.body)
                self._scan(m, st.orelse)

    def _cls(self, m: Module, st: ast.ClassDef, outer: Optional[Cls]) -> Cls:
        qn = f"{outer.qual}.{st.name}" if outer else f"{m.name}:{st.name}"
        c = Cls(st.name, qn, st, m, outer)
        for s in st.body:
            if isinstance(s, ast.FunctionDef):
                c.methods[s.name] = Func(s.name, f"{qn}.{s.name}", s, m, c, _decos(s))
            elif isinstance(s, ast.ClassDef):
                c.inner[s.name] = self._cls(m, s, c)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        c.attrs[t.id] = s.value
        return c

    def _link(self, c: Cls) -> None:
        c.bases = []
        for b in c.node.bases:
            c.bases.append(self._resolve_base(c, b))
        for i in c.inner.values():
            self._link(i)

    def _resolve_base(self, c: Cls, b: ast.expr):
        if isinstance(b, ast.Name):
            r = self.resolve(c.module, b.id)
            return r if isinstance(r, Cls) else (r if isinstance(r, str) else b.id)
        if isinstance(b, ast.Attribute):
            v = self._resolve_base(c, b.value) if isinstance(b.value, (ast.Name, ast.Attribute)) else None
            if isinstance(v, Cls):
                i = v.lookup_inner(b.attr)
                if i:
                    return i
            return ast.unparse(b)
        return ast.unparse(b)

    def resolve(self, m: Module, name: str, depth: int = 0):
        """resolve a global name in a module to Func | Cls | Module | ast const | dotted external name | None"""
        if depth > 10:
            return None
        if name in m.funcs:
            return m.funcs[name]
        if name in m.classes:
            return m.classes[name]
        if name in m.imports:
            return self.resolve_dotted(m.imports[name], depth + 1)
        if name in m.consts:
            return ("const", m.consts[name], m)
        return None

    def resolve_dotted(self, dotted: str, depth: int = 0):
        if dotted in self.modules:
            return self.modules[dotted]
        if "." in dotted:
            mod, last = dotted.rsplit(".", 1)
            if mod in self.modules:
                r = self.resolve(self.modules[mod], last, depth + 1)
                if r is not None:
                    return r
        return dotted

    def func(self, qual: str) -> Func:
        """qual: pycid.x.y:name or pycid.x.y:Class.method. Looks the anchor up, following moves to another module of
        the package (public functions are identified by their name in the package, not by their file)."""
        mod, name = qual.split(":")
        f = self._func_in(self.modules.get(mod), name)
        if f is not None:
            return f
        # the function may have been moved and re-exported
        m = self.modules.get(mod)
        if m is not None and "." not in name:
            r = self.resolve(m, name)
            if isinstance(r, Func):
                return r
        hits = [x for x in (self._func_in(m, name) for m in self.modules.values()) if x is not None]
        if len(hits) == 1:
            return hits[0]
        raise AnalysisBroken(f"anchor {qual} not found")

    def _func_in(self, m: Optional[Module], name: str) -> Optional[Func]:
        if m is None:
            return None
        parts = name.split(".")
        if len(parts) == 1:
            return m.funcs.get(name)
        c = m.classes.get(parts[0])
        for p in parts[1:-1]:
            if c is None:
                return None
            c = c.inner.get(p)
        return c.methods.get(parts[-1]) if c else None

    def cls(self, name: str) -> Cls:
        """find a class of the package by (possibly dotted) name"""
        parts = name.split(".")
        for m in self.modules.values():
            c = m.classes.get(parts[0])
            for p in parts[1:]:
                c = c.inner.get(p) if c else None
            if c is not None:
                return c
        raise AnalysisBroken(f"class {name} not found")

    def all_funcs(self) -> List[Func]:
        out: List[Func] = []

        def rec(c: Cls):
            out.extend(c.methods.values())
            for i in c.inner.values():
                rec(i)

        for m in self.modules.values():
            out.extend(m.funcs.values())
            for c in m.classes.values():
                rec(c)
        return out


def _decos(st) -> Tuple[str, ...]:
    return tuple(ast.unparse(d) for d in st.decorator_list)
