"""The containers that hold roles and ownership belong to one model only: no container of a caller, of another model, of a default
argument or of a class is stored where a later operation would change it in place."""
from __future__ import annotations

import ast
from dataclasses import dataclass
from typing import Dict, Optional, Tuple

from unchanged import CHANGERS
from sa.entries import ENTRIES
from sa.loader import Cls, Func
from sa.run import Finding, RuleResult, rule

QUERIES = {e.target for e in ENTRIES} - {e.target for e in ENTRIES if e.target.split(":")[1].split(".")[-1] in CHANGERS}

# containers changed in place by the role operations, and how deep (0: the mapping itself, 1: its elements too)
FIELDS = {"agent_decisions": 1, "agent_utilities": 1, "decision_agent": 0, "utility_agent": 0}
OUTCOMES = {"domain", "force_domain"}  # lists of outcomes held by a relationship
CHANGING = {"append", "remove", "pop", "update", "setdefault", "add", "clear", "extend", "insert", "discard", "popitem", "sort", "reverse"}
MAX = 3


@dataclass(frozen=True)
class V:
    """the objects an expression may denote: where they come from, and the same for their elements"""
    own: frozenset = frozenset()
    elem: Optional["V"] = None

    def el(self) -> "V":
        if self.elem is not None:
            return self.elem
        return V(frozenset(r + ("*",) for r in self.own if len(r) < 5))

    def __or__(self, o: "V") -> "V":
        if self == o:
            return self
        el = None
        if self.elem is not None or o.elem is not None:
            el = self.el() | o.el()
        return V(self.own | o.own, el)

    def fresh(self) -> "V":
        return V(frozenset(), self.el())


NONE = V()


class Analysis:
    def __init__(self, prog):
        self.prog = prog
        self.findings = {}
        self.stores = 0
        self.samples = []
        self.functions = set()
        self.stack = []

    # ---- reports
    def report(self, prop, rule_, construct, fn, line, msg):
        self.findings.setdefault((prop, construct), Finding(prop, rule_, construct, f"{fn.module.path}:{line}", msg))

    def store(self, fn, field, v: V, line, owner):
        """the value v becomes the container `field` of the object `owner`"""
        self.functions.add(fn.qual)
        self.stores += 1
        self.samples.append(f"{fn.qual} {owner}.{field}")
        roots = {(r, 0) for r in v.own}
        if FIELDS.get(field, 0) >= 1:
            roots |= {(r, 1) for r in v.el().own}
        for r, level in sorted(roots, key=str):
            what = "the container" if level == 0 else "the containers in it"
            if r[0] == "param":
                self.report("C28", "roles-not-shared", f"{fn.qual} {field} keeps {r[1]}", fn, line,
                            f"{what} of the argument {r[1]} is stored as {field} and changed in place by later role changes")
                self.report("C03", "roles-not-shared", f"{fn.qual} {field} keeps {r[1]}", fn, line,
                            f"{what} of the argument {r[1]} is stored as {field}: two models would change each other's roles")
                self.report("C02", "roles-not-shared", f"{fn.qual} {field} keeps {r[1]}", fn, line,
                            f"{what} of the argument {r[1]} is stored as {field}: a model built from the containers of another one shares them")
            elif r[0] == "shared":
                for p in ("C03", "C02"):
                    self.report(p, "roles-not-shared", f"{fn.qual} {field} one for all", fn, line,
                                f"one and the same container is stored for every key of {field}")
            elif r[0] in ("default", "class", "global"):
                for p in ("C28", "C03", "C02"):
                    self.report(p, "roles-not-shared", f"{fn.qual} {field} keeps {r[0]} {r[1]}", fn, line,
                                f"the {r[0]} value {r[1]} is shared by all models and stored as {field}")
            elif r[0] == "field" and not (r[1] == owner and r[2] == field):
                for p in ("C02", "C03"):
                    self.report(p, "roles-not-shared", f"{fn.qual} {owner}.{field} shares {r[1]}.{r[2]}", fn, line,
                                f"{what} of {r[1]}.{r[2]} is stored as {owner}.{field}: a change of one changes the other")

    def change(self, fn, v: V, line, how):
        for r in sorted(v.own, key=str):
            if r[0] == "default":
                self.report("C28", "roles-not-shared", f"{fn.qual} changes default {r[1]}", fn, line,
                            f"the default value of {r[1]} is changed in place ({how}): it keeps the change for the next call")
            elif r[0] == "of" and self.stack[0].qual in QUERIES:
                self.report("C01", "model-unchanged", f"{fn.qual} {r[2]} of {r[1]}", fn, line,
                            f"the {r[2]} of the argument {r[1]} are changed in place ({how}) by an operation that is not documented to change the model")
            elif r[0] in ("global", "class"):
                for p in ("C28", "C02"):
                    self.report(p, "roles-not-shared", f"{fn.qual} changes {r[0]} {r[1]}", fn, line,
                                f"the {r[0]} value {r[1]} is changed in place ({how}): what one model leaves there is seen by the next")

    # ---- functions
    def run(self, fn: Func, args: Optional[Dict[str, V]] = None) -> V:
        if len(self.stack) >= MAX or any(f is fn for f in self.stack):
            return NONE
        self.stack.append(fn)
        env: Dict[str, V] = {}
        a = fn.node.args
        ps = a.posonlyargs + a.args
        defaults = dict(zip([p.arg for p in ps[len(ps) - len(a.defaults):]], a.defaults))
        defaults.update({p.arg: d for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
        for p in ps + a.kwonlyargs:
            v = (args or {}).get(p.arg)
            if v is None and args is None:
                v = V(frozenset({("param", p.arg)}))
            if v is None or args is None:
                d = defaults.get(p.arg)
                if isinstance(d, (ast.List, ast.Dict, ast.Set, ast.Call, ast.ListComp, ast.DictComp)):
                    v = (v or NONE) | V(frozenset({("default", p.arg)}))
            env[p.arg] = v or NONE
        for x in (a.vararg, a.kwarg):
            if x is not None:
                env[x.arg] = V(frozenset(), V(frozenset({("param", x.arg, "*")})) if args is None else NONE)
        me = ps[0].arg if fn.cls is not None and ps and "staticmethod" not in fn.decorators else None
        frame = Frame(self, fn, env, me)
        body = fn.node.body if isinstance(fn.node.body, list) else [ast.Return(value=fn.node.body, lineno=fn.lineno)]
        frame.block(body)
        self.stack.pop()
        return frame.result


class Frame:
    def __init__(self, an: Analysis, fn: Func, env, me):
        self.an, self.fn, self.env, self.me, self.result = an, fn, env, me, NONE

    # ---- expressions
    def ev(self, e) -> V:
        if e is None or isinstance(e, (ast.Constant, ast.JoinedStr, ast.Compare, ast.Lambda)):
            for x in ast.iter_child_nodes(e) if isinstance(e, ast.Compare) else ():
                if isinstance(x, ast.expr):
                    self.ev(x)
            return NONE
        if isinstance(e, ast.Name):
            if e.id in self.env:
                return self.env[e.id]
            r = self.an.prog.resolve(self.fn.module, e.id)
            if isinstance(r, tuple) and isinstance(r[1], (ast.List, ast.Dict, ast.Set, ast.Call, ast.ListComp, ast.DictComp)):
                return V(frozenset({("global", e.id)}))
            return NONE
        if isinstance(e, ast.Attribute):
            key = ast.unparse(e)
            if key in self.env:
                return self.env[key]
            base = self.ev(e.value)
            if e.attr in FIELDS or e.attr in OUTCOMES:
                own = frozenset({("field", ast.unparse(e.value), e.attr)})
                own |= {("of", r[1], e.attr) for r in base.own if r[0] == "param" and len(r) == 2}
                if isinstance(e.value, ast.Name) and e.value.id == self.me and self.fn.cls and e.attr in self.fn.cls.attrs:
                    own |= {("class", e.attr)}
                return V(own)
            c = self.an.prog.resolve(self.fn.module, e.value.id) if isinstance(e.value, ast.Name) and e.value.id not in self.env else None
            if isinstance(c, Cls) and isinstance(c.attrs.get(e.attr), (ast.List, ast.Dict, ast.Set, ast.Call)):
                return V(frozenset({("class", e.attr)}))
            if isinstance(e.value, ast.Name) and e.value.id == self.me and self.fn.cls is not None:
                for c in self.fn.cls.mro():
                    if isinstance(c, Cls) and isinstance(c.attrs.get(e.attr), (ast.List, ast.Dict, ast.Set, ast.Call)) and not self.assigned(e.attr):
                        return V(frozenset({("class", e.attr)}))
            return NONE if not base.own else V(frozenset())
        if isinstance(e, ast.Subscript):
            self.ev(e.slice)
            b = self.ev(e.value)
            return b.fresh() if isinstance(e.slice, ast.Slice) else b.el()
        if isinstance(e, (ast.IfExp,)):
            self.ev(e.test)
            return self.ev(e.body) | self.ev(e.orelse)
        if isinstance(e, ast.BoolOp):
            out = NONE
            for x in e.values:
                out = out | self.ev(x)
            return out
        if isinstance(e, ast.NamedExpr):
            v = self.ev(e.value)
            self.env[e.target.id] = v
            return v
        if isinstance(e, (ast.List, ast.Tuple, ast.Set)):
            el = NONE
            for x in e.elts:
                el = el | (self.ev(x.value).el() if isinstance(x, ast.Starred) else self.ev(x))
            return V(frozenset(), el)
        if isinstance(e, ast.Dict):
            el = NONE
            for k, x in zip(e.keys, e.values):
                el = el | (self.ev(x) if k is not None else self.ev(x).el())
            return V(frozenset(), el)
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            saved = dict(self.env)
            for g in e.generators:
                self.bind(g.target, self.ev(g.iter).el(), self.pairs(g.iter))
                for c in g.ifs:
                    self.ev(c)
            el = self.ev(e.value if isinstance(e, ast.DictComp) else e.elt)
            self.env = saved
            return V(frozenset(), el)
        if isinstance(e, ast.BinOp):
            a, b = self.ev(e.left), self.ev(e.right)
            return V(frozenset(), a.el() | b.el())
        if isinstance(e, ast.Call):
            return self.call(e)
        if isinstance(e, (ast.Starred, ast.Await)):
            return self.ev(e.value)
        for x in ast.iter_child_nodes(e):
            if isinstance(x, ast.expr):
                self.ev(x)
        return NONE

    def assigned(self, attr):
        """is the attribute assigned on the instance by its constructors?"""
        for c in self.fn.cls.mro():
            if isinstance(c, Cls) and "__init__" in c.methods:
                for n in ast.walk(c.methods["__init__"].node):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and n.attr == attr:
                        return True
        return False

    @staticmethod
    def pairs(it):
        return isinstance(it, ast.Call) and isinstance(it.func, ast.Attribute) and it.func.attr == "items"

    def bind(self, target, v: V, pair=False):
        if isinstance(target, ast.Name):
            self.env[target.id] = v
        elif isinstance(target, (ast.Tuple, ast.List)):
            for i, t in enumerate(target.elts):
                if pair and len(target.elts) == 2:
                    self.bind(t, v if i else NONE)
                else:
                    self.bind(t.value if isinstance(t, ast.Starred) else t, v.el())
        elif isinstance(target, ast.Attribute):
            owner = ast.unparse(target.value)
            self.ev(target.value)
            if target.attr in FIELDS:
                self.an.store(self.fn, target.attr, v, target.lineno, owner)
            self.env[ast.unparse(target)] = v | V(frozenset({("field", owner, target.attr)})) if target.attr not in FIELDS else V(
                frozenset({("field", owner, target.attr)}), v.el())
        elif isinstance(target, ast.Subscript):
            self.ev(target.slice)
            base = self.ev(target.value)
            self.an.change(self.fn, base, target.lineno, "item assignment")
            self.put(target.value, v, target.lineno)

    def put(self, container, v: V, line):
        """v becomes an element of the container"""
        base = self.ev(container)
        for r in base.own:
            if r[0] == "field" and len(r) == 3 and FIELDS.get(r[2], 0) >= 1:
                self.an.store(self.fn, r[2], V(frozenset(), v), line, r[1])
        key = ast.unparse(container)
        if key in self.env or isinstance(container, ast.Name):
            self.env[key] = V(base.own, base.el() | v)

    def call(self, e: ast.Call) -> V:
        f = e.func
        args = [self.ev(a) for a in e.args]
        kws = {k.arg: self.ev(k.value) for k in e.keywords}
        if isinstance(f, ast.Name):
            if f.id in ("list", "set", "tuple", "sorted", "frozenset", "iter", "reversed", "filter", "enumerate"):
                return args[-1].fresh() if args else NONE
            if f.id in ("dict", "defaultdict", "OrderedDict"):
                el = args[-1].el() if args else NONE
                for v in kws.values():
                    el = el | v
                return V(frozenset(), el)
            if f.id == "cast" and args:
                return args[-1]
            if f.id == "getattr" and len(e.args) >= 2 and isinstance(e.args[1], ast.Constant):
                return self.ev(ast.copy_location(ast.Attribute(value=e.args[0], attr=str(e.args[1].value), ctx=ast.Load()), e))
            if f.id == "setattr" and len(e.args) == 3 and isinstance(e.args[1], ast.Constant):
                self.bind(ast.copy_location(ast.Attribute(value=e.args[0], attr=str(e.args[1].value), ctx=ast.Store()), e), args[2])
                return NONE
        if isinstance(f, ast.Attribute):
            if f.attr in ("deepcopy",):
                return NONE
            base = self.ev(f.value)
            if f.attr == "copy" and not args:
                return base.fresh()
            if f.attr == "copy" and ast.unparse(f.value) == "copy" and args:
                return args[0].fresh()
            if f.attr in ("items", "values", "keys"):
                return V(frozenset(), base.el())
            if f.attr in ("get", "setdefault", "pop"):
                el = base.el()
                for v in args[1:]:
                    el = el | v
                if f.attr == "setdefault" and len(args) > 1:
                    self.put(f.value, args[1], e.lineno)
                if f.attr != "get":
                    self.an.change(self.fn, base, e.lineno, f.attr)
                return el
            if f.attr in CHANGING:
                self.an.change(self.fn, base, e.lineno, f.attr)
                if f.attr in ("append", "add", "insert") and args:
                    self.put(f.value, args[-1], e.lineno)
                if f.attr in ("extend", "update") and args:
                    self.put(f.value, args[0].el(), e.lineno)
                return NONE
            if f.attr == "fromkeys":
                one = len(e.args) > 1 and isinstance(e.args[1], (ast.List, ast.Dict, ast.Set, ast.Call, ast.ListComp))
                return V(frozenset(), (V(frozenset({("shared", "of all keys")})) if one else NONE) | (args[1] if len(args) > 1 else NONE))
        return self.known(e, args, kws)

    def target(self, f):
        """the function of the package a call runs, and whether the first parameter is bound already"""
        p = self.an.prog
        if isinstance(f, ast.Name):
            r = p.resolve(self.fn.module, f.id)
            if isinstance(r, Cls):
                g = r.lookup("__init__")
                return (g, True) if isinstance(g, Func) else (None, False)
            return (r, False) if isinstance(r, Func) else (None, False)
        if isinstance(f, ast.Attribute):
            c = self.fn.cls
            if isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == "super" and c is not None:
                g = c.lookup(f.attr, after=c)
                return (g, True) if isinstance(g, Func) else (None, False)
            if isinstance(f.value, ast.Name) and f.value.id in (self.me, "cls") and c is not None:
                g = c.lookup(f.attr)
                return (g, "staticmethod" not in g.decorators) if isinstance(g, Func) else (None, False)
            if isinstance(f.value, ast.Name):
                r = p.resolve(self.fn.module, f.value.id)
                if isinstance(r, Cls):
                    g = r.lookup(f.attr)
                    return (g, False) if isinstance(g, Func) else (None, False)
        return None, False

    def known(self, e, args, kws) -> V:
        g, bound = self.target(e.func)
        if g is None:
            return NONE
        a = g.node.args
        names = [p.arg for p in a.posonlyargs + a.args][1 if bound else 0:]
        given = dict(zip(names, args))
        given.update({k: v for k, v in kws.items() if k in names or any(p.arg == k for p in a.kwonlyargs)})
        if g.name == "__init__":
            if self.fn.name.startswith("copy"):
                self.outcomes(g, given, e)
            if given:
                self.an.run(g, given)
            return NONE
        if g.name.startswith("_"):
            if bound and isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Name) and g.node.args.args:
                given.setdefault(g.node.args.args[0].arg, self.env.get(e.func.value.id, NONE))
            return self.an.run(g, given)
        return NONE

    def outcomes(self, g, given, e):
        """a copied relationship gets its own list of outcomes"""
        for n, v in given.items():
            shared = [r for r in v.own if r[0] == "field" and r[2] in OUTCOMES and len(r) == 3]
            if shared and retains(self.an.prog, g, n):
                self.an.report("C02", "roles-not-shared", f"{self.fn.qual} shares {shared[0][2]}", self.fn, e.lineno,
                               f"the copy keeps the list {shared[0][1]}.{shared[0][2]} of the original instead of a list of its own")

    # ---- statements
    def block(self, body):
        for s in body:
            self.stmt(s)

    def join(self, a, b):
        return {k: a.get(k, NONE) | b.get(k, NONE) for k in {**a, **b}}

    def stmt(self, s):
        if isinstance(s, ast.Assign):
            v = self.ev(s.value)
            for t in s.targets:
                if isinstance(t, (ast.Tuple, ast.List)) and isinstance(s.value, (ast.Tuple, ast.List)) and len(t.elts) == len(s.value.elts):
                    for x, y in zip(t.elts, s.value.elts):
                        self.bind(x, self.ev(y))
                else:
                    self.bind(t, v)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.bind(s.target, self.ev(s.value))
        elif isinstance(s, ast.AugAssign):
            v = self.ev(s.value)
            base = self.ev(s.target) if isinstance(s.target, (ast.Name, ast.Attribute)) else NONE
            if isinstance(s.op, (ast.Add, ast.BitOr)) and base.own:
                self.an.change(self.fn, base, s.lineno, "augmented assignment")
            if isinstance(s.target, ast.Name):
                self.env[s.target.id] = V(base.own, base.el() | v.el())
        elif isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Subscript):
                    self.an.change(self.fn, self.ev(t.value), s.lineno, "del")
        elif isinstance(s, (ast.If, ast.While)):
            self.ev(s.test)
            for _ in range(2 if isinstance(s, ast.While) else 1):
                saved = dict(self.env)
                self.block(s.body)
                a, self.env = self.env, saved
                self.block(s.orelse)
                self.env = self.join(a, self.env)
        elif isinstance(s, ast.For):
            it = self.ev(s.iter)
            saved = dict(self.env)
            for _ in range(2):
                self.bind(s.target, it.el(), self.pairs(s.iter))
                self.block(s.body)
                self.env = self.join(saved, self.env)
            self.block(s.orelse)
        elif isinstance(s, ast.With):
            for i in s.items:
                v = self.ev(i.context_expr)
                if i.optional_vars is not None:
                    self.bind(i.optional_vars, v)
            self.block(s.body)
        elif isinstance(s, ast.Try):
            self.block(s.body)
            saved = dict(self.env)
            for h in s.handlers:
                self.block(h.body)
                self.env = self.join(saved, self.env)
            self.block(s.orelse)
            self.block(s.finalbody)
        elif isinstance(s, ast.Return):
            self.result = self.result | self.ev(s.value)
        elif isinstance(s, (ast.Expr, ast.Assert, ast.Raise)):
            for x in ast.iter_child_nodes(s):
                if isinstance(x, ast.expr):
                    self.ev(x)


def retains(prog, init: Func, param: str, depth: int = 0) -> bool:
    """does the constructor keep the object given for the parameter in an attribute?"""
    an = Analysis(prog)
    kept = []
    me = init.node.args.args[0].arg

    class F(Frame):
        def bind(self, target, v, pair=False):
            if isinstance(target, ast.Attribute) and isinstance(target.value, ast.Name) and target.value.id == me and ("param", param) in v.own:
                kept.append(target.attr)
            super().bind(target, v, pair)

        def known(self, e, args, kws):
            g, bound = self.target(e.func)
            if g is not None and g.name == "__init__" and depth < 4:
                names = [p.arg for p in g.node.args.args][1:]
                for n, v in {**dict(zip(names, args)), **kws}.items():
                    if n in names and ("param", param) in v.own and retains(prog, g, n, depth + 1):
                        kept.append(n)
            return NONE

    env = {p.arg: V(frozenset({("param", p.arg)})) for p in init.node.args.args + init.node.args.kwonlyargs}
    F(an, init, env, me).block(init.node.body)
    return bool(kept)


def analyse(prog) -> Analysis:
    an = Analysis(prog)
    for f in prog.all_funcs():
        if f.module.name.startswith(("refspec", "pycid.examples")):
            continue
        if f.name.startswith("_") and not f.name.startswith("__"):
            continue
        an.run(f)
    return an


def make(prop):
    @rule(prop)
    def containers(prog):
        an = analyse(prog)
        fs = [f for (p, _), f in an.findings.items() if p == prop]
        return RuleResult("roles-not-shared", "every container stored as roles or ownership of a model is created for it: none of a caller, another "
                          "model, a default argument or a class is kept where it is changed in place; queries change none of them", an.stores, 8, sorted(set(an.samples)),
                          fs, sorted(an.functions))


for _p in ("C01", "C02", "C03", "C28"):
    make(_p)
