"""An answer depends on the arguments of the call only: nothing is remembered from earlier calls, from the time the package was
imported, or in a container that all calls share, and what a loop creates for later use keeps the values of its own iteration.

Decided over the syntax tree and the call graph of the package: definitions of module, class and default-argument state, the places that
change it and the places that read it, memoised functions and what they are given or capture, attributes that queries write, functions
created in a loop, and default arguments. A finding counts for every property one of whose operations reaches the function."""
from __future__ import annotations

import ast
import builtins
from typing import Dict, Iterator, List, Optional, Set, Tuple

from sa.entries import ENTRIES
from sa.loader import AnalysisBroken, Cls, Func, Module
from sa.run import Finding, RuleResult, rule

MEMO = {"lru_cache", "cache", "cached_property", "memoize", "cachedmethod"}
MUTATORS = {
    "append", "remove", "pop", "update", "setdefault", "add", "clear", "extend", "insert", "discard", "popitem", "sort", "reverse", "__setitem__",
    "__delitem__", "appendleft", "popleft", "extendleft", "difference_update", "intersection_update", "symmetric_difference_update", "subtract",
    "rotate", "move_to_end", "add_edge", "add_node", "remove_edge", "remove_node", "add_edges_from", "add_nodes_from", "__ior__", "__iadd__",
}
BUILD = {"list", "dict", "set", "defaultdict", "OrderedDict", "Counter", "deque", "WeakKeyDictionary", "WeakValueDictionary", "WeakSet", "UserDict",
         "ChainMap", "bytearray", "UserList", "SimpleNamespace"}
ADVANCING = {"count", "cycle", "iter", "default_rng", "RandomState", "Random", "Generator", "SystemRandom", "repeat", "chain", "map", "filter", "zip"}
IMMUTABLE = {"str", "int", "float", "bool", "bytes", "None", "tuple", "Tuple", "frozenset", "FrozenSet", "Optional", "Union", "complex", "Literal"}
DRAWING = {"random", "numpy.random", "time", "uuid", "secrets", "datetime", "os.urandom", "os.getpid"}
# operations that change what a query about the same object may answer
STRUCTURE = {
    "__init__", "__setitem__", "__delitem__", "add_edge", "remove_edge", "add_node", "remove_node", "add_cpds", "remove_cpds", "intervene", "make_decision",
    "make_utility", "make_chance", "add_edges_from", "remove_edges_from", "add_nodes_from", "remove_nodes_from", "clear", "__getattribute__", "__setattr__",
}
CONSUME = {"sorted", "min", "max", "map", "filter", "any", "all", "sum", "list", "tuple", "set", "dict", "next", "len", "reduce", "frozenset", "enumerate",
           "zip", "sort", "defaultdict", "takewhile", "dropwhile", "groupby", "isinstance", "callable", "hasattr", "getattr", "signature", "print", "str", "repr"}
FUNCS = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)
SKIP = ("refspec", "pycid.examples", "pycid.version")


def params(node) -> List[ast.arg]:
    a = node.args
    return a.posonlyargs + a.args + a.kwonlyargs + [x for x in (a.vararg, a.kwarg) if x]


def scope(node) -> Iterator[ast.AST]:
    """the constructs of a function that run when it is called: not the bodies of the functions and classes inside"""
    todo = list(node.body) if isinstance(node.body, list) else [node.body]
    while todo:
        x = todo.pop()
        yield x
        if isinstance(x, FUNCS):
            todo += x.args.defaults + [d for d in x.args.kw_defaults if d] + list(getattr(x, "decorator_list", []))
        elif not isinstance(x, ast.ClassDef):
            todo += list(ast.iter_child_nodes(x))


def body(node) -> Iterator[ast.AST]:
    for st in node.body if isinstance(node.body, list) else [node.body]:
        yield from ast.walk(st)


def target_names(t) -> Set[str]:
    return {x.id for x in ast.walk(t) if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del))}


def bound_in(node) -> Set[str]:
    """names local to a function"""
    out = {p.arg for p in params(node)}
    gl: Set[str] = set()
    for x in scope(node):
        if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
            out.add(x.id)
        elif isinstance(x, (ast.FunctionDef, ast.ClassDef)):
            out.add(x.name)
        elif isinstance(x, (ast.Import, ast.ImportFrom)):
            out |= {(a.asname or a.name).split(".")[0] for a in x.names}
        elif isinstance(x, ast.ExceptHandler) and x.name:
            out.add(x.name)
        elif isinstance(x, (ast.Global, ast.Nonlocal)):
            gl |= set(x.names)
    return out - gl


def free(node) -> Set[str]:
    """names a nested function takes from around it"""
    mine = bound_in(node)
    out: Set[str] = set()
    for x in scope(node):
        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load):
            out.add(x.id)
        elif isinstance(x, FUNCS):
            out |= free(x)
        elif isinstance(x, ast.Nonlocal):
            out |= set(x.names)
    # variables of comprehensions are bound in `mine` already (scope walks into them)
    return out - mine


def last(e) -> str:
    while isinstance(e, ast.Call):
        e = e.func
    return e.attr if isinstance(e, ast.Attribute) else e.id if isinstance(e, ast.Name) else ""


def parents_of(tree) -> Dict[ast.AST, ast.AST]:
    return {c: p for p in ast.walk(tree) for c in ast.iter_child_nodes(p)}


class Analysis:
    def __init__(self, prog):
        self.prog = prog
        self.findings: List[Tuple[Func, str, str, int, str]] = []
        self.samples: List[str] = []
        self.n = 0
        self.undecided: List[str] = []
        self.funcs = [f for f in prog.all_funcs() if not f.module.name.startswith(SKIP)]
        self.byname: Dict[str, List[Func]] = {}
        for f in self.funcs:
            self.byname.setdefault(f.name, []).append(f)
        self.calls: Dict[Func, Set[Func]] = {}
        self.parents: Dict[str, Dict[ast.AST, ast.AST]] = {}

    # ---- names
    def up(self, m: Module):
        if m.name not in self.parents:
            self.parents[m.name] = parents_of(m.tree)
        return self.parents[m.name]

    def dotted(self, m: Module, e) -> str:
        """the imported name an expression refers to"""
        if isinstance(e, ast.Name):
            return m.imports.get(e.id, e.id)
        if isinstance(e, ast.Attribute):
            b = self.dotted(m, e.value)
            return b + "." + e.attr if b else ""
        return ""

    def is_memo(self, m: Module, e) -> bool:
        if isinstance(e, ast.Call):
            e = e.func
        d = self.dotted(m, e)
        return d.split(".")[-1] in MEMO and (d.split(".")[0] in ("functools", "cachetools", "joblib") or d in MEMO or "." in d)

    def resolve_call(self, f: Func, c: ast.Call) -> List[Func]:
        out: List[Func] = []
        g = c.func
        if isinstance(g, ast.Name):
            r = self.prog.resolve(f.module, g.id)
            if isinstance(r, Func):
                out.append(r)
            elif isinstance(r, Cls):
                out += [h for h in (r.lookup("__init__"),) if isinstance(h, Func)]
        elif isinstance(g, ast.Attribute):
            r = self.prog.resolve_dotted(self.dotted(f.module, g)) if self.dotted(f.module, g) else None
            if isinstance(r, Func):
                out.append(r)
            elif isinstance(r, Cls):
                out += [h for h in (r.lookup("__init__"),) if isinstance(h, Func)]
            else:
                out += [h for h in self.byname.get(g.attr, ()) if h.cls is not None]
                for h in self.funcs:
                    if h.cls is not None and h.cls.name == g.attr and h.name == "__init__":
                        out.append(h)
        return out

    def graph(self):
        for f in self.funcs:
            s: Set[Func] = set()
            for x in ast.walk(f.node):
                if isinstance(x, ast.Call):
                    s.update(self.resolve_call(f, x))
                elif isinstance(x, ast.Name):
                    r = self.prog.resolve(f.module, x.id)
                    if isinstance(r, Func):
                        s.add(r)
                elif isinstance(x, ast.Attribute) and any("property" in d for h in self.byname.get(x.attr, ()) for d in h.decorators):
                    s.update(self.byname[x.attr])
            self.calls[f] = s

    def props(self, f: Func) -> List[str]:
        """properties of the operations that reach f"""
        back: Dict[Func, Set[Func]] = {}
        for a, bs in self.calls.items():
            for b in bs:
                back.setdefault(b, set()).add(a)
        seen, todo = {f}, [f]
        while todo:
            for a in back.get(todo.pop(), ()):
                if a not in seen:
                    seen.add(a)
                    todo.append(a)
        out: Set[str] = set()
        for e in ENTRIES:
            try:
                t = self.prog.func(e.target)
            except AnalysisBroken:
                continue
            if t in seen:
                out |= set(e.props)
        return sorted(out)

    def report(self, f: Func, rule_: str, construct: str, line: int, msg: str):
        self.findings.append((f, rule_, construct, line, msg))

    # ---- what a parameter may hold
    def is_class(self, m: Module, ann) -> bool:
        """an annotation that names a class of the package or another object that can change"""
        if ann is None:
            return False
        if isinstance(ann, ast.Constant) and isinstance(ann.value, str):
            try:
                ann = ast.parse(ann.value, mode="eval").body
            except SyntaxError:
                return False
        for x in ast.walk(ann):
            if isinstance(x, (ast.Name, ast.Attribute)):
                n = last(x)
                d = self.dotted(m, x)
                if any(n in k.classes for k in self.prog.modules.values() if not k.name.startswith("refspec")):
                    return True
                if d.split(".")[0] in ("networkx", "pgmpy", "pandas"):
                    return True
                if n in ("DiGraph", "Graph", "BayesianNetwork", "TabularCPD", "DAG", "ndarray"):
                    return True
        return False

    def models(self, f: Func, node=None) -> Set[str]:
        """parameters that hold an object which can change between two calls"""
        node = node or f.node
        out: Set[str] = set()
        static = any(last(d) == "staticmethod" for d in getattr(node, "decorator_list", []))
        ps = params(node)
        if f.cls is not None and node is f.node and ps and not static:
            out.add(ps[0].arg)
        for p in ps:
            if self.is_class(f.module, p.annotation):
                out.add(p.arg)
            elif p.annotation is None and p.arg not in out:
                # used like a model: a method of a class of the package is called on it, or an attribute of one is read
                for x in ast.walk(node):
                    if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == p.arg:
                        if x.attr in ("nodes", "edges", "model", "cpds") or any(h.cls is not None for h in self.byname.get(x.attr, ())):
                            out.add(p.arg)
        return out

    def draws(self, f: Func, node, depth: int = 0) -> bool:
        """does the function draw random numbers or read a clock?"""
        for x in body(node):
            if isinstance(x, ast.Call):
                d = self.dotted(f.module, x.func)
                if any(d.startswith(k + ".") for k in ("random", "numpy.random", "time", "uuid", "secrets")):
                    return True
                if depth < 4 and isinstance(x.func, (ast.Name, ast.Attribute)):
                    r = self.prog.resolve_dotted(d) if "." in d else self.prog.resolve(f.module, d)
                    if isinstance(r, Func) and r.node is not node and self.draws(r, r.node, depth + 1):
                        return True
        return False

    # ---- memoised functions
    def memoised(self, f: Func):
        m = f.module
        wrapped = any(self.is_memo(m, d) for d in f.node.decorator_list)
        if not wrapped:
            for x in ast.walk(m.tree):  # g = lru_cache(...)(f)
                if isinstance(x, ast.Call) and self.is_memo(m, x.func) and any(last(a) == f.name and not isinstance(a, ast.Call) for a in x.args):
                    wrapped = True
        if wrapped:
            self.n += 1
            self.samples.append(f"{f.qual} is memoised")
            self.memo(f, f.node, self.models(f), f.qual)
        # functions inside
        for g in ast.walk(f.node):
            if g is f.node or not isinstance(g, FUNCS):
                continue
            w = any(self.is_memo(m, d) for d in getattr(g, "decorator_list", []))
            if isinstance(g, ast.Lambda):
                p = self.up(m).get(g)
                w = isinstance(p, ast.Call) and g in p.args and (self.is_memo(m, p) or self.is_memo(m, p.func))
            if not w:
                continue
            name = getattr(g, "name", "lambda")
            self.n += 1
            self.samples.append(f"{f.qual} {name} is memoised")
            if not self.escapes(f, g):
                continue
            live = self.live(f)
            got = sorted(free(g) & live)
            self.memo(f, g, set(), f"{f.qual} {name}")
            if got:
                self.report(f, "not-remembered", f"{f.qual} {name} remembers answers about {got[0]}", g.lineno,
                            f"the memoised function {name} is handed out and asks {got[0]}, which may be changed afterwards: it would repeat an old answer")

    def memo(self, f: Func, g, models: Set[str], what: str):
        if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in scope(g)):
            self.report(f, "not-remembered", f"{what} remembers an iterator", g.lineno,
                        "a memoised generator hands out the same, already exhausted iterator when it is called again")
        if self.draws(f, g):
            self.report(f, "not-remembered", f"{what} remembers a draw", g.lineno, "a memoised function draws random numbers: later calls repeat the first draw")
        used = sorted(p for p in models if any(isinstance(x, ast.Name) and x.id == p for x in body(g)))
        if used:
            self.report(f, "not-remembered", f"{what} remembers answers about {used[0]}", g.lineno,
                        f"the answers are remembered per object {used[0]}, which can be changed between two calls: an old answer would be repeated")

    def given(self, f: Func, depth: int) -> Set[str]:
        """parameters that may hold an object which others change later. What a private helper is given is decided where it is called"""
        out = self.models(f)
        if not f.name.startswith("_") or f.name.startswith("__") or depth > 4:
            return out
        sites = [(h, c) for h in self.funcs for c in ast.walk(h.node) if isinstance(c, ast.Call) and last(c) == f.name and f in self.resolve_call(h, c)]
        if not sites:
            return out
        ps = [a.arg for a in f.node.args.posonlyargs + f.node.args.args]
        real = set()
        for h, c in sites:
            may = self.may(self.live(h, depth + 1)) if h is not f else (lambda e: False)
            args = list(c.args)
            if f.cls is not None and isinstance(c.func, ast.Attribute) and not any(last(d) == "staticmethod" for d in f.node.decorator_list):
                args = [c.func.value] + args
            if any(isinstance(a, ast.Starred) for a in args) or any(k.arg is None for k in c.keywords):
                return out
            pairs = list(zip(ps, args)) + [(k.arg, k.value) for k in c.keywords]
            real |= {n for n, a in pairs if n in out and (may(a) or not isinstance(a, (ast.Name, ast.Call)))}
        return real

    @staticmethod
    def may(out: Set[str]):
        def may(e) -> bool:
            if isinstance(e, ast.Name):
                return e.id in out
            if isinstance(e, ast.IfExp):
                return may(e.body) or may(e.orelse)
            if isinstance(e, ast.BoolOp):
                return any(may(v) for v in e.values)
            if isinstance(e, ast.NamedExpr):
                return may(e.value)
            return False

        return may

    def live(self, f: Func, depth: int = 0) -> Set[str]:
        """local names of a function that may hold an object of the caller which can change later"""
        out = self.given(f, depth)
        may = self.may(out)
        grown = True
        while grown:
            grown = False
            for x in scope(f.node):
                if isinstance(x, ast.Assign) and may(x.value):
                    new = {t.id for t in x.targets if isinstance(t, ast.Name)} - out
                elif isinstance(x, (ast.AnnAssign, ast.NamedExpr)) and x.value is not None and may(x.value) and isinstance(x.target, ast.Name):
                    new = {x.target.id} - out
                else:
                    continue
                if new:
                    out |= new
                    grown = True
        # a name that is replaced by a private copy before anything captures it
        for n in list(out):
            asg = [x for x in scope(f.node) if isinstance(x, ast.Assign) and any(isinstance(t, ast.Name) and t.id == n for t in x.targets)]
            if asg and all(x in f.node.body for x in asg) and not may(asg[-1].value):
                out.discard(n)
        return out

    def escapes(self, f: Func, g, within=None) -> bool:
        """is the inner function handed out of the call: returned, yielded, stored, or given to something that keeps it?"""
        up = self.up(f.module)
        names = {g.name} if isinstance(g, (ast.FunctionDef, ast.AsyncFunctionDef)) else set()
        starts: List[ast.AST] = [] if names else [g]
        grown = True
        done: Set[ast.AST] = set()
        while grown:
            grown = False
            if names:
                for x in ast.walk(within or f.node):
                    if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.id in names and x not in done:
                        done.add(x)
                        starts.append(x)
                        grown = True
            while starts:
                x = starts.pop()
                grown = True
                p = up.get(x)
                while isinstance(p, (ast.IfExp, ast.BoolOp, ast.NamedExpr, ast.Starred)):
                    if isinstance(p, ast.NamedExpr) and isinstance(p.target, ast.Name):
                        names.add(p.target.id)
                    x, p = p, up.get(p)
                if isinstance(p, ast.Call) and x is p.func:
                    continue  # called
                if isinstance(p, ast.Call) and (self.is_memo(f.module, p) or self.is_memo(f.module, p.func) or last(p) in ("partial", "wraps", "cast")):
                    starts.append(p)
                    continue
                if isinstance(p, ast.Call) and last(p) in CONSUME:
                    continue
                if isinstance(p, ast.keyword):
                    q = up.get(p)
                    if isinstance(q, ast.Call) and (p.arg == "key" or last(q) in CONSUME):
                        continue
                    return True
                if isinstance(p, ast.Assign) and all(isinstance(t, ast.Name) for t in p.targets):
                    names |= {t.id for t in p.targets}
                    continue
                if isinstance(p, ast.AnnAssign) and isinstance(p.target, ast.Name):
                    names.add(p.target.id)
                    continue
                if isinstance(p, (ast.Expr, ast.Compare)):
                    continue
                if isinstance(p, ast.Attribute):  # f.cache_clear() and the like
                    continue
                return True
        return False

    # ---- policies that ask a model which can still change
    def captured(self, f: Func):
        for g in ast.walk(f.node):
            if g is f.node or not isinstance(g, FUNCS):
                continue
            asks = [x for x in body(g) if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name)
                    and x.func.attr in ("expected_value", "query", "expected_utility")]
            if not asks:
                continue
            self.n += 1
            self.samples.append(f"{f.qual} {getattr(g, 'name', 'lambda')} asks a model")
            if not self.escapes(f, g):
                continue
            got = sorted({x.func.value.id for x in asks} & free(g) & self.live(f))
            if got:
                self.report(f, "private-copy", f"{f.qual} {getattr(g, 'name', 'lambda')} asks {got[0]}", g.lineno,
                            f"a relationship is stored that asks the model {got[0]} itself when it is used, not a copy made for it: later changes of the model change it")

    # ---- functions created in a loop
    def late(self, f: Func):
        up = self.up(f.module)
        for loop in ast.walk(f.node):
            if not isinstance(loop, (ast.For, ast.While)):
                continue
            assigned: Set[str] = target_names(loop.target) if isinstance(loop, ast.For) else set()
            todo: List[ast.AST] = list(loop.body)
            inner: List[ast.AST] = []
            while todo:
                x = todo.pop()
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                    assigned.add(x.id)
                if isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                    assigned.add(x.name)
                if isinstance(x, FUNCS):
                    inner.append(x)
                    continue
                if isinstance(x, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                    # its variables are its own
                    own = set().union(*[target_names(c.target) for c in x.generators])
                    before = set(assigned)
                    sub = list(ast.walk(x))
                    for y in sub:
                        if isinstance(y, FUNCS):
                            inner.append(y)
                        if isinstance(y, ast.NamedExpr):
                            before |= target_names(y.target)
                    assigned = before - (own - before)
                    continue
                todo += list(ast.iter_child_nodes(x))
            # the function the loop belongs to is what escaping is measured against
            owner = up.get(loop)
            while owner is not None and not isinstance(owner, FUNCS):
                owner = up.get(owner)
            for g in inner:
                self.n += 1
                got = sorted(free(g) & assigned - ({g.name} if isinstance(g, ast.FunctionDef) else set()))
                if not got:
                    continue
                self.samples.append(f"{f.qual} creates a function in a loop at line {g.lineno}")
                if self.kept(f, g, owner, set(got)):
                    self.report(f, "own-iteration", f"{f.qual} {getattr(g, 'name', 'lambda')} reads {got[0]} late", g.lineno,
                                f"a function created in a loop is kept, but reads {got[0]} when it is called: by then {got[0]} has the value of a later iteration")
        for comp in ast.walk(f.node):
            if isinstance(comp, (ast.ListComp, ast.SetComp, ast.DictComp)):
                own = set().union(*[target_names(c.target) for c in comp.generators])
                for elt in [comp.elt] if not isinstance(comp, ast.DictComp) else [comp.key, comp.value]:
                    for e in ast.walk(elt):
                        if not isinstance(e, ast.Lambda):
                            continue
                        self.n += 1
                        x = e
                        while x is not elt:  # in a container or an object that becomes an element?
                            p = up.get(x)
                            kept = isinstance(p, (ast.IfExp, ast.Tuple, ast.List, ast.Dict, ast.keyword)) or (
                                isinstance(p, ast.Call) and x is not p.func and (last(p) == "partial" or isinstance(self.prog.resolve(f.module, last(p)), Cls)))
                            if not kept:
                                break
                            x = p
                        got = sorted(free(e) & own)
                        if got and x is elt:
                            self.report(f, "own-iteration", f"{f.qual} lambda reads {got[0]} late", e.lineno,
                                        f"every function of the collection reads the last value of {got[0]}")

    def kept(self, f: Func, g, owner, late: Set[str]) -> bool:
        """does the function outlive the iteration that created it?"""
        up = self.up(f.module)
        # `return` or `break` straight after: there is no later iteration. Only a hand-out that goes on with the loop matters
        names = {g.name} if isinstance(g, ast.FunctionDef) else set()
        starts: List[ast.AST] = [] if names else [g]
        done: Set[ast.AST] = set()
        grown = True
        # what a call of it returns may be a function that reads the same names
        makes = any(isinstance(h, FUNCS) and h is not g and free(h) & late and self.escapes(f, h, g) for st in body(g) for h in [st])
        while grown:
            grown = False
            for x in ast.walk(owner):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.id in names and x not in done:
                    done.add(x)
                    starts.append(x)
            while starts:
                grown = True
                x = starts.pop()
                p = up.get(x)
                while isinstance(p, (ast.IfExp, ast.BoolOp, ast.Starred, ast.Tuple, ast.List, ast.Dict)):
                    x, p = p, up.get(p)
                if isinstance(p, ast.Call) and x is p.func:
                    if makes and (x is g or (isinstance(x, ast.Name) and isinstance(g, ast.FunctionDef) and x.id == g.name)):
                        starts.append(p)
                    continue
                if isinstance(p, ast.Call):
                    n = last(p)
                    if n in CONSUME:
                        continue
                    if self.is_memo(f.module, p) or self.is_memo(f.module, p.func) or n == "partial":
                        starts.append(p)
                        continue
                    if isinstance(p.func, ast.Attribute) and n in MUTATORS:
                        return True  # put in a container
                    # an object built from it: where does that go?
                    r = self.prog.resolve(f.module, n)
                    if isinstance(r, Cls):
                        starts.append(p)
                        continue
                    if isinstance(r, Func):
                        continue  # used by a call that ends within the iteration
                    if isinstance(p.func, ast.Attribute):
                        return True
                    continue
                if isinstance(p, ast.keyword):
                    q = up.get(p)
                    if isinstance(q, ast.Call) and (p.arg == "key" or last(q) in CONSUME):
                        continue
                    if isinstance(q, ast.Call) and isinstance(self.prog.resolve(f.module, last(q)), Cls):
                        starts.append(q)
                        continue
                    return isinstance(q, ast.Call) and isinstance(q.func, ast.Attribute)
                if isinstance(p, (ast.Yield, ast.YieldFrom)):
                    return True
                if isinstance(p, ast.Return):
                    continue
                if isinstance(p, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
                    ts = p.targets if isinstance(p, ast.Assign) else [p.target]
                    for t in ts:
                        if isinstance(t, ast.Name):
                            names.add(t.id)
                        elif isinstance(t, (ast.Subscript, ast.Attribute)):
                            return True
                    continue
                if isinstance(p, ast.DictComp) or isinstance(p, (ast.ListComp, ast.SetComp)):
                    continue
        return False

    # ---- defaults
    def defaults(self, f: Func):
        a = f.node.args
        pos = a.posonlyargs + a.args
        pairs = list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + [(p, d) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
        for p, d in pairs:
            self.n += 1
            for x in ast.walk(d):
                if isinstance(x, ast.Call):
                    n = self.dotted(f.module, x.func)
                    if any(n == k or n.startswith(k + ".") for k in DRAWING) or last(x) in ADVANCING:
                        self.report(f, "not-at-import", f"{f.qual} default of {p.arg}", d.lineno,
                                    f"the default of {p.arg} is drawn once, when the package is imported: every call uses the same value")
            if self.container(f.module, d):
                self.changed_default(f, p.arg, d)

    def container(self, m: Module, e) -> bool:
        if isinstance(e, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)):
            return True
        return isinstance(e, ast.Call) and last(e) in BUILD

    def uses(self, f: Func, node, is_loc) -> Tuple[List[ast.AST], List[ast.AST]]:
        """(changes, reads) of a location in the body of a function. is_loc says whether an expression denotes it"""
        up = self.up(f.module)
        alias: Set[str] = set()
        for x in body(node):
            if isinstance(x, ast.Assign) and is_loc(x.value):
                alias |= {t.id for t in x.targets if isinstance(t, ast.Name)}
        loc = lambda e: is_loc(e) or (isinstance(e, ast.Name) and e.id in alias)  # noqa
        changes, reads = [], []
        for x in body(node):
            if not loc(x) or not isinstance(getattr(x, "ctx", ast.Load()), ast.Load):
                if isinstance(x, (ast.Name, ast.Attribute)) and is_loc(x) and isinstance(x.ctx, (ast.Store, ast.Del)):
                    changes.append(x)
                continue
            p = up.get(x)
            if isinstance(p, ast.Assign) and x is p.value and all(isinstance(t, ast.Name) for t in p.targets):
                continue
            if isinstance(p, ast.AugAssign) and x is p.target:
                changes.append(x)
                continue
            if isinstance(p, ast.Call) and x in p.args and last(p) == "next":
                changes.append(x)
                reads.append(x)
                continue
            if isinstance(p, ast.Attribute) and isinstance(up.get(p), ast.Call) and up[p].func is p:
                if p.attr in MUTATORS:
                    changes.append(x)
                    if not isinstance(up.get(up[p]), ast.Expr):
                        reads.append(x)
                else:
                    reads.append(x)
                continue
            if isinstance(p, ast.Subscript) and p.value is x:
                # the location or an element deeper down
                q = p
                while isinstance(up.get(q), ast.Subscript) and up[q].value is q:
                    q = up[q]
                if isinstance(q.ctx, (ast.Store, ast.Del)):
                    changes.append(x)
                    if isinstance(up.get(q), ast.AugAssign) and not isinstance(up.get(up[q]), ast.AST):
                        reads.append(x)
                    continue
                w = up.get(q)
                if isinstance(w, ast.Attribute) and w.attr in MUTATORS and isinstance(up.get(w), ast.Call) and up[w].func is w:
                    changes.append(x)
                    if not isinstance(up.get(up[w]), ast.Expr):
                        reads.append(x)
                    continue
                reads.append(x)
                continue
            reads.append(x)
        return changes, reads

    def changed_default(self, f: Func, name: str, d):
        # a name that is replaced first thing is not the default any more
        ch, _ = self.uses(f, f.node, lambda e: isinstance(e, ast.Name) and e.id == name and isinstance(e.ctx, ast.Load))
        if not ch:
            return
        first = min(x.lineno for x in ch)
        for x in f.node.body:
            if isinstance(x, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in x.targets) and x.lineno < first:
                return
        self.report(f, "not-shared", f"{f.qual} default of {name}", first,
                    f"the default of {name} is one container for all calls, and it is changed: later calls find what earlier calls left in it")

    # ---- state of modules, classes and functions
    def state(self):
        for m in self.prog.modules.values():
            if m.name.startswith(SKIP):
                continue
            for name, e in m.consts.items():
                if isinstance(e, ast.Lambda):
                    continue
                self.n += 1

                def is_loc_in(k, name=name, m=m):
                    if k is m:
                        return lambda x: isinstance(x, ast.Name) and x.id == name
                    here = {a for a, d in k.imports.items() if d == f"{m.name}.{name}"}
                    mods = {a for a, d in k.imports.items() if d == m.name}
                    return lambda x: (isinstance(x, ast.Name) and x.id in here) or (
                        isinstance(x, ast.Attribute) and x.attr == name and isinstance(x.value, ast.Name) and x.value.id in mods)

                self.location(f"{m.name}:{name}", e, is_loc_in, m, name)
            self.classes(m, list(m.classes.values()))
        self.attributes()

    def classes(self, m: Module, cs: List[Cls]):
        for c in cs:
            self.classes(m, list(c.inner.values()))
            for s in c.node.body:
                t = s.targets[0] if isinstance(s, ast.Assign) and len(s.targets) == 1 else s.target if isinstance(s, ast.AnnAssign) and s.value else None
                if not isinstance(t, ast.Name):
                    continue
                self.n += 1
                # an attribute of every object created: not the container of the class any more
                own = any(isinstance(x, ast.Attribute) and x.attr == t.id and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name) and x.value.id == "self"
                          for f in c.methods.values() if f.name == "__init__" for x in ast.walk(f.node))
                if own or not (self.container(m, s.value) or self.advances(m, s.value)):
                    if not own:
                        self.rebound(c, t.id)
                    continue
                name = t.id
                self.location(f"{c.qual}.{name}", s.value, lambda k, name=name: (
                    lambda x: isinstance(x, ast.Attribute) and x.attr == name), m, None)

    def rebound(self, c: Cls, name: str):
        """a plain class attribute that functions change on the class itself: cls.n += 1, type(self).n = ..., Name.n = ..."""
        def on_class(x):
            if not (isinstance(x, ast.Attribute) and x.attr == name):
                return False
            v = x.value
            if isinstance(v, ast.Name):
                return v.id in (c.name, "cls")
            return (isinstance(v, ast.Call) and last(v) == "type") or (isinstance(v, ast.Attribute) and v.attr in ("__class__", c.name))
        ch: List[Tuple[Func, ast.AST]] = []
        rd: List[Tuple[Func, ast.AST]] = []
        for f in self.funcs:
            for x in body(f.node):
                if isinstance(x, ast.Attribute) and x.attr == name:
                    if isinstance(x.ctx, (ast.Store, ast.Del)):
                        if on_class(x):
                            ch.append((f, x))
                    else:
                        rd.append((f, x))
        if ch:
            self.shared(f"{c.qual}.{name}", ch, rd)

    def advances(self, m: Module, e) -> bool:
        return isinstance(e, ast.Call) and last(e) in ADVANCING

    def location(self, what: str, e, is_loc_in, m: Module, glob: Optional[str]):
        mutable = self.container(m, e) or self.advances(m, e)
        ch: List[Tuple[Func, ast.AST]] = []
        rd: List[Tuple[Func, ast.AST]] = []
        for f in self.funcs:
            loc = is_loc_in(f.module)
            local = bound_in(f.node) if glob else set()
            if glob and glob in local and f.module is m:
                continue  # another variable of the same name
            if glob and not any(isinstance(x, ast.Global) and glob in x.names for x in ast.walk(f.node)):
                is_l = lambda x, loc=loc: loc(x) and isinstance(getattr(x, "ctx", None), ast.Load)  # noqa
            else:
                is_l = loc
            c, r = self.uses(f, f.node, is_l)
            if not mutable:
                c = [x for x in c if isinstance(getattr(x, "ctx", None), (ast.Store, ast.Del)) or isinstance(self.up(f.module).get(x), ast.AugAssign)]
            if self.advances(m, e):
                c = c + r  # every use of an iterator or a generator of random numbers moves it on
            else:
                # given to a function of the package that changes it
                for x in r if mutable else ():
                    p = self.up(f.module).get(x)
                    if isinstance(p, ast.Call) and x in p.args:
                        for h in self.resolve_call(f, p):
                            i = p.args.index(x) + (1 if h.cls is not None else 0)
                            ps = h.node.args.posonlyargs + h.node.args.args
                            if i < len(ps):
                                n = ps[i].arg
                                if self.uses(h, h.node, lambda y: isinstance(y, ast.Name) and y.id == n and isinstance(y.ctx, ast.Load))[0]:
                                    c = c + [x]
            ch += [(f, x) for x in c]
            rd += [(f, x) for x in r]
        if ch:
            self.shared(what, ch, rd)

    def attributes(self):
        """attributes put on functions and classes: f.cache = {}"""
        seen: Dict[Tuple[str, str], List] = {}
        for m in self.prog.modules.values():
            if m.name.startswith(SKIP):
                continue
            for x in ast.walk(m.tree):
                if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name):
                    r = self.prog.resolve(m, x.value.id)
                    if isinstance(r, Func) or (isinstance(r, Cls) and x.attr not in r.attrs and x.attr not in r.methods and x.attr not in r.inner):
                        seen.setdefault((r.qual, x.attr), []).append(r)
        for (q, attr), rs in sorted(seen.items()):
            self.n += 1
            r = rs[0]
            ch, rd = [], []
            for f in self.funcs:
                local = bound_in(f.node)

                def loc(x, f=f, local=local):
                    return isinstance(x, ast.Attribute) and x.attr == attr and isinstance(x.value, ast.Name) and x.value.id not in local and \
                        self.prog.resolve(f.module, x.value.id) is r
                c, d = self.uses(f, f.node, loc)
                ch += [(f, x) for x in c]
                rd += [(f, x) for x in d]
            if ch and isinstance(r, (Func, Cls)):
                self.shared(f"{q}.{attr}", ch, rd)

    def shared(self, what: str, ch, rd):
        """a location that outlives the calls is changed in ch and read in rd"""
        if not rd:
            return
        # what is remembered for arguments that cannot change, without drawing, cannot go stale
        pure = all(self.fixed(f) for f, _ in ch)
        if pure and not any(isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) for _, x in ch) and not self.counted(ch):
            return
        for f in sorted({f for f, _ in rd}, key=lambda f: f.qual):
            line = min(x.lineno for g, x in rd if g is f)
            by = sorted({g.qual for g, _ in ch})
            self.report(f, "not-shared", f"{f.qual} reads {what}", line,
                        f"{what} outlives the calls and is changed by {', '.join(by[:3])}: the answer depends on what was asked before")

    def counted(self, ch) -> bool:
        """is the state advanced rather than filled by key?"""
        for f, x in ch:
            up = self.up(f.module)
            p = up.get(x)
            if isinstance(p, ast.AugAssign):
                return True
            if isinstance(p, ast.Call) and last(p) == "next":
                return True
            if isinstance(p, ast.Subscript):
                if isinstance(up.get(p), ast.AugAssign) or isinstance(p.slice, ast.Constant):
                    return True
            if isinstance(p, ast.Attribute) and p.attr not in ("setdefault", "update", "__setitem__", "get"):
                return True
        return False

    def fixed(self, f: Func) -> bool:
        """all arguments are values that cannot change, and nothing is drawn"""
        if self.models(f) or self.draws(f, f.node):
            return False
        for p in params(f.node):
            if p.annotation is None:
                return False
            a = p.annotation
            if isinstance(a, ast.Constant) and isinstance(a.value, str):
                try:
                    a = ast.parse(a.value, mode="eval").body
                except SyntaxError:
                    return False
            if any(last(x) not in IMMUTABLE for x in ast.walk(a) if isinstance(x, (ast.Name, ast.Attribute))):
                return False
        return True

    # ---- attributes that queries write
    def memo_attributes(self):
        written: Dict[str, List[Tuple[Func, ast.AST]]] = {}
        for f in self.funcs:
            if f.cls is None and not self.models(f):
                continue
            ms = self.models(f)
            for x in body(f.node):
                name, at = None, x
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name) and x.value.id in ms:
                    name = x.attr
                elif isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Attribute) and x.value.attr == "__dict__":
                    if isinstance(x.slice, ast.Constant) and isinstance(x.slice.value, str):
                        name = x.slice.value
                elif isinstance(x, ast.Call) and last(x) == "setattr" and len(x.args) == 3 and isinstance(x.args[1], ast.Constant) and isinstance(x.args[0], ast.Name) and x.args[0].id in ms:
                    name = x.args[1].value
                elif isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Attribute) and isinstance(x.value.value, ast.Name) \
                        and x.value.value.id in ms and x.value.attr.startswith("_"):
                    name = x.value.attr
                elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("setdefault", "append", "add", "update") and isinstance(x.func.value, ast.Attribute) \
                        and isinstance(x.func.value.value, ast.Name) and x.func.value.value.id in ms and x.func.value.attr.startswith("_"):
                    name = x.func.value.attr
                if name:
                    written.setdefault(name, []).append((f, at))
        for name, ws in sorted(written.items()):
            self.n += 1
            self.samples.append(f"attribute {name} is written by {ws[0][0].qual}")
            fs = {f for f, _ in ws}
            # written where the object is made or changed: part of its state, not a memory of a query
            made = {f for f in fs if f.name in STRUCTURE or f.name.startswith(("make_", "add_", "remove_", "impute_", "set_", "_init", "initialize"))}
            queries = fs - made
            if not queries or any(f.name in STRUCTURE - {"__init__"} for f in made):
                continue
            # an object made by the function itself may be given attributes
            for f in sorted(queries, key=lambda f: f.qual):
                reads = [x for x in body(f.node) if self.reads_attr(x, name)]
                if not reads or not self.guarded(f, name, reads):
                    continue
                line = min(x.lineno for g, x in ws if g is f)
                self.report(f, "not-remembered", f"{f.qual} remembers {name}", line,
                            f"the attribute {name} keeps an answer on the object, and nothing that changes the object removes it: an old answer would be repeated")

    @staticmethod
    def reads_attr(x, name) -> bool:
        if isinstance(x, ast.Attribute) and x.attr == name and isinstance(x.ctx, ast.Load):
            return True
        return isinstance(x, ast.Call) and last(x) in ("hasattr", "getattr") and len(x.args) > 1 and isinstance(x.args[1], ast.Constant) and x.args[1].value == name

    def guarded(self, f: Func, name: str, reads) -> bool:
        """is it decided by the attribute itself whether it is computed again? And not by the whole graph"""
        up = self.up(f.module)
        for x in reads:
            p: Optional[ast.AST] = x
            while p is not None and p is not f.node:
                q = up.get(p)
                test = None
                if isinstance(q, (ast.If, ast.IfExp, ast.While)) and p is q.test:
                    test = q.test
                elif isinstance(q, ast.Try) and p in q.body:
                    test = x
                elif isinstance(q, ast.BoolOp) and not isinstance(up.get(q), (ast.If, ast.While)):
                    test = q
                if test is not None:
                    return not self.whole(f, name)
                p = q
        return False

    def whole(self, f: Func, name: str) -> bool:
        """the memory is kept together with the graph it was computed for"""
        txt = ast.unparse(f.node)
        full = any(w in txt for w in ("tuple(self.edges", "list(self.edges", "set(self.edges", "frozenset(self.edges", "sorted(self.edges"))
        return full and any(w in txt for w in ("tuple(self.nodes", "list(self.nodes", "set(self.nodes", "frozenset(self.nodes", "sorted(self.nodes"))

    def run(self):
        self.graph()
        for f in self.funcs:
            for step in (self.memoised, self.captured, self.late, self.defaults):
                try:
                    step(f)
                except (AttributeError, KeyError, IndexError, TypeError, ValueError) as x:
                    self.undecided.append(f"{f.qual}: {step.__name__}: {type(x).__name__}: {x}")
        for step in (self.state, self.memo_attributes):
            try:
                step()
            except (AttributeError, KeyError, IndexError, TypeError, ValueError) as x:
                self.undecided.append(f"{step.__name__}: {type(x).__name__}: {x}")
        return self


PROPS = " ".join(sorted({p for e in ENTRIES for p in e.props}))


@rule(PROPS)
def history(prog):
    an = Analysis(prog).run()
    out = []
    for f, r, construct, line, msg in an.findings:
        for p in an.props(f):
            out.append(Finding(p, r, construct, f"{f.module.path}:{line}", msg))
    return RuleResult("depends-on-arguments", "nothing is remembered from one call to the next: no memoised function is given or captures an object that can change, "
                      "no module, class or default-argument state is changed and read, no query keeps an answer on its model, functions created in a loop keep the "
                      "values of their iteration, and defaults are not drawn at import", an.n, 40, sorted(set(an.samples)), out, [f.qual for f in an.funcs], an.undecided)
