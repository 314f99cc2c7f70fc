"""A parameter declared as any iterable may be a one-shot iterator: on no path is it traversed twice."""
from __future__ import annotations

import ast

from sa.compare import BASELINE
from sa.run import Finding, RuleResult, rule

ITER_ONLY = ("Iterable", "Iterator")
SIZED = {"len", "reversed"}
PUBLIC = {n for n in BASELINE if not n.startswith("_")} | {"__init__", "active_trail_nodes"}


class Walk:
    """how often the parameter has been traversed, along every path: states 0, 1 (traversed) or 2 (replaced by a collection)"""

    def __init__(self, p):
        self.p = p
        self.names = {p}
        self.bad = []

    def is_p(self, e):
        return isinstance(e, ast.Name) and e.id in self.names

    def consume(self, e, S, loop):
        if 1 in S:
            self.bad.append((e.lineno, "traversed again"))
        elif 0 in S and loop:
            self.bad.append((e.lineno, "traversed in every iteration of a loop"))
        return {1 if s == 0 else s for s in S}

    def expr(self, e, S, loop=False):
        if e is None or not S:
            return S
        if self.is_p(e):
            return self.consume(e, S, loop)
        if isinstance(e, (ast.Lambda, ast.FunctionDef)):
            return S
        if isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.ops[0], (ast.Is, ast.IsNot)):
            for x in (e.left, e.comparators[0]):
                if not self.is_p(x):
                    S = self.expr(x, S, loop)
            return S
        if isinstance(e, ast.Compare) and self.is_p(e.left) and all(isinstance(o, (ast.In, ast.NotIn, ast.Eq, ast.NotEq)) for o in e.ops):
            for x in e.comparators:
                S = self.expr(x, S, loop)
            return S
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not) and self.is_p(e.operand):
            return S
        if isinstance(e, ast.BoolOp):
            for x in e.values:
                S = S if self.is_p(x) else self.expr(x, S, loop)
            return S
        if isinstance(e, ast.IfExp):
            S = S if self.is_p(e.test) else self.expr(e.test, S, loop)
            return self.expr(e.body, S, loop) | self.expr(e.orelse, S, loop)
        if isinstance(e, ast.Call):
            if isinstance(e.func, ast.Name):
                if e.func.id in ("isinstance", "bool", "type", "callable", "hasattr", "id"):
                    return S
                if e.func.id in SIZED and e.args and self.is_p(e.args[0]):
                    if S & {0, 1}:
                        self.bad.append((e.lineno, f"{e.func.id}() needs more than an iterable"))
                    return S
            S = self.expr(e.func, S, loop)
            for a in e.args:
                S = self.expr(a.value if isinstance(a, ast.Starred) else a, S, loop)
            for k in e.keywords:
                S = self.expr(k.value, S, loop)
            return S
        if isinstance(e, ast.Subscript) and self.is_p(e.value):
            if S & {0, 1}:
                self.bad.append((e.lineno, "indexing needs more than an iterable"))
            return self.expr(e.slice, S, loop)
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            for i, g in enumerate(e.generators):
                S = self.expr(g.iter, S, loop or i > 0)
                for c in g.ifs:
                    S = self.expr(c, S, True)
            for x in (e.key, e.value) if isinstance(e, ast.DictComp) else (e.elt,):
                S = self.expr(x, S, True)
            return S
        for x in ast.iter_child_nodes(e):
            if isinstance(x, ast.expr):
                S = self.expr(x, S, loop)
            elif isinstance(x, (ast.comprehension, ast.keyword)):
                for y in ast.iter_child_nodes(x):
                    if isinstance(y, ast.expr):
                        S = self.expr(y, S, loop)
        return S

    def maybe(self, e):
        """may the value of e be the parameter itself?"""
        if self.is_p(e):
            return True
        if isinstance(e, ast.IfExp):
            return self.maybe(e.body) or self.maybe(e.orelse)
        if isinstance(e, ast.BoolOp):
            return any(self.maybe(x) for x in e.values)
        return isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("iter", "cast") and any(self.maybe(a) for a in e.args)

    def value(self, e, S, loop):
        """evaluate e where its value is only bound to a name"""
        if self.is_p(e):
            return S
        if isinstance(e, ast.IfExp) and self.maybe(e):
            S = S if self.is_p(e.test) else self.expr(e.test, S, loop)
            out = set()
            for x in (e.body, e.orelse):
                out |= self.value(x, S, loop) if self.maybe(x) else {2 for s in self.expr(x, S, loop)}
            return out
        if isinstance(e, ast.BoolOp) and self.maybe(e):
            return S
        if isinstance(e, ast.Call) and self.maybe(e):
            return S
        return self.expr(e, S, loop)

    def block(self, body, S, loop):
        for s in body:
            if not S:
                return S
            S = self.stmt(s, S, loop)
        return S

    def stmt(self, s, S, loop):
        if isinstance(s, (ast.Assign, ast.AnnAssign)):
            ts = s.targets if isinstance(s, ast.Assign) else [s.target]
            if s.value is None:
                return S
            name = ts[0].id if len(ts) == 1 and isinstance(ts[0], ast.Name) else None
            if name and self.maybe(s.value):
                S = self.value(s.value, S, loop)
                self.names.add(name)
                return S
            S = self.expr(s.value, S, loop)
            if name == self.p:
                return {2}
            return S
        if isinstance(s, ast.AugAssign):
            return self.expr(s.value, S, loop)
        if isinstance(s, ast.If):
            S = S if self.is_p(s.test) else self.expr(s.test, S, loop)
            return self.block(s.body, set(S), loop) | self.block(s.orelse, set(S), loop)
        if isinstance(s, ast.For):
            S = self.expr(s.iter, S, loop)
            once = isinstance(s.iter, (ast.Tuple, ast.List)) and len(s.iter.elts) < 2
            T = self.block(s.body, set(S), loop or not once)
            return self.block(s.orelse, S | T, loop)
        if isinstance(s, ast.While):
            S = S if self.is_p(s.test) else self.expr(s.test, S, True)
            return self.block(s.orelse, S | self.block(s.body, set(S), True), loop)
        if isinstance(s, ast.With):
            for i in s.items:
                S = self.expr(i.context_expr, S, loop)
            return self.block(s.body, S, loop)
        if isinstance(s, ast.Try):
            A = self.block(s.body, set(S), loop)
            out = set(A)
            for h in s.handlers:
                out |= self.block(h.body, S | A, loop)
            return self.block(s.finalbody, self.block(s.orelse, out, loop), loop)
        if isinstance(s, ast.Return):
            self.expr(s.value, S, False if not self.inner_loop(s) else loop)
            return set()
        if isinstance(s, (ast.Expr, ast.Raise, ast.Assert, ast.Delete)):
            for x in ast.iter_child_nodes(s):
                if isinstance(x, ast.expr):
                    S = self.expr(x, S, loop)
            return set() if isinstance(s, ast.Raise) else S
        if isinstance(s, (ast.Break, ast.Continue)):
            return S
        return S

    def inner_loop(self, s):
        # what a return statement evaluates happens once, also inside a loop
        return False


def iterable_only(a):
    if a is None:
        return False
    t = ast.unparse(a) if not isinstance(a, ast.Constant) else str(a.value)
    return any(w + "[" in t for w in ITER_ONLY) and "Callable" not in t


@rule("C25")
def oneshot(prog):
    n, samples, findings, functions = 0, [], [], []
    for f in prog.all_funcs():
        # operations of the published interface; what helpers are given is decided where they are called
        if f.module.name.startswith("refspec") or f.name not in PUBLIC:
            continue
        a = f.node.args
        for p in a.posonlyargs + a.args + a.kwonlyargs:
            if not iterable_only(p.annotation):
                continue
            n += 1
            w = Walk(p.arg)
            w.block(f.node.body, {0}, False)
            if f.qual not in functions:
                functions.append(f.qual)
            if w.bad:
                line, why = w.bad[0]
                findings.append(Finding("C25", "traversed-once", f"{f.qual} {p.arg}", f"{f.module.path}:{line}",
                                        f"the iterable {p.arg} may be a one-shot iterator, but it is {why} at line {line}"))
            else:
                samples.append(f"{f.qual} {p.arg}")
    return RuleResult("traversed-once", "a parameter declared as an arbitrary iterable is traversed at most once on every path, unless it has "
                      "been replaced by a collection", n, 12, samples, findings, functions)
