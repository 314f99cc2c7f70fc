"""What a generator of random numbers is seeded with is a value, not a trace of how the value was written down: neither the order in
which keyword arguments were given, nor the order of a set, nor an address, nor the hash of a string reaches a seed."""
from __future__ import annotations

import ast
from typing import Dict, FrozenSet, List

from sa.loader import Cls, Func
from sa.run import Finding, RuleResult, rule

# labels: what the value depends on besides the values themselves
ORDER, ADDRESS, CLOCK, MAPPING, SET = "order of the arguments", "hash or address", "clock", "mapping", "set"
BAD = {ORDER, ADDRESS, CLOCK}
NONE: FrozenSet[str] = frozenset()
SEEDING = {"seed", "default_rng", "RandomState", "Random", "PCG64", "SeedSequence"}
CANONICAL = {"len", "max", "min", "sum", "any", "all", "bool", "isinstance", "fsum"}
TEXT = {"repr", "str", "format", "dumps", "tuple", "list", "enumerate", "zip", "map", "reversed", "iter", "next", "chain", "join", "filter"}


class Taint:
    def __init__(self, prog):
        self.prog = prog
        self.n = 0
        self.out: List = []
        self.depth = 0

    def inward(self, v):
        """the value in the order in which it is traversed"""
        if v & {MAPPING, SET}:
            return (v - {MAPPING, SET}) | {ORDER}
        return v

    def ev(self, e, env: Dict[str, FrozenSet[str]], f: Func) -> FrozenSet[str]:
        if e is None or isinstance(e, ast.Constant):
            return NONE
        if isinstance(e, ast.Name):
            return env.get(e.id, NONE)
        if isinstance(e, ast.Lambda):
            return NONE
        if isinstance(e, ast.Attribute):
            return self.ev(e.value, env, f) - {MAPPING, SET}
        if isinstance(e, ast.Subscript):
            v = self.ev(e.value, env, f)
            return (v - {MAPPING, SET}) | (self.ev(e.slice, env, f) - {MAPPING, SET})
        if isinstance(e, (ast.Set, ast.SetComp)):
            return frozenset({SET})
        if isinstance(e, (ast.ListComp, ast.GeneratorExp, ast.DictComp)):
            env = dict(env)
            got = NONE
            for g in e.generators:
                v = self.inward(self.ev(g.iter, env, f))
                got |= v & BAD
                for x in ast.walk(g.target):
                    if isinstance(x, ast.Name):
                        env[x.id] = v & {ADDRESS, CLOCK}
            parts = [e.key, e.value] if isinstance(e, ast.DictComp) else [e.elt]
            for x in parts:
                got |= self.ev(x, env, f) & BAD
            return got
        if isinstance(e, ast.JoinedStr):
            return frozenset().union(*[self.inward(self.ev(x.value, env, f)) for x in e.values if isinstance(x, ast.FormattedValue)])
        if isinstance(e, ast.Call):
            return self.call(e, env, f)
        if isinstance(e, ast.Compare):
            return NONE
        if isinstance(e, ast.IfExp):
            return self.ev(e.body, env, f) | self.ev(e.orelse, env, f)
        if isinstance(e, ast.NamedExpr):
            v = self.ev(e.value, env, f)
            env[e.target.id] = v
            return v
        if isinstance(e, ast.Dict):
            return frozenset().union(NONE, *[self.ev(x, env, f) | ({MAPPING} if k is None else NONE) for k, x in zip(e.keys, e.values)])
        out = NONE
        for x in ast.iter_child_nodes(e):
            if isinstance(x, ast.expr):
                v = self.ev(x, env, f)
                out |= self.inward(v) if isinstance(x, ast.Starred) or isinstance(e, ast.BinOp) and isinstance(e.op, ast.Mod) else v
        return out

    def call(self, e: ast.Call, env, f) -> FrozenSet[str]:
        g = e.func
        name = g.attr if isinstance(g, ast.Attribute) else g.id if isinstance(g, ast.Name) else ""
        args = [self.ev(a, env, f) for a in e.args] + [self.ev(k.value, env, f) for k in e.keywords]
        if isinstance(g, ast.Name):
            r = self.prog.resolve(f.module, name)
            if isinstance(r, Func) and self.depth < 4:
                return self.result(r, e, env, f)
        if isinstance(g, ast.Attribute) and isinstance(g.value, ast.Name) and g.value.id == "self" and f.cls is not None and self.depth < 4:
            r = f.cls.lookup(name)
            if isinstance(r, Func):
                return self.result(r, e, env, f)
        allv = frozenset().union(NONE, *args)
        if name == "sorted" or name in CANONICAL:
            return frozenset().union(NONE, *args) - {ORDER, MAPPING, SET} if name != "sorted" or not e.keywords or True else allv
        if name in ("hash", "id") and isinstance(g, ast.Name):
            return frozenset({ADDRESS})
        if name in ("set", "frozenset") and isinstance(g, ast.Name):
            return (allv & {ADDRESS, CLOCK}) | {SET}
        if name == "dict" and isinstance(g, ast.Name):
            return allv
        if isinstance(g, ast.Attribute):
            recv = self.ev(g.value, env, f)
            if isinstance(g.value, ast.Name) and g.value.id in ("time", "os", "uuid", "secrets") and f.module.imports.get(g.value.id) == g.value.id:
                return frozenset({CLOCK})
            if name in ("items", "keys", "values", "copy", "union", "intersection", "difference"):
                return recv
            if name in ("get", "pop", "index", "count"):
                return recv - {MAPPING, SET}
            if not (isinstance(g.value, ast.Name) and g.value.id in f.module.imports):
                return self.inward(recv) | frozenset().union(NONE, *[self.inward(a) for a in args])
        return frozenset().union(NONE, *[self.inward(a) for a in args])

    def result(self, r: Func, e: ast.Call, env, f):
        ps = [a.arg for a in r.node.args.posonlyargs + r.node.args.args]
        if r.cls is not None and ps:
            ps = ps[1:]
        inner: Dict[str, FrozenSet[str]] = {}
        for p, a in zip(ps, e.args):
            inner[p] = self.ev(a, env, f)
        kw = r.node.args.kwarg
        for k in e.keywords:
            v = self.ev(k.value, env, f)
            if k.arg is not None:
                inner[k.arg] = v
            elif kw:
                inner[kw.arg] = inner.get(kw.arg, NONE) | v
        if kw:
            inner[kw.arg] = inner.get(kw.arg, NONE) | {MAPPING}
        if r.node.args.vararg:
            inner[r.node.args.vararg.arg] = frozenset().union(NONE, *[self.ev(a, env, f) for a in e.args])
        self.depth += 1
        try:
            return self.function(r, inner)
        finally:
            self.depth -= 1

    def function(self, f: Func, env) -> FrozenSet[str]:
        ret = [NONE]
        for _ in range(2):  # a loop may carry a value round
            self.block(f.node.body, env, f, ret)
        return ret[0]

    def bind(self, t, v, env, f):
        if isinstance(t, ast.Name):
            env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.bind(x, v - {MAPPING, SET}, env, f)
        elif isinstance(t, ast.Starred):
            self.bind(t.value, v, env, f)

    def look(self, e, env, f):
        """the seeds given in an expression"""
        for c in ast.walk(e) if e is not None else ():
            if not isinstance(c, ast.Call):
                continue
            name = c.func.attr if isinstance(c.func, ast.Attribute) else c.func.id if isinstance(c.func, ast.Name) else ""
            if name in SEEDING or "seed" in name.lower():
                if self.depth == 0:
                    self.n += 1
                for a in list(c.args) + [k.value for k in c.keywords]:
                    v = self.inward(self.ev(a, env, f)) & BAD
                    if v:
                        self.out.append((f, c.lineno, sorted(v)))

    def block(self, body, env, f, ret):
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                continue
            if isinstance(s, ast.Return):
                self.look(s.value, env, f)
                ret[0] |= self.ev(s.value, env, f)
            elif isinstance(s, ast.Assign):
                self.look(s.value, env, f)
                v = self.ev(s.value, env, f)
                for t in s.targets:
                    self.bind(t, v, env, f)
            elif isinstance(s, ast.AnnAssign):
                self.look(s.value, env, f)
                self.bind(s.target, self.ev(s.value, env, f), env, f)
            elif isinstance(s, ast.AugAssign):
                self.look(s.value, env, f)
                if isinstance(s.target, ast.Name):
                    env[s.target.id] = env.get(s.target.id, NONE) | self.ev(s.value, env, f)
            elif isinstance(s, ast.For):
                self.look(s.iter, env, f)
                it = self.inward(self.ev(s.iter, env, f))
                self.bind(s.target, it & {ADDRESS, CLOCK}, env, f)
                before = dict(env)
                self.block(s.body, env, f, ret)
                if ORDER in it:  # what is collected in that order
                    for st in ast.walk(ast.Module(s.body, [])):
                        if isinstance(st, ast.AugAssign) and isinstance(st.target, ast.Name) and not isinstance(st.op, (ast.Add, ast.BitXor, ast.Mult, ast.BitOr, ast.BitAnd)):
                            env[st.target.id] = env.get(st.target.id, NONE) | {ORDER}
                        elif isinstance(st, ast.Assign) and isinstance(st.targets[0], ast.Name) and st.targets[0].id in before:
                            n = st.targets[0].id
                            if any(isinstance(x, ast.Name) and x.id == n for x in ast.walk(st.value)):
                                env[n] = env.get(n, NONE) | {ORDER}
                        elif isinstance(st, ast.Call) and isinstance(st.func, ast.Attribute) and st.func.attr in ("append", "insert", "extend") and isinstance(st.func.value, ast.Name):
                            env[st.func.value.id] = env.get(st.func.value.id, NONE) | {ORDER}
                self.block(s.orelse, env, f, ret)
            elif isinstance(s, ast.With):
                for i in s.items:
                    self.look(i.context_expr, env, f)
                self.block(s.body, env, f, ret)
            elif isinstance(s, (ast.If, ast.While)):
                self.look(s.test, env, f)
                other = dict(env)
                self.block(s.body, env, f, ret)
                self.block(s.orelse, other, f, ret)
                for k, v in other.items():
                    env[k] = env.get(k, NONE) | v
            elif isinstance(s, ast.Try):
                for b in (s.body, *[h.body for h in s.handlers], s.orelse, s.finalbody):
                    self.block(b, env, f, ret)
            elif isinstance(s, ast.Expr):
                self.look(s.value, env, f)
                c = s.value  # xs.sort() puts them into their own order
                if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and isinstance(c.func.value, ast.Name):
                    n = c.func.value.id
                    if c.func.attr == "sort":
                        env[n] = env.get(n, NONE) - {ORDER}
                    elif c.func.attr in ("append", "extend", "update", "add", "insert"):
                        env[n] = env.get(n, NONE) | frozenset().union(NONE, *[self.ev(a, env, f) for a in c.args])
            elif isinstance(s, (ast.Assert, ast.Raise)):
                pass


@rule("C26")
def seeds(prog):
    t = Taint(prog)
    names, undecided = [], []
    for f in prog.all_funcs():
        if f.module.name.startswith(("refspec", "pycid.examples", "pycid.version")):
            continue
        before = t.n
        env = {}
        if f.node.args.kwarg:
            env[f.node.args.kwarg.arg] = frozenset({MAPPING})
        try:
            t.function(f, env)
        except (AttributeError, KeyError, TypeError, ValueError, RecursionError) as x:
            undecided.append(f"{f.qual}: {type(x).__name__}: {x}")
        if t.n > before:
            names.append(f.qual)
    seen, out = set(), []
    for f, line, why in t.out:
        if (f.qual, tuple(why)) not in seen:
            seen.add((f.qual, tuple(why)))
            out.append(Finding("C26", "seeded-by-values", f"{f.qual} {'/'.join(why)}", f"{f.module.path}:{line}",
                               f"the seed depends on the {' and the '.join(why)}: equal arguments need not give equal draws"))
    return RuleResult("seeded-by-values", "no seed depends on the order in which keyword arguments were given, the order of a set, an address, a hash of a string or a clock",
                      t.n, 1, names, out, names, undecided)
