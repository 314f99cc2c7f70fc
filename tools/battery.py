"""battery.py mutants|refactors [module substring] [function substring] [-v] [-n MAX]

Development tool (no check uses it): applies single-point changes to the functions of the package in memory and reports how
the comparisons and rules judge them. `mutants` should be reported as different (unless equivalent), `refactors` never."""
import ast
import builtins
import copy
import multiprocessing as mp
import os
import random
import signal
import sys
import time
from collections import Counter

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
sys.setrecursionlimit(10000)
from sa import run as R  # noqa
from sa.entries import ENTRIES, SPECS  # noqa
from sa.loader import AnalysisBroken, Program  # noqa

SWAP = {
    "get_parents": ["get_children"], "get_children": ["get_parents"], "descendants": ["ancestors"], "ancestors": ["descendants"],
    "decisions": ["utilities", "nodes"], "utilities": ["decisions"], "nodes": ["decisions"], "agent_decisions": ["agent_utilities"],
    "agent_utilities": ["agent_decisions"], "decision_agent": ["utility_agent"], "utility_agent": ["decision_agent"],
    "union": ["intersection"], "intersection": ["union"], "any": ["all"], "all": ["any"], "max": ["min"], "min": ["max"],
    "add_edge": ["remove_edge"], "remove_edge": ["add_edge"], "append": ["extend"], "update": ["difference_update"],
    "is_dconnected": ["has_edge"], "has_edge": ["has_node"], "issubset": ["issuperset"], "isdisjoint": ["issubset"],
    "impute_optimal_policy": ["impute_random_policy"], "impute_random_policy": ["impute_optimal_policy"], "items": ["keys"],
    "find_all_dir_paths": ["find_all_undir_paths"], "find_all_undir_paths": ["find_all_dir_paths"],
    "is_s_reachable": ["is_r_reachable"], "combinations": ["permutations"], "permutations": ["combinations"], "argmax": ["argmin"],
    "difference": ["union"], "setdefault": ["get"], "add": ["discard"],
}
CMP = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Add, ast.Div: ast.Mult, ast.BitOr: ast.BitAnd, ast.BitAnd: ast.BitOr}


def funcs_of(tree, qual=()):
    for n in tree.body:
        if isinstance(n, ast.FunctionDef):
            yield ".".join(qual + (n.name,)), n
        elif isinstance(n, ast.ClassDef):
            yield from funcs_of(n, qual + (n.name,))


def parents(root):
    p = {}
    for n in ast.walk(root):
        for f, v in ast.iter_fields(n):
            if isinstance(v, list):
                for i, x in enumerate(v):
                    if isinstance(x, ast.AST):
                        p[x] = (n, f, i)
            elif isinstance(v, ast.AST):
                p[v] = (n, f, None)
    return p


def replace(par, old, new):
    n, f, i = par[old]
    if i is None:
        setattr(n, f, new)
    else:
        getattr(n, f)[i] = new


def mutants(fn, known=()):
    """(description, edit) where edit(function copy, nodes in walk order) changes it in place"""
    nodes = list(ast.walk(fn))
    names = sorted({n.id for n in nodes if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} | {a.arg for a in fn.args.args if a.arg not in ("self", "cls")})
    out = []

    def m(i, what, f):
        out.append((f"{fn.name}:{getattr(nodes[i], 'lineno', 0)}: {what}", i, f))

    doc = fn.body[0] if ast.get_docstring(fn) is not None else None
    skip = set(ast.walk(doc)) if doc else set()
    for a in ast.walk(fn.args):
        if isinstance(a, ast.arg) and a.annotation:
            skip |= set(ast.walk(a.annotation))
    if fn.returns:
        skip |= set(ast.walk(fn.returns))
    for d in fn.decorator_list:
        skip |= set(ast.walk(d))
    for n in nodes:
        if isinstance(n, ast.AnnAssign):
            skip |= set(ast.walk(n.annotation))
        if isinstance(n, ast.Raise):
            for x in ast.walk(n):
                if x is not n:
                    skip.add(x)
        if isinstance(n, ast.JoinedStr):
            skip |= set(ast.walk(n))
    rnd = random.Random(fn.name)
    first_store = {a.arg: 0 for a in fn.args.args + fn.args.kwonlyargs}
    inner = set()
    for n in nodes:
        if isinstance(n, ast.comprehension) or isinstance(n, (ast.FunctionDef, ast.Lambda)) and n is not fn:
            inner |= {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            first_store[n.id] = min(first_store.get(n.id, 10**9), n.lineno)
    for i, n in enumerate(nodes):
        if n in skip:
            continue
        if isinstance(n, ast.Compare):
            if type(n.ops[0]) in CMP:
                m(i, f"{ast.unparse(n)}: operator flipped", lambda fn, n, par: n.ops.__setitem__(0, CMP[type(n.ops[0])]()))
        if isinstance(n, ast.BoolOp):
            def flip(fn, n, par):
                n.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
            m(i, f"{ast.unparse(n)[:60]}: and/or", flip)
            for k in range(len(n.values)):
                def drop(fn, n, par, k=k):
                    v = n.values[:k] + n.values[k + 1 :]
                    replace(par, n, v[0] if len(v) == 1 else ast.BoolOp(n.op, v))
                m(i, f"{ast.unparse(n)[:60]}: drop operand {k}", drop)
        if isinstance(n, ast.BinOp) and type(n.op) in BIN:
            def flipb(fn, n, par):
                n.op = BIN[type(n.op)]()
            m(i, f"{ast.unparse(n)[:60]}: operator", flipb)
            m(i, f"{ast.unparse(n)[:60]}: left only", lambda fn, n, par: replace(par, n, n.left))
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            m(i, f"{ast.unparse(n)[:60]}: not removed", lambda fn, n, par: replace(par, n, n.operand))
        if isinstance(n, (ast.If, ast.IfExp, ast.While)) and not (isinstance(n, ast.While) and isinstance(n.test, ast.Constant)):
            if not isinstance(n.test, ast.Compare):
                def neg(fn, n, par):
                    n.test = ast.UnaryOp(ast.Not(), n.test)
                m(i, f"if {ast.unparse(n.test)[:60]}: negated", neg)
        if isinstance(n, ast.Constant) and n in set(nodes) and not (isinstance(n.value, str) and len(n.value) > 20):
            if isinstance(n.value, bool):
                m(i, f"{n.value} -> {not n.value}", lambda fn, n, par: setattr(n, "value", not n.value))
            elif isinstance(n.value, int):
                m(i, f"{n.value} -> {n.value + 1}", lambda fn, n, par: setattr(n, "value", n.value + 1))
            elif isinstance(n.value, str) and n.value:
                m(i, f"{n.value!r} changed", lambda fn, n, par: setattr(n, "value", n.value + "x"))
        if isinstance(n, ast.comprehension) and n.ifs:
            m(i, f"filter {ast.unparse(n.ifs[0])[:50]} dropped", lambda fn, n, par: n.ifs.pop())
        if isinstance(n, ast.Attribute) and n.attr in SWAP:
            for s in SWAP[n.attr]:
                m(i, f"{ast.unparse(n)[:50]} -> .{s}", lambda fn, n, par, s=s: setattr(n, "attr", s))
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
            for s in SWAP.get(n.id, []):
                if s not in known:
                    continue
                m(i, f"{n.id} -> {s}", lambda fn, n, par, s=s: setattr(n, "id", s))
            if n.id in names:
                others = [x for x in names if x != n.id and first_store.get(x, 10**9) < n.lineno and x not in inner]
                if others:
                    s = rnd.choice(others)
                    m(i, f"name {n.id} -> {s}", lambda fn, n, par, s=s: setattr(n, "id", s))
        if isinstance(n, ast.Call):
            if len(n.args) >= 2:
                def sw(fn, n, par):
                    n.args[0], n.args[1] = n.args[1], n.args[0]
                m(i, f"{ast.unparse(n)[:60]}: args swapped", sw)
            if isinstance(n.func, ast.Name) and n.func.id in ("reversed", "sorted", "list", "set", "tuple") and len(n.args) >= 1 and n.func.id in ("reversed", "sorted"):
                m(i, f"{ast.unparse(n)[:60]}: unwrapped", lambda fn, n, par: replace(par, n, n.args[0]))
            if isinstance(n.func, ast.Attribute) and n.func.attr in ("copy", "union", "intersection", "difference", "copy_without_cpds"):
                m(i, f"{ast.unparse(n)[:60]}: receiver only", lambda fn, n, par: replace(par, n, n.func.value))
            for k in range(len(n.keywords)):
                m(i, f"{ast.unparse(n)[:60]}: keyword {n.keywords[k].arg} dropped", lambda fn, n, par, k=k: n.keywords.pop(k))
        if isinstance(n, (ast.Expr, ast.AugAssign, ast.Raise, ast.Delete)) and not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
            m(i, f"{ast.unparse(n)[:60]}: deleted", lambda fn, n, par: replace(par, n, ast.Pass()))
        if isinstance(n, ast.Assign) and not isinstance(n.targets[0], (ast.Name, ast.Tuple)):
            m(i, f"{ast.unparse(n)[:60]}: deleted", lambda fn, n, par: replace(par, n, ast.Pass()))
        if isinstance(n, ast.Continue):
            m(i, "continue -> break", lambda fn, n, par: replace(par, n, ast.Break()))
        if isinstance(n, ast.Break):
            m(i, "break -> continue", lambda fn, n, par: replace(par, n, ast.Continue()))
        if isinstance(n, ast.If):
            m(i, f"if {ast.unparse(n.test)[:50]}: body skipped", lambda fn, n, par: setattr(n, "test", ast.Constant(False)))
            m(i, f"if {ast.unparse(n.test)[:50]}: always", lambda fn, n, par: setattr(n, "test", ast.Constant(True)))
    return out


# ------------------------------------------------------------------ refactorings


class Ren(ast.NodeTransformer):
    def __init__(self, m):
        self.m = m

    def visit_Name(self, n):
        n.id = self.m.get(n.id, n.id)
        return n

    def visit_ExceptHandler(self, n):
        if n.name:
            n.name = self.m.get(n.name, n.name)
        return self.generic_visit(n)


def own(fn):
    todo = list(ast.iter_child_nodes(fn))
    while todo:
        x = todo.pop(0)
        yield x
        if not isinstance(x, (ast.FunctionDef, ast.Lambda)):
            todo += list(ast.iter_child_nodes(x))


def refactors(fn):
    nodes = list(ast.walk(fn))
    out = []

    def r(i, what, f):
        out.append((f"{fn.name}:{getattr(nodes[i], 'lineno', 0)}: {what}", i, f))

    def rename(fn, n, par):
        loc = {x.id for x in ast.walk(fn) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        loc |= {x.name for x in ast.walk(fn) if isinstance(x, ast.ExceptHandler) and x.name}
        nl = {y for x in ast.walk(fn) if isinstance(x, (ast.Global, ast.Nonlocal)) for y in x.names}
        a = fn.args
        ps = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs + [a.vararg, a.kwarg] if x}
        ps |= {x.arg for f in ast.walk(fn) if isinstance(f, (ast.Lambda, ast.FunctionDef)) and f is not fn for x in f.args.args}
        Ren({v: v + "_r" for v in loc - nl - ps}).visit(fn)

    r(0, "rename locals", rename)
    first = 1 if ast.get_docstring(fn) is not None else 0

    def noop(fn, n, par):
        fn.body.insert(first, ast.parse("_unused = None").body[0])

    r(0, "no-op statement", noop)

    def noop2(fn, n, par):
        fn.body.insert(first, ast.parse("if False:\n    pass").body[0])

    r(0, "no-op if", noop2)
    doc = set(ast.walk(fn.body[0])) if first else set()
    bad = {x for n in nodes if isinstance(n, (ast.JoinedStr, ast.Raise)) for x in ast.walk(n)}
    isgen = any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in own(fn))
    for i, n in enumerate(nodes):
        if n in doc or n in bad and not isinstance(n, ast.Raise):
            continue
        if isinstance(n, ast.Return) and n.value is not None and not isinstance(n.value, (ast.Constant, ast.Name)):
            def retvar(fn, n, par):
                p, f, k = par[n]
                getattr(p, f)[k : k + 1] = [ast.Assign([ast.Name("result_", ast.Store())], n.value), ast.Return(ast.Name("result_", ast.Load()))]
            r(i, "return through a variable", retvar)
            v = n.value
            if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in ("any", "all") and isinstance(v.args[0], ast.GeneratorExp):
                def unroll(fn, n, par):
                    v = n.value
                    isany = v.func.id == "any"
                    test = v.args[0].elt if isany else ast.UnaryOp(ast.Not(), v.args[0].elt)
                    body = [ast.If(test, [ast.Return(ast.Constant(isany))], [])]
                    for g in reversed(v.args[0].generators):
                        for c in reversed(g.ifs):
                            body = [ast.If(c, body, [])]
                        body = [ast.For(g.target, g.iter, body, [])]
                    p, f, k = par[n]
                    getattr(p, f)[k : k + 1] = body + [ast.Return(ast.Constant(not isany))]
                r(i, "any/all as a loop", unroll)
            if isinstance(v, ast.ListComp):
                def loop(fn, n, par):
                    v = n.value
                    body = [ast.Expr(ast.Call(ast.Attribute(ast.Name("acc_", ast.Load()), "append", ast.Load()), [v.elt], []))]
                    for g in reversed(v.generators):
                        for c in reversed(g.ifs):
                            body = [ast.If(c, body, [])]
                        body = [ast.For(g.target, g.iter, body, [])]
                    p, f, k = par[n]
                    getattr(p, f)[k : k + 1] = [ast.Assign([ast.Name("acc_", ast.Store())], ast.List([], ast.Load()))] + body + [ast.Return(ast.Name("acc_", ast.Load()))]
                r(i, "comprehension as a loop", loop)
        if isinstance(n, ast.If) and n.orelse and not (len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If)):
            def inv(fn, n, par):
                n.test, n.body, n.orelse = ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body
            r(i, "branches swapped", inv)
        if isinstance(n, ast.If):
            def cvar(fn, n, par):
                p, f, k = par[n]
                if f != "body":
                    raise ValueError
                getattr(p, f)[k : k + 1] = [ast.Assign([ast.Name("cond_", ast.Store())], n.test), n]
                n.test = ast.Name("cond_", ast.Load())
            r(i, "condition in a variable", cvar)
            if isinstance(n.test, ast.BoolOp) and isinstance(n.test.op, ast.And) and not n.orelse:
                def nest(fn, n, par):
                    n.body = [ast.If(ast.BoolOp(ast.And(), n.test.values[1:]) if len(n.test.values) > 2 else n.test.values[1], n.body, [])]
                    n.test = n.test.values[0]
                r(i, "and as nested ifs", nest)
            if n.body and isinstance(n.body[-1], (ast.Return, ast.Raise, ast.Continue)) and not n.orelse:
                def els(fn, n, par):
                    p, f, k = par[n]
                    rest = getattr(p, f)[k + 1 :]
                    if not rest:
                        raise ValueError
                    n.orelse = rest
                    del getattr(p, f)[k + 1 :]
                r(i, "rest moved into else", els)
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            if isinstance(n.ops[0], (ast.Eq, ast.NotEq)):
                def sw(fn, n, par):
                    n.left, n.comparators[0] = n.comparators[0], n.left
                r(i, "equality operands swapped", sw)
            if isinstance(n.ops[0], ast.NotIn):
                def ni(fn, n, par):
                    n.ops[0] = ast.In()
                    replace(par, n, ast.UnaryOp(ast.Not(), n))
                r(i, "not in as not (in)", ni)
        if isinstance(n, ast.ListComp) and not isinstance(par_of(nodes, n), ast.Return):
            def gen(fn, n, par):
                replace(par, n, ast.Call(ast.Name("list", ast.Load()), [ast.GeneratorExp(n.elt, n.generators)], []))
            r(i, "list(generator)", gen)
        if isinstance(n, ast.For) and not n.orelse and isinstance(n.iter, (ast.Attribute, ast.Call)):
            def itv(fn, n, par):
                p, f, k = par[n]
                getattr(p, f)[k : k + 1] = [ast.Assign([ast.Name("items_", ast.Store())], n.iter), n]
                n.iter = ast.Name("items_", ast.Load())
            r(i, "iterable in a variable", itv)
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            def inline(fn, n, par):
                v = n.targets[0].id
                uses = [x for x in ast.walk(fn) if isinstance(x, ast.Name) and x.id == v]
                loads = [x for x in uses if isinstance(x.ctx, ast.Load)]
                if len(uses) != 2 or len(loads) != 1:
                    raise ValueError
                p, f, k = par[n]
                nxt = getattr(p, f)[k + 1]
                if loads[0] not in set(ast.walk(nxt)) or not isinstance(nxt, (ast.Return, ast.Assign, ast.Expr)):
                    raise ValueError
                replace(par, loads[0], n.value)
                del getattr(p, f)[k]
            r(i, "variable inlined", inline)
        if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Sub) and isinstance(n.left, ast.Call) and isinstance(n.left.func, ast.Name) and n.left.func.id == "set":
            def diff(fn, n, par):
                replace(par, n, ast.Call(ast.Attribute(n.left, "difference", ast.Load()), [n.right], []))
            r(i, "set difference as a method", diff)
    # a tail of the body moved to a helper function in the same module or class
    body = fn.body[first:]
    if not isgen:
        for k in range(1, len(body)):
            def extract(fn, n, par, k=k):
                b = fn.body[first:]
                tail = b[k:]
                stored = {x.id for s in b[:k] for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
                stored |= {x.name for s in b[:k] for x in ast.walk(s) if isinstance(x, ast.FunctionDef)}
                stored |= {a.arg for a in fn.args.args + fn.args.kwonlyargs} | ({fn.args.vararg.arg} if fn.args.vararg else set()) | ({fn.args.kwarg.arg} if fn.args.kwarg else set())
                used = {x.id for s in tail for x in ast.walk(s) if isinstance(x, ast.Name)}
                if "super" in used or any(isinstance(x, (ast.Nonlocal, ast.Yield)) for s in tail for x in ast.walk(s)):
                    raise ValueError
                args = sorted(stored & used)
                h = ast.parse(f"def _tail_of_{fn.name.strip('_')}({', '.join(args)}):\n    pass").body[0]
                h.body = tail
                fn.body[first + k :] = [ast.Return(ast.Call(ast.Name(h.name, ast.Load()), [ast.Name(a, ast.Load()) for a in args], []))]
                fn._helper = h
            r(0, f"tail from statement {k} extracted", extract)
    return out


def par_of(nodes, n):
    for p in nodes:
        for c in ast.iter_child_nodes(p):
            if c is n:
                return p


def variants(kind, mod, fun, cap):
    base = Program(extra=SPECS)
    out = []
    for name, m in sorted(base.modules.items()):
        if not name.startswith("pycid") or ".examples" in name or mod not in name:
            continue
        for q, fn in funcs_of(m.tree):
            if fun not in q:
                continue
            k = 0
            vs = mutants(fn, set(m.imports) | set(m.funcs) | set(dir(builtins))) if kind == "mutants" else refactors(fn)
            if cap and len(vs) > cap:
                random.Random(1).shuffle(vs)
                vs = vs[:cap]
            for what, i, f in vs:
                out.append((name, m.relpath, q, what, i, f))
    return base, out


def make(base, name, q, i, f):
    tree = copy.deepcopy(base.modules[name].tree)
    fn = dict(funcs_of(tree))[q]
    n = list(ast.walk(fn))[i]
    f(fn, n, parents(fn))
    if hasattr(fn, "_helper"):
        tree.body.append(fn._helper)
    ast.fix_missing_locations(tree)
    src = ast.unparse(tree)
    compile(src, name, "exec")
    return src


_base = _vars = None


def judge(j):
    name, rel, q, what, i, f = _vars[j]
    try:
        src = make(_base, name, q, i, f)
    except (ValueError, IndexError, SyntaxError):
        return j, "skip", "", 0
    if src == ast.unparse(_base.modules[name].tree):
        return j, "skip", "", 0
    t0 = time.time()
    try:
        R._prog = Program(extra=SPECS, overlay={rel: src})
    except AnalysisBroken as x:
        return j, "broken", str(x), 0
    hits, und = [], []
    for k, e in enumerate(ENTRIES):
        t = e.target.split(":")
        if t[0] != name and not (e.target in USERS.get(q, ())):
            continue
        r = R._entry_job(k, 40)
        if r["status"] == "different":
            hits.append(f"{'/'.join(e.props)} {e.target}: {r['what']}: {r['detail'][:700]}")
        elif r["status"] == "undecided":
            und.append(f"{e.target}: {r['what']}: {r['detail'][:700]}")
        elif r["status"] == "vanished" and not r["private"]:
            und.append("vanished " + e.target)
    for k in range(len(R.RULES)):
        st, r = R._rule_job(k, 60)
        if st == "broken":
            und.append(r[:300])
        else:
            for x in r.findings:
                if x.key not in BASEFIND:
                    hits.append(f"{x.prop} {x.key}: {x.message[:200]}")
            und += [u for u in r.undecided if u not in BASEUND]
    s = "different" if hits else "undecided" if und else "same"
    return j, s, "\n      ".join((hits or und)[:3]), time.time() - t0


USERS = {}
BASEFIND, BASEUND = set(), set()


def main():
    global _base, _vars
    a = [x for x in sys.argv[1:] if not x.startswith("-")]
    kind, mod, fun = a[0], (a + ["", ""])[1], (a + ["", "", ""])[2]
    verbose = "-v" in sys.argv
    cap = next((int(x[2:]) for x in sys.argv if x.startswith("-n")), 0)
    R.load_rules()
    _base, _vars = variants(kind, mod, fun, cap)
    R._prog = _base
    for k in range(len(R.RULES)):
        st, r = R._rule_job(k, 60)
        if st == "ok":
            BASEFIND.update(x.key for x in r.findings)
            BASEUND.update(r.undecided)
    c = Counter()
    per = {}
    bad = "different" if kind == "refactors" else "same"
    with mp.get_context("fork").Pool(8, maxtasksperchild=50) as pool:
        for j, s, d, t in pool.imap(judge, range(len(_vars))):
            name, rel, q, what, i, f = _vars[j]
            if s == "skip":
                continue
            c[s] += 1
            per.setdefault(f"{name}:{q}", Counter())[s] += 1
            if s == bad or verbose and (s == "undecided" or kind == "mutants" and s != "different"):
                print(f"{s.upper():10} {name}:{what} ({t:.1f} s)\n      {d[: int(os.environ.get('W', '600'))]}", flush=True)
    for k, v in sorted(per.items()):
        print(f"{k:75} {dict(v)}")
    print(dict(c))


if __name__ == "__main__":
    main()
