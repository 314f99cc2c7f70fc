"""Nothing but the documented mutators changes a model, and nobody changes the containers of the caller."""
from __future__ import annotations

import ast

from sa.compare import BASELINE, ERRORS, Prims, as_cases, eq_terms, equivalent, limited, summarise, vocab
from sa.entries import ENTRIES
from sa.loader import AnalysisBroken
from sa.run import Finding, RuleResult, rule
from sa.terms import AND, EXISTS, FALSE, IN, ITE, T, TRUE, leaves, reset, show, simp

# operations whose purpose is to change the model they are called on or given
CHANGERS = {
    "__init__", "__setitem__", "__delitem__", "sync_state_names", "add_edge", "remove_edge", "add_node", "remove_node", "add_cpds", "remove_cpds",
    "intervene", "make_decision", "make_utility", "make_chance", "impute_random_decision", "impute_fully_mixed_policy_profile",
    "remove_all_decision_rules", "impute_optimal_decision", "impute_conditional_expectation_decision", "impute_optimal_policy",
    "impute_random_policy", "add_random_cpds", "_add_sufficient_recall", "_add_sufficient_recalls", "add_random_edge",
}
REBUILD = {"to_tabular_cpd"}


def roots(t):
    """the parameter a changed object belongs to"""
    while isinstance(t, T):
        if t.op == "param":
            return t.args[0]
        if t.op in ("attr", "idx", "item", "items", "values", "getitem"):
            t = t.args[1] if t.op == "attr" and not isinstance(t.args[0], T) else t.args[0]
            continue
        return None
    return None


def owner(t):
    """the model whose stored relationships or domains a changed object belongs to"""
    while isinstance(t, T):
        if t.op in ("attr", "idx", "item", "items", "values", "getitem", "bound"):
            t = t.args[0]
        elif t.op == "cpdmodel":
            return t.args[2].args[0] if t.args[2].op == "C" else None
        else:
            return None
    return None


def copies(f):
    return any(isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and "copy" in x.func.attr for x in ast.walk(f.node))


CHANGE = {"afterG", "afterR", "afterC", "addE", "delE", "addEs", "delEs", "nocpds", "reqG", "mech"}


def not_run(x, cond):
    """the initial value, if the loop that computes x makes no iteration in the case cond"""
    f = x.args[1]
    lam = f.args[0]
    inits = as_cases(f.args[2])
    n = len(inits[0][1].args)
    gv = list(lam.args[1 + n : -1])
    guard = lam.args[-1].args[-1]
    for c, srcs in as_cases(f.args[1]):
        if len(gv) != len(srcs.args) or any(s.op == "unordered" for s in srcs.args):
            return None
        runs = EXISTS(gv, AND(*[IN(v, s) for v, s in zip(gv, srcs.args)], guard))
        if not equivalent(AND(runs, c, cond), FALSE, TRUE)[0]:
            return None
    out = inits[-1][1].args[x.args[0]]
    for c, i in reversed(inits[:-1]):
        out = ITE(c, i.args[x.args[0]], out)
    return out


def changed(t, init, cond):
    """is there a feasible case in which a changing operation was applied? (None: not known)"""
    known = True
    for c, x in leaves(simp(t)) if t.op != "cases" else as_cases(t):
        c = AND(c, cond)
        while x.op == "foldout":
            y = not_run(x, c)
            if y is None:
                break
            x = simp(y)
        if x is init:
            continue
        if x.op in ("cases", "ite"):
            r = changed(x, init, c)
            if r:
                return True
            known = known and r is False
        elif not equivalent(c, FALSE, TRUE)[0]:
            if vocab(x) & CHANGE:
                return True
            known = False
    return False if known else None


def muts(t):
    seen, todo, out = set(), [t], []
    while todo:
        x = todo.pop()
        if not isinstance(x, T) or x in seen:
            continue
        seen.add(x)
        if x.op == "mut":
            out.append(x)
        todo += [a for a in x.args if isinstance(a, T)]
    return out


def summary(prog, e):
    f = prog.func(e.target)
    cls = prog.cls(e.opts["cls"]) if "cls" in e.opts else f.cls
    last = None
    for kw in (dict(baseline=BASELINE, unfold=frozenset({f.name})), dict(baseline=BASELINE, unfold=frozenset({f.name}), unfold_all=True)):
        try:
            return f, summarise(prog, f, e.kinds, Prims(**kw), cls=cls)
        except ERRORS as x:
            last = x
    return f, last


def names(f):
    a = f.node.args
    return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]


@rule("C01")
def model_unchanged(prog):
    n, samples, findings, undecided, functions = 0, [], [], [], []
    seen = set()
    for e in ENTRIES:
        name = e.target.split(":")[1].split(".")[-1]
        models = [p for p, k in e.kinds.items() if k.startswith("model")]
        if name in CHANGERS or not models or e.target in seen:
            continue
        seen.add(e.target)
        reset()
        try:
            r = limited(20, lambda: summary(prog, e))
        except AnalysisBroken:
            continue
        if r is None or not hasattr(r[1], "state"):
            n += 1
            undecided.append(f"{e.target}: {'time limit' if r is None else r[1]}")
            continue
        f, s = r
        functions.append(f.qual)
        for p in models:
            n += 1
            arg = names(f)[int(p[1:])] if int(p[1:]) < len(names(f)) else p
            cases = [(s.normal, s.state, "")] + [(c, st, " when an error is raised") for c, st in s.raising]
            for cond, state, when in cases:
                for k in "GRC":
                    t = state.get(f"{p}.{k}")
                    if t is None or t is T(k, p):
                        continue
                    t = simp(t)
                    if eq_terms(t, T(k, p), cond)[0]:
                        continue
                    w = changed(t, T(k, p), cond)
                    if w is False:
                        continue
                    what = {"G": "graph", "R": "roles", "C": "relationships"}[k]
                    if w:
                        findings.append(Finding("C01", "model-unchanged", f"{e.target} {arg} {what}{when}", f"{f.module.path}:{f.node.lineno}",
                                                f"the {what} of the argument {arg} may be changed{when}: {show(t)[:1500]}"))
                    else:
                        undecided.append(f"{e.target}: {what} of {arg}{when}: {show(t)[:120]}")
        for m in muts(s.events):
            p = roots(m.args[1])
            if p is None and not copies(f):
                p = owner(m.args[1])
            if p in models:
                findings.append(Finding("C01", "model-unchanged", f"{e.target} {p} {m.args[0]}", f"{f.module.path}:{f.node.lineno}",
                                        f"an object inside the model is changed: {show(m)[:600]}"))
        samples.append(f"{e.target}: unchanged")
    return RuleResult("model-unchanged", "in the summary of every operation that is not documented to change a model, the final graph, roles and "
                      "relationships of each model argument are the initial ones", n, 40, samples, findings, functions, undecided)


@rule("C28")
def arguments_unchanged(prog):
    n, samples, findings, undecided, functions = 0, [], [], [], []
    seen = set()
    for e in ENTRIES:
        params = [p for p, k in e.kinds.items() if not k.startswith(("model", "obj")) and k not in ("str", "int", "kwargs")]
        if not params or e.target in seen or ("._" in e.target and "__init__" not in e.target) or ":_" in e.target or e.target.endswith("add_random_edge"):
            continue
        seen.add(e.target)
        reset()
        try:
            r = limited(20, lambda: summary(prog, e))
        except AnalysisBroken:
            continue
        n += len(params)
        if r is None or not hasattr(r[1], "state"):
            undecided.append(f"{e.target}: {'time limit' if r is None else r[1]}")
            continue
        f, s = r
        functions.append(f.qual)
        bad = False
        for m in muts(s.events):
            p = roots(m.args[1])
            if p in params:
                bad = True
                arg = names(f)[int(p[1:])] if int(p[1:]) < len(names(f)) else p
                findings.append(Finding("C28", "argument-unchanged", f"{e.target} {arg} {m.args[0]}", f"{f.module.path}:{f.node.lineno}",
                                        f"the argument {arg} of the caller is changed: {show(m)[:600]}"))
        if not bad:
            samples.append(f"{e.target}: {', '.join(params)} unchanged")
    return RuleResult("argument-unchanged", "the effects in the summary of a public operation contain no change of an object reached through a "
                      "container argument", n, 60, samples, findings, functions, undecided)
