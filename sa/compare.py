"""Summaries of functions and their comparison with the summary of a reference definition."""
from __future__ import annotations

import ast
import os
import signal
import time
import traceback
from dataclasses import dataclass, field
from typing import Any, Dict, List, Optional, Tuple

from sa import terms as tm
from sa.interp import EVENTS, Fr, Heap, Interp, Opaque, St
from sa.loader import Cls, Func, Program
from sa.models import separate
from sa.prims import Prims
from sa.terms import (
    AND, EQ, FALSE, ITE, NONE, NOT, OR, TRUE, T, TYPES, const, equivalent, free_vars, is_formula, leaves, show, simp, skey, subst,
)
from sa.values import *  # noqa

# names of the public functions of the package that are treated as primitives (each is the subject of its own summary)
BASELINE = {
    "sufficient_recall", "requisite", "requisite_list", "requisite_graph", "is_active_path", "get_motif", "get_motifs",
    "find_active_path", "find_all_dir_paths", "find_all_undir_paths", "directed_decision_free_path",
    "is_active_indirect_frontdoor_trail", "is_active_backdoor_trail", "is_r_reachable", "is_s_reachable", "get_valid_order",
    "direct_effect", "manipulation", "signaling", "revealing_or_denying", "get_reasoning_patterns", "admits_voi",
    "admits_voc", "admits_ri", "admits_ici", "admits_dir_voc", "admits_indir_voc", "admits_voi_list", "admits_voc_list",
    "admits_ri_list", "admits_ici_list", "admits_dir_voc_list", "admits_indir_voc_list", "quantitative_voi",
    "quantitative_voc", "total_effect", "introduced_total_effect", "query", "expected_value", "expected_utility",
    "impute_optimal_policy", "impute_random_policy", "impute_random_decision", "impute_fully_mixed_policy_profile",
    "impute_optimal_decision", "impute_conditional_expectation_decision", "remove_all_decision_rules", "add_cpds",
    "remove_cpds", "make_decision", "make_utility", "make_chance", "intervene", "optimal_pure_policies",
    "optimal_pure_decision_rules", "pure_decision_rules", "pure_policies", "optimal_policies", "solve", "get_ne", "get_spe",
    "get_ne_in_sg", "create_subgame", "decs_in_each_maid_subgame", "joint_pure_policies", "policy_profile_assignment",
    "macid_to_efg", "pygambit_ne_solver", "behavior_to_cpd", "macid_to_gambit_file", "random_macidbase", "random_cid",
    "random_macid", "random_dag", "add_random_cpds", "_add_sufficient_recalls", "add_random_edge", "get_sccs", "is_acyclic",
    "get_scc_topological_ordering", "get_decisions_in_scc", "temp_seed", "copy", "copy_without_cpds", "bernoulli",
    "discrete_uniform", "noisy_copy", "parent_values", "possible_values", "to_tabular_cpd", "sync_state_names",
    "stochastic_function", "compute_label", "is_structural_causal_model",
}


@dataclass
class Summary:
    value: Any
    raises: Dict[str, T]
    state: Dict[str, T]
    events: T
    interp: Interp
    normal: T = TRUE
    raising: tuple = ()  # (condition, {model part: its state}) of the exceptional exits


@dataclass
class Result:
    status: str  # same | different | undecided
    what: str = ""
    detail: str = ""
    analysed: set = field(default_factory=set)
    call_sites: int = 0
    prims: tuple = (frozenset(), frozenset())
    refprims: set = field(default_factory=set)


def param_value(kind: str, name: str, st: St, I: Interp, cls: Optional[Cls]):
    p = T("param", name)
    if kind.startswith("model"):
        c = I.prog.cls(kind.split(":")[1]) if ":" in kind else cls
        r = I.new(st, ModelCell(c, T("G", name), T("R", name), T("C", name)))
        return r
    if kind.startswith("obj"):
        c = I.prog.cls(kind.split(":")[1]) if ":" in kind else cls
        return I.new(st, InstCell(c, (), "obj:" + name))
    if kind == "any":
        return p
    if kind == "kwargs":
        TYPES[p] = "dict"
        return p
    TYPES[p] = kind
    return p


def summarise(prog: Program, f: Func, kinds: Dict[str, str], prims: Prims, rename: Optional[List[str]] = None, cls: Optional[Cls] = None, also: tuple = ()) -> Summary:
    I = Interp(prog, prims)
    st = St({}, Heap())
    a = f.node.args
    params = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
    canon = list(kinds)
    if a.vararg:
        params.append(a.vararg.arg)
    if a.kwarg:
        params.append(a.kwarg.arg)
    if len(params) < len(canon):
        raise Opaque(f"{f.qual} has {len(params)} parameters, expected {len(canon)}")
    cls = cls or f.cls
    refs: Dict[str, Ref] = {}
    ndef = len(a.defaults)
    for i, p in enumerate(params):
        if i < len(canon):
            v = param_value(kinds[canon[i]], canon[i], st, I, cls)
            st.env[p] = v
            if isinstance(v, Ref):
                refs[canon[i]] = v
        else:
            # new optional parameters take their default
            j = i - (len(a.posonlyargs + a.args) - ndef)
            if i < len(a.args) and j >= 0:
                st.env[p] = I.ev(a.defaults[j], St({}, st.heap), Fr(f, f.module, f.cls, f.name, 0))
            else:
                raise Opaque(f"unexpected parameter {p}")
    fr = Fr(f, f.module, f.cls, f.name, 0, [], (), params[0] if params else None, None, (f, *also))
    I.analysed.add(f.qual)
    from sa.interp import walk_own
    import ast

    isgen = any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in walk_own(f.node))
    if isgen:
        st.env["$yield"] = I.coll(st, "iter")
    out = I.block(f.node.body, st, fr)
    rets, raises, raising = [], {}, []
    for e in fr.exits:
        if e.kind == "raise":
            raises[e.value] = OR(raises.get(e.value, FALSE), e.cond)
            for n, r in refs.items():
                cell = e.st.heap.get(r.id)
                if isinstance(cell, ModelCell):
                    raising.append((e.cond, {f"{n}.{k}": getattr(cell, k) for k in "GRC"}))
        elif e.kind == "return":
            rets.append((e.cond, e.st.env["$yield"] if isgen else e.value, e.st))
        else:
            raise Opaque("stray exit")
    if out is not None:
        rets.append((out.pc, out.env["$yield"] if isgen else NONE, out))
    normal = OR(*[c for c, _, _ in rets])
    if not rets:
        return Summary(NONE, raises, {}, T("seq"), I, FALSE, tuple(raising))
    c, v, s = rets[-1]
    acc = St({}, Heap(s.heap), TRUE)
    for c, v2, s2 in reversed(rets[:-1]):
        left = St({}, Heap(s2.heap), TRUE)
        m = I.merge(c, left, acc, TRUE)
        v = I.merge_val(c, v2, v, left, acc, m)
        acc = m
    value = I.term(v, acc)
    state: Dict[str, T] = {}
    for n, r in refs.items():
        cell = acc.heap[r.id]
        if isinstance(cell, ModelCell):
            for k in "GRC":
                x = getattr(cell, k)
                state[f"{n}.{k}"] = x
            for k, x in cell.fields:
                state[f"{n}.{k}"] = I.term(x, acc)
        elif isinstance(cell, InstCell):
            for k, x in cell.fields:
                state[f"{n}.{k}"] = I.term(x, acc)
    ev = acc.heap.get(EVENTS)
    events = I.term(ev, acc) if ev is not None else T("seq")
    return Summary(value, raises, state, events, I, normal, tuple(raising))


STRONG = {
    "true", "false", "const", "var", "param", "and", "or", "not", "exists", "eq", "in", "big", "ite", "cases", "edge", "desc", "isdec",
    "isutil", "dagent", "uagent", "decs", "utils", "agents", "decsof", "utilsof", "parents", "children", "desc_of", "nxanc",
    "anc_of", "nodes", "edges", "G", "R", "C", "setc", "seq", "spread", "seqgen", "ugen", "tuple", "pred:node", "pred:dconn",
    "pred:agent", "addE", "delE", "addEs", "delEs", "mech", "struct", "model", "idx", "len", "lin", "lt", "gt0", "range", "pred:decagent", "star", "default", "enter",
    "dagmap", "uagmap", "decmap", "utilmap", "dirpaths", "undirpaths", "reqG", "motif", "motifs", "first", "indexof", "dict", "truthy", "pred:nonempty",
    "pred:dag", "topo", "reversed", "concat", "slice", "slicestep", "abs", "mcall:any", "mcall:all", "activetrail", "call", "after", "afterC", "afterR",
    "bound", "accd", "accc", "unordered", "sorted", "maxof", "minof", "max", "min", "upd:setitem", "upd:delitem", "upd:pop", "upd:append",
    "upd:remove", "upd:clear", "upd:setdefault", "upd:insert", "path", "getitem", "attr:agent_decisions", "attr:agent_utilities", "attr:decision_agent",
    "attr:utility_agent", "binop:Pow", "binop:Mod", "binop:FloorDiv", "mcall:in_degree", "mcall:out_degree", "mcall:degree", "mcall:subgraph",
    "without", "ext:itertools.combinations", "mcall:issubset", "mcall:issuperset", "mcall:isdisjoint",
    "mcall:has_edge", "mcall:has_node", "ext:random.choices", "kw:k",
    "ext:networkx.topological_sort", "ext:str", "cpdmodel", "pred:accnonempty", "pred:accin", "do", "yielded", "fold", "foldout", "foldret", "lam", "pred:foldexit", "step", "exit", "naturals", "unset", "never",
}


def well_understood(v: str) -> bool:
    """the symbol has a fixed meaning in the small interpretations, or stands for an arbitrary function of its arguments"""
    return v in STRONG or v.startswith(("pred:call:", "fn:", "op:", "new:")) or v.startswith("kw:") and not v.endswith("?")


def vocab(t: T) -> set:
    out, seen, todo = set(), set(), [t]
    while todo:
        x = todo.pop()
        if not isinstance(x, T) or x in seen:
            continue
        seen.add(x)
        if x.op in ("pred", "ext", "fn", "new", "op", "attr", "mcall", "kw", "isinst", "objread", "extcall", "upd", "mut", "method", "binop", "cls"):
            names = [a for a in x.args if isinstance(a, str)]
            plain = x.op == "kw" and len(x.args) == 2 and x.args[0] not in ("default", "initial", "start") and isinstance(x.args[1], T) and x.args[1].op == "const" and not x.args[1].args[0]
            out.add(x.op + ":" + (names[0] if names else "?") + ("=default?" if plain else ""))
        else:
            out.add(x.op)
        todo += [a for a in x.args if isinstance(a, T)]
    return out


WEAK = {"selfread", "popped", "popvalue", "last"}
SOFT = {"star", "default", "enter"}  # may be written differently: weak unless in both
LOGIC = {"true", "false", "const", "var", "param", "and", "or", "not", "exists", "eq", "in", "ite", "cases", "tuple", "setc", "seq", "seqgen", "ugen", "lin", "lt", "gt0", "spread", "idx", "len"}


def strong(a: T, b: T) -> bool:
    """is a difference of the summary a from the reference b one between well-understood terms?"""
    va, vb = vocab(a), vocab(b)
    weak = (va | vb) & WEAK
    if weak == {"selfread"} and own_calls(a) == own_calls(b):
        weak = set()  # the same methods of the object are called on both sides: functions of what they read
    named = {x.split("=")[0] for x in va | vb if x.startswith("kw:") and not x.endswith("?")} | {x[:-9] for x in vb if x.endswith("=default?")}
    unknown = [x for x in va - vb if not well_understood(x) and x.replace("=default?", "") not in named]
    if ("unordered" in vb and unordered_loops(a) < unordered_loops(b)) or ("unordered" in va and unordered_loops(a, True) > unordered_loops(b, True)):
        return False  # where the reference leaves the order open, any order will do; and an order left open here may not matter
    if ranking(b) and ranking(a) != ranking(b):
        return False  # the best by a function here, by the entries of a dictionary there
    return not unknown and not weak and not ((va ^ vb) & SOFT)


def ranking(t: T) -> set:
    """how the candidates of a choice of the best one are ranked"""
    return {x.args[1].op for x in subterms(t) if x.op == "kw" and x.args[0] == "key" and isinstance(x.args[1], T)}


def unordered_loops(t: T, on_models: bool = False) -> int:
    """loops over a set (that change models one step at a time)"""
    seen, todo, n = set(), [t], 0
    while todo:
        x = todo.pop()
        if isinstance(x, T) and x not in seen:
            seen.add(x)
            if x.op == "fold" and any(isinstance(s, T) and s.op == "unordered" for s in (x.args[1].args if x.args[1].op == "tuple" else (x.args[1],))):
                n += not on_models or any(s.op in ("afterG", "afterC", "afterR") for s in subterms(x.args[0]))
            todo += x.args
    return n


def own_calls(t: T) -> set:
    return {x.args[0] for x in subterms(t) if x.op == "selfread"}


def align(a: T, b: T, env: int = 0) -> Optional[List[Tuple[T, T]]]:
    """minimal differing pairs of subterms at the same position; None if the shapes cannot be aligned"""
    if a is b:
        return []
    if not isinstance(a, T) or not isinstance(b, T):
        return None if a != b else []
    if skey(a) == skey(b):
        return []
    wa, wb = vocab(a) & WEAK, vocab(b) & WEAK
    if not wa and not wb:
        return [(a, b)]
    if a.op != b.op or len(a.args) != len(b.args):
        return None
    if a.op in ("and", "or"):
        ka, kb = {skey(x): x for x in a.args}, {skey(x): x for x in b.args}
        xa, xb = [v for k, v in ka.items() if k not in kb], [v for k, v in kb.items() if k not in ka]
        if len(xa) == len(xb) == 1:
            return align(xa[0], xb[0])
        if not any(vocab(x) & WEAK for x in xa + xb):
            return [(a.op == "and" and AND(*xa) or OR(*xa), a.op == "and" and AND(*xb) or OR(*xb))]
        return None
    if a.op in tm.BINDERS:
        n = a.args[0]
        if b.args[0] != n:
            return None
        m = {}
        ma, mb = {}, {}
        for x, y in zip(a.args[1 : 1 + n], b.args[1 : 1 + n]):
            v = fresh_var(x)
            ma[x], mb[y] = v, v
        pa = [subst(x, ma) if isinstance(x, T) else x for x in a.args[1 + n :]]
        pb = [subst(x, mb) if isinstance(x, T) else x for x in b.args[1 + n :]]
    else:
        pa, pb = a.args, b.args
    out: List[Tuple[T, T]] = []
    for x, y in zip(pa, pb):
        r = align(x, y)
        if r is None:
            return None
        out += r
    return out


def fresh_var(x: T) -> T:
    return tm.fresh(tm.VAR_SRC.get(x))


def decisive(a: T, b: T, assume: T) -> Optional[str]:
    """a counterexample for a difference between well-understood parts of the summaries, or None"""
    if a.op == "const" and a.args[0] is None and b.op != "const" and not is_formula(b):
        pass
    if strong(a, b):
        return separate(a, b, assume)
    pairs = align(a, b)
    if pairs is None or not pairs or len(pairs) > 2:
        return None
    out = []
    for x, y in pairs:
        if not strong(x, y):
            return None
        w = separate(x, y, assume)
        if w is None:
            return None
        out.append(f"{show(x)[:300]}  instead of  {show(y)[:300]} ({w})")
    return "; ".join(out)


def eq_terms(a: T, b: T, assume: T):
    """(same?, explanation)"""
    a, b = simp(a), simp(b)
    if skey(a) == skey(b):
        return True, ""
    if is_formula(a) and is_formula(b):
        ok, wit = equivalent(a, b, assume)
        return ok, "" if ok else explain(wit)
    ca, cb = as_cases(a), as_cases(b)
    if len(ca) > 1 or len(cb) > 1:
        keys = {}
        for c, v in ca:
            keys.setdefault(skey(v), [v, FALSE, FALSE])[1] = c
        for c, v in cb:
            keys.setdefault(skey(v), [v, FALSE, FALSE])[2] = c
        bad = []
        for k, (v, x, y) in keys.items():
            ok, wit = equivalent(AND(x, assume), AND(y, assume))
            if not ok:
                bad.append(f"value {show(v)[:200]}: {explain(wit)}")
        if not bad:
            return True, ""
        return False, "; ".join(bad)
    return False, ""


def subterms(t: T):
    seen, todo = set(), [t]
    while todo:
        x = todo.pop()
        if isinstance(x, T) and x not in seen:
            seen.add(x)
            yield x
            todo += x.args


def assigned(s: Summary) -> set:
    """the attributes assigned on objects outside the known models"""
    out, seen, todo = set(), set(), [s.value, s.events, *s.state.values()]
    while todo:
        x = todo.pop()
        if isinstance(x, T) and x not in seen:
            seen.add(x)
            if x.op == "setattr" and len(x.args) > 1 and isinstance(x.args[1], str):
                v = x.args[2] if len(x.args) > 2 else None
                given = isinstance(v, T) and any(y.op == "var" or y.op in ("fold", "foldout") for y in subterms(v)) is False
                out.add((x.args[1], "a model given" if given and v.op == "model" else ""))
            todo += x.args
    return out


def as_cases(t: T):
    if t.op == "cases":
        return [(t.args[i], t.args[i + 1]) for i in range(0, len(t.args), 2)]
    if is_formula(t) and t not in (TRUE, FALSE):
        return [(t, TRUE), (simp(NOT(t)), FALSE)]
    return [(TRUE, t)]


def explain(wit) -> str:
    if not wit:
        return "the conditions differ"
    return "they differ when " + ", ".join(("" if p else "not ") + show(a)[:160] for p, a in wit[:8])


PRIM_OF = {"reqG": "requisite_graph", "motif": "get_motif", "motifs": "get_motifs"}


def prims_in(t: T) -> set:
    out = set()
    for v in vocab(t):
        if v.startswith("pred:call:"):
            out.add(v[10:])
        elif v.startswith("fn:"):
            out.add(v[3:])
        elif v in PRIM_OF:
            out.add(PRIM_OF[v])
        elif v.startswith("new:"):
            out.add(v[4:])
    return out & BASELINE


def all_terms(s: "Summary") -> list:
    return [simp(t) for t in (s.value, s.events, *s.raises.values(), *s.state.values()) if isinstance(t, T)]


def all_prims(s: "Summary") -> frozenset:
    return frozenset().union(*[prims_in(t) for t in all_terms(s)])


OPERATIONS = ("ext:", "extcall:", "fn:", "op:", "mut:", "mcall:", "pred:call:", "new:", "method:", "upd:")


def operations(s: "Summary") -> frozenset:
    """the operations of the package and of libraries, and the kinds of loops, that a summary is made of"""
    out = set()
    for t in all_terms(s):
        out |= {v for v in vocab(t) if v.startswith(OPERATIONS) or v in ("fold", "foldout", "reqG", "desc", "dirpaths", "undirpaths", "pred:dconn", "edge")}
    return frozenset(out)


def as_set(t: T) -> T:
    x = tm.fresh()
    return simp(tm.setc(x, tm.IN(x, t)))


def assumption(text: str) -> T:
    """'dec:p1 node:p2 ...': preconditions of an entry"""
    out = []
    for w in text.split():
        k, p = w.split(":")
        x, G, R = T("param", p), T("G", "p0"), T("R", "p0")
        if k == "dec":
            out += [T("isdec", R, x), T("pred", "node", G, x)]
        elif k == "node":
            out.append(T("pred", "node", G, x))
        elif k == "decs":
            y = tm.fresh()
            out.append(NOT(tm.EXISTS([y], AND(tm.IN(y, x), NOT(T("isdec", R, y))))))
        else:
            raise ValueError(k)
    return AND(*out)


def compare(s: Summary, r: Summary, opts: dict, decide: bool = True) -> Result:
    """compare the summary of the code with the one of the reference"""
    diffs: List[Tuple[str, T, T, str, T]] = []
    refraise = OR(*r.raises.values())
    same_assume = NOT(refraise)
    names = sorted(set(s.raises) | set(r.raises))
    given = assumption(opts.get("given", ""))
    same_assume = AND(given, same_assume)
    if opts.get("ignore_raises"):
        names = []
        same_assume = AND(given, NOT(OR(refraise, *s.raises.values())))
    elif opts.get("any_exception"):
        a, b = OR(*s.raises.values()), refraise
        ok, why = eq_terms(a, b, given)
        if not ok:
            diffs.append(("raised exceptions", simp(a), simp(b), why, given))
    else:
        # an input may satisfy several of the conditions; which one is reported first is not compared
        for n in names:
            a, b = s.raises.get(n, FALSE), r.raises.get(n, FALSE)
            ok, why = eq_terms(a, b, given)
            if not ok:
                others = OR(*[c for m, c in r.raises.items() if m != n])
                ok, why = eq_terms(AND(a, NOT(others)), AND(b, NOT(others)), given)
                ok2, _ = equivalent(OR(*s.raises.values()), refraise, given)
                ok = ok and ok2
                if not ok:
                    if not equivalent(OR(*s.raises.values()), refraise, given)[0]:
                        diffs.append(("raised exceptions", simp(OR(*s.raises.values())), simp(refraise), why, given))
                    else:
                        diffs.append((f"conditions raising {n}", simp(AND(a, NOT(others))), simp(AND(b, NOT(others))), why, given))
    if opts.get("value", True):
        a, b = s.value, r.value
        if opts.get("as_set"):
            a, b = as_set(a), as_set(b)
        ok, why = eq_terms(a, b, same_assume)
        if not ok:
            diffs.append(("returned value", simp(a), simp(b), why, same_assume))
    for k in sorted(set(s.state) | set(r.state)):
        if k in opts.get("ignore_state", ()):
            continue
        a, b = s.state.get(k), r.state.get(k)
        if a is None or b is None:
            base = initial(k)
            a, b = a if a is not None else base, b if b is not None else base
        ok, why = eq_terms(a, b, same_assume)
        if not ok:
            diffs.append((f"final state {k}", simp(a), simp(b), why, same_assume))
    if opts.get("events", True):
        ok, why = eq_terms(s.events, r.events, same_assume)
        if not ok:
            diffs.append(("effects", simp(s.events), simp(r.events), why, same_assume))
    if not diffs:
        return Result("same")
    pc, pr = all_prims(s), all_prims(r)
    for what, a, b, why, assume in diffs if decide else ():
        w = decisive(a, b, assume)
        if w:
            res = Result("different", what, f"{w}\n  code:      {show(a)[:3000]}\n  reference: {show(b)[:3000]}")
            res.prims = (pc, pr)
            return res
    for what, a, b, why, assume in diffs if decide else ():
        lost = assigned(r) - assigned(s) if what == "effects" else set()
        if lost:
            res = Result("different", what, f"the attribute {', '.join(sorted(n + (': ' + w if w else '') for n, w in lost))} of an object is not assigned as defined\n  code:      {show(a)[:3000]}\n  reference: {show(b)[:3000]}")
            res.prims = (pc, pr)
            return res
    what, a, b, why, assume = diffs[0]
    extra = sorted(x for x in vocab(a) - vocab(b) if not well_understood(x))
    res = Result("undecided", what, f"not comparable ({', '.join(extra)}): {why}\n  code:      {show(a)[:3000]}\n  reference: {show(b)[:3000]}")
    res.prims = (pc, pr)
    return res


def initial(k: str) -> T:
    n, f = k.split(".", 1)
    if f in "GRC":
        return T(f, n)
    return T("attr", T("param", n), f)


class Timeout(Exception):
    pass


def limited(seconds: float, f):
    """f(), or None if it takes more processor time; the enclosing limit stays in force"""
    left, t0 = signal.getitimer(signal.ITIMER_PROF)[0], time.process_time()
    if not left or left <= seconds:
        return f()
    signal.setitimer(signal.ITIMER_PROF, seconds)
    try:
        return f()
    except Timeout:
        return None
    finally:
        signal.setitimer(signal.ITIMER_PROF, max(0.05, left - (time.process_time() - t0)))


ERRORS = (Opaque, RecursionError, tm.TooBig, KeyError, AttributeError, TypeError, IndexError, ValueError, AssertionError, NotImplementedError, MemoryError)


LEVEL_CAP = 60  # seconds for one way of unfolding


def one_level(prog, f, ref, kinds, opts, cls, unfold, level, analysed, refprims=None) -> Tuple[Result, int]:
    kw = dict(baseline=BASELINE, unfold=frozenset(unfold), unfold_all=(level == 1))
    try:
        s = summarise(prog, f, kinds, Prims(**kw), cls=cls)
        r = summarise(prog, ref, kinds, Prims(**kw), cls=cls, also=(f,))
    except ERRORS as e:
        if os.environ.get("SA_TRACE"):
            traceback.print_exc()
        return Result("undecided", "not summarised", f"{type(e).__name__}: {e}"), 0
    analysed |= s.interp.analysed
    if refprims is not None:
        for t in [r.value, r.events, *r.raises.values(), *r.state.values()]:
            refprims |= prims_in(t)
    try:
        res = compare(s, r, opts, False)
        if res.status == "undecided":
            res.decide = lambda: compare(s, r, opts, True)
        res.ops = operations(s), operations(r)
        return res, s.interp.call_sites
    except ERRORS as e:
        if os.environ.get("SA_TRACE"):
            traceback.print_exc()
        return Result("undecided", "comparison", f"{type(e).__name__}: {e}"), s.interp.call_sites


def defaults(f: Func) -> List[Tuple[str, Any]]:
    a = f.node.args
    ps = a.posonlyargs + a.args
    n = len(ps) - len(a.defaults)
    out = [(p.arg, a.defaults[i - n] if i >= n else None) for i, p in enumerate(ps)]
    return out + [(p.arg, d) for p, d in zip(a.kwonlyargs, a.kw_defaults)]


def literal(e):
    x = ast.literal_eval(e)
    return list(x) if isinstance(x, (tuple, list)) else x


def other_default(f: Func, ref: Func) -> Optional[str]:
    """a parameter whose default value is not the documented one"""
    code, spec = defaults(f), defaults(ref)
    names = dict(code)
    for i, (n, d) in enumerate(spec):
        if d is None:
            continue
        n, c = (n, names[n]) if n in names else code[i] if i < len(code) else (n, None)
        try:
            x, y = literal(c), literal(d)
        except (ValueError, TypeError, SyntaxError):
            continue
        if x != y and (x or y) or isinstance(x, bool) != isinstance(y, bool) and None not in (x, y):
            return f"parameter {n} defaults to {x!r} instead of {y!r}"
    return None


def check_entry(prog: Program, f: Func, ref: Func, kinds: Dict[str, str], opts: dict) -> Result:
    """Public functions are primitives first; where the two summaries use different primitives these are unfolded; and
    finally all of them are. Different only if the summaries differ when both use the same primitives (or none)."""
    analysed: set = set()
    cls = prog.cls(opts["cls"]) if "cls" in opts else f.cls
    unfold = {f.name, *opts.get("unfold", ())}
    sites = 0
    results: List[Result] = []
    refprims: set = set()

    def done(res: Result) -> Result:
        res.analysed, res.call_sites, res.refprims = analysed, sites, refprims
        return res

    bad = other_default(f, ref)
    if bad:
        analysed.add(f.qual)
        return done(Result("different", "default value", bad))
    def level(k: int) -> Tuple[Result, int]:
        r = limited(LEVEL_CAP, lambda: one_level(prog, f, ref, kinds, opts, cls, unfold, k, analysed, None if k else refprims))
        return r or (Result("undecided", "time limit", f"{LEVEL_CAP} s"), 0)

    def decided(res: Result) -> Result:
        g = getattr(res, "decide", None)
        if g is None:
            return res
        try:
            return limited(LEVEL_CAP, g) or res
        except ERRORS as e:
            return Result("undecided", "comparison", f"{type(e).__name__}: {e}")

    # equality first, at all levels: a difference found at one level of unfolding may vanish at another
    alike = False
    for rnd in range(4):
        res, n = level(0)
        sites += n
        results.append(res)
        if res.status == "same":
            return done(res)
        pc, pr = getattr(res, "prims", (set(), set()))
        if pc == pr:
            alike = True
            break
        unfold |= (pc ^ pr)
    last = results[-1]
    if opts.get("levels", (0, 1)) == (0,):
        last = decided(last) if alike else last
        return done(last if last.status == "different" else Result("undecided", results[0].what, results[0].detail))
    res, n = level(1)
    sites += n
    if res.status == "same":
        return done(res)
    if alike:
        last = decided(last)
        if last.status == "different":
            return done(last)
    res = decided(res)
    if res.status == "different":
        return done(res)
    results[0] = decided(results[0])
    # the summaries use different primitives and unfolding does not settle it; it is a difference if a primitive of the
    # reference is used nowhere and unfolding the code does not lead to the operations the primitive is made of
    pc, pr = getattr(results[0], "prims", (set(), set()))
    oc, orf = getattr(res, "ops", (frozenset(), frozenset()))
    if results[0].status == "different" and pr - pc and orf - oc:
        results[0].what += f" (not used: {', '.join(sorted(pr - pc))}; missing: {', '.join(sorted(orf - oc))})"
        return done(results[0])
    return done(Result("undecided", results[0].what, results[0].detail))
