"""Semantics of the operations the interpreter does not look into: Python collections, graph and role reads of a
(MA)CID, networkx/numpy/pgmpy calls and the public functions of the package (which have summaries of their own)."""
from __future__ import annotations

import ast
from dataclasses import replace
from typing import Any, Dict, List, Optional

from sa import terms as tm
from sa.interp import EVENTS, Exit, Fr, Interp, Opaque, St, concat, gen_term, instantiate, seq_term, untuple
from sa.loader import Cls, Func
from sa.terms import (
    AND, EQ, EXISTS, FALSE, ITE, LE, LT, NONE, NOT, OR, TRUE, T, TYPES, VAR_SRC, const, const_val, fresh, free_vars,
    is_const, is_formula, setc, simp, skey, subst,
)
from sa.values import *  # noqa


def IN(x, s):
    return tm.IN(x, s)


# functions that only look at the graph and at the roles of the nodes (never at CPDs)
STRUCTURAL = {
    "sufficient_recall", "requisite", "requisite_list", "is_active_path", "get_motif", "get_motifs", "find_active_path",
    "find_all_dir_paths", "find_all_undir_paths", "directed_decision_free_path", "is_active_indirect_frontdoor_trail",
    "is_active_backdoor_trail", "is_r_reachable", "is_s_reachable", "get_valid_order", "direct_effect", "manipulation",
    "signaling", "revealing_or_denying", "get_reasoning_patterns", "admits_voi", "admits_voc", "admits_ri", "admits_ici",
    "admits_dir_voc", "admits_indir_voc", "admits_voi_list", "admits_voc_list", "admits_ri_list", "admits_ici_list",
    "admits_dir_voc_list", "admits_indir_voc_list", "RelevanceGraph", "CondensedRelevanceGraph",
    "decs_in_each_maid_subgame", "get_sccs", "is_acyclic", "get_scc_topological_ordering", "get_decisions_in_scc",
}
BOOLEAN = {
    "sufficient_recall", "requisite", "is_active_path", "directed_decision_free_path", "is_s_reachable",
    "is_active_indirect_frontdoor_trail", "is_active_backdoor_trail", "is_r_reachable", "direct_effect", "manipulation",
    "signaling", "revealing_or_denying", "admits_voi", "admits_voc", "admits_ri", "admits_ici", "admits_dir_voc",
    "admits_indir_voc", "is_acyclic", "is_structural_causal_model",
}
# methods changing a model: which versions they replace
MUTATORS = {
    "impute_optimal_policy": "C", "impute_random_policy": "C", "impute_random_decision": "C",
    "impute_fully_mixed_policy_profile": "C", "impute_optimal_decision": "C", "impute_conditional_expectation_decision": "C",
    "remove_all_decision_rules": "C", "add_cpds": "C", "remove_cpds": "C", "make_decision": "R", "make_utility": "R",
    "make_chance": "R", "intervene": "GC", "remove_node": "GRC", "add_node": "G", "add_nodes_from": "G",
    "add_edges_from": "G", "remove_nodes_from": "GRC", "remove_edges_from": "G",
}
# methods of objects other than models that are primitives of the methods calling them
PURE_OBJ = {"parent_values", "possible_values", "stochastic_function", "compute_label", "check_function_arguments_match_parent_names"}
CHANGING_OBJ = {"sync_state_names"}
def _loop(call):
    """adding many things to a graph is adding them one by one"""
    f = ast.parse(f"for _x in _these:\n    _graph{call}").body[0]
    for n in ast.walk(f):
        if isinstance(n, ast.Name):
            n.id = "$" + n.id[1:]
    return f


ONE_BY_ONE = {"add_edges_from": _loop(".add_edge(*_x)"), "add_nodes_from": _loop(".add_node(_x)")}
FN_MUTATORS = {"add_random_cpds": "C", "_add_sufficient_recalls": "G"}  # functions changing the model they are given
COLL_OPS = {
    "nodes", "edges", "decs", "utils", "agents", "decsof", "utilsof", "parents", "children", "desc_of", "anc_of",
    "dirpaths", "undirpaths", "slice", "slicestep", "setc", "seq", "seqgen", "spread", "topo", "range", "dict", "activetrail",
    "subset_order", "nxanc", "utilmap", "decmap", "dagmap", "uagmap", "keys", "values", "items", "sorted", "zip",
    "permutations", "combinations", "product", "domainof", "reversed", "interior", "chainmap", "motifs", "neigh",
}
SETLIKE = {"setc", "decs", "utils", "agents", "desc_of", "nxanc", "keys"}
LISTLIKE = {"seq", "parents", "children", "decsof", "utilsof", "slice", "slicestep", "spread", "topo", "seqgen", "sorted", "motifs"}
PATH_OPS = {"dirpaths", "undirpaths"}
TYPE_OF_FIELD = {"agent_decisions": "dict", "agent_utilities": "dict", "decision_agent": "dict", "utility_agent": "dict",
                 "domain": "dict", "model": "dict"}
KNOWN_EXT_MUTATING = {"update", "append", "add", "extend", "remove", "pop", "clear", "setdefault", "discard", "insert",
                      "sort", "popitem", "difference_update", "intersection_update", "reverse", "normalize", "marginalize"}


def node_atom(G, x):
    while G.op in ("reqG", "delE", "delEs"):
        G = G.args[0]
    if G.op == "addE":
        return OR(node_atom(G.args[0], x), EQ(x, G.args[1]), EQ(x, G.args[2]))
    if G.op == "addEs":
        y, z = fresh(), fresh()
        e = G.args[1]
        return OR(
            node_atom(G.args[0], x),
            EXISTS([y, z], AND(IN(T("tuple", y, z), e), OR(EQ(x, y), EQ(x, z)))),
        )
    return T("pred", "node", G, x)


def re_pred(name, *args):
    if name == "node":
        return node_atom(*args)
    return T("pred", name, *args)


tm.SMART["pred"] = re_pred


def edge(G, u, v):
    if u is v:
        return FALSE
    if G.op == "addE":
        return OR(edge(G.args[0], u, v), AND(EQ(u, G.args[1]), EQ(v, G.args[2])))
    if G.op == "delE":
        return AND(edge(G.args[0], u, v), NOT(AND(EQ(u, G.args[1]), EQ(v, G.args[2]))))
    return T("edge", G, u, v)


def desc(G, y, x):
    """x is a strict descendant of y"""
    if x is y:
        return FALSE
    return T("desc", G, y, x)


def reach(G, s, e):
    return OR(EQ(s, e), desc(G, s, e))


tm.SMART["edge"] = edge
tm.SMART["desc"] = desc


def is_path_var(t):
    return t.op == "var" and VAR_SRC.get(t) is not None and VAR_SRC[t].op in PATH_OPS


def idx(p: T, i: T) -> T:
    """p[i]"""
    if is_path_var(p):
        s = VAR_SRC[p]
        if i is const(0):
            return s.args[1]
        if i is const(-1):
            return s.args[2]
    if p.op == "slice":
        base, lo, hi = p.args
        if i.op == "const" and isinstance(i.args[0], int) and i.args[0] >= 0 or i.op != "const":
            if lo is NONE:
                return idx(base, i)
            if lo.op == "const" and lo.args[0] >= 0:
                return idx(base, tm.add(i, lo))
        if i is const(-1) and hi is NONE:
            return idx(base, i)
    if p.op == "tuple" and i.op == "const" and isinstance(i.args[0], int) and -len(p.args) <= i.args[0] < len(p.args):
        return p.args[i.args[0]]
    if p.op == "tuple" and i.op == "ite":
        return ITE(i.args[0], idx(p, i.args[1]), idx(p, i.args[2]))
    if p.op == "seq" and i.op == "const" and isinstance(i.args[0], int) and all(
        a.op == "seqgen" and a.args[0] == 0 and a.args[1] is TRUE for a in p.args
    ):
        if -len(p.args) <= i.args[0] < len(p.args):
            return p.args[i.args[0]].args[2]
    # negative indices relative to the length
    if i.op == "lin":
        c, parts = tm.lin_parts(i)
        if list(parts.items()) == [(T("len", p), 1)] and c < 0:
            return idx(p, const(c))
    if p.op == "dirpaths" and p.args:
        pass
    return T("idx", p, i)


tm.SMART["idx"] = idx


def length(t: T) -> T:
    if t.op == "tuple":
        return const(len(t.args))
    if t.op == "slice":
        base, lo, hi = t.args
        n = T("len", base)
        a = const(0) if lo is NONE else lo
        if hi is NONE:
            return tm.add(n, a, -1)
        if hi.op == "const" and hi.args[0] < 0:
            return tm.add(tm.add(n, hi), a, -1)
    if t.op == "seq" and all(a.op == "seqgen" and a.args[0] == 0 and a.args[1] is TRUE for a in t.args):
        return const(len(t.args))
    if t.op == "parents":
        return T("len", t)
    return T("len", t)


def _eq_hook(a: T) -> T:
    return a


def in_hook(x: T, s: T) -> Optional[T]:
    op = s.op
    if op == "nodes":
        return node_atom(s.args[0], x)
    if op == "parents":
        return edge(s.args[0], x, s.args[1])
    if op == "children":
        return edge(s.args[0], s.args[1], x)
    if op == "desc_of":
        return desc(s.args[0], s.args[1], x)
    if op == "nxanc":
        return desc(s.args[0], x, s.args[1])
    if op == "anc_of":
        return reach(s.args[0], x, s.args[1])
    if op == "decs" or op == "dagmap":
        return T("isdec", s.args[0], x)
    if op == "utils" or op == "uagmap":
        return T("isutil", s.args[0], x)
    if op == "agents" or op == "utilmap":
        return T("pred", "agent", s.args[0], x)
    if op == "decmap":
        return T("pred", "decagent", s.args[0], x)
    if op == "decsof":
        return AND(T("isdec", s.args[0], x), EQ(T("dagent", s.args[0], x), s.args[1]))
    if op == "utilsof":
        return AND(T("isutil", s.args[0], x), EQ(T("uagent", s.args[0], x), s.args[1]))
    if op == "edges" and x.op == "tuple" and len(x.args) == 2:
        return edge(s.args[0], *x.args)
    if op == "activetrail":
        return T("pred", "dconn", s.args[0], s.args[1], x, s.args[2])
    if op == "call" and s.args[0] is T("fn", "requisite_list") and len(s.args) == 3 and s.args[1].op == "struct":
        return AND(edge(s.args[1].args[0], x, s.args[2]), T("pred", "call:requisite", s.args[1], s.args[2], x))
    if op == "topo":
        return node_atom(s.args[0], x)
    if op == "subset_order":
        return IN(x, s.args[1])
    if op in ("sorted", "reversed", "keys", "spread"):
        return IN(x, s.args[0])
    if op == "range":
        return AND(LE(s.args[0], x), LT(x, s.args[1]))
    if op == "slice":
        i = fresh(T("range", const(0), length(s)))
        return EXISTS([i], AND(LE(const(0), i), LT(i, length(s)), EQ(x, idx(s, i))))
    if op == "dict":
        out = []
        for g in s.args:
            if g.op == "tuple":
                out.append(EQ(x, g.args[0]))
            elif g.op in ("seqgen", "ugen"):
                n = g.args[0]
                vs = g.args[1 : 1 + n]
                m = {v: fresh(VAR_SRC.get(v)) for v in vs}
                e = subst(g.args[2 + n], m)
                src = []
                if g.op == "seqgen":
                    src = [IN(m[v], subst(q, m)) for v, q in zip(vs, g.args[3 + n :])]
                out.append(EXISTS(m.values(), AND(*src, subst(g.args[1 + n], m), EQ(x, e.args[0]))))
            else:
                return None
        return OR(*out)
    return None


tm.IN_HOOKS.append(in_hook)


# ---------------------------------------------------------------- existential simplifications over paths


CPD_CLASSES = ("DecisionDomain", "StochasticFunctionCPD", "ConstantCPD", "TabularCPD")  # their instances are true


def cube_hook(vs, cube):
    for p, a in cube:
        if p and a.op == "isinst" and a.args[1] in CPD_CLASSES:
            for q, b in cube:
                if b.op == "truthy" and b.args[0] is a.args[0]:
                    return EXISTS(vs, AND(*[c if r else NOT(c) for r, c in cube if c is not b])) if q else FALSE
    for p, a in cube:
        if not p or a.op != "in":
            continue
        v, s = a.args
        if v not in vs:
            continue
        rest = [(q, b) for q, b in cube if b is not a]
        if s.op == "dirpaths":
            uses = [(q, b) for q, b in rest if v in free_vars(b)]
            if not uses:
                return AND(EXISTS(vs, AND(*[b if q else NOT(b) for q, b in rest], reach(s.args[0], s.args[1], s.args[2]))))
            if len(uses) == 1 and uses[0][0] and uses[0][1].op == "in" and uses[0][1].args[1] is v and v not in free_vars(uses[0][1].args[0]):
                x = uses[0][1].args[0]
                others = [b if q else NOT(b) for q, b in rest if b is not uses[0][1]]
                return EXISTS(vs, AND(*others, reach(s.args[0], s.args[1], x), reach(s.args[0], x, s.args[2])))
    # a range-index variable only used to index one sequence over its whole length is an element of it
    for p, a in cube:
        if p and a.op == "lt":
            pass
    # singleton sources
    return None


tm.CUBE_HOOKS.append(cube_hook)


def theory(a: T, b: T):
    out = []
    for x, y, sw in ((a, b, False), (b, a, True)):
        f = (lambda p, q: (q, p)) if sw else (lambda p, q: (p, q))
        if x.op == "edge" and y.op == "desc" and x.args == y.args:
            out.append(f(True, False))
        if x.op in ("isdec", "isutil") and y.op == "pred" and y.args[0] == "node" and y.args[2] is x.args[1]:
            out.append(f(True, False))
        if x.op == "edge" and y.op == "pred" and y.args[0] == "node" and y.args[1] is x.args[0] and y.args[2] in x.args[1:]:
            out.append(f(True, False))
        if x.op == "desc" and y.op == "pred" and y.args[0] == "node" and y.args[1] is x.args[0] and y.args[2] in x.args[1:]:
            out.append(f(True, False))
        if x.op == "isdec" and y.op == "isutil" and x.args == y.args:
            out.append((True, True))
        if x.op == "desc" and y.op in ("desc", "edge") and x.args[0] is y.args[0] and x.args[1] is y.args[2] and x.args[2] is y.args[1]:
            out.append((True, True))
        if x.op == "edge" and y.op == "edge" and not sw and x.args[0] is y.args[0] and x.args[1] is y.args[2] and x.args[2] is y.args[1]:
            out.append((True, True))
        if x.op == "eq" and y.op == "eq" and not sw:
            # the same term equal to two different constants
            for u, c in ((x.args[0], x.args[1]), (x.args[1], x.args[0])):
                for w, d in ((y.args[0], y.args[1]), (y.args[1], y.args[0])):
                    if u is w and is_const(c) and is_const(d) and c is not d:
                        out.append((True, True))
        if x.op == "eq" and y.op == "desc":
            if set(x.args) == set(y.args[1:]):
                out.append(f(True, True))
        if x.op == "lt" and y.op == "lt" and not sw:
            d = tm.add(x.args[0], y.args[0], -1)
            if d.op == "const":  # x = y + d ; x<0 and y<0
                if d.args[0] >= 0:
                    out.append((True, False))  # x<0 -> y<0
                if d.args[0] <= 0:
                    out.append((False, True))
        if x.op == "eq" and y.op == "truthy" and NONE in x.args and y.args[0] in x.args:
            out.append(f(True, True))
        if x.op == "isinst" and y.op == "eq" and NONE in y.args and x.args[0] in y.args:
            out.append(f(True, True))
        if x.op == "isinst" and x.args[1] in CPD_CLASSES and y.op == "truthy" and x.args[0] is y.args[0]:
            out.append(f(True, False))
    return out


tm.THEORY_HOOKS.append(theory)
tm.FORMULA_OPS.update({"isinst", "isnone"})


def versions(t: T, depth: int = 8) -> set:
    """a value and the earlier values it is an update of"""
    out = {t}
    while t.op == "upd":
        t = t.args[0]
        out.add(t)
    if depth and t.op in ("ite", "cases"):
        for x in t.args[1:] if t.op == "ite" else t.args[1::2]:
            out |= versions(x, depth - 1)
    return out


class Prims:
    def __init__(self, unfold: frozenset = frozenset(), baseline: Optional[set] = None, unfold_all: bool = False):
        self.unfold = unfold
        self.unfold_all = unfold_all
        self.baseline = baseline  # names of public functions that are primitives

    def bind(self, interp: Interp):
        self.I = interp

    # ------------------------------------------------------------ predicates on terms

    def IN_(self, x, s):
        return IN(x, s)

    def is_collection(self, t):
        if t.op in COLL_OPS:
            return True
        if t.op == "ite":
            return self.is_collection(t.args[1]) or self.is_collection(t.args[2])
        if is_path_var(t):
            return True
        return TYPES.get(t, "").lstrip("opt") in ("coll", "seq", "dict", "set")

    def is_setlike(self, t):
        return t.op in SETLIKE or TYPES.get(t, "") in ("set", "optset")

    def is_listlike(self, t):
        return t.op in LISTLIKE or TYPES.get(t, "") in ("seq", "optseq") or is_path_var(t)

    def is_ignorable(self, t):
        return t.op == "call" and t.args and isinstance(t.args[0], T) and t.args[0].op == "ext" and t.args[0].args[0].split(".")[-1] in (
            "print", "warn", "check_model",
        )

    def is_ignorable_ctx(self, t):
        return "errstate" in skey(t)

    def is_none(self, a, b):
        if a.op in ("setc", "seq", "tuple", "lam", "new", "model", "dict", "concat", "lin") and b is NONE:
            return FALSE
        return EQ(a, b)

    def inst_term(self, v, c, st):
        if isinstance(c, InstCell):
            if c.tag.startswith("obj:"):
                return T("param", c.tag[4:])
            return T("inst", c.cls.name if c.cls else "?", *[T("field", k, self.I.term(x, st)) for k, x in c.fields])
        raise Opaque("cell")

    def unset_field(self, c):
        """the value of a field of an instance that has not been assigned"""
        if isinstance(c, InstCell) and c.tag.startswith("obj:"):
            return lambda k: NONE if k == "$v" else self.typed_attr(T("param", c.tag[4:]), k)
        return lambda k: T("unset", k)

    def typed_attr(self, base, attr):
        t = T("attr", base, attr)
        if attr in TYPE_OF_FIELD:
            TYPES.setdefault(t, TYPE_OF_FIELD[attr])
        return t

    def merge_terms(self, c, a, b):
        # an optional container that is None is an empty container
        for x, y, cond in ((a, b, c), (b, a, NOT(c))):
            if x.op == "seq" and not x.args and TYPES.get(y, "").startswith("opt"):
                if cond is EQ(y, NONE):
                    return y
        return None

    # ------------------------------------------------------------ iteration

    def iter_hook(self, t, st):
        if t.op == "edges":
            u, v = fresh(), fresh()
            return [Gen(((u, None), (v, None)), edge(t.args[0], u, v), Tup((u, v)))]
        if t.op in ("items",):
            m = t.args[0]
            k = fresh(m)
            return [Gen(((k, m),), TRUE, Tup((k, self.map_get(m, k))))]
        if t.op == "values":
            m = t.args[0]
            k = fresh(m)
            return [Gen(((k, m),), TRUE, self.map_get(m, k))]
        if t.op == "slice":
            src = T("range", const(0), length(t))
            i = fresh(src)
            return [Gen(((i, src),), TRUE, idx(t, i))]
        if t.op == "keys":
            k = fresh(t.args[0])
            return [Gen(((k, t.args[0]),), TRUE, k)]
        if t.op == "dict":
            out = []
            for g in t.args:
                out += [Gen(h.binders, h.guard, h.elem.items[0] if isinstance(h.elem, Tup) else T("idx", h.elem, const(0))) for h in (self.I.iter_term(g, st) if g.op != "tuple" else [Gen((), TRUE, untuple(g))])]
            return out
        if t.op == "concat" or (t.op == "const"):
            return None
        return None

    def map_get(self, m: T, k: T) -> T:
        if m.op == "dagmap":
            return T("dagent", m.args[0], k)
        if m.op == "uagmap":
            return T("uagent", m.args[0], k)
        if m.op == "decmap":
            return T("decsof", m.args[0], k)
        if m.op == "utilmap":
            return T("utilsof", m.args[0], k)
        if m.op == "activetrailmap":
            return T("activetrail", m.args[0], k, m.args[2])
        if m.op == "domainmap":
            return T("domainof", m.args[0], k)
        if m.op == "dict":
            if len(m.args) == 1 and m.args[0].op in ("seqgen", "ugen") and m.args[0].args[0] == 1:
                g = m.args[0]
                v, e = g.args[1], g.args[3]
                if e.op == "tuple" and e.args[0] is v:
                    return subst(e.args[1], {v: k})
            for g in reversed(m.args):
                if g.op == "tuple" and g.args[0] is k:
                    return g.args[1]
                if g.op == "tuple" and is_const(g.args[0]) and is_const(k):
                    continue
                break
        return T("idx", m, k)

    # ------------------------------------------------------------ attributes

    def getattr(self, v, attr, st, fr):
        I = self.I
        if isinstance(v, ModVal):
            r = I.prog.resolve(v.module, attr)
            return I.wrap_global(r, v.module) if r is not None else Ext(f"{v.module.name}.{attr}")
        if isinstance(v, Ext):
            return Ext(f"{v.name}.{attr}")
        if isinstance(v, ClsVal):
            i = v.cls.lookup_inner(attr)
            if i is not None:
                return ClsVal(i)
            f = v.cls.lookup(attr)
            if isinstance(f, Func):
                return FnVal(f, f.node, None, None, f.module, f.cls, f.name)
            return Ext(f"{v.cls.name}.{attr}")
        if isinstance(v, Super):
            return Bound(v.self_val, attr, v.cls)
        c = I.cell(v, st)
        if isinstance(c, Coll):
            return Bound(v, attr)
        if isinstance(c, ModelCell):
            return self.model_attr(v, c, attr, st, fr)
        if isinstance(c, InstCell):
            return self.inst_attr(v, c, attr, st, fr)
        if isinstance(v, Bound) and v.name == "domain" and isinstance(v.recv, T) and v.recv.op == "cpdmodel":
            t = I.term(v, st)
            TYPES[t] = "dict"
            return Bound(t, attr)
        if isinstance(v, (Bound, FnVal, Partial)):
            return T("attr", I.term(v, st), attr)
        t = I.term(v, st)
        return Bound(t, attr)

    def model_attr(self, v, c: ModelCell, attr, st, fr):
        simple = {
            "decisions": T("decs", c.R), "utilities": T("utils", c.R), "agents": T("agents", c.R),
            "decision_agent": T("dagmap", c.R), "utility_agent": T("uagmap", c.R),
            "agent_decisions": T("decmap", c.R), "agent_utilities": T("utilmap", c.R),
        }
        for k, x in c.fields:
            if k == attr:
                return x
        if attr in simple:
            return simple[attr]
        if attr == "nodes":
            return T("nodes", c.G)
        if attr == "edges":
            return T("edges", c.G)
        if attr == "model":
            return T("cpdmodel", c.G, c.R, c.C)
        return Bound(v, attr)

    def inst_attr(self, v, c: InstCell, attr, st, fr):
        I = self.I
        fs = dict(c.fields)
        if attr in fs:
            return fs[attr]
        if c.cls is not None:
            f = c.cls.lookup(attr)
            if isinstance(f, Func):
                if any(d == "property" for d in f.decorators):
                    return I.inline(FnVal(f, f.node, None, v, f.module, f.cls, f.name), [], {}, st, fr)
                return Bound(v, attr)
            if attr in TYPE_OF_FIELD or attr in self.known_fields(c.cls):
                return self.obj_attr(v, c, attr, st)
        return Bound(v, attr)

    def known_fields(self, cls) -> set:
        out = set()
        for k in cls.mro():
            if isinstance(k, Cls):
                for f in k.methods.values():
                    for n in ast.walk(f.node):
                        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == "self":
                            out.add(n.attr)
        return out

    def fields_read(self, cls, name) -> set:
        """attributes of the receiver that a method and the methods it calls on its receiver look at"""
        out, todo, seen = set(), [name], set()
        while todo:
            f = cls.lookup(todo.pop())
            if not isinstance(f, Func) or f in seen:
                continue
            seen.add(f)
            me = f.node.args.args[0].arg if f.node.args.args else "self"
            for n in ast.walk(f.node):
                if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == me:
                    out.add(n.attr)
                    todo.append(n.attr)
        return out

    def obj_attr(self, v, c, attr, st):
        ver = dict(c.fields).get("$v")
        t = T("attr", self.I.term(v, st), attr)
        if attr in TYPE_OF_FIELD:
            TYPES.setdefault(t, TYPE_OF_FIELD[attr])
        return t

    def setattr(self, base, attr, v, st, fr):
        c = self.I.cell(base, st)
        if isinstance(c, (InstCell, ModelCell)):
            fs = dict(c.fields)
            fs[attr] = v
            c = replace(c, fields=tuple(fs.items()))
            if isinstance(c, ModelCell) and attr in ("agent_decisions", "agent_utilities", "decision_agent", "utility_agent"):
                c = replace(c, R=T("setR", c.R, attr, self.I.term(v, st)))
            st.heap[base.id] = c
            return
        t = self.I.term(base, st)
        self.I.event(st, T("setattr", t, attr, self.I.term(v, st)))

    def setitem(self, base, k, v, st, fr):
        I = self.I
        c = I.cell(base, st)
        if isinstance(c, Coll):
            if c.kind == "dict":
                st.heap[base.id] = Coll("dict", c.gens + (Gen((), TRUE, Tup((I_term_opt(I, k, st), I._stable(v, st) if not isinstance(v, Ref) else v))),))
                return
            raise Opaque("list item assignment")
        if isinstance(c, ModelCell):
            raise Opaque("model item assignment")
        if isinstance(c, InstCell) and c.cls is not None and isinstance(c.cls.lookup("__setitem__"), Func):
            self.inst_method(base, c, "__setitem__", [k, v], {}, st, fr, None)
            return
        t = I.term(base, st)
        if t.op == "cpdmodel":
            self.bump_model_C(t, st, T("setcpd", t.args[2], I.term(k, st), I.term(v, st)))
            return
        self.update_loc(base, t, "setitem", [k, v], st)

    def delitem(self, base, k, st, fr):
        I = self.I
        c = I.cell(base, st)
        if isinstance(c, InstCell) and c.cls is not None and isinstance(c.cls.lookup("__delitem__"), Func):
            f = c.cls.lookup("__delitem__")
            I.inline(FnVal(f, f.node, None, base, f.module, f.cls, f.name), [k], {}, st, fr)
            return
        t = I.term(base, st)
        if t.op == "cpdmodel":
            self.bump_model_C(t, st, T("delcpd", t.args[2], I.term(k, st)))
            return
        self.update_loc(base, t, "delitem", [k], st)

    def bump_model_C(self, t, st, newC):
        for i, c in st.heap.items():
            if isinstance(c, ModelCell) and (c.G, c.R, c.C) == t.args:
                st.heap[i] = replace(c, C=newC)
                return
        self.I.event(st, T("do", newC))

    def root_of(self, t: T):
        path = []
        while t.op in ("idx", "upd") or (t.op == "attr" and not (t.args[0].op == "param")):
            if t.op == "upd":
                t = t.args[0]
                continue
            path.append(t.args[1] if isinstance(t.args[1], T) else const(t.args[1]))
            t = t.args[0]
        return t, path

    def update_loc(self, base, t: T, op, args, st):
        """functional update of the abstract location a value was read from"""
        I = self.I
        at = [I.term(a, st) for a in args]
        if op == "pop" and len(at) == 1:
            op = "delitem"
        for i, c in st.heap.items():
            if not (isinstance(c, InstCell) and c.tag.startswith("obj:")):
                continue
            fs = dict(c.fields)
            for k in [*fs, *(x for x in TYPE_OF_FIELD if x not in fs)]:
                old = fs[k] if k in fs else self.unset_field(c)(k)
                if not isinstance(old, T) or k == "$v":
                    continue
                path = self.path_from(t, versions(old))
                if path is not None:
                    fs[k] = T("upd", old, op, T("path", *path), *at)
                    if old in TYPES:
                        TYPES[fs[k]] = TYPES[old]
                    st.heap[i] = replace(c, fields=tuple(fs.items()))
                    return
        x = t
        while x.op in ("idx", "getitem") and isinstance(x.args[0], T):
            x = x.args[0]
        if x is not t and x.op in ("accd", "accc", "dict", "seq", "foldout", "ite", "changed"):
            raise Opaque("an element of a local collection is changed")
        I.event(st, T("mut", op, t, *at))

    def path_from(self, t: T, roots):
        path = []
        while True:
            if t in roots:
                return tuple(reversed(path))
            if t.op in ("idx", "attr", "bound", "getitem") and len(t.args) == 2:
                path.append(t.args[1] if isinstance(t.args[1], T) else const(t.args[1]))
                t = t.args[0]
            else:
                return None

    # ------------------------------------------------------------ subscripts

    def subscript(self, v, k, st, fr):
        I = self.I
        if isinstance(v, Tup):
            if isinstance(k, T) and k.op == "const" and isinstance(k.args[0], int) and -len(v.items) <= k.args[0] < len(v.items):
                return v.items[k.args[0]]
        c = I.cell(v, st)
        kt = I.term(k, st)
        if isinstance(c, Coll):
            if c.kind == "dict":
                for g in reversed(c.gens):
                    if not isinstance(g, Gen) or g.binders or g.guard is not TRUE:
                        break
                    if isinstance(kv(g.elem)[0], T) and kv(g.elem)[0] is kt:
                        return kv(g.elem)[1]
                    if not (isinstance(kv(g.elem)[0], T) and is_const(kv(g.elem)[0]) and is_const(kt)):
                        break
            elif kt.op == "const" and isinstance(kt.args[0], int) and all(isinstance(g, Gen) and not g.binders and g.guard is TRUE for g in c.gens) and -len(c.gens) <= kt.args[0] < len(c.gens):
                return c.gens[kt.args[0]].elem
        if isinstance(c, InstCell) and c.cls is not None and isinstance(c.cls.lookup("__getitem__"), Func):
            f = c.cls.lookup("__getitem__")
            return I.inline(FnVal(f, f.node, None, v, f.module, f.cls, f.name), [k], {}, st, fr)
        t = I.term(v, st)
        if "KeyError" in fr.catching and (t.op in ("dagmap", "uagmap", "decmap", "utilmap", "domainmap") or TYPES.get(t) == "dict" or (t.op == "bound" and t.args[0].op == "cpdmodel" and t.args[1] == "domain")):
            bad = NOT(I.contains(kt, t, st))
            self.raise_if(bad, "KeyError", st, fr)
        if t.op in ("dagmap", "uagmap", "decmap", "utilmap", "activetrailmap", "dict", "domainmap"):
            return untuple(self.map_get(t, kt))
        if t.op == "ite":
            return ITE(t.args[0], I.term(self.subscript(t.args[1], k, st, fr), st), I.term(self.subscript(t.args[2], k, st, fr), st))
        return untuple(idx(t, kt))

    def raise_if(self, bad, name, st, fr):
        if bad is FALSE:
            return
        fr.exits.append(Exit("raise", AND(st.pc, bad), name, st.fork(bad)))
        st.pc = AND(st.pc, NOT(bad))

    def subscript_slice(self, v, lo, hi, st, fr):
        I = self.I
        if isinstance(lo, int):
            lo = const(lo)
        t = I.term(v, st)
        if lo is const(0):
            lo = None
        if isinstance(v, Tup) and (lo is None or lo.op == "const") and (hi is None or hi.op == "const"):
            return Tup(v.items[(lo.args[0] if lo else None) : (hi.args[0] if hi else None)])
        if TYPES.get(t) == "str":
            return T("strslice", t, lo if lo is not None else NONE, hi if hi is not None else NONE)
        if lo is None and hi is None:
            return t
        # normalise x[a:][b:]
        lo2 = lo if lo is not None else NONE
        hi2 = hi if hi is not None else NONE
        n = T("len", t)
        if hi2 is not NONE and hi2.op == "lin":
            cst, parts = tm.lin_parts(hi2)
            if list(parts.items()) == [(n, 1)] and cst < 0:
                hi2 = const(cst)
        return T("slice", t, lo2, hi2)

    def reverse(self, v, st):
        return T("reversed", self.I.term(v, st))

    # ------------------------------------------------------------ sets

    def set_op(self, name, a, others, st):
        I = self.I
        x = fresh()
        ca = I.contains(x, a, st)
        if name in ("union", "update"):
            f = OR(ca, *[I.contains(x, o, st) for o in others])
        elif name in ("intersection", "intersection_update"):
            f = AND(ca, *[I.contains(x, o, st) for o in others])
        elif name in ("difference", "difference_update"):
            f = AND(ca, *[NOT(I.contains(x, o, st)) for o in others])
        elif name == "symmetric_difference":
            cb = I.contains(x, others[0], st)
            f = OR(AND(ca, NOT(cb)), AND(cb, NOT(ca)))
        else:
            raise Opaque(name)
        return setc(x, f)

    def subset(self, a, b, st):
        I = self.I
        x = fresh()
        return NOT(EXISTS([x], AND(I.contains(x, a, st), NOT(I.contains(x, b, st)))))

    def disjoint(self, a, b, st):
        I = self.I
        x = fresh()
        return NOT(EXISTS([x], AND(I.contains(x, a, st), I.contains(x, b, st))))

    def dict_gens(self, d, st):
        I = self.I
        c = I.cell(d, st)
        if isinstance(c, Coll) and c.kind == "dict":
            return list(c.gens)
        t = I.term(d, st)
        return self.I.iterate(T("items", t), st)

    def coll_method(self, ref, name, args, kwargs, st, fr):
        I = self.I
        c: Coll = st.heap[ref.id]

        def put(gens, kind=None):
            st.heap[ref.id] = Coll(kind or c.kind, tuple(gens))
            return NONE

        if name in ("append", "add"):
            return put(c.gens + (Gen((), TRUE, args[0]),))
        if name == "extend" or (name == "update" and c.kind != "dict"):
            gs = []
            for a in args:
                if isinstance(a, Bound) and a.name == "*star":
                    # union of the members of a collection of collections
                    for g in I.iterate(a.recv, st):
                        for h in I.iterate(g.elem, st):
                            gs.append(Gen(g.binders + h.binders, AND(g.guard, h.guard), h.elem))
                    continue
                gs += I.iterate(a, st)
            return put(c.gens + tuple(gs))
        if name == "update":
            gs = []
            for a in args:
                gs += self.dict_gens(a, st)
            for k, v in kwargs.items():
                if k == "**":
                    gs += self.dict_gens(v, st)
                else:
                    gs.append(Gen((), TRUE, Tup((const(k), v))))
            return put(c.gens + tuple(gs))
        if name in ("remove", "discard"):
            out = []
            x = args[0]
            for g in c.gens:
                if isinstance(g, AccMark):
                    return put(I.iter_opaque(T("without", I.term(ref, st), I.term(x, st))))
                out.append(Gen(g.binders, AND(g.guard, NOT(I.equal(g.elem, x, st))), g.elem))
            return put(out)
        if name == "clear":
            return put(())
        if name == "copy":
            return I.coll(st, c.kind, c.gens)
        if name in ("difference_update", "intersection_update"):
            out = []
            for g in c.gens:
                if isinstance(g, AccMark):
                    raise Opaque("accumulator filtered")
                for a in args:
                    m = I.contains(g.elem, a, st)
                    g = Gen(g.binders, AND(g.guard, NOT(m) if name.startswith("diff") else m), g.elem)
                out.append(g)
            return put(out)
        if name in ("union", "intersection", "difference", "symmetric_difference"):
            return self.set_method(ref, name, args, st)
        if name == "issubset":
            return self.subset(ref, args[0], st)
        if name == "issuperset":
            return self.subset(args[0], ref, st)
        if name == "isdisjoint":
            return self.disjoint(ref, args[0], st)
        if name == "keys":
            return I.coll(st, "set" if c.kind == "dict" else c.kind, [Gen(g.binders, g.guard, kv(g.elem)[0]) for g in c.gens if isinstance(g, Gen)])
        if name == "values":
            return I.coll(st, "list", [Gen(g.binders, g.guard, kv(g.elem)[1]) for g in c.gens])
        if name == "items":
            return I.coll(st, "list", c.gens)
        if name == "index":
            t = I.term(ref, st)
            return T("indexof", t, I.term(args[0], st))
        if name == "count":
            return T("count", I.term(ref, st), I.term(args[0], st))
        if name == "get" and c.kind == "dict":
            t = I.term(ref, st)
            return T("getitem", t, *[I.term(a, st) for a in args])
        if name == "pop" and c.kind != "set":
            old = I.term(ref, st)
            at = [I.term(a, st) for a in args]
            x = fresh()
            src = T("popped", old, *at)
            put((Gen(((x, src),), TRUE, x),))
            return T("popvalue", old, *at)
        if name == "setdefault":
            k = I.term(args[0], st)
            v = T("getitem", I.term(ref, st), k, I.term(args[1], st) if len(args) > 1 else NONE)
            self.setitem(ref, k, v, st, fr)
            return v
        if name == "sort":
            t = T("sorted", I.term(ref, st), *[I.term(v, st) for v in kwargs.values()])
            return put(I.iter_opaque(t))
        if name == "reverse":
            t = T("reversed", I.term(ref, st))
            return put(I.iter_opaque(t))
        raise Opaque(f"collection method {name}")

    def set_method(self, recv, name, args, st):
        flat = []
        for a in args:
            if isinstance(a, Bound) and a.name == "*star":
                if name != "union":
                    raise Opaque("star set op")
                gs = []
                for g in self.I.iterate(a.recv, st):
                    for h in self.I.iterate(g.elem, st):
                        gs.append(Gen(g.binders + h.binders, AND(g.guard, h.guard), h.elem))
                flat.append(self.I.coll(st, "set", gs))
            else:
                flat.append(a)
        return self.set_op(name, recv, flat, st)

    # ------------------------------------------------------------ calls

    def arg_terms(self, args, kwargs, st):
        I = self.I
        out = []
        for a in args:
            if isinstance(a, Bound) and a.name == "*star":
                out.append(T("star", I.term(a.recv, st)))
            else:
                out.append(self.arg_term(a, st))
        for k in sorted(kwargs):
            out.append(T("kw", k, self.arg_term(kwargs[k], st)))
        return out

    def arg_term(self, a, st):
        c = self.I.cell(a, st)
        return self.I.term(a, st)

    def call(self, fv, args, kwargs, st, fr):
        if isinstance(fv, Ext):
            return self.ext_call(fv.name, args, kwargs, st, fr)
        if isinstance(fv, ClsVal):
            return self.construct(fv.cls, args, kwargs, st, fr)
        return self.method(fv, args, kwargs, st, fr)

    # -- construction

    def construct(self, cls: Cls, args, kwargs, st, fr):
        I = self.I
        if cls.name == "MechanismGraph" and args:
            c = I.cell(args[0], st)
            if isinstance(c, ModelCell):
                return I.new(st, ModelCell(cls, T("mech", c.G), c.R, T("nocpds")))
        at = self.sig_terms(cls.lookup("__init__"), args, kwargs, st, skip_self=True, fr=fr)
        if cls.is_sub("CausalBayesianNetwork"):
            e = T("newgraph", *at)
            if len(at) >= 1:
                e = T("newgraph", at[0])
            return I.new(st, ModelCell(cls, e, T("newroles", cls.name, *at[1:]), T("nocpds")))
        return T("new", cls.name, *at)

    def sig_terms(self, f, args, kwargs, st, skip_self, fr):
        """argument terms in the order of the signature, with defaults filled in"""
        I = self.I
        if not isinstance(f, Func):
            return self.arg_terms(args, kwargs, st)
        a = f.node.args
        params = [x.arg for x in a.posonlyargs + a.args]
        if skip_self:
            params = params[1:]
        if any(isinstance(x, Bound) and x.name == "*star" for x in args) or "**" in kwargs or a.vararg:
            return self.arg_terms(args, kwargs, st)
        env = dict(zip(params, args))
        extra = {}
        for k, v in kwargs.items():
            if k in params or k in [x.arg for x in a.kwonlyargs]:
                env[k] = v
            else:
                extra[k] = v
        defaults = dict(zip(reversed([x.arg for x in a.args]), reversed(a.defaults)))
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                defaults[x.arg] = d
        out = []
        for p in params + [x.arg for x in a.kwonlyargs]:
            if p in env:
                out.append(self.arg_term(env[p], st))
            elif p in defaults:
                out.append(T("default", p) if not isinstance(defaults[p], (ast.Constant, ast.UnaryOp)) else self.dflt(defaults[p]))
            else:
                raise Opaque(f"missing argument {p}")
        for k in sorted(extra):
            out.append(T("kw", k, self.arg_term(extra[k], st)))
        return out

    def dflt(self, d):
        try:
            return const(ast.literal_eval(d))
        except Exception:
            return T("default", ast.unparse(d))

    # -- functions of the package

    def is_prim(self, f: Func) -> bool:
        if self.unfold_all:
            return False
        return self.baseline is not None and f.name in self.baseline and f.name not in self.unfold

    def prim_call(self, fv: FnVal, args, kwargs, st, fr):
        f = fv.func
        if any(d.split("(")[0].split(".")[-1] in ("lru_cache", "cache") for d in f.decorators):
            pass
        if f.name in ("find_all_dir_paths", "find_all_undir_paths", "is_dconnected") or self.is_prim(f):
            return self.prim(f, fv.self_val, args, kwargs, st, fr)
        return None

    def prim(self, f: Func, self_val, args, kwargs, st, fr):
        I = self.I
        if self_val is not None:
            args = [self_val] + list(args)
        a = f.node.args
        name = f.name
        # models among the arguments
        at = []
        raw = self.bind_sig(f, args, kwargs, st, fr)
        models = [v for v in raw if isinstance(I.cell(v, st), ModelCell)]
        for v in raw:
            c = I.cell(v, st)
            if isinstance(c, ModelCell):
                at.append(T("struct", c.G, c.R) if name in STRUCTURAL else T("model", c.G, c.R, c.C))
            else:
                at.append(self.set_arg(name, v, st))
        if name in ("find_all_dir_paths", "find_all_undir_paths") and models:
            G = I.cell(models[0], st).G
            for x in at[1:3]:
                if x.op == "param":
                    self.raise_if(AND(NOT(self.known_node(G, x, st))), "KeyError", st, fr)
            return T("dirpaths" if "all_dir" in name else "undirpaths", G, at[1], at[2])
        if name == "requisite_graph" and models:
            c = I.cell(models[0], st)
            return I.new(st, ModelCell(c.cls, T("reqG", c.G, c.R), c.R, c.C))
        if name == "get_motif" and models and f.cls is None:
            return T("motif", I.cell(models[0], st).G, at[1], at[2])
        if name == "get_motifs" and models and f.cls is None:
            return T("motifs", I.cell(models[0], st).G, at[1])
        if name in BOOLEAN:
            return T("pred", "call:" + name, *at)
        if name in FN_MUTATORS and models and f.cls is None:
            ref = models[0]
            c = I.cell(ref, st)
            new = T("after", T("op", name, *at[1:]), T("model", c.G, c.R, c.C))
            st.heap[ref.id] = replace(c, **{k: T("after" + k, new) for k in FN_MUTATORS[name]})
            return NONE
        return T("call", T("fn", name), *at)

    def known_node(self, G, x, st):
        return node_atom(G, x)

    def set_arg(self, name, v, st):
        """arguments whose order and type are irrelevant are sets"""
        I = self.I
        c = I.cell(v, st)
        if name in ("is_active_path", "is_active_backdoor_trail", "is_active_indirect_frontdoor_trail", "manipulation", "signaling", "revealing_or_denying"):
            if isinstance(c, Coll):
                return I.as_set(v, st)
            if isinstance(v, T) and v is NONE:
                return T("seq") if False else setc_empty()
            if isinstance(v, T) and TYPES.get(v, "") in ("optset", "set", "coll"):
                return I.as_set(v, st)
        if name in ("get_valid_order",) and not (isinstance(v, T) and v is NONE):
            return I.as_set(v, st) if (isinstance(c, Coll) or (isinstance(v, T) and self.is_collection(v))) else I.term(v, st)
        if isinstance(c, Coll) and name in ("query", "expected_value", "expected_utility", "get_ne_in_sg"):
            return I.term(v, st)
        return I.term(v, st)

    def bind_sig(self, f, args, kwargs, st, fr):
        a = f.node.args
        params = [x.arg for x in a.posonlyargs + a.args]
        if any(isinstance(x, Bound) and x.name == "*star" for x in args) or "**" in kwargs or a.vararg or a.kwarg:
            out = []
            for x in args:
                out.append(T("star", self.I.term(x.recv, st)) if isinstance(x, Bound) and x.name == "*star" else x)
            for k in sorted(kwargs):
                out.append(T("kw", k, self.I.term(kwargs[k], st)))
            return out
        env = dict(zip(params, args))
        if len(args) > len(params):
            raise Opaque("too many arguments")
        env.update(kwargs)
        defaults = dict(zip(reversed([x.arg for x in a.args]), reversed(a.defaults)))
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                defaults[x.arg] = d
        out = []
        for p in params + [x.arg for x in a.kwonlyargs]:
            if p in env:
                out.append(env[p])
            elif p in defaults:
                out.append(self.dflt(defaults[p]))
            else:
                raise Opaque(f"missing argument {p}")
        return out

    def opaque_call(self, fv, args, kwargs, st, fr):
        name = fv.name or "lambda"
        a = list(args)
        if fv.self_val is not None:
            a = [fv.self_val] + a
        r = T("call", T("fn", name), *self.arg_terms(a, kwargs, st))
        c = self.I.cell(fv.self_val, st) if fv.self_val is not None else None
        if isinstance(c, InstCell) and c.tag.startswith("obj:"):
            self.bump_obj(fv.self_val, c, T("selfcall", name, *self.arg_terms(args, kwargs, st)), st)
        return r

    def bump_obj(self, ref, c, op, st):
        """an operation that may change every field of the object"""
        fs = dict(c.fields)
        v = T("then", fs.get("$v", NONE), op, *[T("field", k, self.I.term(fs[k], st)) for k in sorted(fs) if k != "$v"])
        new = {"$v": v}
        for k in self.known_fields(c.cls):
            t = new[k] = T("fieldafter", k, v)
            if k in TYPE_OF_FIELD:
                TYPES.setdefault(t, TYPE_OF_FIELD[k])
        st.heap[ref.id] = replace(c, fields=tuple(sorted(new.items())))

    # -- methods

    def method(self, b: Bound, args, kwargs, st, fr):
        I = self.I
        recv, name = b.recv, b.name
        if isinstance(recv, T) and recv.op == "ite" and False:
            pass
        c = I.cell(recv, st)
        if isinstance(c, ModelCell):
            return self.model_method(recv, c, name, args, kwargs, st, fr, b.sup)
        if isinstance(c, InstCell):
            return self.inst_method(recv, c, name, args, kwargs, st, fr, b.sup)
        if isinstance(c, Coll):
            return self.coll_method(recv, name, args, kwargs, st, fr)
        t = I.term(recv, st) if not isinstance(recv, T) else recv
        return self.term_method(t, name, args, kwargs, st, fr)

    def find_method(self, cls, name, sup):
        if cls is None:
            return None
        return cls.lookup(name, after=sup)

    def inst_method(self, recv, c: InstCell, name, args, kwargs, st, fr, sup):
        I = self.I
        f = self.find_method(c.cls, name, sup)
        if isinstance(f, Func):
            if c.tag.startswith("obj:") and sup is None and self.is_prim(f) and f not in fr.stack:
                if name in PURE_OBJ:
                    fs = dict(c.fields)
                    reads = [T("field", k, I.term(fs[k], st)) for k in sorted(self.fields_read(c.cls, name) | {"$v"}) if k in fs]
                    return T("selfread", name, T("param", c.tag[4:]), *reads, *self.sig_terms(f, args, kwargs, st, True, fr))
                if name in CHANGING_OBJ:
                    self.bump_obj(recv, c, T("selfcall", name, *self.sig_terms(f, args, kwargs, st, True, fr)), st)
                    return NONE
            return I.call_fn(FnVal(f, f.node, None, recv, f.module, f.cls, f.name), args, kwargs, st, fr, force=True)
        t = I.term(recv, st)
        if name in ("nodes", "edges") and not args:
            return self.read_obj(recv, c, name, st)
        if name in ("get_parents", "get_children", "get_cpds", "keys", "get_cardinality", "in_degree", "has_edge", "predecessors", "successors", "items", "values"):
            ver = dict(c.fields).get("$v", NONE)
            name2 = {"predecessors": "get_parents", "successors": "get_children"}.get(name, name)
            r = T("objread", t, name2, ver, *self.arg_terms(args, kwargs, st))
            if name in ("get_parents", "get_children", "keys"):
                TYPES[r] = "seq"
            return r
        if name in ONE_BY_ONE and isinstance(f, str) and f.split(".")[-1] in ("DiGraph", "Graph", "DAG") and len(args) == 1 and not kwargs:
            return self.one_by_one(ONE_BY_ONE[name], recv, args[0], st, fr)
        ev = T("extcall", (f.split(".")[-1] if isinstance(f, str) else "?"), name, *self.arg_terms(args, kwargs, st))
        fs = dict(c.fields)
        fs["$v"] = T("then", fs.get("$v", NONE), ev)
        st.heap[recv.id] = replace(c, fields=tuple(fs.items()))
        return T("extres", fs["$v"])

    def one_by_one(self, loop, recv, these, st, fr):
        saved = {k: st.env.get(k) for k in ("$graph", "$these", "$x")}
        st.env["$graph"], st.env["$these"] = recv, these
        out = self.I.stmt(loop, st, fr)
        if out is not None and out is not st:
            st.become(out)
        for k, v in saved.items():
            st.env.pop(k, None)
            if v is not None:
                st.env[k] = v
        return NONE

    def read_obj(self, recv, c, name, st):
        ver = dict(c.fields).get("$v", NONE)
        t = T("objread", self.I.term(recv, st), name, ver)
        TYPES[t] = "coll"
        return t

    def model_method(self, recv, c: ModelCell, name, args, kwargs, st, fr, sup):
        I = self.I
        G, R = c.G, c.R
        tt = lambda i: I.term(args[i], st)  # noqa
        if sup is None:
            if name in ("nodes", "edges") and not args:
                return T(name, G)
            if name in ("get_parents", "predecessors") and len(args) == 1:
                return T("parents", G, tt(0))
            if name in ("get_children", "successors") and len(args) == 1:
                return T("children", G, tt(0))
            if name == "_get_ancestors_of":
                return self.anc(G, args[0], st)
            if name == "has_edge":
                return edge(G, tt(0), tt(1))
            if name == "has_node":
                return node_atom(G, tt(0))
            if name == "in_degree" and len(args) == 1:
                return T("len", T("parents", G, tt(0)))
            if name == "is_dconnected":
                return self.dconn(G, args, kwargs, st)
            if name == "active_trail_nodes" and len(args) + len(kwargs) == 2:
                obs = args[1] if len(args) > 1 else kwargs.get("observed", NONE)
                return T("activetrailmap", G, tt(0), self.obs_set(obs, st))
            if name == "copy":
                return I.new(st, c)
            if name == "copy_without_cpds":
                return I.new(st, ModelCell(c.cls, G, R, T("nocpds")))
            if name == "add_edge" and len(args) == 2:
                st.heap[recv.id] = replace(c, G=T("addE", G, tt(0), tt(1)))
                return NONE
            if name == "remove_edge" and len(args) == 2:
                st.heap[recv.id] = replace(c, G=T("delE", G, tt(0), tt(1)))
                return NONE
            if name == "number_of_nodes":
                return T("len", T("nodes", G))
            if name == "check_model":
                return TRUE
        f = self.find_method(c.cls, name, sup)
        if name == "add_cpds" and not args and set(kwargs) == {"**"}:
            d = I.cell(kwargs["**"], st)
            if isinstance(d, Coll) and d.kind == "dict" and len(d.gens) == 1 and isinstance(d.gens[0], Gen) and not d.gens[0].binders and d.gens[0].guard is TRUE:
                k, v = kv(d.gens[0].elem)
                st.heap[recv.id] = replace(c, C=T("setcpd", c.C, I.term(k, st), I.term(v, st)))
                return NONE
        if name in MUTATORS:
            op = T("op", name, *self.sig_terms(f, args, kwargs, st, True, fr))
            new = T("after", op, T("model", c.G, c.R, c.C))
            upd = {k: T("after" + k, new) for k in MUTATORS[name]}
            if isinstance(f, Func) and not self.is_prim(f) and f.name not in MUTATORS:
                pass
            st.heap[recv.id] = replace(c, **upd)
            return NONE
        if isinstance(f, Func):
            if any(d == "property" for d in f.decorators):
                return I.inline(FnVal(f, f.node, None, recv, f.module, f.cls, f.name), [], {}, st, fr)
            qn = FnVal(f, f.node, None, recv, f.module, f.cls, f.name)
            if sup is not None and self.baseline is not None and not self.unfold_all and f.name in self.baseline:
                r = self.prim(f, recv, args, kwargs, st, fr)
                return T("super", sup.name, r)
            return I.call_fn(qn, args, kwargs, st, fr)
        return T("mcall", name, T("model", c.G, c.R, c.C), *self.arg_terms(args, kwargs, st))

    def anc(self, G, v, st):
        I = self.I
        c = I.cell(v, st)
        if isinstance(c, Coll) or (isinstance(v, T) and self.is_collection(v)):
            x, y = fresh(), fresh()
            return setc(x, EXISTS([y], AND(I.contains(y, v, st), reach(G, x, y))))
        return T("anc_of", G, I.term(v, st))

    def obs_set(self, v, st):
        I = self.I
        if isinstance(v, T) and v is NONE:
            return setc_empty()
        c = I.cell(v, st)
        if not isinstance(c, Coll) and isinstance(v, T) and not self.is_collection(v) and TYPES.get(v) == "str":
            x = fresh()
            return setc(x, EQ(x, v))
        return I.as_set(v, st)

    def dconn(self, G, args, kwargs, st):
        I = self.I
        d = dict(zip(["start", "end", "observed"], args))
        d.update(kwargs)
        return T("pred", "dconn", G, I.term(d["start"], st), I.term(d["end"], st), self.obs_set(d.get("observed", NONE), st))

    def term_method(self, t: T, name, args, kwargs, st, fr):
        I = self.I
        ty = TYPES.get(t, "")
        at = lambda i: I.term(args[i], st)  # noqa
        if t.op in ("nodes", "edges") and not args and name == "__call__":
            return t
        if name == "keys" and not args:
            return t if t.op in ("dagmap", "uagmap", "decmap", "utilmap") else T("keys", t)
        if name == "items" and not args:
            return T("items", t)
        if name == "values" and not args:
            return T("values", t)
        if name == "get" and t.op in ("decmap", "utilmap") and len(args) >= 1:
            return T("decsof" if t.op == "decmap" else "utilsof", t.args[0], at(0))
        if name == "domain" and t.op == "cpdmodel":
            return T("domainmap", *t.args)
        if name == "copy" and not args and self.is_collection(t):
            return t
        if name == "get" and len(args) >= 1:
            return T("getitem", t, *[I.term(a, st) for a in args if a is not NONE or a is args[0]])
        if self.is_collection(t) or t.op in ("dagmap", "uagmap"):
            if name in ("union", "intersection", "difference", "symmetric_difference"):
                return self.set_method(t, name, args, st)
            if name == "issubset":
                return self.subset(t, args[0], st)
            if name == "issuperset":
                return self.subset(args[0], t, st)
            if name == "isdisjoint":
                return self.disjoint(t, args[0], st)
        if name == "index" and len(args) == 1 and ty != "str":
            x = at(0)
            if x.op == "idx" and x.args[0] is t:
                return x.args[1]
            return T("indexof", t, x)
        if name in ("startswith", "endswith") and len(args) == 1 and at(0).op == "const" and isinstance(at(0).args[0], str):
            k = len(at(0).args[0])
            if name == "endswith":
                return EQ(T("strslice", t, const(-k), NONE), at(0))
            return EQ(T("strslice", t, NONE, const(k)), at(0))
        if name == "format" and t.op == "const":
            return T("fmt")
        if name in KNOWN_EXT_MUTATING:
            r = idx(t, at(0)) if name == "pop" and len(args) == 1 and TYPES.get(t) == "dict" else T("mcall", name, t, *self.arg_terms(args, kwargs, st))
            self.update_loc(t, t, name, args + [v for k, v in sorted(kwargs.items())], st)
            return r if name in ("pop", "popitem", "setdefault") else NONE
        if name == "is_acyclic" and t.op == "new":
            return T("pred", "call:is_acyclic", t)
        return T("mcall", name, t, *self.arg_terms(args, kwargs, st))

    # -- external functions and builtins

    def ext_call(self, full, args, kwargs, st, fr):
        I = self.I
        name = full.split(".")[-1]
        if full == "dict.fromkeys" and 1 <= len(args) <= 2 and not kwargs:
            v = args[1] if len(args) == 2 else NONE
            return I.coll(st, "dict", [Gen(g.binders, g.guard, Tup((g.elem, v))) for g in I.iterate(args[0], st)])
        h = getattr(self, "b_" + name, None)
        if h is not None and ("." not in full or full.split(".")[0] in ("itertools", "functools", "networkx", "math", "collections", "copy", "operator")):
            r = h(args, kwargs, st, fr)
            if r is not NotImplemented:
                return r
        if full.startswith("networkx."):
            r = self.nx_call(name, args, kwargs, st, fr)
            if r is not None:
                return r
        # BayesianNetwork.method(self.cbn, ...) and similar calls
        t = T("call", T("ext", full), *self.arg_terms(args, kwargs, st))
        if full.split(".")[-2:-1] == ["BayesianNetwork"] or full.startswith("random.") or full.startswith("numpy.random."):
            if not full.startswith(("random.", "numpy.random.")):
                I.event(st, T("do", t))
        return t

    def nx_call(self, name, args, kwargs, st, fr):
        I = self.I
        c = I.cell(args[0], st) if args else None
        if name == "is_directed_acyclic_graph":
            g = c.G if isinstance(c, ModelCell) else I.term(args[0], st)
            return T("pred", "dag", g)
        if isinstance(c, ModelCell):
            G = c.G
            if name == "descendants":
                return T("desc_of", G, I.term(args[1], st))
            if name == "ancestors":
                return T("nxanc", G, I.term(args[1], st))
            if name == "has_path":
                return reach(G, I.term(args[1], st), I.term(args[2], st))
            if name == "topological_sort":
                return T("topo", G)
            if name == "all_simple_paths":
                return T("nxpaths", G, I.term(args[1], st), I.term(args[2], st))
        return None

    def gens_of(self, v, st):
        return self.I.iterate(v, st)

    def b_len(self, args, kwargs, st, fr):
        I = self.I
        v = args[0]
        c = I.cell(v, st)
        if isinstance(v, Tup):
            return const(len(v.items))
        if isinstance(c, Coll) and all(isinstance(g, Gen) and not g.binders and g.guard is TRUE for g in c.gens) and c.kind != "set":
            return const(len(c.gens))
        return length(I.term(v, st))

    def b_any(self, args, kwargs, st, fr):
        I = self.I
        out = []
        for g in I.iterate(args[0], st):
            out.append(EXISTS(g.vars(), AND(g.full(), I.truth(g.elem, st))))
        return OR(*out)

    def b_all(self, args, kwargs, st, fr):
        I = self.I
        out = []
        for g in I.iterate(args[0], st):
            out.append(NOT(EXISTS(g.vars(), AND(g.full(), NOT(I.truth(g.elem, st))))))
        return AND(*out)

    def b_sum(self, args, kwargs, st, fr):
        I = self.I
        total = I.term(args[1], st) if len(args) > 1 else const(0)
        for g in I.iterate(args[0], st):
            e = I.term(g.elem, st)
            if not g.binders:
                if g.guard is TRUE:
                    total = tm.add(total, e)
                else:
                    total = tm.add(total, ITE(g.guard, e, const(0)))
            else:
                total = tm.add(total, T("sum", gen_term(Gen(g.binders, g.guard, e), lambda x: x)))
        return total

    def _mk(self, kind, args, st):
        I = self.I
        if not args:
            return I.coll(st, kind)
        return I.coll(st, kind, I.iterate(args[0], st))

    def b_list(self, args, kwargs, st, fr):
        return self._mk("list", args, st)

    def b_tuple(self, args, kwargs, st, fr):
        if args and isinstance(args[0], Tup):
            return args[0]
        return self._mk("tuple", args, st)

    def b_iter(self, args, kwargs, st, fr):
        return self._mk("iter", args, st)

    def b_set(self, args, kwargs, st, fr):
        return self._mk("set", args, st)

    b_frozenset = b_set

    def b_dict(self, args, kwargs, st, fr):
        I = self.I
        gens = []
        if args:
            c = I.cell(args[0], st)
            if isinstance(c, Coll) and c.kind != "dict":
                for g in c.gens:
                    e = untuple(I.term(g.elem, st)) if not isinstance(g.elem, Tup) else g.elem
                    if not isinstance(e, Tup):
                        e = Tup((idx(e, const(0)), idx(e, const(1))))
                    gens.append(Gen(g.binders, g.guard, e))
            elif isinstance(c, Coll):
                gens = list(c.gens)
            else:
                t = I.term(args[0], st)
                if not kwargs:
                    return T("dictof", t)
                gens = self.dict_gens(t, st)
        for k, v in kwargs.items():
            if k == "**":
                gens += self.dict_gens(v, st)
            else:
                gens.append(Gen((), TRUE, Tup((const(k), v))))
        return I.coll(st, "dict", gens)

    def b_sorted(self, args, kwargs, st, fr):
        t = self.I.as_set(args[0], st) if False else self.I.term(args[0], st)
        return T("sorted", t, *self.arg_terms([], kwargs, st))

    def b_reversed(self, args, kwargs, st, fr):
        return T("reversed", self.I.term(args[0], st))

    def b_range(self, args, kwargs, st, fr):
        I = self.I
        ts = [I.term(a, st) for a in args]
        if len(ts) == 1:
            return T("range", const(0), ts[0])
        if len(ts) == 2:
            return T("range", ts[0], ts[1])
        return NotImplemented

    def b_enumerate(self, args, kwargs, st, fr):
        I = self.I
        start = I.term(args[1], st) if len(args) > 1 else (I.term(kwargs["start"], st) if "start" in kwargs else const(0))
        t = self.seq_of(args[0], st)
        if t is None:
            return T("enumerate", I.term(args[0], st), start)
        src = T("range", const(0), length(t))
        i = fresh(src)
        return I.coll(st, "iter", [Gen(((i, src),), TRUE, Tup((tm.add(i, start), untuple(idx(t, i)))))])

    def seq_of(self, v, st):
        I = self.I
        t = I.term(v, st)
        if t.op in ("accd",):
            return None
        return t

    def b_zip(self, args, kwargs, st, fr):
        I = self.I
        ts = [I.term(a, st) for a in args]
        if any(t.op == "accd" for t in ts):
            return NotImplemented
        lens = [length(t) for t in ts]
        # slices of one sequence: the shortest one bounds the traversal
        n = None
        base = ts[0].args[0] if ts[0].op == "slice" else ts[0]
        best = None
        for t, l in zip(ts, lens):
            c, parts = tm.lin_parts(l)
            if list(parts.items()) == [(T("len", base), 1)]:
                best = l if best is None or tm.lin_parts(best)[0] > c else best
            else:
                best = None
                break
        n = best if best is not None else (lens[0] if len(set(lens)) == 1 else T("min", *sorted(lens, key=skey)))
        src = T("range", const(0), n)
        i = fresh(src)
        return I.coll(st, "iter", [Gen(((i, src),), TRUE, Tup(tuple(untuple(idx(t, i)) for t in ts)))])

    def b_map(self, args, kwargs, st, fr):
        I = self.I
        if len(args) != 2:
            return NotImplemented
        gens = []
        for g in I.iterate(args[1], st):
            gens.append(Gen(g.binders, g.guard, I.call(args[0], [g.elem], {}, st, fr)))
        return I.coll(st, "iter", gens)

    def b_filter(self, args, kwargs, st, fr):
        I = self.I
        gens = []
        for g in I.iterate(args[1], st):
            c = I.truth(g.elem, st) if isinstance(args[0], T) and args[0] is NONE else I.truth(I.call(args[0], [g.elem], {}, st, fr), st)
            gens.append(Gen(g.binders, AND(g.guard, c), g.elem))
        return I.coll(st, "iter", gens)

    def b_next(self, args, kwargs, st, fr):
        I = self.I
        v = args[0]
        ne = I.truth(v, st) if isinstance(I.cell(v, st), Coll) or not isinstance(v, T) or self.is_collection(v) else T("pred", "nonempty", v)
        gs = I.iterate(v, st)
        t = I.term(v, st)
        first = T("first", t)
        if len(gs) == 1 and gs[0].binders:
            g = gs[0]
            e = I.term(g.elem, st)
            if not (free_vars(e) & frozenset(g.vars())):
                first = e
        if len(args) > 1:
            return I.merge_val(ne, untuple(first), args[1], st, st, st)
        if "StopIteration" in fr.catching:
            self.raise_if(NOT(ne), "StopIteration", st, fr)
        return untuple(first)

    def b_isinstance(self, args, kwargs, st, fr):
        I = self.I
        names = self.cls_names(args[1], st)
        v = args[0]
        c = I.cell(v, st)
        if isinstance(c, Coll):
            k = {"list": {"list", "Sequence", "Iterable", "Collection"}, "dict": {"dict", "Mapping"}, "set": {"set", "Set"}, "tuple": {"tuple", "Sequence"}}.get(c.kind, set())
            return const(bool(k & set(names)))
        if isinstance(v, (FnVal, Partial)):
            return const("Callable" in names)
        t = I.term(v, st)
        if t is NONE:
            return const("NoneType" in names)
        if t.op == "new":
            cls = I.prog.cls(t.args[0])
            return const(any(cls.is_sub(n) for n in names))
        if t.op == "ite":
            return OR(AND(t.args[0], self.b_isinstance([t.args[1], args[1]], {}, st, fr)), AND(NOT(t.args[0]), self.b_isinstance([t.args[2], args[1]], {}, st, fr)))
        ty = TYPES.get(t, "")
        if ty == "str" and names == ["str"]:
            return TRUE
        if names == ["str"] and (ty in ("seq", "set", "coll", "dict", "int") or t.op in COLL_OPS):
            return FALSE
        return OR(*[EQ(t, NONE) if n == "NoneType" else T("isinst", t, n) for n in names])

    def cls_names(self, v, st):
        if isinstance(v, Tup):
            out = []
            for i in v.items:
                out += self.cls_names(i, st)
            return out
        if isinstance(v, ClsVal):
            return [v.cls.name]
        if isinstance(v, Ext):
            return [v.name.split(".")[-1]]
        t = self.I.term(v, st)
        if t.op == "call" and t.args[0] is T("ext", "type"):
            return ["NoneType"]
        return [skey(t)]

    def b_hasattr(self, args, kwargs, st, fr):
        return T("pred", "hasattr", self.I.term(args[0], st), self.I.term(args[1], st))

    def b_bool(self, args, kwargs, st, fr):
        return self.I.truth(args[0], st) if args else FALSE

    def b_str(self, args, kwargs, st, fr):
        if not args:
            return const("")
        t = self.I.term(args[0], st)
        if TYPES.get(t) == "str" or (t.op == "const" and isinstance(t.args[0], str)):
            return t
        return T("str", t)

    def b_float(self, args, kwargs, st, fr):
        t = self.I.term(args[0], st)
        return T("float", t)

    def b_abs(self, args, kwargs, st, fr):
        return T("abs", self.I.term(args[0], st))

    def b_min(self, args, kwargs, st, fr):
        if kwargs:
            return NotImplemented
        ts = self.I_terms(args, st)
        return T("min", *sorted(ts, key=skey)) if len(ts) > 1 else T("minof", ts[0])

    def b_max(self, args, kwargs, st, fr):
        if kwargs:
            return NotImplemented
        ts = self.I_terms(args, st)
        return T("max", *sorted(ts, key=skey)) if len(ts) > 1 else T("maxof", ts[0])

    def I_terms(self, args, st):
        return [self.I.term(a, st) for a in args]

    def b_partial(self, args, kwargs, st, fr):
        return Partial(args[0], tuple(args[1:]), tuple(sorted(kwargs.items())))

    def b_update_wrapper(self, args, kwargs, st, fr):
        return args[0]  # metadata only

    def b_product(self, args, kwargs, st, fr):
        I = self.I
        if len(args) == 1 and isinstance(args[0], Bound) and args[0].name == "*star":
            return T("product", T("star", I.term(args[0].recv, st)), *self.arg_terms([], kwargs, st))
        return T("product", *self.arg_terms(args, kwargs, st))

    def b_permutations(self, args, kwargs, st, fr):
        I = self.I
        if len(args) == 2 and I.term(args[1], st) is const(2):
            t = I.term(args[0], st)
            x, y = fresh(t), fresh(t)
            return I.coll(st, "iter", [Gen(((x, t), (y, t)), NOT(EQ(x, y)), Tup((x, y)))])
        return T("permutations", *self.arg_terms(args, kwargs, st))

    def b_from_iterable(self, args, kwargs, st, fr):
        I = self.I
        gs = []
        for g in I.iterate(args[0], st):
            for h in I.iterate(g.elem, st):
                gs.append(Gen(g.binders + h.binders, AND(g.guard, h.guard), h.elem))
        return I.coll(st, "iter", gs)

    def b_chain(self, args, kwargs, st, fr):
        I = self.I
        gs = []
        for a in args:
            if isinstance(a, Bound) and a.name == "*star":
                for g in I.iterate(a.recv, st):
                    for h in I.iterate(g.elem, st):
                        gs.append(Gen(g.binders + h.binders, AND(g.guard, h.guard), h.elem))
            else:
                gs += I.iterate(a, st)
        return I.coll(st, "iter", gs)

    def b_deepcopy(self, args, kwargs, st, fr):
        c = self.I.cell(args[0], st)
        if isinstance(c, Coll):
            return self.I.coll(st, c.kind, c.gens)
        if isinstance(args[0], T) and self.is_collection(args[0]):
            return args[0]
        return NotImplemented

    def b_defaultdict(self, args, kwargs, st, fr):
        if len(args) > 1:
            return NotImplemented
        return self.I.coll(st, "dict")

    def b_getattr(self, args, kwargs, st, fr):
        if len(args) == 2 and isinstance(args[1], T) and args[1].op == "const":
            return self.getattr(args[0], args[1].args[0], st, fr)
        return NotImplemented

    def b_print(self, args, kwargs, st, fr):
        return NONE

    # ------------------------------------------------------------ loops over versions

    def delta_version(self, x: T, a: T, x0: T, g: Gen, dep):
        """the version of a graph after a loop that edits it"""
        if x.op in ("addE", "delE") and x.args[0] is a and not dep(x.args[1]) and not dep(x.args[2]):
            u, v = fresh(), fresh()
            body = EXISTS(g.vars(), AND(g.full(), EQ(u, x.args[1]), EQ(v, x.args[2])))
            return T(x.op + "s", x0, T("setc", 2, u, v, body)) if False else T(x.op + "s", x0, T("ugen", 2, u, v, body, T("tuple", u, v)))
        if x.op == "ite" and x.args[2] is a and not dep(x.args[0]):
            return self.delta_version(x.args[1], a, x0, Gen(g.binders, AND(g.guard, x.args[0]), g.elem), dep)
        if x.op == "ite" and x.args[1] is a and not dep(x.args[0]):
            return self.delta_version(x.args[2], a, x0, Gen(g.binders, AND(g.guard, NOT(x.args[0])), g.elem), dep)
        return None


def setc_empty():
    x = fresh()
    return setc(x, FALSE)


def I_term_opt(I, k, st):
    return k if isinstance(k, T) else I.term(k, st)
