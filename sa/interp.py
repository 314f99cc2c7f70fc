"""Abstract interpreter: turns a function of /repo into a summary (return value graph, exception conditions, effects on
its parameters). Joins are gated merges, loops are summarised into quantifiers / comprehensions / sums / folds; helper
functions of the package are summarised in place; library and model operations are (partly interpreted) symbols.

Nothing is executed: inputs are symbolic, and no path is enumerated (branches are joined immediately)."""
from __future__ import annotations

import ast
import itertools
from dataclasses import dataclass, field, replace
from typing import Any, Dict, List, Optional, Tuple

from sa import terms as tm
from sa.loader import Cls, Func, Module, Program
from sa.terms import (
    AND, EQ, EXISTS, FALSE, IN, ITE, LE, LT, NONE, NOT, OR, TRUE, T, TYPES, VAR_SRC, const, const_val, fresh,
    free_vars, is_const, is_formula, setc, simp, skey, subst,
)
from sa.values import *  # noqa


class Opaque(Exception):
    """the construct is outside of the interpreter's language"""


@dataclass(frozen=True, eq=False)
class View:
    """a model that is the object `new` in the case c, and otherwise has the content `base`"""

    c: Any
    new: int
    base: Any


class Heap(dict):
    """cells by number; a variable that may stand for one of several models has a cell of its own, of which these are views"""

    def resolve(self, v):
        while type(v) is View:
            return merge_models(v.c, self.resolve(dict.__getitem__(self, v.new)), self.resolve(v.base))
        return v

    def raw(self, i):
        return dict.get(self, i)

    def put(self, i, v):
        dict.__setitem__(self, i, v)

    def __getitem__(self, i):
        v = dict.__getitem__(self, i)
        return self.resolve(v) if type(v) is View else v

    def get(self, i, d=None):
        v = dict.get(self, i, d)
        return self.resolve(v) if type(v) is View else v

    def __setitem__(self, i, v):
        dict.__setitem__(self, i, self.write(dict.get(self, i), v, TRUE))

    def write(self, raw, v, when):
        """the cell after writing v to it: also the objects it is a view of change"""
        if type(raw) is not View:
            return v
        c = AND(when, raw.c)
        self[raw.new] = merge_models(c, v, self[raw.new])
        return View(raw.c, raw.new, self.write(raw.base, v, AND(when, NOT(raw.c))))

    def items(self):
        return [(i, self.resolve(v) if type(v) is View else v) for i, v in dict.items(self)]


def merge_models(c, a, b):
    if a == b:
        return a
    f = lambda x, y: x if x is y else ITE(c, x, y)  # noqa
    return ModelCell(a.cls, f(a.G, b.G), f(a.R, b.R), f(a.C, b.C), a.fields)


class St:
    __slots__ = ("env", "heap", "pc")

    def __init__(self, env, heap, pc=TRUE):
        self.env = env
        self.heap = heap
        self.pc = pc

    def fork(self, c: T = TRUE) -> "St":
        return St(dict(self.env), Heap(self.heap), AND(self.pc, c))

    def become(self, o: "St") -> None:
        self.env, self.heap, self.pc = o.env, o.heap, o.pc


@dataclass
class Exit:
    kind: str
    cond: T
    value: Any
    st: St


@dataclass
class Fr:
    func: Optional[Func]
    module: Module
    cls: Optional[Cls]
    name: str
    depth: int
    exits: List[Exit] = field(default_factory=list)
    catching: Tuple[str, ...] = ()
    selfname: Optional[str] = None
    globals_env: Any = None
    stack: Tuple[Any, ...] = ()


IN_PLACE = ("normalize", "marginalize")  # methods of factors that change their receiver
EVENTS = -1  # heap cell collecting effects on opaque objects
_ids = itertools.count(1)


def instantiate(g: Gen) -> Gen:
    m = {v: fresh() for v, _ in g.binders}
    for (v, s) in g.binders:
        if s is not None:
            VAR_SRC[m[v]] = subst(s, m)
    return Gen(
        tuple((m[v], subst(s, m) if s is not None else None) for v, s in g.binders),
        subst(g.guard, m),
        vsubst(g.elem, m),
    )


def vsubst(v, m):
    if not m:
        return v
    if isinstance(v, T):
        return subst(v, m)
    if isinstance(v, Tup):
        return Tup(tuple(vsubst(i, m) for i in v.items))
    if isinstance(v, Gen):
        return Gen(
            tuple((x, subst(s, m) if s is not None else None) for x, s in v.binders),
            subst(v.guard, m),
            vsubst(v.elem, m),
        )
    if isinstance(v, Coll):
        return Coll(v.kind, tuple(vsubst(g, m) if isinstance(g, Gen) else g for g in v.gens))
    if isinstance(v, ModelCell):
        return ModelCell(v.cls, subst(v.G, m), subst(v.R, m), subst(v.C, m), tuple((k, vsubst(x, m)) for k, x in v.fields))
    if isinstance(v, InstCell):
        return InstCell(v.cls, tuple((k, vsubst(x, m)) for k, x in v.fields), v.tag)
    return v


def gen_term(g, tf) -> T:
    if isinstance(g, AccMark):
        return g.var
    e = tf(g.elem)
    vs = g.vars()
    if g.binders and any(s is None for _, s in g.binders):
        return T("ugen", len(vs), *vs, g.full(), e)
    if len(vs) == 1 and g.binders[0][1] is not None and g.guard is TRUE and e is vs[0]:
        return T("spread", g.binders[0][1])
    # range-indexed traversal of a sequence is a traversal of the sequence
    return T("seqgen", len(vs), *vs, g.guard, e, *[s for _, s in g.binders])


def _smart_seqgen(n, *rest):
    vs = rest[:n]
    guard, e = rest[n], rest[n + 1]
    srcs = rest[n + 2 :]
    if guard is FALSE:
        return T("seq")
    if len(vs) == 1 and guard is TRUE and e is vs[0]:
        return T("spread", srcs[0])
    return T("seqgen", n, *vs, guard, e, *srcs)


def seq_term(parts: List[T]) -> T:
    out = []
    for p in parts:
        if p.op == "seq":
            out += list(p.args)
        elif p.op == "spread" and p.args[0].op == "seq":
            out += list(p.args[0].args)
        else:
            out.append(p)
    if len(out) == 1 and out[0].op == "spread":
        return out[0].args[0]
    return T("seq", *out)


tm.SMART["seqgen"] = _smart_seqgen
tm.SMART["seq"] = lambda *a: seq_term(list(a))


def _in_spread(x, s):
    if s.op == "spread":
        return IN(x, s.args[0])
    if s.op == "seqgen":
        n = s.args[0]
        vs, guard, elem, srcs = s.args[1 : 1 + n], s.args[1 + n], s.args[2 + n], s.args[3 + n :]
        m = {v: fresh() for v in vs}
        for v, q in zip(vs, srcs):
            VAR_SRC[m[v]] = subst(q, m)
        return EXISTS(
            m.values(),
            AND(*[IN(m[v], subst(q, m)) for v, q in zip(vs, srcs)], subst(guard, m), EQ(x, subst(elem, m))),
        )
    return None


_orig_IN = tm.IN


def IN(x, s):  # noqa: F811
    r = _in_spread(x, s) if isinstance(s, T) else None
    return r if r is not None else _orig_IN(x, s)


tm.IN = IN
tm.SMART["in"] = IN
import sa.values as _v  # noqa

_v.IN = IN


class Interp:
    MAX_DEPTH = 14

    def __init__(self, prog: Program, prims):
        self.prog = prog
        self.P = prims
        prims.bind(self)
        self.analysed: set = set()
        self.call_sites = 0
        self.alias: Dict[int, list] = {}  # cell of a variable -> the models it may stand for, with conditions

    # ------------------------------------------------------------------ values

    def new(self, st: St, cell) -> Ref:
        r = Ref(next(_ids))
        st.heap[r.id] = cell
        return r

    def coll(self, st, kind, gens=()) -> Ref:
        return self.new(st, Coll(kind, tuple(gens)))

    def cell(self, v, st):
        return st.heap.get(v.id) if isinstance(v, Ref) else None

    def term(self, v, st: St) -> T:
        if isinstance(v, T):
            return v
        if isinstance(v, Tup):
            return T("tuple", *[self.term(i, st) for i in v.items])
        if isinstance(v, Ref):
            c = st.heap[v.id]
            if isinstance(c, Coll):
                return self.coll_term(c, st)
            if isinstance(c, ModelCell):
                return T("model", c.G, c.R, c.C)
            return self.P.inst_term(v, c, st)
        if isinstance(v, Coll):
            return self.coll_term(v, st)
        if isinstance(v, Ext):
            return T("ext", v.name)
        if isinstance(v, ClsVal):
            return T("cls", v.cls.name)
        if isinstance(v, ModVal):
            return T("mod", v.module.name)
        if isinstance(v, FnVal):
            return self.fn_term(v, st)
        if isinstance(v, Bound):
            return T("bound", self.term(v.recv, st), v.name)
        if isinstance(v, Partial):
            return T("partial", self.term(v.fn, st), *[self.term(a, st) for a in v.args])
        if isinstance(v, Super):
            return T("super")
        raise Opaque(f"no term for {v!r}")

    def coll_term(self, c: Coll, st: St) -> T:
        if any(isinstance(g, AccMark) for g in c.gens):
            parts = [gen_term(g, lambda e: self.term(e, st)) for g in c.gens]
            return T("accd", c.kind, *parts)
        if c.kind == "set":
            return self.as_set(c, st)
        if c.kind == "dict":
            return T("dict", *[gen_term(g, lambda e: self.term(e, st)) for g in c.gens])
        return seq_term([gen_term(g, lambda e: self.term(e, st)) for g in c.gens])

    def as_set(self, v, st: St) -> T:
        if isinstance(v, T) and v.op == "setc":
            return v
        x = fresh()
        return setc(x, self.contains(x, v, st))

    def contains(self, x, v, st: St) -> T:
        """x in v"""
        if isinstance(v, Ref):
            v2 = st.heap[v.id]
            if isinstance(v2, Coll):
                v = v2
            elif isinstance(v2, ModelCell):
                return self.P.IN_(self.term(x, st), T("nodes", v2.G))
            else:
                return T("pred", "contains", self.term(v, st), self.term(x, st))
        if isinstance(v, Coll):
            out = []
            for g in v.gens:
                if isinstance(g, AccMark):
                    out.append(T("pred", "accin", g.var, self.term(x, st)))
                    continue
                g = instantiate(g)
                e = g.elem
                if v.kind == "dict":
                    e = kv(e)[0]
                out.append(EXISTS(g.vars(), AND(g.full(), self.equal(x, e, st))))
            return OR(*out)
        if isinstance(v, Tup):
            return OR(*[self.equal(x, i, st) for i in v.items])
        t = self.term(v, st)
        if t is NONE:
            return FALSE
        return IN(self.term(x, st), t)

    def equal(self, a, b, st: St) -> T:
        if isinstance(a, Tup) and isinstance(b, Tup):
            if len(a.items) != len(b.items):
                return FALSE
            return AND(*[self.equal(x, y, st) for x, y in zip(a.items, b.items)])
        for x, y in ((a, b), (b, a)):
            c = self.cell(x, st)
            if isinstance(c, Coll):
                d = self.cell(y, st)
                if (isinstance(d, Coll) and not d.gens) or y is T("seq"):
                    return NOT(self.truth(x, st))
                if not c.gens:
                    return NOT(self.truth(y, st))
                if c.kind == "set":
                    return self.set_eq(x, y, st)
        ta, tb = self.term(a, st), self.term(b, st)
        if ta.op == "setc" and tb.op == "setc":
            return self.set_eq(ta, tb, st)
        return EQ(ta, tb)

    def set_eq(self, a, b, st):
        x, y = fresh(), fresh()
        l = EXISTS([x], AND(self.contains(x, a, st), NOT(self.contains(x, b, st))))
        r = EXISTS([y], AND(self.contains(y, b, st), NOT(self.contains(y, a, st))))
        return AND(NOT(l), NOT(r))

    def truth(self, v, st: St) -> T:
        if isinstance(v, Ref):
            c = st.heap[v.id]
            if isinstance(c, Coll):
                out = []
                for g in c.gens:
                    if isinstance(g, AccMark):
                        out.append(T("pred", "accnonempty", g.var))
                    else:
                        g = instantiate(g)
                        out.append(EXISTS(g.vars(), g.full()))
                return OR(*out)
            return TRUE
        if isinstance(v, Tup):
            return const(bool(v.items))
        if not isinstance(v, T):
            return TRUE
        if is_formula(v):
            return v
        if v.op == "const":
            return const(bool(v.args[0]))
        if v.op == "len":
            return self.nonempty(v.args[0], st)
        if v.op == "ite":
            return OR(AND(v.args[0], self.truth(v.args[1], st)), AND(NOT(v.args[0]), self.truth(v.args[2], st)))
        if self.P.is_collection(v):
            return self.nonempty(v, st)
        if v.op == "lam":
            return TRUE
        if v.op == "first" and v.args[0].op == "seqgen" and v.args[0].args[0] == 1:
            _, x, _, elem, src = v.args[0].args
            if elem is x and isinstance(src, T) and src.op in ("dirpaths", "undirpaths"):
                return TRUE  # paths are never empty
        ty = TYPES.get(v, "")
        if ty == "optobj":
            return NOT(EQ(v, NONE))
        return T("truthy", v)

    def nonempty(self, t: T, st) -> T:
        x = fresh(t)
        if t.op == "var" or not self.P.is_collection(t):
            return T("pred", "nonempty", t)
        return EXISTS([x], IN(x, t))

    def iterate(self, v, st: St) -> List[Any]:
        """generators of the elements of v"""
        if isinstance(v, Ref):
            c = st.heap[v.id]
            if isinstance(c, Coll):
                out = []
                if (
                    c.kind == "set"
                    and not any(isinstance(g, AccMark) for g in c.gens)
                    and any(g.binders for g in c.gens)
                    and all(isinstance(g.elem, T) and g.elem.op != "tuple" for g in c.gens)
                ):
                    # the order of a set is arbitrary
                    x = fresh()
                    return [Gen(((x, None),), self.contains(x, c, st), x)]
                for g in c.gens:
                    if isinstance(g, AccMark):
                        x = fresh(T("accc", g.var))
                        out.append(Gen(((x, T("accc", g.var)),), TRUE, x))
                        continue
                    g = instantiate(g)
                    if c.kind == "dict":
                        g = Gen(g.binders, g.guard, kv(g.elem)[0])
                    out.append(g)
                return out
            if isinstance(c, ModelCell):
                return self.iterate(T("nodes", c.G), st)
            return self.iterate(self.term(v, st), st)
        if isinstance(v, Tup):
            return [Gen((), TRUE, i) for i in v.items]
        t = self.term(v, st)
        return self.iter_term(t, st)

    def iter_term(self, t: T, st) -> List[Gen]:
        if t.op == "setc":
            x = fresh()
            return [Gen(((x, None),), subst(t.args[2], {t.args[1]: x}), x)]
        if t.op == "seq":
            out = []
            for g in t.args:
                out += self.iter_term(g, st)
            return out
        if t.op == "spread":
            return self.iter_term(t.args[0], st)
        if t.op == "seqgen":
            n = t.args[0]
            vs, guard, elem, srcs = t.args[1 : 1 + n], t.args[1 + n], t.args[2 + n], t.args[3 + n :]
            return [instantiate(Gen(tuple(zip(vs, srcs)), guard, untuple(elem)))]
        if t.op == "ugen":
            n = t.args[0]
            return [
                instantiate(Gen(tuple((v, None) for v in t.args[1 : 1 + n]), t.args[1 + n], untuple(t.args[2 + n])))
            ]
        if t.op == "ite":
            c = t.args[0]
            a = [Gen(g.binders, AND(c, g.guard), g.elem) for g in self.iter_term(t.args[1], st)]
            b = [Gen(g.binders, AND(NOT(c), g.guard), g.elem) for g in self.iter_term(t.args[2], st)]
            return a + b
        if t.op == "tuple":
            return [Gen((), TRUE, untuple(i)) for i in t.args]
        if t.op == "const":
            if isinstance(t.args[0], (tuple, frozenset, str)):
                return [Gen((), TRUE, const(i)) for i in t.args[0]]
            if t.args[0] is None:
                return []
        if t.op == "range":
            a, b = t.args
            src = T("range", const(0), tm.add(b, a, -1))
            if src.args[1].op == "const" and 0 <= src.args[1].args[0] <= 8:
                return [Gen((), TRUE, tm.add(a, const(i))) for i in range(src.args[1].args[0])]
            x = fresh(src)
            return [Gen(((x, src),), TRUE, tm.add(a, x))]
        r = self.P.iter_hook(t, st)
        if r is not None:
            return r
        x = fresh(t)
        return [Gen(((x, t),), TRUE, x)]

    # ------------------------------------------------------------------ merging

    def merge_val(self, c: T, a, b, sa: St, sb: St, st: St):
        if a is b or (not isinstance(a, T) and a == b):
            return a
        if isinstance(a, T) and isinstance(b, T):
            r = self.P.merge_terms(c, a, b)
            return r if r is not None else ITE(c, a, b)
        ca = sa.heap.get(a.id) if isinstance(a, Ref) else (Coll("tuple", tuple(Gen((), TRUE, i) for i in a.items)) if isinstance(a, Tup) else None)
        cb = sb.heap.get(b.id) if isinstance(b, Ref) else (Coll("tuple", tuple(Gen((), TRUE, i) for i in b.items)) if isinstance(b, Tup) else None)
        if isinstance(a, Tup) and isinstance(b, Tup) and len(a.items) == len(b.items):
            return Tup(tuple(self.merge_val(c, x, y, sa, sb, st) for x, y in zip(a.items, b.items)))
        # an optional container parameter that is None is an empty container
        for x, cx, y, cond in ((a, ca, b, c), (b, cb, a, NOT(c))):
            if isinstance(y, T) and isinstance(cx, Coll) and not cx.gens and TYPES.get(y, "").startswith("opt"):
                if cond is EQ(y, NONE) or cond is NOT(self.truth(y, st)):
                    return y
        if isinstance(ca, ModelCell) and isinstance(cb, ModelCell):
            r = self.new(st, self.merge_cell(c, ca, cb, sa, sb, st))
            for x, cond in ((a, c), (b, NOT(c))):
                if x.id in sa.heap and x.id in sb.heap:
                    # a model known under another name: what happens to the one happens to the other
                    st.heap.put(x.id, View(cond, r.id, st.heap.raw(x.id)))
                    self.alias.setdefault(r.id, []).append((cond, x.id))
            return r
        if any(isinstance(x, T) and (is_formula(x) or x.op == "const" and isinstance(x.args[0], (int, float, bool))) for x in (a, b)):
            return ITE(c, self.term(a, sa), self.term(b, sb))
        if any(isinstance(x, T) and x.op in ("new", "partial", "model", "lam") for x in (a, b)) and not isinstance(ca, (ModelCell, InstCell)) and not isinstance(cb, (ModelCell, InstCell)):
            return ITE(c, self.term(a, sa), self.term(b, sb))
        if isinstance(ca, Coll) or isinstance(cb, Coll):
            ga = list(ca.gens) if isinstance(ca, Coll) else self.iterate(a, sa)
            gb = list(cb.gens) if isinstance(cb, Coll) else self.iterate(b, sb)
            if isinstance(a, T) and a is NONE or isinstance(b, T) and b is NONE:
                return ITE(c, self.term(a, sa), self.term(b, sb))
            kind = (ca or cb).kind if (ca is None or cb is None or ca.kind == cb.kind) else "list"
            for gs, s in ((ga, sa), (gb, sb)):
                for i in range(len(gs)):
                    pass
            return self.new(st, self.merge_cell(c, Coll(kind, tuple(ga)), Coll(kind, tuple(gb)), sa, sb, st))
        return ITE(c, self.term(a, sa), self.term(b, sb))

    def identical(self, i: int, j: int) -> T:
        if i == j:
            return TRUE
        i, j = max(i, j), min(i, j)
        return OR(*[AND(c, self.identical(k, j)) for c, k in self.alias.get(i, ())])

    def merge_raw(self, c: T, a, b, sa, sb, st):
        if a is b:
            return a
        if type(a) is View and type(b) is View and a.new == b.new:
            return View(OR(AND(c, a.c), AND(NOT(c), b.c)), a.new, self.merge_raw(c, a.base, b.base, sa, sb, st))
        if type(a) is View:
            return View(AND(c, a.c), a.new, self.merge_raw(c, a.base, b, sa, sb, st))
        if type(b) is View:
            return View(AND(NOT(c), b.c), b.new, self.merge_raw(c, a, b.base, sa, sb, st))
        return self.merge_cell(c, a, b, sa, sb, st)

    def merge_cell(self, c: T, a, b, sa, sb, st):
        if a == b:
            return a
        if isinstance(a, Coll) and isinstance(b, Coll):
            n = 0
            while n < min(len(a.gens), len(b.gens)) and a.gens[n] == b.gens[n]:
                n += 1
            out = list(a.gens[:n])
            for g in a.gens[n:]:
                if isinstance(g, AccMark):
                    x = fresh(T("accc", g.var))
                    g = Gen(((x, T("accc", g.var)),), TRUE, x)
                out.append(Gen(g.binders, AND(c, g.guard), g.elem))
            for g in b.gens[n:]:
                if isinstance(g, AccMark):
                    x = fresh(T("accc", g.var))
                    g = Gen(((x, T("accc", g.var)),), TRUE, x)
                out.append(Gen(g.binders, AND(NOT(c), g.guard), g.elem))
            return Coll(a.kind, tuple(out))
        if isinstance(a, ModelCell) and isinstance(b, ModelCell):
            fs = self.merge_fields(c, a.fields, b.fields, sa, sb, st)
            mt = self.P.merge_terms
            f = lambda x, y: x if x is y else (mt(c, x, y) or ITE(c, x, y))  # noqa
            return ModelCell(a.cls, f(a.G, b.G), f(a.R, b.R), f(a.C, b.C), fs)
        if isinstance(a, InstCell) and isinstance(b, InstCell):
            return InstCell(a.cls, self.merge_fields(c, a.fields, b.fields, sa, sb, st, self.P.unset_field(a)), a.tag)
        raise Opaque("cannot merge objects")

    def merge_fields(self, c, fa, fb, sa, sb, st, unset=lambda k: T("unset", k)):
        da, db = dict(fa), dict(fb)
        out = {}
        for k in sorted(set(da) | set(db)):
            if k in da and k in db:
                out[k] = self.merge_val(c, da[k], db[k], sa, sb, st)
            else:
                out[k] = self.merge_val(c, da[k] if k in da else unset(k), db[k] if k in db else unset(k), sa, sb, st)
        return tuple(out.items())

    def merge(self, c: T, a: St, b: St, pc: Optional[T] = None) -> St:
        st = St({}, Heap(), TRUE)
        if (EVENTS in a.heap) != (EVENTS in b.heap):
            for s in (a, b):
                s.heap.setdefault(EVENTS, Coll("list"))
        differ = []
        for i in set(a.heap) | set(b.heap):
            if i in a.heap and i in b.heap:
                if a.heap.raw(i) is b.heap.raw(i):
                    st.heap.put(i, a.heap.raw(i))
                else:
                    differ.append(i)
            else:
                st.heap.put(i, a.heap.raw(i) if i in a.heap else b.heap.raw(i))
        for i in differ:
            st.heap.put(i, self.merge_raw(c, a.heap.raw(i), b.heap.raw(i), a, b, st))
        for n in set(a.env) | set(b.env):
            if n in a.env and n in b.env:
                st.env[n] = self.merge_val(c, a.env[n], b.env[n], a, b, st)
            else:
                st.env[n] = a.env.get(n, b.env.get(n))
        st.pc = pc if pc is not None else OR(a.pc, b.pc)
        return st

    # ------------------------------------------------------------------ statements

    def block(self, body, st: Optional[St], fr: Fr) -> Optional[St]:
        for s in body:
            if st is None:
                return None
            st = self.stmt(s, st, fr)
        return st

    def stmt(self, s, st: St, fr: Fr) -> Optional[St]:
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise Opaque(f"statement {type(s).__name__}")
        return m(s, st, fr)

    def s_Expr(self, s, st, fr):
        if isinstance(s.value, ast.Constant):
            return st
        if isinstance(s.value, (ast.Yield, ast.YieldFrom)):
            self.do_yield(s.value, st, fr)
            return st
        e = s.value
        if (
            isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == "append" and len(e.args) == 1 and not e.keywords
            and isinstance(e.func.value, ast.Call) and isinstance(e.func.value.func, ast.Attribute) and e.func.value.func.attr == "setdefault"
            and len(e.func.value.args) == 2 and not e.func.value.keywords and isinstance(e.func.value.func.value, ast.Attribute)
            and isinstance(e.func.value.args[0], (ast.Name, ast.Constant)) and isinstance(e.func.value.args[1], ast.List)
        ):
            # a list in a dictionary of an object, made when it is missing
            d, (k, default) = e.func.value.func.value, e.func.value.args
            at = lambda ctx: ast.Subscript(value=d, slice=k, ctx=ctx)  # noqa
            test = ast.Compare(left=k, ops=[ast.NotIn()], comparators=[d])
            make = ast.Assign(targets=[at(ast.Store())], value=ast.List(elts=[*default.elts, e.args[0]], ctx=ast.Load()))
            add = ast.Expr(value=ast.Call(func=ast.Attribute(value=at(ast.Load()), attr="append", ctx=ast.Load()), args=e.args, keywords=[]))
            whole = ast.If(test=test, body=[make], orelse=[add])
            for n in ast.walk(whole):
                ast.copy_location(n, s)
            return self.stmt(ast.fix_missing_locations(whole), st, fr)
        if (
            isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == "update" and len(e.args) == 1 and not e.keywords
            and isinstance(e.func.value, ast.Attribute) and e.func.value.attr == "model" and isinstance(e.args[0], ast.Name)
        ):
            # every relationship of a mapping is set, one by one
            x = ast.Name(id="$x", ctx=ast.Load())
            at = lambda d, ctx: ast.Subscript(value=d, slice=x, ctx=ctx)  # noqa
            whole = ast.For(
                target=ast.Name(id="$x", ctx=ast.Store()), iter=e.args[0],
                body=[ast.Assign(targets=[at(e.func.value, ast.Store())], value=at(e.args[0], ast.Load()))], orelse=[],
            )
            for n in ast.walk(whole):
                ast.copy_location(n, s)
            return self.stmt(ast.fix_missing_locations(whole), st, fr)
        v = self.ev(s.value, st, fr)
        if isinstance(v, T) and v.op in ("call", "mcall") and not self.P.is_ignorable(v):
            self.event(st, T("do", v))
        return st if st.pc is not FALSE else None

    def event(self, st: St, t: T) -> None:
        c = st.heap.get(EVENTS, Coll("list"))
        if c.gens and isinstance(c.gens[-1], Gen) and not c.gens[-1].binders and c.gens[-1].elem is t and t.op == "do":
            return
        st.heap[EVENTS] = Coll("list", c.gens + (Gen((), TRUE, t),))

    def do_yield(self, y, st, fr):
        r = st.env["$yield"]
        c = st.heap[r.id]
        if isinstance(y, ast.Yield):
            e = self.ev(y.value, st, fr) if y.value is not None else NONE
            if fr.func is not None and any("contextmanager" in d for d in fr.func.decorators):
                # what happens before and after the body of the with statement, also when it fails
                guarded = any(x in ("finally", "*", "Exception", "BaseException") for x in fr.catching)
                self.event(st, T("do", T("yielded", guarded)))
            st.heap[r.id] = Coll("iter", c.gens + (Gen((), TRUE, self.freeze(e, st)),))
        else:
            gs = self.iterate(self.ev(y.value, st, fr), st)
            st.heap[r.id] = Coll("iter", c.gens + tuple(gs))

    def freeze(self, v, st):
        return v

    def s_Pass(self, s, st, fr):
        return st

    def s_Import(self, s, st, fr):
        for a in s.names:
            st.env[a.asname or a.name.split(".")[0]] = Ext(a.name if a.asname else a.name.split(".")[0])
        return st

    def s_ImportFrom(self, s, st, fr):
        for a in s.names:
            r = self.prog.resolve_dotted(fr.module.imports.get(a.asname or a.name, f"{s.module}.{a.name}"))
            st.env[a.asname or a.name] = self.wrap_global(r, fr.module)
        return st

    def s_Global(self, s, st, fr):
        raise Opaque("global")

    s_Nonlocal = s_Global

    def s_FunctionDef(self, s, st, fr):
        fn: Any = FnVal(None, s, st, None, fr.module, fr.cls, s.name)
        for d in reversed(s.decorator_list):
            name = ast.unparse(d)
            if name.split("(")[0].split(".")[-1] in ("lru_cache", "cache", "wraps"):
                continue
            raise Opaque(f"decorator {name}")
        st.env[s.name] = fn
        return st

    def s_Return(self, s, st, fr):
        v = self.ev(s.value, st, fr) if s.value is not None else NONE
        fr.exits.append(Exit("return", st.pc, v, st))
        return None

    def s_Raise(self, s, st, fr):
        name = "reraise"
        if s.exc is not None:
            e = s.exc.func if isinstance(s.exc, ast.Call) else s.exc
            name = ast.unparse(e).split(".")[-1]
            if isinstance(e, ast.Name) and e.id in st.env:
                name = "dynamic"
        fr.exits.append(Exit("raise", st.pc, name, st))
        return None

    def s_Assert(self, s, st, fr):
        c = self.cond(s.test, st, fr)
        fr.exits.append(Exit("raise", AND(st.pc, NOT(c)), "AssertionError", st.fork(NOT(c))))
        st.pc = AND(st.pc, c)
        return st

    def s_Break(self, s, st, fr):
        fr.exits.append(Exit("break", st.pc, None, st))
        return None

    def s_Continue(self, s, st, fr):
        fr.exits.append(Exit("continue", st.pc, None, st))
        return None

    def s_Delete(self, s, st, fr):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                base = self.ev(t.value, st, fr)
                key = self.ev(t.slice, st, fr)
                self.P.delitem(base, key, st, fr)
            elif isinstance(t, ast.Name):
                st.env.pop(t.id, None)
            else:
                raise Opaque("del target")
        return st

    def s_Assign(self, s, st, fr):
        v = self.ev(s.value, st, fr)
        for t in s.targets:
            self.assign(t, v, st, fr)
        return st

    def s_AnnAssign(self, s, st, fr):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, st, fr), st, fr)
        return st

    def s_AugAssign(self, s, st, fr):
        cur = self.ev(self._load(s.target), st, fr)
        rhs = self.ev(s.value, st, fr)
        c = self.cell(cur, st)
        if isinstance(c, Coll):
            if isinstance(s.op, ast.Add):
                self.P.coll_method(cur, "extend", [rhs], {}, st, fr)
                return st
            m = {ast.BitOr: "update", ast.BitAnd: "intersection_update", ast.Sub: "difference_update"}.get(type(s.op))
            if m:
                self.P.coll_method(cur, m, [rhs], {}, st, fr)
                return st
        self.assign(s.target, self.binop(s.op, cur, rhs, st, fr), st, fr)
        return st

    def _load(self, t):
        import copy

        t = copy.copy(t)
        t.ctx = ast.Load()
        return t

    def assign(self, t, v, st, fr):
        if isinstance(t, ast.Name):
            st.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v, st, fr)
        elif isinstance(t, ast.Attribute):
            self.P.setattr(self.ev(t.value, st, fr), t.attr, v, st, fr)
        elif isinstance(t, ast.Subscript):
            base = self.ev(t.value, st, fr)
            if isinstance(t.slice, ast.Slice):
                raise Opaque("slice assignment")
            self.P.setitem(base, self.ev(t.slice, st, fr), v, st, fr)
        else:
            raise Opaque(f"target {type(t).__name__}")

    def unpack(self, elts, v, st, fr):
        if isinstance(v, T) and v.op == "tuple":
            v = Tup(v.args)
        if isinstance(v, Tup) and len(v.items) == len(elts) and not any(isinstance(e, ast.Starred) for e in elts):
            for e, i in zip(elts, v.items):
                self.assign(e, i, st, fr)
            return
        if len(elts) == 1 and not isinstance(elts[0], ast.Starred):
            t = self.term(v, st)
            if "ValueError" in fr.catching:
                bad = NOT(T("pred", "singleton", t))
                fr.exits.append(Exit("raise", AND(st.pc, bad), "ValueError", st.fork(bad)))
                st.pc = AND(st.pc, NOT(bad))
            self.assign(elts[0], T("theonly", t), st, fr)
            return
        c = self.cell(v, st)
        if isinstance(c, Coll) and len(c.gens) == len(elts) and all(isinstance(g, Gen) and not g.binders and g.guard is TRUE for g in c.gens):
            for e, g in zip(elts, c.gens):
                self.assign(e, g.elem, st, fr)
            return
        for i, e in enumerate(elts):
            if isinstance(e, ast.Starred):
                self.assign(e.value, self.P.subscript_slice(v, i, None, st, fr), st, fr)
                if i != len(elts) - 1:
                    raise Opaque("starred in the middle")
            else:
                self.assign(e, self.P.subscript(v, const(i), st, fr), st, fr)

    def s_If(self, s, st, fr):
        c = self.cond(s.test, st, fr)
        if c is TRUE:
            return self.block(s.body, st, fr)
        if c is FALSE:
            return self.block(s.orelse, st, fr)
        a = self.block(s.body, st.fork(c), fr)
        b = self.block(s.orelse, st.fork(NOT(c)), fr)
        return self.join(c, a, b, st.pc)

    def join(self, c, a, b, pc0):
        if a is None:
            return b
        if b is None:
            return a
        pc = None
        if a.pc is AND(pc0, c) and b.pc is AND(pc0, NOT(c)):
            pc = pc0
        return self.merge(c, a, b, pc)

    def s_With(self, s, st, fr):
        for it in s.items:
            v = self.ev(it.context_expr, st, fr)
            t = self.term(v, st)
            if not self.P.is_ignorable_ctx(t):
                self.event(st, T("with", t))
            if it.optional_vars is not None:
                self.assign(it.optional_vars, T("enter", t), st, fr)
        return self.block(s.body, st, fr)

    def s_Try(self, s, st, fr):
        caught = []
        for h in s.handlers:
            if h.type is None:
                caught.append(["*"])
            elif isinstance(h.type, ast.Tuple):
                caught.append([ast.unparse(e).split(".")[-1] for e in h.type.elts])
            else:
                caught.append([ast.unparse(h.type).split(".")[-1]])
        flat = tuple(n for c in caught for n in c)
        if s.finalbody:
            flat += ("finally",)
        sub = replace(fr, exits=[], catching=fr.catching + flat)
        st0 = st.fork()
        out = self.block(s.body, st, sub)
        if out is not None and s.orelse:
            n0 = len(sub.exits)
            out = self.block(s.orelse, out, replace(fr, exits=sub.exits))
            keep = sub.exits[n0:]
            sub.exits = sub.exits[:n0]
            fr.exits += keep
        handled = []
        for e in sub.exits:
            if e.kind == "raise":
                hit = None
                for names, h in zip(caught, s.handlers):
                    if any(self.exc_match(e.value, n) for n in names):
                        hit = h
                        break
                if hit is None:
                    fr.exits.append(e)
                    continue
                est = e.st.fork()
                est.pc = e.cond
                if hit.name:
                    est.env[hit.name] = T("exc", e.value)
                r = self.block(hit.body, est, fr)
                if r is not None:
                    handled.append((e.cond, r))
            else:
                fr.exits.append(e)
        for c, r in handled:
            if out is None:
                out = r
            else:
                out = self.merge(c, r, out)
        if s.finalbody:
            if any(e for e in sub.exits if e.kind != "raise"):
                raise Opaque("finally with early exits")
            out = self.block(s.finalbody, out, fr) if out is not None else None
        return out

    def exc_match(self, raised: str, handler: str) -> bool:
        if handler in ("*", "Exception", "BaseException") or raised == handler:
            return True
        sup = {"KeyError": "LookupError", "IndexError": "LookupError", "ParentsNotReadyException": "ValueError"}
        return sup.get(raised) == handler

    # ------------------------------------------------------------------ loops

    def s_For(self, s, st, fr):
        src = self.ev(s.iter, st, fr)
        gens = self.iterate(src, st)
        cur: Optional[St] = st
        brk: List[Exit] = []
        for g in gens:
            if cur is None:
                break
            cur = self.loop_gen(s, g, cur, fr, brk)
        if cur is not None and s.orelse:
            cur = self.block(s.orelse, cur, fr)
        for e in reversed(brk):
            cur = e.st if cur is None else self.merge(e.cond, e.st, cur)
        return cur

    def loop_gen(self, s, g: Gen, st: St, fr: Fr, brk: List[Exit]) -> Optional[St]:
        if not g.binders:
            # a single (possibly guarded) element
            def once(b: St) -> Optional[St]:
                sub = replace(fr, exits=[])
                self.assign(s.target, g.elem, b, sub)
                out = self.block(s.body, b, sub)
                for e in sub.exits:
                    if e.kind == "continue":
                        out = e.st if out is None else self.merge(e.cond, e.st, out)
                    elif e.kind == "break":
                        brk.append(e)
                    else:
                        fr.exits.append(e)
                return out

            if g.guard is TRUE:
                return once(st)
            a = once(st.fork(g.guard))
            return self.join(g.guard, a, st.fork(NOT(g.guard)), st.pc)
        live = upward_exposed(s.body, target_names(s.target))
        return self.sym_loop(g, st, fr, brk, lambda b, sub: (self.assign(s.target, g.elem, b, sub), self.block(s.body, b, sub))[1], live, bool(s.orelse))

    def run_body(self, b: St, fr: Fr, body):
        sub = replace(fr, exits=[])
        out = body(b, sub)
        others = []
        for e in sub.exits:
            if e.kind == "continue":
                out = e.st if out is None else self.merge(e.cond, e.st, out)
            else:
                others.append(e)
        return out, others

    def sym_loop(self, g: Gen, st: St, fr: Fr, brk: List[Exit], body, live=None, for_else=False) -> Optional[St]:
        # 1. which variables / cells does the body change?
        probe = st.fork()
        probe.pc = TRUE
        out, ex = self.run_body(probe, fr, body)
        cenv: List[str] = []
        ccell: List[int] = []
        mchg: Dict[int, set] = {}
        for o in [out] + [e.st for e in ex if e.kind in ("break", "return")]:
            if o is None:
                continue
            self.model_changes(st, o, mchg)
            for n, v in o.env.items():
                if n in st.env and not self._same(st.env[n], v) and n not in cenv:
                    cenv.append(n)
            for i, c in o.heap.items():
                if i in st.heap and o.heap.raw(i) is not st.heap.raw(i) and c != st.heap[i] and i not in ccell:
                    ccell.append(i)
        if EVENTS not in st.heap:
            for o in [out] + [e.st for e in ex]:
                if o is not None and EVENTS in o.heap and EVENTS not in ccell:
                    ccell.append(EVENTS)
        cenv.sort()
        ccell.sort()
        # variables that every iteration assigns before reading them carry nothing between iterations
        dead = [n for n in cenv if live is not None and n not in live]
        if dead:
            cenv = [n for n in cenv if n not in dead]
            st = st.fork()
            for n in dead:
                st.env[n] = T("unset", n)
        # 2. run with symbolic accumulators
        b = st.fork()
        b.pc = TRUE
        accs: Dict[T, Any] = {}
        env_acc: Dict[str, T] = {}
        cell_acc: Dict[int, Any] = {}
        for n in cenv:
            v0 = st.env[n]
            if isinstance(v0, (T, Tup)) or isinstance(v0, Ref):
                c0 = self.cell(v0, st)
                a = fresh()
                if isinstance(c0, Coll):
                    # variable rebound to another collection object
                    r = self.new(b, Coll(c0.kind, (AccMark(a),)))
                    b.env[n] = r
                elif isinstance(c0, ModelCell):
                    raise Opaque("model variable rebound in a loop")
                else:
                    b.env[n] = a
                    if isinstance(v0, T) and is_formula(v0):
                        b.env[n] = T("truthy", a)
                env_acc[n] = a
                accs[a] = ("env", n)
            elif isinstance(v0, Bound) and isinstance(v0.recv, T):
                # an attribute of an opaque value
                a = fresh()
                st.env[n] = self.term(v0, st)
                b.env[n] = a
                env_acc[n] = a
                accs[a] = ("env", n)
            else:
                raise Opaque("loop-carried callable")
        for i in ccell:
            c0 = st.heap.get(i, Coll("list"))
            if isinstance(c0, Coll):
                a = fresh()
                b.heap[i] = Coll(c0.kind, (AccMark(a),))
                cell_acc[i] = a
                accs[a] = ("cell", i)
            elif isinstance(c0, ModelCell):
                vers = {k: fresh() if k in mchg.get(i, "GRC") else getattr(c0, k) for k in "GRC"}
                cell_acc[i] = tuple(vers[k] for k in "GRC")
                b.heap[i] = ModelCell(c0.cls, *cell_acc[i], c0.fields)
                for k in "GRC":
                    if vers[k] is not getattr(c0, k):
                        accs[vers[k]] = ("model" + k, i)
            elif isinstance(c0, InstCell):
                fs = dict(c0.fields)
                o2 = out.heap[i] if out is not None else c0
                fd = []
                for k, v in o2.fields:
                    if k not in fs or not self._same(fs[k], v):
                        a = fresh()
                        accs[a] = ("field", (i, k))
                        fd.append((k, a))
                        fs[k] = a
                cell_acc[i] = fd
                b.heap[i] = InstCell(c0.cls, tuple(fs.items()), c0.tag)
            else:
                raise Opaque("loop changes an opaque object")
        out, ex = self.run_body(b, fr, body)
        vs = g.vars()
        full = g.full()
        accset = frozenset(accs)

        def dep(x) -> bool:
            return bool(free_vars(x) & accset)

        res = st.fork()
        carried = False
        plan = []
        if out is not None:
            for n in cenv:
                a = env_acc[n]
                plan.append(("env", n, self._delta_val(out.env.get(n), a, st.env[n], g, out, st, dep)))
            for i in ccell:
                c0 = st.heap.get(i, Coll("list"))
                c1 = out.heap[i]
                if isinstance(c0, Coll):
                    plan.append(("cell", i, self._delta_coll(c1, cell_acc[i], c0, g, out, dep)))
                elif isinstance(c0, ModelCell):
                    plan.append(("cell", i, self._delta_model(c1, cell_acc[i], c0, g, dep)))
                else:
                    plan.append(("cell", i, self._delta_inst(c1, cell_acc[i], c0, g, out, st, dep)))
            carried = any(p[2] is None for p in plan)
        conds = [(e, e.cond) for e in ex]
        if any(dep(c) for _, c in conds) or any(e.kind == "return" and self._dep_val(e.value, e.st, dep) for e in ex):
            carried = True
        if not carried and self._order_matters(ex, plan, st, g):
            carried = True
        if carried:
            return self.fold(g, st, fr, brk, for_else, cenv, ccell, env_acc, cell_acc, accs, out, ex)
        for kind, k, v in plan:
            if kind == "env":
                res.env[k] = v if not isinstance(v, Coll) else self.new(res, v)
            else:
                res.heap[k] = v
        # 3. exits
        left = TRUE
        for e, c in conds:
            cc = EXISTS(vs, AND(full, c))
            here = AND(st.pc, cc)
            if e.kind == "raise":
                fr.exits.append(Exit("raise", here, e.value, st))
            elif e.kind == "return":
                v = self.first(g, c, e.value, e.st, res)
                est = res.fork()
                est.pc = AND(here)
                fr.exits.append(Exit("return", est.pc, v, est))
            elif e.kind == "break":
                est = res.fork()
                est.pc = AND(st.pc, cc)
                for n in cenv:
                    v = e.st.env.get(n)
                    if self._same(v, out.env.get(n) if out is not None else None):
                        pass
                    est.env[n] = self._at_break(v, env_acc[n], st.env[n], res.env.get(n), g, c, e.st, est)
                brk.append(Exit("break", est.pc, None, est))
            left = AND(left, NOT(cc))
        if left is FALSE:
            return None
        res.pc = AND(st.pc, left)
        return res

    def _order_matters(self, ex, plan, st, g) -> bool:
        """does it matter which exit is reached first, or how many iterations ran before it?"""
        stopping = [e for e in ex if e.kind in ("break", "return")]
        if not stopping:
            return False
        for e in ex if any(e.kind == "break" for e in stopping) else ():
            # an iteration that stops the loop keeps the later ones from raising
            if e.kind == "raise" and free_vars(e.cond) & set(g.vars()) and not equivalent(AND(st.pc, g.full(), e.cond), FALSE)[0]:
                return True
        outcomes = set()
        for e in stopping:
            v = e.value
            if e.kind == "return" and v is not None:
                try:
                    v = self.term(v, e.st)
                except Opaque:
                    return True
            outcomes.add((e.kind, v))
        if len(outcomes) > 1:
            return True
        for kind, k, v in plan:
            if kind == "env" and all(e.kind == "return" for e in stopping):
                continue  # local variables are gone after the return
            v0 = st.env.get(k) if kind == "env" else st.heap.get(k)
            if not self._same(v, v0):
                return True
        return False

    def model_changes(self, st, o, mchg):
        for i, c in o.heap.items():
            if o.heap.raw(i) is st.heap.raw(i):
                continue
            c0 = st.heap.get(i)
            if isinstance(c, ModelCell) and isinstance(c0, ModelCell):
                for k in "GRC":
                    if getattr(c, k) is not getattr(c0, k):
                        mchg.setdefault(i, set()).add(k)

    def _dep_val(self, v, st, dep):
        try:
            return dep(self.term(v, st))
        except Opaque:
            return False

    def _same(self, a, b) -> bool:
        return a is b or (not isinstance(a, T) and not isinstance(b, T) and type(a) is type(b) and a == b)

    def _at_break(self, v, a, v0, vnorm, g, c, est, tgt):
        if isinstance(v, T):
            if v is a or v is T("truthy", a):
                return vnorm if vnorm is not None else v0
            if a not in free_vars(v):
                if not (free_vars(v) & frozenset(g.vars())):
                    return v
                return self.first(g, c, v, est, tgt)
        raise Opaque("complex value at break")

    def first(self, g: Gen, c: T, v, est: St, tgt: St):
        """the value of v at the first iteration satisfying c"""
        if isinstance(v, T) and not (free_vars(v) & frozenset(g.vars())):
            return v
        if not isinstance(v, T):
            v = self.term(v, est)
            if not (free_vars(v) & frozenset(g.vars())):
                return untuple(v)
        gt = gen_term(Gen(g.binders, AND(g.guard, c), v), lambda e: e)
        return T("first", gt if gt.op != "spread" else T("seqgen", 1, *g.vars(), TRUE, v, g.binders[0][1]))

    def _delta_val(self, v, a, v0, g: Gen, out, st, dep):
        """summary of a scalar accumulator, or None if the loop carries it in an unrecognised way"""
        vs, full = g.vars(), g.full()
        if isinstance(v, Ref):
            c1 = out.heap[v.id]
            c0 = self.cell(v0, st)
            if isinstance(c1, Coll) and isinstance(c0, Coll):
                return self._delta_coll(c1, a, c0, g, out, dep)
            return None
        if not isinstance(v, T):
            if isinstance(v, Tup):
                t = self.term(v, out)
                if not dep(t):
                    return T("last", gen_term(Gen(g.binders, g.guard, t), lambda e: e), self.term(v0, st))
            return None
        if not isinstance(v0, T):
            return None
        me = T("truthy", a)
        if v is a or v is me:
            return v0
        if is_formula(v) and is_formula(v0):
            lo, hi = simp(subst(v, {me: FALSE, a: FALSE})), simp(subst(v, {me: TRUE, a: TRUE}))
            if dep(lo) or dep(hi):
                return None
            if hi is TRUE:
                return OR(v0, EXISTS(vs, AND(full, lo)))
            if lo is FALSE:
                return AND(v0, NOT(EXISTS(vs, AND(full, NOT(hi)))))
            return None
        lv = tm.leaves(v)
        # conditional overwrite
        keep = [c for c, x in lv if x is a or x is me]
        sets = [(c, x) for c, x in lv if not (x is a or x is me)]
        if sets and not any(dep(c) or dep(x) for c, x in sets):
            vals = {x for _, x in sets}
            c = OR(*[c for c, _ in sets])
            if len(vals) == 1 and not (free_vars(sets[0][1]) & frozenset(vs)):
                return ITE(EXISTS(vs, AND(full, c)), sets[0][1], v0)
            x = sets[-1][1]
            for cc, xx in reversed(sets[:-1]):
                x = ITE(cc, xx, x)
            return ITE(
                EXISTS(vs, AND(full, c)), T("last", gen_term(Gen(g.binders, AND(g.guard, c), x), lambda e: e)), v0
            )
        # running sum
        total = v0
        for c, x in lv:
            d = tm.add(x, a, -1)
            if dep(d) or dep(c):
                return None
            if d is const(0):
                continue
            total = tm.add(total, T("sum", gen_term(Gen(g.binders, AND(g.guard, c), d), lambda e: e)))
        return total

    def _delta_coll(self, c1: Coll, a, c0: Coll, g: Gen, out, dep):
        if not c1.gens or not isinstance(c1.gens[0], AccMark) or c1.gens[0].var is not a:
            if not any(isinstance(h, AccMark) for h in c1.gens):
                # rebound to a new collection in every iteration: the value of the last one
                t = self.term(c1, out)
                if not dep(t):
                    t0 = self.term(c0, out)
                    return Coll(c1.kind, tuple(self.iter_opaque(T("last", gen_term(Gen(g.binders, g.guard, t), lambda e: e), t0))))
            return None
        new = []
        for h in c1.gens[1:]:
            if isinstance(h, AccMark):
                return None
            e = h.elem
            if dep(h.guard) or any(s is not None and dep(s) for _, s in h.binders):
                return None
            if self._dep_val(e, out, dep):
                return None
            new.append(Gen(g.binders + h.binders, AND(g.guard, h.guard), self._stable(e, out)))
        if len(new) > 1 and c0.kind not in ("set", "dict"):
            new = self._interleaved(new, len(g.binders), out)
        return Coll(c0.kind, c0.gens + tuple(new))

    def _interleaved(self, new, n, out):
        """several elements per iteration: their order is that of the iterations, not that of the statements"""
        if all(len(h.binders) == n and isinstance(h.elem, (T, Tup)) for h in new):
            alone = all(simp(AND(a.guard, b.guard)) is FALSE for i, a in enumerate(new) for b in new[i + 1 :])
            if alone:
                e = self.term(new[-1].elem, out)
                for h in reversed(new[:-1]):
                    e = ITE(h.guard, self.term(h.elem, out), e)
                return [Gen(new[0].binders, OR(*[h.guard for h in new]), e)]
        return [Gen(tuple((v, None) for v in h.vars()), h.full(), h.elem) for h in new]

    def _stable(self, e, out):
        """elements created inside the loop are frozen to terms"""
        if isinstance(e, Ref):
            return self.term(e, out)
        if isinstance(e, Tup):
            return Tup(tuple(self._stable(i, out) for i in e.items))
        return e

    def _delta_model(self, c1: ModelCell, accs, c0: ModelCell, g: Gen, dep):
        ag, ar, ac = accs
        parts = []
        for x, a, x0 in ((c1.G, ag, c0.G), (c1.R, ar, c0.R), (c1.C, ac, c0.C)):
            if x is a:
                parts.append(x0)
                continue
            r = self.P.delta_version(x, a, x0, g, dep)
            if r is None:
                return None
            parts.append(r)
        return ModelCell(c0.cls, *parts, c1.fields)

    def _delta_inst(self, c1, fd, c0, g, out, st, dep):
        fs = dict(c0.fields)
        f1 = dict(c1.fields)
        for k, a in fd:
            r = self._delta_val(f1[k], a, fs[k] if k in fs else self.P.unset_field(c0)(k), g, out, st, dep)
            if r is None:
                return None
            fs[k] = r
        for k in f1:
            fs.setdefault(k, f1[k])
        return InstCell(c0.cls, tuple(fs.items()), c0.tag)

    def fold(self, g, st, fr, brk, for_else, cenv, ccell, env_acc, cell_acc, accs, out, ex):
        """general loop-carried dependence: an uninterpreted fold over the normalised step"""
        if out is None and not ex:
            return None
        order = list(accs)
        inits, steps = [], []

        def cur(kind, k, s):
            if kind == "env":
                return self.term(s.env[k], s)
            if kind == "cell":
                return self.term(s.heap.get(k, Coll("list")), s)
            if kind == "field":
                c = s.heap[k[0]]
                return self.term(dict(c.fields).get(k[1], self.P.unset_field(c)(k[1])), s)
            c = s.heap[k]
            return {"modelG": c.G, "modelR": c.R, "modelC": c.C}[kind]

        # canonical order of accumulators: by the shape of their step, not by their name
        rows = []
        for a in order:
            kind, k = accs[a]
            step = cur(kind, k, out) if out is not None else T("never")
            rows.append((a, kind, k, cur(kind, k, st), step))
        rows.sort(key=lambda r: (_shape(r[4]), _shape(r[3])))
        gv = g.vars()
        srcs = [s if s is not None else T("unordered") for _, s in g.binders]
        if len(gv) > 1 and all(s is not None for _, s in g.binders) and any(free_vars(s) & set(gv) for s in srcs):
            # later sources depend on earlier variables: one source of tuples
            m = {v: fresh(tm.VAR_SRC.get(v)) for v in gv}
            srcs = [T("seqgen", len(gv), *m.values(), TRUE, T("tuple", *m.values()), *[subst(s, m) for s in srcs])]
        exits = []
        for e in ex:
            val = e.value if isinstance(e.value, str) else (self.term(e.value, e.st) if e.value is not None else NONE)
            exits.append((e, val))
        stopping = [e for e in ex if e.kind in ("break", "return")]
        accset = frozenset(r[0] for r in rows)

        def sliced(roots, only_exit=None):
            """the fold restricted to the accumulators that the roots depend on"""
            need = set(roots)
            # exits that end the loop matter to every accumulator
            for e in stopping:
                need |= free_vars(e.cond) & accset
            if only_exit is not None:
                need |= free_vars(only_exit[0].cond) & accset
                if isinstance(only_exit[1], T):
                    need |= free_vars(only_exit[1]) & accset
            while True:
                more = set(need)
                for r in rows:
                    if r[0] in need:
                        more |= free_vars(r[4]) & accset
                        for e in stopping:
                            if e.kind == "break":
                                more |= free_vars(cur(r[1], r[2], e.st)) & accset
                if more == need:
                    break
                need = more
            rs = [r for r in rows if r[0] in need]
            vs = [r[0] for r in rs]
            extra = []
            for e, val in exits:
                if e.kind == "break":
                    extra.append(T("exit", "break", e.cond, *[cur(r[1], r[2], e.st) for r in rs]))
                elif e.kind == "return" or (only_exit is not None and e is only_exit[0]):
                    v2 = val if only_exit is not None and e is only_exit[0] else "?"
                    extra.append(T("exit", e.kind, e.cond, v2))
            lam = T("lam", len(vs) + len(gv), *vs, *gv, T("step", *[r[4] for r in rs], *extra, g.guard))
            return T("fold", lam, T("tuple", *srcs), T("tuple", *[r[3] for r in rs])), rs

        res = st.fork()
        for a, kind, k, _, _ in rows:
            f, rs = sliced({a})
            v = T("foldout", [r[0] for r in rs].index(a), f)
            if kind == "env":
                v0 = st.env[k]
                c0 = self.cell(v0, st)
                if isinstance(c0, Coll):
                    res.env[k] = self.coll(res, c0.kind, self.iter_opaque(v))
                else:
                    res.env[k] = T("truthy", v) if isinstance(v0, T) and is_formula(v0) else v
            elif kind == "cell":
                c0 = st.heap.get(k, Coll("list"))
                res.heap[k] = Coll(c0.kind, tuple(self.iter_opaque(v)))
            elif kind == "field":
                c = res.heap[k[0]]
                fs = dict(c.fields)
                fs[k[1]] = v
                res.heap[k[0]] = InstCell(c.cls, tuple(fs.items()), c.tag)
            else:
                c = res.heap[k]
                res.heap[k] = replace(c, **{kind[-1]: v})
        for e, val in exits:
            if e.kind not in ("raise", "return"):
                continue
            f, _ = sliced(set(), (e, val if e.kind == "return" else e.value))
            cc = T("pred", "foldexit", e.kind if e.kind != "raise" else e.value, f)
            if e.kind == "raise":
                fr.exits.append(Exit("raise", AND(st.pc, cc), e.value, st))
                res.pc = AND(res.pc, NOT(cc))
            elif e.kind == "return":
                fr.exits.append(Exit("return", AND(st.pc, cc), T("foldret", f), res.fork(cc)))
                res.pc = AND(res.pc, NOT(cc))
        if for_else and any(e.kind == "break" for e in ex):
            # the values above already account for the iteration that stopped the loop
            f, _ = sliced(set())
            stop = res.fork()
            stop.pc = AND(res.pc, T("pred", "foldexit", "break", f))
            brk.append(Exit("break", stop.pc, None, stop))
            res.pc = AND(res.pc, NOT(T("pred", "foldexit", "break", f)))
        return res

    def iter_opaque(self, t):
        x = fresh(t)
        return [Gen(((x, t),), TRUE, x)]

    def s_While(self, s, st, fr):
        # summarise as an uninterpreted fold over an unbounded counter
        x = fresh(T("naturals"))
        g = Gen(((x, T("naturals")),), TRUE, x)

        def body(b, sub):
            c = self.cond(s.test, b, sub)
            if c is not TRUE:
                stop = b.fork(NOT(c))
                sub.exits.append(Exit("break", stop.pc, None, stop))
                b = b.fork(c)
            return self.block(s.body, b, sub)

        brk: List[Exit] = []
        probe = st.fork()
        out, ex = self.run_body(probe, replace(fr, exits=[]), body)
        # force the fold
        res = self.while_fold(g, st, fr, body)
        if s.orelse:
            raise Opaque("while-else")
        return res

    def while_fold(self, g, st, fr, body):
        probe = st.fork()
        probe.pc = TRUE
        out, ex = self.run_body(probe, fr, body)
        cenv, ccell = [], []
        mchg: Dict[int, set] = {}
        for o in [out] + [e.st for e in ex]:
            if o is None:
                continue
            self.model_changes(st, o, mchg)
            for n, v in o.env.items():
                if n in st.env and not self._same(st.env[n], v) and n not in cenv:
                    cenv.append(n)
            for i, c in o.heap.items():
                if i in st.heap and o.heap.raw(i) is not st.heap.raw(i) and c != st.heap[i] and i not in ccell:
                    ccell.append(i)
                if i == EVENTS and EVENTS not in st.heap and EVENTS not in ccell:
                    ccell.append(EVENTS)
        b = st.fork()
        b.pc = TRUE
        accs, env_acc, cell_acc = {}, {}, {}
        for n in sorted(cenv):
            v0 = st.env[n]
            c0 = self.cell(v0, st)
            a = fresh()
            if isinstance(c0, Coll):
                b.env[n] = self.new(b, Coll(c0.kind, tuple(self.iter_opaque(a))))
            elif isinstance(v0, (T, Tup)):
                b.env[n] = a if not (isinstance(v0, T) and is_formula(v0)) else T("truthy", a)
            else:
                raise Opaque("loop-carried object")
            accs[a] = ("env", n)
        for i in sorted(ccell):
            c0 = st.heap.get(i, Coll("list"))
            if isinstance(c0, Coll):
                a = fresh()
                b.heap[i] = Coll(c0.kind, tuple(self.iter_opaque(a)))
                accs[a] = ("cell", i)
            elif isinstance(c0, ModelCell):
                vers = {k: fresh() if k in mchg.get(i, "GRC") else getattr(c0, k) for k in "GRC"}
                b.heap[i] = ModelCell(c0.cls, *[vers[k] for k in "GRC"], c0.fields)
                for k in "GRC":
                    if vers[k] is not getattr(c0, k):
                        accs[vers[k]] = ("model" + k, i)
            else:
                raise Opaque("while loop changes an opaque object")
        out, ex = self.run_body(b, fr, body)
        return self.fold(g, st, fr, [], False, cenv, ccell, env_acc, cell_acc, accs, out, ex)

    # ------------------------------------------------------------------ expressions

    def cond(self, e, st, fr) -> T:
        if isinstance(e, ast.BoolOp):
            conj = isinstance(e.op, ast.And)
            cs: List[T] = []
            g = TRUE
            for x in e.values:
                cs.append(self.reached(g, x, st, fr, self.cond))
                g = AND(g, cs[-1] if conj else NOT(cs[-1]))
                if g is FALSE:
                    break
            return (AND if conj else OR)(*cs)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return NOT(self.cond(e.operand, st, fr))
        return self.truth(self.ev(e, st, fr), st)

    def reached(self, g: T, e, st: St, fr: Fr, how):
        """an operand of and/or, evaluated only in the case g"""
        if g is TRUE or not any(isinstance(x, (ast.Call, ast.Subscript, ast.NamedExpr)) for x in ast.walk(e)):
            return how(e, st, fr)
        sub = st.fork(g)
        pc = sub.pc
        v = how(e, sub, fr)
        same = sub.pc is pc and all(sub.env.get(k) is x for k, x in st.env.items()) and all(sub.heap.raw(i) is x for i, x in dict.items(st.heap))
        if same:
            for i in set(sub.heap) - set(st.heap):
                st.heap.put(i, sub.heap.raw(i))
        else:
            m = self.merge(g, sub, st.fork(NOT(g)), st.pc if sub.pc is pc else AND(st.pc, OR(NOT(g), sub.pc)))
            st.become(m)
        return v

    def ev(self, e, st: St, fr: Fr):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Opaque(f"expression {type(e).__name__}")
        return m(e, st, fr)

    def e_Constant(self, e, st, fr):
        return const(e.value)

    def e_Name(self, e, st, fr):
        if e.id in st.env:
            return st.env[e.id]
        return self.global_name(e.id, fr)

    def global_name(self, name, fr):
        g = fr.globals_env
        while g is not None:
            if name in g.env:
                return g.env[name]
            g = g.env.get("$outer")
        r = self.prog.resolve(fr.module, name)
        if r is None:
            return Ext(name)
        return self.wrap_global(r, fr.module)

    def wrap_global(self, r, module):
        if isinstance(r, Func):
            return FnVal(r, r.node, None, None, r.module, r.cls, r.name)
        if isinstance(r, Cls):
            return ClsVal(r)
        if isinstance(r, Module):
            return ModVal(r)
        if isinstance(r, tuple) and r[0] == "const":
            try:
                return const(ast.literal_eval(r[1])) if not isinstance(ast.literal_eval(r[1]), (list, dict, set)) else Ext(ast.unparse(r[1]))
            except Exception:
                return Ext(ast.unparse(r[1]))
        return Ext(r)

    def e_Tuple(self, e, st, fr):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            return self.coll(st, "tuple", self.elts(e.elts, st, fr))
        return Tup(tuple(self.ev(x, st, fr) for x in e.elts))

    def elts(self, elts, st, fr):
        gens = []
        for x in elts:
            if isinstance(x, ast.Starred):
                gens += self.iterate(self.ev(x.value, st, fr), st)
            else:
                gens.append(Gen((), TRUE, self.ev(x, st, fr)))
        return gens

    def e_List(self, e, st, fr):
        return self.coll(st, "list", self.elts(e.elts, st, fr))

    def e_Set(self, e, st, fr):
        return self.coll(st, "set", self.elts(e.elts, st, fr))

    def e_Dict(self, e, st, fr):
        gens = []
        for k, v in zip(e.keys, e.values):
            if k is None:
                d = self.ev(v, st, fr)
                gens += self.P.dict_gens(d, st)
            else:
                gens.append(Gen((), TRUE, Tup((self.ev(k, st, fr), self.ev(v, st, fr)))))
        return self.coll(st, "dict", gens)

    def comp(self, e, st, fr, kind, elem):
        out: List[Any] = []
        saved = st.env
        st.env = dict(saved)

        def rec(i, binders, guard):
            if i == len(e.generators):
                el = elem()
                out.append(Gen(tuple(binders), guard, self._stable(el, st) if binders else el))
                return
            ge = e.generators[i]
            env0 = dict(st.env)
            for g in self.iterate(self.ev(ge.iter, st, fr), st):
                st.env = dict(env0)
                sub = replace(fr, exits=[])
                self.assign(ge.target, g.elem, st, sub)
                gd = AND(guard, g.guard)
                for c in ge.ifs:
                    st.pc = gd
                    gd = AND(gd, self.cond(c, st, fr))
                st.pc = gd
                rec(i + 1, binders + list(g.binders), gd)
            st.env = env0
            st.pc = guard

        # conditions inside a comprehension are relative to the element
        sub_exits = fr.exits
        n0 = len(sub_exits)
        pc0 = st.pc
        st.pc = TRUE
        rec(0, [], TRUE)
        st.pc = pc0
        for x in sub_exits[n0:]:
            if x.kind == "raise":
                fv = [v for v in free_vars(x.cond) if not any(True for _ in ())]
                x.cond = AND(pc0, T("pred", "incomp", x.cond)) if False else AND(pc0, self._close(x.cond, out))
        st.env = saved
        return self.coll(st, kind, out)

    def _close(self, c, gens):
        vs, m = [], TRUE
        for g in gens:
            if isinstance(g, Gen) and frozenset(g.vars()) & free_vars(c):
                vs, m = g.vars(), AND(*[IN(v, s) for v, s in g.binders if s is not None])
        return EXISTS(vs, AND(m, c)) if vs else c

    def e_ListComp(self, e, st, fr):
        return self.comp(e, st, fr, "list", lambda: self.ev(e.elt, st, fr))

    def e_SetComp(self, e, st, fr):
        return self.comp(e, st, fr, "set", lambda: self.ev(e.elt, st, fr))

    def e_GeneratorExp(self, e, st, fr):
        return self.comp(e, st, fr, "iter", lambda: self.ev(e.elt, st, fr))

    def e_DictComp(self, e, st, fr):
        return self.comp(e, st, fr, "dict", lambda: Tup((self.ev(e.key, st, fr), self.ev(e.value, st, fr))))

    def e_BoolOp(self, e, st, fr):
        vals: List[Any] = []
        g = TRUE
        for x in e.values:
            vals.append(self.reached(g, x, st, fr, self.ev))
            if x is not e.values[-1]:
                c = self.truth(vals[-1], st)
                g = AND(g, c if isinstance(e.op, ast.And) else NOT(c))
                if g is FALSE:
                    break
        acc = vals[-1]
        for v in reversed(vals[:-1]):
            c = self.truth(v, st)
            if isinstance(v, T) and isinstance(acc, T) and is_formula(v) and is_formula(acc):
                acc = AND(v, acc) if isinstance(e.op, ast.And) else OR(v, acc)
            elif isinstance(e.op, ast.And):
                acc = self.merge_val(c, acc, v, st, st, st)
            else:
                acc = self.merge_val(c, v, acc, st, st, st)
        return acc

    def e_UnaryOp(self, e, st, fr):
        if isinstance(e.op, ast.Not):
            return NOT(self.cond(e.operand, st, fr))
        v = self.ev(e.operand, st, fr)
        if isinstance(e.op, ast.USub):
            return tm.mul(const(-1), self.term(v, st))
        if isinstance(e.op, ast.Invert):
            return T("inv", self.term(v, st))
        return v

    def e_BinOp(self, e, st, fr):
        a, b = self.ev(e.left, st, fr), self.ev(e.right, st, fr)
        return self.binop(e.op, a, b, st, fr)

    def is_set_val(self, v, st):
        c = self.cell(v, st)
        if isinstance(c, Coll):
            return c.kind == "set"
        return isinstance(v, T) and (v.op == "setc" or self.P.is_setlike(v))

    def is_list_val(self, v, st):
        c = self.cell(v, st)
        if isinstance(c, Coll):
            return c.kind in ("list", "tuple", "iter")
        return isinstance(v, Tup) or (isinstance(v, T) and (v.op in ("seq",) or self.P.is_listlike(v)))

    def binop(self, op, a, b, st, fr):
        if isinstance(op, ast.Add):
            if self.is_list_val(a, st) or self.is_list_val(b, st):
                if isinstance(a, Tup) and isinstance(b, Tup):
                    return Tup(a.items + b.items)
                return self.coll(st, "list", self.iterate(a, st) + self.iterate(b, st))
            ta, tb = self.term(a, st), self.term(b, st)
            if _stringy(ta) or _stringy(tb):
                return concat(ta, tb)
            return tm.add(ta, tb)
        if isinstance(op, ast.Sub):
            if self.is_set_val(a, st) or self.is_set_val(b, st):
                return self.P.set_op("difference", a, [b], st)
            return tm.add(self.term(a, st), self.term(b, st), -1)
        if isinstance(op, ast.Mult):
            return tm.mul(self.term(a, st), self.term(b, st))
        if isinstance(op, (ast.BitAnd, ast.BitOr, ast.BitXor)):
            if self.is_set_val(a, st) or self.is_set_val(b, st):
                name = {ast.BitAnd: "intersection", ast.BitOr: "union", ast.BitXor: "symmetric_difference"}[type(op)]
                return self.P.set_op(name, a, [b], st)
            ta, tb = self.term(a, st), self.term(b, st)
            if is_formula(ta) and is_formula(tb):
                return AND(ta, tb) if isinstance(op, ast.BitAnd) else OR(ta, tb)
        return T("binop", type(op).__name__, self.term(a, st), self.term(b, st))

    def e_Compare(self, e, st, fr):
        left = self.ev(e.left, st, fr)
        out = TRUE
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r, st, fr)
            out = AND(out, self.compare(op, left, right, st))
            left = right
        return out

    def compare(self, op, a, b, st) -> T:
        if isinstance(op, (ast.Eq, ast.NotEq)):
            f = self.cmp_len(a, b, st, "eq")
            if f is None:
                f = self.equal(a, b, st)
            return f if isinstance(op, ast.Eq) else NOT(f)
        if isinstance(op, (ast.Is, ast.IsNot)):
            if isinstance(a, Ref) and isinstance(b, Ref):
                f = self.identical(a.id, b.id)
            elif (isinstance(a, (Ref, Tup)) and b is NONE) or (isinstance(b, (Ref, Tup)) and a is NONE):
                f = FALSE
            elif isinstance(a, (FnVal, ClsVal)) or isinstance(b, (FnVal, ClsVal)):
                f = const(a == b)
            else:
                f = self.P.is_none(self.term(a, st), self.term(b, st))
            return f if isinstance(op, ast.Is) else NOT(f)
        if isinstance(op, (ast.In, ast.NotIn)):
            f = self.contains(a, b, st)
            return f if isinstance(op, ast.In) else NOT(f)
        # subset comparison of sets
        if self.is_set_val(a, st) or self.is_set_val(b, st):
            if isinstance(op, ast.LtE):
                return self.P.subset(a, b, st)
            if isinstance(op, ast.GtE):
                return self.P.subset(b, a, st)
            if isinstance(op, ast.Lt):
                return AND(self.P.subset(a, b, st), NOT(self.P.subset(b, a, st)))
            if isinstance(op, ast.Gt):
                return AND(self.P.subset(b, a, st), NOT(self.P.subset(a, b, st)))
        name = {ast.Lt: "lt", ast.LtE: "le", ast.Gt: "gt", ast.GtE: "ge"}[type(op)]
        f = self.cmp_len(a, b, st, name)
        if f is not None:
            return f
        x, y = self.term(a, st), self.term(b, st)
        return {"lt": lambda: LT(x, y), "le": lambda: LE(x, y), "gt": lambda: LT(y, x), "ge": lambda: LE(y, x)}[name]()

    def cmp_len(self, a, b, st, name):
        """len(S) compared with 0/1 is an emptiness test"""
        for x, y, n in ((a, b, name), (b, a, {"lt": "gt", "gt": "lt", "le": "ge", "ge": "le", "eq": "eq"}[name])):
            if isinstance(x, T) and x.op == "len" and isinstance(y, T) and y.op == "const" and y.args[0] in (0, 1):
                k = y.args[0]
                ne = lambda: self.nonempty(x.args[0], st)  # noqa
                if (n, k) in (("gt", 0), ("ge", 1)):
                    return ne()
                if (n, k) in (("eq", 0), ("le", 0), ("lt", 1)):
                    return NOT(ne())
                if (n, k) == ("lt", 0):
                    return FALSE
                if (n, k) == ("ge", 0):
                    return TRUE
        return None

    def e_IfExp(self, e, st, fr):
        c = self.cond(e.test, st, fr)
        if c is TRUE:
            return self.ev(e.body, st, fr)
        if c is FALSE:
            return self.ev(e.orelse, st, fr)
        a = st.fork(c)
        b = st.fork(NOT(c))
        va = self.ev(e.body, a, fr)
        vb = self.ev(e.orelse, b, fr)
        m = self.merge(c, a, b, st.pc)
        v = self.merge_val(c, va, vb, a, b, m)
        st.become(m)
        return v

    def e_Lambda(self, e, st, fr):
        return FnVal(None, e, st.fork(), None, fr.module, fr.cls, "<lambda>")

    def e_JoinedStr(self, e, st, fr):
        acc = None
        for p in e.values:
            t = const(p.value) if isinstance(p, ast.Constant) else T("str", self.term(self.ev(p.value, st, fr), st))
            if t.op == "str" and (TYPES.get(t.args[0]) == "str" or _stringy(t.args[0])):
                t = t.args[0]
            acc = t if acc is None else concat(acc, t)
        return acc if acc is not None else const("")

    def e_FormattedValue(self, e, st, fr):
        return T("str", self.term(self.ev(e.value, st, fr), st))

    def e_NamedExpr(self, e, st, fr):
        v = self.ev(e.value, st, fr)
        st.env[e.target.id] = v
        return v

    def e_Starred(self, e, st, fr):
        raise Opaque("starred")

    def e_Slice(self, e, st, fr):
        f = lambda x: NONE if x is None else self.term(self.ev(x, st, fr), st)  # noqa
        return T("sliceobj", f(e.lower), f(e.upper), f(e.step))

    def e_Subscript(self, e, st, fr):
        v = self.ev(e.value, st, fr)
        if isinstance(e.slice, ast.Slice):
            lo = self.ev(e.slice.lower, st, fr) if e.slice.lower else None
            hi = self.ev(e.slice.upper, st, fr) if e.slice.upper else None
            if e.slice.step is not None:
                sp = self.term(self.ev(e.slice.step, st, fr), st)
                if sp is const(-1) and lo is None and hi is None:
                    return self.P.reverse(v, st)
                if sp.op != "const" or not sp.args[0]:
                    raise Opaque("slice step")
                ends = [self.term(x, st) if x is not None else NONE for x in (lo, hi)]
                return T("slicestep", self.term(v, st), *ends, sp)
            return self.P.subscript_slice(
                v, self.term(lo, st) if lo is not None else None, self.term(hi, st) if hi is not None else None, st, fr
            )
        return self.P.subscript(v, self.ev(e.slice, st, fr), st, fr)

    def e_Attribute(self, e, st, fr):
        return self.P.getattr(self.ev(e.value, st, fr), e.attr, st, fr)

    def e_Call(self, e, st, fr):
        self.call_sites += 1
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            return Super(st.env.get(fr.selfname), fr.cls)
        if isinstance(e.func, ast.Name) and e.func.id == "super" and len(e.args) == 2:
            c = self.ev(e.args[0], st, fr)
            if isinstance(c, ClsVal):
                return Super(self.ev(e.args[1], st, fr), c.cls)
        r = self.nested_change(e, st, fr)
        if r is not None:
            return r
        fv = self.ev(e.func, st, fr)
        args: List[Any] = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, st, fr)
                c = self.cell(v, st)
                if isinstance(v, Tup):
                    args += list(v.items)
                elif isinstance(c, Coll) and all(isinstance(g, Gen) and not g.binders and g.guard is TRUE for g in c.gens):
                    args += [g.elem for g in c.gens]
                else:
                    args.append(Bound(v, "*star"))
            else:
                args.append(self.ev(a, st, fr))
        kwargs: Dict[str, Any] = {}
        for k in e.keywords:
            v = self.ev(k.value, st, fr)
            if k.arg is None:
                c = self.cell(v, st)
                if isinstance(c, Coll) and c.kind == "dict" and all(
                    isinstance(g, Gen) and not g.binders and g.guard is TRUE and isinstance(kv(g.elem)[0], T) and kv(g.elem)[0].op == "const"
                    for g in c.gens
                ):
                    for g in c.gens:
                        kwargs[kv(g.elem)[0].args[0]] = kv(g.elem)[1]
                elif "**" in kwargs:
                    kwargs["**"] = self.coll(st, "dict", self.P.dict_gens(kwargs["**"], st) + self.P.dict_gens(v, st))
                else:
                    kwargs["**"] = v
            else:
                kwargs[k.arg] = v
        r = self.call(fv, args, kwargs, st, fr, e)
        if isinstance(e.func, ast.Attribute) and e.func.attr in IN_PLACE and isinstance(e.func.value, ast.Name):
            # the variable now stands for the changed value
            n = e.func.value.id
            v = st.env.get(n)
            if isinstance(v, T):
                st.env[n] = T("changed", e.func.attr, v, *self.P.arg_terms(args, kwargs, st))
        return r

    def nested_change(self, e, st, fr):
        """d[k].append(x), d.setdefault(k, []).append(x) of a dictionary made here: d[k] becomes the changed list"""
        f = e.func
        if not (isinstance(f, ast.Attribute) and f.attr in ("append", "extend", "add", "update") and len(e.args) == 1 and not e.keywords):
            return None
        at = f.value
        if isinstance(at, ast.Subscript) and not isinstance(at.slice, ast.Slice):
            d, k, default = at.value, at.slice, None
        elif isinstance(at, ast.Call) and isinstance(at.func, ast.Attribute) and at.func.attr == "setdefault" and len(at.args) == 2 and not at.keywords:
            d, k, default = at.func.value, at.args[0], at.args[1]
        else:
            return None
        if not isinstance(d, ast.Name) or not isinstance(e.args[0], (ast.Name, ast.Constant, ast.List, ast.Tuple, ast.Attribute, ast.Subscript, ast.Call, ast.ListComp)):
            return None
        base = st.env.get(d.id)
        c = self.cell(base, st) if base is not None else None
        if not (isinstance(base, Ref) and isinstance(c, Coll) and c.kind == "dict"):
            return None
        key = self.ev(k, st, fr)
        if default is None:
            cur = self.P.subscript(base, key, st, fr)
            if not isinstance(cur, T):
                return None if isinstance(k, (ast.Name, ast.Constant)) else self.call(Bound(cur, f.attr), [self.ev(e.args[0], st, fr)], {}, st, fr, e)
        else:
            dv = self.ev(default, st, fr)
            cur = T("getitem", self.term(base, st), self.term(key, st), self.term(dv, st))
        x = self.ev(e.args[0], st, fr)
        if f.attr in ("append", "extend"):
            new = self.binop(ast.Add(), cur, self.coll(st, "list", [Gen((), TRUE, x)]) if f.attr == "append" else x, st, fr)
        else:
            new = self.P.set_op("union", cur, [self.coll(st, "set", [Gen((), TRUE, x)]) if f.attr == "add" else x], st)
        self.P.setitem(base, key, self.term(new, st), st, fr)
        return NONE

    # ------------------------------------------------------------------ calls

    def call(self, fv, args, kwargs, st, fr, node=None):
        if isinstance(fv, Partial):
            return self.call(fv.fn, list(fv.args) + args, {**dict(fv.kwargs), **kwargs}, st, fr, node)
        if isinstance(fv, FnVal):
            return self.call_fn(fv, args, kwargs, st, fr)
        if isinstance(fv, (Ext, ClsVal, Bound)):
            return self.P.call(fv, args, kwargs, st, fr)
        t = self.term(fv, st)
        if t.op in ("nodes", "edges") and not args and not kwargs:
            return t
        return T("call", t, *self.P.arg_terms(args, kwargs, st))

    def call_fn(self, fv: FnVal, args, kwargs, st, fr, force=False):
        f = fv.func
        if f is not None and not force:
            r = self.P.prim_call(fv, args, kwargs, st, fr)
            if r is not None:
                return r
        if fr.depth >= self.MAX_DEPTH or (f is not None and f in fr.stack) or (f is None and fr.stack.count(fv.node) > 0):
            return self.P.opaque_call(fv, args, kwargs, st, fr)
        return self.inline(fv, args, kwargs, st, fr)

    def bind(self, a: ast.arguments, args, kwargs, st, fr, fv):
        env: Dict[str, Any] = {}
        params = [x.arg for x in a.posonlyargs + a.args]
        args = list(args)
        kwargs = dict(kwargs)
        star = None
        if args and isinstance(args[-1], Bound) and args[-1].name == "*star":
            star = args.pop().recv
        for x in args:
            if isinstance(x, Bound) and x.name == "*star":
                raise Opaque("star argument in the middle")
        for p, v in zip(params, args):
            env[p] = v
        rest = args[len(params) :]
        if star is not None and len(args) < len(params) and not a.vararg:
            raise Opaque("star argument binding")
        if a.vararg:
            gens = [Gen((), TRUE, r) for r in rest]
            if star is not None:
                gens += self.iterate(star, st)
            env[a.vararg.arg] = self.coll(st, "tuple", gens)
        elif rest:
            raise Opaque("too many arguments")
        dd = kwargs.pop("**", None)
        kwgens = []
        for k, v in kwargs.items():
            if k in params or k in [x.arg for x in a.kwonlyargs]:
                env[k] = v
            elif a.kwarg:
                kwgens.append(Gen((), TRUE, Tup((const(k), v))))
            else:
                raise Opaque(f"unexpected keyword {k}")
        if a.kwarg:
            if dd is not None:
                kwgens += self.P.dict_gens(dd, st)
            env[a.kwarg.arg] = self.coll(st, "dict", kwgens)
        elif dd is not None:
            raise Opaque("** argument binding")
        dst = fv.env if fv.env is not None else None
        for p, d in zip(params[len(params) - len(a.defaults) :], a.defaults):
            if p not in env:
                env[p] = self.default(d, st, fr, fv)
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if p.arg not in env and d is not None:
                env[p.arg] = self.default(d, st, fr, fv)
        for p in params:
            if p not in env:
                raise Opaque(f"missing argument {p}")
        return env

    def default(self, d, st, fr, fv):
        f2 = Fr(fv.func, fv.module, fv.cls, fv.name, fr.depth + 1, globals_env=fv.env)
        s2 = St({}, st.heap)
        v = self.ev(d, s2, f2)
        return v

    def inline(self, fv: FnVal, args, kwargs, st: St, fr: Fr):
        node = fv.node
        if fv.self_val is not None:
            args = [fv.self_val] + list(args)
        elif fv.func is not None and fv.func.cls is not None and "staticmethod" not in fv.func.decorators:
            pass
        env = self.bind(node.args, args, kwargs, st, fr, fv)
        if fv.func is not None:
            self.analysed.add(fv.func.qual)
        params = [x.arg for x in node.args.args]
        f2 = Fr(
            fv.func, fv.module, fv.cls, fv.name, fr.depth + 1, [], fr.catching,
            params[0] if params and fv.cls is not None and fv.func is not None else fr.selfname,
            fv.env, fr.stack + (fv.func or fv.node,),
        )
        if fv.func is None and fv.env is not None:
            f2.selfname = fr.selfname or "self"
        inner = St(env, st.heap, TRUE)
        if fv.func is None and isinstance(fv.env, St):
            # closures see the variables of the defining frame
            f2.globals_env = fv.env
            env["$outer"] = fv.env
        if isinstance(node, ast.Lambda):
            v = self.ev(node.body, inner, f2)
            for e in f2.exits:
                if e.kind == "raise":
                    fr.exits.append(Exit("raise", AND(st.pc, e.cond), e.value, St(st.env, e.st.heap, AND(st.pc, e.cond))))
            st.heap = inner.heap
            return v
        isgen = any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in walk_own(node))
        if isgen:
            inner.env["$yield"] = self.coll(inner, "iter")
        inner.heap = Heap(inner.heap)
        out = self.block(node.body, inner, f2)
        return self.finish(out, f2, st, fr, isgen, env)

    def finish(self, out, f2: Fr, st: St, fr: Fr, isgen: bool, env):
        rets: List[Tuple[T, Any, St]] = []
        bad = TRUE
        for e in f2.exits:
            if e.kind == "raise":
                c = AND(st.pc, e.cond)
                fr.exits.append(Exit("raise", c, e.value, St(dict(st.env), e.st.heap, c)))
                bad = AND(bad, NOT(e.cond))
            elif e.kind == "return":
                rets.append((e.cond, e.st.env["$yield"] if isgen else e.value, e.st))
            else:
                raise Opaque("stray loop exit")
        if out is not None:
            rets.append((out.pc, out.env["$yield"] if isgen else NONE, out))
        if not rets:
            st.pc = FALSE
            return NONE
        c, v, s = rets[-1]
        acc = St({}, Heap(s.heap), TRUE)
        for c, v2, s2 in reversed(rets[:-1]):
            left = St({}, Heap(s2.heap), TRUE)
            m = self.merge(c, left, acc, TRUE)
            v = self.merge_val(c, v2, v, left, acc, m)
            acc = m
        st.heap = acc.heap
        st.pc = AND(st.pc, bad)
        return v

    def fn_term(self, fv: FnVal, st: St) -> T:
        if fv.func is not None and fv.node is fv.func.node:
            if fv.self_val is not None:
                return T("method", fv.func.name, self.term(fv.self_val, st))
            return T("fn", fv.func.qual.split(":")[1])
        a = fv.node.args
        vs: List[T] = []
        args, kwargs = [], {}
        n_def = len(a.defaults)
        pos = a.args
        for i, p in enumerate(pos):
            if i >= len(pos) - n_def:
                continue  # defaults are part of the closure
            v = fresh()
            vs.append(v)
            args.append(v)
        if a.kwarg:
            v = fresh()
            vs.append(v)
            VAR_SRC[v] = T("kwargs")
            kwargs["**"] = v
        s2 = St(dict(st.env), Heap(st.heap), TRUE)
        s2.heap.pop(EVENTS, None)
        f2 = Fr(None, fv.module, fv.cls, fv.name, 3, [], (), None, fv.env, ())
        r = self.inline(fv, args, kwargs, s2, f2)
        body = self.term(r, s2)
        ev = s2.heap.get(EVENTS)
        parts = [body] + ([self.term(ev, s2)] if ev is not None else [])
        return T("lam", len(vs), *vs, T("tuple", *parts) if len(parts) > 1 else body)


def untuple(t):
    if isinstance(t, T) and t.op == "tuple":
        return Tup(tuple(untuple(a) for a in t.args))
    return t


def _stringy(t: T) -> bool:
    return (t.op == "const" and isinstance(t.args[0], str)) or t.op in ("concat", "str") or TYPES.get(t) == "str"


def concat(a: T, b: T) -> T:
    parts = (list(a.args) if a.op == "concat" else [a]) + (list(b.args) if b.op == "concat" else [b])
    out: List[T] = []
    for p in parts:
        if out and p.op == "const" and out[-1].op == "const" and isinstance(p.args[0], str) and isinstance(out[-1].args[0], str):
            out[-1] = const(out[-1].args[0] + p.args[0])
        else:
            out.append(p)
    return out[0] if len(out) == 1 else T("concat", *out)


def _shape(t: T) -> str:
    import re

    return re.sub(r"\bv\d+", "v", skey(t))


def target_names(t) -> set:
    return {x.id for x in ast.walk(t) if isinstance(x, ast.Name)}


def loads(node) -> set:
    return {x.id for x in ast.walk(node) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)}


def upward_exposed(body, defs=frozenset()) -> set:
    """names that the statements may read before assigning them"""
    used: set = set()

    def run(stmts, d):
        """returns the set of definitely assigned names, or None if control does not fall through"""
        d = set(d)
        for s in stmts:
            if isinstance(s, ast.Assign):
                use(s.value, d)
                for t in s.targets:
                    target(t, d)
            elif isinstance(s, ast.AnnAssign):
                if s.value is not None:
                    use(s.value, d)
                    target(s.target, d)
            elif isinstance(s, ast.AugAssign):
                use(s.value, d)
                for n in target_names(s.target):
                    if n not in d:
                        used.add(n)
            elif isinstance(s, ast.If):
                use(s.test, d)
                a, b = run(s.body, d), run(s.orelse, d)
                if a is None and b is None:
                    return None
                d = b if a is None else a if b is None else a & b
            elif isinstance(s, ast.For):
                use(s.iter, d)
                run(s.body, d | target_names(s.target))
                run(s.orelse, d)
            elif isinstance(s, ast.While):
                use(s.test, d)
                run(s.body, d)
                run(s.orelse, d)
            elif isinstance(s, ast.With):
                for i in s.items:
                    use(i.context_expr, d)
                    if i.optional_vars is not None:
                        target(i.optional_vars, d)
                r = run(s.body, d)
                if r is None:
                    return None
                d = r
            elif isinstance(s, (ast.Return, ast.Raise, ast.Break, ast.Continue)):
                use(s, d)
                return None
            elif isinstance(s, ast.Try):
                r = run(s.body, d)
                if r is not None and s.orelse:
                    r = run(s.orelse, r)
                rs = [r] + [run(h.body, d) for h in s.handlers]
                rs = [x for x in rs if x is not None]
                if not rs:
                    return None
                d = set.intersection(*rs)
                if s.finalbody:
                    r = run(s.finalbody, d)
                    if r is None:
                        return None
                    d = r
            else:
                use(s, d)
                if isinstance(s, ast.FunctionDef):
                    d.add(s.name)
        return d

    def use(e, d):
        used.update(n for n in loads(e) if n not in d)

    def target(t, d):
        if isinstance(t, ast.Name):
            d.add(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                target(e, d)
        elif isinstance(t, ast.Starred):
            target(t.value, d)
        else:
            use(t, d)

    run(body, defs)
    return used


def walk_own(node):
    """walk without entering nested functions"""
    st = list(node.body) if isinstance(node.body, list) else [node.body]
    while st:
        x = st.pop()
        yield x
        if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        st += list(ast.iter_child_nodes(x))
