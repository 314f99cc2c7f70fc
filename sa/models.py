"""Small interpretations of summary terms.

When the normal forms of two summaries differ, the difference is only reported if some small interpretation (a graph with
a handful of nodes, an assignment of roles, argument values) gives the two terms different values; the interpretation is
the counterexample of the report. This evaluates the *terms* extracted from the source (with a fixed meaning for the graph
and role vocabulary and arbitrary meanings for the uninterpreted symbols); no code of the analysed package is run."""
from __future__ import annotations

import itertools
import math
import os
import random
import time
import zlib
from typing import Any, Dict, List, Optional, Tuple

from sa.terms import AND, BINDERS, FALSE, NOT, TRUE, TYPES, T, VAR_SRC, free_vars, is_formula, show, skey, subst


class Unsupported(Exception):
    pass


class Graph:
    __slots__ = ("nodes", "edges", "_h", "_d", "_p", "_ns")

    def __init__(self, nodes, edges):
        self.nodes = tuple(nodes)
        self.edges = frozenset(edges)
        self._h = hash((frozenset(self.nodes), self.edges))
        self._d = None
        self._p = {}
        self._ns = frozenset(self.nodes)

    def __eq__(self, o):
        return isinstance(o, Graph) and frozenset(self.nodes) == frozenset(o.nodes) and self.edges == o.edges

    def __hash__(self):
        return self._h

    def __repr__(self):
        return "graph(nodes " + " ".join(map(str, self.nodes)) + "; edges " + ", ".join(sorted(f"{a}->{b}" for a, b in self.edges)) + ")"

    def parents(self, x):
        return tuple(n for n in self.nodes if (n, x) in self.edges)

    def children(self, x):
        return tuple(n for n in self.nodes if (x, n) in self.edges)

    def desc(self, x):
        if self._d is None:
            self._d = {}
        if x not in self._d:
            out, todo = set(), [x]
            while todo:
                y = todo.pop()
                for c in self.children(y):
                    if c not in out:
                        out.add(c)
                        todo.append(c)
            self._d[x] = frozenset(out)
        return self._d[x]

    def anc(self, x):
        return frozenset(n for n in self.nodes if x in self.desc(n))

    def topo(self):
        out: List[Any] = []
        left = list(self.nodes)
        while left:
            for n in left:
                if not any(p in left for p in self.parents(n)):
                    out.append(n)
                    left.remove(n)
                    break
            else:
                raise Unsupported("cycle")
        return tuple(out)

    def paths(self, s, e, directed):
        k = (s, e, directed)
        if k not in self._p:
            self._p[k] = self.paths1(s, e, directed)
        return self._p[k]

    def paths1(self, s, e, directed):
        if s not in self.nodes or e not in self.nodes:
            return ()
        out = []

        def rec(p):
            if p[-1] == e:
                out.append(tuple(p))
                return
            nxt = self.children(p[-1]) if directed else self.children(p[-1]) + self.parents(p[-1])
            for n in nxt:
                if n not in p:
                    rec(p + [n])

        rec([s])
        return tuple(out)

    def motif(self, p, i):
        try:
            i = int(i)
            if i > len(p) - 1 or i < 0:
                return "indexerror"
            if i == len(p) - 1:
                return "endpoint"
            e = self.edges
            if i == 0:
                return "forward" if (p[0], p[1]) in e else "backward" if (p[1], p[0]) in e else "error"
            a, b = (p[i - 1], p[i]) in e, (p[i], p[i + 1]) in e
            if a and b:
                return "forward"
            if a and (p[i + 1], p[i]) in e:
                return "collider"
            if (p[i], p[i - 1]) in e:
                if b:
                    return "fork"
                if (p[i + 1], p[i]) in e:
                    return "backward"
            return "error"
        except (TypeError, IndexError, ValueError):
            raise Unsupported("motif")

    def dconn(self, x, y, obs):
        k = ("dc", x, y, frozenset(obs))
        if k not in self._p:
            self._p[k] = self.dconn1(x, y, k[3])
        return self._p[k]

    def dconn1(self, x, y, obs):
        if x not in self.nodes or y not in self.nodes:
            return False
        if x in obs or y in obs:
            return False
        if x == y:
            return True
        for p in self.paths(x, y, False):
            ok = True
            for i in range(1, len(p) - 1):
                if (p[i - 1], p[i]) in self.edges and (p[i + 1], p[i]) in self.edges:
                    if not ((self.desc(p[i]) | {p[i]}) & obs):
                        ok = False
                elif p[i] in obs:
                    ok = False
                if not ok:
                    break
            if ok:
                return True
        return False


class Roles:
    __slots__ = ("dec", "util", "agents", "deckeys", "_h")

    def __init__(self, dec, util, agents, deckeys=None):
        self.dec, self.util, self.agents = dict(dec), dict(util), tuple(agents)
        self.deckeys = self.agents if deckeys is None else tuple(deckeys)  # agents that are listed with decisions, though perhaps none
        self._h = hash((frozenset(self.dec.items()), frozenset(self.util.items()), self.agents))

    def __eq__(self, o):
        return isinstance(o, Roles) and (self.dec, self.util, set(self.agents), set(self.deckeys)) == (o.dec, o.util, set(o.agents), set(o.deckeys))

    def __hash__(self):
        return self._h

    def __repr__(self):
        return f"roles(decisions {self.dec}, utilities {self.util})"


class App(tuple):
    """a value of an uninterpreted operation"""

    def digest(self) -> str:
        d = self.__dict__.get("d")
        if d is None:
            d = self.__dict__["d"] = "%x" % zlib.crc32(",".join(map(canon, self)).encode()) + f"_{len(self)}"
        return d

    def __hash__(self):
        d = self.__dict__.get("h")
        if d is None:
            d = self.__dict__["h"] = tuple.__hash__(self)
        return d

    def __eq__(self, o):
        return self is o or tuple.__eq__(self, o)

    def __ne__(self, o):
        return not self == o

    def __repr__(self):
        return f"{self[0]}({', '.join(map(repr, self[1:]))})"


class Bag:
    """an unordered (or partly ordered) sequence"""

    __slots__ = ("items", "_h")

    def __init__(self, items):
        self.items = tuple(sorted(items, key=canon))
        self._h = hash(self.items)

    def __eq__(self, o):
        if isinstance(o, tuple) and not isinstance(o, App):
            return self == Bag(o)
        return isinstance(o, Bag) and same_items(self.items, o.items)

    def __hash__(self):
        return 7

    def __repr__(self):
        return f"bag{self.items!r}"


def same_items(a, b):
    return len(a) == len(b) and all(x == y for x, y in zip(a, b))


def h(*xs) -> int:
    return zlib.crc32(canon(xs).encode())


def canon(v) -> str:
    """a text that identifies a value (of an application: its digest)"""
    if isinstance(v, str):
        return "'" + v + "'"
    if isinstance(v, App):
        return str(v[0] if isinstance(v[0], str) else "") + "#" + v.digest()
    if isinstance(v, tuple):
        return "(" + ",".join(map(canon, v)) + ")"
    if isinstance(v, frozenset):
        return "{" + ",".join(sorted(map(canon, v))) + "}"
    if isinstance(v, Bag):
        return "bag" + canon(v.items)
    return repr(v)


class World:
    """one interpretation: a graph, roles, and values of the parameters (drawn when first used)"""

    def __init__(self, rnd: random.Random, single: bool):
        r = rnd
        self.single = single
        k = r.choice([3, 4, 4, 5, 5, 6])
        self.names = [f"n{i}" for i in range(k)]
        dens = r.choice([0.2, 0.3, 0.4, 0.5, 0.6, 0.8])
        self.edges = {(a, b) for i, a in enumerate(self.names) for b in self.names[i + 1 :] if r.random() < dens}
        self.agents = ["A"] if (single or r.random() < 0.15) else ["A", "B"]
        self.dec, self.util = {}, {}
        for n in self.names:
            x = r.random()
            if x < 0.3:
                self.dec[n] = r.choice(self.agents)
            elif x < 0.6:
                self.util[n] = r.choice(self.agents)
        if r.random() < 0.6:
            for n in self.names:
                if not any(a == n for a, _ in self.edges) and n not in self.dec:
                    self.util[n] = r.choice(self.agents)
        self.order = list(self.names)
        r.shuffle(self.order)
        self.params: Dict[str, Any] = {}
        self.pseed = r.randrange(1 << 30)

    def perturbed(self, r: random.Random) -> "World":
        w = World.__new__(World)
        w.single, w.names, w.agents = self.single, list(self.names), list(self.agents)
        w.edges, w.dec, w.util, w.order = set(self.edges), dict(self.dec), dict(self.util), list(self.order)
        w.params, w.pseed = dict(self.params), self.pseed
        for _ in range(r.choice([1, 1, 1, 2, 2, 3])):
            x = r.random()
            if x < 0.4 and len(w.names) > 1:
                i, j = sorted(r.sample(range(len(w.names)), 2))
                w.edges ^= {(w.names[i], w.names[j])}
            elif x < 0.65:
                n = r.choice(w.names)
                w.dec.pop(n, None)
                w.util.pop(n, None)
                y = r.random()
                if y < 0.4:
                    w.dec[n] = r.choice(w.agents)
                elif y < 0.8:
                    w.util[n] = r.choice(w.agents)
            elif x < 0.9 and w.params:
                w.params.pop(r.choice(sorted(w.params)))
                w.pseed = r.randrange(1 << 30)
            elif x < 0.93:
                w.pseed = r.randrange(1 << 30)
            elif x < 0.96 and len(w.names) < 7:
                n = f"n{max(int(q[1:]) for q in w.names) + 1}"
                k = r.randrange(len(w.names) + 1)
                w.names.insert(k, n)
                w.order.append(n)
                if k:
                    w.edges.add((r.choice(w.names[:k]), n))
            elif len(w.agents) > 1:
                n = r.choice(w.names)
                for m in (w.dec, w.util):
                    if n in m:
                        m[n] = r.choice(w.agents)
            else:
                r.shuffle(w.order)
        return w


class Interp:
    """evaluates compiled terms in one world"""

    def __init__(self, w: World, seed: int):
        self.w = w
        self.seed = seed & 7
        self.r = random.Random(w.pseed)
        self.names = w.names
        self.graph = Graph(w.order, w.edges)
        # an agent may have utilities only, and then not be listed with decisions at all
        self.roles = Roles(w.dec, w.util, w.agents, [a for a in w.agents if a in w.dec.values()] if w.pseed % 4 == 1 else None)
        self.universe = list(w.names) + ["zz"] + [n + "mec" for n in w.names] + list(w.agents) + [0, 1, 2]
        self.params = w.params
        self.memo: Dict[int, Any] = {}
        self.element = 0  # the element of the arrays at which comparisons are evaluated
        self.steps = 0
        self.ranks: Dict[Any, Any] = {}
        self.failed: List[int] = []  # arguments that functions were not defined for
        self.skip: frozenset = frozenset()  # arguments that are left out

    def name(self):
        return self.r.choice(self.names) if self.r.random() < 0.95 else "zz"

    def param_value(self, ty: str):
        r = self.r
        if ty.startswith("opt"):
            if r.random() < 0.25:
                return None
            ty = ty[3:]
        if ty == "str":
            ds = list(self.roles.dec)
            if ds and r.random() < 0.4:
                return r.choice(ds)
            return self.name()
        if ty in ("set", "coll"):
            q = r.choice([0.0, 0.2, 0.4, 0.7])
            return frozenset(n for n in self.names if r.random() < q)
        if ty == "seq":
            x = r.random()
            if x < 0.75:
                ps = [p for a in self.names for b in self.names if a != b for p in self.graph.paths(a, b, False)]
                if ps:
                    w = max(len(p) for p in ps)
                    ps = [p for p in ps if len(p) >= min(3, w)] if r.random() < 0.8 else ps
                    return r.choice(ps)
            n = r.choice([0, 1, 1, 2])
            return tuple(r.sample(self.names, min(n, len(self.names))))
        if ty == "dict":
            return App(("dict",) + tuple((n, r.choice([0, 1])) for n in self.names if r.random() < 0.4))
        if ty == "agent":
            ags = list(self.roles.agents)
            return r.choice(ags) if ags and r.random() < 0.8 else r.choice([0, 1, 2, "v"])
        if ty == "nat":
            return r.choice([0, 1, 2, 2, 3, 4])
        if ty == "nats":
            return tuple(r.choice([0, 1, 1, 2]) for _ in range(r.choice([0, 1, 2, 2, 3])))
        if ty == "pair":
            return r.choice([(1, 2), (1, 3), (2, 2), (0, 3), (2, 4)])
        if ty == "bool":
            return r.random() < 0.5
        if ty == "num":
            return r.choice([0.0, 0.3, 0.4, 0.5, 1.0])
        if ty == "int":
            return r.choice([0, 0, 1, 2, 3, 5])
        x = r.random()
        if x < 0.15:
            return None
        if x < 0.55:
            return App(("value", ty, r.randrange(1000)))
        if x < 0.7:
            return r.choice([(0, 1), (1, 0), (0, 1, 2), ("v", 0)])
        return r.choice([0, 1, 2, 3.5, "v", -1, 0, 1, 2])

    def truth(self, v) -> bool:
        if v is True or v is False:
            return v
        if v is None:
            return False
        if isinstance(v, App):
            if v and v[0] == "dict":
                return len(v) > 1
            name = boolean_call(v)
            if name:
                # a test of a library: constant in many interpretations
                m = h("mode", name, self.w.pseed) % 4
                if m < 2:
                    return m == 0
                return bool(h("test", v, self.seed) & 1)
            return bool(self.seq(v))
        if isinstance(v, (int, float, str, frozenset, tuple)):
            return bool(v)
        if isinstance(v, Bag):
            return bool(v.items)
        return bool(h("truth", v, self.seed) & 1)

    def rank(self, x) -> int:
        """the order of the elements of a set is arbitrary"""
        k = self.ranks.get(x)
        if k is None:
            k = self.ranks[x] = (h("rank", x, self.seed), canon(x))
        return k

    def num(self, v) -> float:
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, (int, float)):
            return v
        if isinstance(v, (App, str)):
            return (h("num", v, self.seed, self.element) % 6) - 2
        raise Unsupported("number")

    def seq(self, v):
        if isinstance(v, App):
            if v[0] == "dict":
                return tuple(k for k, _ in v[1:])
            k = h("len", v, self.seed)
            u = self.universe
            return tuple(dict.fromkeys(App(("item", v, i)) if (k >> (6 + i)) % 3 == 0 else u[(k >> (9 + 4 * i)) % len(u)] for i in range(k % 4)))
        if isinstance(v, tuple):
            return v
        if isinstance(v, frozenset):
            return tuple(sorted(v, key=self.rank))
        if isinstance(v, Bag):
            return v.items
        if isinstance(v, Graph):
            return v.nodes
        raise Unsupported("sequence", v)


TESTS = {"numpy.allclose", "numpy.isclose", "math.isclose", "any", "all"}


def boolean_call(v) -> Optional[str]:
    if v[0] == "call" and len(v) > 1 and isinstance(v[1], App) and len(v[1]) > 1:
        n = v[1][-1]
    elif v[0] == "mcall" and len(v) > 1:
        n = v[1]
    else:
        return None
    return n if n in TESTS else None


SLOTS: Dict[T, int] = {}
COMPILED: Dict[T, Any] = {}
NMEMO = itertools.count()
NOARG = {"true", "false", "const", "var", "param"}


def slot(v: T) -> int:
    if v not in SLOTS:
        SLOTS[v] = len(SLOTS)
    return SLOTS[v]


def comp(t: T):
    """the term as a function of an interpretation and the values of the bound variables"""
    f = COMPILED.get(t)
    if f is None:
        f = comp1(t)
        if not free_vars(t) and t.op not in NOARG:
            k, g = next(NMEMO), f

            def f(I, E):
                m = I.memo
                if k in m:
                    return m[k]
                I.steps += 1
                if I.steps > 100_000:
                    raise Unsupported("too long")
                v = m[k] = g(I, E)
                return v

        COMPILED[t] = f
    return f


def comp1(t: T):
    f = globals().get("c_" + t.op)
    if f is not None:
        return f(t, *t.args)
    if t.op in BINDERS:
        def bad(I, E):
            raise Unsupported(t.op)
        return bad
    op, fs = t.op, [comp(a) if isinstance(a, T) else (lambda I, E, a=a: a) for a in t.args]
    return lambda I, E: App((op,) + tuple(f(I, E) for f in fs))


def formula(t: T):
    """a compiled term used as a truth value"""
    f = comp(t)
    if t.op in ("true", "false", "and", "or", "not", "exists", "eq", "in", "edge", "desc", "isdec", "isutil", "lt", "gt0", "pred", "big"):
        return f
    return lambda I, E: I.truth(f(I, E))


def c_true(t):
    return lambda I, E: True


def c_false(t):
    return lambda I, E: False


def c_const(t, v):
    return lambda I, E: v


def c_var(t, *a):
    k = slot(t)
    return lambda I, E: E[k]


def c_param(t, name):
    ty = TYPES.get(t, "any")

    def f(I, E):
        p = I.params
        if name in HINTS and name not in p:
            p[name] = I.param_value(HINTS[name])
        if name not in p:
            vs = POOL.get("param " + name)
            if vs and ty in ("any", "str") and I.r.random() < 0.5:
                p[name] = I.r.choice(vs)
            else:
                p[name] = I.param_value(ty)
        return p[name]

    return f


def c_G(t, *a):
    return lambda I, E: I.graph


def c_bound(t, x, name, *args):
    """a piece of the state held by the model of conditional distributions"""
    if name == "domain" and isinstance(x, T) and x.op == "cpdmodel" and not args:
        def domain(I, E):
            d = {}
            for n in I.graph.nodes:
                k = h("domain", n, I.seed)
                v = [0, 1, 2][: 1 + (k % 5 + 1) // 2] if k & 64 else ["a", "b", "c"][: 1 + (k % 5 + 1) // 2]
                d[n] = tuple(sorted(v, key=lambda y: h("position", n, y, I.seed)))
            return make_dict(d.items())

        return domain
    fs = [comp(y) if isinstance(y, T) else (lambda I, E, y=y: y) for y in (x, name) + args]
    return lambda I, E: App(("bound",) + tuple(g(I, E) for g in fs))


def c_objread(t, x, name, ver=None, *args):
    """an attribute of an object as it was on entry"""
    if isinstance(x, T) and x.op == "param" and ver is None and not args:
        if name == "nodes":
            return lambda I, E: frozenset(I.graph.nodes)
        if name == "edges":
            return lambda I, E: frozenset(I.graph.edges)
    fs = [comp(y) if isinstance(y, T) else (lambda I, E, y=y: y) for y in (x, name, ver) + args]
    return lambda I, E: App(("objread",) + tuple(g(I, E) for g in fs))


def c_R(t, *a):
    return lambda I, E: I.roles


def c_C(t, *a):
    v = App(("C",) + a)
    return lambda I, E: v


def c_and(t, *args):
    fs = [formula(a) for a in args]

    def f(I, E):
        for x in fs:
            if not x(I, E):
                return False
        return True

    return f


def c_or(t, *args):
    fs = [formula(a) for a in args]

    def f(I, E):
        for x in fs:
            if x(I, E):
                return True
        return False

    return f


def c_big(t, a):
    return formula(a)


def c_not(t, a):
    f = formula(a)
    return lambda I, E: not f(I, E)


HINTS: Dict[str, str] = {}  # parameter: what kind of values to try
POOL: Dict[str, List[Any]] = {}  # attribute: the strings it is compared with


ROLE_MAPS = {
    "agent_decisions": lambda r: [(a, tuple(d for d, o in r.dec.items() if o == a)) for a in r.deckeys],
    "agent_utilities": lambda r: [(a, tuple(d for d, o in r.util.items() if o == a)) for a in r.agents],
    "decision_agent": lambda r: r.dec.items(),
    "utility_agent": lambda r: r.util.items(),
}


def make_dict(items) -> "App":
    return App(("dict",) + tuple(sorted(dict(items).items(), key=canon)))


def c_upd(t, old, op, path, *args):
    """a container after a change of a part of it"""
    fo, fs = comp(old), [comp(a) if isinstance(a, T) else (lambda I, E, a=a: a) for a in args]
    fp = [comp(a) for a in path.args]

    def change(v, vals):
        if isinstance(v, App) and v[0] == "dict":
            d = dict(v[1:])
            if op in ("delitem", "pop"):
                d.pop(vals[0], None)
            elif op == "setitem":
                d[vals[0]] = vals[1]
            elif op == "clear":
                d = {}
            elif op == "setdefault":
                d.setdefault(vals[0], vals[1] if len(vals) > 1 else None)
            elif op == "update" and len(vals) == 1 and isinstance(vals[0], App) and vals[0][0] == "dict":
                d.update(vals[0][1:])
            else:
                return None
            return make_dict(d.items())
        if isinstance(v, tuple) and not isinstance(v, App):
            x = list(v)
            if op == "append":
                x.append(vals[0])
            elif op == "remove":
                if vals[0] not in x:
                    raise Unsupported("remove")
                x.remove(vals[0])
            elif op == "clear":
                x = []
            elif op == "insert" and isinstance(vals[0], int):
                x.insert(*vals)
            else:
                return None
            return tuple(x)
        return None

    def at(v, keys, vals):
        if not keys:
            return change(v, vals)
        if isinstance(v, App) and v[0] == "dict":
            d = dict(v[1:])
            if keys[0] not in d:
                raise Unsupported("missing key")
            x = at(d[keys[0]], keys[1:], vals)
            if x is None:
                return None
            d[keys[0]] = x
            return make_dict(d.items())
        return None

    def f(I, E):
        v, keys, vals = fo(I, E), [g(I, E) for g in fp], [g(I, E) for g in fs]
        x = at(v, keys, vals)
        return App(("upd", v, op, tuple(keys)) + tuple(vals)) if x is None else x

    return f


def c_getitem(t, d, k, *default):
    fd, fk = comp(d), comp(k)
    fs = [comp(x) for x in default]

    def f(I, E):
        v, i = fd(I, E), fk(I, E)
        if isinstance(v, App) and v[0] == "dict":
            for x, y in v[1:]:
                if x == i:
                    return y
            return fs[0](I, E) if fs else None
        return App(("getitem", v, i) + tuple(g(I, E) for g in fs))

    return f


def c_binop(t, op, a, b):
    fa, fb = comp(a), comp(b)

    def f(I, E):
        x, y = fa(I, E), fb(I, E)
        if op in ("Pow", "Mod", "FloorDiv") and not isinstance(x, (str, tuple)) and not isinstance(y, (str, tuple)):
            if op == "Pow":
                p, q = I.num(x), I.num(y)
                return p ** q if abs(q) < 9 and (q >= 0 or p) else App(("pow", p, q))
            p, q = I.num(x), I.num(y)
            if not q:
                raise Unsupported("division by zero")
            return p % q if op == "Mod" else p // q
        return App(("binop", op, x, y))

    return f


def largest(sign):
    def build(t, a):
        fa = comp(a)

        def f(I, E):
            xs = I.seq(fa(I, E))
            if not xs:
                return App(("empty", sign))
            if all(isinstance(x, str) for x in xs):
                return max(xs) if sign > 0 else min(xs)
            return max(xs, key=lambda x: sign * I.num(x))

        return f

    return build


def of_several(best):
    def build(t, *args):
        fs = [comp(a) for a in args]

        def f(I, E):
            xs = [g(I, E) for g in fs]
            return best(xs) if all(isinstance(x, str) for x in xs) else best(I.num(x) for x in xs)

        return f

    return build


c_max, c_min = of_several(max), of_several(min)
c_maxof, c_minof = largest(1), largest(-1)


def c_attr(t, x, k):
    if isinstance(x, T) and x.op == "param" and k in ROLE_MAPS:
        return lambda I, E: make_dict(ROLE_MAPS[k](I.roles))
    fx = comp(x) if isinstance(x, T) else (lambda I, E: x)
    fk = comp(k) if isinstance(k, T) else (lambda I, E: k)

    def f(I, E):
        v = App(("attr", fx(I, E), fk(I, E)))
        vs = POOL.get(v[2])
        if vs:
            c = h("attr", v, I.seed)
            if c % 4 == 0:
                return vs[(c >> 4) % len(vs)]
        return v

    return f


def c_eq(t, a, b):
    fa, fb = comp(a), comp(b)
    for x, y in ((a, b), (b, a)):
        if x.op == "const" and isinstance(x.args[0], str) and y.op == "attr" and isinstance(y.args[-1], str):
            vs = POOL.setdefault(y.args[-1], [])
            if x.args[0] not in vs:
                vs.append(x.args[0])
        if x.op == "const" and isinstance(x.args[0], str) and y.op == "param":
            vs = POOL.setdefault("param " + y.args[0], [])
            if x.args[0] not in vs:
                vs.append(x.args[0])

    def f(I, E):
        x, y = fa(I, E), fb(I, E)
        if isinstance(x, (int, float)) and isinstance(y, App):
            y = I.num(y)
        elif isinstance(y, (int, float)) and isinstance(x, App):
            x = I.num(x)
        if isinstance(x, bool) != isinstance(y, bool):
            if isinstance(x, (int, float)) and isinstance(y, (int, float)):
                return x == y
            return False
        return x == y

    return f


def c_ite(t, c, a, b):
    fc, fa, fb = formula(c), comp(a), comp(b)
    return lambda I, E: fa(I, E) if fc(I, E) else fb(I, E)


def c_cases(t, *args):
    cs = [(formula(args[i]), comp(args[i + 1])) for i in range(0, len(args), 2)]
    none = App(("nocase",))

    def f(I, E):
        for c, v in cs:
            if c(I, E):
                return v(I, E)
        return none

    return f


# ---- bound variables


def literals(t: T):
    return t.args if t.op == "and" else (t,)


def conjuncts(t: T, neg: bool = False):
    """the conjuncts of t (of its negation), through nested conjunctions and negated disjunctions"""
    if t.op == "not":
        yield from conjuncts(t.args[0], not neg)
    elif t.op == ("or" if neg else "and"):
        for a in t.args:
            yield from conjuncts(a, neg)
    else:
        yield NOT(t) if neg else t


def flat(t: T) -> List[T]:
    """the conjuncts of t, each without the parts that follow from the conjuncts before it; small ones first"""
    todo = sorted(conjuncts(t), key=tsize)
    for _ in range(3):
        known: List[T] = []
        for c in todo:
            if c.op == "not" and c.args[0].op == "and":
                rest = [x for x in c.args[0].args if not follows(known, x)]
                if len(rest) < len(c.args[0].args):
                    c = NOT(AND(*rest))
            known += [x for x in conjuncts(c) if x is not TRUE]
        if known == todo:
            break
        todo = sorted(dict.fromkeys(known), key=tsize)
    return todo


def tsize(t: T) -> int:
    n = SIZES.get(t)
    if n is None:
        n = SIZES[t] = 1 + sum(tsize(a) for a in t.args if isinstance(a, T))
    return n


SIZES: Dict[T, int] = {}


def atoms_of(t: T) -> frozenset:
    if t.op in ("and", "or", "not"):
        return frozenset().union(*[atoms_of(a) for a in t.args])
    return frozenset() if t in (TRUE, FALSE) else frozenset([t])


def prop(t: T, val) -> bool:
    if t.op == "and":
        return all(prop(a, val) for a in t.args)
    if t.op == "or":
        return any(prop(a, val) for a in t.args)
    if t.op == "not":
        return not prop(t.args[0], val)
    return t is TRUE or t is not FALSE and val[t]


def follows(known: List[T], x: T) -> bool:
    """does x follow from the known formulas, as a matter of propositional logic?"""
    ats = atoms_of(x)
    use = [k for k in known if atoms_of(k) & ats]
    use = [k for k in use if len(atoms_of(k)) <= 6]
    for k in use:
        ats |= atoms_of(k)
    if len(ats) > 10:
        return False
    ats = sorted(ats, key=skey)
    for bits in itertools.product((False, True), repeat=len(ats)):
        val = dict(zip(ats, bits))
        if not prop(x, val) and all(prop(k, val) for k in use):
            return False
    return True


def closed_under(t, rest) -> bool:
    fv = free_vars(t)
    return not any(v in fv for v in rest)


def source_of(v: T, l: T, rest):
    """values the literal allows for the variable, given the variables outside `rest`"""
    op, a = l.op, l.args
    ok = lambda x: isinstance(x, T) and v not in free_vars(x) and closed_under(x, rest)  # noqa
    if op == "in" and a[0] is v and ok(a[1]):
        f = comp(a[1])
        return 2, lambda I, E: dict.fromkeys(I.seq(f(I, E)))
    if op == "eq":
        for x, y in (a, a[::-1]):
            if x is v and ok(y):
                f = comp(y)
                return 0, lambda I, E: (f(I, E),)
    if op == "edge" and ok(a[0]):
        g = comp(a[0])
        if a[1] is v and ok(a[2]):
            f = comp(a[2])
            return 1, lambda I, E: graph(g(I, E)).parents(f(I, E))
        if a[2] is v and ok(a[1]):
            f = comp(a[1])
            return 1, lambda I, E: graph(g(I, E)).children(f(I, E))
    if op == "isdec" and a[1] is v and ok(a[0]):
        r = comp(a[0])
        return 3, lambda I, E: tuple(roles(r(I, E)).dec)
    if op == "isutil" and a[1] is v and ok(a[0]):
        r = comp(a[0])
        return 3, lambda I, E: tuple(roles(r(I, E)).util)
    if op == "desc" and ok(a[0]) and v in (a[1], a[2]):
        g = comp(a[0])
        return 4, lambda I, E: graph(g(I, E)).nodes
    if op == "pred" and a[0] == "node" and len(a) == 3 and a[2] is v and ok(a[1]):
        g = comp(a[1])
        return 4, lambda I, E: graph(g(I, E)).nodes
    if op == "pred" and a[0] == "agent" and len(a) == 3 and a[2] is v and ok(a[1]):
        r = comp(a[1])
        return 3, lambda I, E: roles(r(I, E)).agents
    if op == "exists":
        # one of those that the variable is equal to
        ws, body = list(a[1 : 1 + a[0]]), a[1 + a[0]]
        for w in ws:
            if any(x.op == "eq" and set(x.args) == {v, w} for x in literals(body)):
                inner = [x for x in literals(body) if not (x.op == "eq" and set(x.args) == {v, w})]
                for x in inner:
                    s = source_of(w, x, [*rest, v, *(u for u in ws if u is not w)])
                    if s is not None:
                        return 5, s[1]
    if op == "or" and all(d.op == "exists" or d.op == "and" for d in a):
        subs = [next((s for s in (source_of(v, l, rest) for l in literals(d)) if s is not None), None) for d in a]
        if all(s is not None for s in subs):
            return 6, lambda I, E: dict.fromkeys(x for s in subs for x in s[1](I, E))
    return None


ANY: Dict[Any, Any] = {}  # graphs and roles made by operations without a fixed meaning
ANYNAMES = [f"n{i}" for i in range(5)]


def graph(v) -> Graph:
    if isinstance(v, Graph):
        return v
    if not isinstance(v, App):
        raise Unsupported("graph")
    k = ("G", v.digest())
    if k not in ANY:
        if len(ANY) > 4000:
            ANY.clear()
        r = random.Random(zlib.crc32(k[1].encode()))
        order = list(ANYNAMES)
        r.shuffle(order)
        ANY[k] = Graph(order, [(a, b) for i, a in enumerate(ANYNAMES) for b in ANYNAMES[i + 1 :] if r.random() < 0.4])
    return ANY[k]


def roles(v) -> Roles:
    if isinstance(v, Roles):
        return v
    if not isinstance(v, App):
        raise Unsupported("roles")
    k = ("R", v.digest())
    if k not in ANY:
        if len(ANY) > 4000:
            ANY.clear()
        r = random.Random(zlib.crc32(k[1].encode()))
        dec, util = {}, {}
        for n in ANYNAMES:
            x = r.random()
            if x < 0.3:
                dec[n] = r.choice("AB")
            elif x < 0.6:
                util[n] = r.choice("AB")
        ANY[k] = Roles(dec, util, ["A", "B"])
    return ANY[k]


def c_newgraph(t, edges, *more):
    fe = comp(edges)
    fs = [comp(x) if isinstance(x, T) else (lambda I, E, x=x: x) for x in more]

    def f(I, E):
        v = fe(I, E)
        if not more and isinstance(v, (tuple, frozenset, Bag)) and not isinstance(v, App):
            es = [e for e in I.seq(v)]
            if all(isinstance(e, tuple) and not isinstance(e, App) and len(e) == 2 for e in es):
                return Graph(tuple(dict.fromkeys(x for e in es for x in e)), es)
        if not more and v is None:
            return Graph((), ())
        return App(("newgraph", v) + tuple(g(I, E) for g in fs))

    return f


def cands(v: T, body: T, rest):
    best = None
    for l in literals(body):
        s = source_of(v, l, rest)
        if s is not None and (best is None or s[0] < best[0]):
            best = s
    if best is None and body.op == "or":
        subs = [cands(v, d, rest) for d in body.args]
        fs = [s[1] if s is not None else default_cands(v, rest) for s in subs]
        if all(s is not None for s in subs):
            return 5, lambda I, E: dict.fromkeys(x for f in fs for x in f(I, E))
        return None
    return best


def default_cands(v: T, rest):
    src = VAR_SRC.get(v)
    if src is not None and src.op == "range":
        return lambda I, E: range(9)
    # the source recorded for a variable may stem from another instance of the same quantifier
    if src is not None and src.op in ("dirpaths", "undirpaths") and not free_vars(src):
        f = comp(src)
        return lambda I, E: I.seq(f(I, E))
    return lambda I, E: I.universe


def bindings(vs, body: T):
    """run(I, E, sink): calls sink for every assignment of the variables that satisfies the body, until it returns True"""
    rest = list(vs)
    done: set = set()
    lits = list(literals(body))
    steps = []

    def ready():
        out = []
        for i, l in enumerate(lits):
            if i not in done and closed_under(l, rest):
                done.add(i)
                out.append(formula(l))
        return out

    first = ready()
    while rest:
        best = None
        for v in rest:
            c = cands(v, body, [w for w in rest if w is not v])
            if c is not None and (best is None or c[0] < best[1][0]):
                best = (v, c)
        if best is None:
            v = rest[0]
            src = default_cands(v, [w for w in rest if w is not v])
        else:
            v, src = best[0], best[1][1]
        rest.remove(v)
        steps.append((slot(v), src, ready()))

    def build(i):
        if i == len(steps):
            return lambda I, E, sink: sink(I, E)
        k, src, filt = steps[i]
        nxt = build(i + 1)

        def run(I, E, sink):
            I.steps += 1
            if I.steps > 100_000:
                raise Unsupported("too long")
            for x in src(I, E):
                E[k] = x
                for f in filt:
                    if not f(I, E):
                        break
                else:
                    if nxt(I, E, sink):
                        return True
            return False

        return run

    go = build(0)
    if not first:
        return go

    def start(I, E, sink):
        for f in first:
            if not f(I, E):
                return False
        return go(I, E, sink)

    return start


def c_exists(t, n, *args):
    run = bindings(args[:n], args[-1])
    yes = lambda I, E: True  # noqa
    return lambda I, E: bool(run(I, E, yes))


def c_setc(t, n, v, body):
    run, k = bindings([v], body), slot(v)

    def f(I, E):
        out = []

        def sink(I, E):
            out.append(E[k])

        run(I, E, sink)
        return frozenset(out)

    return f


def c_seq(t, *gens):
    fs = []
    for g in gens:
        if g.op == "seqgen":
            fs.append((False, ordered(g)))
        elif g.op == "ugen":
            fs.append((True, unordered(g)))
        else:
            fs.append((None, comp(g)))

    def f(I, E):
        out, bag = [], False
        for kind, x in fs:
            v = x(I, E)
            if kind is None:
                bag = bag or isinstance(v, (frozenset, Bag))
                v = I.seq(v)
            out += v
            bag = bag or bool(kind)
        if bag and len(out) > 1:
            return Bag(out)
        return tuple(out)

    return f


def unordered(g):
    n = g.args[0]
    run = bindings(list(g.args[1 : 1 + n]), g.args[1 + n])
    elem = comp(g.args[2 + n])

    def f(I, E):
        out = []

        def sink(I, E):
            out.append(elem(I, E))

        run(I, E, sink)
        return out

    return f


def c_ugen(t, *args):
    f = unordered(t)
    return lambda I, E: frozenset(f(I, E))


def ordered(g):
    n = g.args[0]
    vs, guard, elem, srcs = g.args[1 : 1 + n], formula(g.args[1 + n]), comp(g.args[2 + n]), [comp(x) for x in g.args[3 + n :]]
    ks = [slot(v) for v in vs]

    def f(I, E):
        out = []
        if len(srcs) < n:
            raise Unsupported("seqgen without source")

        def rec(i):
            if i == n:
                I.steps += 1
                if guard(I, E):
                    out.append(elem(I, E))
                return
            for x in I.seq(srcs[i](I, E)):
                E[ks[i]] = x
                rec(i + 1)

        rec(0)
        return out

    return f


def c_mcall(t, name, *args):
    if name in ("any", "all") and len(args) == 1 and args[0].op in ("lt", "gt0", "eq", "not", "and", "or"):
        # a comparison of arrays, element by element
        g = formula(args[0])

        def f(I, E):
            memo, el = I.memo, I.element
            out = []
            for i in (1, 2, 3):
                I.memo, I.element = {}, i
                out.append(bool(g(I, E)))
            I.memo, I.element = memo, el
            return any(out) if name == "any" else all(out)

        return f
    fs = [comp(a) if isinstance(a, T) else (lambda I, E, a=a: a) for a in args]
    how = METHODS.get(name)
    if name in ("issubset", "issuperset", "isdisjoint") and len(args) == 2:

        def sets(I, E):
            x, y = (set(I.seq(f(I, E))) for f in fs)
            return x <= y if name == "issubset" else x >= y if name == "issuperset" else not x & y

        return sets

    def g(I, E):
        vals = tuple(f(I, E) for f in fs)
        if name == "get_cardinality" and len(vals) == 2:
            return 1 + h("card", vals, I.seed) % 3
        if how is not None and vals:
            gr = vals[0] if isinstance(vals[0], Graph) else graph_of(vals[0])
            if gr is not None:
                v = how(I, gr, *vals[1:])
                if v is not None:
                    return v
        return App(("mcall", name) + vals)

    return g


def _subgraph(I, g, nodes=None):
    if nodes is not None and not isinstance(nodes, str):
        ns = set(I.seq(nodes))
        return Graph([n for n in g.nodes if n in ns], [e for e in g.edges if e[0] in ns and e[1] in ns])


METHODS = {
    "in_degree": lambda I, g, n=None: len(g.parents(n)) if n in g._ns else None,
    "out_degree": lambda I, g, n=None: len(g.children(n)) if n in g._ns else None,
    "degree": lambda I, g, n=None: len(g.parents(n)) + len(g.children(n)) if n in g._ns else None,
    "subgraph": _subgraph,
    "has_edge": lambda I, g, u=None, v=None: (u, v) in g.edges,
    "has_node": lambda I, g, n=None: n in g._ns,
    "successors": lambda I, g, n=None: g.children(n) if n in g._ns else None,
    "predecessors": lambda I, g, n=None: g.parents(n) if n in g._ns else None,
}


def c_seqgen(t, *args):
    f = ordered(t)
    return lambda I, E: tuple(f(I, E))


def c_dict(t, *gens):
    fs = []
    for g in gens:
        fs.append(ordered(g) if g.op == "seqgen" else unordered(g) if g.op == "ugen" else comp(g))

    def f(I, E):
        out = {}
        for g in fs:
            v = g(I, E)
            if isinstance(v, App) and v[0] == "dict":
                v = v[1:]
            elif not isinstance(v, list):
                v = I.seq(v)
            for x in v:
                if isinstance(x, tuple) and not isinstance(x, App) and len(x) == 2:
                    out[x[0]] = x[1]
                else:
                    out[App(("key", x))] = App(("value", x))
        return App(("dict",) + tuple(sorted(out.items(), key=canon)))

    return f


def c_accd(t, kind, *gens):
    """a container built up by a loop: what it held before and what is added"""
    if kind == "dict":
        return c_dict(t, *gens)
    q = c_seq(t, *gens)
    if kind == "set":
        return lambda I, E: frozenset(I.seq(q(I, E)))
    return q


def c_accc(t, x):
    """the elements a container holds so far"""
    return comp(x)


def c_spread(t, a):
    return comp(a)


def c_tuple(t, *args):
    fs = [comp(a) for a in args]
    return lambda I, E: tuple([f(I, E) for f in fs])


def c_first(t, a):
    fa = comp(a)

    def f(I, E):
        v = fa(I, E)
        if isinstance(v, Bag) and len(v.items) > 1:
            return App(("first", v))
        v = I.seq(v)
        return v[0] if v else App(("nofirst",))

    return f


def c_concat(t, *args):
    fs = [comp(a) for a in args]

    def f(I, E):
        vals = [g(I, E) for g in fs]
        if all(isinstance(v, str) for v in vals):
            return "".join(vals)
        if all(isinstance(v, tuple) and not isinstance(v, App) for v in vals):
            return tuple(x for v in vals for x in v)
        return App(("concat",) + tuple(vals))

    return f


# ---- arithmetic and collections


def c_lin(t, c0, *rest):
    fs = [(comp(rest[i]), rest[i + 1]) for i in range(0, len(rest), 2)]

    def f(I, E):
        c = c0
        for g, k in fs:
            c += I.num(g(I, E)) * k
        return c

    return f


def c_mul(t, *args):
    fs = [comp(a) if isinstance(a, T) else (lambda I, E, a=a: a) for a in args]

    def f(I, E):
        r = 1
        for g in fs:
            r *= I.num(g(I, E))
        return r

    return f


def c_abs(t, a):
    f = comp(a)
    return lambda I, E: abs(I.num(f(I, E)))


def c_lt(t, a):
    f = comp(a)
    return lambda I, E: I.num(f(I, E)) < 0


def c_gt0(t, a):
    f = comp(a)
    return lambda I, E: I.num(f(I, E)) > 0


def c_product(t, *args):
    fs = [(a.op, comp(a.args[-1])) if isinstance(a, T) and (a.op == "star" or a.op == "kw" and a.args[0] == "repeat") else ("", comp(a)) for a in args]
    other = [comp(a) for a in args]

    def f(I, E):
        parts, repeat = [], 1
        for op, g in fs:
            v = g(I, E)
            if op == "kw":
                repeat = v
            elif op == "star":
                parts += list(I.seq(v))
            else:
                parts.append(v)
        if isinstance(repeat, int) and 0 <= repeat <= 4 and len(parts) <= 4 and all(isinstance(p, (tuple, frozenset, Bag, App)) for p in parts):
            parts = [I.seq(p) for p in parts]
            if math.prod(len(p) for p in parts) ** repeat <= 64:
                return tuple(itertools.product(*parts, repeat=repeat))
        return App(("product",) + tuple(g(I, E) for g in other))

    return f


def c_len(t, a):
    fa = comp(a)

    def f(I, E):
        v = fa(I, E)
        return len(v) if isinstance(v, str) else len(I.seq(v))

    return f


def c_range(t, *args):
    fs = [comp(a) for a in args]

    def f(I, E):
        vals = [I.num(g(I, E)) for g in fs]
        a, b = vals[0], vals[1]
        st = vals[2] if len(vals) > 2 else 1
        if b - a > 40:
            raise Unsupported("range")
        return tuple(range(int(a), int(b), int(st) or 1))

    return f


def c_idx(t, a, b):
    fa, fb = comp(a), comp(b)

    def f(I, E):
        v, i = fa(I, E), fb(I, E)
        if isinstance(v, App):
            if v[0] == "dict":
                for k, x in reversed(v[1:]):
                    if k == i:
                        return x
            return App(("idx", v, i))
        if isinstance(v, tuple) and isinstance(i, (int, float)) and not isinstance(i, bool):
            i = int(i)
            if -len(v) <= i < len(v):
                return v[i]
            return App(("indexerror",))
        return App(("idx", v, i))

    return f


def c_slice(t, a, lo, hi, *more):
    fa, fl, fh = comp(a), comp(lo), comp(hi)

    def f(I, E):
        v, l, u = I.seq(fa(I, E)), fl(I, E), fh(I, E)
        q = lambda x: None if x is None else int(I.num(x))  # noqa
        if more:
            raise Unsupported("slice")
        return v[q(l) : q(u)]

    return f


def c_slicestep(t, a, lo, hi, by):
    fs = [comp(x) for x in (a, lo, hi, by)]

    def f(I, E):
        v = I.seq(fs[0](I, E))
        return v[slice(*[None if x is None else int(I.num(x)) for x in (g(I, E) for g in fs[1:])])]

    return f


def c_reversed(t, a):
    fa = comp(a)

    def f(I, E):
        v = fa(I, E)
        return v if isinstance(v, Bag) else tuple(reversed(I.seq(v)))

    return f


def c_sum(t, a, *more):
    fa = comp(a)

    def f(I, E):
        if more:
            raise Unsupported("sum")
        return sum(I.num(x) for x in I.seq(fa(I, E)))

    return f


def c_sorted(t, a, *more):
    fa = comp(a)
    fm = [comp(x) if isinstance(x, T) else (lambda I, E, x=x: x) for x in more]

    def f(I, E):
        xs = I.seq(fa(I, E))
        if fm:
            how = tuple(g(I, E) for g in fm)
            return tuple(sorted(xs, key=lambda x: (h("order", how, x, I.seed), canon(x))))
        return tuple(sorted(xs, key=canon))

    return f


def c_in(t, a, b):
    fa, fb = comp(a), comp(b)

    def f(I, E):
        s = fb(I, E)
        x = fa(I, E)
        if isinstance(s, (tuple, frozenset)) and not isinstance(s, App):
            return x in s
        if isinstance(s, App) and s[0] == "dict":
            return any(k == x for k, _ in s[1:])
        if isinstance(s, Bag):
            return x in s.items
        if isinstance(s, str) and isinstance(x, str):
            return x in s
        if isinstance(s, App):
            return x in I.seq(s)
        return bool(h("in", x, s, I.seed) & 1)

    return f


def c_truthy(t, a):
    f = comp(a)
    return lambda I, E: I.truth(f(I, E))


# ---- graphs


def c_mech(t, a):
    fa = comp(a)

    def f(I, E):
        g = graph(fa(I, E))
        return Graph(g.nodes + tuple(n + "mec" for n in g.nodes), g.edges | {(n + "mec", n) for n in g.nodes})

    return f


def c_addE(t, g, a, b):
    fg, fa, fb = comp(g), comp(a), comp(b)

    def f(I, E):
        g, a, b = graph(fg(I, E)), fa(I, E), fb(I, E)
        if a == b or a in g.desc(b):
            raise Unsupported("cycle")
        return Graph(g.nodes + tuple(x for x in dict.fromkeys((a, b)) if x not in g.nodes), g.edges | {(a, b)})

    return f


def c_afterG(t, a):
    """a model graph after nodes or edges are added one after the other"""
    other = comp(a)
    if not (a.op == "after" and a.args[0].op == "op" and a.args[0].args[0] in ("add_nodes_from", "add_edges_from") and len(a.args[0].args) == 2 and a.args[1].op == "model"):
        return lambda I, E: App(("afterG", other(I, E)))
    name, fx, fg = a.args[0].args[0], comp(a.args[0].args[1]), comp(a.args[1].args[0])

    def f(I, E):
        g, x = fg(I, E), fx(I, E)
        if not isinstance(g, Graph) or isinstance(x, App) or not isinstance(x, (tuple, frozenset, Bag)):
            return App(("afterG", other(I, E)))
        xs = I.seq(x)
        if name == "add_nodes_from":
            return Graph(tuple(dict.fromkeys(g.nodes + tuple(xs))), g.edges)
        if not all(isinstance(e, tuple) and not isinstance(e, App) and len(e) == 2 for e in xs):
            return App(("afterG", other(I, E)))
        return Graph(tuple(dict.fromkeys(g.nodes + tuple(n for e in xs for n in e))), g.edges | set(xs))

    return f


ROLE_FIELDS = ("agent_decisions", "agent_utilities", "decision_agent", "utility_agent")


def c_newroles(t, name, *args):
    fs = [comp(a) if isinstance(a, T) else (lambda I, E, a=a: a) for a in args]

    def f(I, E):
        vals = [x(I, E) for x in fs]
        if name == "MACIDBase" and len(vals) == 2 and all(v is None for v in vals):
            return App(("roletable",) + (make_dict(()),) * 4)
        return App(("newroles", name, *vals))

    return f


def c_setR(t, old, field, v):
    """the roles of a model that is made here, after one of their tables is replaced"""
    fo, fv = comp(old), comp(v)

    def f(I, E):
        o, x = fo(I, E), fv(I, E)
        if isinstance(o, App) and o[0] == "roletable" and isinstance(x, App) and x[0] == "dict":
            i = 1 + ROLE_FIELDS.index(field)
            return App(o[:i] + (x,) + o[i + 1 :])
        return App(("setR", o, field, x))

    return f


def c_afterR(t, a):
    other = comp(a)
    if not (a.op == "after" and a.args[0].op == "op" and a.args[0].args[0] in ("make_decision", "make_utility") and len(a.args[0].args) == 3 and a.args[1].op == "model"):
        return lambda I, E: App(("afterR", other(I, E)))
    name, fn, fa, fr = a.args[0].args[0], comp(a.args[0].args[1]), comp(a.args[0].args[2]), comp(a.args[1].args[1])

    def f(I, E):
        r = fr(I, E)
        if not (isinstance(r, App) and r[0] == "roletable"):
            return App(("afterR", other(I, E)))
        n, agent = fn(I, E), fa(I, E)
        ad, au, da, ua = [dict(x[1:]) for x in r[1:]]
        for lists, owner in ((ad, da), (au, ua)):
            if n in owner:
                o = owner.pop(n)
                lists[o] = tuple(x for x in lists.get(o, ()) if x != n)
                break
        lists, owner = (ad, da) if name == "make_decision" else (au, ua)
        lists[agent] = tuple(lists.get(agent, ())) + (n,)
        owner[n] = agent
        return App(("roletable",) + tuple(make_dict(x) for x in (ad, au, da, ua)))

    return f


def c_delE(t, g, a, b):
    fg, fa, fb = comp(g), comp(a), comp(b)

    def f(I, E):
        g = graph(fg(I, E))
        return Graph(g.nodes, g.edges - {(fa(I, E), fb(I, E))})

    return f


def c_delEs(t, g, a):
    fg, fa = comp(g), comp(a)

    def f(I, E):
        g = graph(fg(I, E))
        return Graph(g.nodes, g.edges - set(I.seq(fa(I, E))))

    return f


def c_addEs(t, g, a):
    fg, fa = comp(g), comp(a)

    def f(I, E):
        g = graph(fg(I, E))
        es = set(I.seq(fa(I, E)))
        ns = [x for e in es for x in e if x not in g.nodes]
        return Graph(g.nodes + tuple(dict.fromkeys(ns)), g.edges | es)

    return f


def c_reqG(t, g, r):
    fg, fr = comp(g), comp(r)

    def f(I, E):
        g, r = graph(fg(I, E)), roles(fr(I, E))
        k = ("req", r)
        if k not in g._p:
            cur = g
            for d in reversed([n for n in g.topo() if n in r.dec]):
                for p in g.parents(d):
                    us = [u for u in cur.desc(d) if r.util.get(u) == r.dec[d]]
                    fam = ({d} | set(cur.parents(d))) - {p}
                    if not any(cur.dconn(p, u, fam) for u in us):
                        cur = Graph(cur.nodes, cur.edges - {(p, d)})
            g._p[k] = cur
        return g._p[k]

    return f


def c_edge(t, g, a, b):
    fg, fa, fb = comp(g), comp(a), comp(b)
    return lambda I, E: (fa(I, E), fb(I, E)) in graph(fg(I, E)).edges


def c_desc(t, g, a, b):
    fg, fa, fb = comp(g), comp(a), comp(b)

    def f(I, E):
        g, a = graph(fg(I, E)), fa(I, E)
        return a in g._ns and fb(I, E) in g.desc(a)

    return f


def gfun(method):
    def build(t, g, *args):
        fg, fs = comp(g), [comp(a) for a in args]
        return lambda I, E: method(graph(fg(I, E)), *[f(I, E) for f in fs])

    return build


c_nodes = gfun(lambda g: g.nodes)
c_edges = gfun(lambda g: tuple((a, b) for a in g.nodes for b in g.nodes if (a, b) in g.edges))
c_topo = gfun(lambda g: g.topo())
c_parents = gfun(lambda g, x: g.parents(x))
c_children = gfun(lambda g, x: g.children(x))
c_desc_of = gfun(lambda g, x: g.desc(x))
c_nxanc = gfun(lambda g, x: g.anc(x))
c_anc_of = gfun(lambda g, x: g.anc(x) | {x})
c_dirpaths = gfun(lambda g, a, b: g.paths(a, b, True))
c_undirpaths = gfun(lambda g, a, b: g.paths(a, b, False))


def is_path(p) -> bool:
    return isinstance(p, tuple) and not isinstance(p, App)


def _motif(g, p, i):
    if not is_path(p):
        if p is None:
            return App(("motif", p, i))
        raise Unsupported("motif")
    m = g.motif(p, i)
    if m == "error":
        raise Unsupported("not a path")
    return m


def _motifs(g, p):
    if not is_path(p):
        raise Unsupported("motifs")
    return tuple(_motif(g, p, i) for i in range(len(p)))


c_motif = gfun(_motif)
c_motifs = gfun(_motifs)


def c_indexof(t, a, b):
    fa, fb = comp(a), comp(b)

    def f(I, E):
        p, x = fa(I, E), fb(I, E)
        if is_path(p) or isinstance(p, tuple) and not isinstance(p, App):
            return p.index(x) if x in p else App(("valueerror",))
        return App(("indexof", p, x))

    return f


def c_activetrail(t, g, a, z):
    fg, fa, fz = comp(g), comp(a), comp(z)

    def f(I, E):
        g, a, z = graph(fg(I, E)), fa(I, E), fz(I, E)
        z = () if z is None else I.seq(z)
        return frozenset(y for y in g.nodes if g.dconn(a, y, z))

    return f


def c_pred(t, k, *args):
    fs = [comp(a) if isinstance(a, T) else (lambda I, E, a=a: a) for a in args]
    if k == "node":
        fg, fx = fs
        return lambda I, E: fx(I, E) in graph(fg(I, E))._ns
    if k == "dag":
        return lambda I, E: True
    if k == "foldexit":
        return c_foldexit(t, *args)
    if k == "accin":
        return c_in(t, args[1], args[0])  # membership in what the loop has collected so far
    special = PREDS.get(k)

    def f(I, E):
        vals = [x(I, E) for x in fs]
        if special is not None:
            v = special(I, vals)
            if v is not None:
                return v
        x = h("pred", k, vals, I.seed)
        return bool(x & 1) if I.seed < 4 else x % 4 == 0 if I.seed < 6 else x % 4 != 0 if I.seed == 6 else x % 8 == 0

    return f


def _p_dconn(I, vals):
    if isinstance(vals[0], Graph):
        z = vals[3] if len(vals) > 3 else ()
        return vals[0].dconn(vals[1], vals[2], () if z is None else I.seq(z))


def _p_accnonempty(I, vals):
    return bool(I.seq(vals[0]))


def _p_agent(I, vals):
    if isinstance(vals[0], Roles):
        return vals[1] in vals[0].agents


def _p_decagent(I, vals):
    if isinstance(vals[0], Roles):
        return vals[1] in vals[0].deckeys


def _p_nonempty(I, vals):
    if isinstance(vals[0], (tuple, frozenset, Bag)) and not isinstance(vals[0], App):
        return bool(I.seq(vals[0]))


def model_of(v):
    if isinstance(v, App) and len(v) > 2 and v[0] in ("model", "struct") and isinstance(v[1], Graph) and isinstance(v[2], Roles):
        return v[1], v[2]
    return None


def graph_of(v):
    if isinstance(v, App) and len(v) > 1 and isinstance(v[1], Graph):
        return v[1]
    return None


def active(g: Graph, p, z) -> bool:
    for i in range(1, len(p) - 1):
        m = g.motif(p, i)
        if m == "collider":
            if not ((g.desc(p[i]) | {p[i]}) & z):
                return False
        elif p[i] in z:
            return False
    return True


def _p_active(I, vals):
    g, p, z = graph_of(vals[0]), vals[1], vals[2]
    if g is not None and is_path(p):
        return active(g, p, set() if z is None else set(I.seq(z)))


def _p_requisite(I, vals):
    m = model_of(vals[0])
    if m is not None:
        g, r = m
        d, p = vals[1], vals[2]
        if d in r.dec:
            fam = ({d} | set(g.parents(d))) - {p}
            return any(g.dconn(p, u, fam) for u in g.desc(d) if r.util.get(u) == r.dec[d])


def _p_ddfp(I, vals):
    m = model_of(vals[0])
    if m is not None:
        g, r = m
        return any(not any(x in r.dec for x in p[1:-1]) for p in g.paths(vals[1], vals[2], True))


def _p_backdoor(I, vals):
    g = graph_of(vals[0])
    if g is not None:
        z = set() if vals[3] is None else set(I.seq(vals[3]))
        return any(len(p) > 1 and (p[1], p[0]) in g.edges and active(g, p, z) for p in g.paths(vals[1], vals[2], False))


def _p_frontdoor(I, vals):
    g = graph_of(vals[0])
    if g is not None:
        z = set() if vals[3] is None else set(I.seq(vals[3]))
        return any(
            len(p) > 1 and (p[0], p[1]) in g.edges and any(g.motif(p, i) == "collider" for i in range(len(p))) and active(g, p, z)
            for p in g.paths(vals[1], vals[2], False)
        )


def relevant(g: Graph, r: Roles, d, n) -> bool:
    mg = Graph(g.nodes + (n + "mec",), g.edges | {(n + "mec", n)})
    fam = {d} | set(g.parents(d))
    return any(mg.dconn(n + "mec", u, fam) for u in g.desc(d) if r.util.get(u) == r.dec.get(d))


def _p_recall(I, vals):
    m = model_of(vals[0])
    if m is None:
        return None
    g, r = m
    key = ("recall", r, vals[1] if len(vals) > 1 else None)
    if key not in g._p:
        ok = True
        for a in r.agents if key[2] is None else [key[2]]:
            ds = [d for d in r.dec if r.dec[d] == a]
            es = {(x, y) for x in ds for y in ds if x != y and relevant(g, r, y, x)}
            if any(x == y or (y in Graph(ds, es).desc(x) and x in Graph(ds, es).desc(y)) for x, y in es):
                ok = False
        g._p[key] = ok
    return g._p[key]


PREDS = {
    "dconn": _p_dconn, "agent": _p_agent, "decagent": _p_decagent, "call:is_active_path": _p_active, "call:requisite": _p_requisite,
    "call:directed_decision_free_path": _p_ddfp, "call:is_active_backdoor_trail": _p_backdoor, "nonempty": _p_nonempty, "accnonempty": _p_accnonempty,
    "call:is_active_indirect_frontdoor_trail": _p_frontdoor, "call:sufficient_recall": _p_recall,
}


def c_call(t, fn, *args):
    name = fn.args[0] if isinstance(fn, T) and fn.op in ("fn", "ext") and fn.args else None
    fs = [comp(a) if isinstance(a, T) else (lambda I, E, a=a: a) for a in args]
    special = CALLS.get(name)
    ff = comp(fn)

    def f(I, E):
        vals = [x(I, E) for x in fs]
        if special is not None:
            v = special(I, vals)
            if v is not None or name == "find_active_path":
                return v
        return App(("call", ff(I, E)) + tuple(vals))

    return f


def _c_order(I, vals):
    m = model_of(vals[0])
    if m is not None:
        g, r = m
        ns = r.dec if len(vals) < 2 or vals[1] is None else I.seq(vals[1])
        return tuple(n for n in g.topo() if n in ns)


def _c_choice(I, vals):
    s = I.seq(vals[0])
    return s[h("choice", vals, I.seed) % len(s)] if s and len(vals) == 1 else None


def _c_sample(I, vals):
    s, k = I.seq(vals[0]), vals[1] if len(vals) == 2 else None
    if isinstance(k, int) and not 0 <= k <= len(s) or len(set(s)) < len(s):
        raise Unsupported("sample")
    if isinstance(k, int) and 0 <= k <= len(s):
        return tuple(random.Random(h("sample", vals, I.seed)).sample(list(s), k))


def _c_combinations(I, vals):
    k = vals[1] if len(vals) == 2 else None
    if isinstance(k, int) and 0 <= k and not isinstance(k, bool):
        return tuple(itertools.combinations(I.seq(vals[0]), k))


def _c_choices(I, vals):
    k = vals[1] if len(vals) == 2 else None
    if isinstance(k, App) and len(k) == 3 and k[0] == "kw" and k[1] == "k":
        k = k[2]
    s = I.seq(vals[0])
    if isinstance(k, int) and k >= 0 and s:
        return tuple(s[h("choice" if k == 1 else ("choices", i), vals[:1], I.seed) % len(s)] for i in range(k))


def _c_randrange(I, vals):
    if 1 <= len(vals) <= 2 and all(isinstance(x, (int, float)) and not isinstance(x, bool) for x in vals):
        lo, hi = (0, int(vals[0])) if len(vals) == 1 else (int(vals[0]), int(vals[1]))
        return lo + h("randrange", lo, hi, I.seed) % (hi - lo) if lo < hi else None


def _c_active_path(I, vals):
    g = graph_of(vals[0]) if isinstance(vals[0], App) else vals[0]
    if isinstance(g, Graph) and 3 <= len(vals) <= 4 and all(isinstance(x, str) for x in vals[1:3]):
        z = set(I.seq(vals[3])) if len(vals) == 4 and vals[3] is not None else set()
        ps = [p for p in g.paths(vals[1], vals[2], False) if active(g, p, z)]
        return ps[h("path", ps, I.seed) % len(ps)] if ps else None
    return App(("call", "find_active_path") + tuple(vals))


def _c_toposort(I, vals):
    g = graph_of(vals[0]) if isinstance(vals[0], App) else vals[0]
    return g.topo() if isinstance(g, Graph) and len(vals) == 1 else None


def _c_str(I, vals):
    if len(vals) == 1 and isinstance(vals[0], (str, int)) and not isinstance(vals[0], bool):
        return str(vals[0])


def _c_prod(I, vals):
    if len(vals) == 1 and isinstance(vals[0], tuple) and not isinstance(vals[0], App) and all(isinstance(x, int) for x in vals[0]):
        return math.prod(vals[0])


def _c_int(I, vals):
    return vals[0] if len(vals) == 1 and isinstance(vals[0], int) else None


CALLS = {"numpy.prod": _c_prod, "int": _c_int, "find_active_path": _c_active_path, "networkx.topological_sort": _c_toposort, "str": _c_str, "get_valid_order": _c_order, "random.choice": _c_choice, "random.randrange": _c_randrange, "random.sample": _c_sample, "random.choices": _c_choices, "itertools.combinations": _c_combinations}


# ---- loops with a state, and functions as values


def c_fold(t, lam, srcs, inits):
    n = lam.args[0]
    vs, step = lam.args[1 : 1 + n], lam.args[1 + n]
    # conditional values are written as conditional tuples
    nr = len(inits.args) if inits.op == "tuple" else sum(x.op != "exit" for x in step.args) - 1 if step.op == "step" else 0
    if srcs.op != "tuple" and n == nr + 1:
        srcs = T("tuple", T("first", srcs))
    ng = len(srcs.args)
    joint = ng == 1 and n > nr + 1
    orderless = [x.op == "unordered" for x in srcs.args]
    if not joint and n != nr + ng or step.op != "step" or any(orderless) and not all(orderless) or joint and any(orderless):
        def bad(I, E):
            raise Unsupported("fold")
        return bad
    if all(orderless) and ng:
        # in some fixed order
        gv = vs[nr:]
        lits = [l for l in literals(step.args[-1]) if not free_vars(l) & set(vs[:nr])]
        run, gk = bindings(list(gv), AND(*lits)), [slot(v) for v in gv]

        def items_of(I, E):
            out = []

            def sink(I, E):
                out.append(tuple(E[k] for k in gk))

            run(I, E, sink)
            return sorted(dict.fromkeys(out), key=I.rank)

        several = True
    elif ng > 1:
        gens = [comp(x) for x in srcs.args]

        def items_of(I, E):
            return list(itertools.product(*[I.seq(g(I, E)) for g in gens]))

        several = True
    else:
        items_of, several = None, joint
    ks = [slot(v) for v in vs]
    src = None if items_of or srcs.args[0].op == "naturals" else comp(T("seq", srcs.args[0]) if joint else srcs.args[0])
    init = [comp(x) for x in inits.args] if inits.op == "tuple" else None
    start = comp(inits)
    new = [comp(x) for x in step.args[:nr]]
    exits = [(x.args[0], formula(x.args[1]), [comp(y) if isinstance(y, T) else None for y in x.args[2:]]) for x in step.args[nr:-1]]
    guard = formula(step.args[-1])

    def f(I, E):
        accs = [x(I, E) for x in init] if init is not None else list(start(I, E))
        if len(accs) != nr:
            raise Unsupported("initial values of a loop")
        items = items_of(I, E) if items_of else range(40) if src is None else I.seq(src(I, E))
        kind, value = None, None
        saved = [E[k] for k in ks]
        for item in items:
            for k, v in zip(ks, accs):
                E[k] = v
            if several:
                for k, v in zip(ks[nr:], item):
                    E[k] = v
            else:
                E[ks[nr]] = item
            I.steps += 1
            if not guard(I, E):
                continue
            for kd, c, vals in exits:
                if c(I, E):
                    kind = kd
                    if kd == "break":
                        accs = [x(I, E) for x in vals]
                    elif vals and vals[0] is not None:
                        value = vals[0](I, E)
                    break
            if kind is not None:
                break
            accs = [x(I, E) for x in new]
        else:
            if src is None and not items_of:
                raise Unsupported("endless")
        for k, v in zip(ks, saved):
            E[k] = v
        return App(("loop", kind, value) + tuple(accs))

    return f


def c_without(t, s, x):
    """a list without the first occurrence of a value, a set without a value"""
    fs, fx = comp(s), comp(x)

    def f(I, E):
        v, y = fs(I, E), fx(I, E)
        if isinstance(v, frozenset):
            return v - {y}
        if isinstance(v, Bag):
            items = list(v.items)
            if y in items:
                items.remove(y)
            return Bag(items)
        items = list(I.seq(v))
        if y in items:
            items.remove(y)
        return tuple(items)

    return f


def c_foldout(t, i, fold):
    f = comp(fold)
    return lambda I, E: f(I, E)[3 + i]


def c_foldret(t, fold):
    f = comp(fold)
    return lambda I, E: f(I, E)[2]


def c_foldexit(t, kind, fold):
    f = comp(fold)
    return lambda I, E: f(I, E)[1] == kind or f(I, E)[1] == "raise"


def c_unset(t, *a):
    def f(I, E):
        raise Unsupported("unset")

    return f


c_never = c_unset


def c_lam(t, n, *args):
    vs, body = args[:n], comp(args[n])
    ks = [slot(v) for v in vs]

    def f(I, E):
        saved = [E[k] for k in ks]
        out: List[Any] = []
        last = None
        dom = [make_dict(()), make_dict((x, i % 2) for i, x in enumerate(I.names[:2]))] if n == 1 else []
        dom += (list(I.names) if n == 1 else list(I.names)[:3]) + ([0, 1, 2] if n < 3 else [0])
        for item in itertools.product(dom, repeat=n):
            for k, x in zip(ks, item):
                E[k] = x
            if len(out) in I.skip:
                out.append(App(("fails",)))
                continue
            try:
                out.append(body(I, E))
            except (Unsupported, TypeError, ValueError) as e:
                # not an argument of the function
                I.failed.append(len(out))
                out.append(App(("fails",)))
                last = e
        for k, x in zip(ks, saved):
            E[k] = x
        if last is not None and all(x == ("fails",) for x in out):
            raise last
        return App(("lam",) + tuple(out))

    return f


# ---- roles


def rfun(method):
    def build(t, r, *args):
        fr, fs = comp(r), [comp(a) for a in args]
        return lambda I, E: method(roles(fr(I, E)), *[f(I, E) for f in fs])

    return build


NOAGENT = App(("noagent",))
c_isdec = rfun(lambda r, x: x in r.dec)
c_isutil = rfun(lambda r, x: x in r.util)
c_dagent = rfun(lambda r, x: r.dec.get(x, NOAGENT))
c_uagent = rfun(lambda r, x: r.util.get(x, NOAGENT))
c_decs = c_dagmap = rfun(lambda r: tuple(r.dec))
c_utils = c_uagmap = rfun(lambda r: tuple(r.util))
c_agents = c_utilmap = rfun(lambda r: r.agents)
c_decmap = rfun(lambda r: r.deckeys)
c_decsof = rfun(lambda r, a: tuple(d for d, x in r.dec.items() if x == a))
c_utilsof = rfun(lambda r, a: tuple(d for d, x in r.util.items() if x == a))


def equal(a, b) -> bool:
    if isinstance(a, Bag) or isinstance(b, Bag):
        return (a if isinstance(a, Bag) else Bag(a) if isinstance(a, tuple) else a) == (b if isinstance(b, Bag) else Bag(b) if isinstance(b, tuple) else b)
    return a == b and (isinstance(a, bool) == isinstance(b, bool) or not isinstance(a, bool) and not isinstance(b, bool))


class Builder:
    """a world made for a conjunction of literals: what they say exists is put in, the rest is left to chance"""

    def __init__(self, rnd: random.Random):
        self.r = rnd
        self.same: Dict[Any, Any] = {}
        self.edges: List[Tuple[Any, Any]] = []
        self.paths: Dict[T, List[Any]] = {}
        self.role: Dict[Any, str] = {}
        self.owner: List[Tuple[Any, Any]] = []
        self.members: List[Tuple[str, Any]] = []
        self.outside: List[Tuple[str, Any]] = []
        self.params: Dict[str, Any] = {}
        self.nodes: List[Any] = []
        self.ints: Dict[T, int] = {}
        self.steps: Dict[Tuple[T, int], Any] = {}  # the direction of the edges of a path: True (forwards), False or None
        self.n = 0

    def number(self, t) -> Optional[int]:
        """the value of an index: its variables get small values"""
        if t.op == "const" and isinstance(t.args[0], int):
            return t.args[0]
        if t.op == "var":
            if t not in self.ints:
                self.ints[t] = self.r.choice([0, 0, 0, 1, 1, 2])
            return self.ints[t]
        if t.op == "lin":
            out = t.args[0] if isinstance(t.args[0], int) else None
            for x, k in zip(t.args[1::2], t.args[2::2]):
                v = self.number(x) if isinstance(x, T) else self.number(k) if isinstance(k, T) else None
                k = k if not isinstance(k, T) else x
                if v is None or out is None:
                    return None
                out += v * k
            return out
        return None

    def path(self, t, n: int):
        """the nodes of the path t, of which at least n + 1 are needed"""
        if t not in self.paths:
            if t.op != "param" or TYPES.get(t, "").lstrip("opt") != "seq":
                return None
            self.paths[t] = []
        p = self.paths[t]
        if t.op == "param":
            while len(p) <= n and len(p) < 6:
                p.append(self.new())
        return p

    def motif(self, kind, t, i) -> None:
        i = self.number(i) if isinstance(i, T) else i
        if i is None:
            return
        p = self.path(t, i + 1)
        if p is None or not 0 < i < len(p) - 1:
            return
        d = {"collider": (True, False), "fork": (False, True), "forward": (True, True), "backward": (False, False)}.get(kind)
        if d:
            self.steps[t, i - 1], self.steps[t, i] = d

    def find(self, k):
        while k in self.same:
            k = self.same[k]
        return k

    def new(self):
        self.n += 1
        k = ("new", self.n)
        self.nodes.append(k)
        return k

    def node(self, t):
        if t.op == "idx":
            i = self.number(t.args[1])
            p = self.path(t.args[0], i) if isinstance(i, int) else None
            if p is None:
                return None
            return p[i] if isinstance(i, int) and -len(p) <= i < len(p) else None
        if t.op == "var" or (t.op == "param" and TYPES.get(t, "").endswith("str")):
            k = self.find(t)
            if k is t and k not in self.nodes:
                self.nodes.append(k)
                if t.op == "param":
                    self.params[t.args[0]] = k
            return k
        return None

    def link(self, a, b, directed: bool, long: int = 2, later: bool = False):
        p = [a]
        for _ in range(self.r.choice([0, 0, 1, 1, long])):
            p.append(self.new())
        p.append(b)
        if later:
            return p
        for x, y in zip(p, p[1:]):
            if directed or self.r.random() < 0.5:
                self.edges.append((x, y))
            else:
                self.edges.append((y, x))
        return p

    def open(self, t: T, pos: bool, out):
        if t.op == "and" and pos or t.op == "or" and not pos:
            for x in t.args:
                self.open(x, pos, out)
        elif t.op in ("or", "and"):
            self.open(self.r.choice(t.args), pos, out)
        elif t.op == "not":
            self.open(t.args[0], not pos, out)
        elif t.op == "exists":
            if pos:
                self.open(t.args[-1], pos, out)
        else:
            out.append((pos, t))

    def build(self, formulas) -> Optional["World"]:
        r = self.r
        lits: List[Tuple[bool, T]] = []
        for f in formulas:
            self.open(f, True, lits)
        for p, l in lits:  # equalities first
            if p and l.op == "eq" and all(isinstance(x, T) and (x.op == "var" or x.op == "param") for x in l.args):
                a, b = self.node(l.args[0]), self.node(l.args[1])
                if a is not None and b is not None and a is not b:
                    self.same[a] = b
                    self.nodes.remove(a)
        for p, l in lits:
            if p and l.op == "in" and l.args[1].op in ("dirpaths", "undirpaths") and l.args[0].op == "var":
                a, b = self.node(l.args[1].args[1]), self.node(l.args[1].args[2])
                if a is not None and b is not None:
                    self.paths[l.args[0]] = [a] if a == b else self.link(a, b, True, 3, True)
                    if l.args[1].op == "dirpaths":
                        for i in range(len(self.paths[l.args[0]]) - 1):
                            self.steps[l.args[0], i] = True
        for p, l in lits:  # then the shape of paths
            if not p:
                continue
            if l.op == "eq":
                for x, y in (l.args, l.args[::-1]):
                    if isinstance(x, T) and isinstance(y, T) and x.op == "const" and y.op == "motif":
                        self.motif(x.args[0], y.args[1], y.args[2])
            elif l.op == "in" and l.args[1].op == "motifs" and l.args[0].op == "const":
                q = self.path(l.args[1].args[1], 2)
                if q is not None and len(q) > 2:
                    self.motif(l.args[0].args[0], l.args[1].args[1], r.randrange(1, len(q) - 1))
        for p, l in lits:
            ops = [x for x in l.args if isinstance(x, T)]
            if l.op in ("isdec", "isutil"):
                x = self.node(l.args[1])
                if x is not None:
                    if p:
                        self.role[x] = l.op[2:]
                    elif self.role.get(x, l.op[2:]) == l.op[2:]:
                        self.role[x] = "chance"
            elif not p:
                if l.op == "in" and l.args[1].op == "param":
                    x = self.node(l.args[0])
                    if x is not None:
                        self.outside.append((l.args[1].args[0], x))
            elif l.op in ("edge", "desc"):
                a, b = self.node(l.args[1]), self.node(l.args[2])
                if a is not None and b is not None and a != b:
                    if l.op == "edge":
                        self.edges.append((a, b))
                    else:
                        self.link(a, b, True, 1)
            elif l.op == "eq" and all(x.op in ("dagent", "uagent") for x in ops):
                a, b = self.node(ops[0].args[1]), self.node(ops[1].args[1])
                if a is not None and b is not None:
                    self.owner.append((a, b))
                    self.role.setdefault(a, ops[0].op[0] == "d" and "dec" or "util")
                    self.role.setdefault(b, ops[1].op[0] == "d" and "dec" or "util")
            elif l.op == "in" and l.args[1].op == "param":
                x = self.node(l.args[0])
                if x is not None:
                    self.members.append((l.args[1].args[0], x))
            elif l.op == "pred" and len(ops) >= 2 and l.args[0] != "node":
                ns = [n for n in (self.node(x) for x in ops[1:]) if n is not None]
                if len(ns) >= 2 and ns[0] != ns[1]:
                    a, b = ns[:2]
                    if l.args[0] == "call:requisite":
                        a, b = b, a
                    self.link(a, b, l.args[0] in ("call:directed_decision_free_path", "call:requisite") or r.random() < 0.3)
            elif l.op == "pred":
                for x in ops[1:]:
                    self.node(x)
        return self.world()

    def world(self) -> Optional["World"]:
        r = self.r
        if not self.nodes:
            return None
        for _ in range(r.choice([0, 0, 1])):
            self.new()
        if len(self.nodes) > 9:
            return None
        ids = {k: i for i, k in enumerate(self.nodes)}
        es = {(ids[self.find(a)], ids[self.find(b)]) for a, b in self.edges if self.find(a) != self.find(b)}
        for t, p in self.paths.items():
            q = [ids[self.find(x)] for x in p]
            for i, (x, y) in enumerate(zip(q, q[1:])):
                d = self.steps.get((t, i))
                if x != y and (x, y) not in es and (y, x) not in es:
                    es.add((x, y) if (r.random() < 0.5 if d is None else d) else (y, x))
        left, order = list(range(len(ids))), []
        r.shuffle(left)
        while left:
            free = [x for x in left if not any(b == x and a in left for a, b in es)]
            if not free:
                return None
            order.append(free[0])
            left.remove(free[0])
        pos = {x: i for i, x in enumerate(order)}
        name = {k: f"n{pos[i]}" for k, i in ids.items()}
        w = World(r, r.random() < 0.3)
        w.names = [f"n{i}" for i in range(len(order))]
        w.edges = {(f"n{pos[a]}", f"n{pos[b]}") for a, b in es}
        if r.random() < 0.3:
            for i, a in enumerate(w.names):
                w.edges |= {(a, b) for b in w.names[i + 1 :] if r.random() < 0.15}
        w.dec, w.util = {}, {}
        group = {n: n for n in name.values()}

        def g(x):
            while group[x] != x:
                x = group[x]
            return x

        for a, b in self.owner:
            x, y = name[self.find(a)], name[self.find(b)]
            group[g(x)] = g(y)
        agent = {n: r.choice(w.agents) for n in name.values()}
        for k, n in name.items():
            role = self.role.get(k) or r.choice(["chance", "chance", "chance", "dec", "util"])
            if role == "dec":
                w.dec[n] = agent[g(n)]
            elif role == "util":
                w.util[n] = agent[g(n)]
        w.order = list(w.names)
        r.shuffle(w.order)
        w.params = {p: name[self.find(k)] for p, k in self.params.items()}
        for t, p in self.paths.items():
            if t.op == "param":
                w.params[t.args[0]] = tuple(name[self.find(x)] for x in p)
        for p, k in self.members:
            old = w.params.get(p, frozenset())
            if isinstance(old, frozenset):
                w.params[p] = old | {name[self.find(k)]}
        for p, k in self.outside:
            old = w.params.get(p, frozenset())
            if isinstance(old, frozenset):
                w.params[p] = old - {name[self.find(k)]}
        for p in list(w.params):
            ty = TYPES.get(T("param", p), "")
            if isinstance(w.params[p], frozenset) and not ty.endswith(("set", "coll")):
                del w.params[p]
        return w


DEBUG = bool(os.environ.get("SA_DEBUG"))
FAILS = (Unsupported, RecursionError, TypeError, ValueError, KeyError, IndexError, AttributeError)


def conditions(t: T) -> List[T]:
    """the conditions a term depends on, as conjunctions"""
    if t.op == "or":
        return [x for x in t.args]
    if t.op in ("and", "exists", "edge", "desc", "pred", "in", "eq"):
        return [t]
    if t.op == "not":
        return conditions(t.args[0])
    if t.op == "cases":
        return [c for i in range(0, len(t.args), 2) for c in conditions(t.args[i])]
    out: List[T] = []
    todo = [t]
    while todo and len(out) < 40:
        x = todo.pop()
        for y in x.args:
            if isinstance(y, T):
                if y.op in ("and", "or", "exists") :
                    out += conditions(y)
                else:
                    todo.append(y)
    return out


STRUCTURE = {"edge", "desc", "isdec", "isutil", "motif", "dirpaths", "undirpaths", "dagent", "uagent"}


def ops_in(t: T) -> set:
    out, todo = set(), [t]
    while todo and len(out) < 60:
        x = todo.pop()
        out.add(x.op)
        todo += [y for y in x.args if isinstance(y, T)]
    return out


def differing_cubes(a: T, b: T) -> List[List[T]]:
    """conjunctions under which a difference between the two terms shows: the parts that differ get different values and
    what surrounds them does not decide the value by itself"""
    out: List[List[T]] = []
    budget = [400]

    def leaf(x: T, y: T, ctx) -> None:
        out.append(ctx + [x, NOT(y)])
        out.append(ctx + [NOT(x), y])

    def formulas(x: T, y: T, ctx) -> None:
        budget[0] -= 1
        if budget[0] < 0 or len(out) > 160 or skey(x) == skey(y):
            return
        if x.op == "not" and y.op == "not":
            return formulas(x.args[0], y.args[0], ctx)
        for op in ("and", "or"):
            if x.op == op or y.op == op:
                if (x.op if y.op == op else y.op) in ("and", "or") and x.op != y.op:
                    break
                xs, ys = (x.args if x.op == op else (x,)), (y.args if y.op == op else (y,))
                kx, ky = {skey(v) for v in xs}, {skey(v) for v in ys}
                same = [v for v in xs if skey(v) in ky]
                rx, ry = [v for v in xs if skey(v) not in ky], [v for v in ys if skey(v) not in kx]
                free = (lambda v: v) if op == "and" else NOT
                ctx2 = ctx + [free(v) for v in same]
                for v in rx:
                    out.append(ctx2 + [free(w) for w in ry] + [NOT(free(v))])
                for v in ry:
                    out.append(ctx2 + [free(w) for w in rx] + [NOT(free(v))])
                for v in rx[:5]:
                    for w in ry[:5]:
                        if v.op == w.op or len(rx) == len(ry) == 1:
                            others = [free(u) for u in rx if u is not v] + [free(u) for u in ry if u is not w]
                            formulas(v, w, ctx2 + others)
                return
        if x.op == "exists" and y.op == "exists":
            body = bodies(x, y)
            if body is not None:
                formulas(*body, ctx)
        leaf(x, y, ctx)

    def bodies(x: T, y: T):
        n = x.args[0]
        if y.args[0] != n:
            return None
        vx, vy = x.args[1 : 1 + n], y.args[1 : 1 + n]
        best = None
        mine = {skey(v) for v in literals(x.args[-1])}
        for perm in itertools.permutations(vx) if n <= 4 else [vx]:
            body = subst(y.args[-1], dict(zip(vy, perm)))
            k = len({skey(v) for v in literals(body)} & mine)
            if best is None or k > best[0]:
                best = k, body
        return x.args[-1], best[1]

    def terms(x: T, y: T, ctx) -> None:
        budget[0] -= 1
        if budget[0] < 0 or len(out) > 160 or skey(x) == skey(y):
            return
        if is_formula(x) and is_formula(y):
            return formulas(x, y, ctx)
        if x.op == "cases" or y.op == "cases":
            vals: Dict[Any, List[T]] = {}
            for i, t in enumerate((x, y)):
                for c, v in ([(t.args[j], t.args[j + 1]) for j in range(0, len(t.args), 2)] if t.op == "cases" else [(TRUE, t)]):
                    vals.setdefault(skey(v), [FALSE, FALSE])[i] = c
            for c, d in vals.values():
                formulas(c, d, ctx)
            return
        if x.op != y.op or len(x.args) != len(y.args):
            return
        if x.op in BINDERS and x.args[0] == y.args[0]:
            n = x.args[0]
            m = dict(zip(y.args[1 : 1 + n], x.args[1 : 1 + n]))
            ys = [subst(v, m) if isinstance(v, T) else v for v in y.args[1 + n :]]
            xs = x.args[1 + n :]
        else:
            xs, ys = x.args, y.args
        for v, w in zip(xs, ys):
            if isinstance(v, T) and isinstance(w, T):
                terms(v, w, ctx)

    terms(a, b, [])
    return out


def separate(a: T, b: T, assume: T, seconds: float = 16.0, witness=None) -> Optional[str]:
    """an interpretation in which the two terms have different values. The search keeps interpretations that satisfy much
    of the assumption and of the witness (literals under which the normal forms differ) and perturbs them."""
    fa, fb = comp(a), comp(b)
    goals = [formula(l) for l in flat(assume)]
    n0 = len(goals)
    for p, l in witness or ():
        f = formula(l)
        goals.append(f if p else (lambda I, E, f=f: not f(I, E)))
    parts = [formula(d) for t in (a, b) if t.op == "or" for d in t.args][:24]
    cubes = [[c] for c in conditions(a) + conditions(b)]
    differing = differing_cubes(a, b)
    often = 0.35 if any(STRUCTURE & ops_in(f) for c in (differing or cubes)[:40] for f in c) else 0.1
    rnd = random.Random(7)
    E = [None] * (len(SLOTS) + 8)
    pool: List[Tuple[int, World]] = []
    seen: Dict[Any, List[World]] = {}
    bad = good = built = 0
    reasons: Dict[str, int] = {}
    t0 = time.process_time()
    for i in range(400_000):
        if i % 16 == 0 and time.process_time() - t0 > seconds:
            break
        w = None
        if (cubes or differing) and rnd.random() < often:
            w = Builder(rnd).build(list(literals(assume)) + rnd.choice(differing if differing and (not cubes or rnd.random() < 0.7) else cubes))
            built += w is not None
            if w is not None and rnd.random() < 0.4:
                w = w.perturbed(rnd)
        if w is not None:
            pass
        elif i < 150 or rnd.random() < 0.2:
            w = World(rnd, i % 2 == 0)
        elif pool and rnd.random() < 0.6:
            w = rnd.choice(pool)[1].perturbed(rnd)
        elif seen:
            w = rnd.choice(seen[rnd.choice(list(seen))]).perturbed(rnd)
        else:
            w = World(rnd, i % 2 == 0)
        I = Interp(w, i)
        score = 0
        try:
            holds = True
            for k, g in enumerate(goals):
                if g(I, E):
                    score += 3 if k < n0 else 2
                elif k < n0:
                    holds = False
                    if score and k > 2:
                        break
            if holds:
                I.failed = []
                x = fa(I, E)
                undefined, I.failed = I.failed, []
                y = fb(I, E)
                good += 1
                if not equal(x, y) and undefined != I.failed:
                    # compare functions where both are defined
                    I.skip, I.memo = frozenset(undefined + I.failed), {}
                    try:
                        x, I.failed = fa(I, E), []
                        y, undefined = fb(I, E), []
                    finally:
                        I.skip, I.memo = frozenset(), {}
                if not equal(x, y) and undefined == I.failed:
                    ps = ", ".join(f"{k}={v!r}" for k, v in sorted(w.params.items()))
                    return f"in {I.graph!r}, {I.roles!r}, {ps}: code gives {str(x)[:200]}, reference gives {str(y)[:200]}"
                key = (x if isinstance(x, bool) else h(x) % 64, tuple(f(I, E) for f in parts))
                lst = seen.setdefault(key, [])
                if len(seen) < 400:
                    if len(lst) < 12:
                        lst.append(w)
                    else:
                        lst[rnd.randrange(12)] = w
        except FAILS as e:
            bad += 1
            if DEBUG:
                k = (type(e).__name__ + " " + str(e))[:60]
                reasons[k] = reasons.get(k, 0) + 1
            if bad > 300 and good == 0:
                if DEBUG:
                    print("separate: unsupported", reasons)
                return None
            continue
        if not pool or score >= pool[-1][0] or len(pool) < 24:
            pool.append((score, w))
            pool.sort(key=lambda q: -q[0])
            if len(pool) > 24:
                # keep the best, break ties at random
                j = rnd.randrange(12, 25)
                del pool[j]
    if DEBUG:
        print(reasons)
        print("separate:", i, "worlds,", good, "good,", bad, "unsupported,", built, "built; cubes:", len(cubes))
    return None
