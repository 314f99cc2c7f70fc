"""Value-graph terms and their normal forms.

A term is an interned operator application. Formulas are terms built with true/false/not/and/or/exists over atoms; they
are normalised to Blake canonical form (the set of prime implicants), after pushing quantifiers inwards and eliminating
equalities, so that propositional and first-order reshufflings of the same condition have the same normal form.
No solver is involved: comparison is on normal forms (plus a table over the finitely many truth values of the atoms)."""
from __future__ import annotations

import itertools
from typing import Dict, FrozenSet, Iterable, List, Optional, Tuple


class T:
    __slots__ = ("op", "args", "_h", "_free", "_k")
    _table: Dict[tuple, "T"] = {}

    def __new__(cls, op: str, *args):
        key = (op, tuple((type(a), a) if not isinstance(a, T) else a for a in args))
        t = cls._table.get(key)
        if t is None:
            t = object.__new__(cls)
            t.op = op
            t.args = args
            t._h = hash(key)
            t._free = None
            t._k = None
            cls._table[key] = t
        return t

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o

    def __repr__(self):
        return show(self)


TRUE = T("true")
FALSE = T("false")
NONE = T("const", None)
BINDERS = {"exists", "setc", "lam", "seqgen", "ugen"}  # op, var..., payload...

_counter = itertools.count()


def reset(offset: int = 0) -> None:
    """forget everything that depends on the terms built so far, so that a result does not depend on earlier ones"""
    global _counter
    _counter = itertools.count(offset)
    for d in (VAR_SRC, TYPES, _simp, _reps):
        d.clear()


def const(v) -> T:
    if v is True:
        return TRUE
    if v is False:
        return FALSE
    return T("const", v)


def is_const(t) -> bool:
    return t.op in ("const", "true", "false")


def const_val(t):
    return {"true": True, "false": False}[t.op] if t.op in ("true", "false") else t.args[0]


VAR_SRC: Dict[T, T] = {}


def fresh(src: Optional[T] = None) -> T:
    v = T("var", next(_counter))
    if src is not None:
        VAR_SRC[v] = src
    return v


def free_vars(t: T) -> FrozenSet[T]:
    if t._free is None:
        if t.op == "var":
            t._free = frozenset([t])
        else:
            s: FrozenSet[T] = frozenset()
            for a in t.args:
                if isinstance(a, T):
                    s = s | free_vars(a)
            if t.op in BINDERS:
                n = t.args[0]
                s = s - frozenset(t.args[1 : 1 + n])
            t._free = s
    return t._free


def subst(t: T, m: Dict[T, T]) -> T:
    if not m:
        return t
    memo: Dict[T, T] = {}

    def rec(x: T) -> T:
        if x in m:
            return m[x]
        if x in memo:
            return memo[x]
        if not x.args:
            return x
        r = rebuild(x, [rec(a) if isinstance(a, T) else a for a in x.args])
        memo[x] = r
        return r

    return rec(t)


def rebuild(x: T, args: List) -> T:
    """rebuild an application through the smart constructors"""
    if all(a is b for a, b in zip(args, x.args)):
        return x
    f = SMART.get(x.op)
    if f is not None:
        return f(*args)
    return T(x.op, *args)


# ---------------------------------------------------------------- arithmetic


def lin_parts(t: T) -> Tuple[object, Dict[T, object]]:
    if t.op == "const" and isinstance(t.args[0], (int, float)):
        return t.args[0], {}
    if t.op == "lin":
        c = t.args[0]
        return c, {t.args[i]: t.args[i + 1] for i in range(1, len(t.args), 2)}
    return 0, {t: 1}


def mk_lin(c, parts: Dict[T, object]) -> T:
    parts = {k: v for k, v in parts.items() if v != 0}
    if not parts:
        return const(c)
    if c == 0 and len(parts) == 1:
        (k, v), = parts.items()
        if v == 1:
            return k
    flat: List = [c]
    for k in sorted(parts, key=skey):
        flat += [k, parts[k]]
    return T("lin", *flat)


def add(a: T, b: T, sign: int = 1) -> T:
    ca, pa = lin_parts(a)
    cb, pb = lin_parts(b)
    out = dict(pa)
    for k, v in pb.items():
        out[k] = out.get(k, 0) + sign * v
    return mk_lin(ca + sign * cb, out)


def mul(a: T, b: T) -> T:
    for x, y in ((a, b), (b, a)):
        if x.op == "const" and isinstance(x.args[0], (int, float)):
            c, p = lin_parts(y)
            return mk_lin(c * x.args[0], {k: v * x.args[0] for k, v in p.items()})
    fs: List[T] = []
    for x in (a, b):
        fs += list(x.args) if x.op == "mul" else [x]
    return T("mul", *sorted(fs, key=skey))


def _re_lin(*args) -> T:
    acc = const(args[0])
    for i in range(1, len(args), 2):
        acc = add(acc, mul(args[i], const(args[i + 1])))
    return acc


def _re_mul(*args) -> T:
    acc = args[0]
    for a in args[1:]:
        acc = mul(acc, a)
    return acc


# ---------------------------------------------------------------- formulas


def NOT(f: T) -> T:
    if f is TRUE:
        return FALSE
    if f is FALSE:
        return TRUE
    if f.op == "not":
        return f.args[0]
    return T("not", f)


def AND(*fs: T) -> T:
    out: List[T] = []
    for f in fs:
        for g in f.args if f.op == "and" else (f,):
            if g is FALSE:
                return FALSE
            if g is not TRUE and g not in out:
                out.append(g)
    for g in out:
        if NOT(g) in out:
            return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return T("and", *sorted(out, key=skey))


def OR(*fs: T) -> T:
    out: List[T] = []
    for f in fs:
        for g in f.args if f.op == "or" else (f,):
            if g is TRUE:
                return TRUE
            if g is not FALSE and g not in out:
                out.append(g)
    for g in out:
        if NOT(g) in out:
            return TRUE
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return T("or", *sorted(out, key=skey))


def EXISTS(vs: Iterable[T], body: T) -> T:
    vs = [v for v in vs if v in free_vars(body)]
    if not vs or body in (TRUE, FALSE):
        return body
    if body.op == "exists":
        n = body.args[0]
        vs = vs + list(body.args[1 : 1 + n])
        body = body.args[-1]
    return T("exists", len(vs), *vs, body)


def FORALL(vs, body):
    return NOT(EXISTS(vs, NOT(body)))


def _re_exists(n, *rest):
    return EXISTS(rest[:n], rest[n])


def ITE(c: T, a: T, b: T) -> T:
    if c is TRUE or a is b:
        return a
    if c is FALSE:
        return b
    if is_formula(a) and is_formula(b):
        return OR(AND(c, a), AND(NOT(c), b))
    if a.op == "ite" or b.op == "ite":
        n = NOT(c)
        while a.op == "ite" and (a.args[0] is c or a.args[0] is n):
            a = a.args[1] if a.args[0] is c else a.args[2]
        while b.op == "ite" and (b.args[0] is c or b.args[0] is n):
            b = b.args[2] if b.args[0] is c else b.args[1]
        if a is b:
            return a
    return T("ite", c, a, b)


FORMULA_OPS = {
    "true", "false", "not", "and", "or", "exists", "eq", "in", "lt", "edge", "desc", "isdec", "isutil", "isinst",
    "pred", "is", "truthy",
}


def is_formula(t: T) -> bool:
    return t.op in FORMULA_OPS


TYPES: Dict[T, str] = {}


def EQ(a: T, b: T) -> T:
    if a is b:
        return TRUE
    if a.op == "const" and b.op == "const":
        return const(a.args[0] == b.args[0])
    if is_const(a) and is_const(b):
        return const(const_val(a) == const_val(b))
    if a.op == "tuple" and b.op == "tuple":
        if len(a.args) != len(b.args):
            return FALSE
        return AND(*[EQ(x, y) for x, y in zip(a.args, b.args)])
    for x, y in ((a, b), (b, a)):
        if y is TRUE and is_formula(x):
            return x
        if y is FALSE and is_formula(x):
            return NOT(x)
        if x.op == "ite":
            c, p, q = x.args
            return OR(AND(c, EQ(p, y)), AND(NOT(c), EQ(q, y)))
        if y is NONE and x.op in ("tuple", "setc", "seq", "add", "lin", "len"):
            return FALSE
        if x.op in ("true", "false") and y.op == "const" and not isinstance(y.args[0], (int, float)):
            return FALSE
    if is_formula(a) and is_formula(b) and not (is_const(a) or is_const(b)):
        return OR(AND(a, b), AND(NOT(a), NOT(b)))
    if a.op == "lin" or b.op == "lin":
        d = add(a, b, -1)
        if d.op == "const":
            return const(d.args[0] == 0)
        c, p = lin_parts(d)
        ks = sorted(p, key=skey)
        if p[ks[0]] < 0:
            c, p = -c, {k: -v for k, v in p.items()}
        pos = mk_lin(0, {k: v for k, v in p.items() if v > 0})
        neg = mk_lin(-c, {k: -v for k, v in p.items() if v < 0})
        a, b = pos, neg
    a, b = sorted((a, b), key=skey)
    return T("eq", a, b)


def integral(t: T) -> bool:
    c, p = lin_parts(t)
    return isinstance(c, int) and all(
        isinstance(v, int) and (k.op in ("len", "const", "nparents", "card") or (k.op == "var" and _int_var(k)))
        for k, v in p.items()
    )


def _int_var(v: T) -> bool:
    s = VAR_SRC.get(v)
    return s is not None and s.op == "range"


def LT(a: T, b: T) -> T:
    """a < b, normalised"""
    if a is b:
        return FALSE
    d = add(a, b, -1)  # d < 0
    if d.op == "const":
        return const(d.args[0] < 0)
    c, p = lin_parts(d)
    k0 = sorted(p, key=skey)[0]
    if integral(d):
        # canonical: leading coefficient positive, else  d<0  <=>  not(-d < 1)
        if p[k0] < 0:
            nd = mul(d, const(-1))
            return NOT(T("lt", add(nd, const(1), -1)))
        return T("lt", d)
    if p[k0] < 0:
        return T("gt0", mul(d, const(-1)))
    return T("lt", d)


def LE(a: T, b: T) -> T:
    if a is b:
        return TRUE
    d = add(a, b, -1)
    if integral(d):
        return LT(a, add(b, const(1)))
    return NOT(LT(b, a))


def _re_lt(d):
    return LT(d, const(0))


FORMULA_OPS.add("gt0")


def _re_eq(a, b):
    return EQ(a, b)


def _re_in(x, s):
    return IN(x, s)


IN_HOOKS = []


def IN(x: T, s: T) -> T:
    """x in s for a collection term s"""
    if s.op == "setc":
        return subst(s.args[2], {s.args[1]: x})
    if s.op == "seq":
        return OR(*[IN(x, g) for g in s.args])
    if s.op in ("seqgen", "ugen"):
        n = s.args[0]
        vs, guard, elem = s.args[1 : 1 + n], s.args[1 + n], s.args[2 + n]
        m = {v: fresh(VAR_SRC.get(v)) for v in vs}
        return EXISTS(m.values(), AND(subst(guard, m), EQ(x, subst(elem, m))))
    if s.op == "tuple":
        return OR(*[EQ(x, y) for y in s.args])
    if s.op == "ite":
        return OR(AND(s.args[0], IN(x, s.args[1])), AND(NOT(s.args[0]), IN(x, s.args[2])))
    if s.op == "cases":
        return OR(*[AND(s.args[i], IN(x, s.args[i + 1])) for i in range(0, len(s.args), 2)])
    if s.op == "const" and isinstance(s.args[0], (tuple, frozenset)):
        return OR(*[EQ(x, const(y)) for y in s.args[0]])
    for h in IN_HOOKS:
        r = h(x, s)
        if r is not None:
            return r
    return T("in", x, s)


def _re_setc(n, v, body):
    return T("setc", n, v, body)


def setc(v: T, body: T) -> T:
    return T("setc", 1, v, body)


SMART = {
    "lin": _re_lin,
    "mul": _re_mul,
    "not": NOT,
    "and": AND,
    "or": OR,
    "exists": _re_exists,
    "ite": ITE,
    "eq": _re_eq,
    "in": _re_in,
    "lt": _re_lt,
    "gt0": lambda d: NOT(LE(d, const(0))) if integral(d) else (LT(mul(d, const(-1)), const(0))),
}


# ---------------------------------------------------------------- canonical strings (alpha-invariant)


def skey(t) -> str:
    """deterministic sort key (not alpha-invariant for free variables, but alpha-invariant for bound ones)"""
    if not isinstance(t, T):
        return f"!{type(t).__name__}:{t!r}"
    if t._k is None:
        t._k = cstr(t, {})
    return t._k


_PERM_CAP = 5


def _orders(vs, rest, env):
    """orders of the bound variables to try: refined by how they occur, all orders among indistinguishable ones"""
    parts = [l for r in rest for l in (r.args if isinstance(r, T) and r.op == "and" else (r,))]
    occ = {v: [l for l in parts if isinstance(l, T) and v in free_vars(l)] for v in vs}
    color = {v: 0 for v in vs}
    base = len(env)
    for _ in range(len(vs)):
        sig = {}
        for v in vs:
            e = dict(env)
            for u in vs:
                e[u] = "@" if u is v else f"x{base}c{color[u]}"
            for j in range(len(vs)):
                e.setdefault(("pad", j), "")
            sig[v] = (color[v], ";".join(sorted(cstr(l, e) for l in occ[v])))
        ranks = {k: i for i, k in enumerate(sorted(set(sig.values())))}
        new = {v: ranks[sig[v]] for v in vs}
        stable = len(set(new.values())) == len(set(color.values()))
        color = new
        if stable:
            break
    groups: Dict[int, List[T]] = {}
    for v in vs:
        groups.setdefault(color[v], []).append(v)
    opts = []
    total = 1
    for k in sorted(groups):
        ps = list(itertools.permutations(groups[k])) if len(groups[k]) <= _PERM_CAP else [tuple(groups[k])]
        total *= len(ps)
        opts.append(ps if total <= 200 else ps[:1])
    return [[v for g in combo for v in g] for combo in itertools.product(*opts)]


def cstr(t, env: Dict[T, str]) -> str:
    if not isinstance(t, T):
        return f"!{type(t).__name__}:{t!r}"
    if not env and t._k is not None:
        return t._k
    op = t.op
    if op == "var":
        return env.get(t, f"v{t.args[0]}")
    if op in BINDERS:
        n = t.args[0]
        vs = t.args[1 : 1 + n]
        rest = t.args[1 + n :]
        base = len(env)
        best = None
        perms = _orders(vs, rest, env) if (op == "exists" and n > 1) else [vs]
        for p in perms:
            e = dict(env)
            for i, v in enumerate(p):
                e[v] = f"x{base + i}"
            s = ",".join(cstr(r, e) for r in rest)
            if best is None or s < best:
                best = s
        return f"{op}{n}@{base}({best})"
    if op in ("and", "or", "usum", "seqset", "bag"):
        return f"{op}({','.join(sorted(cstr(a, env) for a in t.args))})"
    if op in ("eq", "mul", "symm"):
        return f"{op}({','.join(sorted(cstr(a, env) for a in t.args))})"
    if op == "lin":
        ps = sorted((cstr(t.args[i], env), repr(t.args[i + 1])) for i in range(1, len(t.args), 2))
        return f"lin({t.args[0]!r};{ps})"
    if op == "const":
        return f"<{t.args[0]!r}>"
    if not t.args:
        return op
    return f"{op}({','.join(cstr(a, env) for a in t.args)})"


# ---------------------------------------------------------------- simplification to Blake canonical form

Lit = Tuple[bool, T]
Cube = FrozenSet[Lit]
CAP = 160


class TooBig(Exception):
    pass


_simp: Dict[T, T] = {}


def simp(t: T) -> T:
    """normalise all formulas inside t"""
    r = _simp.get(t)
    if r is not None:
        return r
    if is_formula(t) or t.op in FORMULA_OPS:
        try:
            r = from_dnf(dnf_blake(t))
        except TooBig:
            r = T("big", t)
    elif t.op == "setc":
        r = setc(t.args[1], simp(t.args[2]))
    elif t.op == "ite":
        r = simp_ite(t)
    elif t.op in BINDERS or t.op in ("cases", "step", "exit", "fold"):
        r = rebuild(t, [simp(a) if isinstance(a, T) else a for a in t.args])
    elif t.args:
        r = pull_cases(t, [simp(a) if isinstance(a, T) else a for a in t.args])
        if r.op in ("seq", "dict") and len(r.args) > 1:
            r = order_exclusive(r)
    else:
        r = t
    _simp[t] = r
    _simp[r] = r
    return r


def guard_literals(g: T) -> set:
    """literals that do not depend on the variables of a generator and hold when it yields"""
    if g.op != "seqgen":
        return set()
    n = g.args[0]
    vs, c = set(g.args[1 : 1 + n]), g.args[1 + n]
    out = set()
    for l in c.args if c.op == "and" else (c,):
        if not free_vars(l) & vs:
            out.add((False, l.args[0]) if l.op == "not" else (True, l))
    return out


def order_exclusive(t: T) -> T:
    """neighbouring generators of which at most one yields can stand in either order"""
    gs = list(t.args)
    if not all(isinstance(g, T) for g in gs):
        return t
    ls = [guard_literals(g) for g in gs]
    moved = True
    while moved:
        moved = False
        for i in range(len(gs) - 1):
            if any((not p, a) in ls[i + 1] for p, a in ls[i]) and skey(gs[i + 1]) < skey(gs[i]):
                gs[i], gs[i + 1], ls[i], ls[i + 1] = gs[i + 1], gs[i], ls[i + 1], ls[i]
                moved = True
    return T(t.op, *gs)


def pull_cases(t: T, args: List) -> T:
    """f(.. cases(c1, a1, c2, a2) ..)  ->  cases(c1, f(.. a1 ..), c2, f(.. a2 ..))"""
    n = 1
    for a in args:
        if isinstance(a, T) and a.op == "cases":
            n *= len(a.args) // 2
    if n == 1 or n > 16:
        return rebuild(t, args)
    rows = [(TRUE, [])]
    for a in args:
        if isinstance(a, T) and a.op == "cases":
            alts = [(a.args[i], a.args[i + 1]) for i in range(0, len(a.args), 2)]
        else:
            alts = [(TRUE, a)]
        rows = [(AND(c, d), xs + [x]) for c, xs in rows for d, x in alts]
    rows = [(simp(c), rebuild(t, xs)) for c, xs in rows]
    return group_cases([(c, v) for c, v in rows if c is not FALSE])


def group_cases(lv: List[Tuple[T, T]]) -> T:
    flat_in: List[Tuple[T, T]] = []
    for c, v in lv:
        v = simp(v)
        if v.op == "cases":
            flat_in += [(AND(c, v.args[i]), v.args[i + 1]) for i in range(0, len(v.args), 2)]
        else:
            flat_in.append((c, v))
    groups: Dict[str, Tuple[T, List[T]]] = {}
    for c, v in flat_in:
        groups.setdefault(skey(v), (v, []))[1].append(c)
    out = []
    for k in sorted(groups):
        v, cs = groups[k]
        c = simp(OR(*cs))
        if c is TRUE:
            return v
        if c is not FALSE:
            out.append((c, v))
    if len(out) == 1:
        return out[0][1]
    flat: List[T] = []
    for c, v in out:
        flat += [c, v]
    return T("cases", *flat)


def leaves(t: T, cond: T = TRUE) -> List[Tuple[T, T]]:
    """(condition, value) leaves of an ite tree"""
    if t.op == "ite":
        return leaves(t.args[1], AND(cond, t.args[0])) + leaves(t.args[2], AND(cond, NOT(t.args[0])))
    return [(cond, t)]


def simp_ite(t: T) -> T:
    return group_cases(leaves(t))


def from_dnf(cubes: Iterable[Cube]) -> T:
    return OR(*[AND(*[a if p else NOT(a) for p, a in c]) for c in cubes])


def _absorb(cubes: Iterable[Cube]) -> List[Cube]:
    cs = sorted(set(cubes), key=len)
    out: List[Cube] = []
    for c in cs:
        if not any(o <= c for o in out):
            out.append(c)
    return out


def theory(cube: Cube) -> Optional[Cube]:
    """the endpoints of an edge and the owners of a role are nodes of the graph; None for a contradictory cube"""
    ends, linked = endpoints(cube)
    if not ends:
        return cube
    drop = []
    for lit in cube:
        p, a = lit
        if a.op == "desc" and a.args in linked:
            if p:
                drop.append(lit)
            elif (False, EQ(a.args[1], a.args[2])) in cube:
                return None
        if a.op == "pred" and a.args[0] == "node" and len(a.args) == 3 and (a.args[1], a.args[2]) in ends:
            if not p:
                return None
            drop.append(lit)
    return cube - frozenset(drop) if drop else cube


def endpoints(cube: Iterable[Lit]) -> Tuple[set, set]:
    """the nodes a cube mentions as such, and the pairs it connects by a directed path"""
    ends, linked = set(), set()
    for p, a in cube:
        if p and a.op in ("edge", "desc"):
            ends.update(((a.args[0], a.args[1]), (a.args[0], a.args[2])))
        elif p and a.op == "in" and a.args[1].op in ("dirpaths", "undirpaths"):
            g, x, y = a.args[1].args[:3]
            ends.update(((g, x), (g, y)))
            if a.args[1].op == "dirpaths":
                linked.add((g, x, y))
        elif p and a.op in ("isdec", "isutil") and a.args[0].op == "R":
            ends.add((T("G", a.args[0].args[0]), a.args[1]))  # the roles of a given model are roles of its nodes
    return ends, linked


def _prod(a: List[Cube], b: List[Cube]) -> List[Cube]:
    out = set()
    for x in a:
        for y in b:
            z = x | y
            if not any((not p, t) in z for p, t in z):
                z = theory(z)
                if z is not None:
                    out.add(z)
    if len(out) > CAP * 4:
        raise TooBig
    return _absorb(out)


def blake(cubes: List[Cube]) -> List[Cube]:
    cs = _absorb(cubes)
    changed = True
    while changed:
        changed = False
        if len(cs) > CAP:
            raise TooBig
        new = set()
        for i, x in enumerate(cs):
            for y in cs[i + 1 :]:
                opp = [l for l in x if (not l[0], l[1]) in y]
                if len(opp) == 1:
                    l = opp[0]
                    z = (x - {l}) | (y - {(not l[0], l[1])})
                    if not any((not p, t) in z for p, t in z):
                        if not any(o <= z for o in cs) and not any(o <= z for o in new):
                            new.add(z)
        if new:
            cs = _absorb(list(cs) + list(new))
            changed = True
    return cs


def dnf_blake(f: T) -> List[Cube]:
    return _hom_absorb(blake(dnf(f)))


def dnf(f: T) -> List[Cube]:
    if f is TRUE:
        return [frozenset()]
    if f is FALSE:
        return []
    if f.op == "or":
        out: List[Cube] = []
        for a in f.args:
            out += dnf(a)
        return _absorb(out)
    if f.op == "and":
        acc: List[Cube] = [frozenset()]
        for a in sorted(f.args, key=lambda a: a.op == "or"):
            acc = _prod(acc, dnf(a))
            if not acc:
                return []
        return acc
    if f.op == "not":
        g = f.args[0]
        if g.op == "and":
            return dnf(OR(*[NOT(a) for a in g.args]))
        if g.op == "or":
            return dnf(AND(*[NOT(a) for a in g.args]))
        if g.op == "not":
            return dnf(g.args[0])
        if g.op == "exists":
            cs = dnf_exists(g)
            acc = [frozenset()]
            for c in cs:
                acc = _prod(acc, [frozenset([(not p, t)]) for p, t in c])
                if not acc:
                    return []
            return acc
        return [frozenset([(False, canon_atom(g))])]
    if f.op == "exists":
        return dnf_exists(f)
    a = canon_atom(f)
    if a is not f and a.op in ("true", "false", "not", "and", "or", "exists"):
        return dnf(a)
    return [frozenset([(True, a)])]


_reps: Dict[str, T] = {}


def rep(t: T) -> T:
    """representative of the alpha-equivalence class"""
    return _reps.setdefault(skey(t), t)


def canon_atom(a: T) -> T:
    if a.op in ("var",) or not a.args:
        return a
    if a.op == "exists":
        return rep(a)
    b = pull_atom(a, [simp(x) if isinstance(x, T) else x for x in a.args])
    for h in ATOM_HOOKS:
        b = h(b)
    return rep(b) if b.op in ("exists",) or b.args else b


def pull_atom(a: T, args: List) -> T:
    n = 1
    for x in args:
        if isinstance(x, T) and x.op == "cases":
            n *= len(x.args) // 2
    if n == 1 or n > 8 or a.op in ("exists",):
        return rebuild(a, args)
    rows = [(TRUE, [])]
    for x in args:
        alts = [(x.args[i], x.args[i + 1]) for i in range(0, len(x.args), 2)] if isinstance(x, T) and x.op == "cases" else [(TRUE, x)]
        rows = [(AND(c, d), xs + [y]) for c, xs in rows for d, y in alts]
    return OR(*[AND(c, rebuild(a, xs)) for c, xs in rows])


ATOM_HOOKS = []
CUBE_HOOKS = []


def dnf_exists(f: T) -> List[Cube]:
    """exists over a formula: DNF of the body, each cube split into connected components"""
    n = f.args[0]
    vs = frozenset(f.args[1 : 1 + n])
    body = f.args[-1]
    out: List[Cube] = []
    for cube in blake(dnf(body)):
        out += _exists_cube(vs, cube)
    return _absorb(out)


def _exists_cube(vs: FrozenSet[T], cube: Cube) -> List[Cube]:
    # eliminate equalities  v == t
    for p, a in cube:
        if p and a.op == "eq":
            for v, t in ((a.args[0], a.args[1]), (a.args[1], a.args[0])):
                if v in vs and v not in free_vars(t):
                    g = AND(*[subst(x if q else NOT(x), {v: t}) for q, x in cube if x is not a])
                    return dnf(EXISTS(vs - {v}, g))
    # a quantifier below that shares a variable moves outward
    for p, a in cube:
        if p and a.op == "exists" and free_vars(a) & vs:
            n = a.args[0]
            m = {v: fresh(VAR_SRC.get(v)) for v in a.args[1 : 1 + n]}
            g = AND(subst(a.args[-1], m), *[x if q else NOT(x) for q, x in cube if x is not a])
            return dnf(EXISTS(list(vs) + list(m.values()), g))
    for h in CUBE_HOOKS:
        r = h(vs, cube)
        if r is not None:
            return dnf(r)
    # connected components
    comps: List[Tuple[set, set]] = []
    ground: List[Lit] = []
    for lit in cube:
        fv = free_vars(lit[1]) & vs
        if not fv:
            ground.append(lit)
            continue
        hit = [c for c in comps if c[0] & fv]
        new = (set(fv), {lit})
        for c in hit:
            new[0].update(c[0])
            new[1].update(c[1])
            comps.remove(c)
        comps.append(new)
    lits = set(ground)
    for cv, cl in comps:
        b = AND(*[a if p else NOT(a) for p, a in cl])
        e = EXISTS(sorted(cv, key=skey), b)
        lits.add((True, rep(e)))
    if any((not p, t) in lits for p, t in lits):
        return []
    return [frozenset(lits)]


# ---------------------------------------------------------------- subsumption between existential atoms


def _lits_of(t: T) -> List[T]:
    return list(t.args) if t.op == "and" else [t]


def implies_atom(a: T, b: T, ctx: Iterable[Lit] = ()) -> bool:
    """sound: a (with the literals of its cube) implies b (b existential or equal), by homomorphism"""
    if a is b:
        return True
    if b.op == "pred" and b.args[0] == "node" and len(b.args) == 3:
        return (b.args[1], b.args[2]) in endpoints([(True, a), *ctx])[0]
    la = list(_lits_of(a.args[-1]) if a.op == "exists" else [a])
    la += [x if p else NOT(x) for p, x in ctx if x is not a]
    if b.op != "exists":
        return False
    n = b.args[0]
    bvs = list(b.args[1 : 1 + n])
    lb = _lits_of(b.args[-1])
    if len(lb) > 6 or len(la) > 14:
        return False
    las = {skey(x) for x in la}

    def rec(i: int, m: Dict[T, T]) -> bool:
        if i == len(lb):
            return True
        l = subst(lb[i], m)
        rem = [v for v in bvs if v in free_vars(l)]
        if not rem:
            return skey(simp(l)) in las and rec(i + 1, m) or (l is TRUE and rec(i + 1, m))
        for cand in la:
            u = _unify(l, cand, set(rem))
            if u is not None:
                m2 = {k: subst(v, u) for k, v in m.items()}
                m2.update(u)
                if rec(i + 1, m2):
                    return True
        return False

    return rec(0, {})


def _unify(p: T, t: T, vs: set) -> Optional[Dict[T, T]]:
    m: Dict[T, T] = {}

    def rec(x, y) -> bool:
        if isinstance(x, T) and x in vs:
            if x in m:
                return m[x] is y
            if not isinstance(y, T):
                return False
            m[x] = y
            return True
        if x is y:
            return True
        if not isinstance(x, T) or not isinstance(y, T):
            return x == y
        if x.op != y.op or len(x.args) != len(y.args):
            return False
        return all(rec(i, j) for i, j in zip(x.args, y.args))

    return m if rec(p, t) else None


def _hom_absorb(cubes: List[Cube]) -> List[Cube]:
    """drop a cube that implies another one, through implications between existential atoms"""
    if len(cubes) < 2 or len(cubes) > 40:
        return cubes
    keep: List[Cube] = []
    cs = sorted(cubes, key=lambda c: (len(c), sorted(skey(a) for _, a in c)))

    def cube_implies(c: Cube, d: Cube) -> bool:
        return all(
            any(p == q and (implies_atom(a, b, c) if p else implies_atom(b, a)) for q, a in c) for p, b in d
        )

    for i, c in enumerate(cs):
        if any(cube_implies(c, d) for d in keep):
            continue
        keep = [d for d in keep if not cube_implies(d, c)]
        keep.append(c)
    return keep


# ---------------------------------------------------------------- comparing formulas modulo a theory of atoms

THEORY_HOOKS = []  # (a, b) -> list of forbidden sign combinations [(sa, sb)]


def _atoms(cubes: Iterable[Cube]) -> List[T]:
    out: Dict[str, T] = {}
    for c in cubes:
        for _, a in c:
            out.setdefault(skey(a), a)
    return [out[k] for k in sorted(out)]


def equivalent(f: T, g: T, assume: T = TRUE):
    """(equal?, witness cubes of the difference as list of literals)"""
    try:
        df, dg = dnf_blake(f), dnf_blake(g)
        da = dnf_blake(assume)
    except TooBig:
        return (f is g), None
    if {frozenset((p, skey(a)) for p, a in c) for c in df} == {frozenset((p, skey(a)) for p, a in c) for c in dg}:
        return True, None
    ats = _atoms(list(df) + list(dg) + list(da))
    n = len(ats)
    if n > 16:
        return False, None
    full = (1 << (1 << n)) - 1
    masks: Dict[str, int] = {}
    for i, a in enumerate(ats):
        block = 1 << i
        unit = ((1 << block) - 1) << block
        m = 0
        for s in range(0, 1 << n, 2 * block):
            m |= unit << s
        masks[skey(a)] = m

    def ev(cubes):
        r = 0
        for c in cubes:
            x = full
            for p, a in c:
                m = masks[skey(a)]
                x &= m if p else full & ~m
            r |= x
        return r

    theory = ev(da)
    for a, b in itertools.combinations(ats, 2):
        bad = []
        if implies_atom(a, b):
            bad.append((True, False))
        if implies_atom(b, a):
            bad.append((False, True))
        for h in THEORY_HOOKS:
            bad += h(a, b)
        for sa, sb in bad:
            x = (masks[skey(a)] if sa else full & ~masks[skey(a)]) & (
                masks[skey(b)] if sb else full & ~masks[skey(b)]
            )
            theory &= full & ~x
    for e in ats:  # equal things have the same properties
        if e.op != "eq" or any(x.op == "var" for x in e.args):
            continue
        src, dst = e.args if not is_const(e.args[0]) else e.args[::-1]
        if not isinstance(src, T) or is_const(src):
            continue
        seen: Dict[str, int] = {}
        for a in ats:
            if a is e:
                continue
            b = simp(subst(a, {src: dst}))
            if b in (TRUE, FALSE):
                theory &= full & ~(masks[skey(e)] & (masks[skey(a)] if b is FALSE else full & ~masks[skey(a)]))
                continue
            x = seen.setdefault(skey(b), masks[skey(a)])
            theory &= full & ~(masks[skey(e)] & (masks[skey(a)] ^ x))
    diff = (ev(df) ^ ev(dg)) & theory
    if diff == 0:
        return True, None
    idx = (diff & -diff).bit_length() - 1
    wit = [(bool(idx >> i & 1), a) for i, a in enumerate(ats)]
    return False, wit


# ---------------------------------------------------------------- printing

_INFIX = {"eq": "==", "in": "in", "and": " and ", "or": " or "}


def show(t, names: Optional[Dict[T, str]] = None, depth: int = 0) -> str:
    names = names if names is not None else {}
    if not isinstance(t, T):
        return repr(t)
    if depth > 14:
        return "..."
    s = lambda x: show(x, names, depth + 1)  # noqa
    if t.op == "var":
        return names.get(t, f"?{t.args[0]}")
    if t.op == "const":
        return repr(t.args[0])
    if t.op in ("true", "false"):
        return t.op.capitalize()
    if t.op == "param":
        return str(t.args[0])
    if t.op in BINDERS:
        n = t.args[0]
        nm = dict(names)
        for v in t.args[1 : 1 + n]:
            nm[v] = "xyzwuvpqrs"[len(nm)] if len(nm) < 10 else f"b{len(nm)}"
        vs = ",".join(nm[v] for v in t.args[1 : 1 + n])
        rest = [show(a, nm, depth + 1) for a in t.args[1 + n :]]
        if t.op == "exists":
            return f"EXISTS {vs}.({rest[0]})"
        if t.op == "setc":
            return "{" + f"{vs} | {rest[0]}" + "}"
        return f"{t.op}[{vs}]({', '.join(rest)})"
    if t.op == "not":
        return f"not ({s(t.args[0])})"
    if t.op in ("and", "or"):
        return "(" + _INFIX[t.op].join(s(a) for a in t.args) + ")"
    if t.op in ("eq", "in"):
        return f"{s(t.args[0])} {_INFIX[t.op]} {s(t.args[1])}"
    if t.op == "lt":
        return f"{s(t.args[0])} < 0"
    if t.op == "lin":
        out = [] if t.args[0] == 0 else [repr(t.args[0])]
        for i in range(1, len(t.args), 2):
            c = t.args[i + 1]
            out.append((s(t.args[i]) if c == 1 else f"{c}*{s(t.args[i])}"))
        return "(" + " + ".join(out) + ")"
    return f"{t.op}({', '.join(s(a) for a in t.args)})"


def ops_of(t: T) -> set:
    out = set()
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if not isinstance(x, T) or x in seen:
            continue
        seen.add(x)
        out.add(x.op)
        st += [a for a in x.args if isinstance(a, T)]
    return out
