"""Abstract values of the interpreter: terms, tuples, collections in generator normal form, heap references, callables."""
from __future__ import annotations

from dataclasses import dataclass, field
from typing import Any, Dict, List, Optional, Tuple

from sa.terms import *  # noqa
from sa.terms import T


@dataclass(frozen=True)
class Gen:
    """{elem | binders, guard}: binders are (variable, ordered source or None); the membership of a variable in its
    source is implied for non-None sources"""

    binders: Tuple[Tuple[T, Optional[T]], ...]
    guard: T
    elem: Any

    def full(self) -> T:
        return AND(*[IN(v, s) for v, s in self.binders if s is not None], self.guard)

    def vars(self):
        return [v for v, _ in self.binders]


@dataclass(frozen=True)
class AccMark:
    """the (unknown) content of a collection at the start of a loop iteration"""

    var: T


@dataclass(frozen=True)
class Coll:
    kind: str  # list | set | tuple | iter | dict
    gens: Tuple[Any, ...] = ()

    @property
    def ordered(self) -> bool:
        return self.kind != "set"


@dataclass(frozen=True)
class Tup:
    items: Tuple[Any, ...]


@dataclass(frozen=True)
class Ref:
    id: int


@dataclass(frozen=True, eq=False)
class FnVal:
    func: Any  # Func or (node)
    node: Any
    env: Any  # closure environment (dict) or None
    self_val: Any = None
    module: Any = None
    cls: Any = None  # class for super()
    name: str = ""


@dataclass(frozen=True)
class ClsVal:
    cls: Any


@dataclass(frozen=True)
class ModVal:
    module: Any


@dataclass(frozen=True)
class Ext:
    name: str  # dotted external / builtin name


@dataclass(frozen=True)
class Bound:
    recv: Any
    name: str
    sup: Any = None  # for super(): the class after which to look


@dataclass(frozen=True)
class Super:
    self_val: Any
    cls: Any


@dataclass(frozen=True)
class Partial:
    fn: Any
    args: Tuple[Any, ...]
    kwargs: Tuple[Tuple[str, Any], ...] = ()


@dataclass(frozen=True)
class ModelCell:
    """abstract (MA)CID: graph, role and CPD versions"""

    cls: Any
    G: T
    R: T
    C: T
    fields: Tuple[Tuple[str, Any], ...] = ()


@dataclass(frozen=True)
class InstCell:
    cls: Any
    fields: Tuple[Tuple[str, Any], ...] = ()
    tag: str = ""


def kv(e):
    """(key, value) of an element of a dict collection"""
    if isinstance(e, Tup):
        return e.items
    if isinstance(e, T) and e.op == "tuple" and len(e.args) == 2:
        return e.args
    f = SMART.get("idx", lambda *a: T("idx", *a))
    return f(e, const(0)), f(e, const(1))
