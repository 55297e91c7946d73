"""
Values without declared types: built-in containers, classes without annotations, and `collections.namedtuple`.

A value is a nested tuple of literals: ("leaf", name, v), ("list" | "tuple" | "set", [items]), ("dict", [(key, item)]),
("typed", T, v), ("plain", shape, {name: item}), ("ntuple", [(name, item)]).
"""

import abc
import collections
from typing import Any

from hypothesis import strategies as st

from .gen import ALL_LEAVES, DEFAULT, FIELD_NAMES, Gen, NT_FIELD_NAMES, Profile
from .world import Bag, Unordered, World, build_leaf, encode_leaf, json_name

ATTRIBUTES = [n for n in FIELD_NAMES if not n.startswith("_")]
# names that are private by convention are members like others, but internal names are not
PRIVATE = ["_a", "_a_", "__b", "__c_", "_d__", "_", "__", "x__", "_abc", "abc_impl"]
INTERNAL = ["__e__", "__module_x__", "_abc_impl", "__élan__"]


class WithMethods:
    def method(self) -> int:
        return 1

    @classmethod
    def maker(cls) -> int:
        return 2

    @staticmethod
    def helper() -> int:
        return 5

    def __private__(self) -> int:
        return 3


class WithProperty:
    "Attributes found by reflection include properties and class-level attributes."

    level = "class"

    @property
    def prop(self) -> int:
        return 42


class WithBase(abc.ABC):
    "Has internal attributes of its own."

    @abc.abstractmethod
    def method(self) -> int: ...


class WithAbstractBase(WithBase):
    def method(self) -> int:
        return 4


SHAPES: dict[str, tuple[type, dict[str, Any]]] = {
    "methods": (WithMethods, {}),
    "slots": (object, {}),
    "property": (WithProperty, {"level": "class", "prop": 42}),
    "abstract": (WithAbstractBase, {}),
}


@st.composite
def untyped_values(draw: Any, profile: Profile = DEFAULT, naive: bool = False) -> Any:
    "Cases (universe, value)."

    g = Gen(draw, profile)
    universe = g.make_universe()
    return (universe, make(g, 3))


def make(g: Gen, depth: int, hashable: bool = False) -> Any:
    kinds = ["leaf", "leaf"]
    if depth > 0:
        kinds += ["tuple", "ntuple"]
        if not hashable:
            kinds += ["list", "dict", "set", "plain"]
    if g.classes() and not hashable:
        kinds += ["typed", "typed"]
    kind = g.pick(kinds)
    if kind == "leaf":
        name = g.pick(ALL_LEAVES + (("none",) if not hashable else ()))
        return ("leaf", name, g.leaf_value(name))
    if kind == "typed":
        t = ("cls", g.int(0, len(g.classes()) - 1), False)
        return ("typed", t, g.make_value(t, 2))
    if kind in ("list", "tuple"):
        return (kind, [make(g, depth - 1, hashable) for _ in range(g.int(0, 3))])
    if kind == "set":
        return (kind, [make(g, depth - 1, True) for _ in range(g.int(0, 3))])
    if kind == "dict":
        keys: dict[str, Any] = dict.fromkeys(g.leaf_value("str") for _ in range(g.int(0, 3)))
        items: list[Any] = [(("str", k), make(g, depth - 1)) for k in keys]
        enums = g.string_enums(len(g.classes()))
        if enums and g.chance(1, 2):
            i = g.pick(enums)
            member = g.pick(g.canonical_members(i))
            value = dict(g.classes()[i]["members"])[member]
            if value not in keys:
                items.append((("enum", i, member), make(g, depth - 1)))
        return (kind, items)
    if kind == "plain":
        names = g.sample(ATTRIBUTES + PRIVATE + INTERNAL, 0, 3)
        names = [n for i, n in enumerate(names) if json_name(n, ("leaf", "int")) not in {json_name(x, ("leaf", "int")) for x in names[:i]}]
        return (kind, g.pick(list(SHAPES)), [(n, make(g, depth - 1)) for n in names])
    # documented for data classes only: members that are None
    names = [n for n in g.sample(NT_FIELD_NAMES, 1, 3) if n.isidentifier() and n.strip("_") != ""]
    names = [n for i, n in enumerate(names) if json_name(n, ("leaf", "int")) not in {json_name(x, ("leaf", "int")) for x in names[:i]}]
    items = [(n, make(g, depth - 1, hashable)) for n in names]
    return (kind, [(n, v if v[:2] != ("leaf", "none") else ("leaf", "int", 0)) for n, v in items])


def build(w: World, v: Any) -> Any:
    kind = v[0]
    if kind == "leaf":
        return build_leaf(v[1], v[2])
    if kind == "typed":
        return w.build(v[1], v[2])
    if kind == "list":
        return [build(w, x) for x in v[1]]
    if kind == "tuple":
        return tuple(build(w, x) for x in v[1])
    if kind == "set":
        return {build(w, x) for x in v[1]}
    if kind == "dict":
        return {build_key(w, k): build(w, x) for k, x in v[1]}
    if kind == "plain":
        if v[1] == "slots":
            slots = [n for n, _ in v[2] if not n.startswith("_")]
            obj = type("WithSlots", (), {"__slots__": [*slots, "__dict__"]})()
        else:
            obj = SHAPES[v[1]][0]()
        for n, x in v[2]:
            setattr(obj, n, build(w, x))
        return obj
    if kind == "ntuple":
        return collections.namedtuple("Tup", [n for n, _ in v[1]])(*[build(w, x) for _, x in v[1]])  # type: ignore
    raise ValueError(v)


def build_key(w: World, k: Any) -> Any:
    return k[1] if k[0] == "str" else w.classes[k[1]][k[2]]  # type: ignore


def key_text(w: World, k: Any) -> str:
    return k[1] if k[0] == "str" else w.classes[k[1]][k[2]].value  # type: ignore


def encode(w: World, v: Any) -> Any:
    kind = v[0]
    if kind == "leaf":
        return encode_leaf(v[1], v[2])
    if kind == "typed":
        return w.encode(v[1], v[2])
    if kind in ("list", "tuple"):
        return [encode(w, x) for x in v[1]]
    if kind == "set":
        items: list[Any] = []
        seen: set[Any] = set()
        for x in v[1]:
            obj = build(w, x)
            if obj not in seen:
                seen.add(obj)
                items.append(encode(w, x))
        return Bag(items)
    if kind == "dict":
        return {key_text(w, k): encode(w, x) for k, x in v[1]}
    if kind == "plain":
        result = Unordered(SHAPES[v[1]][1])
        for n, x in v[2]:
            if x[:2] != ("leaf", "none") and n not in INTERNAL:
                result[json_name(n, ("leaf", "int"))] = encode(w, x)
        return result
    if kind == "ntuple":
        return {json_name(n, ("leaf", "int")): encode(w, x) for n, x in v[1]}
    raise ValueError(v)


def walk(v: Any) -> Any:
    yield v
    if v[0] in ("list", "tuple", "set"):
        for x in v[1]:
            yield from walk(x)
    elif v[0] == "dict" or v[0] == "ntuple":
        for _, x in v[1]:
            yield from walk(x)
    elif v[0] == "plain":
        for _, x in v[2]:
            yield from walk(x)
