"C25: the set of referenced types."

import datetime
import ipaddress
import types
import typing
import uuid
from typing import Any

from hypothesis import strategies as st

from strong_typing.inspection import TypeCollector, get_referenced_types

from ..core import Part, Stats, call, must, require
from ..gen import Gen, Profile
from ..world import AUX_BASE, World

ID = "C25"
RULE = (
    "A case is a group of up to six classes of all kinds (data classes, named tuples, plain classes, exceptions, "
    "enumerations) in one or two modules that refer to each other through containers, optionals, unions, annotations, "
    "references by name and inheritance, with a type expression over them. The types collected for the expression and, for a "
    "list of classes, the graph of direct references must equal what the class descriptions say. Non-trivial: at least two "
    "classes are reached."
)
PROFILE = Profile(json_leaf=True, mods=2, min_classes=1, max_classes=6)
LEAVES: dict[str, Any] = {
    "int": int, "str": str, "bool": bool, "float": float, "bytes": bytes, "datetime": datetime.datetime, "date": datetime.date,
    "time": datetime.time, "timedelta": datetime.timedelta, "uuid": uuid.UUID, "ipv4": ipaddress.IPv4Address,
    "ipv6": ipaddress.IPv6Address,
}  # fmt: skip


def vary(g: Gen, t: Any) -> Any:
    "Some lists become tuples of any length, some sets cannot be changed."

    kind = t[0]
    if kind in ("list", "set") and g.chance(1, 4):
        return ("vtuple" if kind == "list" else "fset", vary(g, t[1]))
    if kind in ("list", "dict", "set"):
        return (kind, vary(g, t[1]))
    if kind in ("opt", "ann"):
        return (kind, vary(g, t[1]), *t[2:])
    if kind in ("tuple", "union"):
        return (kind, [vary(g, x) for x in t[1]], *t[2:])
    if kind == "edict":
        return (kind, t[1], vary(g, t[2]))
    return t


@st.composite
def cases(draw: Any) -> Any:
    g = Gen(draw, PROFILE)
    universe = g.make_universe()
    for c in universe["classes"]:
        for f in c.get("fields", ()):
            f.pop("d", None)
            f["t"] = vary(g, f["t"])
    mod = g.int(0, len(universe["mods"]) - 1)
    t = vary(g, g.make_type(mod=mod) if g.chance(1, 2) else g.top_type(mod))
    roots = [g.int(0, len(universe["classes"]) - 1) for _ in range(g.int(1, 3))] if universe["classes"] else []
    return (universe, mod, t, roots)


def direct(w: World, t: Any) -> set[type]:
    "Classes that a type expression mentions."

    kind = t[0]
    if kind == "leaf":
        if t[1] in ("json", "sjson"):
            return {bool, int, float, str}
        return {LEAVES[t[1]]} if t[1] != "none" else set()
    if kind == "aux":
        return {int if AUX_BASE[t[1]] == "int" else float}
    if kind in ("literal", "elit"):
        return set()
    if kind in ("list", "set", "vtuple", "fset", "opt", "ann"):
        return direct(w, t[1])
    if kind == "dict":
        return {str} | direct(w, t[1])
    if kind == "edict":
        return {w.classes[t[1]]} | direct(w, t[2])
    if kind in ("tuple", "union"):
        return set().union(*(direct(w, s) for s in t[1]))
    assert kind == "cls", t
    return {w.classes[t[1]]}


def members(w: World, cls: type) -> set[type]:
    "Classes that the members of a class mention."

    if cls not in w.classes:
        return set()
    index = w.classes.index(cls)
    if w.specs[index]["k"] == "enum":
        return set()
    return set().union(*(direct(w, f["t"]) for f in w.fields(index)))


def closure(w: World, start: set[type]) -> dict[type, set[type]]:
    graph: dict[type, set[type]] = {}
    pending = list(start)
    while pending:
        cls = pending.pop()
        if cls not in graph:
            graph[cls] = members(w, cls)
            pending.extend(graph[cls])
    return graph


def run(case: Any, stats: Stats) -> None:
    universe, mod, t, roots = case
    with World(universe) as w:
        module = w.modules[mod]
        for plain in (True, False):
            typ = w.type(t, mod, plain=plain)
            if isinstance(typ, str) and not plain:
                pass
            want = set(closure(w, direct(w, t)))
            got = must(get_referenced_types, typ, module)
            require(type(got) is set, lambda: f"referenced types are {got!r}")  # noqa: B023
            require(got == want, lambda: f"{typ!r} references {names(got)}; expected {names(want)}")  # noqa: B023
            if plain and not has_reference(typ):
                require(must(get_referenced_types, typ) == want, lambda: f"{typ!r} references other types without a module")  # noqa: B023
            elif has_reference(typ):
                outcome = call(get_referenced_types, typ)
                require(
                    isinstance(outcome.error, ValueError),
                    lambda: f"get_referenced_types({typ!r}) without a module {outcome.describe()}",  # noqa: B023
                )

        classes = [w.classes[i] for i in roots]
        collector = TypeCollector()
        for _ in range(2):  # a type that is visited already changes nothing
            must(collector.traverse_all, classes)
            graph = {k: v for k, v in collector.graph.items() if not k.__module__.startswith("strong_typing.")}
            expected = closure(w, set(classes))
            require(
                graph == expected,
                lambda: f"graph of {names(classes)} is {show(graph)}; expected {show(expected)}",  # noqa: B023
            )
            require(collector.references == set(expected), lambda: f"references of {names(classes)} are {names(collector.references)}")
        reached = sum(c in w.classes for c in expected)
        stats.label(f"classes:{reached}", "cyclic" if cyclic(expected) else "acyclic", "references" if has_reference(w.type(t, mod)) else "none")
        stats.nontrivial(reached >= 2)


def has_reference(typ: Any) -> bool:
    "Whether a reference by name occurs in the expression itself."

    if isinstance(typ, (str, typing.ForwardRef)):
        return True
    if typing.get_origin(typ) is typing.Literal:
        return False
    if hasattr(typ, "__metadata__"):
        return has_reference(typ.__origin__)
    return any(has_reference(a) for a in typing.get_args(typ))


def cyclic(graph: dict[type, set[type]]) -> bool:
    done: set[type] = set()
    while True:
        free = [n for n, edges in graph.items() if n not in done and not edges - done - {n}]
        if not free:
            return len(done) < len(graph)
        done.update(free)


def names(items: Any) -> list[str]:
    return sorted(f"{c.__module__}.{c.__name__}" for c in items)


def show(graph: Any) -> Any:
    return {k.__name__: names(v) for k, v in sorted(graph.items(), key=lambda e: e[0].__name__)}


PARTS = [Part("groups", cases, run, quick=8000, thorough=150000)]
_ = types
