"C26: topological sorting."

import functools
from typing import Any

from hypothesis import strategies as st

from strong_typing.topological import topological_sort, type_topological_sort

from ..core import Part, Stats, call, require
from ..gen import Gen, Profile
from ..world import World
from .c25 import closure, cyclic, names

ID = "C26"
RULE = (
    "All graphs of up to three nodes (with and without self-references) and all graphs of four nodes without; random graphs "
    "of up to fourteen nodes of several kinds, mostly without cycles, and long chains; groups of generated classes with a "
    "generated dependency function, given as a list or as an iterator. The order is verified edge by edge; an error is "
    "expected exactly if repeated removal of free nodes leaves some. Non-trivial: the graph has at least two edges between "
    "different nodes."
)


class Node:
    "Compared by identity."

    def __init__(self, index: int) -> None:
        self.index = index

    def __repr__(self) -> str:
        return f"<{self.index}>"


class Same:
    "Compared by value; each use is another object."

    def __init__(self, index: int) -> None:
        self.index = index

    def __eq__(self, other: Any) -> bool:
        return isinstance(other, Same) and other.index == self.index

    def __hash__(self) -> int:
        return self.index % 3

    def __repr__(self) -> str:
        return f"Same({self.index})"


class Alike(Node):
    "Printed alike, compared by identity."

    def __repr__(self) -> str:
        return "<node>"


@functools.total_ordering
class Bound(Same):
    "Equal to none but itself, and printed alike; with an order."

    def __lt__(self, other: Any) -> bool:
        return self.index < other.index

    def __repr__(self) -> str:
        return "Bound"


MAKERS: dict[str, Any] = {
    "int": lambda i: i,
    "str": lambda i: f"n{i}",
    "tuple": lambda i: (i, "x"),
    "mixed": lambda i: i if i % 2 else f"{i}",
    "none": lambda i: None if i == 0 else -i,
}


def judge(graph: dict[Any, set[Any]]) -> tuple[bool, int]:
    copy = {n: set(edges) for n, edges in graph.items()}
    order = list(graph)
    outcome = call(topological_sort, graph)
    bad = cyclic(copy)
    if bad:
        require(
            isinstance(outcome.error, RuntimeError) and not isinstance(outcome.error, RecursionError),
            lambda: f"sorting {graph}, which has a cycle, {outcome.describe()}",
        )
    else:
        require(outcome.ok, lambda: f"sorting {graph}, which has no cycle, {outcome.describe()}")
        result = outcome.value
        verify(result, copy, f"sorting {graph}")
        again = call(topological_sort, graph)
        require(again.ok and again.value == result, lambda: f"sorting {graph} again {again.describe()}")
    require(graph == copy and list(graph) == order, lambda: f"sorting changes the graph {copy} to {graph}")
    return bad, sum(1 for n, edges in copy.items() for m in edges if m != n)


def verify(result: Any, graph: dict[Any, set[Any]], what: str) -> None:
    require(type(result) is list, lambda: f"{what} returned {result!r}")
    require(
        len(result) == len(graph) and all(n in graph for n in result) and len({*result}) == len(result),
        lambda: f"{what} returned {result!r}, which are not the nodes",
    )
    position = {n: i for i, n in enumerate(result)}
    for n, edges in graph.items():
        for m in edges:
            require(m == n or position[m] < position[n], lambda: f"{what} returned {result!r}, where {m} comes after {n}")  # noqa: B023


def small_graphs() -> list[tuple[int, int, bool]]:
    result = [(n, bits, True) for n in (0, 1, 2, 3) for bits in range(1 << (n * n))]
    return result + [(4, bits, False) for bits in range(1 << 12)]


def run_small(case: Any, stats: Stats) -> None:
    n, bits, loops = case
    pairs = [(i, j) for i in range(n) for j in range(n) if loops or i != j]
    graph: dict[int, set[int]] = {i: set() for i in range(n)}
    for k, (i, j) in enumerate(pairs):
        if bits >> k & 1:
            graph[i].add(j)
    bad, edges = judge(graph)
    stats.label("cycle" if bad else "no cycle")
    stats.nontrivial(edges >= 2)


@st.composite
def graphs(draw: Any) -> Any:
    g = Gen(draw)
    kind = g.pick([*MAKERS, "node", "same", "alike", "bound"])
    shape = g.pick(["order", "order", "any", "chain", "one-back"])
    if shape == "chain":
        n = g.int(2, 120)
        edges = [(i, i + 1) for i in range(n - 1)] + [(g.int(0, n - 1), g.int(0, n - 1))] * g.int(0, 1)
    else:
        n = g.int(2, 14)
        edges = []
        for _ in range(g.int(0, 2 * n)):
            i, j = g.int(0, n - 1), g.int(0, n - 1)
            edges.append((i, j) if shape == "any" else (max(i, j), min(i, j)))
        if shape == "one-back":
            edges.append((g.int(0, n - 1), g.int(0, n - 1)))
    order = g.draw(st.permutations(range(n))) if n <= 14 else list(range(n))
    rename = g.draw(st.permutations(range(n))) if n <= 14 else list(range(n))
    return (kind, [rename[i] for i in order], [(rename[i], rename[j]) for i, j in edges])


def run_graph(case: Any, stats: Stats) -> None:
    kind, order, edges = case
    if kind in ("node", "alike"):
        nodes = [(Node if kind == "node" else Alike)(i) for i in range(len(order))]
        make: Any = lambda i: nodes[i]  # noqa: E731
    else:
        make = MAKERS.get(kind, Bound if kind == "bound" else Same)
    graph: dict[Any, set[Any]] = {make(i): set() for i in order}
    for i, j in edges:
        graph[make(i)].add(make(j))
    bad, count = judge(graph)
    stats.label("cycle" if bad else "no cycle", kind, f"nodes:{min(len(order), 15)}")
    stats.nontrivial(count >= 2)


PROFILE = Profile(json_leaf=False, mods=2, min_classes=2, max_classes=6, max_fields=3, forward=True)


@st.composite
def groups(draw: Any) -> Any:
    import dataclasses

    g = Gen(draw, dataclasses.replace(PROFILE, forward=draw(st.integers(0, 3)) == 3))
    universe = g.make_universe()
    for c in universe["classes"]:
        for f in c.get("fields", ()):
            f.pop("d", None)
    count = len(universe["classes"])
    roots = [g.int(0, count - 1) for _ in range(g.int(0, 3))]
    extra: Any = None
    if g.chance(2, 3):
        extra = []
        down = g.chance(3, 4)
        for _ in range(g.int(0, 4)):
            i, j = g.int(0, count - 1), g.int(0, count - 1)
            extra.append((max(i, j), min(i, j)) if down else (i, j))
        if g.chance(1, 3):
            extra.append((g.int(0, count - 1), "int"))
        if g.chance(1, 6):
            extra.append(("int", "complex"))
        if g.chance(1, 8):
            extra.append(("complex", "list"))
    return (universe, roots, extra, g.pick(["list", "tuple", "iterator", "set"]))


BUILT_IN: dict[str, Any] = {"int": int, "complex": complex, "list": list}


def run_types(case: Any, stats: Stats) -> None:
    universe, roots, extra, form = case
    with World(universe) as w:
        get: Any = lambda i: BUILT_IN[i] if isinstance(i, str) else w.classes[i]  # noqa: E731
        more: dict[type, list[type]] = {}
        for i, j in extra or ():
            more.setdefault(get(i), []).append(get(j))
        classes = [w.classes[i] for i in roots]

        # reachable by own members or by extra dependencies
        graph: dict[type, set[type]] = {}
        pending = list(classes)
        while pending:
            cls = pending.pop()
            if cls not in graph:
                graph[cls] = closure(w, {cls})[cls] | set(more.get(cls, ()))
                pending.extend(graph[cls])

        def dependencies(cls: type) -> Any:
            require(isinstance(cls, type) and cls in graph, lambda: f"dependencies of {cls!r} are asked for")
            found = more.get(cls, [])
            return iter(found) if form == "iterator" else found

        function = None if extra is None else dependencies
        given: Any = {"list": list, "tuple": tuple, "iterator": iter, "set": set}[form](classes)
        outcome = call(type_topological_sort, given, function)
        shown = {k.__name__: names(v) for k, v in graph.items()}
        if cyclic(graph):
            require(
                isinstance(outcome.error, RuntimeError) and not isinstance(outcome.error, RecursionError),
                lambda: f"sorting types {names(classes)} with a cycle in {shown} {outcome.describe()}",
            )
        else:
            require(outcome.ok, lambda: f"sorting types {names(classes)} in {shown} {outcome.describe()}")
            verify(outcome.value, graph, f"sorting types {names(classes)} in {shown}")
            again = call(type_topological_sort, classes, function)
            require(
                again.ok and (form == "set" or again.value == outcome.value),
                lambda: f"sorting types {names(classes)} again {again.describe()} after {outcome.describe()}",
            )
        for wrong in ([*classes, list[int]], [*classes, "A"], ["A", *classes], [1]):
            outcome = call(type_topological_sort, wrong, function)
            require(isinstance(outcome.error, TypeError), lambda: f"sorting {wrong} {outcome.describe()}")  # noqa: B023
        stats.label("cycle" if cyclic(graph) else "no cycle", "extra" if extra else "own")
        stats.nontrivial(sum(1 for n, edges in graph.items() for m in edges if m is not n) >= 2)


PARTS = [
    Part("small", None, run_small, exhaustive=small_graphs),
    Part("graphs", graphs, run_graph, quick=8000, thorough=200000),
    Part("types", groups, run_types, quick=4000, thorough=80000),
]
