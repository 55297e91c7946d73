"C22: names of types are valid identifiers that tell types apart."

import functools
import itertools
import keyword
from typing import Any, Optional

from hypothesis import strategies as st

from strong_typing.name import python_type_to_name

from ..core import Discard, Part, Stats, call, must, require
from ..gen import Gen
from ..typespecs import ALL_CLASSES, ANNOTATIONS, AUX, UNHASHABLE, build, forget, kinds, size, value_key

ID = "C22"
RULE = (
    "A case is a type expression (classes, auxiliary types, lists, sets, dictionaries, type objects, optionals; a tuple or a "
    "union outermost; annotations anywhere) with a variant that differs in one place: another leaf, another container, "
    "exchanged items, an added or removed optional, another notation of a union, or merely other annotations. Both are named; "
    "the names have to be equal exactly if the structures, derived from the expressions, are equal. In the table of all "
    "expressions of depth two over three leaves, each name has a single structure. Non-trivial: the expression has at least "
    "three nodes."
)
CONTAINERS = ("list", "set", "frozenset", "type")


class NameGen:
    def __init__(self, g: Any) -> None:
        self.g = g

    def annotated(self, s: Any) -> Any:
        if s[0] != "aux" and self.g.chance(1, 6):
            pool = list(ANNOTATIONS) + UNHASHABLE
            return ("ann", s, [self.g.pick(pool) for _ in range(self.g.int(1, 2))])
        return s

    def leaf(self) -> Any:
        if self.g.chance(1, 3):
            return ("aux", self.g.pick(list(AUX)))
        return ("cls", self.g.pick(list(ALL_CLASSES)))

    def inner(self, depth: int) -> Any:
        "A type without tuples and unions."

        g = self.g
        if depth <= 0 or g.chance(1, 4):
            return self.annotated(self.leaf())
        kind = g.pick(["one", "dict", "opt"])
        if kind == "one":
            return self.annotated(("gen", g.pick(CONTAINERS), [self.inner(depth - 1)]))
        if kind == "dict":
            return self.annotated(("gen", "dict", [self.inner(depth - 1), self.inner(depth - 1)]))
        return self.annotated(("opt", self.inner(depth - 1), g.pick(["O", "U", "P"])))

    def outer(self) -> Any:
        g = self.g
        kind = g.pick(["inner", "inner", "tuple", "union"])
        depth = g.int(0, 3)
        if kind == "inner":
            return self.inner(depth)
        if kind == "tuple":
            if g.chance(1, 12):
                return ("empty",)
            return self.annotated(("gen", "tuple", [self.inner(depth) for _ in range(g.int(1, 4))]))
        return self.annotated(("union", [self.inner(depth) for _ in range(g.int(2, 4))], g.pick(["U", "P"])))

    def edit(self, s: Any, outer: bool = True) -> Any:
        "An expression that differs in one place, possibly only in a place that does not matter."

        g = self.g
        kind = s[0]
        if kind in ("cls", "aux", "empty"):
            return self.leaf() if not g.chance(1, 4) else ("gen", g.pick(CONTAINERS), [self.leaf()])
        if kind == "ann":
            return s[1] if g.chance(1, 3) else ("ann", self.edit(s[1], outer), s[2]) if g.chance(1, 2) else ("ann", s[1], s[2] + ["z"])
        if kind == "opt":
            how = g.pick(["deep", "drop", "style"])
            if how == "drop":
                return s[1]
            return ("opt", self.edit(s[1], False), s[2]) if how == "deep" else ("opt", s[1], g.pick(["O", "U", "P"]))
        if kind == "union":
            members = list(s[1])
            how = g.pick(["deep", "deep", "style", "more", "swap", "less"])
            if how == "style":
                return ("union", members, "U" if s[2] == "P" else "P")
            return ("union", self.edit_list(members, how), s[2])
        assert kind == "gen", s
        items = list(s[2])
        if s[1] == "tuple":
            how = g.pick(["deep", "deep", "more", "swap", "less", "union"])
            if how == "union" and len(items) > 1:
                return ("union", items, "U")
            return ("gen", "tuple", self.edit_list(items, how))
        how = g.pick(["deep", "deep", "wrap", "swap", "other", "opt", "drop"])
        if how == "wrap":
            return ("gen", g.pick(CONTAINERS), [s])
        if how == "opt":
            return ("opt", s, "O")
        if how == "drop":
            return items[-1]
        if how == "other":
            if s[1] == "dict":
                return ("gen", g.pick(CONTAINERS), items[:1])
            return ("gen", g.pick(CONTAINERS), items)
        return ("gen", s[1], self.edit_list(items, how))

    def edit_list(self, items: list[Any], how: str) -> list[Any]:
        g = self.g
        i = g.int(0, len(items) - 1)
        if how == "more":
            items.append(self.inner(1))
        elif how == "less" and len(items) > 2:
            del items[i]
        elif how == "swap" and len(items) > 1:
            items[0], items[-1] = items[-1], items[0]
        else:
            items[i] = self.edit(items[i], False)
        return items


@st.composite
def cases(draw: Any) -> Any:
    names = NameGen(Gen(draw))
    spec = names.outer()
    return (spec, clean(names.edit(spec)))


def clean(s: Any) -> Any:
    "Removes annotations of auxiliary types, which have a name of their own only without them."

    if s[0] == "ann":
        inner = clean(s[1])
        return inner if inner[0] == "aux" else ("ann", inner, s[2])
    return s


def shape(s: Any, exact: bool = False) -> Any:
    "The structure of a type with its annotations left out unless asked for."

    kind = s[0]
    if kind == "cls":
        return ("cls", s[1])
    if kind == "aux":
        return ("aux", s[1])
    if kind == "ann":
        inner = shape(s[1], exact)
        if not exact:
            return inner
        own = tuple(map(value_key, s[2]))
        return ("ann", inner[1], inner[2] + own) if inner[0] == "ann" else ("ann", inner, own)
    if kind == "empty":
        return ("gen", "tuple", ())
    if kind == "gen":
        return ("gen", s[1], tuple(shape(i, exact) for i in s[2]))
    seen: list[Any] = []
    result: list[Any] = []
    for member in members_of(s):
        e = ("none",) if member is None else shape(member, True)
        if e not in seen:
            seen.append(e)
            result.append(e if exact or member is None else shape(member))
    if len(result) == 1:
        return result[0]
    if len(result) == 2 and ("none",) in result:
        (inner,) = (m for m in result if m != ("none",))
        return ("opt", inner)
    return ("union", tuple(result))


def members_of(s: Any) -> list[Any]:
    parts = [s[1], None] if s[0] == "opt" else s[1]
    result: list[Any] = []
    for p in parts:
        result += members_of(p) if p is not None and p[0] in ("opt", "union") else [p]
    return result


def valid(name: Any, typ: Any) -> None:
    require(
        type(name) is str and name.isidentifier() and not keyword.iskeyword(name),
        lambda: f"{typ!r} is named {name!r}, which is not an identifier",
    )


def run(case: Any, stats: Stats) -> None:
    specs = [s for s in case]
    names: list[Any] = []
    for spec in specs:
        if annotates_aux(spec):
            raise Discard()
        forget()
        typ = build(spec)
        name = must(python_type_to_name, typ, force=True)
        valid(name, typ)
        names.append(name)
        require(python_type_to_name(build(spec), force=True) == name, lambda: f"{typ!r} is named {name!r} just once")  # noqa: B023
        plain = call(python_type_to_name, typ)
        want = simple_name_of(shape(spec))
        if want is not None:
            require(plain.ok and plain.value == want, lambda: f"naming {typ!r} {plain.describe()}; expected {want!r}")  # noqa: B023
            require(name == want, lambda: f"{typ!r} is named {name!r} instead of {want!r}")  # noqa: B023
        elif shape(spec) != ("gen", "tuple", ()):
            require(isinstance(plain.error, TypeError), lambda: f"naming {typ!r} without force {plain.describe()}")  # noqa: B023
    a, b = (shape(s) for s in specs)
    require(
        (names[0] == names[1]) == (a == b),
        lambda: f"{build(specs[0])!r} is named {names[0]!r}, {build(specs[1])!r} is named {names[1]!r}",
    )
    stats.label("same" if a == b else "different", *(f"with:{k}" for k in kinds(specs[0])))
    stats.nontrivial(size(specs[0]) >= 3)


def annotates_aux(s: Any) -> bool:
    if s[0] == "ann" and shape(s[1])[0] == "aux":
        return True
    inner = [s[1]] if s[0] in ("ann", "opt") else s[1] if s[0] == "union" else s[2] if s[0] == "gen" else []
    return any(map(annotates_aux, inner))


def simple_name_of(s: Any) -> Optional[str]:
    return s[1] if s[0] in ("cls", "aux") else None


LEAVES: list[Any] = [("cls", "int"), ("cls", "Point"), ("aux", "int32")]


def wrapped(items: list[Any]) -> list[Any]:
    result: list[Any] = [("gen", c, [i]) for c in CONTAINERS for i in items]
    result += [("gen", "dict", [k, v]) for k in items for v in items]
    result += [("opt", i, "O") for i in items if i[0] != "opt"]
    return result


@functools.lru_cache(maxsize=None)
def table() -> dict[str, list[Any]]:
    result: dict[str, list[Any]] = {}
    for spec in table_specs():
        outcome = call(python_type_to_name, build(spec), force=True)
        if outcome.ok:
            known = result.setdefault(outcome.value, [])
            if shape(spec) not in known:
                known.append(shape(spec))
    return result


@functools.lru_cache(maxsize=None)
def table_specs() -> list[Any]:
    one = LEAVES + wrapped(LEAVES)
    two = LEAVES + wrapped(one)
    for n in (1, 2, 3):
        for items in itertools.product(one if n < 3 else LEAVES, repeat=n):
            two.append(("gen", "tuple", list(items)))
            if len(set(map(shape, items))) == n > 1:
                two.append(("union", list(items), "U"))
    return two


def run_table(spec: Any, stats: Stats) -> None:
    typ = build(spec)
    name = must(python_type_to_name, typ, force=True)
    valid(name, typ)
    same = table()[name]
    require(same == [shape(spec)], lambda: f"types of different structure are named {name!r}: {same}")
    stats.nontrivial(size(spec) >= 3)


PARTS = [
    Part("pairs", cases, run, quick=20000, thorough=400000),
    Part("table", None, run_table, exhaustive=table_specs),
]
