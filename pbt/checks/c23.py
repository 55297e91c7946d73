"C23: type predicates and unwrapping."

import abc
import collections
import dataclasses
import enum
import math
import typing
from typing import Annotated, Any, Generic, Literal, NamedTuple, Optional, Protocol, TypeVar, Union

from hypothesis import strategies as st

from strong_typing import inspection

from ..core import HarnessError, Part, Stats, call, must, require
from ..gen import Gen
from ..typespecs import (
    ALL_CLASSES,
    ANNOTATIONS,
    CLASSES,
    Empty,
    Mark,
    TypeGen,
    analyse,
    build,
    describe,
    forget,
    kinds,
    members,
    module,
    size,
    value_key,
)

ID = "C23"
RULE = (
    "A case is a type expression up to three levels deep in any notation (including the generics of `typing`), with a list of "
    "annotations or none. Each predicate is compared with the form of the expression, each unwrapping function with its "
    "parts; a table lists classes of many kinds and objects that are not types, each alone and annotated. Non-trivial: the "
    "expression is composite or annotated."
)
OLD: dict[str, Any] = {"list": typing.List, "dict": typing.Dict, "set": typing.Set}
LOOKUPS: list[Any] = [type(a) for a in ANNOTATIONS] + [object, int, Exception]


@st.composite
def cases(draw: Any) -> Any:
    g = Gen(draw)
    types = TypeGen(g, refs=False)
    form = g.pick(["any", "any", "list", "set", "dict", "opt", "union", "lit"])
    depth = g.int(0, 2)
    old = g.chance(1, 3)
    if form == "any":
        spec = types.make(depth + 1)
    elif form in ("list", "set"):
        spec = ("gen", form, [types.make(depth)])
    elif form == "dict":
        spec = ("gen", form, [types.make(depth), types.make(depth)])
    elif form == "opt":
        spec = ("opt", types.make(depth), g.pick(["O", "U", "P"]))
    elif form == "union":
        spec = ("union", [types.make(depth) for _ in range(g.int(2, 4))], g.pick(["U", "P"]))
    else:
        spec = types.make(0)
        while spec[0] != "lit":
            spec = ("lit", [g.pick(["a", "b", 1, 2, True, None]) for _ in range(g.int(1, 3))])
    notes = [g.pick(ANNOTATIONS) for _ in range(g.int(1, 3))] if g.chance(1, 2) else []
    return (spec, notes, old)


def plain(d: Any) -> Any:
    return d[1] if d[0] == "ann" else d


def expected(d: Any) -> dict[str, bool]:
    "The form of a type from its structure."

    inner = plain(d)
    kind = inner[0]
    union = inner[1] if kind == "union" else ()
    cls = {id(c): c for c in ALL_CLASSES.values()}[inner[1]] if kind == "cls" else None
    gen = inner[1] if kind == "gen" else None
    return {
        "is_type_annotated": d[0] == "ann",
        "is_type_optional": ("none",) in union,
        "is_type_optional(strict)": ("none",) in union and len(union) == 2,
        "is_type_union": kind == "union" and (len(union) > 2 or ("none",) not in union),
        "is_type_literal": kind == "lit",
        "is_generic_list": gen == id(list),
        "is_generic_set": gen == id(set),
        "is_generic_dict": gen == id(dict),
        "is_type_enum": cls in (CLASSES["Color"], CLASSES["Count"], CLASSES["Word"]),
        "is_dataclass_type": cls is CLASSES["Point"],
        "is_named_tuple_type": cls is CLASSES["Pair"],
        "is_type_like": kind not in ("var", "self") or d[0] == "ann",
    }


PREDICATES: dict[str, Any] = {
    **{n: getattr(inspection, n) for n in expected(("any",)) if "(" not in n},
    "is_type_optional(strict)": lambda t: inspection.is_type_optional(t, strict=True),
}


def compare(typ: Any, want: dict[str, bool]) -> None:
    for name, predicate in PREDICATES.items():
        got = must(predicate, typ)
        require(got is want[name], lambda: f"{name} of {typ!r} is {got!r}")  # noqa: B023


def wrap(structure: Any, notes: tuple[Any, ...]) -> Any:
    if not notes:
        return structure
    return ("ann", structure[1], structure[2] + notes) if structure[0] == "ann" else ("ann", structure, notes)


def joined(parts: list[Any]) -> Any:
    return ("union", frozenset(parts)) if len(parts) > 1 else parts[0]


def agree(what: str, typ: Any, got: Any, want: Any) -> None:
    require(analyse(got) == want, lambda: f"{what} of {typ!r} is {got!r}")


def run(case: Any, stats: Stats) -> None:
    spec, notes, old = case
    forget()
    spec = ("ann", spec, notes) if notes else spec
    core = spec
    collected: list[Any] = []
    while core[0] == "ann":
        collected = core[2] + collected
        core = core[1]
    typ: Any
    if old and core[0] == "gen" and core[1] in OLD:
        typ = OLD[core[1]][tuple(map(build, core[2]))]
        typ = Annotated[(typ, *collected)] if collected else typ  # type: ignore
    else:
        typ = build(spec)
    want = describe(spec)
    if analyse(typ) != want:
        raise HarnessError(f"{spec}: {want}, {analyse(typ)}")
    form = expected(want)
    compare(typ, form)
    inner = plain(want)
    metadata = want[2] if want[0] == "ann" else ()

    # annotations
    own = must(inspection.unwrap_annotated_type, typ)
    agree("unwrap_annotated_type", typ, own, inner)
    if want[0] != "ann":
        require(own is typ, lambda: f"unwrap_annotated_type of {typ!r} is another object")
    objects = typ.__metadata__ if want[0] == "ann" else ()
    for lookup in LOOKUPS:
        found = must(inspection.get_annotation, typ, lookup)
        first = next((o for o in objects if isinstance(o, lookup)), None)
        require(found is first, lambda: f"get_annotation({typ!r}, {lookup.__name__}) is {found!r}")  # noqa: B023
    calls: list[Any] = []

    def transform(t: Any) -> Any:
        calls.append(t)
        return list[t]

    result = must(inspection.rewrap_annotated_type, transform, typ)
    require(len(calls) == 1 and analyse(calls[0]) == inner, lambda: f"re-wrapping {typ!r} transforms {calls}")
    agree("re-wrapping a list", typ, result, wrap(("gen", id(list), (inner,)), metadata))
    again = must(inspection.rewrap_annotated_type, lambda t: Annotated[t, "new"], typ)
    agree("re-wrapping with an annotation", typ, again, wrap(inner, (value_key("new"), *metadata)))

    # composite types
    if form["is_type_optional"]:
        rest = joined([m for m in inner[1] if m != ("none",)])
        agree("unwrap_optional_type", typ, must(inspection.unwrap_optional_type, typ), wrap(rest, metadata))
    elif inner[0] != "union":
        outcome = call(inspection.unwrap_optional_type, typ)
        require(isinstance(outcome.error, TypeError), lambda: f"unwrap_optional_type of {typ!r} {outcome.describe()}")
    if inner[0] == "union":
        parts = must(inspection.unwrap_union_types, typ)
        require(type(parts) is tuple, lambda: f"unwrap_union_types of {typ!r} is {parts!r}")
        require([analyse(p) for p in parts] == members(core), lambda: f"unwrap_union_types of {typ!r} is {parts!r}")
    else:
        outcome = call(inspection.unwrap_union_types, typ)
        require(isinstance(outcome.error, TypeError), lambda: f"unwrap_union_types of {typ!r} {outcome.describe()}")
    if form["is_generic_list"]:
        agree("unwrap_generic_list", typ, must(inspection.unwrap_generic_list, typ), wrap(inner[2][0], metadata))
    if form["is_generic_set"]:
        agree("unwrap_generic_set", typ, must(inspection.unwrap_generic_set, typ), wrap(inner[2][0], metadata))
    if form["is_generic_dict"]:
        pair = must(inspection.unwrap_generic_dict, typ)
        require(
            type(pair) is tuple and tuple(map(analyse, pair)) == inner[2], lambda: f"unwrap_generic_dict of {typ!r} is {pair!r}"
        )
    if form["is_type_literal"]:
        unique: list[Any] = []
        for v in core[1]:
            if value_key(v) not in map(value_key, unique):
                unique.append(v)
        keys = list(map(value_key, unique))
        values = must(inspection.unwrap_literal_values, typ)
        require(list(map(value_key, values)) == keys, lambda: f"unwrap_literal_values of {typ!r} is {values!r}")
        types = must(inspection.unwrap_literal_types, typ)
        require(types == tuple(map(type, unique)), lambda: f"unwrap_literal_types of {typ!r} is {types!r}")
        single = call(inspection.unwrap_literal_value, typ)
        if len(unique) == 1:
            require(
                single.ok and value_key(single.value) == keys[0], lambda: f"unwrap_literal_value of {typ!r} {single.describe()}"
            )
        else:
            require(isinstance(single.error, TypeError), lambda: f"unwrap_literal_value of {typ!r} {single.describe()}")
    stats.label(f"form:{core[0]}", "annotated" if want[0] == "ann" else "plain", *(f"with:{k}" for k in kinds(core)))
    stats.nontrivial(size(spec) > 1)


U = TypeVar("U")


@dataclasses.dataclass
class Plain:
    x: int = 0


class Sub(Plain):
    pass


@dataclasses.dataclass(frozen=True)
class Frozen:
    z: int = 0


@dataclasses.dataclass(slots=True)
class Slots:
    y: int = 0


@dataclasses.dataclass
class GenericData(Generic[U]):
    u: U


class Old(metaclass=abc.ABCMeta):
    __dataclass_params__ = None


class Proto(Protocol):
    x: int


class Named(NamedTuple):
    a: int
    b: str = ""


class NoFields(NamedTuple):
    pass


class SubNamed(Named):
    pass


class TupleOnly(tuple):  # type: ignore
    pass


class ListFields(tuple):  # type: ignore
    _fields = ["a"]


class MixedFields(tuple):  # type: ignore
    _fields = ("a", 1)


class WithFields:
    _fields = ("a",)


class Two(Plain, tuple):  # type: ignore
    _fields = ("a",)


class NoMembers(enum.Enum):
    pass


class Flags(enum.IntFlag):
    a = 1


class Text(enum.StrEnum):
    a = "a"


class Meta(enum.EnumMeta):
    pass


class WithMeta(enum.Enum, metaclass=Meta):
    a = 1


class Almost:
    name = "a"
    value = 1


class TD(typing.TypedDict):
    a: int


class NotATypeButOrigin:
    pass


Simple = collections.namedtuple("Simple", ["a", "b"])  # type: ignore
NEW = typing.NewType("NEW", int)
ENUMS = [NoMembers, Flags, Text, WithMeta, enum.Enum, enum.IntEnum]
DATA = [Plain, Sub, Frozen, Slots, GenericData, Mark, Empty]
NAMED = [Named, NoFields, Simple]
OTHER = [
    Old, Proto, SubNamed, TupleOnly, ListFields, MixedFields, WithFields, Meta, enum.EnumMeta, Almost, TD, tuple, list, dict, set,
    object, type, int, str, NotATypeButOrigin, abc.ABC, BaseException,
]  # fmt: skip
OBJECTS: list[Any] = [
    5, "text", "int", None, ..., math.inf, [int], (int,), {"a": int}, len, run, module, Plain(), Slots(), Named(1), Simple(1, 2), Text.a,
    WithMeta.a, Flags.a, TypeVar("X"), typing.ParamSpec("Y"), NEW, object(),
]  # fmt: skip
LIKE: list[Any] = [Any, typing.ForwardRef("int"), typing.ForwardRef("Missing"), typing.ForwardRef("list[int]"), typing.ForwardRef("a.b"), typing.ForwardRef("None"), typing.List, list[int], Literal[1], Optional[int], int | str,
    Union[int, str], typing.Tuple[int, ...], Annotated[int, 1], GenericData[int], typing.Callable[..., int], typing.ClassVar[int],
]  # fmt: skip
TABLE: list[Any] = [*ENUMS, *DATA, *NAMED, *OTHER, Two]
NONE_OF_THEM = expected(("none",)) | {"is_type_like": False}


def table() -> list[tuple[str, int, int]]:
    return [(kind, i, n) for kind, items in KINDS.items() for i in range(len(items)) for n in range(3 if kind == "table" else 1)]


KINDS: dict[str, list[Any]] = {"table": TABLE, "objects": OBJECTS, "like": LIKE}


def run_table(case: Any, stats: Stats) -> None:
    kind, index, count = case
    item = KINDS[kind][index]
    if kind == "like":
        got = must(inspection.is_type_like, item)
        require(got is True, lambda: f"is_type_like of {item!r} is {got!r}")
    elif kind == "objects":
        compare(item, NONE_OF_THEM)
        require(must(inspection.unwrap_annotated_type, item) is item, lambda: f"{item!r} is unwrapped")
        require(must(inspection.get_annotation, item, object) is None, lambda: f"{item!r} has an annotation")
        for function in (inspection.unwrap_optional_type, inspection.unwrap_union_types):
            outcome = call(function, item)
            require(isinstance(outcome.error, TypeError), lambda: f"{function.__name__} of {item!r} {outcome.describe()}")  # noqa: B023
        data = item.__class__ in (Plain, Slots)
        require(must(inspection.is_dataclass_instance, item) is data, lambda: f"is_dataclass_instance of {item!r} is {not data}")
        named = item.__class__ in (Named, Simple)
        require(must(inspection.is_named_tuple_instance, item) is named, lambda: f"is_named_tuple_instance of {item!r} is {not named}")
    else:
        typ = Annotated[(item, "x", 1)[: count + 1]] if count else item  # type: ignore
        want = NONE_OF_THEM | {
            "is_type_like": True,
            "is_type_annotated": count > 0,
            "is_type_enum": item in ENUMS,
            "is_dataclass_type": item in DATA or item is Two,
            "is_named_tuple_type": item in NAMED,
        }
        compare(typ, want)
        require(must(inspection.is_dataclass_instance, typ) is False, lambda: f"{typ!r} is a data-class instance")
        require(must(inspection.is_named_tuple_instance, typ) is False, lambda: f"{typ!r} is a named tuple instance")
        require(must(inspection.unwrap_annotated_type, typ) is item, lambda: f"{typ!r} is not unwrapped")
    stats.label(kind)
    stats.nontrivial(True)


VALUES: list[Any] = ["", "a", 0, 1, True, False, None, 1.5, b"x", (1,), (), Named(1), frozenset(), Plain(3)]


@st.composite
def enums(draw: Any) -> Any:
    g = Gen(draw)
    return [g.int(0, len(VALUES) - 1) for _ in range(g.int(0, 6))]


def run_enum(case: Any, stats: Stats) -> None:
    values = [VALUES[i] for i in case]
    # an equal value makes an alias, which is not a member of its own
    unique: list[Any] = []
    for v in values:
        if v not in unique:
            unique.append(v)
    cls: Any = enum.Enum("E", [(f"m{i}", v) for i, v in enumerate(values)])
    want = list(dict.fromkeys(map(type, unique)))
    got = must(inspection.enum_value_types, cls)
    require(type(got) is list and got == want, lambda: f"values {values} are of types {got}")
    stats.nontrivial(len(unique) > 1)


PARTS = [
    Part("types", cases, run, quick=20000, thorough=300000),
    Part("table", None, run_table, exhaustive=table),
    Part("enums", enums, run_enum, quick=1000, thorough=10000),
]
