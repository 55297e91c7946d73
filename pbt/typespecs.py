"""
Type expressions over a fixed set of names, built as objects of `typing` and described by an independent structure.

A specification is a tuple whose first item is the kind:

    ("cls", name) ("none",) ("any",) ("self",) ("var", name) ("ref", name, style) ("aux", name)
    ("lit", [values]) ("gen", origin, [args]) ("callable", [args] | "..." | ("pspec",), result)
    ("opt", spec, style) ("union", [specs], style) ("ann", spec, [annotations]) ("empty",)
"""

import collections.abc
import datetime
import enum
import types
import typing
import uuid
from typing import Annotated, Any, Callable, Generic, Literal, Optional, TypeVar, Union

from strong_typing import auxiliary
from strong_typing.auxiliary import ParamSpec, typeannotation

T = TypeVar("T")
K = TypeVar("K")
P = ParamSpec("P")

module = types.ModuleType("vt_typespecs")
SOURCE = '''
import datetime
import enum
import uuid
from typing import Generic, NamedTuple, Optional
from dataclasses import dataclass
class Alpha: pass
class Beta(Alpha): pass
class Étoile: pass
@dataclass
class Point:
    x: int
class Pair(NamedTuple):
    a: int
class Color(enum.Enum):
    red = 1
    dark_blue = "b"
class Count(enum.IntEnum):
    one = 1
class Word(str, enum.Enum):
    a = "a"
class Boom(Exception): pass
'''
import sys  # noqa: E402

sys.modules[module.__name__] = module
exec(SOURCE, module.__dict__)


class Box(Generic[T]):
    pass


class Map2(Generic[K, T]):
    pass


class Run(Generic[P]):
    pass


for _c in (Box, Map2, Run):
    _c.__module__ = module.__name__
    setattr(module, _c.__name__, _c)


@typeannotation
class Mark:
    name: str
    values: tuple[int, ...] = ()


@typeannotation
class Empty:
    pass


CLASSES: dict[str, Any] = {
    n: module.__dict__[n] for n in ("Alpha", "Beta", "Étoile", "Point", "Pair", "Color", "Count", "Word", "Boom")
}
BUILT_IN: dict[str, Any] = {
    t.__name__: t
    for t in (
        bool, int, float, str, bytes, object, complex, list, dict, set, tuple, frozenset, type, datetime.datetime, datetime.date,
        datetime.timedelta, uuid.UUID, ValueError,
    )
}  # fmt: skip
ALL_CLASSES = {**CLASSES, **BUILT_IN}
GENERICS: dict[str, tuple[Any, int]] = {
    "list": (list, 1),
    "set": (set, 1),
    "frozenset": (frozenset, 1),
    "dict": (dict, 2),
    "type": (type, 1),
    "Box": (Box, 1),
    "Map2": (Map2, 2),
    "Iterator": (collections.abc.Iterator, 1),
    "Sequence": (collections.abc.Sequence, 1),
    "Mapping": (collections.abc.Mapping, 2),
    "deque": (collections.deque, 1),
    "defaultdict": (collections.defaultdict, 2),
    "Awaitable": (collections.abc.Awaitable, 1),
}
AUX = {v: k for k, v in auxiliary._auxiliary_types.items()}
QUOTED: list[tuple[str, Any]] = [
    ("int", ("cls", "int")),
    ("list[Alpha]", ("gen", "list", [("cls", "Alpha")])),
    ("Optional[Point]", ("opt", ("cls", "Point"), "O")),
    ("dict[str, 'Pair']", ("gen", "dict", [("cls", "str"), ("cls", "Pair")])),
    ("Color | None", ("opt", ("cls", "Color"), "P")),
    ("uuid.UUID", ("cls", "UUID")),
]
ANNOTATIONS: list[Any] = [
    auxiliary.Alias("x"),
    auxiliary.Alias("it's \"q\" \\ \n"),
    auxiliary.MinLength(1),
    auxiliary.MaxLength(10),
    auxiliary.Length(3),
    auxiliary.Precision(9, 3),
    auxiliary.TimePrecision(3),
    auxiliary.SpecialConversion(),
    auxiliary.Signed(True),
    auxiliary.Storage(4),
    auxiliary.IntegerRange(-5, 5),
    Mark("m"),
    Mark("n", (1, 2)),
    Empty(),
    "text",
    "it's \"q\" \\ \n",
    "",
    "int",
    b"'\"\n",
    5,
    (1, "a"),
    None,
    2.5,
    True,
]
UNHASHABLE: list[Any] = [[1], {"a": 1}]
LITERALS: list[Any] = ["a", "it's", "é\n\\", "", 0, 1, -5, True, False, None, b"x\x00", *CLASSES["Color"], *CLASSES["Count"], *CLASSES["Word"]]


CHARS = ["'", '"', "\\", "a", "n", "\n", "\t", "\r", "\0", " ", "{", "}", "[", "]", ",", "%", "#", "é", "\x85", "\u2028", "\u200b", "\ud800", "😀", ":"]


class TypeGen:
    def __init__(self, g: Any, *, refs: bool = True, strings: bool = True, enums: bool = True, extra: bool = True, quoted: bool = False) -> None:
        self.g = g
        self.refs = refs
        self.strings = strings
        self.enums = enums
        self.extra = extra
        self.quoted = quoted

    def make(self, depth: int, where: str = "") -> Any:
        g = self.g
        kinds = ["cls", "cls", "cls", "aux", "lit", "none", "any", "special"]
        if self.refs:
            kinds.append("ref")
        if depth > 0:
            kinds += ["gen", "gen", "gen", "tuple", "opt", "opt", "union", "union", "ann", "ann", "callable"]
        kind = g.pick(kinds)
        if kind == "cls":
            return ("cls", g.pick(list(ALL_CLASSES)))
        if kind == "aux":
            return ("aux", g.pick(list(AUX)))
        if kind == "lit":
            values = []
            for i in range(g.int(1, 3)):
                if g.chance(1, 3):
                    values.append("".join(g.pick(CHARS) for _ in range(g.int(1, 6))))
                elif g.chance(1, 8):
                    values.append(g.pick([g.int(-(2**70), 2**70), bytes(g.int(0, 255) for _ in range(g.int(0, 4)))]))
                else:
                    values.append(g.pick(LITERALS if self.enums else LITERALS[:11]))
            return ("lit", values)
        if kind in ("none", "any"):
            return (kind,)
        if kind == "special":
            return g.pick([("var", "T"), ("var", "K"), ("self",), ("empty",), ("gen", "Run", [("pspec",)])])
        if kind == "ref":
            styles = ["ref"]
            if where == "gen" and self.strings:
                styles.append("str")
            if where != "union" and self.quoted and g.chance(1, 3):
                return ("quoted", *g.pick(QUOTED), g.pick(styles))
            return ("ref", g.pick(list(CLASSES)), g.pick(styles))
        if kind == "gen":
            origin = g.pick(list(GENERICS))
            return ("gen", origin, [self.make(depth - 1, "gen" if origin in ("list", "dict", "set") else "") for _ in range(GENERICS[origin][1])])
        if kind == "tuple":
            if g.chance(1, 4):
                return ("gen", "tuple", [self.make(depth - 1), ("dots",)])
            return ("gen", "tuple", [self.make(depth - 1) for _ in range(g.int(1, 3))])
        if kind == "opt":
            return ("opt", self.make(depth - 1, "union"), g.pick(["O", "U", "P"]))
        if kind == "union":
            return ("union", [self.make(depth - 1, "union") for _ in range(g.int(2, 4))], g.pick(["U", "P"]))
        if kind == "ann":
            pool = list(ANNOTATIONS) + (UNHASHABLE if self.extra else [])
            if g.chance(1, 5):
                # annotations of an auxiliary type, in part or in another order, possibly on another class
                t = AUX[g.pick(list(AUX))]
                marks = g.sample(list(t.__metadata__), 1, len(t.__metadata__))
                if g.chance(1, 2):
                    marks.insert(g.int(0, len(marks)), g.pick(pool))
                return ("ann", ("cls", t.__origin__.__name__ if g.chance(4, 5) else g.pick(list(ALL_CLASSES))), marks)
            return ("ann", self.make(depth - 1), [g.pick(pool) for _ in range(g.int(1, 3))])
        args: Any = "..." if g.chance(1, 4) else [self.make(depth - 1) for _ in range(g.int(0, 3))]
        return ("callable", args, self.make(depth - 1))


def build(s: Any) -> Any:
    "The type object."

    kind = s[0]
    if kind == "cls":
        return ALL_CLASSES[s[1]]
    if kind == "aux":
        return AUX[s[1]]
    if kind == "none":
        return type(None)
    if kind == "any":
        return Any
    if kind == "self":
        return typing.Self  # type: ignore
    if kind == "var":
        return {"T": T, "K": K}[s[1]]
    if kind == "pspec":
        return P
    if kind == "dots":
        return ...
    if kind == "empty":
        return tuple[()]
    if kind == "ref":
        return s[1] if s[2] == "str" else typing.ForwardRef(s[1])
    if kind == "quoted":
        return s[1] if s[3] == "str" else typing.ForwardRef(s[1])
    if kind == "lit":
        return Literal[tuple(s[1])]
    if kind == "gen":
        if s[1] == "tuple":
            return tuple[tuple(map(build, s[2]))]  # type: ignore
        if s[1] == "Run":
            return Run[P]
        origin = GENERICS[s[1]][0]
        args = tuple(map(build, s[2]))
        return origin[args if len(args) > 1 else args[0]]
    if kind == "callable":
        return Callable[... if s[1] == "..." else list(map(build, s[1])), build(s[2])]  # type: ignore
    if kind == "opt":
        inner = build(s[1])
        if s[2] == "P":
            try:
                return inner | None
            except TypeError:
                return Optional[inner]
        return Optional[inner] if s[2] == "O" else Union[inner, None]
    if kind == "union":
        members = list(map(build, s[1]))
        if s[2] == "P":
            result = members[0]
            try:
                for m in members[1:]:
                    result = result | m
                return result
            except TypeError:
                pass
        return Union[tuple(members)]  # type: ignore
    assert kind == "ann", s
    return Annotated[(build(s[1]), *s[2])]  # type: ignore


def value_key(v: Any) -> Any:
    return (type(v).__name__, repr(v))


def describe(s: Any) -> Any:
    "The structure of the type according to the rules of the language; equal exactly for equal types."

    kind = s[0]
    if kind == "cls":
        return ("cls", id(ALL_CLASSES[s[1]]))
    if kind == "ref":
        return ("cls", id(CLASSES[s[1]]))
    if kind == "quoted":
        return describe(s[2])
    if kind == "aux":
        t = AUX[s[1]]
        return ("ann", ("cls", id(t.__origin__)), tuple(map(value_key, t.__metadata__)))
    if kind in ("none", "any", "self", "dots", "pspec"):
        return (kind,)
    if kind == "var":
        return ("var", s[1])
    if kind == "empty":
        return ("gen", id(tuple), ())
    if kind == "lit":
        values = []
        for v in s[1]:
            if value_key(v) not in values:
                values.append(value_key(v))
        return ("lit", frozenset(values))
    if kind == "gen":
        origin = tuple if s[1] == "tuple" else Run if s[1] == "Run" else GENERICS[s[1]][0]
        return ("gen", id(origin), tuple(map(describe, s[2])))
    if kind == "callable":
        return ("callable", "..." if s[1] == "..." else tuple(map(describe, s[1])), describe(s[2]))
    if kind in ("opt", "union"):
        members: list[Any] = []
        for d in [describe(s[1]), ("none",)] if kind == "opt" else map(describe, s[1]):
            for m in d[1] if d[0] == "union" else (d,):
                if m not in members:
                    members.append(m)
        return ("union", frozenset(members)) if len(members) > 1 else members[0]
    return annotated(describe(s[1]), tuple(map(value_key, s[2])))


def annotated(inner: Any, metadata: tuple[Any, ...]) -> Any:
    return ("ann", inner[1], inner[2] + metadata) if inner[0] == "ann" else ("ann", inner, metadata)


def analyse(t: Any) -> Any:
    "The structure of a type object in which references are resolved."

    if t is None or t is type(None):
        return ("none",)
    if t is Any:
        return ("any",)
    if t is ...:
        return ("dots",)
    if t is typing.Self:  # type: ignore
        return ("self",)
    if isinstance(t, TypeVar):
        return ("var", t.__name__)
    if t is P:
        return ("pspec",)
    if isinstance(t, typing.ForwardRef):
        t = t.__forward_arg__
    if isinstance(t, str):
        for text, spec in QUOTED:
            if text == t:
                return describe(spec)
        return ("cls", id(CLASSES[t]))
    metadata = getattr(t, "__metadata__", None)
    if metadata is not None:
        return annotated(analyse(t.__origin__), tuple(map(value_key, metadata)))
    origin = typing.get_origin(t)
    args = typing.get_args(t)
    if origin is None:
        assert isinstance(t, type), t
        return ("cls", id(t))
    if origin is Literal:
        return ("lit", frozenset(map(value_key, args)))
    if origin is Union or origin is types.UnionType:
        members = frozenset(map(analyse, args))  # a class and a reference to the class are two members
        return ("union", members) if len(members) > 1 else next(iter(members))
    if origin is collections.abc.Callable:
        first, result = args
        return ("callable", "..." if first is ... else tuple(map(analyse, first)), analyse(result))
    return ("gen", id(origin), tuple(map(analyse, args)))


def forget() -> None:
    "`typing` takes unions with the same members for one type whatever the order."

    for clear in typing._cleanups:  # type: ignore[attr-defined]
        clear()


def members(s: Any) -> list[Any]:
    "Structures of the members of an optional or a union in the order in which they are listed, without repetition."

    result: list[Any] = []
    for part in [s[1], ("none",)] if s[0] == "opt" else s[1]:
        for d in members(part) if part[0] in ("opt", "union") else [describe(part)]:
            if d not in result:
                result.append(d)
    return result


def size(s: Any) -> int:
    if isinstance(s, tuple):
        return 1 + sum(map(size, s[1:]))
    if isinstance(s, list):
        return sum(map(size, s))
    return 0


def kinds(s: Any, result: Optional[set[str]] = None) -> set[str]:
    result = result if result is not None else set()
    if isinstance(s, tuple) and s and isinstance(s[0], str) and not isinstance(s[0], enum.Enum):
        result.add(s[0])
        if s[0] not in ("lit",):
            for x in s[1:2] if s[0] == "ann" else s[1:]:
                kinds(x, result)
    elif isinstance(s, list):
        for x in s:
            kinds(x, result)
    return result
