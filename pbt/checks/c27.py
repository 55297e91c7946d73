"C27: type annotations are immutable values, auxiliary types are coherent."

import copy
import dataclasses
import functools
import itertools
import typing
from typing import Any

from hypothesis import strategies as st

from strong_typing import auxiliary
from strong_typing.auxiliary import CompactDataClass, get_auxiliary_format, typeannotation
from strong_typing.inspection import get_annotation, unwrap_annotated_type
from strong_typing.name import python_type_to_name, python_type_to_str
from strong_typing.schema import JsonSchemaGenerator

from ..core import Part, Stats, call, must, require
from ..gen import Gen

ID = "C27"
RULE = (
    "A case is the declaration of an annotation class (up to five fields with or without defaults, all forms of the "
    "decorator, eq and order options, a base that is an annotation class itself, methods, class variables) with up to four "
    "lists of field values. Objects are constructed by position, by keyword and with defaults, modified, compared pairwise, "
    "hashed, copied, printed, and the printed text is evaluated. A table covers each pair of auxiliary type and property. "
    "Non-trivial: the class has at least two fields."
)
NAMES = ["a", "b", "value", "is_signed", "decimal_digits", "x_", "été"]
TYPES = ["int", "str", "bool", "float", "bytes", "tuple", "opt", "note"]
VALUES: dict[str, list[Any]] = {
    "int": [0, 1, -1, 2, 10**20, -7],
    "str": ["", "a", "b", "it's", '"', "\\", "\n", "é", "a, b", "None", "{x}", "%s"],
    "bool": [True, False],
    "float": [0.0, 1.5, -0.1, 1e300, 1e-9],
    "bytes": [b"", b"\x00'", b"a"],
    "tuple": [(), (1,), (1, "a"), ((), (None,))],
    "opt": [None, 0, 5],
    "note": [0, 1, 2],
}
SOURCE = {
    "int": "int", "str": "str", "bool": "bool", "float": "float", "bytes": "bytes", "tuple": "tuple", "opt": "Optional[int]", "note": "Note",
}  # fmt: skip


@typeannotation
class Note:
    n: int
    text: str = "x"


NOTES = [Note(1), Note(1, "y"), Note(2)]


def value(kind: str, i: int) -> Any:
    v = VALUES[kind][i]
    return NOTES[v] if kind == "note" else v


@st.composite
def cases(draw: Any) -> Any:
    g = Gen(draw)

    def fields(names: list[str], must_default: bool) -> list[Any]:
        result = []
        for n in names:
            kind = g.pick(TYPES)
            default = g.int(0, len(VALUES[kind]) - 1) if must_default or g.chance(1, 3) else None
            must_default = must_default or default is not None
            result.append((n, kind, default))
        return result

    names = g.sample(NAMES, 0, 5)
    cut = g.int(0, len(names)) if g.chance(1, 3) else None
    base = fields(names[:cut], False) if cut is not None else None
    own = fields(names[cut or 0 :], any(f[2] is not None for f in base or ()))
    form = g.pick(["plain", "call", "eq", "order", "no-eq"])
    extra = g.sample(["method", "classvar", "doc", "property", "cached", "post"], 0, 3)
    if base and g.chance(1, 3):
        # declared again
        n, _, default = g.pick(base)
        kind = g.pick(TYPES)
        own = [*own, (n, kind, None if default is None else g.int(0, len(VALUES[kind]) - 1))]
    every = merged(base, own)
    rows = []
    for _ in range(g.int(1, 3)):
        row = [g.int(0, len(VALUES[k]) - 1) for _, k, _ in every]
        rows.append(row)
        if every and g.chance(1, 2):
            changed = list(row)
            i = g.int(0, len(row) - 1)
            changed[i] = g.int(0, len(VALUES[every[i][1]]) - 1)
            rows.append(changed)
    return (form, base, own, extra, rows)


DECORATORS = {
    "plain": "@typeannotation", "call": "@typeannotation()", "eq": "@typeannotation(eq=True)",
    "order": "@typeannotation(order=True)", "no-eq": "@typeannotation(eq=False)",
}  # fmt: skip


def body(fields: list[Any]) -> list[str]:
    return [
        f"    {n}: {SOURCE[k]}" + (f" = VALUE({k!r}, {d})" if d is not None else "") for n, k, d in fields
    ] or ["    pass"]  # fmt: skip


def merged(base: Any, own: Any) -> list[Any]:
    "A field that is declared again keeps its place."

    fields: dict[str, Any] = {}
    for f in [*(base or []), *own]:
        fields[f[0]] = f
    return list(fields.values())


def declare(case: Any) -> tuple[Any, Any, dict[str, Any]]:
    form, base, own, extra, _ = case
    lines: list[str] = []
    if base is not None:
        lines += [DECORATORS[form], "class Base:", *body(base)]
    lines += [DECORATORS[form], f"class Made({'Base' if base is not None else ''}):"]
    if "doc" in extra:
        lines += ["    'Text of the class.'"]
    lines += body(own)
    if "method" in extra:
        lines += ["    def method(self):", "        return 'called'"]
    if "property" in extra:
        lines += ["    @property", "    def derived(self):", "        return dataclasses.astuple(self)"]
    if "cached" in extra:
        lines += ["    @functools.cached_property", "    def memo(self):", "        return 'memo'"]
    if "post" in extra:
        lines += ["    def __post_init__(self):", "        object.__setattr__(self, 'stored', 'extra')"]
    if "classvar" in extra:
        lines += ["    shared: ClassVar[int] = 5"]
    # another class that looks the same
    lines += [DECORATORS[form], "class Other:", *body(merged(base, own))]
    names: dict[str, Any] = {
        "typeannotation": typeannotation, "Optional": typing.Optional, "ClassVar": typing.ClassVar, "VALUE": value, "Note": Note,
        "dataclasses": dataclasses, "functools": functools, "__name__": __name__,
    }  # fmt: skip
    exec("\n".join(lines), names)
    return names["Made"], names["Other"], names


def run(case: Any, stats: Stats) -> None:
    form, base, own, extra, rows = case
    made = call(declare, case)
    require(made.ok, lambda: f"declaring an annotation class {made.describe()}")
    cls, other, names = made.value
    every = merged(base, own)
    keys = [n for n, _, _ in every]
    require(isinstance(cls, type) and cls.__name__ == "Made", lambda: f"the decorator returned {cls!r}")
    require([f.name for f in dataclasses.fields(cls)] == keys, lambda: f"fields are {dataclasses.fields(cls)}")
    if "doc" in extra:
        require(cls.__doc__ == "Text of the class.", lambda: f"doc-string is {cls.__doc__!r}")
    objects: list[tuple[Any, tuple[Any, ...]]] = []
    for row in rows:
        values = tuple(value(k, i) for (_, k, _), i in zip(every, row))
        obj = must(cls, *values)
        objects.append((obj, values))
        objects.append((must(cls, **dict(zip(keys, values))), values))
        # trailing fields that equal their defaults may be omitted
        n = len(every)
        while n > 0 and every[n - 1][2] is not None and every[n - 1][2] == row[n - 1]:
            n -= 1
        objects.append((must(cls, *values[:n]), values))
    for obj, values in objects:
        require(type(obj) is cls, lambda: f"made {obj!r}")  # noqa: B023
        got = tuple(getattr(obj, k) for k in keys)
        require(got == values, lambda: f"{cls.__name__}{values!r} has values {got!r}")  # noqa: B023
        if "cached" in extra:
            require(obj.memo == "memo" and obj.memo == "memo", "a cached property is lost")
        if "post" in extra:
            require(obj.stored == "extra", "__post_init__ is not called")
        expected = f"Made({', '.join(map(repr, values))})"
        text = must(repr, obj)
        require(text == expected, lambda: f"an object with values {values!r} prints as {text!r}")  # noqa: B023
        back = must(lambda: eval(text, names))  # noqa: B023
        require(
            type(back) is cls and tuple(getattr(back, k) for k in keys) == values,
            lambda: f"{text!r} evaluates to {back!r}",  # noqa: B023
        )
        for name in [*keys, "another", "__class__x"]:
            outcome = call(setattr, obj, name, 1)
            require(isinstance(outcome.error, AttributeError), lambda: f"setting {name} of {obj!r} {outcome.describe()}")  # noqa: B023
            outcome = call(delattr, obj, name)
            require(isinstance(outcome.error, AttributeError), lambda: f"removing {name} of {obj!r} {outcome.describe()}")  # noqa: B023
        now = tuple(getattr(obj, k) for k in keys)
        require(now == values, lambda: f"{obj!r} had values {values!r}")  # noqa: B023
        if "method" in extra:
            require(obj.method() == "called", "a method is lost")
        if "property" in extra:
            require(len(obj.derived) == len(keys), "a property is lost")
        if "classvar" in extra:
            require(cls.shared == 5, "a class variable is lost")
        if form != "no-eq":
            for twin in (copy.copy(obj), copy.deepcopy(obj), back):
                require(must(lambda: obj == twin) is True, lambda: f"{obj!r} is not equal to its copy {twin!r}")  # noqa: B023
                require(hash(twin) == hash(obj), lambda: f"{obj!r} and its copy have different hash codes")  # noqa: B023
        require(must(lambda: obj == other(*values)) is False, lambda: f"{obj!r} is equal to an object of another class")  # noqa: B023
        require(must(lambda: obj == values) is False, lambda: f"{obj!r} is equal to a tuple")  # noqa: B023

    for (a, v), (b, u) in itertools.product(objects, repeat=2):
        same = v == u if form != "no-eq" else a is b
        got = must(lambda: a == b)  # noqa: B023
        require(got is same, lambda: f"{a!r} == {b!r} is {got!r}")  # noqa: B023
        require(must(lambda: a != b) is not same, lambda: f"{a!r} != {b!r} is {same!r}")  # noqa: B023
        if same:
            require(must(hash, a) == must(hash, b), lambda: f"{a!r} and {b!r} have different hash codes")  # noqa: B023
        require((a in {b: 1}) is same, lambda: f"{a!r} is found in a set of {b!r}: {not same}")  # noqa: B023
        for sign, compare in SIGNS.items():
            outcome = call(compare, a, b)
            if form != "order":
                require(isinstance(outcome.error, TypeError), lambda: f"{a!r} {sign} {b!r} {outcome.describe()}")  # noqa: B023
                continue
            tuples = call(compare, v, u)
            if tuples.ok:
                require(
                    outcome.ok and outcome.value is tuples.value, lambda: f"{a!r} {sign} {b!r} {outcome.describe()}"  # noqa: B023
                )
            else:
                require(isinstance(outcome.error, TypeError), lambda: f"{a!r} {sign} {b!r} {outcome.describe()}")  # noqa: B023

    # use as an annotation
    note = objects[0][0]
    typ = typing.Annotated[int, note, "x"]
    require(must(get_annotation, typ, cls) is note, lambda: f"annotation of {typ!r} is not found")
    stats.label(form, "derived" if base is not None else "simple", f"fields:{len(every)}")
    stats.nontrivial(len(every) >= 2)


SIGNS: dict[str, Any] = {
    "<": lambda a, b: a < b, "<=": lambda a, b: a <= b, ">": lambda a, b: a > b, ">=": lambda a, b: a >= b,
}  # fmt: skip


@st.composite
def compact_cases(draw: Any) -> Any:
    g = Gen(draw)
    names = g.sample(NAMES, 0, 4)
    fields = [(n, k := g.pick(TYPES), g.int(0, len(VALUES[k]) - 1)) for n in names]
    return (g.pick(["mixin", "predefined", "frozen"]), fields)


def run_compact(case: Any, stats: Stats) -> None:
    "Data classes with a compact text that are not declared by the decorator."

    form, fields = case
    lines = {
        "mixin": ["@dataclasses.dataclass(repr=False)", "class Made(CompactDataClass):"],
        "predefined": ["@typeannotation", "@dataclasses.dataclass", "class Made:"],
        "frozen": ["@typeannotation", "@dataclasses.dataclass(frozen=True)", "class Made:"],
    }[form] + body([(n, k, None) for n, k, _ in fields])
    names: dict[str, Any] = {
        "typeannotation": typeannotation, "Optional": typing.Optional, "Note": Note, "dataclasses": dataclasses, "__name__": __name__,
        "CompactDataClass": CompactDataClass,
    }  # fmt: skip
    must(lambda: exec("\n".join(lines), names))
    cls = names["Made"]
    values = tuple(value(k, i) for _, k, i in fields)
    obj = must(cls, *values)
    text = must(repr, obj)
    require(text == f"Made({', '.join(map(repr, values))})", lambda: f"an object with values {values!r} prints as {text!r}")
    back = must(lambda: eval(text, names))
    require(back == obj, lambda: f"{text!r} evaluates to {back!r}")
    # without fields of its own kind there is nothing to tell but the name
    plain = type("Plain", (CompactDataClass,), {n: v for (n, _, _), v in zip(fields, values)})
    require(must(repr, must(plain)) == "Plain", lambda: f"an object of a class that is no data class prints as {plain()!r}")
    stats.nontrivial(len(fields) >= 2)


WIDTHS = {f"{'' if s else 'u'}int{b}": (s, b) for s in (True, False) for b in (8, 16, 32, 64)} | {"float32": (None, 32), "float64": (None, 64)}
EXTRA = [None, auxiliary.Alias("x"), auxiliary.Precision(9, 3), "text"]


def table() -> list[tuple[str, int]]:
    return [(n, i) for n in [*WIDTHS, *PLAIN] for i in range(len(EXTRA))]


PLAIN: dict[str, Any] = {
    "int": int, "float": float, "str": str, "bool": bool, "Storage": typing.Annotated[int, auxiliary.Storage(4)],
    "Range": typing.Annotated[int, auxiliary.IntegerRange(-128, 127)],
    "Part": typing.Annotated[int, auxiliary.Signed(True), auxiliary.Storage(1)],
    "Fake": typing.Annotated[int, auxiliary.Signed(True), auxiliary.Storage(1), auxiliary.IntegerRange(-128, 128)],
    "Wide": typing.Annotated[float, auxiliary.Storage(16)],
}  # fmt: skip


def run_table(case: Any, stats: Stats) -> None:
    name, index = case
    extra = EXTRA[index]
    schema = must(lambda t: JsonSchemaGenerator().type_to_schema(t), PLAIN.get(name) or getattr(auxiliary, name))
    if name in PLAIN:
        typ = PLAIN[name]
        require(must(get_auxiliary_format, typ) is None, lambda: f"{typ!r} has format {get_auxiliary_format(typ)!r}")
        require("format" not in schema, lambda: f"{typ!r} has schema {schema}")
        for text in (must(python_type_to_str, typ), must(python_type_to_name, typ)):
            require(text not in WIDTHS, lambda: f"{typ!r} is named {text!r}")
        stats.nontrivial(True)
        return
    typ = getattr(auxiliary, name)
    signed, bits = WIDTHS[name]
    require(unwrap_annotated_type(typ) is (float if signed is None else int), lambda: f"{name} is {typ!r}")
    storage = must(get_annotation, typ, auxiliary.Storage)
    require(storage == auxiliary.Storage(bits // 8), lambda: f"{name} is stored as {storage!r}")
    if signed is not None:
        require(must(get_annotation, typ, auxiliary.Signed) == auxiliary.Signed(signed), lambda: f"{name} is {typ!r}")
        low, high = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if signed else (0, (1 << bits) - 1)
        limits = must(get_annotation, typ, auxiliary.IntegerRange)
        require((limits.minimum, limits.maximum) == (low, high), lambda: f"{name} ranges from {limits.minimum} to {limits.maximum}")
    require(must(get_auxiliary_format, typ) == name, lambda: f"{name} has format {get_auxiliary_format(typ)!r}")
    require(must(python_type_to_str, typ) == name, lambda: f"{name} is printed as {python_type_to_str(typ)!r}")
    require(must(python_type_to_name, typ) == name, lambda: f"{name} is named {python_type_to_name(typ)!r}")
    want = {"type": "number" if signed is None else "integer", "format": name}
    require(schema == want, lambda: f"{name} has schema {schema}")
    # the type is recognized in whatever way it is made
    twin: Any = typing.Annotated[(unwrap_annotated_type(typ), *typ.__metadata__)]  # type: ignore
    require(must(get_auxiliary_format, twin) == name, lambda: f"{twin!r} has format {get_auxiliary_format(twin)!r}")
    if extra is not None:
        more = typing.Annotated[typ, extra]  # type: ignore
        text = must(python_type_to_str, more)
        require(text == f"Annotated[{name}, {extra!r}]", lambda: f"{more!r} is printed as {text!r}")
    stats.nontrivial(True)


@st.composite
def digits(draw: Any) -> Any:
    g = Gen(draw)
    return (g.int(0, 30), g.int(0, 30))


def run_digits(case: Any, stats: Stats) -> None:
    total, decimals = case
    p = must(auxiliary.Precision, total, decimals)
    require(p.integer_digits == total - decimals, lambda: f"{p!r} has {p.integer_digits} integer digits")
    require(must(auxiliary.Precision, total) == auxiliary.Precision(total, 0), "number of decimal digits is not 0 by default")
    require(must(auxiliary.TimePrecision) == auxiliary.TimePrecision(0), "number of sub-second digits is not 0 by default")
    stats.nontrivial(decimals > 0)


PARTS = [
    Part("classes", cases, run, quick=3000, thorough=50000),
    Part("compact", compact_cases, run_compact, quick=1000, thorough=10000),
    Part("table", None, run_table, exhaustive=table),
    Part("digits", digits, run_digits, quick=200, thorough=1000),
]
