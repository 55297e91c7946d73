"C29: types that have no JSON form are refused when the converter is made."

from typing import Any

from hypothesis import strategies as st

from strong_typing.deserializer import DeserializerOptions, create_deserializer
from strong_typing.exception import JsonTypeError
from strong_typing.serialization import json_to_generic, json_to_object, object_to_json
from strong_typing.serializer import create_serializer

from ..core import Part, Stats, call, must, require
from ..gen import Gen, Profile
from ..world import Gray, Reject, World, concrete, same

ID = "C29"
RULE = (
    "A case is a generated program that has valid classes next to classes with a member whose type is one of a table of "
    "unsupported forms, wrapped in up to three supported containers, optionals, unions and annotations and reached through "
    "up to three further (possibly mutually recursive) classes, and a history of attempts to make a converter for one of "
    "them, interleaved with conversions of valid values. Every attempt must raise a type error (name error for unknown "
    "names) without looking at the data, and every valid conversion must work. Non-trivial: the unsupported form is not "
    "at top level, or there is more than one attempt."
)

# names available to the forms below
PRELUDE = [
    {"k": "enum", "mod": 0, "name": "ZNumber", "base": "Enum", "members": [("A", 1), ("B", 2)]},
    {"k": "enum", "mod": 0, "name": "ZMixed", "base": "Enum", "members": [("A", "a"), ("B", 2)]},
    {"k": "enum", "mod": 0, "name": "ZMixedF", "base": "Enum", "members": [("A", 2.5), ("B", "b")]},
    {"k": "enum", "mod": 0, "name": "ZMixedN", "base": "Enum", "members": [("A", "a"), ("B", None)]},
    {"k": "enum", "mod": 0, "name": "ZMixedB", "base": "Enum", "members": [("A", "a"), ("B", True), ("C", "c")]},
    {"k": "enum", "mod": 0, "name": "ZMixedS", "base": "Enum", "members": [("A", "a"), ("B", b"b")]},
    {"k": "enum", "mod": 0, "name": "ZOrdinal", "base": "IntEnum", "members": [("A", 1), ("B", 2)]},
    {"k": "dc", "mod": 0, "name": "ZTagA", "fields": [{"n": "tag", "t": ("raw", "typing.Literal['x']")}, {"n": "v", "t": ("leaf", "int")}]},
    {"k": "dc", "mod": 0, "name": "ZTagB", "fields": [{"n": "tag", "t": ("raw", "typing.Literal['x']")}]},
    {"k": "dc", "mod": 0, "name": "ZTagC", "fields": [{"n": "tag", "t": ("raw", "typing.Literal['z', 'y', 'x']")}]},
]

# (source text, unsupported by serializer, unsupported by de-serializer, may be a member of a union)
BOTH = [
    "typing.Callable[[int], str]",
    "typing.Callable[..., None]",
    "typing.Callable",
    "frozenset[int]",
    "type[int]",
    "typing.Type[str]",
    "typing.Iterator[int]",
    "typing.Iterable[str]",
    "typing.Sequence[int]",
    "typing.Mapping[str, int]",
    "typing.Deque[int]",
    "typing.DefaultDict[str, int]",
    "typing.Generator[int, None, None]",
    "typing.Awaitable[int]",
    "typing.TypeVar('X')",
    "type(lambda: 0)",
    "type(typing)",
    "type([].append.__self__.__class__)",
    "type(ZTagA.__repr__.__get__(0))",
    "dict[int, str]",
    "dict[float, str]",
    "dict[bool, str]",
    "dict[bytes, str]",
    "dict[None, str]",
    "dict[ZTagA, str]",
    "dict[tuple[int], str]",
    "dict[typing.Optional[str], int]",
    "dict[typing.Union[str, int], int]",
    "dict[typing.Any, int]",
    "dict[typing.Literal['a'], int]",
    "dict[ZNumber, int]",
    "dict[ZMixed, int]",
    "dict[ZMixedF, str]",
    "dict[ZMixedN, str]",
    "dict[ZMixedB, str]",
    "dict[ZMixedS, str]",
    "dict[ZOrdinal, int]",
    "typing.Dict[int, str]",
    "typing.Dict[ZNumber, str]",
    "typing.Literal['a', 1]",
    "typing.Literal[1, True]",
    "typing.Literal['a', None]",
    "typing.Literal[ZNumber.A, 1]",
    "typing.Literal[ZNumber.A, ZMixed.A]",
]
# not accepted by the typing module as a member of a union
NON_TYPES = ["5", "ZNumber.A", "'ZUnknown'", "'list[ZUnknown]'"]
READ_ONLY = ["list", "dict", "set", "tuple"]
AMBIGUOUS = [
    "typing.Union[ZTagA, ZTagB]",
    "typing.Union[ZTagB, ZTagA]",
    "typing.Union[ZTagA, ZTagC]",
    "typing.Union[ZTagC, ZTagB]",
    "ZTagB | ZTagC",
]
FORMS = (
    [(text, True, True, True) for text in BOTH]
    + [(text, True, True, False) for text in NON_TYPES]
    + [(text, False, True, True) for text in READ_ONLY]
    + [(text, False, True, False) for text in AMBIGUOUS]
)

KINDS: tuple[tuple[Any, ...], ...] = (
    ("'a'", "'b'", "''", "'True'", "'c'"),
    ("1", "0", "-3", "7"),
    ("True", "False"),
    ("None",),
    ("b'x'", "b''"),
    ("ZNumber.A", "ZNumber.B"),
    ("ZMixed.A", "ZMixed.B"),
)


def generated_form(g: Gen) -> tuple[str, bool, bool, bool]:
    "A literal of values of several kinds, or a mapping keyed by an enumeration of several kinds, mostly of the same kind."

    main, other = g.sample(KINDS, 2, 2)
    values = g.sample(main, 1, len(main))
    values.insert(g.int(0, len(values)), g.pick(other))
    if g.chance(1, 3):
        values.insert(g.int(0, len(values)), g.pick(g.pick(KINDS)))
    values = list(dict.fromkeys(values))
    if len({v for k in KINDS for v in values if v in k}) > 1 and g.chance(1, 2):
        plain = [v for v in values if not v.startswith("Z")]
        if len({i for i, k in enumerate(KINDS) for v in plain if v in k}) > 1:
            members = ", ".join(f"('M{i}', {v})" for i, v in enumerate(plain))
            if "1" in plain and "True" in plain or "0" in plain and "False" in plain:
                members = members.replace("True", "2.5").replace("False", "2.5")  # not just an alias of another member
            return (f"dict[enum.Enum('ZAny', [{members}], module='enum'), int]", True, True, True)
    return (f"typing.Literal[{', '.join(values)}]", True, True, True)


PROFILE = Profile(mods=2, max_classes=3, min_classes=1, depth=2, json_leaf=False, unions=False)
GOOD: tuple[Any, ...] = (("leaf", "int"), ("leaf", "str"), ("list", ("leaf", "bool")), ("dict", ("leaf", "float")), ("leaf", "uuid"))


class Poison:
    "Data that must not be looked at."

    def __getattribute__(self, name: str) -> Any:
        raise AssertionError(f"data is read ({name}) although the type is unsupported")

    def __format__(self, spec: str) -> str:
        raise AssertionError("data is read (format) although the type is unsupported")

    __hash__ = __bool__ = __iter__ = __eq__ = __repr__ = __str__ = lambda self, *args: self.touched  # type: ignore


def wrap(g: Gen, t: Any, union: bool) -> Any:
    for _ in range(g.int(0, 3)):
        kinds = ["list", "dict", "tuple", "set"] + (["opt", "union", "ann"] if union else [])
        kind = g.pick(kinds)
        if kind == "list":
            t = ("list", t)
        elif kind == "dict":
            t = ("dict", t)
        elif kind == "set":
            t = ("set", t)
        elif kind == "tuple":
            before = [g.pick(GOOD) for _ in range(g.int(0, 2))]
            t = ("tuple", before + [t] + [g.pick(GOOD) for _ in range(g.int(0, 2))])
        elif kind == "opt":
            t = ("opt", t, "O")
        elif kind == "union":
            t = ("union", [g.pick(GOOD[:2]), t] if g.chance(1, 2) else [t, g.pick(GOOD[:2])], "U")
        else:
            t = ("ann", t, [("mark", 1)])
        # the members of a union are not considered for writing, hence no containers around a union of members either
    return t


@st.composite
def cases(draw: Any) -> Any:
    g = Gen(draw, PROFILE)
    universe = g.make_universe()
    good = []
    for _ in range(g.int(1, 2)):
        t = g.top_type(0)
        good.append((t, g.make_value(t)))

    base = len(universe["classes"])
    classes = list(universe["classes"]) + [dict(spec) for spec in PRELUDE]
    form = generated_form(g) if g.chance(1, 4) else g.pick(FORMS)
    text, writing, reading, union = form
    only = "read" if not writing else g.pick(["both", "both", "read"])
    raw: Any = ("raw", text)
    t = wrap(g, raw, union and only == "read")
    holders = []
    depth = g.int(0, 3)
    for i in range(depth):
        index = len(classes)
        kind = g.pick(["dc", "nt", "plain", "exc"])
        fields = [{"n": f"g{j}", "t": g.make_type(mod=0)} for j in range(g.int(0, 2))]
        fields.insert(g.int(0, len(fields)), {"n": "z", "t": t})
        if g.chance(1, 3):  # refers back to itself, or forward to the class that refers to it
            fields.append({"n": "back", "t": ("list", ("cls", index + (1 if i + 1 < depth and g.chance(1, 2) else 0), True))})
            if g.chance(1, 2):
                fields.insert(0, fields.pop())
        spec = {"k": kind, "mod": 0, "name": f"ZHold{i}", "fields": fields}
        classes.append(spec)
        holders.append(index)
        if g.chance(1, 2) or i + 1 < depth:
            t = wrap(g, ("cls", index, False), only == "read")
        else:
            t = ("cls", index, False)
    universe = {**universe, "classes": classes}
    steps = []
    for _ in range(g.int(1, 6)):
        if g.chance(1, 4):
            steps.append(("good", g.int(0, len(good) - 1)))
        else:
            ways = ["read", "options", "object", "generic", "empty"] + (["write", "write", "write"] if only == "both" else [])
            steps.append(("bad", g.pick(ways), g.int(-1, len(holders) - 1)))
    steps.append(("good", g.int(0, len(good) - 1)))
    return (universe, base, text, t, holders, good, steps)


EMPTY: tuple[Any, ...] = (None, [], {}, "", 0, {"z": None}, [[]])


def run(case: Any, stats: Stats) -> None:
    universe, _, text, t, holders, good, steps = case
    with World(universe) as w:
        module = w.modules[0]
        targets: list[Any] = [w.type(t, 0)] + [w.classes[i] for i in holders]
        unknown = "ZUnknown" in text
        bad = 0
        for step in steps:
            if step[0] == "good":
                gt, gv = good[step[1]]
                typ = w.type(gt, 0)
                obj = w.build(gt, gv)
                try:
                    doc = concrete(w.encode(gt, gv))
                    if not same(w.decode(gt, doc), obj):
                        continue
                except (Gray, Reject):
                    continue
                written = must(must(create_serializer, typ, module).generate, obj)
                back = must(json_to_object, typ, written, context=module)
                require(same(back, obj), lambda: f"{obj!r} -> {written} -> {back!r} after failed attempts")  # noqa: B023
                stats.label("valid conversion after an attempt" if bad else "valid conversion before")
                continue
            _, way, target = step
            typ = targets[target + 1]
            bad += 1
            attempts: list[Any] = []
            if way == "write":
                attempts.append(call(create_serializer, typ, module))
                if isinstance(typ, type) and typ.__module__ == module.__name__:
                    attempts.append(call(create_serializer, typ))
            elif way == "read":
                attempts.append(call(create_deserializer, typ, module))
            elif way == "options":
                attempts.append(call(create_deserializer, typ, module, DeserializerOptions(skip_unassigned=True)))
            elif way == "object":
                attempts.append(call(json_to_object, typ, Poison(), context=module))  # type: ignore
            elif way == "generic":
                attempts.append(call(json_to_generic, typ, Poison(), context=module))  # type: ignore
            else:
                attempts.extend(call(json_to_object, typ, data, context=module) for data in EMPTY)
            for outcome in attempts:
                accepted = (TypeError, JsonTypeError, NameError) if unknown else (TypeError, JsonTypeError)
                require(
                    not outcome.ok and isinstance(outcome.error, accepted),
                    lambda: f"{typ} (with {text}) is not refused up front ({way}): {outcome.describe()}",  # noqa: B023
                )
            stats.label(way)
        stats.label(f"form:{text}", f"holders:{len(holders)}")
        stats.nontrivial(t[0] != "raw" or bad > 1)


def table() -> list[Any]:
    result: list[Any] = []
    for text, writing, reading, union in FORMS:
        wraps: list[Any] = [None, "list", "dict", "set", "tuple"]
        for kind in wraps:
            for way in ("read", "write"):
                if way == "write" and not writing:
                    continue
                result.append((text, kind, way))
        if union:
            result.extend((text, kind, "read") for kind in ("opt", "union", "ann", "field", "optfield"))
        result.append((text, "field", "read"))
        if writing:
            result.append((text, "field", "write"))
    return result


def run_table(case: Any, stats: Stats) -> None:
    text, kind, way = case
    raw: Any = ("raw", text)
    shapes: dict[Any, Any] = {
        None: raw,
        "list": ("list", raw),
        "dict": ("dict", raw),
        "set": ("set", raw),
        "tuple": ("tuple", [("leaf", "int"), raw]),
        "opt": ("opt", raw, "O"),
        "union": ("union", [("leaf", "str"), raw], "U"),
        "ann": ("ann", raw, [("mark", 1)]),
    }
    classes = [dict(spec) for spec in PRELUDE]
    if kind in ("field", "optfield"):
        holders = []
        for k in ("dc", "nt", "plain", "exc"):
            holders.append(len(classes))
            ft = raw if kind == "field" else ("opt", raw, "O")
            classes.append({"k": k, "mod": 0, "name": f"ZHold{k}", "fields": [{"n": "a", "t": ("leaf", "int")}, {"n": "z", "t": ft}]})
        for holder in holders:
            steps = [("bad", way, -1), ("bad", way, -1)]
            run(({"mods": [False], "classes": classes}, 0, text, ("cls", holder, False), [], [], steps), stats)
    else:
        run(({"mods": [False], "classes": classes}, 0, text, shapes[kind], [], [], [("bad", way, -1), ("bad", way, -1)]), stats)


# values that cannot be written, and containers and objects around them
VALUES = ["function", "lambda", "method", "module", "class", "builtin class"]


@st.composite
def value_cases(draw: Any) -> Any:
    which = draw(st.sampled_from(VALUES))
    wraps = draw(st.lists(st.sampled_from(["list", "dict", "tuple", "object", "pair"]), max_size=4))
    if which == "method" and wraps and wraps[0] == "object":
        wraps[0] = "list"  # the methods of an object are not part of its value
    return (which, wraps)


class Box:
    def __init__(self, item: Any) -> None:
        self.item = item

    def method(self) -> None:
        pass


def run_values(case: Any, stats: Stats) -> None:
    which, wraps = case
    value: Any = {
        "function": wrap,
        "lambda": lambda: 0,
        "method": Box(0).method,
        "module": dataclass_module(),
        "class": Box,
        "builtin class": int,
    }[which]
    for kind in wraps:
        if kind == "list":
            value = [1, value]
        elif kind == "dict":
            value = {"a": 1, "b": value}
        elif kind == "tuple":
            value = (value, "x")
        elif kind == "pair":
            value = [value, [value]]
        else:
            value = Box(value)
    for _ in range(2):
        outcome = call(object_to_json, value)
        require(
            not outcome.ok and isinstance(outcome.error, (TypeError, JsonTypeError)),
            lambda: f"{which} in {wraps} is not refused: {outcome.describe()}",
        )
    stats.label(which)
    stats.nontrivial(bool(wraps))


def dataclass_module() -> Any:
    import dataclasses

    return dataclasses


# forward references
REFERENCES = [
    ("'ZTagA'", False),
    ("list['ZTagA']", False),
    ("dict[str, 'ZTagA']", False),
    ("tuple[int, 'ZTagA']", False),
    ("set['ZTagA']", False),
    ("typing.ForwardRef('ZTagA')", False),
    ("typing.List['ZTagA']", False),
    ("typing.Dict[str, 'ZTagA']", False),
    ("typing.Optional['ZTagA']", True),
    ("typing.Union[int, 'ZTagA']", True),
    ("typing.Annotated['ZTagA', 'note']", False),
    ("list[list['ZTagA']]", False),
    ("list[typing.Annotated['ZTagA', 'note']]", False),
]


def run_references(case: Any, stats: Stats) -> None:
    (text, union), way, known = case
    if not known:
        text = text.replace("ZTagA", "ZUnknown")
    with World({"mods": [False], "classes": [dict(spec) for spec in PRELUDE]}) as w:
        module = w.modules[0]
        typ: Any = eval(text, vars(module))
        make = create_serializer if way == "write" else create_deserializer
        for _ in range(2):
            without = call(make, typ)
            require(
                not without.ok and isinstance(without.error, (TypeError, JsonTypeError)),
                lambda: f"{text} without context is not refused: {without.describe()}",
            )
            within = call(make, typ, module)
            if known:
                require(within.ok, lambda: f"{text} with context is refused: {within.describe()}")
            else:
                require(
                    not within.ok and isinstance(within.error, (NameError, TypeError, JsonTypeError)),
                    lambda: f"{text}, an unknown name, is not refused: {within.describe()}",
                )
    stats.label(text)
    stats.nontrivial()


def references() -> list[Any]:
    return [
        (ref, way, known) for ref in REFERENCES for way in ("read", "write") for known in (True, False) if not (ref[1] and way == "write")
    ]


PARTS = [
    Part("programs", cases, run, quick=3000, thorough=60000),
    Part("forms", None, run_table, quick=0, thorough=0, exhaustive=table),
    Part("references", None, run_references, quick=0, thorough=0, exhaustive=references),
    Part("values", value_cases, run_values, quick=400, thorough=6000),
]
