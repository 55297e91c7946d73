"C28: dynamically created types and modules."

import dataclasses
import enum
import importlib
import itertools
import sys
import types
from typing import Any

from hypothesis import strategies as st

from strong_typing.inspection import create_data_type, create_module, create_object, extend_enum, is_dataclass_type
from strong_typing.schema import JsonSchemaGenerator
from strong_typing.serialization import json_to_object, object_to_json

from ..core import Part, Stats, call, must, require
from ..gen import Gen, Profile
from ..world import World, json_same
from .c25 import closure, members

ID = "C28"
RULE = (
    "Data types: a generated data class is made again from its name and list of fields; both must construct, compare, print, "
    "convert from and to JSON and describe themselves alike. Enumerations: pairs of enumerations of several kinds with "
    "values of several types, with repeated values in some. Modules: histories of up to eight creations of modules with "
    "simple and dotted names that exist or not. Objects: classes of many kinds whose initialization must not take place. "
    "Non-trivial: at least two fields, members or steps."
)
PROFILE = Profile(extras=False, json_leaf=False, defaults=False, inherit=False, alias=True, min_classes=1, kinds=("dc", "nt", "enum"))


@st.composite
def data_cases(draw: Any) -> Any:
    g = Gen(draw, PROFILE)
    universe = g.make_universe()
    index = len(universe["classes"]) - 1
    spec = universe["classes"][index]
    if spec["k"] != "dc":
        spec = {"k": "dc", "mod": 0, "name": "Made", "fields": [{"n": n, "t": g.make_type(mod=0)} for n in g.sample(["a", "b", "in_", "été"], 0, 4)]}
        universe["classes"].append(spec)
        index += 1
    if g.chance(1, 6):
        # many members
        used = {f["n"] for f in spec["fields"]}
        wide = [f"m{i}" for i in range(g.pick([3, 6, 12, 24])) if f"m{i}" not in used]
        spec["fields"] = [*spec["fields"], *({"n": n, "t": g.pick([("leaf", "int"), ("leaf", "str"), ("opt", ("leaf", "str"), "O")])} for n in wide)]
    for option in ("frozen", "slots", "kw_only"):
        spec.pop(option, None)
    spec["slots"] = True
    values = [g.make_value(("cls", index, False)) for _ in range(2)]
    return (universe, index, values)


def run_data(case: Any, stats: Stats) -> None:
    universe, index, values = case
    with World(universe) as w:
        declared: Any = w.classes[index]
        spec = w.specs[index]
        fields = w.fields(index)
        types_ = [(f["n"], w.type(f["t"], 0, plain=True)) for f in fields]
        given = list(types_)
        made: Any = must(create_data_type, spec["name"], given)
        require(given == types_, lambda: f"the list of fields becomes {given}")
        require(isinstance(made, type) and made.__name__ == spec["name"], lambda: f"made {made!r}")
        require(must(is_dataclass_type, made) is True, lambda: f"{made!r} is no data class")
        got = [(f.name, f.type) for f in dataclasses.fields(made)]
        require(got == types_, lambda: f"fields of {made!r} are {got}, expected {types_}")
        require(
            all(f.default is dataclasses.MISSING and f.default_factory is dataclasses.MISSING for f in dataclasses.fields(made)),
            "a field has a default",
        )
        pairs = []
        for v in values:
            parts = {f["n"]: w.build(f["t"], v[f["n"]]) for f in fields}
            a, b = declared(**parts), must(lambda: made(**parts))  # noqa: B023
            c = must(lambda: made(*parts.values()))  # noqa: B023
            pairs.append((a, b, c))
            for x in (b, c):
                require(type(x) is made, lambda: f"made {x!r}")  # noqa: B023
                require(
                    all(getattr(x, n) is p for n, p in parts.items()), lambda: f"constructed {x!r} with {parts}"  # noqa: B023
                )
                require(not hasattr(x, "__dict__"), lambda: f"{x!r} has a dictionary")  # noqa: B023
            require(must(repr, b) == repr(a), lambda: f"prints as {b!r} instead of {a!r}")  # noqa: B023
            outcome = call(setattr, b, "another_one", 1)
            require(isinstance(outcome.error, AttributeError), lambda: f"adding an attribute {outcome.describe()}")  # noqa: B023
            expected = call(object_to_json, a)
            outcome = call(object_to_json, b)
            require(
                outcome.ok is expected.ok and json_same(expected.value, outcome.value) if expected.ok else not outcome.ok,
                lambda: f"object_to_json({b!r}) {outcome.describe()}; expected {expected.describe()}",  # noqa: B023
            )
            if expected.ok:
                back_a, back_b = call(json_to_object, declared, expected.value), call(json_to_object, made, expected.value)
                require(back_a.ok is back_b.ok, lambda: f"json_to_object {back_b.describe()}; expected {back_a.describe()}")  # noqa: B023
                if back_a.ok:
                    require(
                        type(back_b.value) is made
                        and all(
                            w.same(f["t"], getattr(back_a.value, f["n"]), getattr(back_b.value, f["n"])) for f in fields
                        ),
                        lambda: f"json_to_object {back_b.describe()}; expected {back_a.describe()}",  # noqa: B023
                    )
        for (a, b, c), (d, e, _) in itertools.product(pairs, repeat=2):
            require((b == e) is (a == d), lambda: f"{b!r} == {e!r} is {b == e}")  # noqa: B023
            require((c == b) is (a == a), lambda: f"{c!r} == {b!r} is {c == b}")  # noqa: B023
            require((b == a) is False, lambda: f"{b!r} is equal to an object of another class")  # noqa: B023
        if fields:
            for arguments in ([0] * (len(fields) + 1), [0] * (len(fields) - 1)):
                outcome = call(lambda: made(*arguments))  # noqa: B023
                require(isinstance(outcome.error, TypeError), lambda: f"made{tuple(arguments)} {outcome.describe()}")  # noqa: B023
        # a class that refers to itself is not the same as one that refers to the declared class
        recursive = declared in closure(w, members(w, declared))
        schemas = [call(lambda: JsonSchemaGenerator().classdef_to_schema(t)) for t in (declared, made)]  # noqa: B023
        require(schemas[0].ok is schemas[1].ok, lambda: f"schema {schemas[1].describe()}; expected {schemas[0].describe()}")
        if schemas[0].ok and not recursive:
            require(
                schemas[0].value == schemas[1].value,
                lambda: f"schema {schemas[1].describe()}; expected {schemas[0].describe()}",
            )
        stats.label(f"fields:{len(fields)}")
        stats.nontrivial(len(fields) >= 2)


VALUES: list[Any] = ["a", "b", "A", "", 1, 2, 0, -1, True, 1.0, 2.5, None, (1, 2), b"a", "1", "é"]
BASES = {"Enum": enum.Enum, "IntEnum": enum.IntEnum, "StrEnum": enum.StrEnum, "text": None}


@st.composite
def enum_cases(draw: Any) -> Any:
    g = Gen(draw)
    names = g.sample(["one", "two", "_x", "A", "B", "a", "été", "class_", "value_", "last", "THREE"], 1, 8)
    cut = g.int(0, len(names) - 1)
    bases = (g.pick(["Enum", "Enum", "IntEnum", "StrEnum"]), g.pick(["Enum", "Enum", "IntEnum", "StrEnum"]))
    distinct = g.chance(2, 3)
    used: list[Any] = []

    def members(names: list[str], base: str) -> list[tuple[str, int]]:
        result = []
        for n in names:
            fit = [i for i, v in enumerate(VALUES) if base == "Enum" or type(v) is (int if base == "IntEnum" else str)]
            if distinct:
                fit = [i for i in fit if all(VALUES[i] != u for u in used)]
            if not fit:
                continue
            i = g.pick(fit)
            used.append(VALUES[i])
            result.append((n, i))
        return result

    return (bases, members(names[:cut], bases[0]), members(names[cut:], bases[1]), g.int(0, 3), g.pick([1, 1, 2]), g.chance(1, 2))


_count = itertools.count()


def run_enum(case: Any, stats: Stats) -> None:
    bases, old, new, doc, times, apart = case
    module = types.ModuleType(f"vt_enums{next(_count)}")
    home = types.ModuleType(f"vt_source{next(_count)}") if apart else module
    sys.modules[module.__name__] = module
    sys.modules[home.__name__] = home
    try:
        source: Any = BASES[bases[0]]("Source", [(n, VALUES[i]) for n, i in old], module=home.__name__)  # type: ignore
        extend: Any = BASES[bases[1]]("Target", [(n, VALUES[i]) for n, i in new], module=module.__name__)  # type: ignore
        extend.__doc__ = "Text." if doc & 1 else None
        source.__doc__ = "Text of the source." if doc & 2 else None
        home.Source = source  # type: ignore[attr-defined]
        before = [(e.name, e.value) for e in source]
        mine = [(e.name, e.value) for e in extend]
        want = before + mine
        repeated = any(a == b for (_, a), (_, b) in itertools.combinations(want, 2))
        wrap = must(extend_enum, source)
        for _ in range(times):
            outcome = call(wrap, extend)
            if repeated:
                require(
                    isinstance(outcome.error, ValueError), lambda: f"extending {before} with {mine} {outcome.describe()}"  # noqa: B023
                )
                continue
            require(outcome.ok, lambda: f"extending {before} with {mine} {outcome.describe()}")  # noqa: B023
            made = outcome.value
            require(isinstance(made, enum.EnumMeta), lambda: f"extending {before} with {mine} {outcome.describe()}")  # noqa: B023
            got = [(e.name, e.value) for e in made]
            require(
                got == want and all(type(a) is type(b) for (_, a), (_, b) in zip(got, want)),
                lambda: f"extending {before} with {mine} has members {got}",  # noqa: B023
            )
            require(list(made.__members__) == [n for n, _ in want], lambda: f"members by name are {made.__members__}")  # noqa: B023
            require(getattr(module, "Target", None) is made, lambda: f"{made!r} is not a member of its module")  # noqa: B023
            require(
                (made.__name__, made.__module__, made.__doc__) == ("Target", module.__name__, extend.__doc__),
                lambda: f"made {(made.__name__, made.__module__, made.__doc__)}",  # noqa: B023
            )
            for name, value in want:
                require(made[name].value == value and made(value) is made[name], lambda: f"member {name} is {made[name]!r}")  # noqa: B023
        require([(e.name, e.value) for e in source] == before, "the source has changed")
        require(home.Source is source, "the source is not a member of its module any more")  # type: ignore[attr-defined]
        require(not apart or not hasattr(home, "Target"), "the extended enumeration is in the module of the source")
        stats.label("repeated values" if repeated else "distinct values", *bases)
        stats.nontrivial(len(old) >= 1 and len(new) >= 1)
    finally:
        del sys.modules[module.__name__]
        sys.modules.pop(home.__name__, None)


MODULE_NAMES = ["{p}", "{p}a", "{p}.a", "{p}.b", "{p}.a.c", "{p}b.é", "json", "sys", "strong_typing", "os.path", "strong_typing.inspection"]


@st.composite
def module_cases(draw: Any) -> Any:
    g = Gen(draw)
    return [(g.pick(["create", "create", "create", "remove", "declare"]), g.pick(MODULE_NAMES)) for _ in range(g.int(1, 8))]


def run_modules(case: Any, stats: Stats) -> None:
    import json
    import os.path

    prefix = f"vtmod{next(_count)}"
    fixed = {"json": json, "sys": sys, "os.path": os.path, "strong_typing": sys.modules["strong_typing"]}
    fixed["strong_typing.inspection"] = sys.modules["strong_typing.inspection"]
    model: dict[str, Any] = {}
    contents: dict[str, dict[str, Any]] = {}
    try:
        for step, template in case:
            name = template.replace("{p}", prefix)
            known = model.get(name) or fixed.get(name)
            if step == "create":
                outcome = call(create_module, name)
                if known is not None:
                    require(isinstance(outcome.error, KeyError), lambda: f"creating {name}, which exists, {outcome.describe()}")  # noqa: B023
                else:
                    require(
                        outcome.ok and isinstance(outcome.value, types.ModuleType) and outcome.value.__name__ == name,
                        lambda: f"creating {name} {outcome.describe()}",  # noqa: B023
                    )
                    require(
                        all(outcome.value is not m for m in (*model.values(), *fixed.values())),
                        lambda: f"creating {name} {outcome.describe()}, which is another module",  # noqa: B023
                    )
                    model[name] = outcome.value
                    contents[name] = {}
            elif name not in model:
                continue
            elif step == "remove":
                del sys.modules[name], model[name], contents[name]
            else:
                cls: Any = dataclasses.make_dataclass("C", [("x", int)], namespace={"__module__": name})
                cls.__module__ = name
                for key, value in (("C", cls), ("items", len(contents[name]))):
                    setattr(model[name], key, value)
                    contents[name][key] = value
            for n, m in {**model, **fixed}.items():
                require(must(importlib.import_module, n) is m, lambda: f"importing {n} gives {sys.modules.get(n)!r}")  # noqa: B023
                require(sys.modules[n] is m, lambda: f"{n} is {sys.modules[n]!r}")  # noqa: B023
            for n, items in contents.items():
                for key, value in items.items():
                    require(getattr(model[n], key, None) is value, lambda: f"{key} of {n} is lost")  # noqa: B023
        for n, items in contents.items():
            if "C" in items:
                obj = must(json_to_object, items["C"], {"x": 3})
                require(type(obj) is items["C"] and obj.x == 3, lambda: f"converted {obj!r}")  # noqa: B023
        stats.nontrivial(len(case) >= 2)
        stats.label(*(f"{s} {'existing' if t in fixed else 'other'}" for s, t in case))
    finally:
        for name in list(sys.modules):
            if name == prefix or name.startswith((f"{prefix}.", f"{prefix}a", f"{prefix}b")):
                del sys.modules[name]


CALLS: list[str] = []


def init(self: Any, *args: Any, **kwargs: Any) -> None:
    CALLS.append("__init__")
    raise AssertionError("initialized")


def required(self: Any, a: int, b: str, *, c: float) -> None:
    CALLS.append("__init__")


KINDS = ["plain", "slots", "data", "frozen", "frozen-slots", "generic", "exception", "derived-exception", "os-error", "key-error", "meta", "abstract"]


@st.composite
def object_cases(draw: Any) -> Any:
    g = Gen(draw)
    return (g.pick(KINDS), g.pick(["raises", "required", "none"]), g.int(0, 2), g.chance(1, 2), g.sample(["a", "b", "c"], 0, 3))


def run_object(case: Any, stats: Stats) -> None:
    import abc
    import typing

    kind, initializer, depth, post, fields = case
    body: dict[str, Any] = {}
    if initializer != "none":
        body["__init__"] = init if initializer == "raises" else required
    if post:
        body["__post_init__"] = init
    bases: tuple[type, ...] = ()
    meta: Any = type
    if kind == "slots":
        body["__slots__"] = tuple(fields)
    elif kind == "generic":
        bases = (typing.Generic[typing.TypeVar("X")],)  # type: ignore
    elif "error" in kind or "exception" in kind:
        bases = ({"exception": Exception, "derived-exception": ValueError, "os-error": OSError, "key-error": KeyError}[kind],)
    elif kind == "abstract":
        meta = abc.ABCMeta
    elif kind == "meta":
        meta = type("Meta", (type,), {"__call__": lambda cls, *a, **k: CALLS.append("__call__")})
    if kind in ("data", "frozen", "frozen-slots"):
        body["__annotations__"] = {n: int for n in fields}
    cls: Any = types.new_class("Made", bases, {"metaclass": meta}, lambda ns: ns.update(body))
    if kind in ("data", "frozen", "frozen-slots"):
        cls = dataclasses.dataclass(cls, init=initializer == "none", frozen=kind != "data", slots=kind == "frozen-slots")  # type: ignore
    for _ in range(depth):
        cls = types.new_class("Derived", (cls,), {"metaclass": meta}, lambda ns: ns.update(body if initializer != "none" and kind != "slots" else {}))
    CALLS.clear()
    obj = must(create_object, cls)
    require(type(obj) is cls, lambda: f"create_object({cls!r}) returned an object of type {type(obj)}")
    require(not CALLS, lambda: f"creating an object called {CALLS}")
    for n in fields:
        require(not hasattr(obj, n), lambda: f"the created object has a member {n}")  # noqa: B023
    require(not getattr(obj, "__dict__", {}), lambda: f"the created object has {obj.__dict__}")
    other = must(create_object, cls)
    require(other is not obj, "the same object is created twice")
    if kind != "frozen" and kind != "frozen-slots":
        for n in fields:
            must(setattr, obj, n, 5)
            require(not hasattr(other, n), "objects share their members")
    stats.label(kind, initializer)
    stats.nontrivial(initializer != "none")


PARTS = [
    Part("data-types", data_cases, run_data, quick=2500, thorough=40000),
    Part("enumerations", enum_cases, run_enum, quick=3000, thorough=40000),
    Part("modules", module_cases, run_modules, quick=1500, thorough=20000),
    Part("objects", object_cases, run_object, quick=1500, thorough=20000),
]
