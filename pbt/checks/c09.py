"C09: conversion neither modifies nor shares state with its inputs."

import copy
import datetime
import enum
import json
from typing import Any, Iterator

from hypothesis import strategies as st

from strong_typing.deserializer import DeserializerOptions
from strong_typing.schema import SchemaOptions, classdef_to_schema, json_schema_type, register_schema, validate_object
from strong_typing.serialization import json_dump_string, json_to_generic, object_to_json
from strong_typing.serializer import create_serializer

from .. import untyped
from ..core import Discard, Part, Stats, call, must, require
from ..forked import in_fork
from ..gen import JSON_DOCS, Gen, Profile, shape_labels, typed_values
from .c06 import edited
from ..world import Gray, Reject, World, concrete, json_same, member_names, same

ID = "C09"
RULE = (
    "A case is a program, a type and a value (or a user-supplied schema with examples). After each conversion the input is "
    "compared to an independently built twin; the identities of all mutable containers and instances reachable from input, "
    "output, and the output of a second conversion must be disjoint; then every mutable container in one output is changed "
    "in place, and the input, the other output, a later result, and (for schemas) the registered definition must be "
    "unaffected. Non-trivial: there is at least one mutable container or instance in the output."
)


def parts_of(obj: Any, seen: set[int] | None = None) -> Iterator[Any]:
    "Mutable objects reachable from a value."

    if seen is None:
        seen = set()
    if obj is None or isinstance(obj, (str, bytes, int, float, enum.Enum, datetime.date, datetime.time)) or id(obj) in seen:
        return
    seen.add(id(obj))
    if isinstance(obj, (list, set)):
        yield obj
        for x in obj:
            yield from parts_of(x, seen)
    elif isinstance(obj, dict):
        yield obj
        for k, x in obj.items():
            yield from parts_of(k, seen)
            yield from parts_of(x, seen)
    elif isinstance(obj, tuple):
        for x in obj:
            yield from parts_of(x, seen)
    elif type(obj).__module__.startswith("vt") or type(obj).__module__.endswith("untyped"):
        yield obj
        for n in [*member_names(type(obj)), *getattr(obj, "__dict__", {})]:
            if hasattr(obj, n):
                yield from parts_of(getattr(obj, n), seen)


def is_frozen(obj: Any) -> bool:
    params = getattr(type(obj), "__dataclass_params__", None)
    return params is not None and params.frozen


def spoil(root: Any) -> None:
    "Changes every mutable object reachable from a value in place."

    for obj in list(parts_of(root)):
        if isinstance(obj, list):
            obj.append("spoiled")
            obj.reverse()
        elif isinstance(obj, dict):
            obj["spoiled"] = "spoiled"
            for k in list(obj)[:1]:
                obj[k] = ["spoiled"]
        elif isinstance(obj, set):
            obj.add("spoiled")
        elif not is_frozen(obj):
            for n in member_names(type(obj))[:2]:
                try:
                    setattr(obj, n, "spoiled")
                except AttributeError:
                    pass


def shared(a: Any, b: Any) -> list[Any]:
    keep = list(parts_of(a))
    ids = {id(x) for x in keep if not is_frozen(x)}
    return [x for x in parts_of(b) if id(x) in ids]


def run_typed(case: Any, stats: Stats) -> None:
    universe, mod, t, values = case
    v = values[0]
    with World(universe) as w:
        typ = w.type(t, mod)
        module = w.modules[mod]
        expected = w.encode(t, v)
        doc = concrete(expected)
        try:
            reference = w.decode(t, doc)
        except (Gray, Reject):
            raise Discard() from None

        # --- writing ---
        obj, twin = w.build(t, v), w.build(t, v)
        serializer = must(create_serializer, typ, module)
        for label, fn in (("object_to_json", object_to_json), ("generate", serializer.generate)):
            one = must(fn, obj)
            two = must(fn, obj)
            require(same(obj, twin), lambda: f"{label} has changed its argument {twin!r} to {obj!r}")  # noqa: B023
            for a, b, what in ((obj, one, "the object"), (one, two, "another result")):
                common = shared(a, b)
                require(not common, lambda: f"{label}({obj!r}) shares {common!r} with {what}")  # noqa: B023
            spoil(one)
            require(same(obj, twin), lambda: f"changing the result of {label} has changed {twin!r} to {obj!r}")  # noqa: B023
            require(json_same(expected, two), lambda: f"changing a result of {label} has changed another to {two!r}")  # noqa: B023
            later = must(fn, obj)
            require(
                json_same(expected, later), lambda: f"after changing a result {label}({obj!r}) gives {later!r}"  # noqa: B023
            )
        text_before = must(json_dump_string, doc)

        # --- reading ---
        source = copy.deepcopy(doc)
        first = must(json_to_generic, typ, source, context=module)
        second = must(json_to_generic, typ, source, context=module)
        require(source == doc, lambda: f"json_to_generic has changed {doc!r} to {source!r}")
        for a, b, what in ((source, first, "the document"), (first, second, "another result")):
            common = shared(a, b)
            require(not common, lambda: f"{w.render(t, mod)} read from {doc!r} shares {common!r} with {what}")  # noqa: B023
        spoil(first)
        require(source == doc, lambda: f"changing the result has changed the document {doc!r} to {source!r}")
        require(same(second, reference), lambda: f"changing one result has changed another: {second!r}, was {reference!r}")
        spoil(source)
        require(same(second, reference), lambda: f"changing the document has changed the result: {second!r}, was {reference!r}")
        third = must(json_to_generic, typ, copy.deepcopy(doc), context=module)
        require(same(third, reference), lambda: f"{doc!r} is later read as {third!r}, before as {reference!r}")

        # --- text and validation ---
        require(text_before == json_dump_string(doc), "dumping is not repeatable")
        stats.nontrivial(any(True for _ in parts_of(second)))
    stats.label(*shape_labels(t, universe))


def run_defaults(case: Any, stats: Stats) -> None:
    "Documents with members left out."

    universe, mod, t, doc, edits, skip = case
    with World(universe) as w:
        typ = w.type(t, mod)
        try:
            reference = w.decode(t, doc, skip)
        except (Gray, Reject):
            raise Discard() from None
        read = lambda: must(json_to_generic, typ, doc, context=w.modules[mod], options=DeserializerOptions(skip))  # noqa: E731
        first, second = read(), read()
        common = [x for x in shared(first, second)]
        require(not common, lambda: f"{doc!r} read twice as {w.render(t, mod)} gives results that share {common!r}")
        spoil(first)
        require(same(second, reference), lambda: f"changing one result has changed another: {second!r}, was {reference!r}")
        require(same(read(), reference), lambda: f"{doc!r} is later read as {read()!r}, before as {reference!r}")
    stats.label("members left out")
    stats.nontrivial(any(m in ("remove", "null") for m, _ in edits))


def run_schema(case: Any, stats: Stats) -> None:
    universe, mod, t, values = case
    with World(universe) as w:
        typ = w.type(t, mod)
        outcome = call(classdef_to_schema, typ)
        if not outcome.ok:
            raise Discard()
        one = outcome.value
        text = json.dumps(one)
        two = must(classdef_to_schema, typ)
        common = shared(one, two)
        require(not common, lambda: f"two schemas for {w.render(t, mod)} share {common!r}")
        spoil(one)
        require(json.dumps(two) == text, lambda: f"changing a schema has changed another: {two!r}")
        require(
            json.dumps(must(classdef_to_schema, typ)) == text,
            lambda: f"after changing a schema, {w.render(t, mod)} has schema {classdef_to_schema(typ)!r}, was {text}",
        )
        doc = concrete(w.encode(t, values[0]))
        before = copy.deepcopy(doc)
        call(validate_object, typ, doc)
        require(doc == before, lambda: f"validate_object has changed {before!r} to {doc!r}")
    stats.label(*shape_labels(t, universe))
    stats.nontrivial(True)


def run_untyped(case: Any, stats: Stats) -> None:
    universe, v = case
    with World(universe) as w:
        obj, twin = untyped.build(w, v), untyped.build(w, v)
        expected = untyped.encode(w, v)
        one, two = must(object_to_json, obj), must(object_to_json, obj)
        for a, b, what in ((obj, one, "the object"), (one, two, "another result")):
            common = shared(a, b)
            require(not common, lambda: f"object_to_json({obj!r}) shares {common!r} with {what}")  # noqa: B023
        spoil(one)
        require(json_same(untyped.encode(w, v), must(object_to_json, twin)), "a later result is different")
        require(json_same(expected, two), lambda: f"changing a result has changed another to {two!r}")
        require(json_same(expected, must(object_to_json, obj)), lambda: f"changing a result has changed {obj!r}")
    stats.nontrivial(any(True for _ in parts_of(two)))


@st.composite
def registrations(draw: Any) -> Any:
    g = Gen(draw, Profile(max_classes=1))
    schema = g.pick(
        [
            None,
            {"type": "object", "properties": {"a": {"type": "array", "items": {"type": "integer"}}}, "required": ["a"]},
            {"type": "object", "properties": {"p": {"type": "object", "properties": {}}}, "additionalProperties": False},
            {"type": "string", "enum": ["a", "b"]},
        ]
    )
    examples = g.pick([None, []]) if g.chance(1, 3) else g.draw(st.lists(JSON_DOCS, min_size=1, max_size=2))
    wrap = g.pick(["", "list", "member", "optional"])
    decorator = g.chance(1, 2)
    return (schema, examples, wrap, decorator, g.chance(1, 2))


def run_registered(case: Any, stats: Stats) -> None:
    schema, examples, wrap, decorator, use_examples = case

    def body() -> str:
        universe = {
            "mods": [False],
            "classes": [
                {"k": "dc", "mod": 0, "name": "Reg", "fields": [{"n": "a", "t": ("list", ("leaf", "int"))}], "doc": "Title."},
                {"k": "dc", "mod": 0, "name": "Has", "fields": [{"n": "r", "t": ("cls", 0, False)}, {"n": "s", "t": ("opt", ("cls", 0, False), "O")}]},
            ],
        }
        with World(universe) as w:
            cls = w.classes[0]
            given, given_examples = copy.deepcopy(schema), copy.deepcopy(examples)
            if decorator:
                json_schema_type(cls, schema=given, examples=given_examples)
            else:
                register_schema(cls, given, examples=given_examples)
            t: Any = {"": ("cls", 0, False), "list": ("list", ("cls", 0, False)), "member": ("cls", 1, False),
                      "optional": ("opt", ("cls", 0, False), "O")}[wrap]
            typ = w.type(t, 0)
            options = SchemaOptions(use_examples=use_examples)
            one = classdef_to_schema(typ, options)
            text = json.dumps(one)
            two = classdef_to_schema(typ, options)
            if shared(one, two):
                return f"two schemas share {shared(one, two)!r}"
            if shared(one, given) or shared(one, given_examples):
                return f"the schema shares {[*shared(one, given), *shared(one, given_examples)]!r} with what was registered"
            spoil(one)
            if json.dumps(two) != text or json.dumps(classdef_to_schema(typ, options)) != text:
                return f"changing a schema of {typ} affects other schemas"
            if given != schema or given_examples != examples:
                return f"registered schema has become {given!r}, examples {given_examples!r}"
            return ""

    problem = in_fork(body)
    require(problem == "", problem)
    stats.nontrivial(schema is not None or bool(examples))


PARTS = [
    Part("typed", lambda: typed_values(Profile(json_leaf=True, recursive=True, min_classes=1, more_defaults=True)), run_typed, quick=4000, thorough=100000),
    Part("defaults", edited, run_defaults, quick=2500, thorough=50000),
    Part("untyped", lambda: untyped.untyped_values(Profile(max_classes=2)), run_untyped, quick=1500, thorough=30000),
    Part("schemas", lambda: typed_values(Profile(max_classes=3)), run_schema, quick=800, thorough=20000),
    Part("registered", registrations, run_registered, quick=500, thorough=8000),
]
