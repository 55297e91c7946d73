"C18: flattening a schema lifts exactly the nested object members."

import copy
from typing import Any

from hypothesis import strategies as st

from strong_typing.classdef import JsonSchemaTopLevelObject, SchemaFlatteningOptions, SchemaFlattener, flatten_schema
from strong_typing.schema import classdef_to_schema
from strong_typing.serialization import json_to_object, object_to_json

from ..core import Part, Stats, call, must, require, short
from ..gen import Gen, Profile
from ..jsonschemas import DRAFT, SchemaGen
from ..schemas import json_equal
from ..world import World

ID = "C18"
RULE = (
    "A case is an object schema (objects nested in objects to any depth, with and without members, titles, descriptions, "
    "required members, all kinds of other members, definitions and arbitrary member names) together with each of the option "
    "combinations; or the schema of a generated program. The result is compared with a model that works on plain JSON, member "
    "by member in order; recursive flattening is repeated; two-step flattening is compared with recursive flattening. "
    "Non-trivial: at least one member is lifted in one mode and two modes give different results."
)

NAMES = "a b c x y id A class in value_ a.b é _p $x type properties required items-1".split() + ["", "with space"]


class Nested(SchemaGen):
    "Draws schemas with many nested objects, which need not be in the form from which types are built."

    def tree(self, depth: int, prefix: str, distinct: bool) -> dict[str, Any]:
        g = self.g
        node: dict[str, Any] = {"type": "object"}
        self.describe(node)
        names = g.sample(NAMES, 0 if g.chance(1, 8) else 1, 4)
        if distinct:
            names = [f"{prefix}{i}" for i in range(len(names))]
        properties: dict[str, Any] = {}
        for n in names:
            kind = g.pick(["tree", "tree", "node", "empty", "open"]) if depth else g.pick(["node", "node", "node", "empty"])
            if kind == "tree":
                properties[n] = self.tree(depth - 1, f"{n}_", distinct)
            elif kind == "node":
                prop = self.node(1, guarded=True)
                if "$ref" not in prop and "oneOf" not in prop and "title" not in prop and g.chance(1, 3):
                    prop["description"] = "about it"
                if "$ref" not in prop and "oneOf" not in prop and g.chance(1, 4) and prop["type"] in ("string", "integer"):
                    prop["default"] = "" if prop["type"] == "string" else 0
                properties[n] = prop
            elif kind == "open":
                properties[n] = {"type": "object", "title": "Open"} if g.chance(1, 2) else {"type": "object"}
            else:
                properties[n] = {"type": "object", "additionalProperties": g.pick([True, False])}
        if properties or g.chance(1, 2):
            node["properties"] = properties
        if g.chance(7, 8):
            node["additionalProperties"] = False if g.chance(7, 8) else True
        required = [n for n in properties if g.chance(1, 2)]
        if required and g.chance(1, 4):
            required.reverse()
        if required:
            node["required"] = required
        return node


@st.composite
def cases(draw: Any) -> Any:
    g = Gen(draw)
    gen = Nested(g)
    gen.defs = ["Node", "Other"] if g.chance(1, 2) else []
    schema: dict[str, Any] = {"$schema": DRAFT}
    if gen.defs:
        schema["definitions"] = {n: g.pick([{"type": "string"}, gen.tree(1, "d", False)]) for n in gen.defs}
    schema.update(gen.tree(g.pick([1, 2, 2, 3, 3, 3]), "m", g.chance(2, 3)))
    return schema


class Clash(Exception):
    pass


def flat(node: dict[str, Any], qualified: bool, recursive: bool) -> dict[str, Any]:
    "What flattening gives; raises `Clash` if two members end up with the same name."

    properties: dict[str, Any] = {}
    required: list[str] = []
    for name, prop in (node.get("properties") or {}).items():
        if prop.get("type") == "object" and "oneOf" not in prop and prop.get("properties") is not None:
            inner = flat(prop, qualified, recursive) if recursive else prop
            items = {(f"{name}.{n}" if qualified else n): (n, p) for n, p in (inner.get("properties") or {}).items()}
            needed = [k for k, (n, _) in items.items() if n in (inner.get("required") or [])]
            members = {k: p for k, (_, p) in items.items()}
        else:
            members = {name: prop}
            needed = [name] if name in node.get("required", []) else []
        for k in members:
            if k in properties:
                raise Clash(k)
        properties.update(members)
        required += needed
    result = {k: v for k, v in node.items() if k not in ("properties", "required")}
    if properties:
        result["properties"] = properties
    if required:
        result["required"] = required
    return result


def compare(got: Any, want: dict[str, Any], source: dict[str, Any], what: str) -> None:
    require(isinstance(got, dict), lambda: f"{what} is {short(got)}")
    keys = {k for k in set(got) | set(want) if k not in ("additionalProperties",)}
    for k in keys:
        x, y = got.get(k), want.get(k)
        if k == "required":
            require(
                (x is None) == (y is None) and (x is None or sorted(x) == sorted(y or [])),
                lambda: f"{what}: required {x}, expected {y} ({short(source, 1500)})",  # noqa: B023
            )
        elif k == "properties":
            require(
                list(x or {}) == list(y or {}), lambda: f"{what}: members {list(x or {})}, expected {list(y or {})} ({short(source, 1500)})"  # noqa: B023
            )
            require(json_equal(x, y), lambda: f"{what}: members {short(x, 1500)}, expected {short(y, 1500)}")  # noqa: B023
        else:
            require(json_equal(x, y), lambda: f"{what}: {k} is {short(x)}, expected {short(y)}")  # noqa: B023
    extra = got.get("additionalProperties")
    require(
        extra is False or "additionalProperties" in source and extra == source["additionalProperties"],
        lambda: f"{what}: additionalProperties is {extra!r} ({short(source)})",
    )


def check(schema: dict[str, Any], stats: Stats) -> None:
    results = {}
    node = must(lambda: json_to_object(JsonSchemaTopLevelObject, schema))
    for qualified in (False, True):
        for recursive in (False, True):
            options = SchemaFlatteningOptions(qualified_names=qualified, recursive=recursive)
            what = f"schema flattened with {options}"
            before = copy.deepcopy(schema)
            got = must(lambda: flatten_schema(schema, options=options))  # noqa: B023
            require(schema == before, lambda: f"{what}: input {short(before)} was modified to {short(schema)}")  # noqa: B023
            other = must(lambda: object_to_json(SchemaFlattener(options).flatten(node)))  # noqa: B023
            require(other == got, lambda: f"{what}: {short(got)}, using the class: {short(other)}")  # noqa: B023
            try:
                want = flat(schema, qualified, recursive)
            except Clash:
                stats.label("clash")
                continue
            compare(got, want, schema, what)
            results[qualified, recursive] = want
            require(
                options == SchemaFlatteningOptions(qualified_names=qualified, recursive=recursive), lambda: "options were modified"
            )
            if recursive:
                again = must(lambda: flatten_schema(got, options=options))  # noqa: B023
                require(again == got, lambda: f"{what} twice: {short(again, 1500)}, once: {short(got, 1500)}")  # noqa: B023
    if (False, False) in results:
        plain = must(lambda: flatten_schema(schema))
        compare(plain, results[False, False], schema, "schema flattened without options")
    stats.label(f"modes:{len(results)}")
    lifted = any(list(r.get("properties", {})) != list(schema.get("properties", {})) for r in results.values())
    stats.label("lifted" if lifted else "as is")
    shapes = {str(r) for r in results.values()}
    stats.nontrivial(lifted and len(shapes) > 1)


def run(schema: Any, stats: Stats) -> None:
    check(schema, stats)


PROGRAM = Profile(
    leaves=("int", "str", "bool", "float", "datetime", "uuid"),
    kinds=("dc", "dc", "dc", "enum"),
    min_classes=2,
    sets=False,
    edicts=False,
    tagged=False,
)


@st.composite
def program_cases(draw: Any) -> Any:
    g = Gen(draw, PROGRAM)
    universe = g.make_universe()
    indices = [i for i, c in enumerate(g.classes()) if c["k"] == "dc"]
    return (universe, indices[-1] if indices else None)


def run_program(case: Any, stats: Stats) -> None:
    universe, index = case
    if index is None:
        stats.label("no data class")
        return
    with World(universe) as w:
        schema = must(classdef_to_schema, w.classes[index])
        outcome = call(flatten_schema, schema)
        if outcome.ok:
            check(schema, stats)
        else:
            stats.label("refused")


PARTS = [
    Part("schemas", cases, run, quick=4000, thorough=120000),
    Part("programs", program_cases, run_program, quick=800, thorough=20000),
]
