"C13: a generated JSON schema is valid and admits every serialized value."

import functools
import ipaddress
from typing import Any, Optional

import jsonschema
from hypothesis import strategies as st

from strong_typing.schema import SchemaOptions, Validator, classdef_to_schema, register_schema, validate_object
from strong_typing.serialization import object_to_json

from ..core import Part, Probe, Stats, Violation, must, require, short
from ..declared import declarations
from ..forked import broken, in_fork
from ..gen import Gen, Profile, shape_labels
from ..schemas import Mismatch, admits, references_of
from ..world import World, concrete

ID = "C13"
RULE = (
    "A case is a generated program with unions of mutually exclusive alternatives (recursive, forward-referenced, inherited "
    "and annotated classes included, some registered as shared definitions), a type and values of it. For each of three "
    "drafts the schema must be produced, be valid against the draft's meta-schema (validated separately), and have each "
    "reference resolve to exactly one definition. Each value, as serialized by the library and as encoded by the reference "
    "model, must be admitted by the library's validation, by jsonschema with format checks, and by a small validator "
    "written for this purpose. Non-trivial: the schema has definitions or nesting and at least one value was validated."
)

PROFILE = Profile(depth=3, exclusive_unions=True, tagged=False, unique_names=True, zones=False)
DRAFTS = {
    "Draft7": jsonschema.Draft7Validator,
    "Draft201909": jsonschema.Draft201909Validator,
    "Draft202012": jsonschema.Draft202012Validator,
    "Latest": jsonschema.Draft202012Validator,
}


@functools.lru_cache(maxsize=None)
def meta_validator(draft: str) -> Any:
    cls = DRAFTS[draft]
    return cls(cls.META_SCHEMA)


@st.composite
def cases(draw: Any) -> Any:
    g = Gen(draw, PROFILE)
    universe = g.make_universe()
    mod = g.int(0, len(universe["mods"]) - 1)
    t = g.top_type(mod)
    values = [g.make_value(t) for _ in range(g.int(1, 3))]
    registered = g.sample(range(len(universe["classes"])), 1, 3) if universe["classes"] and g.chance(1, 3) else []
    return (universe, mod, t, values, registered)


def judge(universe: Any, mod: int, t: Any, values: Any, registered: Any) -> list[str]:
    with World(universe) as w:
        typ = w.type(t, mod)
        for i in registered:
            register_schema(w.classes[i])
        schema: Any = None
        for name, cls in list(DRAFTS.items())[: 4 if len(universe["classes"]) > 2 else 3]:
            schema = must(classdef_to_schema, typ, None, Validator[name])
            error = next(meta_validator(name).iter_errors(schema), None)
            require(error is None, lambda: f"schema of {typ} is not valid in {name}: {error.message}")  # noqa: B023
            require(
                schema.get("$schema") == cls.META_SCHEMA["$id"], lambda: f"schema of {typ} for {name} says {schema.get('$schema')}"  # noqa: B023
            )
        definitions = schema.get("definitions", {})
        used = set(references_of(schema))
        for ref in used:
            require(
                ref.startswith("#/definitions/") and ref.removeprefix("#/definitions/") in definitions,
                lambda: f"reference {ref} in the schema of {typ} is not resolved by {list(definitions)}",  # noqa: B023
            )
        require(
            {r.removeprefix("#/definitions/") for r in used} == set(definitions),
            lambda: f"schema of {typ} has definitions {list(definitions)} but refers to {sorted(used)}",
        )
        plain = must(classdef_to_schema, typ, SchemaOptions(use_descriptions=False, use_examples=False))
        for value in values:
            obj = w.build(t, value)
            for doc in (must(object_to_json, obj), concrete(w.encode(t, value))):
                try:
                    validate_object(typ, doc)
                except Exception as ex:
                    raise Violation(f"{short(doc)} as {typ} is refused by validate_object: {short(str(ex), 200)}") from ex
                for s in (schema, plain):
                    error = next(jsonschema.Draft202012Validator(s, format_checker=jsonschema.Draft202012Validator.FORMAT_CHECKER).iter_errors(doc), None)
                    require(error is None, lambda: f"{short(doc)} as {typ} is refused by its schema: {error.message}")  # noqa: B023
                    try:
                        ok = admits(s, doc, s)
                    except Mismatch as ex:
                        raise Violation(f"schema of {typ}: {ex}") from None
                    require(ok, lambda: f"{short(doc)} as {typ} is refused by its schema {short(s, 1000)}")  # noqa: B023
                old = next(jsonschema.Draft7Validator(schema).iter_errors(doc), None)
                require(old is None, lambda: f"{short(doc)} as {typ} is refused by its schema in Draft 7: {old.message}")  # noqa: B023
        labels = []
        if definitions:
            labels.append("definitions")
        if "oneOf" in str(schema):
            labels.append("oneOf")
        if any(s in str(schema) for s in ("items", "properties", "Items", "oneOf")):
            labels.append("nested")
        return labels


def run(case: Any, stats: Stats) -> None:
    universe, mod, t, values, registered = case
    if registered:
        # the catalogue of types is global

        def child() -> Any:
            try:
                return ["ok", judge(universe, mod, t, values, registered)]
            except Violation as ex:
                return ["violation", str(ex)]

        answer = in_fork(child, limit=60)
        if isinstance(answer, dict):
            raise broken(answer)
        if answer[0] == "violation":
            raise Violation(answer[1])
        labels = answer[1]
        stats.label("registered")
    else:
        labels = judge(universe, mod, t, values, registered)
    stats.label(*labels, *shape_labels(t, universe))
    stats.nontrivial("nested" in labels or "definitions" in labels)


def probe_json_type() -> Optional[str]:
    from strong_typing.core import JsonType

    try:
        validate_object(JsonType, 1)
    except jsonschema.exceptions.ValidationError:
        return "the JSON value 1 is refused by the schema of JsonType"
    return None


def probe_same_name() -> Optional[str]:
    a = {"k": "dc", "mod": 0, "name": "A", "fields": [{"n": "x", "t": ("leaf", "int")}]}
    b = {"k": "dc", "mod": 1, "name": "A", "fields": [{"n": "y", "t": ("leaf", "str")}]}
    c = {"k": "dc", "mod": 0, "name": "C", "fields": [{"n": "c", "t": ("list", ("cls", 0, True))}]}
    d = {"k": "dc", "mod": 1, "name": "D", "fields": [{"n": "c", "t": ("list", ("cls", 2, False))}, {"n": "d", "t": ("list", ("cls", 1, True))}]}
    with World({"mods": [False, False], "classes": [a, b, c, d]}) as w:
        try:
            validate_object(w.classes[3], {"c": [{"c": [{"x": 1}]}], "d": [{"y": "s"}]})
        except Exception as ex:
            return f"two forward-referenced classes of the same name share one definition: {short(str(ex), 80)}"
    return None


def probe_zone() -> Optional[str]:
    value = object_to_json(ipaddress.IPv6Address("fe80::1%eth0"))
    try:
        validate_object(ipaddress.IPv6Address, value)
    except jsonschema.exceptions.ValidationError:
        return "the address fe80::1%eth0 is refused by the schema of IPv6Address"
    return None


probes = [
    Probe("json-type-one-of", probe_json_type), Probe("same-name-definition", probe_same_name), Probe("ipv6-zone", probe_zone)
]  # fmt: skip

PARTS = [
    Part("schemas", cases, run, quick=1400, thorough=60000),
    Part("declarations", lambda: declarations().map(lambda c: (*c, [])), run, quick=800, thorough=20000),
]
