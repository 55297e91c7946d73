"C17: types built from a schema have the structure the schema describes."

import copy
import dataclasses
import datetime
import decimal
import enum
import ipaddress
import itertools
import keyword
import sys
import types
import typing
import uuid
from typing import Any, Optional

from hypothesis import strategies as st

from strong_typing import auxiliary
from strong_typing.classdef import schema_to_type
from strong_typing.core import JsonType
from strong_typing.schema import classdef_to_schema
from strong_typing.serialization import json_to_object, object_to_json

from ..core import Part, Probe, Stats, Violation, call, must, require, short
from ..gen import Gen, Profile
from ..jsonschemas import (
    ANNOTATIONS,
    FORMATS,
    KEYS,
    OUTSIDE,
    Different,
    Documents,
    Endless,
    SchemaGen,
    alike,
    approximate,
    integer_format,
    is_precision,
    same_tree,
    schema_positions,
    uses,
    valid_reference,
    with_part,
)
from ..world import World, concrete

ID = "C17"
RULE = (
    "A case is a JSON schema in the supported subset (objects with any mix of required and optional members, keywords as "
    "names, defaults, constants, formats, lengths, precisions, string enumerations, arrays, alternatives, cyclic definitions "
    "and descriptions) and documents that conform to it; or the schema that the library generates for a generated program; or "
    "a schema with a form outside of the subset at some place. Types built must match the schema node by node according to a "
    "model, have an equivalent schema themselves, and reproduce the documents; what is outside must be refused with an "
    "error; in either case the schema passed in and all types not created by the call stay the same. Non-trivial: the schema "
    "has a nested object, array, alternative or reference, or was refused."
)

BUILT_IN = [
    bool, int, float, str, datetime.datetime, datetime.date, datetime.time, datetime.timedelta, decimal.Decimal, uuid.UUID,
    ipaddress.IPv4Address, ipaddress.IPv6Address, list,
]  # fmt: skip
FORMAT_TYPES = {
    "date-time": datetime.datetime,
    "date": datetime.date,
    "time": datetime.time,
    "duration": datetime.timedelta,
    "uuid": uuid.UUID,
    "ipv4": ipaddress.IPv4Address,
    "ipv6": ipaddress.IPv6Address,
}
_serial = itertools.count()


class Sandbox:
    "A module with some content."

    def __enter__(self) -> types.ModuleType:
        # `typing` keeps special forms by equality, which for unions ignores the order of members
        for cleanup in typing._cleanups:  # type: ignore
            cleanup()
        self.module = types.ModuleType(f"vt_built_{next(_serial)}")
        sys.modules[self.module.__name__] = self.module
        self.module.__dict__["Present"] = type("Present", (), {"__module__": self.module.__name__})
        self.before = dict(self.module.__dict__)
        self.marks = [(t, t.__module__, t.__name__, t.__doc__) for t in BUILT_IN]
        return self.module

    def __exit__(self, *args: Any) -> None:
        sys.modules.pop(self.module.__name__, None)

    def check(self) -> None:
        for t, module, name, doc in self.marks:
            require(
                t.__module__ == module and t.__name__ == name and t.__doc__ == doc,
                lambda: f"type {name} now has module {t.__module__} and doc-string {t.__doc__!r}",  # noqa: B023
            )
        for k, v in self.before.items():
            require(self.module.__dict__.get(k) is v, lambda: f"module attribute {k} was changed")  # noqa: B023


class Matcher:
    "Compares types with the schema from which they were built."

    def __init__(self, module: types.ModuleType, definitions: dict[str, Any]) -> None:
        self.module = module
        self.definitions = definitions
        self.seen: set[Any] = set()

    def fail(self, where: str, typ: Any, node: Any) -> None:
        raise Violation(f"{where} is {typ!r}, built from {short(node)}")

    def match(self, typ: Any, node: dict[str, Any], where: str) -> None:
        if isinstance(typ, typing.ForwardRef):
            typ = typ.__forward_arg__
        if isinstance(typ, str):
            typ = getattr(self.module, typ)
        if "$ref" in node:
            key = (id(typ), node["$ref"])
            if key in self.seen:
                return
            self.seen.add(key)
            name = node["$ref"].rpartition("/")[2]
            self.match(typ, self.definitions[name], name)
            return
        if "oneOf" in node:
            self.match_union(typ, node["oneOf"], where)
            return
        kind = node["type"]
        if "const" in node:
            want: Any = typing.Literal[node["const"]]
            if typ != want or [type(x) for x in typing.get_args(typ)] != [type(node["const"])]:
                self.fail(where, typ, node)
        elif kind == "boolean":
            if typ is not bool:
                self.fail(where, typ, node)
        elif kind == "integer":
            fmt = node.get("format")
            if fmt not in ("int16", "int32", "int64"):
                fmt = None
                if "enum" in node:
                    fmt = integer_format(min(node["enum"]), max(node["enum"]))
                elif "minimum" in node:
                    fmt = integer_format(node["minimum"], node["maximum"])
            if typ != (getattr(auxiliary, fmt) if fmt else int):
                self.fail(where, typ, node)
        elif kind == "number":
            if is_precision(node):
                whole = len(str(node["exclusiveMaximum"])) - 1
                decimals = round(-__import__("math").log10(node["multipleOf"]))
                want = typing.Annotated[decimal.Decimal, auxiliary.Precision(whole + decimals, decimals)]
            else:
                want = getattr(auxiliary, node["format"]) if "format" in node else float
            if typ != want:
                self.fail(where, typ, node)
        elif kind == "string":
            self.match_string(typ, node, where)
        elif kind == "array":
            if typing.get_origin(typ) is not list or len(typing.get_args(typ)) != 1:
                self.fail(where, typ, node)
            self.match(typing.get_args(typ)[0], node["items"], where + "[]")
        elif "properties" not in node and node.get("additionalProperties") is not False:
            if typ != JsonType:
                self.fail(where, typ, node)
        else:
            self.match_object(typ, node, where)

    def match_string(self, typ: Any, node: dict[str, Any], where: str) -> None:
        want: Any
        if node.get("format") in FORMAT_TYPES:
            if typ is not FORMAT_TYPES[node["format"]]:
                self.fail(where, typ, node)
        elif "enum" in node:
            if not isinstance(typ, enum.EnumMeta):
                self.fail(where, typ, node)
            members = typ.__members__
            if sorted(m.value for m in members.values()) != sorted(node["enum"]) or typ.__module__ != self.module.__name__:
                self.fail(where, dict(members), node)
            if [m.value for m in typ] != node["enum"]:
                self.fail(where, dict(members), node)
            self.match_doc(typ, node, where)
        else:
            got = typing.get_args(typ)[1:] if typing.get_origin(typ) is typing.Annotated else ()
            want = []
            if "minLength" in node:
                want.append(auxiliary.MinLength(node["minLength"]))
            if "maxLength" in node:
                want.append(auxiliary.MaxLength(node["maxLength"]))
            base = typing.get_args(typ)[0] if got else typ
            if base is not str or len(got) != len(want) or not all(w in got for w in want):
                self.fail(where, typ, node)

    def match_doc(self, typ: Any, node: dict[str, Any], where: str) -> None:
        doc = typ.__doc__ or ""
        for k in ANNOTATIONS:
            if node.get(k) and node[k] not in doc:
                self.fail(f"doc-string of {where}", doc, node)

    def match_object(self, typ: Any, node: dict[str, Any], where: str) -> None:
        if not (isinstance(typ, type) and dataclasses.is_dataclass(typ)) or typ.__module__ != self.module.__name__:
            self.fail(where, typ, node)
        if getattr(self.module, typ.__name__, None) is None:
            raise Violation(f"{typ} is not in its module")
        properties = node.get("properties") or {}
        fields = dataclasses.fields(typ)
        names = {}
        for f in fields:
            aliases = [a.name for a in getattr(f.type, "__metadata__", ()) if isinstance(a, auxiliary.Alias)]
            plain = f.name[:-1] if f.name.endswith("_") and keyword.iskeyword(f.name[:-1]) else f.name
            names[aliases[0] if aliases else plain] = f
        if set(names) != set(properties) or len(fields) != len(properties):
            raise Violation(f"{where} has members {sorted(names)}, schema has {sorted(properties)}")
        order = [n for n in names if "default" not in properties[n]] + [n for n in names if "default" in properties[n]]
        if list(names) != order or [n for n in properties if n in order[: len(order)] and "default" not in properties[n]] != [
            n for n in order if "default" not in properties[n]
        ]:
            raise Violation(f"{where} has members {list(names)} for {list(properties)}")
        self.match_doc(typ, node, where)
        for n, f in names.items():
            prop = properties[n]
            inner = f.type
            if typing.get_origin(inner) is typing.Annotated and any(isinstance(a, auxiliary.Alias) for a in inner.__metadata__):
                rest = tuple(a for a in inner.__metadata__ if not isinstance(a, auxiliary.Alias))
                inner = typing.get_args(inner)[0]
                if rest:
                    inner = typing.Annotated[(inner, *rest)]  # type: ignore
            if n not in node.get("required", []):
                args = typing.get_args(inner)
                if typing.get_origin(inner) not in (typing.Union, types.UnionType) or type(None) not in args:
                    self.fail(f"{where}.{n} (optional)", f.type, prop)
                rest = tuple(a for a in args if a is not type(None))
                if not is_any(prop, self.definitions):
                    inner = typing.Union[rest]
            self.match(inner, prop, f"{where}.{n}")
            if "default" in prop:
                if f.default is dataclasses.MISSING:
                    raise Violation(f"{where}.{n} has no default, schema is {prop}")
                default = f.default
                # compare in JSON form
                shown = default.value if isinstance(default, enum.Enum) else default
                if "format" in prop and prop["type"] == "string":
                    want = must(json_to_object, FORMAT_TYPES[prop["format"]], prop["default"])
                else:
                    want = prop["default"]
                if shown != want or type(shown) is not type(want):
                    raise Violation(f"{where}.{n} has default {default!r}, schema is {prop}")
            elif f.default is not dataclasses.MISSING or f.default_factory is not dataclasses.MISSING:
                raise Violation(f"{where}.{n} has default {f.default!r}, schema is {prop}")
            text = prop.get("title") or prop.get("description")
            if text:
                text = " ".join(text.split())
                if f":param {f.name}: {text}" not in " ".join((typ.__doc__ or "").split()):
                    self.fail(f"doc-string of {where}.{n}", typ.__doc__, prop)

    def match_union(self, typ: Any, nodes: list[Any], where: str) -> None:
        if len(nodes) == 1:
            self.match(typ, nodes[0], where)
            return
        args = typing.get_args(typ) if typing.get_origin(typ) in (typing.Union, types.UnionType) else (typ,)
        position = 0
        for a, n in itertools.zip_longest(args, flat_alternatives(nodes), fillvalue=None):
            if a is None or n is None:
                self.fail(where, typ, nodes)
            self.match(a, n, f"{where}/{position}")
            position += 1


def flat_alternatives(nodes: list[Any]) -> list[Any]:
    result: list[Any] = []
    for n in nodes:
        result += flat_alternatives(n["oneOf"]) if "oneOf" in n else [n]
    unique: list[Any] = []
    for n in result:
        if n not in unique:
            unique.append(n)
    return unique


def is_any(node: dict[str, Any], definitions: dict[str, Any], limit: int = 9) -> bool:
    while "$ref" in node and limit:
        node = definitions[node["$ref"].rpartition("/")[2]]
        limit -= 1
    return node.get("type") == "object" and "properties" not in node and node.get("additionalProperties") is not False


# --- supported schemas ---


@st.composite
def supported_cases(draw: Any) -> Any:
    g = Gen(draw)
    schema = SchemaGen(g).schema()
    docs = []
    maker = Documents(g, schema.get("definitions", {}))
    for _ in range(g.int(1, 3)):
        try:
            docs.append(maker.make(schema, g.int(0, 3)))
        except Endless:
            break
    return (schema, docs)


def judge(schema: Any, docs: list[Any], name: str, module: types.ModuleType) -> Any:
    before = copy.deepcopy(schema)
    typ = must(lambda: schema_to_type(schema, module=module, class_name=name))
    require(schema == before, lambda: f"the schema was changed: {short(before)} to {short(schema)}")
    require(
        isinstance(typ, type) and typ.__name__ == name and getattr(module, name, None) is typ, lambda: f"built {typ!r} for {name}"
    )
    definitions = schema.get("definitions") or {}
    for d in definitions:
        require(hasattr(module, d), lambda: f"definition {d} is not in the module")  # noqa: B023
    top = {k: v for k, v in schema.items() if k not in ("$schema", "definitions")}
    Matcher(module, definitions).match(typ, top, name)
    if not uses(schema, lambda n: n == {"type": "object"} or n.get("type") == "object" and "properties" not in n and n.get("additionalProperties") is not False):
        again = must(classdef_to_schema, typ)
        body = {k: v for k, v in again.items() if k not in ("$schema", "definitions")}
        try:
            same_tree(
                approximate(top), {k: approximate(v) for k, v in definitions.items()}, body, again.get("definitions", {})
            )
        except Different as ex:
            raise Violation(f"schema of the type built from {short(schema, 1500)} is {short(again, 1500)}: {ex}") from None
    for doc in docs:
        obj = must(json_to_object, typ, doc, context=module)
        out = must(object_to_json, obj)
        require(alike(doc, out) or alike(with_defaults(doc, top, definitions), out), lambda: f"{short(doc)} becomes {short(out)} by way of the type built from {short(schema, 1500)}")  # noqa: B023
    return typ


def with_defaults(doc: Any, node: dict[str, Any], definitions: dict[str, Any]) -> Any:
    "Optional members that are missing assume their defaults."

    while "$ref" in node:
        node = definitions[node["$ref"].rpartition("/")[2]]
    if "oneOf" in node:
        kinds = {dict: "object", list: "array", str: "string", bool: "boolean", int: "integer", float: "number"}
        for n in flat_alternatives(node["oneOf"]):
            if n.get("type") == kinds[type(doc)]:
                return with_defaults(doc, n, definitions)
        return doc
    if isinstance(doc, list):
        return [with_defaults(x, node["items"], definitions) for x in doc]
    if isinstance(doc, dict) and node.get("properties"):
        result = {k: with_defaults(v, node["properties"][k], definitions) for k, v in doc.items()}
        for k, p in node["properties"].items():
            if k not in doc and "default" in p:
                result[k] = p["default"]
        return result
    return doc


def run_supported(case: Any, stats: Stats) -> None:
    schema, docs = case
    # decimals cannot be read or written
    usable = not uses(schema, is_precision)
    sandbox = Sandbox()
    with sandbox as module:
        judge(schema, docs if usable else [], "Top", module)
        sandbox.check()
    text = str(schema)
    for key in ("definitions", "oneOf", "default", "const", "enum", "title", "format", "$ref", "items", "minLength"):
        if f"'{key}'" in text:
            stats.label("with:" + key)
    stats.label("documents" if docs and usable else "no documents")
    stats.nontrivial("definitions" in schema or any(f"'{k}'" in text for k in ("items", "oneOf")) or text.count("'properties'") > 1)


# --- what is outside ---


@st.composite
def outside_cases(draw: Any) -> Any:
    g = Gen(draw)
    schema = SchemaGen(g).schema()
    path = g.pick([("properties", "x"), *schema_positions(schema)])
    if path == ("properties", "x") and "properties" not in schema:
        schema["properties"] = {}
    return (schema, path, g.int(0, len(OUTSIDE) - 1))


def run_outside(case: Any, stats: Stats) -> None:
    schema, path, index = case
    part = OUTSIDE[index]
    bad = with_part(schema, path, part)
    before = copy.deepcopy(bad)
    sandbox = Sandbox()
    with sandbox as module:
        if path[-2] == "definitions" and part is None:
            stats.label("left out")
            return
        outcome = call(lambda: schema_to_type(bad, module=module, class_name="Top"))
        require(not outcome.ok, lambda: f"{short(bad, 1500)} has the unsupported {part} but {outcome.describe()}")
        require(not hasattr(module, "Top"), lambda: f"{short(bad)} is refused but leaves a class behind")
        require(bad == before, lambda: f"the schema was changed: {short(before)} to {short(bad)}")
        sandbox.check()
    stats.label(f"error:{type(outcome.error).__name__}", f"depth:{len(path) // 2}", "in:" + str(path[-2] if isinstance(path[-2], str) else path[-1]))
    stats.nontrivial()


# --- schemas of generated programs ---

PROGRAM = Profile(
    leaves=("int", "str", "bool", "float", "datetime", "date", "time", "timedelta", "uuid", "ipv4", "ipv6"),
    kinds=("dc", "dc", "enum"),
    min_classes=1,
    tuples=False,
    sets=False,
    edicts=False,
    aux=True,
    exclusive_unions=True,
    tagged=False,
    unique_names=True,
    optional_anywhere=False,
    more_defaults=True,
    naive_time=False,
)


def in_subset(node: Any, definitions: dict[str, Any], position: str) -> bool:
    "Whether types can be built from a schema that the library generates."

    if not isinstance(node, dict):
        return False
    if "$ref" in node:
        return set(node) <= ANNOTATIONS | {"$ref"} and valid_reference(node["$ref"])
    if "oneOf" in node:
        return set(node) <= ANNOTATIONS | {"oneOf"} and all(in_subset(n, definitions, "oneOf") for n in node["oneOf"])
    kind = node.get("type")
    if kind not in KEYS or not set(node) <= KEYS[kind]:
        return False
    if "default" in node and position != "property":
        return False
    if kind == "array":
        return "items" in node and in_subset(node["items"], definitions, "items")
    if kind == "object":
        if node.get("additionalProperties", True) is not False:
            return node.get("additionalProperties", True) is True and "properties" not in node
        return all(
            n.isidentifier() and in_subset(p, definitions, "property") for n, p in node.get("properties", {}).items()
        )
    return True


@st.composite
def program_cases(draw: Any) -> Any:
    g = Gen(draw, PROGRAM)
    universe = g.make_universe()
    indices = [i for i, c in enumerate(g.classes()) if c["k"] == "dc"]
    if not indices:
        return (universe, None, [])
    index = indices[-1]
    return (universe, index, [g.make_value(("cls", index, False)) for _ in range(g.int(1, 2))])


def run_program(case: Any, stats: Stats) -> None:
    universe, index, values = case
    if index is None:
        stats.label("no data class")
        return
    with World(universe) as w:
        cls = w.classes[index]
        schema = must(classdef_to_schema, cls)
        definitions = schema.get("definitions", {})
        body = {k: v for k, v in schema.items() if k not in ("$schema", "definitions")}
        names = list(body.get("properties", {})) + [n for d in definitions.values() for n in d.get("properties", {})]
        clash = uses(schema, lambda n: "properties" in n and any(f"{k}_" in n["properties"] for k in n["properties"] if keyword.iskeyword(k)))
        supported = in_subset(body, definitions, "top") and all(in_subset(d, definitions, "definition") for d in definitions.values())
        docs = [concrete(w.encode(("cls", index, False), v)) for v in values]
        sandbox = Sandbox()
        with sandbox as module:
            if clash:
                stats.label("names clash")
                return
            if supported:
                typ = must(lambda: schema_to_type(schema, module=module, class_name=cls.__name__))
                top = {k: v for k, v in schema.items() if k not in ("$schema", "definitions")}
                if not uses(schema, lambda n: n.get("type") == "object" and "properties" not in n and n.get("additionalProperties") is not False):
                    again = must(classdef_to_schema, typ)
                    new = {k: v for k, v in again.items() if k not in ("$schema", "definitions")}
                    try:
                        same_tree(approximate(top), {k: approximate(v) for k, v in definitions.items()}, new, again.get("definitions", {}))
                    except Different as ex:
                        raise Violation(f"schema of {cls}, {short(schema, 1500)}, becomes {short(again, 1500)}: {ex}") from None
                for doc in docs:
                    obj = must(json_to_object, typ, doc, context=module)
                    out = must(object_to_json, obj)
                    require(
                        alike(without_null(doc), without_null(out)) or alike(with_defaults(doc, top, definitions), out),
                        lambda: f"{short(doc)} as {cls} becomes {short(out)} by way of the type built from its schema",  # noqa: B023
                    )
                stats.label("supported")
                stats.nontrivial(bool(names) and bool(docs))
            else:
                outcome = call(lambda: schema_to_type(schema, module=module, class_name="Top"))
                require(not outcome.ok, lambda: f"unsupported {short(schema, 1500)} gives {outcome.describe()}")
                stats.label("refused")
            sandbox.check()


def without_null(doc: Any) -> Any:
    if isinstance(doc, dict):
        return {k: without_null(v) for k, v in doc.items() if v is not None}
    if isinstance(doc, list):
        return [without_null(x) for x in doc]
    return doc


def probe_names() -> Optional[str]:
    schema = {
        "$schema": "https://json-schema.org/draft/2020-12/schema",
        "definitions": {"Top__a": {"type": "object", "properties": {"x": {"type": "integer"}}, "additionalProperties": False}},
        "type": "object",
        "properties": {"a": {"type": "string", "enum": ["one"]}, "b": {"$ref": "#/definitions/Top__a"}},
        "additionalProperties": False,
    }
    with Sandbox() as module:
        must(lambda: schema_to_type(schema, module=module, class_name="Top"))
        if isinstance(module.__dict__["Top__a"], enum.EnumMeta):
            return "definition Top__a is replaced by the type of the member `a` of Top"
    return None


probes = [Probe("definition-named-like-member-type", probe_names)]

PARTS = [
    Part("supported", supported_cases, run_supported, quick=3000, thorough=80000),
    Part("outside", outside_cases, run_outside, quick=2500, thorough=60000),
    Part("programs", program_cases, run_program, quick=1500, thorough=40000),
]
_ = (FORMATS, Optional)
