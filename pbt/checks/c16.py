"C16: registered types become exactly the right shared definitions."

import copy
import json
import typing
from dataclasses import replace
from typing import Any, Optional

from hypothesis import strategies as st

from strong_typing.core import JsonType
from strong_typing.schema import (
    JsonSchemaGenerator,
    SchemaOptions,
    classdef_to_schema,
    get_schema_identifier,
    json_schema_type,
    register_schema,
)

from ..core import Part, Probe, Stats, Violation, call, must, require, short
from ..forked import broken, in_fork
from ..gen import CLASS_NAMES, Gen, Profile, references, shape_labels
from ..schemas import Mismatch, SchemaModel, json_equal, references_of
from ..world import World, is_json, strip_ann, walk

ID = "C16"
TECHNIQUE = "stateful property-based testing (Hypothesis): generated registration and generation histories against a reference model"
RULE = (
    "A case is a generated program and a history over the (process-wide, hence run in a forked process) catalogue of types: "
    "classes and generic types are registered by function or decorator, with or without names, schemas and examples, "
    "schemas are generated in between (by fresh and re-used generators, in place or by reference, for supported and "
    "unsupported types), results are tampered with, and registrations are repeated. Each generated schema must agree with a "
    "reference model that knows what is registered at that point, and must be the same text as earlier ones of the same "
    "type unless a type it reaches was registered since. Non-trivial: a schema had definitions."
)

PROFILE = Profile(depth=3, unique_names=True, min_classes=1, max_classes=5)
# JsonType in lazily evaluated annotations is a known finding
JSON_PROFILE = replace(PROFILE, json_leaf=True, json_names=("json", "sjson", "jobj", "jarr"), kinds=("dc", "dc", "enum"), quoted=False, mods=1)
OPTIONS = [("#/definitions/", True), ("#/definitions/", False), ("#/components/schemas/", True), ("urn:x:", False)]
SCHEMAS = [
    {"type": "object", "properties": {"x": {"type": "integer", "default": 1}}, "required": ["x"]},
    {"type": "string", "enum": ["a", "b"], "title": "Own title"},
    {"type": ["null", "string"], "x-custom": {"deep": [1, None, {"a": []}]}},
    {},
]
EXAMPLES = [[1, {"a": [None]}], ["x"], [], [{"property": {"deep": [1, 2]}}]]


@st.composite
def cases(draw: Any) -> Any:
    g = Gen(draw, PROFILE)
    if g.chance(1, 3):
        g = Gen(draw, JSON_PROFILE)
    universe = g.make_universe()
    if g.p.json_leaf:
        universe["mods"] = [False]
    count = len(g.classes())
    mods = len(universe["mods"])
    known: set[int] = set()
    generics: list[Any] = []
    history: list[Any] = []
    gens = 0

    def top() -> Any:
        mod = g.int(0, mods - 1)
        t = g.pick(generics)[0] if generics and g.chance(1, 6) else g.top_type(mod)
        return t, mod

    for _ in range(g.int(3, 12)):
        free = [i for i in range(count) if i not in known]
        op = g.pick(["reg", "reg", "reg", "gen", "gen", "gen", "again", "again", "expand", "regtype", "regtype", "dup", "fail", "tamper", "ident", "swap", "forward"])
        if op == "reg" and free:
            i = g.pick(free)
            via = g.pick(["function", "decorator", "decorator()", "decorator(None)"])
            name = f"Name{i}.x" if via == "function" and g.chance(1, 3) else None
            schema = g.pick(SCHEMAS) if via != "decorator" and g.chance(1, 4) else None
            examples = g.pick(EXAMPLES) if via != "decorator" and g.chance(1, 3) else None
            history.append(("reg", i, via, name, schema, examples))
            known.add(i)
        elif op == "swap" and len(free) > 1:
            i, j = g.sample(free, 2, 2)
            history.append(("swap", i, j))
            known |= {i, j}
        elif op == "regtype":
            t = g.pick(part_types(g))
            if t[0] in ("cls", "leaf", "opt") or any(s[0] == "cls" and s[2] for s in walk(t)) or is_json(t):
                continue
            if any(s[0] == "ann" and ("mark", [1]) in s[2] for s in walk(t)):
                continue  # not hashable
            if t[0] == "ann" and strip_ann(t)[0] not in ("leaf", "aux"):
                continue  # may show the annotated type in place or by reference
            history.append(("regtype", t, f"Type{len(history)}", g.pick([None, *EXAMPLES])))
            generics.append((t, 0))
        elif op in ("gen", "expand"):
            t, mod = top()
            if op == "expand":
                t = ("cls", g.int(0, count - 1), False)
            history.append((op, t, mod, g.int(0, len(OPTIONS) - 1), g.chance(1, 2)))
            gens += op == "gen"
        elif op in ("again", "tamper") and gens:
            history.append((op, g.int(0, gens - 1)))
        elif op == "dup":
            history.append((op, g.pick(["function", "decorator"]), g.int(0, 99)))
        elif op == "fail":
            history.append((op, g.pick(["dict[float, int]", "list[dict[float, int]]", "Broken"]), g.chance(1, 2)))
        elif op in ("ident", "forward"):
            history.append((op,))
    t, mod = top()
    history.append(("gen", t, mod, 0, False))
    return (universe, history)


def part_types(g: Gen) -> list[Any]:
    "Types that occur in the program."

    result = [s for c in g.classes() if c["k"] != "enum" for f in c["fields"] for s in walk(f["t"])]
    return result or [("list", ("cls", 0, False))]


def reachable_specs(w: World, t: Any) -> set[int]:
    seen: set[int] = set()
    todo = [t]
    while todo:
        for i in references(todo.pop(), w.universe) - seen:
            seen.add(i)
            if w.specs[i]["k"] != "enum":
                todo.extend(f["t"] for f in w.fields(i))
    return seen


class Broken:
    a: int
    b: dict[float, int]


class History:
    def __init__(self, w: World) -> None:
        self.w = w
        self.registered: dict[int, dict[str, Any]] = {}
        self.types: list[Any] = []
        self.clock = 0
        self.when: dict[Any, int] = {}
        self.results: list[Any] = []
        self.generators: dict[int, JsonSchemaGenerator] = {}
        self.labels: set[str] = set()

    def model(self, option: int) -> SchemaModel:
        path, examples = OPTIONS[option]
        return SchemaModel(
            self.w, {}, self.registered, path, use_examples=examples, registered_types=self.types
        )

    def options(self, option: int) -> SchemaOptions:
        path, examples = OPTIONS[option]
        return SchemaOptions(definitions_path=path, use_examples=examples)

    def step(self, op: Any) -> None:
        self.clock += 1
        getattr(self, "do_" + op[0])(*op[1:])
        self.labels.add(op[0])

    def do_reg(self, i: int, via: str, name: Any, schema: Any, examples: Any) -> None:
        cls = self.w.classes[i]
        given = copy.deepcopy(schema), copy.deepcopy(examples)
        if via == "function":
            result = must(lambda: register_schema(cls, schema=given[0], name=name, examples=given[1]))
        elif via == "decorator":
            result = must(json_schema_type, cls)
        elif via == "decorator()":
            result = must(lambda: json_schema_type(schema=given[0], examples=given[1])(cls))
        else:
            result = must(lambda: json_schema_type(None, schema=given[0], examples=given[1])(cls))
        require(result is cls, lambda: f"registering {cls} returned {result}")
        self.registered[i] = {"name": name or self.w.specs[i]["name"], "schema": schema, "examples": examples}
        self.when[i] = self.clock

    def do_swap(self, i: int, j: int) -> None:
        for a, b in ((i, j), (j, i)):
            name = self.w.specs[b]["name"]
            must(lambda: register_schema(self.w.classes[a], name=name))  # noqa: B023
            self.registered[a] = {"name": name, "schema": None, "examples": None}
            self.when[a] = self.clock

    def do_regtype(self, t: Any, name: str, examples: Any) -> None:
        typ = self.w.type(t, 0, True)
        if any(typ == other for other, _ in self.types):
            return
        must(lambda: register_schema(typ, name=name, examples=copy.deepcopy(examples)))
        self.types.append((typ, {"name": name, "schema": None, "examples": examples}))
        self.when["types"] = self.clock

    def do_dup(self, via: str, k: int) -> None:
        if not self.registered:
            return
        i = list(self.registered)[k % len(self.registered)]
        cls = self.w.classes[i]
        if via == "function":
            outcome = call(lambda: register_schema(cls, schema={"type": "null"}, name="Other", examples=[0]))
        else:
            outcome = call(json_schema_type, cls)
        require(isinstance(outcome.error, ValueError), lambda: f"registering {cls} again {outcome.describe()}")
        require(get_schema_identifier(cls) == self.registered[i]["name"], lambda: f"name of {cls} after registering again")

    def do_forward(self) -> None:
        outcome = call(register_schema, typing.ForwardRef("A"), None, "A")
        require(isinstance(outcome.error, TypeError), lambda: f"registering a forward reference {outcome.describe()}")

    def do_ident(self) -> None:
        for i, cls in enumerate(self.w.classes):
            expected = self.registered[i]["name"] if i in self.registered else None
            actual = must(get_schema_identifier, cls)
            require(actual == expected, lambda: f"identifier of {cls} is {actual} rather than {expected}")  # noqa: B023
        for typ, entry in self.types:
            require(must(get_schema_identifier, typ) == entry["name"], lambda: f"identifier of {typ}")  # noqa: B023

    def do_fail(self, text: str, reuse: bool) -> None:
        typ = Broken if text == "Broken" else eval(text)
        if reuse:
            outcome = call(self.generator(0).classdef_to_schema, typ)
        else:
            outcome = call(classdef_to_schema, typ)
        require(isinstance(outcome.error, (ValueError, TypeError)), lambda: f"schema of {text} {outcome.describe()}")

    def generator(self, option: int) -> JsonSchemaGenerator:
        if option not in self.generators:
            self.generators[option] = JsonSchemaGenerator(self.options(option))
        return self.generators[option]

    def generate(self, t: Any, mod: int, option: int, reuse: bool, expand: bool = False) -> Any:
        typ = self.w.type(t, mod)
        if reuse or expand:
            generator = self.generator(option) if reuse else JsonSchemaGenerator(self.options(option))
            body, definitions = must(lambda: generator.classdef_to_schema(typ, force_expand=expand))
            schema = {"definitions": definitions, **body} if definitions else body
        else:
            schema = must(classdef_to_schema, typ, self.options(option))
            schema = {k: v for k, v in schema.items() if k != "$schema"}
        try:
            self.model(option).check(t, schema, expand)
        except Mismatch as ex:
            raise Violation(f"schema of {typ} with {self.registered} and {self.types}: {ex} in {short(schema, 2500)}") from None
        definitions = schema.get("definitions", {})
        prefix = OPTIONS[option][0]
        for name, nulls in (("JsonType", ["null"]), ("StrictJsonType", [])):
            if name not in definitions:
                continue
            body = definitions[name]
            kinds = sorted(x["type"] for x in body["oneOf"])
            items = [x[k] for x in body["oneOf"] for k in ("items", "additionalProperties") if k in x]
            require(
                kinds == sorted(["array", "boolean", "integer", "number", "object", "string", *nulls])
                and items == [{"$ref": prefix + name}] * 2
                and ("examples" in body) == OPTIONS[option][1],
                lambda: f"definition of {name} is {body}",
            )
        used = {r.removeprefix(prefix) for r in references_of(schema)}
        require(used == set(definitions), lambda: f"definitions of {typ} are {sorted(definitions)} but references are {sorted(used)}")
        if definitions:
            self.labels.add("definitions")
        return schema

    def do_gen(self, t: Any, mod: int, option: int, reuse: bool) -> None:
        schema = self.generate(t, mod, option, reuse)
        text = json.dumps(schema)
        self.results.append((t, mod, option, schema, text, self.clock))

    def do_expand(self, t: Any, mod: int, option: int, reuse: bool) -> None:
        self.generate(t, mod, option, reuse, True)

    def do_again(self, k: int) -> None:
        t, mod, option, _, text, clock = self.results[k % len(self.results)]
        schema = self.generate(t, mod, option, bool(k % 2))
        reach = reachable_specs(self.w, t)
        if self.when.get("types", 0) < clock and not any(self.when.get(i, 0) > clock for i in reach):
            again = json.dumps(schema)
            require(
                again == text,
                lambda: f"schema of {self.w.type(t, mod)} changed without a registration that it depends on: {short(text, 900)}, then {short(again, 900)}",
            )
            self.labels.add("same again")

    def do_tamper(self, k: int) -> None:
        spoil(self.results[k % len(self.results)][3])


def spoil(schema: Any) -> None:
    "What a careless user may do to a schema that was returned."

    if isinstance(schema, dict):
        for v in list(schema.values()):
            spoil(v)
        schema["tampered"] = True
    elif isinstance(schema, list):
        for v in schema:
            spoil(v)
        schema.append("tampered")


def run(case: Any, stats: Stats) -> None:
    universe, history = case
    with World(universe) as w:

        def child() -> Any:
            h = History(w)
            try:
                for op in history:
                    h.step(op)
            except Violation as ex:
                return ["violation", str(ex)]
            return ["ok", sorted(h.labels), len(h.registered), len(h.types)]

        answer = in_fork(child, limit=60)
    if isinstance(answer, dict):
        raise broken(answer)
    if answer[0] == "violation":
        raise Violation(answer[1])
    stats.label(*(f"op:{x}" for x in answer[1]), f"registered:{answer[2]}", f"generic types registered:{answer[3]}")
    stats.nontrivial("definitions" in answer[1])


def probe_json_type() -> Optional[str]:
    class Holder(typing.NamedTuple):
        member: list[JsonType]

    items = classdef_to_schema(Holder)["properties"]["member"]["items"]  # type: ignore
    if "$ref" not in items:
        return "JsonType as the type of a member of a named tuple appears in place"
    return None


probes = [Probe("json-type-in-place", probe_json_type)]

PARTS = [Part("histories", cases, run, quick=4500, thorough=100000)]
