"C15: schema content follows the documented conversion, doc-strings and defaults."

import contextlib
import io
import json
from typing import Any, Optional

from hypothesis import strategies as st

from strong_typing.schema import SchemaOptions, classdef_to_schema, get_class_property_docstrings, print_schema, register_schema

from ..core import Part, Stats, Violation, must, require, short
from ..declared import declarations
from ..docs import compose, paragraph, phrase
from ..forked import broken, in_fork
from ..gen import Gen, Profile, shape_labels
from ..schemas import Mismatch, SchemaModel, check_pattern, json_equal
from ..world import AUX_BASE, World

ID = "C15"
RULE = (
    "A case is a generated program whose classes have doc-strings written from components (title, description, member "
    "descriptions, wrapped and indented at random; overriding descriptions in subclasses), members with defaults and "
    "aliases, a type, schema options (reference prefix, descriptions, examples, a function for property descriptions), and "
    "classes registered with names, schemas or examples of their own. The generated schema must be the image of the type "
    "according to a reference model, as a tree in which an unregistered class may appear in place or by reference. A second "
    "part checks the table of leaf types at every kind of position. Non-trivial: the schema has a description, default or "
    "nested type."
)

PROFILE = Profile(depth=3, unique_names=True, more_defaults=True)
PATHS = ["#/definitions/", "#/components/schemas/", "https://example.com/schema#", ""]


def make_doc(g: Gen, index: int) -> Optional[dict[str, Any]]:
    spec = g.classes()[index]
    title = phrase(g) if g.chance(2, 3) else None
    description = paragraph(g) if title and g.chance(1, 2) else None
    if spec["k"] == "enum":
        names = ["ONE"] if g.chance(1, 4) else []
    elif spec["k"] == "dc":
        inherited = {f["n"] for f in g.all_fields(spec["base"])} if spec.get("base") is not None else set()
        names = [f["n"] for f in spec["fields"] if f["n"] not in inherited]
    else:
        names = [f["n"] for f in g.all_fields(index)]
        if g.chance(1, 6):
            names = [*names, "no_such_member"]
    params = {n: phrase(g) for n in names if g.chance(1, 2)}
    fields = [(f"param {n}", text) for n, text in params.items()]
    if g.chance(1, 5):
        fields.append(("see", "https://example.com"))
    if not title and not fields:
        return None
    spec["doc"] = compose(g, title, description, fields)
    return {"title": title, "description": description, "params": params}


def add_defaults(g: Gen, index: int) -> None:
    "Attributes of plain classes and fields of named tuples may have defaults, too."

    spec = g.classes()[index]
    if spec["k"] not in ("plain", "exc", "nt"):
        return
    for f in reversed(spec["fields"]):
        if f.get("d") is None and g.chance(1, 2):
            d = g.make_default(f["t"]) if all(i < index for i in g.reachable(f["t"])) else None
            if d is not None and d[0] == "val":
                f["d"] = d
                continue
        if spec["k"] == "nt":
            break


@st.composite
def cases(draw: Any) -> Any:
    g = Gen(draw, PROFILE)
    universe = g.make_universe()
    docs = {}
    for i in range(len(g.classes())):
        doc = make_doc(g, i) if g.chance(2, 3) else None
        if doc:
            docs[i] = doc
        add_defaults(g, i)
    mod = g.int(0, len(universe["mods"]) - 1)
    t = g.top_type(mod)
    registered = {}
    if g.classes() and g.chance(1, 6):
        for i in g.sample(range(len(g.classes())), 1, 3):
            entry: dict[str, Any] = {"name": None, "schema": None, "examples": None}
            if g.chance(1, 3):
                entry["name"] = f"Name.{i}"
            if g.chance(1, 4):
                entry["schema"] = g.pick([{"type": "object", "title": "own"}, {"type": "string", "enum": ["a"]}, {}])
            if g.chance(1, 2):
                entry["examples"] = g.pick([[1, {"a": None}], [], ["x"]])
            registered[i] = entry
    options = (g.pick(PATHS), not g.chance(1, 3), not g.chance(1, 3), g.chance(1, 3))
    return (universe, mod, t, docs, registered, options)


@st.composite
def declared_cases(draw: Any) -> Any:
    universe, mod, t, _ = draw(declarations())
    options = (draw(st.sampled_from(PATHS)), draw(st.booleans()), True, False)
    return (universe, mod, t, {}, {}, options)


def describe_property(cls: type, name: str, text: str) -> str:
    return "" if len(text) % 5 == 0 else f"{cls.__name__}/{name}: {text}"


def judge(universe: Any, mod: int, t: Any, docs: Any, registered: Any, options: Any) -> dict[str, Any]:
    path, use_descriptions, use_examples, transform = options
    with World(universe) as w:
        typ = w.type(t, mod)
        for i, entry in registered.items():
            register_schema(w.classes[i], schema=entry["schema"], name=entry["name"], examples=entry["examples"])
        settings = SchemaOptions(
            definitions_path=path,
            use_descriptions=use_descriptions,
            use_examples=use_examples,
            property_description_fun=describe_property if transform else None,
        )
        if options == (PATHS[0], True, True, False) and len(docs) % 2:
            schema: Any = must(classdef_to_schema, typ)
        else:
            schema = must(classdef_to_schema, typ, settings)
        model = SchemaModel(
            w,
            docs,
            {i: {**e, "name": e["name"] or w.specs[i]["name"]} for i, e in registered.items()},
            path,
            use_descriptions,
            use_examples,
            (lambda i, name, text: describe_property(w.classes[i], name, text)) if transform else None,
        )
        try:
            model.check(t, schema)
        except Mismatch as ex:
            raise Violation(f"schema of {typ}: {ex} in {short(schema, 3000)}") from None
        for i in docs:
            if w.specs[i]["k"] == "enum":
                continue
            names = list(dict.fromkeys(n for base in chain(w, i) for n in (docs.get(base) or {}).get("params", {})))
            texts = must(get_class_property_docstrings, w.classes[i], *([describe_property] if transform else []))
            expected = {n: model.member_doc(i, n) for n in names}
            require(
                {n: x for n, x in texts.items() if n in expected or n in {f["n"] for f in w.fields(i)}} == expected,
                lambda: f"member descriptions of {w.classes[i].__name__} are {texts}, expected {expected}",  # noqa: B023
            )
        if transform and not registered:
            out = io.StringIO()
            with contextlib.redirect_stdout(out):
                must(print_schema, typ)
            require(
                json_equal(json.loads(out.getvalue()), must(classdef_to_schema, typ)),
                lambda: f"print_schema({typ}) writes {short(out.getvalue(), 900)} instead of {short(schema, 900)}",
            )
        return schema


def chain(w: World, index: int) -> list[int]:
    "A class and its base classes."

    result = [index]
    while w.specs[result[-1]].get("base") is not None and w.specs[result[-1]]["k"] != "enum":
        result.append(w.specs[result[-1]]["base"])
    return result


def run(case: Any, stats: Stats) -> None:
    universe, mod, t, docs, registered, options = case
    if registered:

        def child() -> Any:
            try:
                return ["ok", judge(universe, mod, t, docs, registered, options)]
            except Violation as ex:
                return ["violation", str(ex)]

        answer = in_fork(child, limit=60)
        if isinstance(answer, dict):
            raise broken(answer)
        if answer[0] == "violation":
            raise Violation(answer[1])
        schema = answer[1]
        stats.label("registered")
    else:
        schema = judge(universe, mod, t, docs, registered, options)
    text = str(schema)
    for key in ("description", "title", "default", "definitions", "examples", "$ref", "oneOf", "pattern"):
        if f"'{key}'" in text:
            stats.label("with:" + key)
    if options[0] != PATHS[0]:
        stats.label("reference prefix")
    if options[3]:
        stats.label("description function")
    stats.label(*shape_labels(t, universe))
    stats.nontrivial(any(f"'{k}'" in text for k in ("description", "default", "items", "properties", "oneOf", "prefixItems")))


# --- the table of leaf types at every kind of position ---

ANY = ["null", "boolean", "number", "string", "array", "object"]
TABLE: dict[str, dict[str, Any]] = {
    "NoneType": {"type": "null"},
    "bool": {"type": "boolean"},
    "int": {"type": "integer"},
    "float": {"type": "number"},
    "str": {"type": "string"},
    "decimal.Decimal": {"type": "number"},
    "bytes": {"type": "string", "contentEncoding": "base64"},
    "datetime.datetime": {"type": "string", "format": "date-time"},
    "datetime.date": {"type": "string", "format": "date"},
    "datetime.time": {"type": "string", "format": "time"},
    "datetime.timedelta": {"type": "string", "format": "duration"},
    "uuid.UUID": {"type": "string", "format": "uuid"},
    "ipaddress.IPv4Address": {"type": "string", "format": "ipv4"},
    "ipaddress.IPv6Address": {"type": "string", "format": "ipv6"},
    "Any": {"oneOf": [{"type": k} for k in ANY]},
    **{f"{u}int{b}": {"type": "integer", "format": f"{u}int{b}"} for u in ("", "u") for b in (8, 16, 32, 64)},
    "float32": {"type": "number", "format": "float32"},
    "float64": {"type": "number", "format": "float64"},
    "Annotated[int, IntegerRange(-3, 12)]": {"type": "integer", "minimum": -3, "maximum": 12},
    "Annotated[str, MinLength(2)]": {"type": "string", "minLength": 2},
    "Annotated[str, MaxLength(0)]": {"type": "string", "maxLength": 0},
    "Annotated[str, MinLength(1), Mark(0), MaxLength(5)]": {"type": "string", "minLength": 1, "maxLength": 5},
    "Annotated[Annotated[str, MaxLength(5)], MinLength(0)]": {"type": "string", "minLength": 0, "maxLength": 5},
    "Annotated[float, Precision(5, 0)]": {"type": "number", "multipleOf": 1, "exclusiveMinimum": -100000, "exclusiveMaximum": 100000},
    "Annotated[float, Precision(3)]": {"type": "number", "multipleOf": 1, "exclusiveMinimum": -1000, "exclusiveMaximum": 1000},
    "Annotated[decimal.Decimal, Precision(9, 6)]": {"type": "number", "multipleOf": 1e-6, "exclusiveMinimum": -1000, "exclusiveMaximum": 1000},
    "Literal['a']": {"type": "string", "const": "a"},
    "Literal['b', 'a']": {"type": "string", "enum": ["b", "a"]},
    "Literal[1, 2]": {"type": "integer", "enum": [1, 2]},
    "Literal[True]": {"type": "boolean", "const": True},
    "Literal[E5.A]": {"type": "string", "enum": ["a", "b.", "c", "d", "e"], "const": "a"},
    "Literal[E4.B, E4.A]": {"type": "string", "enum": ["b", "a"]},
    "E4": {"type": "string", "enum": ["a", "b", "c", "d"]},
    "E5": {"type": "string", "enum": ["a", "b.", "c", "d", "e"]},
    "EI": {"type": "integer", "enum": [3, 1]},
    "EF": {"type": "number", "enum": [0.5, 1.25]},
    "EB": {"type": "boolean", "enum": [True]},
    "type[int]": {"const": {"type": "integer"}},
    "type[E4]": {"const": {"type": "string", "enum": ["a", "b", "c", "d"]}},
    "Empty": {"type": "object", "additionalProperties": False},
}
POSITIONS: dict[str, Any] = {
    "{}": lambda s: s,
    "list[{}]": lambda s: {"type": "array", "items": s},
    "set[{}]": lambda s: {"type": "array", "items": s, "uniqueItems": True},
    "dict[str, {}]": lambda s: {"type": "object", "additionalProperties": s},
    "dict[int, {}]": lambda s: {"type": "object", "additionalProperties": s},
    "dict[E4, {}]": lambda s: {"type": "object", "properties": {k: s for k in "abcd"}, "additionalProperties": False},
    "dict[E5, {}]": lambda s: {"type": "object", "propertyNames": {"pattern": r"^(a|b\.|c|d|e)$"}, "additionalProperties": s},
    "tuple[str, {}]": lambda s: {"type": "array", "minItems": 2, "maxItems": 2, "prefixItems": [{"type": "string"}, s]},
    "tuple[{}, {}, {}]": lambda s: {"type": "array", "minItems": 3, "maxItems": 3, "prefixItems": [s, s, s]},
    "Optional[{}]": lambda s: {"oneOf": [s, {"type": "null"}]},
    "Union[Other, {}]": lambda s: {"oneOf": [OTHER, s]},
    "Annotated[{}, Mark(1)]": lambda s: s,
    "list[dict[str, Optional[{}]]]": lambda s: {"type": "array", "items": {"type": "object", "additionalProperties": {"oneOf": [s, {"type": "null"}]}}},
    "list['{}']": lambda s: {"type": "array", "items": s},
}
MEMBERS: dict[str, Any] = {
    "m: {}": lambda s: {"properties": {"m": s}, "required": ["m"]},
    "m: Optional[{}]": lambda s: {"properties": {"m": s}},
    "in_: Annotated[{}, Mark(2)]": lambda s: {"properties": {"in": s}, "required": ["in"]},
    "m: Annotated[{}, Alias('$n')]": lambda s: {"properties": {"$n": s}, "required": ["$n"]},
    "m: Annotated[Optional[{}], Alias('$n')]": lambda s: {"properties": {"$n": s}},
    "m: Optional[list[{}]] = None": lambda s: {"properties": {"m": {"type": "array", "items": s}}},
}
OTHER: dict[str, Any] = {
    "type": "object",
    "properties": {"other": {"type": "integer", "default": 4}},
    "additionalProperties": False,
    "required": ["other"],
}

CLASSES = """
import datetime, decimal, uuid, ipaddress, enum, dataclasses, typing
from typing import Annotated, Any, Literal, NamedTuple, Optional, Union
from strong_typing.auxiliary import *
from strong_typing.auxiliary import Alias, IntegerRange, MaxLength, MinLength, Precision, SpecialConversion
from pbt.world import Mark
NoneType = type(None)
class E4(enum.Enum):
    A = "a"
    B = "b"
    C = "c"
    D = "d"
class E5(str, enum.Enum):
    A = "a"
    B = "b."
    C = "c"
    D = "d"
    E = "e"
class EI(enum.IntEnum):
    X = 3
    Y = 1
    Z = 3
class EF(enum.Enum):
    X = 0.5
    Y = 1.25
class EB(enum.Enum):
    X = True
@dataclasses.dataclass
class Empty:
    pass
@dataclasses.dataclass
class Other:
    other: int = 4
"""


def at_positions() -> list[Any]:
    result = [(p, leaf) for p in [*POSITIONS, *MEMBERS] for leaf in TABLE]
    return [c for c in result if sensible(*c)]


def sensible(position: str, leaf: str) -> bool:
    if leaf == "NoneType" and ("Optional" in position or position == "list['{}']"):
        return False
    if leaf == "Any" and "Optional" in position:
        return False
    if leaf.startswith("type[") and position == "{}":
        return True
    if ("Annotated[{}" in position or "Annotated[Optional[{}" in position) and leaf in AUX_BASE:
        return False  # may be shown by its format or by its range
    if position.startswith("list['") and (not leaf.isidentifier() or leaf == "NoneType"):
        return False  # a reference by any other name is a class that may appear by reference
    return True


def run_table(case: Any, stats: Stats) -> None:
    position, leaf = case[:2]
    leaf_schema = case[2] if len(case) > 2 else TABLE[leaf]
    import sys
    import types

    name = "vt_table"
    module = types.ModuleType(name)
    sys.modules[name] = module
    try:
        exec(compile(CLASSES, name, "exec", dont_inherit=True), module.__dict__)
        text = position.replace("{}", leaf)
        if position in MEMBERS:
            exec(
                compile(f"@dataclasses.dataclass\nclass Holder:\n    {text}\n", name, "exec", dont_inherit=True), module.__dict__
            )
            expected = {"type": "object", **MEMBERS[position](leaf_schema), "additionalProperties": False}
            text = "Holder"
        else:
            if "list['" in position:
                exec(
                    compile(f"@dataclasses.dataclass\nclass Holder:\n    m: {text}\n", name, "exec", dont_inherit=True),
                    module.__dict__,
                )
                expected = {
                    "type": "object", "properties": {"m": POSITIONS[position](leaf_schema)}, "additionalProperties": False, "required": ["m"]
                }
                text = "Holder"
            else:
                expected = POSITIONS[position](leaf_schema)
        typ = eval(text, module.__dict__)
        if typ is None:
            typ = type(None)
        schema = dict(must(classdef_to_schema, typ))
        schema.pop("$schema")
        if position == "list['{}']" and "definitions" in schema:
            schema = inline(schema, schema.pop("definitions"))
        same_pattern(expected, schema, position)
        # same names, same kinds of numbers; the order of keys is of no importance
        require(json_equal(expected, schema), lambda: f"schema of {text} with {case} is {short(schema, 900)} rather than {short(expected, 900)}")
    finally:
        sys.modules.pop(name, None)
    stats.label("position:" + position, "leaf:" + (leaf if len(case) == 2 else "generated"))
    stats.nontrivial(position != "{}" or len(case) > 2)


def inline(schema: Any, definitions: dict[str, Any]) -> Any:
    if isinstance(schema, dict):
        if set(schema) == {"$ref"}:
            return inline(definitions[schema["$ref"].rpartition("/")[2]], definitions)
        return {k: inline(v, definitions) for k, v in schema.items()}
    if isinstance(schema, list):
        return [inline(x, definitions) for x in schema]
    return schema


def same_pattern(expected: Any, schema: Any, where: str) -> None:
    "Accepts any pattern that admits the same names."

    if isinstance(expected, dict) and isinstance(schema, dict):
        for k, v in expected.items():
            if k == "propertyNames" and k in schema:
                try:
                    check_pattern(schema[k].get("pattern", "("), ["a", "b.", "c", "d", "e"], where)
                except Mismatch as ex:
                    raise Violation(str(ex)) from None
                schema[k] = v
            else:
                same_pattern(v, schema.get(k), where)
    elif isinstance(expected, list) and isinstance(schema, list):
        for a, b in zip(expected, schema):
            same_pattern(a, b, where)


def table_cases() -> Any:
    return st.sampled_from(at_positions())


@st.composite
def constraint_cases(draw: Any) -> Any:
    "Annotations with any values, in any order, next to others that mean nothing in a schema, or nested."

    g = Gen(draw)
    notes: list[tuple[str, dict[str, Any]]] = []
    kind = g.pick(["int", "str", "float", "literal"])
    if kind == "literal":
        pool: Any = g.pick([["a", "", "é", "x y", "'", '"', "\\", "\n", "A", "0"], [0, 1, -1, 2**40, 7], [True, False]])
        values = g.sample(pool, 1, min(5, len(pool)))
        values.sort(key=pool.index)  # `typing` may give back an equal literal it has seen before, with values in that order
        schema = {"type": {str: "string", int: "integer", bool: "boolean"}[type(values[0])]}
        schema.update({"enum": values} if len(values) > 1 else {"const": values[0]})
        text = f"Literal[{', '.join(map(repr, values))}]"
    else:
        if kind == "int":
            lo = g.pick([0, -1, 1, -128, -(2**31), -(2**63), 2**31, g.int(-1000, 1000)])
            hi = lo + g.pick([0, 1, 255, 2**32 - 1, 2**64 - 1, g.int(0, 1000)])
            notes.append((f"IntegerRange({lo}, {hi})", {"minimum": lo, "maximum": hi}))
        elif kind == "str":
            lo = g.int(0, 6)
            pairs = [(f"MinLength({lo})", {"minLength": lo}), (f"MaxLength({lo + g.int(0, 9)})", {})]
            pairs[1] = (pairs[1][0], {"maxLength": int(pairs[1][0][10:-1])})
            notes += g.sample(pairs, 1, 2)
        else:
            decimals = g.int(0, 6)
            total = decimals + g.int(0, 9)
            whole = 10 ** (total - decimals)
            note = f"Precision({total}, {decimals})" if decimals or g.chance(1, 2) else f"Precision({total})"
            notes.append((note, {"multipleOf": 10**-decimals, "exclusiveMinimum": -whole, "exclusiveMaximum": whole}))
            kind = g.pick(["float", "float", "decimal.Decimal"])
        schema = {"type": {"int": "integer", "str": "string"}.get(kind, "number")}
        for _, keys in notes:
            schema.update(keys)
        extra = [(n, {}) for n in g.sample(["Mark(0)", "Mark('x')", "'text'", "5", "None", "SpecialConversion()", "Alias('unused')"], 0, 2)]
        for note in extra:
            if not note[0].startswith("Alias"):
                notes.insert(g.int(0, len(notes)), note)
        texts = [n for n, _ in notes]
        cut = g.int(0, len(texts) - 1)
        text = kind
        for group in (texts[:cut], texts[cut:]):
            if group:
                text = f"Annotated[{text}, {', '.join(group)}]"
    positions = [p for p in [*POSITIONS, *MEMBERS] if sensible(p, text)]
    return (g.pick(positions), text, schema)


PARTS = [
    Part("documented types", cases, run, quick=8000, thorough=80000),
    Part("declarations", declared_cases, run, quick=2000, thorough=30000),
    Part("table", table_cases, run_table, quick=len(at_positions()), thorough=len(at_positions()), exhaustive=at_positions),
    Part("constraints", constraint_cases, run_table, quick=2500, thorough=30000),
]
