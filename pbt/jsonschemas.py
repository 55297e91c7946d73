"""
JSON schemas in (and outside of) the subset from which types can be built, and a model of these types.

Nothing in here calls the library.
"""

import copy
import datetime
import keyword
import re
from typing import Any, Optional

from .core import short
from .docs import paragraph, phrase
from .gen import Gen
from .world import AUX_RANGE, Gray, Reject, parse_duration

DRAFT = "https://json-schema.org/draft/2020-12/schema"
FORMATS = {
    "date-time": ["2023-01-02T03:04:05Z", "1999-12-31T23:59:59.250000Z"],
    "date": ["2024-02-29", "1970-01-01"],
    "time": ["01:02:03+00:00", "23:59:59"],
    "duration": ["PT5S", "P1DT2H"],
    "uuid": ["f81d4fae-7dec-11d0-a765-00a0c91e6bf6"],
    "ipv4": ["192.0.2.1", "0.0.0.0"],
    "ipv6": ["2001:db8::1", "::"],
}
NAMES = "a b c value in from_ class_ None items_per_page élan type properties é1 _x x_ id title ref schema definitions A".split()
DEF_NAMES = ["Node", "Leaf", "A", "B2", "Élan", "Z_9", "int_"]
WORDS = ["one", "two", "x y", "", "_s_", "__d", "mro", "a.b", "a-b", "é", "1", "a|b", "class", "name", "value", "A"]

ANNOTATIONS = {"title", "description"}
COMMON = ANNOTATIONS | {"type", "format"}
KEYS = {
    "boolean": COMMON | {"const", "default", "examples"},
    "integer": COMMON | {"const", "default", "examples", "enum", "minimum", "maximum"},
    "number": COMMON | {"const", "default", "examples", "minimum", "maximum", "exclusiveMinimum", "exclusiveMaximum", "multipleOf"},
    "string": COMMON | {"const", "default", "examples", "enum", "minLength", "maxLength"},
    "array": COMMON | {"items"},
    "object": COMMON | {"properties", "additionalProperties", "required"},
}


class SchemaGen:
    "Draws schemas in the supported subset."

    def __init__(self, g: Gen) -> None:
        self.g = g
        self.defs: list[str] = []
        self.defaults = True

    def schema(self) -> dict[str, Any]:
        g = self.g
        self.defs = g.sample(DEF_NAMES, 0, 3)
        if g.chance(3, 4):
            self.defs.sort()
        definitions = {}
        for name in self.defs:
            kind = g.pick(["object", "object", "enum", "string", "array", "oneof", "scalar"])
            definitions[name] = self.node(3, kind, guarded=kind == "object", top=True)
        result: dict[str, Any] = {"$schema": DRAFT}
        if definitions or g.chance(1, 8):
            result["definitions"] = definitions
        result.update(self.node(3, "object", guarded=True, top=True))
        return result

    def describe(self, node: dict[str, Any], title: bool = True) -> dict[str, Any]:
        g = self.g
        if title and g.chance(1, 3):
            node["title"] = phrase(g)
            if g.chance(1, 2):
                node["description"] = paragraph(g)
        return node

    def node(self, depth: int, kind: Optional[str] = None, guarded: bool = False, top: bool = False) -> dict[str, Any]:
        """
        :param guarded: Whether a reference to a definition that comes later (or is the current one) permits finite values.
        :param top: Whether this is the top-level object or a definition, which cannot have defaults.
        """

        g = self.g
        if kind is None:
            options = ["scalar", "scalar", "string", "string", "enum"]
            if depth > 0:
                options += ["array", "object", "oneof"]
            if self.defs and guarded:
                options += ["ref", "ref"]
            if g.chance(1, 12):
                options = ["any"]
            kind = g.pick(options)
        if kind == "scalar":
            return self.scalar()
        if kind == "string":
            return self.string()
        if kind == "enum":
            node = {"type": "string", "enum": g.sample(WORDS, 1, 5)}
            return self.describe(node)
        if kind == "ref":
            return {"$ref": f"#/definitions/{g.pick(self.defs)}"}
        if kind == "any":
            return {"type": "object"}
        if kind == "array":
            return {"type": "array", "items": self.node(depth - 1, guarded=True)}
        if kind == "oneof":
            # alternatives of different JSON kinds
            kinds = g.sample(["string", "integer", "boolean", "array", "object", "ip"], 1, 4)
            nodes = []
            for k in kinds:
                if k == "integer":
                    nodes.append({"type": "integer"})
                elif k == "boolean":
                    nodes.append({"type": "boolean"})
                elif k == "ip" and "string" not in kinds:
                    nodes += [{"type": "string", "format": "ipv4"}, {"type": "string", "format": "ipv6"}]
                elif k == "string":
                    nodes.append(self.string() if g.chance(2, 3) else self.node(0, "enum"))
                elif k in ("array", "object"):
                    nodes.append(self.node(depth - 1, k))
            return {"oneOf": nodes or [{"type": "string"}]}
        assert kind == "object"
        result: dict[str, Any] = {"type": "object"}
        names = g.sample(NAMES, 0 if g.chance(1, 6) else 1, 5)
        properties: dict[str, Any] = {}
        required = []
        for name in names:
            if keyword.iskeyword(name) and f"{name}_" in properties or name.endswith("_") and name[:-1] in properties:
                continue
            must_have = g.chance(1, 2)
            prop = self.node(depth - 1, guarded=not must_have)
            self.add_default(prop)
            if "$ref" not in prop and not set(prop) & ANNOTATIONS and g.chance(1, 3):
                prop["description"] = phrase(g)
            elif "$ref" in prop and g.chance(1, 3):
                prop["description"] = phrase(g)
            properties[name] = prop
            if must_have:
                required.append(name)
        if properties:
            result["properties"] = properties
        result["additionalProperties"] = False
        if required:
            result["required"] = required
        return self.describe(result)

    def scalar(self) -> dict[str, Any]:
        g = self.g
        kind = g.pick(["integer", "integer", "boolean", "number", "precision", "range", "ienum", "iconst", "bconst"])
        if kind == "integer":
            fmt = g.pick([None, None, "int16", "int32", "int64", "uint8", "int8"])
            return {"type": "integer", "format": fmt} if fmt else {"type": "integer"}
        if kind == "boolean":
            return {"type": "boolean"}
        if kind == "number":
            fmt = g.pick([None, "float32", "float64"])
            return {"type": "number", "format": fmt} if fmt else {"type": "number"}
        if kind == "precision":
            digits = g.int(1, 9)
            decimals = g.int(0, digits)
            whole = 10 ** (digits - decimals)
            if g.chance(1, 3):
                # limits that are not those of a precision
                node: dict[str, Any] = {"type": "number"}
                form = g.pick(["above", "below", "asymmetric", "no step", "closed"])
                if form in ("above", "asymmetric", "no step"):
                    node["exclusiveMinimum"] = g.pick([-10 * whole, 1 - whole, 0]) if form == "asymmetric" else -whole
                if form in ("below", "asymmetric", "no step"):
                    node["exclusiveMaximum"] = whole
                if form == "closed":
                    node.update(minimum=-whole, maximum=whole)
                if form != "no step" and g.chance(3, 4):
                    node["multipleOf"] = 10**-decimals
                if not is_precision(node):
                    return node
            return {"type": "number", "multipleOf": 10**-decimals, "exclusiveMinimum": -whole, "exclusiveMaximum": whole}
        if kind == "range":
            lo, hi = g.pick(EDGES)
            return {"type": "integer", "minimum": lo, "maximum": hi}
        if kind == "ienum":
            lo, hi = g.pick(EDGES)
            return {"type": "integer", "enum": [hi, lo] if g.chance(1, 2) else [lo, hi]}
        if kind == "iconst":
            node = {"type": "integer", "const": g.pick([0, 1, -1, 2**40])}
            if g.chance(1, 4):
                node["enum"] = [node["const"], 5]
            return node
        return {"type": "boolean", "const": g.pick([True, False])}

    def string(self) -> dict[str, Any]:
        g = self.g
        kind = g.pick(["plain", "format", "length", "const"])
        if kind == "plain":
            return {"type": "string"}
        if kind == "format":
            return {"type": "string", "format": g.pick(list(FORMATS))}
        if kind == "const":
            node: dict[str, Any] = {"type": "string", "const": g.pick(WORDS)}
            if g.chance(1, 4):
                node["enum"] = [node["const"], "other"]
            return node
        node = {"type": "string"}
        lo = g.int(0, 3)
        which = g.pick(["both", "min", "max"])
        if which != "max":
            node["minLength"] = lo
        if which != "min":
            node["maxLength"] = lo + g.int(0, 4)
        return node

    def add_default(self, prop: dict[str, Any]) -> None:
        g = self.g
        if "$ref" in prop or "oneOf" in prop or prop["type"] in ("array", "object") or "multipleOf" in prop or not g.chance(1, 3):
            return
        if "minimum" in prop or "enum" in prop and prop["type"] == "integer":
            return
        prop["default"] = Documents(g, {}).make(prop, 1)
        if g.chance(1, 6):
            prop["examples"] = [prop["default"]]


EDGES = [
    (b + d, t + e)
    for b, t in ((-(2**15), 2**15 - 1), (-(2**31), 2**31 - 1), (-(2**63), 2**63 - 1))
    for d, e in ((0, 0), (-1, 0), (0, 1), (5, -7))
] + [(0, 10), (-3, 2**15), (-(2**31) - 1, 3), (2**63, 2**64)]


class Endless(Exception):
    pass


class Documents:
    "Draws documents that conform to a schema in the subset, in the form in which they are written."

    def __init__(self, g: Gen, definitions: dict[str, Any]) -> None:
        self.g = g
        self.definitions = definitions

    def make(self, node: dict[str, Any], depth: int) -> Any:
        g = self.g
        if depth < -12:
            raise Endless()
        if "$ref" in node:
            return self.make(self.definitions[node["$ref"].rpartition("/")[2]], depth - 1)
        if "oneOf" in node:
            return self.make(g.pick(node["oneOf"]), depth - 1)
        if "const" in node:
            return node["const"]
        kind = node["type"]
        if kind == "boolean":
            return g.pick([True, False])
        if kind == "integer":
            if "enum" in node:
                return g.pick(node["enum"])
            if "minimum" in node:
                return g.pick([node["minimum"], node["maximum"]])
            return g.pick([0, 1, -5, 100])
        if kind == "number":
            return g.pick([0.5, -1.25, 3.0])
        if kind == "string":
            if "format" in node:
                return g.pick(FORMATS[node["format"]])
            if "enum" in node:
                return g.pick(node["enum"])
            lo = node.get("minLength", 0)
            hi = node.get("maxLength", lo + 3)
            return "aé\n\"x字"[: 1] * g.int(lo, hi)
        if kind == "array":
            return [self.make(node["items"], depth - 1) for _ in range(g.int(0, 2) if depth > 0 else 0)]
        properties = node.get("properties")
        if properties is None:
            return g.pick([{}, {"x": [1, None]}]) if node.get("additionalProperties") is not False else {}
        required = node.get("required", [])
        return {
            n: self.make(p, depth - 1)
            for n, p in properties.items()
            if n in required or depth > 0 and g.chance(2, 3)
        }


def uses(node: Any, test: Any) -> bool:
    if isinstance(node, dict):
        return test(node) or any(uses(v, test) for v in node.values())
    if isinstance(node, list):
        return any(uses(v, test) for v in node)
    return False


def integer_format(lo: float, hi: float) -> Optional[str]:
    for bits in (16, 32, 64):
        if -(2 ** (bits - 1)) <= lo and hi < 2 ** (bits - 1):
            return f"int{bits}"
    return None


def approximate(node: dict[str, Any], member: bool = False) -> dict[str, Any]:
    """
    The schema of the type that is built from a schema in the subset.

    :param member: Whether this is a property, whose title or description becomes that of a member.
    """

    if "$ref" in node:
        result: dict[str, Any] = {"$ref": node["$ref"]}
    elif "oneOf" in node:
        alternatives: list[Any] = []
        for n in map(approximate, node["oneOf"]):
            if n not in alternatives:
                alternatives.append(n)
        result = {"oneOf": alternatives} if len(alternatives) > 1 else dict(alternatives[0])
    else:
        kind = node["type"]
        result = {"type": kind}
        if "const" in node:
            result["const"] = node["const"]
        elif kind == "boolean":
            pass
        elif kind == "integer":
            fmt = node.get("format")
            if fmt not in ("int16", "int32", "int64"):
                fmt = None
                if "enum" in node:
                    fmt = integer_format(min(node["enum"]), max(node["enum"]))
                elif "minimum" in node and "maximum" in node:
                    fmt = integer_format(node["minimum"], node["maximum"])
            if fmt:
                result["format"] = fmt
        elif kind == "number":
            if is_precision(node):
                result.update({k: v for k, v in node.items() if k in ("exclusiveMinimum", "exclusiveMaximum", "multipleOf")})
            if node.get("format") in ("float32", "float64"):
                result["format"] = node["format"]
        elif kind == "string":
            if node.get("format") in FORMATS:
                result["format"] = node["format"]
            elif "enum" in node:
                result["enum"] = node["enum"]
                if not member:
                    result.update({k: node[k] for k in ANNOTATIONS if k in node})
            else:
                result.update({k: v for k, v in node.items() if k in ("minLength", "maxLength")})
        elif kind == "array":
            result["items"] = approximate(node["items"])
        elif node.get("properties") is None and node.get("additionalProperties") is not False:
            result = {"any": True}
        else:
            if node.get("properties"):
                result["properties"] = {k: approximate(v, True) for k, v in node["properties"].items()}
            result["additionalProperties"] = False
            if node.get("required"):
                result["required"] = node["required"]
            if not member:
                result.update({k: node[k] for k in ANNOTATIONS if k in node})
    if member:
        if "default" in node:
            result["default"] = node["default"]
        text = node.get("title") or node.get("description")
        if text:
            # the description of a member takes precedence over that of its type
            if "$ref" not in result:
                result.pop("title", None)
            result["description"] = text
    return result


class Different(Exception):
    pass


def alike(a: Any, b: Any) -> bool:
    "Equality of JSON values in which a point in time or duration may be written in several ways."

    if isinstance(a, str) and isinstance(b, str):
        if a == b:
            return True
        for parse in (parse_duration, datetime.datetime.fromisoformat, datetime.time.fromisoformat):
            try:
                if parse(a) is not None and parse(a) == parse(b):  # type: ignore
                    return True
            except (ValueError, Reject, Gray):
                pass
        return False
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(map(alike, a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(alike(a[k], b[k]) for k in a)
    return type(a) is type(b) and a == b


def same_tree(a: Any, a_defs: dict[str, Any], b: Any, b_defs: dict[str, Any], seen: Optional[set[Any]] = None, where: str = "#") -> None:
    "Raises `Different` unless two schemas are equal once references are expanded."

    seen = seen if seen is not None else set()
    if a == {"any": True} or isinstance(a, dict) and a.get("any"):
        if b.get("$ref") != "#/definitions/JsonType" and "oneOf" not in b:
            raise Different(f"{where}: {short(b)} rather than a JSON value")
        return
    if "$ref" in a and "$ref" in b:
        key = (a["$ref"], b["$ref"])
        rest_a = {k: v for k, v in a.items() if k != "$ref"}
        rest_b = {k: v for k, v in b.items() if k != "$ref"}
        if key in seen and rest_a == rest_b:
            return
        seen.add(key)
    a, b = expand(a, a_defs), expand(b, b_defs)
    if a.get("any"):
        return same_tree(a, a_defs, b, b_defs, seen, where)
    if "format" in a and "format" not in b and a["type"] in ("integer", "number"):
        # an auxiliary type with an alias on top of it may be shown with its range
        b = dict(b)
        if a["type"] == "number" or (b.pop("minimum", None), b.pop("maximum", None)) == AUX_RANGE.get(a["format"]):
            b["format"] = a["format"]
    if a.get("format") in ("uuid", "ipv4", "ipv6") and "default" not in b:
        # defaults of these types may be left out of a schema
        a = {k: v for k, v in a.items() if k != "default"}
    if set(a) != set(b):
        raise Different(f"{where}: keys {sorted(b)} rather than {sorted(a)}")
    for k in a:
        x, y = a[k], b[k]
        if k == "properties":
            if set(x) != set(y):
                raise Different(f"{where}: properties {sorted(y)} rather than {sorted(x)}")
            for n in x:
                same_tree(x[n], a_defs, y[n], b_defs, seen, f"{where}/{n}")
        elif k == "items":
            same_tree(x, a_defs, y, b_defs, seen, f"{where}/items")
        elif k == "oneOf":
            if len(x) != len(y):
                raise Different(f"{where}: {len(y)} alternatives rather than {len(x)}")
            for i, (m, n) in enumerate(zip(x, y)):
                same_tree(m, a_defs, n, b_defs, seen, f"{where}/{i}")
        elif k in ("required", "enum"):
            if sorted(map(repr, x)) != sorted(map(repr, y)):
                raise Different(f"{where}: {k} {y} rather than {x}")
        elif k in ("multipleOf", "exclusiveMinimum", "exclusiveMaximum"):
            if abs(x - y) > 1e-12:
                raise Different(f"{where}: {k} {y} rather than {x}")
        elif k == "default" and alike(x, y):
            pass
        elif x != y or type(x) is not type(y):
            raise Different(f"{where}: {k} {y!r} rather than {x!r}")


def expand(node: dict[str, Any], definitions: dict[str, Any]) -> dict[str, Any]:
    "Replaces a reference by what it refers to; a description takes the place of a title."

    for _ in range(20):
        if "$ref" not in node:
            return node
        name = node["$ref"].rpartition("/")[2]
        if name not in definitions:
            raise Different(f"reference to {name} but definitions are {sorted(definitions)}")
        rest = {k: v for k, v in node.items() if k != "$ref"}
        target = dict(definitions[name])
        if "description" in rest:
            target.pop("title", None)
            target.pop("description", None)
        node = {**target, **rest}
    raise Different("endless references")


# --- what is outside of the subset ---

OUTSIDE: list[Any] = [
    {"type": "null"},
    {"type": "array"},
    {"type": "array", "items": {"type": "string"}, "uniqueItems": True},
    {"type": "array", "prefixItems": [{"type": "string"}], "minItems": 1, "maxItems": 1},
    {"type": "array", "items": {"type": "string", "default": "x"}},
    {"type": "object", "additionalProperties": {"type": "string"}},
    {"type": "object", "properties": {"x": {"type": "string"}}},
    {"type": "object", "properties": {"x": {"type": "string"}}, "additionalProperties": True},
    {"type": "object", "properties": {"not an identifier": {"type": "string"}}, "additionalProperties": False},
    {"type": "object", "properties": {"$ref": {"type": "string"}}, "additionalProperties": False},
    {"type": "object", "properties": {"": {"type": "string"}}, "additionalProperties": False},
    {"type": "object", "propertyNames": {"pattern": "^(a|b)$"}},
    {"type": "string", "pattern": "^a$"},
    {"type": "string", "contentEncoding": "base64"},
    {"type": "string", "enum": "abc"},
    {"type": "boolean", "enum": [True]},
    {"type": "number", "enum": [0.5]},
    {"type": "integer", "default": "5"},
    {"type": "integer", "default": 1.5},
    {"type": "string", "default": 5},
    {"type": "boolean", "default": "true"},
    {"type": "string", "format": "date", "default": "today"},
    {"type": "string", "enum": ["a", "b"], "default": "c"},
    {"type": "string", "enum": ["a", 1]},
    {"type": "string", "title": 5},
    {"type": ["string", "integer"]},
    {"type": "text"},
    {"anyOf": [{"type": "string"}]},
    {"allOf": [{"type": "string"}]},
    {"oneOf": {"type": "string"}},
    {"oneOf": [{"type": "string", "default": "a"}, {"type": "integer"}]},
    {"oneOf": [{"type": "string"}, {"type": "integer", "default": 1}]},
    {"oneOf": [{"type": "boolean"}, {"type": "string"}, {"type": "integer", "default": 0}]},
    {"oneOf": [{"type": "string"}, {"type": "null"}]},
    {"$ref": "#/definitions/NoSuchDefinition"},
    {"$ref": "#/components/schemas/Node"},
    {"$ref": "other.json#/definitions/Node"},
    {"$ref": "#/definitions/a/b"},
    {"$ref": "#/definitions/"},
    {"$ref": 5},
    {"const": {"type": "string"}},
    {"not": {"type": "string"}},
    {},
    True,
    None,
    "string",
    [{"type": "string"}],
]


def is_precision(node: dict[str, Any]) -> bool:
    "True for a number whose limits and step make a fixed-point type."

    return (
        node.get("format") not in ("float32", "float64")
        and "multipleOf" in node
        and "exclusiveMinimum" in node
        and "exclusiveMaximum" in node
        and node["exclusiveMinimum"] == -node["exclusiveMaximum"]
    )


def schema_positions(node: Any, path: tuple[Any, ...] = ()) -> list[tuple[Any, ...]]:
    "Paths of all sub-schemas."

    result = []
    if isinstance(node, dict):
        for k, v in node.items():
            if k in ("properties", "definitions"):
                for n, s in v.items():
                    result.append((*path, k, n))
                    result += schema_positions(s, (*path, k, n))
            elif k == "items":
                result.append((*path, k))
                result += schema_positions(v, (*path, k))
            elif k == "oneOf":
                for i, s in enumerate(v):
                    result.append((*path, k, i))
                    result += schema_positions(s, (*path, k, i))
    return result


def with_part(schema: Any, path: tuple[Any, ...], part: Any) -> Any:
    result = copy.deepcopy(schema)
    node = result
    for k in path[:-1]:
        node = node[k]
    node[path[-1]] = part
    return result


def json_field(name: str) -> str:
    return name[:-1] if name.endswith("_") and keyword.iskeyword(name[:-1]) else name


def valid_reference(ref: Any) -> bool:
    return isinstance(ref, str) and re.fullmatch(r"#/definitions/\w+", ref) is not None
