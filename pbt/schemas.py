"""
Reference model of JSON schemas: what the schema of a generated type must look like, and which documents it must admit.

Schemas are compared as (possibly infinite) trees, such that a class that nobody registered may appear in place or by
reference. Nothing in here calls the library.
"""

import math
import re
from typing import Any, Callable, Optional

from .core import short
from .world import (
    AUX_BASE,
    AUX_RANGE,
    Gray,
    Spec,
    World,
    is_optional,
    json_name,
    json_same,
    strict_leaf,
    strip_ann,
    unwrap_optional,
    walk,
)

LEAF_SCHEMA: dict[str, dict[str, Any]] = {
    "none": {"type": "null"},
    "bool": {"type": "boolean"},
    "int": {"type": "integer"},
    "float": {"type": "number"},
    "str": {"type": "string"},
    "bytes": {"type": "string", "contentEncoding": "base64"},
    "datetime": {"type": "string", "format": "date-time"},
    "date": {"type": "string", "format": "date"},
    "time": {"type": "string", "format": "time"},
    "timedelta": {"type": "string", "format": "duration"},
    "uuid": {"type": "string", "format": "uuid"},
    "jobj": {"type": "object"},
    "jarr": {"type": "array"},
    "ipv4": {"type": "string", "format": "ipv4"},
    "ipv6": {"type": "string", "format": "ipv6"},
}

DEFAULT_LEAVES = {"bool", "int", "float", "str", "datetime", "date", "time", "timedelta"}


class Mismatch(Exception):
    pass


def flat_ann(t: Spec) -> tuple[Spec, list[Any]]:
    "Inner type and all annotations in order."

    if t[0] == "ann":
        inner, annots = flat_ann(t[1])
        return inner, [*annots, *t[2]]
    return t, []


def value_type(values: list[Any]) -> str:
    return {bool: "boolean", int: "integer", float: "number", str: "string"}[type(values[0])]


class SchemaModel:
    """
    :param docs: Title, description and member descriptions by class index.
    :param registered: Identifier, user-supplied schema and examples by class index.
    """

    def __init__(
        self,
        w: World,
        docs: Optional[dict[int, Any]] = None,
        registered: Optional[dict[int, Any]] = None,
        path: str = "#/definitions/",
        use_descriptions: bool = True,
        use_examples: bool = True,
        transform: Optional[Callable[[int, str, str], str]] = None,
        extra_defs: Optional[dict[str, Any]] = None,
        registered_types: Optional[list[tuple[Any, dict[str, Any]]]] = None,
    ) -> None:
        self.w = w
        self.docs = docs or {}
        self.registered = registered or {}
        self.path = path
        self.use_descriptions = use_descriptions
        self.use_examples = use_examples
        self.transform = transform
        self.definitions: dict[str, Any] = {}
        self.extra_defs = extra_defs or {}
        self.registered_types = registered_types or []
        self.seen: set[tuple[str, str]] = set()
        self.names: dict[str, int] = {}

    # --- whole documents ---

    def check(self, t: Spec, schema: dict[str, Any], expand: bool = False) -> None:
        """
        Raises `Mismatch` unless a schema is the image of a type.

        :param expand: Whether the type is to be shown in place even if registered.
        """

        keys = ("$schema", "definitions")

        self.definitions = schema.get("definitions", {})
        body = {k: v for k, v in schema.items() if k not in keys}
        if "definitions" in schema and not schema["definitions"]:
            raise Mismatch("empty definitions")
        if expand:
            self.body(t, [], body, {}, "#")
        else:
            self.node(t, body, {}, "#")
        if set(self.names) != set(self.definitions):
            raise Mismatch(f"definitions {sorted(self.definitions)} but used are {sorted(self.names)}")
        if list(self.definitions) != sorted(self.definitions):
            raise Mismatch(f"definitions are not sorted: {list(self.definitions)}")

    def describe(self, index: int) -> dict[str, Any]:
        doc = self.docs.get(index)
        result = {}
        if doc and self.use_descriptions:
            if doc.get("title"):
                result["title"] = doc["title"]
            if doc.get("description"):
                result["description"] = doc["description"]
        return result

    def member_doc(self, index: int, name: str) -> Optional[str]:
        i: Optional[int] = index
        while i is not None:
            text = (self.docs.get(i) or {}).get("params", {}).get(name)
            if text is not None:
                return self.transform(index, name, text) if self.transform else text
            i = self.w.specs[i].get("base")
        return None

    # --- nodes ---

    def same_dict(self, expected: dict[str, Any], actual: dict[str, Any], where: str) -> None:
        if set(expected) != set(actual):
            raise Mismatch(f"{where}: keys {sorted(actual)}, expected {sorted(expected)}")
        for k, v in expected.items():
            a = actual[k]
            if isinstance(v, Choices):
                ok = any(json_same(c, a) for c in v.options)
            elif isinstance(v, SetOf):
                ok = type(a) is list and len(a) == len(v.items) and all(any(json_same(e, x) for x in a) for e in v.items)
            else:
                ok = json_same(v, a)
            if not ok:
                raise Mismatch(f"{where}/{k}: {short(a)}, expected {short(v)}")

    def node(self, t: Spec, actual: Any, extra: dict[str, Any], where: str, expand: bool = False) -> None:
        """
        :param extra: Default and description attached where the type is used.
        :param expand: Whether this is the definition of a registered generic type.
        """

        if type(actual) is not dict:
            raise Mismatch(f"{where}: schema is {short(actual)}")
        inner, annots = flat_ann(t)
        if inner[0] == "leaf" and inner[1] in JSON_NAMES:
            self.reference(JSON_NAMES[inner[1]], None, actual, extra, where)
            return
        for spec in [] if expand else [t, inner] if inner[0] not in ("leaf", "aux") else [t]:
            entry = self.registered_type(spec)
            if entry is None or any(s[0] == "cls" and s[2] for s in walk(spec)) and "$ref" not in actual:
                continue
            self.reference(entry["name"], ("type", spec, entry), actual, extra, where)
            return
        index = inner[1] if inner[0] in ("cls", "elit") else None
        if index is not None and (index in self.registered or "$ref" in actual):
            if inner[0] == "elit":
                extra = {**extra, **self.literal_keys(inner)}
            if index in self.registered:
                self.reference(self.registered[index]["name"], index, actual, extra, where)
            else:
                # the name under which the class is known where it is used
                names = [self.w.class_name(index, m) for m in range(len(self.w.universe["mods"]))]
                used = next((n for n in names if actual["$ref"] == self.path + n), self.w.specs[index]["name"])
                self.reference(used, index, actual, extra, where)
            return
        if "$ref" in actual:
            raise Mismatch(f"{where}: unexpected reference {actual['$ref']}")
        self.body(inner, annots, actual, extra, where)

    def registered_type(self, t: Spec) -> Optional[dict[str, Any]]:
        if self.registered_types and t[0] != "cls":
            typ = self.w.type(t, 0, True)
            for other, entry in self.registered_types:
                if typ == other:
                    return entry
        return None

    def reference(self, name: str, index: Any, actual: dict[str, Any], extra: dict[str, Any], where: str) -> None:
        self.same_dict({"$ref": self.path + name, **extra}, actual, where)
        key: Any = -1 if index is None else index[2]["name"] if type(index) is tuple else index
        other = self.names.setdefault(name, key)
        if other != key:
            raise Mismatch(f"{where}: one name {name} for two types")
        if name not in self.definitions:
            raise Mismatch(f"{where}: no definition for {name}")
        if (name, "") in self.seen:
            return
        self.seen.add((name, ""))
        body = self.definitions[name]
        if index is None:
            wanted = self.extra_defs.get(name)
            if wanted is not None and body != wanted:
                raise Mismatch(f"definition of {name} is {short(body)}")
            return
        entry = index[2] if type(index) is tuple else self.registered.get(index)
        more: dict[str, Any] = {}
        if entry:
            if entry.get("examples") and self.use_examples:
                more["examples"] = entry["examples"]
            if entry.get("schema") is not None:
                own = {} if type(index) is tuple else self.describe(index)
                for k in own:
                    if k in entry["schema"]:
                        own[k] = Choices(own[k], entry["schema"][k])
                self.same_dict({**entry["schema"], **own, **more}, body, f"{name}")
                return
        if type(index) is tuple:
            self.node(index[1], body, more, name, True)
            return
        self.body(("cls", index, False), [], body, more, name)

    def literal_keys(self, t: Spec) -> dict[str, Any]:
        values = list(t[1]) if t[0] == "literal" else [self.w.classes[t[1]][n].value for n in t[2]]  # type: ignore
        if len(values) > 1:
            return {"enum": SetOf(values)}
        return {"const": values[0]}

    def body(self, t: Spec, annots: list[Any], actual: dict[str, Any], extra: dict[str, Any], where: str) -> None:
        kind = t[0]
        expected: dict[str, Any]
        sub: list[tuple[Spec, Any, str]] = []
        if kind == "leaf":
            expected = dict(LEAF_SCHEMA[t[1]])
            for a in annots:
                expected.update(annotation_keys(a))
        elif kind == "aux":
            base = "integer" if AUX_BASE[t[1]] == "int" else "number"
            expected = {"type": base, "format": t[1]}
            if annots and "format" not in actual:
                # annotations on top of an auxiliary type: either view is correct
                expected = {"type": base}
                if base == "integer":
                    expected["minimum"], expected["maximum"] = AUX_RANGE[t[1]]
                for a in annots:
                    expected.update(annotation_keys(a))
        elif kind in ("list", "set"):
            expected = {"type": "array", "items": actual.get("items")}
            if kind == "set":
                expected["uniqueItems"] = True
            sub = [(t[1], actual.get("items"), "items")]
        elif kind == "dict":
            expected = {"type": "object", "additionalProperties": actual.get("additionalProperties")}
            sub = [(t[1], actual.get("additionalProperties"), "additionalProperties")]
        elif kind == "edict":
            values = [e.value for e in self.w.classes[t[1]]]  # type: ignore
            expected = {"type": "object"}
            if len(values) > 4:
                pattern = actual.get("propertyNames", {}).get("pattern", "(")
                check_pattern(pattern, values, where)
                expected["propertyNames"] = {"pattern": pattern}
                expected["additionalProperties"] = actual.get("additionalProperties")
                sub = [(t[2], actual.get("additionalProperties"), "additionalProperties")]
            else:
                properties = actual.get("properties")
                if type(properties) is not dict or set(properties) != set(values):
                    raise Mismatch(f"{where}: properties {short(properties)}, expected {values}")
                expected["properties"] = properties
                expected["additionalProperties"] = False
                sub = [(t[2], v, f"properties/{k}") for k, v in properties.items()]
        elif kind == "tuple":
            items = actual.get("prefixItems", None if t[1] else [])
            if type(items) is not list or len(items) != len(t[1]):
                raise Mismatch(f"{where}: prefixItems {short(items)} for {t}")
            expected = {"type": "array", "minItems": len(t[1]), "maxItems": len(t[1]), **({"prefixItems": items} if "prefixItems" in actual else {})}
            sub = [(s, a, f"prefixItems/{i}") for i, (s, a) in enumerate(zip(t[1], items))]
        elif kind in ("opt", "union"):
            members = list({repr(m): m for m in self.w.flat_members(t)}.values())
            choices = actual.get("oneOf")
            if type(choices) is not list or len(choices) != len(members):
                raise Mismatch(f"{where}: oneOf {short(choices)} for {t}")
            self.members(members, choices, where)
            expected = {"oneOf": choices}
        elif kind == "literal":
            expected = {"type": value_type(t[1]), **self.literal_keys(t)}
        elif kind in ("elit", "cls") and self.w.specs[t[1]]["k"] == "enum":
            values = [e.value for e in self.w.classes[t[1]]]  # type: ignore
            expected = {"type": value_type(values), "enum": SetOf(values), **self.describe(t[1])}
            if kind == "elit":
                expected.update(self.literal_keys(t))
        elif kind == "cls":
            expected = self.class_body(t[1], actual, sub)
        else:
            raise ValueError(t)
        if "description" in extra:
            expected.pop("title", None)
        expected.update(extra)
        self.same_dict(expected, actual, where)
        for s, a, name in sub:
            self.node(s, a, {}, f"{where}/{name}")

    def members(self, members: list[Spec], choices: list[Any], where: str) -> None:
        left = list(choices)
        for m in members:
            problems = []
            for i, a in enumerate(left):
                saved = set(self.seen), dict(self.names)
                try:
                    self.node(m, a, {}, f"{where}/oneOf")
                    del left[i]
                    break
                except Mismatch as ex:
                    self.seen, self.names = saved
                    problems.append(str(ex))
            else:
                raise Mismatch(f"{where}: no alternative for {m}: {problems}")

    def class_body(self, index: int, actual: dict[str, Any], sub: list[Any]) -> dict[str, Any]:
        fields = self.w.fields(index)
        name = self.w.specs[index]["name"]
        expected: dict[str, Any] = {"type": "object", **self.describe(index)}
        if fields or self.w.specs[index]["k"] == "dc":
            expected["additionalProperties"] = False
        if fields:
            properties = actual.get("properties")
            if type(properties) is not dict or set(properties) != {json_name(f["n"], f["t"]) for f in fields}:
                raise Mismatch(f"{name}: properties {short(properties)}")
            expected["properties"] = properties
            for f in fields:
                j = json_name(f["n"], f["t"])
                extra: dict[str, Any] = {}
                default = f.get("d")
                if default is not None and default[0] == "val" and self.is_plain(f["t"], default[1]):
                    extra["default"] = self.w.encode(f["t"], default[1])
                elif default is not None and default[0] == "val" and "default" in properties[j]:
                    extra["default"] = self.w.encode(f["t"], default[1])
                doc = self.member_doc(index, f["n"])
                if doc:
                    extra["description"] = doc
                if strip_ann(f["t"]) == ("leaf", "json"):
                    self.json_member(properties[j], extra, f"{name}/{j}")
                    continue
                if is_optional(f["t"]) and strip_ann(f["t"])[0] == "opt":
                    target = unwrap_optional(f["t"])
                    if f["t"][0] == "ann":
                        target = ("ann", target, flat_ann(f["t"])[1])
                else:
                    target = f["t"]
                self.node(target, properties[j], extra, f"{name}/{j}")
        required = [json_name(f["n"], f["t"]) for f in fields if not is_optional(f["t"])]
        if required:
            expected["required"] = SetOf(required)
        return expected

    def json_member(self, actual: Any, extra: dict[str, Any], where: str) -> None:
        "A JSON value other than null."

        ref: dict[str, Any] = {}
        self.reference("JsonType", None, {"$ref": self.path + "JsonType"}, {}, where)
        ref["$ref"] = self.path + "JsonType"
        items = [{"type": k} for k in ("boolean", "integer", "number", "string")]
        items += [{"type": "object", "additionalProperties": ref}, {"type": "array", "items": ref}]
        self.same_dict({"oneOf": SetOf(items), **extra}, actual, where)

    def is_plain(self, t: Spec, v: Any) -> bool:
        "Whether a default is of a type that has a simple form in JSON."

        kind = t[0]
        if kind == "ann":
            return self.is_plain(t[1], v)
        if kind == "opt":
            return v is not None and self.is_plain(t[1], v[0])
        if kind == "union":
            return self.is_plain(t[1][v[0]], v[1])
        if kind == "leaf":
            return t[1] in DEFAULT_LEAVES
        if kind in ("aux", "literal", "elit"):
            return True
        return bool(kind == "cls" and self.w.specs[t[1]]["k"] == "enum")


# leaf types that are always shown by reference
JSON_NAMES = {"json": "JsonType", "sjson": "StrictJsonType"}


class SetOf:
    def __init__(self, items: list[Any]) -> None:
        self.items = items

    def __repr__(self) -> str:
        return f"items {self.items!r} in some order"


class Choices:
    def __init__(self, *options: Any) -> None:
        self.options = options


def annotation_keys(a: Any) -> dict[str, Any]:
    if a[0] == "range":
        return {"minimum": a[1], "maximum": a[2]}
    if a[0] == "minlen":
        return {"minLength": a[1]}
    if a[0] == "maxlen":
        return {"maxLength": a[1]}
    if a[0] == "prec":
        whole = 10 ** (a[1] - a[2])
        return {"multipleOf": Choices(10 ** -a[2], float(10 ** -a[2])), "exclusiveMinimum": -whole, "exclusiveMaximum": whole}
    return {}


def check_pattern(pattern: Any, values: list[str], where: str) -> None:
    "A pattern must admit exactly the enumeration values."

    if type(pattern) is not str:
        raise Mismatch(f"{where}: pattern {pattern!r}")
    for v in values:
        if not re.search(pattern, v):
            raise Mismatch(f"{where}: pattern {pattern!r} does not admit {v!r}")
        for other in (v + "x", "x" + v, v[1:], v[:-1], v.replace(".", "x"), v.replace("|", ""), v.swapcase()):
            if other not in values and re.search(pattern, other):
                raise Mismatch(f"{where}: pattern {pattern!r} admits {other!r}")


# --- which documents a schema admits ---


def conforms(w: World, t: Spec, doc: Any) -> bool:
    """
    Whether the schema of a type must admit a document.

    Raises `Gray` if the answer depends on how a validator treats formats, or on number representations.
    """

    kind = t[0]
    if kind == "leaf":
        name = t[1]
        if name in JSON_NAMES:
            raise Gray()
        if name == "none":
            return doc is None
        if name == "bool":
            return type(doc) is bool
        if name == "int":
            if type(doc) is float and doc.is_integer():
                raise Gray()
            return type(doc) is int
        if name == "float":
            return type(doc) in (int, float)
        if type(doc) is not str:
            return False
        if name == "str":
            return True
        if strict_leaf(name, doc) is None:
            raise Gray()
        return True
    if kind == "aux":
        if type(doc) is int and t[1] in AUX_RANGE and not AUX_RANGE[t[1]][0] <= doc <= AUX_RANGE[t[1]][1]:
            raise Gray()  # the range may be stated as a format only
        return conforms(w, ("leaf", AUX_BASE[t[1]]), doc)
    if kind == "ann":
        inner, annots = flat_ann(t)
        if not conforms(w, inner, doc):
            return False
        for a in annots:
            if a[0] == "range" and not a[1] <= doc <= a[2]:
                return False
            if a[0] == "minlen" and len(doc) < a[1] or a[0] == "maxlen" and len(doc) > a[1]:
                return False
        return True
    if kind in ("list", "set", "tuple"):
        if type(doc) is not list:
            return False
        if kind == "tuple" and len(doc) != len(t[1]):
            return False
        if kind == "set" and has_duplicates(doc):
            return False
        return every(conforms, [(w, s, x) for s, x in zip(t[1] if kind == "tuple" else [t[1]] * len(doc), doc)])
    if kind == "dict":
        return type(doc) is dict and every(conforms, [(w, t[1], x) for x in doc.values()])
    if kind == "edict":
        if type(doc) is not dict:
            return False
        values = [e.value for e in w.classes[t[1]]]  # type: ignore
        return every(conforms, [(w, t[2], x) for x in doc.values()]) if all(k in values for k in doc) else False
    if kind in ("opt", "union"):
        # alternatives exclude one another
        gray = False
        for m in w.flat_members(t):
            try:
                if conforms(w, m, doc):
                    return True
            except Gray:
                gray = True
        if gray:
            raise Gray()
        return False
    if kind in ("literal", "elit"):
        values = w.literal_values(t)
        return among(doc, values)
    if kind == "cls":
        spec = w.specs[t[1]]
        if spec["k"] == "enum":
            return among(doc, [e.value for e in w.classes[t[1]]])  # type: ignore
        if type(doc) is not dict:
            return False
        fields = w.fields(t[1])
        names = {json_name(f["n"], f["t"]): f for f in fields}
        if any(k not in names for k in doc) and (names or spec["k"] == "dc"):
            return False
        if any(j not in doc for j, f in names.items() if not is_optional(f["t"])):
            return False
        return every(conforms, [(w, member_type(names[k]["t"]), x) for k, x in doc.items() if k in names])
    raise ValueError(t)


def member_type(t: Spec) -> Spec:
    s = strip_ann(t)
    return s[1] if s[0] == "opt" else t


def every(fn: Callable[..., bool], args: list[Any]) -> bool:
    "Conjunction that is false if any part is false, even if others are undecided."

    gray = False
    for a in args:
        try:
            if not fn(*a):
                return False
        except Gray:
            gray = True
    if gray:
        raise Gray()
    return True


def among(doc: Any, values: list[Any]) -> bool:
    for v in values:
        if type(v) is type(doc) and v == doc:
            return True
    if type(doc) in (int, float) and any(type(v) in (int, float) and v == doc for v in values):
        raise Gray()
    return False


def json_equal(a: Any, b: Any) -> bool:
    "Equality of JSON values: numbers by value, booleans are no numbers."

    if type(a) in (int, float) and type(b) in (int, float):
        return bool(a == b)
    if type(a) is not type(b):
        return False
    if isinstance(a, list):
        return len(a) == len(b) and all(map(json_equal, a, b))
    if isinstance(a, dict):
        return set(a) == set(b) and all(json_equal(a[k], b[k]) for k in a)
    return bool(a == b)


def has_duplicates(items: list[Any]) -> bool:
    return any(json_equal(a, b) for i, a in enumerate(items) for b in items[:i])


# --- a small validator of its own ---


def admits(schema: Any, doc: Any, root: Any) -> bool:
    "Validates against the keywords that the library uses; formats are not looked at."

    if schema is True or schema is False:
        return bool(schema)
    if "$ref" in schema:
        ref = schema["$ref"]
        if not ref.startswith("#/definitions/"):
            raise Mismatch(f"reference {ref}")
        name = ref.removeprefix("#/definitions/")
        if name not in root.get("definitions", {}):
            raise Mismatch(f"dangling reference {ref}")
        if not admits(root["definitions"][name], doc, root):
            return False
    types = {
        "null": lambda: doc is None,
        "boolean": lambda: type(doc) is bool,
        "integer": lambda: type(doc) is int or type(doc) is float and doc.is_integer(),
        "number": lambda: type(doc) in (int, float),
        "string": lambda: type(doc) is str,
        "array": lambda: type(doc) is list,
        "object": lambda: type(doc) is dict,
    }
    for k, v in schema.items():
        if k == "type":
            if not types[v]():
                return False
        elif k == "enum":
            if not any(json_equal(x, doc) for x in v):
                return False
        elif k == "const":
            if not json_equal(v, doc):
                return False
        elif k == "oneOf":
            if sum(admits(s, doc, root) for s in v) != 1:
                return False
        elif type(doc) in (int, float):
            if k == "minimum" and doc < v or k == "maximum" and doc > v:
                return False
            if k == "exclusiveMinimum" and doc <= v or k == "exclusiveMaximum" and doc >= v:
                return False
            if k == "multipleOf":
                ratio = doc / v
                if not math.isclose(ratio, round(ratio), abs_tol=1e-9):
                    return False
        elif type(doc) is str:
            if k == "minLength" and len(doc) < v or k == "maxLength" and len(doc) > v:
                return False
            if k == "pattern" and not re.search(v, doc):
                return False
        elif type(doc) is list:
            if k == "items" and not all(admits(v, x, root) for x in doc):
                return False
            if k == "prefixItems" and not all(admits(s, x, root) for s, x in zip(v, doc)):
                return False
            if k == "minItems" and len(doc) < v or k == "maxItems" and len(doc) > v:
                return False
            if k == "uniqueItems" and v and has_duplicates(doc):
                return False
        elif type(doc) is dict:
            if k == "required" and any(n not in doc for n in v):
                return False
            if k == "properties" and not all(admits(s, doc[n], root) for n, s in v.items() if n in doc):
                return False
            if k == "propertyNames" and not all(admits(v, n, root) for n in doc):
                return False
            if k == "additionalProperties":
                known = schema.get("properties", {})
                if not all(admits(v, x, root) for n, x in doc.items() if n not in known):
                    return False
    return True


def references_of(schema: Any) -> list[str]:
    "All reference strings in a schema."

    if isinstance(schema, list):
        return [r for x in schema for r in references_of(x)]
    if isinstance(schema, dict):
        own = [schema["$ref"]] if isinstance(schema.get("$ref"), str) else []
        result = list(own)
        for k, v in schema.items():
            if k in ("default", "examples", "enum", "const", "required"):
                continue
            if k in ("properties", "definitions"):
                for s in v.values():
                    result += references_of(s)
            else:
                result += references_of(v)
        return result
    return []
