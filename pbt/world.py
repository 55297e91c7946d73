"""
Generated programs: classes and types described by plain literals, and a reference model of their JSON conversion.

A *universe* is `{"mods": [future_flag, ...], "classes": [class_spec, ...]}`; `World` turns it into real modules and
classes. Types and values are nested tuples, lists and dictionaries of literals (see `render` and `World.build`), such
that every generated case can be written to a replay file with `repr` and read back with `ast.literal_eval`.

Nothing in here calls the conversion functions of the library: encoding, decoding and comparison are written anew.
"""

import base64
import dataclasses
import datetime
import enum
import ipaddress
import itertools
import keyword
import math
import re
import sys
import types
import typing
import uuid
from typing import Any, Optional

from strong_typing import auxiliary, core

Spec = Any  # a type as a nested tuple of literals

_counter = itertools.count()


@auxiliary.typeannotation
class Mark:
    "A user-defined annotation without a meaning to the library."

    value: Any


class Reject(Exception):
    "The reference model refuses the document; `kind` is one of key, type, value."

    def __init__(self, kind: str, where: str = "", name: Optional[str] = None) -> None:
        super().__init__(f"{kind} error {where}")
        self.kind = kind
        self.name = name


class Gray(Exception):
    "The property makes no claim about the document."


class Bag(list):
    "JSON array whose order is not specified."


class Unordered(dict):  # type: ignore
    "JSON object whose member order is not specified."


class Duration:
    "JSON string that is a duration of a given length."

    def __init__(self, value: datetime.timedelta) -> None:
        self.value = value

    def __repr__(self) -> str:
        return f"Duration({self.value!r})"


class OneOfTexts:
    "JSON string with more than one permitted form."

    def __init__(self, *texts: str) -> None:
        self.texts = texts

    def __repr__(self) -> str:
        return f"OneOfTexts{self.texts!r}"


LEAF_SOURCE = {
    "none": "None",
    "bool": "bool",
    "int": "int",
    "float": "float",
    "str": "str",
    "bytes": "bytes",
    "datetime": "datetime.datetime",
    "date": "datetime.date",
    "time": "datetime.time",
    "timedelta": "datetime.timedelta",
    "uuid": "uuid.UUID",
    "ipv4": "ipaddress.IPv4Address",
    "ipv6": "ipaddress.IPv6Address",
    "json": "JsonType",
    "sjson": "StrictJsonType",
    "jobj": "JsonObject",
    "jarr": "JsonArray",
}

AUX_BASE = {
    "int8": "int",
    "int16": "int",
    "int32": "int",
    "int64": "int",
    "uint8": "int",
    "uint16": "int",
    "uint32": "int",
    "uint64": "int",
    "float32": "float",
    "float64": "float",
}

AUX_RANGE = {
    f"{'' if signed else 'u'}int{bits}": ((-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if signed else (0, (1 << bits) - 1))
    for signed in (True, False)
    for bits in (8, 16, 32, 64)
}

TEXTUAL = {"bytes", "datetime", "date", "time", "timedelta", "uuid", "ipv4", "ipv6"}


def annotation_source(a: tuple[Any, ...]) -> str:
    kind, args = a[0], a[1:]
    name = {
        "range": "IntegerRange",
        "minlen": "MinLength",
        "maxlen": "MaxLength",
        "prec": "Precision",
        "mark": "Mark",
        "alias": "Alias",
        "special": "SpecialConversion",
    }[kind]
    return f"{name}({', '.join(repr(x) for x in args)})"


def alias_of(spec: Spec) -> Optional[str]:
    "First alias annotation at the outermost level."

    if spec[0] == "ann":
        inner = alias_of(spec[1])  # `Annotated[Annotated[T, a], b]` is `Annotated[T, a, b]`
        if inner is not None:
            return inner
        for a in spec[2]:
            if a[0] == "alias":
                return a[1]
    return None


def json_name(name: str, spec: Spec) -> str:
    alias = alias_of(spec)
    if alias is not None:
        return alias
    if name.endswith("_") and name[:-1] in keyword.kwlist:
        return name[:-1]
    return name


def strip_ann(spec: Spec) -> Spec:
    while spec[0] == "ann":
        spec = spec[1]
    return spec


def is_json(spec: Spec) -> bool:
    "True if the type stands for any JSON value."

    return spec == ("leaf", "json") or spec == ("leaf", "sjson")


def any_null(doc: Any) -> bool:
    if isinstance(doc, dict):
        return any(map(any_null, doc.values()))
    if isinstance(doc, list):
        return any(map(any_null, doc))
    return doc is None


def is_optional(spec: Spec) -> bool:
    "True if the member is optional (`Optional[T]`, or a union with `None`)."

    spec = strip_ann(spec)
    return spec[0] == "opt" or spec == ("leaf", "json") or spec[0] == "rec" and expand_rec(spec)[0] == "opt"


def unwrap_optional(spec: Spec) -> Spec:
    spec = strip_ann(spec)
    if spec[0] == "rec":
        spec = expand_rec(spec)
    if spec[0] == "opt":
        return spec[1]
    return spec


def expand_rec(spec: Spec) -> Spec:
    """
    What the name of a recursive type alias stands for.

    The specification is `("rec", name, table)` in which the table lists the aliases of the module as name, kind, and the
    name that the alias refers to.
    """

    _, name, table = spec
    _, kind, other = next(x for x in table if x[0] == name)
    item = ("rec", other, table)
    if kind == "list":
        return ("list", item)
    if kind == "dict":
        return ("dict", item)
    if kind == "union":
        return ("union", [("leaf", "int"), ("list", item)], "U")
    return ("opt", ("dict", item), "O")


ALIAS_SOURCE = {
    "list": "list['{0}']",
    "dict": "dict[str, '{0}']",
    "union": "Union[int, list['{0}']]",
    "optional": "Optional[dict[str, '{0}']]",
}


def subspecs(spec: Spec) -> list[Spec]:
    kind = spec[0]
    if kind in ("list", "set", "dict", "opt", "ann", "vtuple", "fset"):
        return [spec[1]]
    if kind == "edict":
        return [spec[2]]
    if kind in ("tuple", "union"):
        return list(spec[1])
    return []


def walk(spec: Spec) -> typing.Iterator[Spec]:
    yield spec
    for s in subspecs(spec):
        yield from walk(s)


def depth_of(spec: Spec) -> int:
    return 1 + max((depth_of(s) for s in subspecs(spec)), default=0)


# what else the body of a class may have, without an effect on its members
EXTRAS: dict[str, list[str]] = {
    "method": ["def area_of(self):", "    return 1"],
    "property": ["@property", "def extent_of(self):", "    return 1"],
    "static": ["@staticmethod", "def make_one():", "    return 1"],
    "class": ["@classmethod", "def make_two(cls):", "    return cls"],
    "text": ["def __str__(self):", "    return 'text'"],
    "constant": ["LIMIT_OF = 10"],
    "inner": ["class InnerOf:", "    pass"],
    "post": ["def __post_init__(self):", "    pass"],
}


class World:
    "Modules and classes made from a universe."

    def __init__(self, universe: dict[str, Any]) -> None:
        # `typing` keeps special forms by equality, which for unions ignores the order of members
        for cleanup in typing._cleanups:  # type: ignore
            cleanup()
        self.universe = universe
        self.specs: list[dict[str, Any]] = universe["classes"]
        self.tag = next(_counter)
        self.modules: list[types.ModuleType] = []
        self.classes: list[type] = []
        for index, _ in enumerate(universe["mods"]):
            name = f"vt{self.tag}_{index}"
            module = types.ModuleType(name)
            sys.modules[name] = module
            module.__dict__.update(
                typing=typing,
                datetime=datetime,
                uuid=uuid,
                ipaddress=ipaddress,
                enum=enum,
                dataclasses=dataclasses,
                Annotated=typing.Annotated,
                Any=typing.Any,
                Literal=typing.Literal,
                NamedTuple=typing.NamedTuple,
                Optional=typing.Optional,
                Union=typing.Union,
                JsonType=core.JsonType,
                StrictJsonType=core.StrictJsonType,
                JsonObject=core.JsonObject,
                JsonArray=core.JsonArray,
                IntegerRange=auxiliary.IntegerRange,
                MinLength=auxiliary.MinLength,
                MaxLength=auxiliary.MaxLength,
                Precision=auxiliary.Precision,
                Alias=auxiliary.Alias,
                SpecialConversion=auxiliary.SpecialConversion,
                Mark=Mark,
                _D={},
            )
            for aux in AUX_BASE:
                module.__dict__[aux] = getattr(auxiliary, aux)
            for alias, kind, other in universe.get("rec", {}).get(index, ()):
                module.__dict__[alias] = eval(ALIAS_SOURCE[kind].format(other), module.__dict__)
            self.modules.append(module)
        try:
            for index in range(len(self.specs) - universe.get("late", 0)):
                self._declare(index)
        except Exception:
            self.close()
            raise

    def close(self) -> None:
        for module in self.modules:
            sys.modules.pop(module.__name__, None)

    def __enter__(self) -> "World":
        return self

    def __exit__(self, *args: Any) -> None:
        self.close()

    # --- classes ---

    def define_late(self) -> None:
        "Declares the classes that were left out at first."

        for index in range(len(self.classes), len(self.specs)):
            self._declare(index)

    def class_name(self, index: int, mod: int) -> str:
        spec = self.specs[index]
        if spec.get("local") is not None:  # same `__name__` and `__module__` as another class
            return f"L{spec['local']}_{spec['name']}"
        return spec["name"] if spec["mod"] == mod else f"m{spec['mod']}_{spec['name']}"

    def source(self, index: int) -> str:
        "Python source of a class."

        spec = self.specs[index]
        mod = spec["mod"]
        kind = spec["k"]
        name = spec["name"]
        lines: list[str] = []
        body: list[str] = []
        if spec.get("doc") is not None:
            body.append(repr(spec["doc"]))
        if kind == "enum":
            base = {"Enum": "enum.Enum", "IntEnum": "enum.IntEnum", "StrMix": "str, enum.Enum", "StrEnum": "enum.StrEnum"}[
                spec["base"]
            ]
            lines.append(f"class {name}({base}):")
            body.extend(f"{n} = {v!r}" for n, v in spec["members"])
        else:
            bases: list[str] = []
            if spec.get("base") is not None:
                bases.append(self.class_name(spec["base"], mod))
            elif kind == "nt":
                bases.append("NamedTuple")
            elif kind == "exc":
                bases.append("Exception")
            if kind == "dc":
                opts = ", ".join([*(f"{o}=True" for o in ("frozen", "slots", "kw_only") if spec.get(o)), *spec.get("o", ())])
                lines.append(f"@dataclasses.dataclass({opts})")
            lines.append(f"class {name}({', '.join(bases)}):")
            for f in spec["fields"]:
                text = self.annotation(f["t"], mod, bool(f.get("q")))
                default = f.get("d")
                key = f"{name}.{f['n']}"
                options = list(f.get("o", ()))
                if default is None:
                    suffix = ""
                elif default[0] == "null":
                    suffix = " = None"
                    options = ["default=None", *options] if options else []
                elif default[0] == "val":
                    suffix = f" = _D[{key!r}]"
                    options = [f"default=_D[{key!r}]", *options] if options else []
                else:
                    options = [f"default_factory=_D[{key!r}]", *options]
                if options:
                    suffix = f" = dataclasses.field({', '.join(options)})"
                body.append(f"{f['n']}: {text}{suffix}")
        for extra in spec.get("x", ()):
            body.extend(EXTRAS[extra])
        if spec.get("src"):
            body.extend(spec["src"])
        lines.extend("    " + line for line in body or ["pass"])
        return "\n".join(lines) + "\n"

    def _declare(self, index: int) -> None:
        spec = self.specs[index]
        mod = spec["mod"]
        module = self.modules[mod]
        if spec["k"] != "enum":
            for f in spec["fields"]:
                default = f.get("d")
                if default is not None and default[0] != "null":
                    key = f"{spec['name']}.{f['n']}"
                    if default[0] == "val":
                        module.__dict__["_D"][key] = self.build(f["t"], default[1])
                    else:
                        module.__dict__["_D"][key] = self.factory(f["t"], default[1])
        flags = 0
        if self.universe["mods"][mod]:
            import __future__

            flags = __future__.annotations.compiler_flag
        code = compile(self.source(index), module.__name__, "exec", flags=flags, dont_inherit=True)
        before = module.__dict__.get(spec["name"])
        exec(code, module.__dict__)
        cls = module.__dict__[spec["name"]]
        self.classes.append(cls)
        if spec.get("local") is not None:
            if before is None:
                del module.__dict__[spec["name"]]
            else:
                module.__dict__[spec["name"]] = before
            for m in self.modules:
                m.__dict__[self.class_name(index, 0)] = cls
            return
        for other, m in enumerate(self.modules):
            if other != mod:
                m.__dict__[self.class_name(index, other)] = cls

    def factory(self, spec: Spec, value: Any) -> Any:
        return lambda: self.build(spec, value)

    def fields(self, index: int) -> list[dict[str, Any]]:
        "All fields of a class (inherited first), as declared most recently."

        spec = self.specs[index]
        result: dict[str, dict[str, Any]] = {}
        if spec.get("base") is not None and spec["k"] != "enum":
            for f in self.fields(spec["base"]):
                result[f["n"]] = f
        for f in spec["fields"]:
            result[f["n"]] = f
        return list(result.values())

    def ordered_fields(self, index: int) -> list[dict[str, Any]]:
        return self.fields(index)

    # --- types ---

    def annotation(self, spec: Spec, mod: int, quoted: bool = False) -> str:
        future = self.universe["mods"][mod]
        text = self.render(spec, mod, quoted or future)
        if quoted and not future:
            return repr(text)
        return text

    def render(self, spec: Spec, mod: int, plain: bool = False) -> str:
        "Python source of a type; `plain` means that the whole text is evaluated lazily and needs no quotes inside."

        kind = spec[0]
        sub = lambda s: self.render(s, mod, plain)  # noqa: E731
        if kind == "leaf":
            return LEAF_SOURCE[spec[1]]
        if kind == "aux":
            return spec[1]
        if kind in ("raw", "rec"):  # Python source
            return spec[1]
        if kind in ("list", "set"):
            return f"{kind}[{sub(spec[1])}]"
        if kind == "fset":
            return f"frozenset[{sub(spec[1])}]"
        if kind == "vtuple":
            return f"tuple[{sub(spec[1])}, ...]"
        if kind == "dict":
            return f"dict[str, {sub(spec[1])}]"
        if kind == "edict":
            return f"dict[{self.class_name(spec[1], mod)}, {sub(spec[2])}]"
        if kind == "tuple":
            return f"tuple[{', '.join(sub(s) for s in spec[1]) or '()'}]"
        if kind == "opt":
            inner = sub(spec[1])
            style = spec[2]
            if style in "PQ" and (inner.startswith(("'", '"')) or spec[1][0] == "union" and self.has_bare_forward(spec[1])):
                style = "V" if style == "Q" else "O"  # the order of the members is kept
            return {
                "O": f"Optional[{inner}]",
                "U": f"Union[{inner}, None]",
                "V": f"Union[None, {inner}]",
                "P": f"{inner} | None",
                "Q": f"None | {inner}",
            }[style]
        if kind == "union":
            members = [sub(s) for s in spec[1]]
            if spec[2] == "P" and not (not plain and self.has_bare_forward(spec)):
                return " | ".join(members)
            return f"Union[{', '.join(members)}]"
        if kind == "literal":
            return f"Literal[{', '.join(repr(v) for v in spec[1])}]"
        if kind == "elit":
            cls = self.class_name(spec[1], mod)
            return f"Literal[{', '.join(f'{cls}.{n}' for n in spec[2])}]"
        if kind == "ann":
            return f"Annotated[{sub(spec[1])}, {', '.join(annotation_source(a) for a in spec[2])}]"
        if kind == "cls":
            name = self.class_name(spec[1], mod)
            return repr(name) if spec[2] and not plain else name
        raise ValueError(spec)

    @staticmethod
    def has_bare_forward(union: Spec) -> bool:
        return any(s[0] == "cls" and s[2] for s in union[1])

    def type(self, spec: Spec, mod: int = 0, plain: bool = False) -> Any:
        "The Python type object as evaluated in a module."

        text = self.render(spec, mod, plain)
        if text == "None":
            return type(None)
        return eval(text, self.modules[mod].__dict__)

    def flat_members(self, spec: Spec) -> list[Spec]:
        "Members of a union as Python sees them, with nested unions expanded."

        if spec[0] == "union":
            return [m for s in spec[1] for m in self.flat_members(s)]
        if spec[0] == "opt":
            inner = self.flat_members(spec[1])
            none = ("leaf", "none")
            return [none, *inner] if spec[2] in "VQ" else [*inner, none]
        return [spec]

    def hashable(self, spec: Spec, seen: frozenset[int] = frozenset()) -> bool:
        kind = spec[0]
        if kind in ("list", "set", "dict", "edict") or is_json(spec) or kind == "rec":
            return False
        if kind == "cls":
            if spec[1] >= len(self.specs):  # not yet declared
                return False
            if spec[1] in seen:
                return True
            seen = seen | {spec[1]}
            c = self.specs[spec[1]]
            if c["k"] == "enum":
                return True
            if c["k"] == "dc":
                return bool(c.get("frozen")) and all(self.hashable(f["t"], seen) for f in self.fields(spec[1]))
            if c["k"] == "nt":
                return all(self.hashable(f["t"], seen) for f in self.fields(spec[1]))
            return False  # identity semantics
        return all(self.hashable(s, seen) for s in subspecs(spec))

    # --- values ---

    def build(self, spec: Spec, v: Any) -> Any:
        "The Python object for a value description."

        kind = spec[0]
        if kind == "leaf":
            return build_leaf(spec[1], v)
        if kind == "aux":
            return v
        if kind == "list":
            return [self.build(spec[1], x) for x in v]
        if kind == "vtuple":
            return tuple(self.build(spec[1], x) for x in v)
        if kind == "set":
            return set(self.build(spec[1], x) for x in v)
        if kind == "dict":
            return {k: self.build(spec[1], x) for k, x in v}
        if kind == "edict":
            cls = self.classes[spec[1]]
            return {cls[k]: self.build(spec[2], x) for k, x in v}  # type: ignore
        if kind == "tuple":
            return tuple(self.build(s, x) for s, x in zip(spec[1], v))
        if kind == "opt":
            return None if v is None else self.build(spec[1], v[0])
        if kind == "union":
            return self.build(spec[1][v[0]], v[1])
        if kind == "literal":
            return spec[1][v]
        if kind == "elit":
            return self.classes[spec[1]][spec[2][v]]  # type: ignore
        if kind == "ann":
            return self.build(spec[1], v)
        if kind == "cls":
            return self.build_class(spec[1], v)
        if kind == "rec":
            return self.build(expand_rec(spec), v)
        raise ValueError(spec)

    def build_class(self, index: int, v: Any) -> Any:
        spec = self.specs[index]
        cls = self.classes[index]
        if spec["k"] == "enum":
            return cls[v]  # type: ignore
        values = {f["n"]: self.build(f["t"], v[f["n"]]) for f in self.fields(index)}
        return self.make(index, values)

    def make(self, index: int, values: dict[str, Any]) -> Any:
        kind = self.specs[index]["k"]
        cls = self.classes[index]
        if kind == "dc":
            late = {f["n"] for f in self.fields(index) if "init=False" in f.get("o", ())}
            obj = cls(**{n: v for n, v in values.items() if n not in late})
            for n in late:
                object.__setattr__(obj, n, values[n])
            return obj
        if kind == "nt":
            return cls(**values)
        obj = cls.__new__(cls)
        for name, value in values.items():
            setattr(obj, name, value)
        return obj

    # --- reference encoding ---

    def encode(self, spec: Spec, v: Any) -> Any:
        "The documented JSON for a value description."

        kind = spec[0]
        if kind == "leaf":
            return encode_leaf(spec[1], v)
        if kind == "aux":
            return v
        if kind == "list":
            return [self.encode(spec[1], x) for x in v]
        if kind == "set":
            items: list[Any] = []
            seen: set[Any] = set()
            for x in v:
                obj = self.build(spec[1], x)
                if obj not in seen:
                    seen.add(obj)
                    items.append(self.encode(spec[1], x))
            return Bag(items)
        if kind == "dict":
            return {k: self.encode(spec[1], x) for k, x in v}
        if kind == "edict":
            cls = self.classes[spec[1]]
            return {cls[k].value: self.encode(spec[2], x) for k, x in v}  # type: ignore
        if kind == "tuple":
            return [self.encode(s, x) for s, x in zip(spec[1], v)]
        if kind == "opt":
            return None if v is None else self.encode(spec[1], v[0])
        if kind == "union":
            return self.encode(spec[1][v[0]], v[1])
        if kind == "literal":
            return spec[1][v]
        if kind == "elit":
            return self.classes[spec[1]][spec[2][v]].value  # type: ignore
        if kind == "ann":
            return self.encode(spec[1], v)
        if kind == "cls":
            c = self.specs[spec[1]]
            if c["k"] == "enum":
                return self.classes[spec[1]][v].value  # type: ignore
            result = {}
            for f in self.fields(spec[1]):
                item = v[f["n"]]
                encoded = self.encode(f["t"], item)
                if encoded is None:  # only `None` is encoded as null
                    continue
                result[json_name(f["n"], f["t"])] = encoded
            return result
        if kind == "rec":
            return self.encode(expand_rec(spec), v)
        raise ValueError(spec)

    # --- reference decoding ---

    def union_tags(self, members: list[Spec]) -> dict[str, list[tuple[int, list[Any]]]]:
        "Literal-typed JSON members common to all classes in a union, with the tag values by member index."

        if not members or not all(m[0] == "cls" or m[0] == "leaf" and not is_json(m) for m in members):
            return {}
        common: Optional[set[str]] = None
        for m in members:
            names = {json_name(f["n"], f["t"]) for f in self.literal_fields(m)}
            common = names if common is None else common & names
        result: dict[str, list[tuple[int, list[Any]]]] = {}
        for name in sorted(common or ()):
            result[name] = []
            for i, m in enumerate(members):
                f = next(f for f in self.literal_fields(m) if json_name(f["n"], f["t"]) == name)
                result[name].append((i, self.literal_values(strip_ann(f["t"]))))
        return result

    def literal_fields(self, member: Spec) -> list[dict[str, Any]]:
        if member[0] != "cls" or self.specs[member[1]]["k"] == "enum":
            return []
        return [f for f in self.fields(member[1]) if strip_ann(f["t"])[0] in ("literal", "elit")]

    def literal_values(self, spec: Spec) -> list[Any]:
        if spec[0] == "literal":
            return list(spec[1])
        return [self.classes[spec[1]][n].value for n in spec[2]]  # type: ignore

    def union_kind(self, spec: Spec) -> str:
        "plain, tagged or ambiguous"

        tags = self.union_tags(self.flat_members(spec))
        for name, by_member in tags.items():
            values = [v for _, vs in by_member for v in vs]
            for i, a in enumerate(values):
                if any(a == b for b in values[:i]):
                    return "ambiguous"
        return "tagged" if tags else "plain"

    def decode(self, spec: Spec, doc: Any, skip: bool = False) -> Any:
        "The documented Python object for a JSON document, or an exception `Reject`."

        kind = spec[0]
        if kind == "leaf":
            return decode_leaf(spec[1], doc)
        if kind == "aux":
            return decode_leaf(AUX_BASE[spec[1]], doc)
        if kind == "list":
            if type(doc) is not list:
                raise Reject("type", "list")
            return [self.decode(spec[1], x, skip) for x in doc]
        if kind == "set":
            if type(doc) is not list:
                raise Reject("type", "set")
            return set(self.decode(spec[1], x, skip) for x in doc)
        if kind == "dict":
            if type(doc) is not dict:
                raise Reject("type", "dict")
            return {k: self.decode(spec[1], x, skip) for k, x in doc.items()}
        if kind == "edict":
            if type(doc) is not dict:
                raise Reject("type", "dict")
            result = {}
            by_value = {e.value: e for e in self.classes[spec[1]]}  # type: ignore
            for k, x in doc.items():
                if k not in by_value:
                    raise Reject("value", "enum key")
                result[by_value[k]] = self.decode(spec[2], x, skip)
            return result
        if kind == "tuple":
            if type(doc) is not list:
                raise Reject("type", "tuple")
            if len(doc) != len(spec[1]):
                raise Reject("value", "tuple length")
            return tuple(self.decode(s, x, skip) for s, x in zip(spec[1], doc))
        if kind in ("opt", "union"):
            return self.decode_union(spec, doc, skip)
        if kind == "literal":
            value = decode_leaf(type(spec[1][0]).__name__, doc)
            if not any(type(value) is type(x) and value == x for x in spec[1]):
                raise Reject("type", "literal")
            return value
        if kind == "elit":
            member = self.decode(("cls", spec[1], False), doc)
            allowed = [self.classes[spec[1]][n] for n in spec[2]]  # type: ignore
            if member not in allowed:
                raise Reject("type", "literal")
            return member
        if kind == "ann":
            return self.decode(spec[1], doc, skip)
        if kind == "cls":
            return self.decode_class(spec[1], doc, skip)
        if kind == "rec":
            return self.decode(expand_rec(spec), doc, skip)
        raise ValueError(spec)

    def decode_union(self, spec: Spec, doc: Any, skip: bool) -> Any:
        members = self.flat_members(spec)
        tags = self.union_tags(members)
        if not tags:
            for m in members:
                try:
                    return self.decode(m, doc, skip)
                except Reject:
                    continue
            raise Reject("key", "union")

        if type(doc) is not dict:
            raise Reject("type", "tagged union")
        for name, by_member in tags.items():
            tag = doc.get(name)
            if tag is None:
                continue
            for i, values in by_member:
                for value in values:
                    if not isinstance(tag, (dict, list)) and tag == value:
                        if type(tag) is not type(value):
                            raise Gray()
                        return self.decode(members[i], doc, skip)
            raise Reject("type", "tag")
        raise Reject("type", "tag")

    def decode_class(self, index: int, doc: Any, skip: bool) -> Any:
        spec = self.specs[index]
        if spec["k"] == "enum":
            for e in self.classes[index]:  # type: ignore
                if type(doc) is type(e.value) and doc == e.value:
                    return e
            for e in self.classes[index]:  # type: ignore
                if type(doc) is int and isinstance(e.value, float) and doc == e.value:
                    raise Gray()
            raise Reject("value" if not self.enum_equal(index, doc) else "type", "enum")

        if type(doc) is not dict:
            raise Reject("type", "class")
        values: dict[str, Any] = {}
        names: set[str] = set()
        for f in self.fields(index):
            name = json_name(f["n"], f["t"])
            names.add(name)
            item = doc.get(name)
            default = f.get("d") if spec["k"] == "dc" else None
            if item is not None:
                values[f["n"]] = self.decode(unwrap_optional(f["t"]) if is_optional(f["t"]) else f["t"], item, skip)
            elif default is not None:
                values[f["n"]] = None if default[0] == "null" else self.build(f["t"], default[1])
            elif is_optional(f["t"]):
                values[f["n"]] = None
            elif name in doc:
                raise Reject("value", "required null", name)
            else:
                raise Reject("key", "required missing", name)
        if not skip and any(k not in names for k in doc):
            raise Reject("key", "unassigned", next(k for k in doc if k not in names))
        return self.make(index, values)

    def enum_equal(self, index: int, doc: Any) -> bool:
        return any(doc == e.value for e in self.classes[index])  # type: ignore

    # --- comparison ---

    def same(self, spec: Spec, a: Any, b: Any) -> bool:
        return same(a, b)


TAGGED_KINDS = ("dc", "plain", "exc", "nt")


def offset(us: Optional[int]) -> Optional[datetime.timezone]:
    return None if us is None else datetime.timezone(datetime.timedelta(microseconds=us))


def build_leaf(name: str, v: Any) -> Any:
    if name in ("none", "bool", "int", "float", "str", "bytes"):
        return v
    if name in ("json", "sjson"):
        return clone_json(v)
    if name == "datetime":
        *parts, us = v
        return datetime.datetime(*parts, tzinfo=offset(us))
    if name == "date":
        return datetime.date(*v)
    if name == "time":
        *parts, us = v
        return datetime.time(*parts, tzinfo=offset(us))
    if name == "timedelta":
        return datetime.timedelta(*v)
    if name == "uuid":
        return uuid.UUID(int=v)
    if name == "ipv4":
        return ipaddress.IPv4Address(v)
    if name == "ipv6":
        return ipaddress.IPv6Address(v)
    raise ValueError(name)


def offset_text(us: int) -> str:
    sign = "-" if us < 0 else "+"
    us = abs(us)
    minutes, rest = divmod(us, 60_000_000)
    seconds, micros = divmod(rest, 1_000_000)
    text = f"{sign}{minutes // 60:02d}:{minutes % 60:02d}"
    if seconds or micros:
        text += f":{seconds:02d}"
    if micros:
        text += f".{micros:06d}"
    return text


def time_text(h: int, m: int, s: int, us: int) -> str:
    return f"{h:02d}:{m:02d}:{s:02d}" + (f".{us:06d}" if us else "")


def encode_leaf(name: str, v: Any) -> Any:
    if name in ("none", "bool", "int", "float", "str"):
        return v
    if name in ("json", "sjson"):
        return clone_json(v)
    if name == "bytes":
        return base64.b64encode(v).decode("ascii")
    if name == "datetime":
        y, mo, d, h, mi, s, us, off = v
        if off is None:
            raise Reject("value", "naive timestamp")
        return f"{y:04d}-{mo:02d}-{d:02d}T{time_text(h, mi, s, us)}" + ("Z" if off == 0 else offset_text(off))
    if name == "date":
        return "{:04d}-{:02d}-{:02d}".format(*v)
    if name == "time":
        h, mi, s, us, off = v
        text = time_text(h, mi, s, us)
        if off is None:
            return text
        if off == 0:
            return OneOfTexts(text + "+00:00", text + "Z")
        return text + offset_text(off)
    if name == "timedelta":
        return Duration(datetime.timedelta(*v))
    if name == "uuid":
        h = f"{v:032x}"
        return f"{h[:8]}-{h[8:12]}-{h[12:16]}-{h[16:20]}-{h[20:]}"
    if name == "ipv4":
        return ".".join(str((v >> s) & 255) for s in (24, 16, 8, 0))
    if name == "ipv6":
        return str(ipaddress.IPv6Address(v))
    raise ValueError(name)


DURATION = re.compile(
    r"P(?:(-?\d+)W)?(?:(-?\d+)D)?(?:T(?:(-?\d+)H)?(?:(-?\d+)M)?(?:(-?\d+)(?:\.(\d+))?S)?)?", flags=re.ASCII
)


def parse_duration(text: str) -> Optional[datetime.timedelta]:
    m = DURATION.fullmatch(text)
    if m is None or text == "P" or text.endswith("T"):
        return None
    w, d, h, mi, s = (int(g) if g else 0 for g in m.groups()[:5])
    frac = (m.group(6) or "").ljust(9, "0")
    if len(frac) > 9:
        return None
    ns = int(frac)
    if ns % 1000:
        return None
    try:
        return datetime.timedelta(days=7 * w + d, hours=h, minutes=mi, seconds=s, microseconds=ns // 1000)
    except OverflowError:
        return None


# the form that must be understood (days of a negative duration are negative)
PLAIN_DURATION = re.compile(
    r"P(?!\Z)(?:\d+W)?(?:-?\d+D)?(?:T(?!\Z)(?:\d+H)?(?:\d+M)?(?:\d+(?:\.\d+)?S)?)?", flags=re.ASCII
)
# forms that ISO 8601 or its extensions give a meaning to, and that a lenient reader might understand
ANY_DURATION = re.compile(
    r"[-+]?P(?!\Z)"
    + "".join(rf"(?:[-+]?\d+(?:[.,]\d+)?{u})?" for u in "YMWD")
    + "(?:T(?!\\Z)"
    + "".join(rf"(?:[-+]?\d+(?:[.,]\d+)?{u})?" for u in "HMS")
    + ")?",
    flags=re.ASCII,
)

RE_DATE = re.compile(r"(\d{4})-(\d\d)-(\d\d)", flags=re.ASCII)
RE_TIME = re.compile(r"(\d\d):(\d\d):(\d\d)(?:\.(\d{3}|\d{6}))?(Z|[+-]\d\d:\d\d(?::\d\d(?:\.\d{6})?)?)?", flags=re.ASCII)


def parse_offset(text: Optional[str]) -> Any:
    if text is None:
        return None
    if text == "Z":
        return datetime.timezone.utc
    sign = -1 if text[0] == "-" else 1
    parts = text[1:].split(":")
    micros = round(float(parts[2]) * 1_000_000) if len(parts) > 2 else 0
    total = sign * ((int(parts[0]) * 60 + int(parts[1])) * 60_000_000 + micros)
    if int(parts[1]) > 59 or micros >= 60_000_000:
        raise Gray()
    return datetime.timezone(datetime.timedelta(microseconds=total))


def parse_time_parts(text: str) -> Any:
    m = RE_TIME.fullmatch(text)
    if m is None:
        return None
    us = int((m.group(4) or "0").ljust(6, "0"))
    return int(m.group(1)), int(m.group(2)), int(m.group(3)), us, m.group(5)


def strict_leaf(name: str, text: str) -> Any:
    "Decodes the canonical lexical form of a type, returns None for other strings."

    try:
        if name == "bytes":
            data = base64.b64decode(text, validate=True)
            return data if base64.b64encode(data).decode("ascii") == text else None
        if name == "date":
            m = RE_DATE.fullmatch(text)
            return datetime.date(*(int(g) for g in m.groups())) if m else None
        if name == "time":
            t = parse_time_parts(text)
            return datetime.time(*t[:4], tzinfo=parse_offset(t[4])) if t else None
        if name == "datetime":
            m = RE_DATE.fullmatch(text[:10])
            t = parse_time_parts(text[11:])
            if m is None or t is None or text[10:11] != "T":
                return None
            if t[4] is None:
                return None
            return datetime.datetime(*(int(g) for g in m.groups()), *t[:4], tzinfo=parse_offset(t[4]))  # type: ignore
        if name == "timedelta":
            return parse_duration(text) if PLAIN_DURATION.fullmatch(text) else None
        if name == "uuid":
            value = uuid.UUID(text)
            return value if str(value) == text else None
        if name == "ipv4":
            v4 = ipaddress.IPv4Address(text)
            return v4 if str(v4) == text else None
        if name == "ipv6":
            v6 = ipaddress.IPv6Address(text)
            return v6 if str(v6) == text else None
    except (ValueError, OverflowError):
        return None
    raise ValueError(name)


def loose_leaf(name: str, text: str) -> bool:
    "True if some lenient reader might accept the text."

    try:
        if name == "bytes":
            base64.b64decode(text, validate=True)
        elif name == "date":
            datetime.date.fromisoformat(text)
        elif name == "time":
            datetime.time.fromisoformat(text)
        elif name == "datetime":
            return datetime.datetime.fromisoformat(text).tzinfo is not None
        elif name == "timedelta":
            if re.search(r"\.\d{9}0+S\Z", text):
                return True
            return ANY_DURATION.fullmatch(text) is not None and PLAIN_DURATION.fullmatch(text) is None
        elif name == "uuid":
            uuid.UUID(text)
        elif name == "ipv4":
            ipaddress.IPv4Address(text)
        elif name == "ipv6":
            ipaddress.IPv6Address(text)
        return True
    except (ValueError, OverflowError):
        return False


def decode_leaf(name: str, doc: Any) -> Any:
    if name in ("none", "NoneType"):
        if doc is not None:
            raise Reject("type", "null")
        return None
    if name == "sjson" and any_null(doc):
        raise Reject("key", "null within a JSON value")
    if name in ("json", "sjson"):
        return clone_json(doc)
    if name in ("bool", "int", "str"):
        if type(doc).__name__ != name:
            raise Reject("type", name)
        return doc
    if name == "float":
        if type(doc) is int:
            try:
                return float(doc)
            except OverflowError:
                raise Reject("value", "float range") from None
        if type(doc) is not float:
            raise Reject("type", name)
        return doc
    if type(doc) is not str:
        raise Reject("type", name)
    value = strict_leaf(name, doc)
    if value is not None:
        return value
    if loose_leaf(name, doc):
        raise Gray()
    raise Reject("value", name)


def clone_json(v: Any) -> Any:
    if isinstance(v, list):
        return [clone_json(x) for x in v]
    if isinstance(v, dict):
        return {k: clone_json(x) for k, x in v.items()}
    return v


def concrete(expected: Any) -> Any:
    "Turns a result of `encode` into a plain JSON document."

    if isinstance(expected, Duration):
        td = expected.value
        text = f"P{td.days}DT{td.seconds}"
        return text + (f".{td.microseconds:06d}S" if td.microseconds else "S")
    if isinstance(expected, OneOfTexts):
        return expected.texts[0]
    if isinstance(expected, list):
        return [concrete(x) for x in expected]
    if isinstance(expected, dict):
        return {k: concrete(x) for k, x in expected.items()}
    return expected


def json_same(expected: Any, actual: Any) -> bool:
    "Compares a JSON document to what `encode` expects, with exact types."

    if isinstance(expected, Duration):
        return type(actual) is str and parse_duration(actual) == expected.value
    if isinstance(expected, OneOfTexts):
        return type(actual) is str and actual in expected.texts
    if isinstance(expected, Unordered):
        return (
            type(actual) is dict
            and set(expected) == set(actual)
            and all(json_same(expected[k], actual[k]) for k in expected)
        )
    if isinstance(expected, Bag):
        if type(actual) is not list or len(actual) != len(expected):
            return False
        rest = list(actual)
        for e in expected:
            for i, a in enumerate(rest):
                if json_same(e, a):
                    del rest[i]
                    break
            else:
                return False
        return True
    if type(expected) is not type(actual):
        return False
    if isinstance(expected, list):
        return len(expected) == len(actual) and all(json_same(e, a) for e, a in zip(expected, actual))
    if isinstance(expected, dict):
        return list(expected) == list(actual) and all(json_same(expected[k], actual[k]) for k in expected)
    if isinstance(expected, float):
        return expected == actual and math.copysign(1, expected) == math.copysign(1, actual)
    return bool(expected == actual)


def same(a: Any, b: Any) -> bool:
    "Equality with the same Python types at every level."

    if type(a) is not type(b):
        return False
    if isinstance(a, enum.Enum):
        return a is b
    if isinstance(a, float):
        return a == b and math.copysign(1, a) == math.copysign(1, b)
    if isinstance(a, (datetime.datetime, datetime.time)):
        return a.replace(tzinfo=None) == b.replace(tzinfo=None) and a.utcoffset() == b.utcoffset()
    if isinstance(a, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return (
            len(a) == len(b)
            and all(same(x, y) for x, y in zip(a.keys(), b.keys()))
            and all(same(x, y) for x, y in zip(a.values(), b.values()))
        )
    if isinstance(a, (set, frozenset)):
        if len(a) != len(b):
            return False
        rest = list(b)
        for x in a:
            for i, y in enumerate(rest):
                if same(x, y):
                    del rest[i]
                    break
            else:
                return False
        return True
    if type(a).__module__.startswith("vt"):
        names = member_names(type(a))
        return all(same(getattr(a, n, _MISSING), getattr(b, n, _MISSING)) for n in names) and extras(a, names) == extras(
            b, names
        )
    return bool(a == b)


_MISSING = object()


def member_names(cls: type) -> list[str]:
    names: dict[str, None] = {}
    for base in reversed(cls.__mro__):
        names.update(dict.fromkeys(base.__dict__.get("__annotations__", {})))
    return list(names)


def extras(obj: Any, names: list[str]) -> set[str]:
    return set(getattr(obj, "__dict__", {})) - set(names)


def pure_json(doc: Any) -> Optional[str]:
    "Returns a description of what is not JSON in a document, or None."

    t = type(doc)
    if doc is None or t in (bool, int, float, str):
        return None
    if t is list:
        for x in doc:
            problem = pure_json(x)
            if problem:
                return problem
        return None
    if t is dict:
        for k, x in doc.items():
            if type(k) is not str:
                return f"key of type {type(k).__name__}"
            problem = pure_json(x)
            if problem:
                return problem
        return None
    return f"object of type {t.__module__}.{t.__qualname__}"
