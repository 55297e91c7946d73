"C20: doc-strings are checked against, and typed from, the code they describe."

import builtins
import inspect
import itertools
import sys
import types
import typing
from typing import Any

from hypothesis import strategies as st

from strong_typing.docstring import (
    Docstring,
    check_docstring,
    get_docstring,
    get_exceptions,
    has_default_docstring,
    has_docstring,
    parse_text,
    parse_type,
)
from strong_typing.schema import docstring_to_schema, get_class_docstrings

from ..core import Part, Stats, call, must, require, short
from ..docs import compose, phrase
from ..gen import Gen

ID = "C20"
RULE = (
    "A case is a module with exception types and either a chain of data classes (plain, frozen, with slots, keyword-only, "
    "across modules, with members declared again, with and without postponed evaluation of annotations) or a function or "
    "method with parameters of every kind, and a doc-string that documents a drawn set of names, among them names that do not "
    "exist or are inherited, a return value and exceptions, defined or not, shadowed or imported. Parsing must attach the "
    "types that Python reports, or refuse with a type error, exactly as a model on names says; likewise for the strict check. "
    "In the part `helpers`, classes of each kind, functions and modules have a doc-string, one that resembles a generated one, "
    "or none; whether there is one, what it says, and which exceptions a module defines must be told correctly. "
    "Non-trivial: the doc-string has an entry, and there is a parameter or member."
)

_serial = itertools.count()
TYPES = [
    "int", "str", "Optional[int]", "list[str]", "dict[str, int]", "Union[int, str]", "Own", "list[Own]", "Annotated[int, 5]",
    "Literal['a', 1]", "None", "Any", "'Own'", "Color", "tuple[int, Own]", "Callable[[int], str]",
]  # fmt: skip
MEMBERS = ["x", "y", "value", "self", "_p", "naïve", "class_", "args"]
STRANGE = ["nope", "X", "xx", "*args", "**kwargs", "x.y", "__init__"]
HEADER = """
import enum
from dataclasses import dataclass, field
from typing import Annotated, Any, Callable, Literal, Optional, Union
class Own:
    pass
class Color(enum.Enum):
    red = 1
class OwnError(Exception):
    pass
class Interrupt(BaseException):
    pass
Renamed = OwnError
"""
ERRORS = ["OwnError", "Interrupt", "Renamed", "ValueError", "KeyboardInterrupt", "OSError", "IOError", "Warning", "ExceptionGroup"]
NO_ERRORS = ["NoSuchError", "Own", "int", "json.JSONDecodeError", "strong_typing", "Optional", "ownerror", "JsonKeyError", "Hidden"]


@st.composite
def cases(draw: Any) -> Any:
    g = Gen(draw)
    case: dict[str, Any] = {"future": [g.chance(1, 3), g.chance(1, 3)], "shadow": g.chance(1, 4), "late": g.chance(1, 4)}
    if g.chance(1, 2):
        levels = []
        for i in range(g.int(1, 3)):
            names = [n for n in g.sample(MEMBERS, 0, 4) if n != "self"]
            levels.append(
                {
                    "names": names,
                    "types": [g.pick(TYPES) for _ in names],
                    "mod": g.int(0, 1) if i == 0 else 1,
                    "plain": g.chance(1, 6),
                    "opts": g.pick(["", "frozen=True", "kw_only=True", "slots=True", "eq=False"]) if i == 0 else "",
                    "derive": g.chance(4, 5),
                }
            )
        levels[-1]["plain"] = g.chance(1, 12)
        case["levels"] = levels
        known = [n for lv in levels for n in lv["names"]]
        own = levels[-1]["names"]
        kind = g.pick(["own", "some", "any", "any", "bad"])
        documented = list(own) if kind == "own" else [n for n in own if g.chance(2, 3)]
        if kind == "any":
            documented += [n for n in known if g.chance(1, 4)]
    else:
        params = []
        names = g.sample(MEMBERS, 0, 5)
        if g.chance(1, 3) and "self" not in names:
            names = ["self", *names]
        kinds = sorted(g.int(0, 4) for _ in names)
        seen = set()
        for n, k in zip(names, kinds):
            if k in (2, 4) and k in seen:
                k = 3 if k == 2 else 4
            if k in (2, 4) and k in seen:
                continue
            seen.add(k)
            params.append([n, k, g.pick(TYPES) if g.chance(4, 5) else None, k in (0, 1) and g.chance(1, 6)])
        case["params"] = params
        case["returns"] = g.pick(TYPES) if g.chance(3, 4) else None
        case["place"] = g.pick(["module", "class", "static", "async"])
        own = [p[0] for p in params]
        kind = g.pick(["own", "own", "some", "any", "bad"])
        documented = [n for n in own if n != "self"] if kind == "own" else [n for n in own if g.chance(2, 3)]
        known = own
    if kind == "bad":
        documented.append(g.pick(STRANGE))
    fields = [(f"param {n}", phrase(g, 0)) for n in dict.fromkeys(documented)]
    returns = g.chance(2, 3) if "params" in case and case["returns"] is not None else g.chance(1, 4)
    if returns:
        fields.append(("returns", phrase(g, 0)))
    errors = g.sample(ERRORS, 0, 2)
    if g.chance(1, 6):
        errors.append(g.pick(NO_ERRORS))
    for n in errors:
        fields.append((f"raises {n}", phrase(g, 0)))
    case["doc"] = compose(g, phrase(g) if g.chance(2, 3) else None, None, fields) if fields or g.chance(2, 3) else None
    case["documented"] = list(dict.fromkeys(documented))
    case["has_returns"] = returns
    case["errors"] = errors
    return case


class Modules:
    def __init__(self, case: dict[str, Any]) -> None:
        n = next(_serial)
        self.names = [f"vt_doc_{n}_0", f"vt_doc_{n}_1"]
        self.case = case

    def __enter__(self) -> Any:
        case = self.case
        self.mods = []
        texts = [[], []]  # type: ignore
        target = "Top"
        if "levels" in case:
            base = None
            for i, lv in enumerate(case["levels"]):
                name = "Top" if i == len(case["levels"]) - 1 else f"L{i}"
                mod = lv["mod"] if i < len(case["levels"]) - 1 else 1
                ref = "" if base is None or not lv["derive"] else base[1] if base[0] == mod else f"other.{base[1]}"
                opts = lv["opts"]
                if opts and len(case["levels"]) > 1 and "frozen" in opts:
                    opts = ""
                lines = [] if lv["plain"] else [f"@dataclass({opts})"]
                lines.append(f"class {name}({ref}):")
                lines.append(f"    __doc__ = {case['doc']!r}" if name == "Top" else "    'Base class.'")
                for m, t in zip(lv["names"], lv["types"]):
                    lines.append(f"    {m}: {t} = None")
                texts[mod] += lines
                base = (mod, name)
        else:
            parts = []
            last = -1
            defaults = False
            for n, k, t, d in case["params"]:
                if last == 0 and k > 0:
                    parts.append("/")
                if k == 3 and last < 2:
                    parts.append("*")
                text = {2: "*", 4: "**"}.get(k, "") + n + (f": {t}" if t else "")
                defaults = defaults or d
                parts.append(text + (" = None" if k in (0, 1) and defaults else ""))
                last = k
            if last == 0:
                parts.append("/")
            arrow = f" -> {case['returns']}" if case["returns"] is not None else ""
            word = "async def" if case["place"] == "async" else "def"
            lines = [f"{word} fun({', '.join(parts)}){arrow}:", "    pass", f"fun.__doc__ = {case['doc']!r}"]
            if case["place"] in ("class", "static"):
                deco = ["    @staticmethod"] if case["place"] == "static" else []
                lines = ["class Holder:"] + deco + ["    " + line for line in lines[:2]] + [f"Holder.fun.__doc__ = {case['doc']!r}"]
                target = "Holder.fun"
            else:
                target = "fun"
            texts[1] += lines
        for i in (0, 1):
            mod = types.ModuleType(self.names[i])
            sys.modules[mod.__name__] = mod
            header = HEADER
            if i:
                header += f"import {self.names[0]} as other\n"
                if case["shadow"]:
                    header += "class ValueError(Exception):\n    pass\n"
                header += "class Wrapper:\n    class Hidden(Exception):\n        pass\n"
            future = "from __future__ import annotations\n" if case["future"][i] else ""
            source = future + header + "\n".join(texts[i]) + "\n"
            exec(compile(source, mod.__name__, "exec", dont_inherit=True), mod.__dict__)
            self.mods.append(mod)
        obj: Any = self.mods[1]
        for part in target.split("."):
            obj = getattr(obj, part)
        return obj, self.mods[1]

    def __exit__(self, *args: Any) -> None:
        for n in self.names:
            sys.modules.pop(n, None)


def find_error(name: str, module: types.ModuleType) -> Any:
    for scope in (module.__dict__, builtins.__dict__):
        t = scope.get(name)
        if isinstance(t, type) and issubclass(t, BaseException):
            return t
    return None


def run(case: Any, stats: Stats) -> None:
    with Modules(case) as (obj, module):
        doc = case["doc"]
        is_class = "levels" in case
        checked = True
        if is_class:
            top = case["levels"][-1]
            checked = not top["plain"] or False
            own = list(top["names"])
            if top["plain"] and top["derive"] and len(case["levels"]) > 1:
                # the class counts as a data class since it inherits from one, but its own annotations are not members
                checked = any(not lv["plain"] for lv in chain(case["levels"])[:-1])
                own = []
            hints = typing.get_type_hints(obj, include_extras=True) if checked else {}
            undocumented = [n for n in own if n not in case["documented"]]
        else:
            signature = inspect.signature(obj, eval_str=True)
            own = list(signature.parameters)
            hints = {n: p.annotation for n, p in signature.parameters.items()}
            positional = (inspect.Parameter.POSITIONAL_ONLY, inspect.Parameter.POSITIONAL_OR_KEYWORD)
            undocumented = [
                n
                for n, p in signature.parameters.items()
                if n not in case["documented"] and not (n == "self" and p.kind in positional)
            ]
        has_doc = bool(doc)
        documented = case["documented"] if has_doc else []
        has_returns = case["has_returns"] if has_doc else False
        errors = case["errors"] if has_doc else []

        unknown = [n for n in documented if n not in own] if checked else []
        no_value = not is_class and has_returns and signature.return_annotation is inspect.Signature.empty
        missing = [n for n in errors if find_error(n, module) is None]

        where = f"doc-string {doc!r} of {describe(case)}"
        outcome = call(parse_type, obj)
        if unknown or no_value or missing:
            require(
                isinstance(outcome.error, TypeError),
                lambda: f"{where} names unknown {unknown + missing} {'and a return value' if no_value else ''} but parsing {outcome.describe()}",
            )
            stats.label("refused:" + ("member" if unknown else "returns" if no_value else "exception"))
        else:
            require(outcome.ok, lambda: f"{where} is correct but parsing {outcome.describe()}")
            got = outcome.value
            plain = must(parse_text, doc) if doc else Docstring()
            require(
                str(got) == str(plain) and list(got.params) == documented and list(got.raises) == errors,
                lambda: f"{where} is parsed into {short(got)}",
            )
            for n, p in got.params.items():
                want = hints[n] if checked else inspect.Signature.empty
                require(
                    p.param_type == want or is_none(p.param_type) and is_none(want),
                    lambda: f"{where}: type of {n} is {p.param_type!r}, declared {want!r}",  # noqa: B023
                )
            if got.returns is not None:
                want = inspect.Signature.empty if is_class else signature.return_annotation
                require(got.returns.return_type == want, lambda: f"{where}: return type is {got.returns.return_type!r}, declared {want!r}")
            for n, r in got.raises.items():
                require(r.raise_type is find_error(n, module), lambda: f"{where}: {n} is {r.raise_type!r}")  # noqa: B023
            stats.label("accepted")

        parsed = must(parse_text, doc or "")
        for strict in (False, True):
            outcome = call(lambda: check_docstring(obj, parsed, strict=strict))  # noqa: B023
            wrong = bool(unknown or no_value)
            if strict and checked:
                wrong = wrong or bool(undocumented if has_doc else [n for n in own if is_class or n != "self" or n in undocumented])
                if not is_class and signature.return_annotation is not inspect.Signature.empty and not has_returns:
                    wrong = True
            if wrong:
                require(
                    isinstance(outcome.error, TypeError),
                    lambda: f"{where} is wrong or incomplete (unknown {unknown}, undocumented {undocumented}) but check(strict={strict}) {outcome.describe()}",  # noqa: B023
                )
            else:
                require(outcome.ok, lambda: f"{where} is complete but check(strict={strict}) {outcome.describe()}")  # noqa: B023
            stats.label(f"strict={strict}:{'refused' if wrong else 'accepted'}")
        stats.label("class" if is_class else "function:" + case["place"])
        stats.nontrivial(bool(own) and bool(documented or errors or has_returns))


def chain(levels: list[Any]) -> list[Any]:
    "Classes of the last level and up, as long as they derive from one another."

    result = [levels[-1]]
    for i in range(len(levels) - 1, 0, -1):
        if not levels[i]["derive"]:
            break
        result.insert(0, levels[i - 1])
    return result


def is_none(t: Any) -> bool:
    return t is None or t is type(None)


def describe(case: Any) -> str:
    return short({k: v for k, v in case.items() if k in ("levels", "params", "returns", "place", "future", "shadow")}, 800)


# --- whether there is a doc-string, exceptions of a module ---

KINDS = ["dataclass", "dataclass", "derived", "undecorated", "namedtuple", "collections", "enum", "strenum", "plain", "exception", "function", "module"]
TEXTS = [
    "{n}(x: int) makes one.", "{n}(x)\n\nA pair (x).", "{n}", "{n}[x]", "Other(x: int)", "{n} (x: int)", " {n}(x: int)", "({n})", "An enumerator.",
    "An enumeration", "x", "{n}(\nx)", "\n    {n}(x: int)", "{n}()s", "{n}2(x: int)", "Alias for field number 0", "x{n}(x)",
]  # fmt: skip
MODULE_ITEMS = [
    ("{n} = 1", False), ("class {n}(Exception): pass", True), ("class {n}(BaseException): pass", True), ("class {n}: pass", False),
    ("from json import JSONDecodeError as {n}", True), ("{n} = __import__('builtins').ValueError", True), ("{n} = __import__('builtins').ValueError('instance')", False),
    ("class {n}(KeyError, OSError): pass", True), ("def {n}(): pass", False), ("class {n}(type): pass", False), ("{n} = Exception", True),
    ("class {n}(ExceptionGroup): pass", True), ("{n} = list[int]", False), ("{n} = type('T', (Warning,), dict())", True),
]  # fmt: skip


@st.composite
def helper_cases(draw: Any) -> Any:
    g = Gen(draw)
    kind = g.pick(KINDS)
    name = g.pick(["Main", "A", "X1", "_p", "Größe"])
    text = g.pick(["none", "none", "composed", "composed", "near", "near"])
    doc = None
    if text == "near":
        doc = g.pick(TEXTS).format(n=name)
    elif text == "composed":
        doc = compose(g, phrase(g), phrase(g) if g.chance(1, 2) else None, [])
    fields = g.sample(["x", "y", "z1"], 0, 3)
    opts = g.pick(["", "frozen=True", "slots=True", "kw_only=True", "repr=False", "init=False"])
    items = [(n, g.int(0, len(MODULE_ITEMS) - 1)) for n in g.sample(["A", "B", "c", "_d", "E", "ValueError", "F"], 0, 5)]
    return (kind, name, doc, fields, opts, items)


def make_described(kind: str, name: str, doc: Any, fields: list[str], opts: str) -> Any:
    lines = ["import collections, dataclasses, enum, types, typing"]
    head = [f"    __doc__ = {doc!r}"] if doc is not None else []
    types_of = ["int", "str", "typing.Optional[list[int]]"]
    members = [f"    {f}: {t}" for f, t in zip(fields, types_of)]
    if kind == "dataclass":
        lines += [f"@dataclasses.dataclass({opts})", f"class {name}:", *head, *members]
    elif kind in ("derived", "undecorated"):
        lines += ["@dataclasses.dataclass", "class Parent:", "    'Parent class.'", "    p: int"]
        lines += ["@dataclasses.dataclass"] if kind == "derived" else []
        lines += [f"class {name}(Parent):", *head, *members]
    elif kind == "namedtuple":
        lines += [f"class {name}(typing.NamedTuple):", *([f"    {doc!r}"] if doc is not None else []), *members]
    elif kind == "collections":
        lines += [f"{name} = collections.namedtuple({name!r}, {fields!r})"]
        lines += [f"{name}.__doc__ = {doc!r}"] if doc is not None else []
    elif kind in ("enum", "strenum"):
        base = "enum.Enum" if kind == "enum" else "str, enum.Enum"
        lines += [f"class {name}({base}):", *head, *(f"    {f} = {f!r}" for f in fields)]
    elif kind in ("plain", "exception"):
        lines += [f"class {name}{'(Exception)' if kind == 'exception' else ''}:", *head, *members]
    elif kind == "function":
        lines += [f"def {name}({', '.join(fields)}): pass", f"{name}.__doc__ = {doc!r}"]
    else:
        lines += [f"{name} = types.ModuleType({name!r}, {doc!r})"]
    lines += ["    pass"] if lines[-1].startswith("class ") or lines[-1].startswith("    ") else []
    module = types.ModuleType(f"vt_described_{next(_serial)}")
    sys.modules[module.__name__] = module
    try:
        exec(compile("\n".join(lines) + "\n", module.__name__, "exec", dont_inherit=True), module.__dict__)
    except BaseException:
        del sys.modules[module.__name__]
        raise
    return module, module.__dict__[name]


def run_helpers(case: Any, stats: Stats) -> None:
    kind, name, doc, fields, opts, items = case
    module, obj = make_described(kind, name, doc, fields, opts)
    try:
        auto = doc is None and kind in ("dataclass", "derived", "namedtuple", "collections")
        where = f"{kind} {obj} with doc-string {obj.__doc__!r} ({'generated' if auto else 'given' if doc else 'none'})"
        require(must(has_default_docstring, obj) == auto, lambda: f"has_default_docstring of {where} is {not auto}")
        require(must(has_docstring, obj) == bool(doc), lambda: f"has_docstring of {where} is {not doc}")
        got = must(get_docstring, obj)
        require(got == doc, lambda: f"get_docstring of {where} is {got!r}")
        if kind != "module":
            parsed = must(parse_type, obj)
            want = must(parse_text, doc) if doc else Docstring()
            require(str(parsed) == str(want), lambda: f"parse_type of {where} is {parsed}, expected {want}")
            if kind != "function":
                short_long = must(get_class_docstrings, obj)
                require(
                    tuple(short_long) == (want.short_description, want.long_description),
                    lambda: f"get_class_docstrings of {where} is {short_long}",
                )
                schema = must(docstring_to_schema, obj)
                expected = {"title": want.short_description, "description": want.long_description}
                require(
                    schema == {k: v for k, v in expected.items() if v is not None},
                    lambda: f"docstring_to_schema of {where} is {schema}",
                )
    finally:
        del sys.modules[module.__name__]

    source = types.ModuleType("vt_exceptions")
    for n, i in items:
        exec(MODULE_ITEMS[i][0].format(n=n), source.__dict__)
    expected_errors = {n: source.__dict__[n] for n, i in items if MODULE_ITEMS[i][1]}
    found = must(get_exceptions, source)
    require(
        dict(found) == expected_errors,
        lambda: f"exceptions of a module with {[MODULE_ITEMS[i][0].format(n=n) for n, i in items]} are {found}, expected {expected_errors}",
    )
    stats.label(f"helper:{kind}:{'generated' if auto else 'given' if doc else 'none'}")
    stats.nontrivial(auto or bool(doc) or len(expected_errors) > 1)


PARTS = [
    Part("code", cases, run, quick=5000, thorough=150000),
    Part("helpers", helper_cases, run_helpers, quick=2500, thorough=30000),
]
