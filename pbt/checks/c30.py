"C30: introspection of classes, functions and modules lists exactly what is declared."

import dataclasses
import enum
import inspect
import sys
import types
import typing
from typing import Any

from hypothesis import strategies as st

from strong_typing.inspection import (
    dataclass_field_by_name,
    dataclass_fields,
    enum_value_types,
    evaluate_member_type,
    evaluate_type,
    get_class_properties,
    get_class_property,
    get_module_classes,
    get_module_functions,
    get_signature,
    is_reserved_property,
)

from ..core import Part, Stats, call, must, require
from ..declared import declarations
from ..gen import Gen, Profile, typed_values
from ..world import World

ID = "C30"
RULE = (
    "A case is a generated program (data classes, named tuples, plain classes, exceptions and enumerations, inherited "
    "within and across modules, with members quoted, referring forward or evaluated lazily), a module with classes, functions "
    "and things imported from elsewhere, a function signature, a set of modules that bind the same names to different "
    "classes, or a name. What introspection lists must equal what the specification of the program declares, by name, "
    "order, type (after evaluating references where the class is declared) and default. Non-trivial: at least two members, "
    "or a reference that needs evaluation, or a thing that does not belong to the module."
)

ABSENT = ["missing", "", "__init__", "__doc__", "mm", "M", "__module__"]


def hashable(item: Any) -> bool:
    try:
        hash(item)
    except TypeError:
        return False
    return True


def flat(t: Any, module: types.ModuleType, depth: int = 0) -> Any:
    "The structure of a type, with references evaluated in a module."

    if depth > 12:
        return "..."
    if isinstance(t, str):
        t = eval(t, module.__dict__)
    while isinstance(t, typing.ForwardRef):
        t = eval(t.__forward_arg__, module.__dict__)
    if t is None:
        t = type(None)
    metadata = getattr(t, "__metadata__", None)
    if metadata is not None:
        return ("annotated", flat(t.__origin__, module, depth + 1), tuple(metadata))
    origin = typing.get_origin(t)
    if origin is None:
        return t
    args = typing.get_args(t)
    if origin is typing.Literal:
        return ("literal", frozenset((type(a), a) for a in args))
    if origin is types.UnionType or origin is typing.Union:
        members = []
        for a in args:
            f = flat(a, module, depth + 1)
            members.extend(f[1] if isinstance(f, tuple) and f[:1] == ("union",) else [f])
        return ("union", frozenset(m if hashable(m) else repr(m) for m in members))
    return (origin, tuple(flat(a, module, depth + 1) for a in args))


def alike(a: Any, b: Any) -> bool:
    try:
        return bool(a == b) and type(a) is type(b)
    except Exception:
        return False


# --- members of classes ---


def run_classes(case: Any, stats: Stats) -> None:
    universe = case[0]
    with World(universe) as w:
        for index, spec in enumerate(w.specs):
            cls = w.classes[index]
            if spec["k"] == "enum":
                values = [v for _, v in spec["members"]]
                in_order = list(dict.fromkeys(map(type, values)))
                got = must(enum_value_types, cls)
                require(
                    type(got) is list and got == in_order,
                    lambda: f"value types of {cls} are {got}, expected {in_order}",  # noqa: B023
                )
                continue
            check_class(w, index, cls, stats)


def owner_of(w: World, index: int, name: str) -> int:
    i: Any = index
    while True:
        if any(f["n"] == name for f in w.specs[i]["fields"]):
            return i
        i = w.specs[i]["base"]


def check_class(w: World, index: int, cls: type, stats: Stats) -> None:
    spec = w.specs[index]
    fields = w.fields(index)
    names = [f["n"] for f in fields]
    owners = {n: owner_of(w, index, n) for n in names}
    modules = {n: w.modules[w.specs[owners[n]]["mod"]] for n in names}
    expected = {f["n"]: flat(w.type(f["t"], w.specs[owners[f["n"]]]["mod"], plain=True), modules[f["n"]]) for f in fields}

    def check(label: str, n: str, t: Any) -> None:
        got = flat(t, modules[n])
        require(got == expected[n], lambda: f"{label} gives {t!r} for {n!r} of {cls}, expected {expected[n]!r}")

    for attempt in range(2):  # repeatable
        properties = list(must(get_class_properties, cls))
        require(
            [n for n, _ in properties] == names,
            lambda: f"properties of {cls} are {[n for n, _ in properties]}, expected {names}",  # noqa: B023
        )
        for n, t in properties:
            check("get_class_properties", n, t)
            require(not isinstance(t, str) or spec["k"] == "dc", lambda: f"{n!r} of {cls} is not evaluated: {t!r}")  # noqa: B023
    for n in names:
        check("get_class_property", n, must(get_class_property, cls, n))
    for n in ABSENT:
        if n not in names:
            got = must(get_class_property, cls, n)
            require(got is None, lambda: f"{cls} has no property {n!r}, but get_class_property gives {got!r}")  # noqa: B023

    if spec["k"] == "dc":
        listed = list(must(lambda: list(dataclass_fields(cls))))  # type: ignore
        require(
            [f.name for f in listed] == names, lambda: f"fields of {cls} are {[f.name for f in listed]}, expected {names}"
        )
        for f, declared in zip(listed, fields):
            again = must(dataclass_field_by_name, cls, f.name)
            for label, x in (("dataclass_fields", f), ("dataclass_field_by_name", again)):
                require(x.name == declared["n"], lambda: f"{label} gives {x.name!r} for {declared['n']!r}")  # noqa: B023
                require(
                    not isinstance(x.type, (str, typing.ForwardRef)),
                    lambda: f"{label} does not evaluate {x.name!r} of {cls}: {x.type!r}",  # noqa: B023
                )
                check(label, x.name, x.type)
                default = declared.get("d")
                if default is None or default[0] == "fac":
                    require(
                        x.default is dataclasses.MISSING, lambda: f"{label}: {x.name!r} has no default, but {x.default!r}"  # noqa: B023
                    )
                else:
                    want = None if default[0] == "null" else w.build(declared["t"], default[1])
                    require(
                        alike(x.default, want),
                        lambda: f"{label}: default of {x.name!r} is {x.default!r}, expected {want!r}",  # noqa: B023
                    )
        for n in ABSENT:
            if n not in names:
                outcome = call(dataclass_field_by_name, cls, n)
                require(
                    isinstance(outcome.error, LookupError),
                    lambda: f"field {n!r} of {cls} {outcome.describe()}",  # noqa: B023
                )
    stats.label(f"class:{spec['k']}", *(["inherited"] if spec.get("base") is not None else []))
    stats.nontrivial(len(names) > 1 or any(isinstance(cls.__dict__.get("__annotations__", {}).get(n), str) for n in names))


# --- contents of modules ---

THINGS = {
    "class": "class {n}: pass",
    "dc": "@dataclasses.dataclass\nclass {n}:\n    a: int\n    class Nested: pass\n    def method(self): pass",
    "enum": "class {n}(enum.Enum):\n    A = 1",
    "nt": "class {n}(typing.NamedTuple):\n    a: int",
    "exc": "class {n}(Exception): pass",
    "generic": "class {n}(typing.Generic[_T]): pass",
    "local class": "def _make():\n    class {n}: pass\n    return {n}\n{n} = _make()",
    "local function": "def _make2():\n    def {n}(): pass\n    return {n}\n{n} = _make2()",
    "nested class": "class _Outer:\n    class {n}: pass\n{n} = _Outer.__dict__['{n}' if '{n}' in _Outer.__dict__ else '_Outer{n}']",
    "proto": "class {n}(typing.Protocol): pass",
    "meta": "class {n}(type): pass",
    "func": "def {n}(a: int) -> str: return ''",
    "async": "async def {n}(): pass",
    "generator": "def {n}(): yield 1",
    "inner": "def {n}():\n    def hidden(): pass\n    class Hidden: pass\n    return hidden",
    "other class": "from {o} import Other as {n}",
    "other function": "from {o} import other as {n}",
    "built-in class": "{n} = int",
    "built-in function": "{n} = len",
    "library class": "from datetime import date as {n}",
    "library function": "from inspect import isclass as {n}",
    "instance": "{n} = _Plain()",
    "member": "{n} = _Color.RED",
    "bound": "{n} = _Plain().method",
    "module": "import datetime as {n}",
    "alias": "{n} = list[int]",
    "typevar": "{n} = typing.TypeVar('T')",
    "partial": "{n} = functools.partial(print)",
    "text": "{n} = 'class'",
}
OWN_CLASSES = ["class", "dc", "enum", "nt", "exc", "generic", "proto", "meta", "local class", "nested class"]
OWN_FUNCTIONS = ["func", "async", "generator", "inner", "local function"]
THING_NAMES = ["A", "a", "_a", "Zed", "zed", "_Private", "__dunder", "é", "x1", "main"]


@st.composite
def modules(draw: Any) -> Any:
    g = Gen(draw)
    names = g.sample(THING_NAMES, 0, 8)
    return (g.chance(1, 3), g.pick(["", ".sub"]), [(n, g.pick(sorted(THINGS))) for n in names])


def run_modules(case: Any, stats: Stats) -> None:
    future, suffix, things = case
    name, other_name = "vt_c30" + suffix, "vt_c30_other"
    module, other = types.ModuleType(name), types.ModuleType(other_name)
    sys.modules[name], sys.modules[other_name] = module, other
    try:
        exec("class Other: pass\ndef other(): pass\n", other.__dict__)
        text = "from __future__ import annotations\n" if future else ""
        text += "import dataclasses, enum, functools, typing\n"
        text += "_T = typing.TypeVar('_T')\n"
        text += "class _Plain:\n    def method(self): pass\n"
        text += "class _Color(enum.Enum):\n    RED = 1\n"
        text += "".join(THINGS[k].format(n=n, o=other_name) + "\n" for n, k in things)
        exec(text, module.__dict__)
        classes = must(get_module_classes, module)
        functions = must(get_module_functions, module)
        own_classes = {"_Plain", "_Color"} | {"_Outer" for _, k in things if k == "nested class"} | {n for n, k in things if k in OWN_CLASSES}
        made = {"local class": "_make", "local function": "_make2"}
        own_functions = {made[k] for _, k in things if k in made} | {n for n, k in things if k in OWN_FUNCTIONS}
        for what, got, want in (("classes", classes, own_classes), ("functions", functions, own_functions)):
            require(type(got) is list, lambda: f"{what}: {got!r}")  # noqa: B023
            require(
                sorted(x.__name__ for x in got) == sorted(want) and all(module.__dict__[x.__name__] is x for x in got),
                lambda: f"{what} of a module with {things} are {got}, expected {sorted(want)}",  # noqa: B023
            )
    finally:
        del sys.modules[name], sys.modules[other_name]
    stats.label(*(f"thing:{k}" for _, k in things))
    stats.nontrivial(any(k not in OWN_CLASSES + OWN_FUNCTIONS for _, k in things) or len(things) > 1)


# --- signatures ---

KINDS = ["positional", "usual", "var", "keyword", "varkw"]
TYPE_TEXTS = {
    "int": int,
    "Own": "own",
    "list[Own]": "list own",
    "'Own'": "own",
    "Optional[Own]": "optional own",
    "dict[str, 'Own']": "dict own",
    "None": type(None),
    "Any": Any,
    "Later": "later",
}


@st.composite
def functions(draw: Any) -> Any:
    g = Gen(draw)
    params = []
    for k in KINDS:
        for _ in range(g.int(0, 1) if k in ("var", "varkw") else g.int(0, 2)):
            default = g.pick([None, None, "1", "'x'", "()", "None"]) if k not in ("var", "varkw") else None
            params.append((k, f"p{len(params)}", g.pick([None, *TYPE_TEXTS]), default))
    seen = False
    for i, (k, n, t, d) in enumerate(params):  # after a default there must be a default
        if k in ("positional", "usual"):
            seen = seen or d is not None
            if seen and d is None:
                params[i] = (k, n, t, "0")
    return (g.chance(1, 2), params, g.pick([None, *TYPE_TEXTS]), g.pick(["function", "method", "static", "async"]))


def run_signatures(case: Any, stats: Stats) -> None:
    future, params, result, form = case
    name = "vt_c30_sig"
    module = types.ModuleType(name)
    sys.modules[name] = module
    try:
        # names that are not known when the function is declared must be in quotes
        def annotation(t: str) -> str:
            if future:
                return t.replace("'", "")
            return repr(t) if t == "Later" else t

        items = ["self"] if form == "method" else []
        previous = "usual" if items else ""
        for k, n, t, d in params:
            if previous == "positional" and k != "positional":
                items.append("/")
            if k == "keyword" and not any(x[0] == "var" for x in params) and previous != "keyword":
                items.append("*")
            items.append({"var": "*", "varkw": "**"}.get(k, "") + n + (f": {annotation(t)}" if t else "") + (f" = {d}" if d else ""))
            previous = k
        if previous == "positional":
            items.append("/")
        if form == "method" and any(k == "positional" for k, *_ in params):
            items.remove("self")
            items.insert(0, "self")
        text = f"def fn({', '.join(items)}){f' -> {annotation(result)}' if result else ''}: pass"
        if form == "async":
            text = "async " + text
        elif form == "method":
            text = "class Holder:\n    " + text
        elif form == "static":
            text = "class Holder:\n    @staticmethod\n    " + text
        source = ("from __future__ import annotations\n" if future else "") + "from typing import Any, Optional\nclass Own: pass\n"
        exec(source + text + "\nclass Later: pass\n", module.__dict__)
        fn = module.fn if form in ("function", "async") else module.Holder.fn
        own, later = module.Own, module.Later
        real = {
            "own": own,
            "list own": list[own],  # type: ignore
            "optional own": typing.Optional[own],
            "dict own": dict[str, own],  # type: ignore
            "later": later,
        }

        def expect(t: Any) -> Any:
            if t is None:
                return inspect.Parameter.empty
            return flat(real.get(TYPE_TEXTS[t], TYPE_TEXTS[t]) if isinstance(TYPE_TEXTS[t], str) else TYPE_TEXTS[t], module)

        signature = must(get_signature, fn)
        expected = [("self", inspect.Parameter.empty)] if form == "method" else []
        expected += [(n, expect(t)) for _, n, t, _ in params]
        got = [(n, p.annotation if p.annotation is inspect.Parameter.empty else flat(p.annotation, module)) for n, p in signature.parameters.items()]
        require(got == expected, lambda: f"parameters of {text!r} are {got}, expected {expected}")
        for p, (k, n, t, d) in zip(list(signature.parameters.values())[1 if form == "method" else 0 :], params):
            require(not isinstance(p.annotation, str), lambda: f"{n!r} of {text!r} is not evaluated: {p.annotation!r}")  # noqa: B023
            want = inspect.Parameter.empty if d is None else eval(d)
            require(
                p.default is want or alike(p.default, want) and want is not inspect.Parameter.empty,
                lambda: f"default of {n!r} in {text!r} is {p.default!r}",  # noqa: B023
            )
            require(
                p.kind
                == {
                    "positional": inspect.Parameter.POSITIONAL_ONLY,
                    "usual": inspect.Parameter.POSITIONAL_OR_KEYWORD,
                    "var": inspect.Parameter.VAR_POSITIONAL,
                    "keyword": inspect.Parameter.KEYWORD_ONLY,
                    "varkw": inspect.Parameter.VAR_KEYWORD,
                }[k],
                lambda: f"{n!r} in {text!r} is {p.kind}",  # noqa: B023
            )
        returned = signature.return_annotation
        require(
            (returned is inspect.Signature.empty) == (result is None)
            and (result is None or not isinstance(returned, str) and flat(returned, module) == expect(result)),
            lambda: f"{text!r} returns {returned!r}",
        )
    finally:
        del sys.modules[name]
    stats.label(f"form:{form}", *(f"kind:{k}" for k, *_ in params), *(["future"] if future else []))
    stats.nontrivial(len(params) > 1 and any(t for _, _, t, _ in params))


# --- evaluation of references ---

# names that also mean something where references are evaluated
BOUND = ["A", "B", "typ", "module", "types", "typing", "re", "Any", "Optional", "copy", "cls", "sys", "enum", "T", "list", "date"]
FORMS = {"{}": lambda t: t, "lst[{}]": lambda t: list[t], "dct[str, {}]": lambda t: dict[str, t], "Opt[{}]": lambda t: typing.Optional[t]}  # type: ignore


@st.composite
def references(draw: Any) -> Any:
    g = Gen(draw)
    count = g.int(1, 3)
    bound = [g.sample(BOUND, 1, 6) for _ in range(count)]
    uses = []
    for _ in range(g.int(1, 5)):
        mod = g.int(0, count - 1)
        name = g.pick(bound[mod]) if not g.chance(1, 4) else g.pick(BOUND)
        uses.append((mod, g.pick(["text", "ref", "shared ref", "type"]), g.pick(sorted(FORMS)), name))
    return (bound, uses)


def run_references(case: Any, stats: Stats) -> None:
    bound, uses = case
    world = []
    try:
        for i, names in enumerate(bound):
            module = types.ModuleType(f"vt_c30_ref{i}")
            sys.modules[module.__name__] = module
            module.__dict__.update(lst=list, dct=dict, Opt=typing.Optional)
            for n in names:
                module.__dict__[n] = type(n, (), {"__module__": module.__name__})
            world.append(module)
        shared: dict[str, typing.ForwardRef] = {}
        for mod, how, form, name in uses:
            module = world[mod]
            text = form.format(name)
            known = name in bound[mod]
            builtin = name in ("list",)
            owner = type("Owner", (), {"__module__": module.__name__})
            if how == "type":
                t = FORMS[form](module.__dict__[name]) if known else typing.Any
                for fn, where in ((evaluate_type, module), (evaluate_member_type, owner)):
                    got = must(fn, t, where)
                    require(got is t, lambda: f"{t!r} evaluates to {got!r}")  # noqa: B023
                continue
            if how == "text":
                t = text
            elif how == "ref":
                t = typing.ForwardRef(text)
            else:
                t = shared.setdefault(text, typing.ForwardRef(text))
            for fn, where in ((evaluate_type, module), (evaluate_member_type, owner)):
                outcome = call(fn, t, where)
                if known or builtin:
                    want = FORMS[form](module.__dict__[name] if known else list)
                    require(
                        outcome.ok and outcome.value == want,
                        lambda: f"{t!r} in {module.__name__} {outcome.describe()}, expected {want!r}",  # noqa: B023
                    )
                else:
                    require(
                        isinstance(outcome.error, NameError),
                        lambda: f"{t!r} in {module.__name__}, which does not define it, {outcome.describe()}",  # noqa: B023
                    )
            if isinstance(t, typing.ForwardRef):
                require(
                    not t.__forward_evaluated__ and t.__forward_value__ is None,
                    lambda: f"evaluation has stored its result in {t!r}",  # noqa: B023
                )
            stats.label(f"how:{how}", "bound" if known else "unbound")
    finally:
        for module in world:
            sys.modules.pop(module.__name__, None)
    stats.nontrivial(len(uses) > 1)


# --- reserved names ---


def names() -> Any:
    return st.one_of(
        st.sampled_from(["__init__", "__a__", "_abc_impl", "_abc_impl_", "__private", "trailing__", "_a_", "a__b", "x__init__", "__init__x", "__é__"]),
        st.tuples(st.sampled_from(["", "_", "__", "___", "a__"]), st.text("ab_é0", min_size=1, max_size=4), st.sampled_from(["", "_", "__", "___", "__b"])).map("".join),
    )


def run_reserved(name: str, stats: Stats) -> None:
    got = must(is_reserved_property, name)
    want = len(name) > 4 and name[:2] == "__" and name[-2:] == "__" or name == "_abc_impl"
    require(got is want, lambda: f"is_reserved_property({name!r}) is {got!r}")
    stats.label(str(want))
    stats.nontrivial(name.startswith("_"))


PARTS = [
    Part("classes", lambda: typed_values(Profile(mods=3, max_classes=6, min_classes=2), values=1), run_classes, quick=3000, thorough=60000),
    Part("declarations", lambda: declarations(values=1), run_classes, quick=1500, thorough=30000),
    Part("modules", modules, run_modules, quick=1500, thorough=20000),
    Part("signatures", functions, run_signatures, quick=2000, thorough=40000),
    Part("references", references, run_references, quick=1500, thorough=30000),
    Part("reserved", names, run_reserved, quick=1500, thorough=20000),
]
