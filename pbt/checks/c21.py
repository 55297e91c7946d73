"C21: the printed form of a type denotes that type."

import collections
import collections.abc
import typing
import uuid
from typing import Annotated, Any, Callable, Literal, Optional, Union

from hypothesis import strategies as st

from strong_typing import auxiliary
from strong_typing.name import TypeFormatter, python_type_to_str

from ..core import Part, Stats, Violation, must, require
from ..gen import Gen
from ..typespecs import (
    ALL_CLASSES,
    ANNOTATIONS,
    AUX,
    CLASSES,
    GENERICS,
    Empty,
    Mark,
    P,
    Run,
    T,
    K,
    TypeGen,
    analyse,
    build,
    describe,
    kinds,
    module,
    size,
)

ID = "C21"
RULE = (
    "A case is a type expression up to four levels deep: classes, auxiliary types, literals (texts with quotes, enumeration "
    "members, bytes), generics of one and two parameters, tuples of fixed and any length, callables, optionals and unions in "
    "either notation, annotations of any kind, type variables and forward references. It is printed in both styles, with and "
    "without a context, with and without transformations; the text is evaluated in a namespace of the names used, and the "
    "structure of the result is compared with a description derived from the expression. With a transformation, names are only "
    "available in their transformed form. Non-trivial: the expression has at least three nodes."
)

NAMES: dict[str, Any] = {
    "Any": Any, "Optional": Optional, "Union": Union, "Literal": Literal, "Annotated": Annotated, "Callable": Callable,
    "Self": typing.Self, "T": T, "K": K, "P": P, "Mark": Mark, "Empty": Empty, "Run": Run,
}  # fmt: skip
MARKS = {type(a).__name__: type(a) for a in ANNOTATIONS if type(a).__module__ == "strong_typing.auxiliary"}
ORIGINS = {n: o for n, (o, _) in GENERICS.items()}
NAMESPACE: dict[str, Any] = {"uuid": uuid, **NAMES, **AUX, **MARKS, **ORIGINS, **ALL_CLASSES}


class Origin:
    "A generic type that can only be subscripted."

    def __init__(self, origin: Any) -> None:
        self.origin = origin

    def __getitem__(self, args: Any) -> Any:
        return self.origin[args]


class Shown:
    def __init__(self, value: Any) -> None:
        self.value = value


class LiteralOfShown:
    def __getitem__(self, args: Any) -> Any:
        args = args if isinstance(args, tuple) else (args,)
        for a in args:
            require(isinstance(a, Shown), lambda: f"literal value {a!r} is printed without its transformation")  # noqa: B023
        return Literal[tuple(a.value for a in args)]


TRANSFORMED: dict[str, Any] = {
    **NAMES, **AUX, **MARKS, **{n: Origin(o) for n, o in ORIGINS.items()}, "tuple": Origin(tuple), "Run": Origin(Run),
    **{f"X_{n}": c for n, c in ALL_CLASSES.items()},
}  # fmt: skip


def show_type(t: Any) -> str:
    return f"X_{t.__name__}"


def show_value(v: Any) -> str:
    SHOWN.append(v)
    return f"V({len(SHOWN) - 1})"


SHOWN: list[Any] = []


@st.composite
def cases(draw: Any) -> Any:
    g = Gen(draw)
    return TypeGen(g, quoted=True).make(g.int(0, 4))


def evaluate(text: str, names: dict[str, Any], what: str) -> Any:
    try:
        return eval(text, {"__builtins__": {"__import__": __import__}}, names)
    except Violation:
        raise
    except Exception as ex:
        raise Violation(f"{what} is {text!r}, which cannot be evaluated: {type(ex).__name__}: {ex}") from ex


def agree(text: str, names: dict[str, Any], want: Any, spec: Any, what: str) -> None:
    value = evaluate(text, names, what)
    got = analyse(value)
    require(
        got == want, lambda: f"{what} is {text!r}, which denotes {value!r}"
    )


def run(spec: Any, stats: Stats) -> None:
    typ = build(spec)
    want = describe(spec)
    if analyse(typ) != want:
        raise AssertionError(f"{spec}: {want}, {analyse(typ)}")
    used = kinds(spec)
    has_strings = uses_strings(spec)
    for operator in (False, True):
        if not has_strings:
            text = must(lambda: python_type_to_str(typ, use_union_operator=operator))  # noqa: B023
            agree(text, NAMESPACE, want, spec, f"{typ!r} printed with operator={operator}")
            if operator and "quoted" not in used:
                require("Union[" not in text and "Optional[" not in text, lambda: f"{typ!r} printed with operators is {text!r}")  # noqa: B023
        for context in (None, module):
            if context is None and has_expressions(spec):
                # only simple names need no context
                continue
            fmt = TypeFormatter(context=context, use_union_operator=operator)
            text = must(fmt.python_type_to_str, typ)
            agree(text, NAMESPACE, want, spec, f"{typ!r} printed with operator={operator}, context={context}")
        for context in (None, module):
            if context is None and ("ref" in used or "quoted" in used):
                continue
            SHOWN.clear()
            fmt = TypeFormatter(context=context, type_transform=show_type, value_transform=show_value, use_union_operator=operator)
            text = must(fmt.python_type_to_str, typ)
            names = {**TRANSFORMED, "Literal": LiteralOfShown(), "V": lambda i: Shown(SHOWN[i])}
            agree(text, names, want, spec, f"{typ!r} printed with transformations, operator={operator}, context={context}")
    for name in aux_names(spec):
        require(name in text, lambda: f"{typ!r} is printed as {text!r}, without the name {name}")  # noqa: B023
    stats.label(*(f"with:{k}" for k in used), f"size:{min(size(spec) // 3 * 3, 15)}")
    stats.nontrivial(size(spec) >= 3)


def uses_strings(spec: Any) -> bool:
    if isinstance(spec, tuple):
        return spec[:1] == ("ref",) and spec[2] == "str" or has_expressions(spec) or any(map(uses_strings, spec[1:]))
    return isinstance(spec, list) and any(map(uses_strings, spec))


def has_expressions(spec: Any) -> bool:
    "True if a plain string stands for a type, possibly one that is not a simple name."

    if isinstance(spec, tuple):
        return spec[:1] == ("quoted",) and spec[3] == "str" or any(map(has_expressions, spec[1:]))
    return isinstance(spec, list) and any(map(has_expressions, spec))


def aux_names(spec: Any) -> set[str]:
    if isinstance(spec, tuple):
        if spec[:1] == ("aux",):
            return {spec[1]}
        if spec[:1] in (("lit",),):
            return set()
        return set().union(*map(aux_names, spec[1:]))
    return set().union(*map(aux_names, spec)) if isinstance(spec, list) else set()


PARTS = [Part("types", cases, run, quick=30000, thorough=120000)]
_ = (collections, auxiliary, CLASSES)
