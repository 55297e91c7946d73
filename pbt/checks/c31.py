"C31: A refusal says what kind of mistake the document has."

from typing import Any, Optional

from hypothesis import strategies as st

from strong_typing.deserializer import create_deserializer
from strong_typing.exception import JsonKeyError, JsonTypeError, JsonValueError
from strong_typing.serialization import json_to_generic, json_to_object

from ..core import Part, Stats, call, must, require
from ..gen import Gen, Profile, get_at, positions, set_at, shape_labels
from ..world import Gray, Reject, World, concrete, depth_of
from .c05 import table

ID = "C31"
RULE = (
    "A case is (program, type, document), the document being the encoding of a value of the type with one mistake: a value "
    "of the wrong JSON kind, a missing member, an unknown member, a null, an extra item, or malformed text, at an arbitrary "
    "position. The reference decoder tells the category of the mistake, seen from the outermost union around it; the error "
    "raised must be of the documented class for the category (type: JsonTypeError, key: JsonKeyError, value: JsonValueError "
    "or ValueError), the same for every entry point, and a key error on a class must quote the name of the member. "
    "Non-trivial: the reference refuses the document."
)

EXPECTED: dict[str, tuple[type, ...]] = {
    "type": (JsonTypeError,),
    "key": (JsonKeyError,),
    "value": (JsonValueError, ValueError),
}
KINDS: list[Any] = [True, 0, 1.5, "", "x", None, [], {}, [0], {"a": 0}]


@st.composite
def mistakes(draw: Any) -> Any:
    g = Gen(draw, Profile(recursive=True, min_classes=1))
    universe = g.make_universe()
    mod = g.int(0, len(universe["mods"]) - 1)
    t = g.top_type(mod)
    with World(universe) as w:
        doc = concrete(w.encode(t, g.make_value(t)))
    places = positions(doc)
    move = g.pick(["kind", "kind", "missing", "unknown", "null", "text", "item"])
    wanted = {"missing": dict, "unknown": dict, "null": dict, "text": str, "item": list}.get(move)
    if wanted is not None:
        places = [p for p in places if isinstance(get_at(doc, p), wanted)] or places
    path = g.pick(places)
    old = get_at(doc, path)
    new: Any
    if move == "missing" and isinstance(old, dict) and old:
        name = g.pick(old)
        new = {k: v for k, v in old.items() if k != name}
    elif move == "unknown" and isinstance(old, dict):
        new = {**old, g.pick([n for n in ("extra", "in_", "A", "zz") if n not in old]): g.pick(KINDS)}
    elif move == "null" and isinstance(old, dict) and old:
        name = g.pick(old)
        new = {k: None if k == name else v for k, v in old.items()}
    elif move == "text" and isinstance(old, str):
        new = g.pick([old + " ", old[:-1], "x" + old, old.lower(), old + "\n", ""])
    elif move == "item" and isinstance(old, list):
        new = [*old, g.pick([*old, 0]) if old else 0] if g.chance(1, 2) else old[:-1]
    else:
        move = "kind"
        new = g.pick([k for k in KINDS if type(k) is not type(old)])
    return (universe, mod, t, set_at(doc, path, new), move)


def run(case: Any, stats: Stats) -> None:
    universe, mod, t, doc, move = case
    with World(universe) as w:
        typ = w.type(t, mod)
        module = w.modules[mod]
        stats.label(f"depth:{depth_of(t)}", f"mistake:{move}", *shape_labels(t, universe))
        try:
            w.decode(t, doc)
        except Reject as ex:
            reject: Optional[Reject] = ex
        except Gray:
            reject = None
        else:
            reject = None
        stats.nontrivial(reject is not None)
        if reject is None:
            return
        stats.label(f"category:{reject.kind}")
        parser = must(create_deserializer, typ, module)
        errors = []
        for label, outcome in (
            ("json_to_generic", call(json_to_generic, typ, doc, context=module)),
            ("json_to_object", call(json_to_object, typ, doc, context=module)),
            ("parse", call(parser.parse, doc)),
        ):
            require(
                not outcome.ok and isinstance(outcome.error, EXPECTED[reject.kind]),
                lambda: f"{doc!r} as {w.render(t, mod)} has a {reject.kind} error ({reject}) but {label} {outcome.describe()}",  # noqa: B023
            )
            errors.append(outcome.error)
            if isinstance(reject.name, str):
                require(
                    reject.name in str(outcome.error) or repr(reject.name) in str(outcome.error),
                    lambda: f"{doc!r} as {w.render(t, mod)}: {label} does not name member {reject.name!r}: {outcome.error}",  # noqa: B023
                )
        require(
            all(type(e) is type(errors[0]) and str(e) == str(errors[0]) for e in errors),
            lambda: f"{doc!r} as {w.render(t, mod)} is refused in different ways: {errors}",
        )


def simple() -> Any:
    "Every simple type, at every kind of position, against a fixed choice of documents."

    for universe, mod, t, doc, _, _ in table():
        if t[0] == "union" and t[1][0] == t[1][1]:
            continue
        yield (universe, mod, t, doc, "simple")


PARTS = [
    Part("mistakes", mistakes, run, quick=7000, thorough=150000),
    Part("simple", None, run, exhaustive=simple),
]
