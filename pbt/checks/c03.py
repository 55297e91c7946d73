"C03: the JSON encoding of every value follows the documented mapping."

from hypothesis import strategies as st

from strong_typing.exception import JsonValueError
from strong_typing.serialization import object_to_json
from strong_typing.serializer import create_serializer

from .. import untyped
from ..core import Part, Stats, call, must, require
from ..declared import declarations
from ..gen import ALL_LEAVES, LEAF_VALUES, Gen, Profile, datetimes, shape_labels, typed_values
from ..world import Reject, World, json_same

ID = "C03"
RULE = (
    "A case is a value of a generated type (or an untyped structure, or a lone leaf). Its serialization by run-time type "
    "and by declared type must both equal, with exact JSON types and member order, what a separately written reference "
    "encoder gives (durations: any ISO 8601 duration of equal length; sets: any order). Timestamps without time zone "
    "anywhere in the value must be refused with a value error on both routes. Non-trivial: the value is not a lone "
    "Boolean, integer, string or null."
)


def expectation(fn):
    try:
        return fn(), None
    except Reject as ex:
        return None, ex


def judge_one(label: str, obj, expected, refused, outcome) -> None:
    if refused is not None:
        require(
            not outcome.ok and isinstance(outcome.error, (JsonValueError, ValueError)),
            lambda: f"{obj!r} has a timestamp without time zone, {label} {outcome.describe()}",
        )
        return
    require(outcome.ok, lambda: f"{label}({obj!r}) {outcome.describe()}")
    require(
        json_same(expected, outcome.value), lambda: f"{label}({obj!r}) returned {outcome.value!r}, expected {expected!r}"
    )


def run_typed(case, stats: Stats) -> None:
    universe, mod, t, values = case
    with World(universe) as w:
        typ = w.type(t, mod)
        for v in values:
            obj = w.build(t, v)
            expected, refused = expectation(lambda: w.encode(t, v))
            judge_one("object_to_json", obj, expected, refused, call(object_to_json, obj))
            serializer = must(create_serializer, typ, w.modules[mod])
            judge_one("create_serializer", obj, expected, refused, call(serializer.generate, obj))
            # the converter made first must do for a second conversion
            judge_one("create_serializer", obj, expected, refused, call(serializer.generate, obj))
            if refused:
                stats.label("refused: naive timestamp")
    stats.label(*shape_labels(t, universe))
    stats.nontrivial(t not in [("leaf", n) for n in ("none", "bool", "int", "str")])


def run_untyped(case, stats: Stats) -> None:
    universe, v = case
    with World(universe) as w:
        obj = untyped.build(w, v)
        expected, refused = expectation(lambda: untyped.encode(w, v))
        judge_one("object_to_json", obj, expected, refused, call(object_to_json, obj))
    stats.label(*(f"untyped:{x[0]}" for x in untyped.walk(v)))
    stats.nontrivial(v[0] != "leaf")


@st.composite
def naive_values(draw):
    "Typed values in which the timestamps may lack a time zone."

    g = Gen(draw, Profile(leaves=("datetime", "datetime", "int", "time"), max_classes=3, sets=True))
    g.leaf_value = lambda name: draw(  # type: ignore
        st.one_of(datetimes(naive=True), datetimes()) if name == "datetime" else LEAF_VALUES[name]
    )
    universe = g.make_universe()
    mod = g.int(0, len(universe["mods"]) - 1)
    t = g.top_type(mod)
    return (universe, mod, t, [g.make_value(t)])


def run_naive(case, stats: Stats) -> None:
    universe, mod, t, values = case
    run_typed(case, stats)


def leaf_cases():
    universe = {"mods": [False], "classes": []}
    return st.sampled_from(ALL_LEAVES + ("none",)).flatmap(
        lambda n: LEAF_VALUES[n].map(lambda v: (universe, 0, ("leaf", n), [v]))
    )


PARTS = [
    Part("typed", lambda: typed_values(Profile(json_leaf=True, recursive=True), values=2), run_typed, quick=3000, thorough=90000),
    Part("declarations", declarations, run_typed, quick=2500, thorough=30000),
    Part("untyped", lambda: untyped.untyped_values(Profile(max_classes=2)), run_untyped, quick=2500, thorough=60000),
    Part("naive", naive_values, run_naive, quick=1500, thorough=30000),
    Part("leaves", leaf_cases, run_typed, quick=6000, thorough=120000),
]
