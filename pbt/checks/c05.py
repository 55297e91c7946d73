"C05: JSON of the wrong kind is refused and never silently coerced."

from typing import Any

from hypothesis import strategies as st

from strong_typing.deserializer import DeserializerOptions, create_deserializer
from strong_typing.exception import JsonKeyError, JsonTypeError, JsonValueError
from strong_typing.serialization import json_to_generic, json_to_object

from ..core import Part, Stats, call, must, require
from ..gen import ALL_LEAVES, JSON_DOCS, Gen, Profile, mutate, shape_labels
from ..world import AUX_RANGE, Gray, Reject, World, concrete, depth_of, pure_json, same

ID = "C05"
RULE = (
    "A case is (program, type, document, ignore-extra-members flag), the document being the encoding of a value of the "
    "type with 0-3 generated corruptions at arbitrary positions, or an arbitrary JSON document. A separately written "
    "reference decoder says which object the document denotes or that it is to be refused; the library must agree on "
    "acceptance, on the object, and must refuse with JsonKeyError, JsonTypeError, JsonValueError or ValueError only. "
    "Non-trivial: the document was corrupted or is arbitrary, and the reference has a definite verdict."
)

ERRORS = (JsonKeyError, JsonTypeError, JsonValueError, ValueError)


@st.composite
def corrupted(draw: Any, profile: Profile) -> Any:
    g = Gen(draw, profile)
    universe = g.make_universe()
    mod = g.int(0, len(universe["mods"]) - 1)
    t = g.top_type(mod)
    if g.chance(1, 8):
        doc, count = draw(JSON_DOCS), 1
    else:
        v = g.make_value(t)
        with World(universe) as w:
            doc = concrete(w.encode(t, v))
        count = g.pick([1, 1, 1, 2, 3, 0])
        for _ in range(count):
            doc = mutate(g, doc)
    return (universe, mod, t, doc, count, g.chance(1, 3))


def run(case: Any, stats: Stats) -> None:
    universe, mod, t, doc, count, skip = case
    with World(universe) as w:
        typ = w.type(t, mod)
        module = w.modules[mod]
        try:
            expected, verdict = w.decode(t, doc, skip), "accept"
        except Reject as ex:
            expected, verdict = None, f"refuse:{ex.kind}"
        except Gray:
            expected, verdict = None, "unspecified"
        options = DeserializerOptions(skip_unassigned=True) if skip else None
        parser = must(create_deserializer, typ, module, options=options)
        for label, outcome in (
            ("json_to_generic", call(json_to_generic, typ, doc, context=module, options=options)),
            ("json_to_object", call(json_to_object, typ, doc, context=module, options=options)),
            ("parse", call(parser.parse, doc)),
        ):
            if outcome.ok:
                require(
                    not verdict.startswith("refuse"),
                    lambda: f"{w.render(t, mod)} must not accept {doc!r} but {label} {outcome.describe()}",
                )
                if verdict == "accept":
                    require(
                        same(expected, outcome.value),
                        lambda: f"{doc!r} as {w.render(t, mod)} denotes {expected!r} but {label} {outcome.describe()}",
                    )
            else:
                require(
                    verdict != "accept",
                    lambda: f"{doc!r} as {w.render(t, mod)} denotes {expected!r} but {label} {outcome.describe()}",
                )
                require(
                    isinstance(outcome.error, ERRORS),
                    lambda: f"{doc!r} as {w.render(t, mod)}: {label} {outcome.describe()}",
                )
        assert pure_json(doc) is None
    stats.label(verdict, f"depth:{depth_of(t)}", f"corruptions:{count}", *shape_labels(t, universe))
    stats.nontrivial(verdict != "unspecified" and count > 0)


@st.composite
def grid(draw: Any) -> Any:
    "Every simple type against documents of every kind."

    g = Gen(draw, Profile(max_classes=1, kinds=("enum",), depth=1))
    universe = g.make_universe()
    leaf = [("leaf", n) for n in (*ALL_LEAVES, "none", "json", "sjson")]
    wraps = ["", "", "opt", "list", "tuple", "dict", "literal", "enum"]
    wrap = g.pick(wraps)
    t: Any = g.pick(leaf)
    doc = draw(st.one_of(JSON_DOCS, st.sampled_from(
        [True, False, 0, 1, -1, 0.0, 1.0, 1.5, 1e300, 10**400, "", "0", "true", "null", "1.0", None, [], {}, [0], {"": 0}]
    )))
    if wrap not in ("", "opt") and t == ("leaf", "none"):
        t = ("leaf", "bool")  # `None` as an item type has no meaning on its own
    if wrap == "opt" and t[1] not in ("none", "json", "sjson"):
        t = ("opt", t, "O")
    elif wrap == "list":
        t, doc = ("list", t), [doc]
    elif wrap == "tuple":
        t, doc = ("tuple", [t, ("leaf", "int")]), [doc, *g.pick([[0], [0], [], [0, 0]])]
    elif wrap == "dict":
        t, doc = ("dict", t), {"k": doc}
    elif wrap == "literal":
        t = g.make_literal(len(universe["classes"]))
    elif wrap == "enum" and universe["classes"]:
        t = ("cls", 0, False)
        if g.chance(1, 2):
            doc = g.pick(universe["classes"][0]["members"])[g.int(0, 1)]
    return (universe, 0, t, doc, 1, False)


TABLE_DOCS: list[Any] = [
    True, False, 0, 1, -1, 255, 2**31, 2**63, 10**400, 0.0, 1.0, -0.0, 1.5, 1e300, "", "0", "1", "true", "null", "1.0", "a b",
    "NaN", "nan", "Infinity", "-Infinity", "inf", "1e5", "1_0", " 1", "٣", "True", "None", "yes", "on", "[]", "{}", "0x1", "\n", "\x00",
    "YWJj", "YWJ", "YW=j", "2020-02-29", "2020-02-30", "2020-1-1", "20200101", "2020-02-29T01:02:03Z", "2020-02-29T01:02:03",
    "2020-02-29T01:02:03+01:30", "2020-02-29 01:02:03Z", "2020-02-29T25:02:03Z", "01:02:03Z", "01:02:03", "01:02:03.5Z", "24:00:00Z",
    "PT0S", "P1D", "P1DT2H3M4.5S", "-P1D", "PT-1S", "P", "PT", "P1Y", "12345678-1234-5678-1234-567812345678",
    "12345678123456781234567812345678", "{12345678-1234-5678-1234-567812345678}", "12345678-1234-5678-1234-56781234567", "1.2.3.4",
    "1.2.3", "1.2.3.256", "01.2.3.4", "::1", "::", ":::", "1::2::3", "::ffff:1.2.3.4", None, [], {}, [0], [None], ["a"], {"": 0}, {"k": "a"},
    # numbers whose digits would be a valid literal of some other type
    12345678123456781234567812345678, 20200229, 2020, 16909060, 20200229.0, 10203, 100000000000000000000000000000000000000,
    ["YWJj"], ["2020-02-29"], ["12345678-1234-5678-1234-567812345678"], {"a": 1}, {"12345678-1234-5678-1234-567812345678": 1},
]  # fmt: skip


def table() -> Any:
    "Every simple type, at every kind of position, against a fixed choice of documents."

    enums = [
        {"k": "enum", "mod": 0, "name": "E1", "base": "Enum", "members": [("ONE", 1), ("ZERO", 0)]},
        {"k": "enum", "mod": 0, "name": "E2", "base": "StrEnum", "members": [("A", "a"), ("EMPTY", "")]},
        {"k": "enum", "mod": 0, "name": "E3", "base": "Enum", "members": [("T", True), ("F", False)]},
        {"k": "enum", "mod": 0, "name": "E4", "base": "IntEnum", "members": [("ONE", 1), ("NEG", -1)]},
        {"k": "enum", "mod": 0, "name": "E5", "base": "Enum", "members": [("ONE", 1.5), ("ZERO", 0.0)]},
    ]
    universe: dict[str, Any] = {"mods": [False], "classes": enums}
    leaves: list[Any] = [("leaf", n) for n in (*ALL_LEAVES, "none", "json", "sjson")]
    leaves += [("aux", n) for n in (*AUX_RANGE, "float32", "float64")]
    leaves += [("literal", ["a", ""]), ("literal", [0, 1]), ("literal", [True]), ("elit", 0, ["ONE"]), ("elit", 1, ["A"]), ("elit", 3, ["NEG"])]
    leaves += [("cls", i, False) for i in range(len(enums))]
    for t in leaves:
        for doc in TABLE_DOCS:
            yield (universe, 0, t, doc, 1, False)
            if t == ("leaf", "none"):
                continue
            if t[1] not in ("json", "sjson"):
                yield (universe, 0, ("opt", t, "O"), doc, 1, False)
                yield (universe, 0, ("union", [t, ("leaf", "bool")], "U"), doc, 1, False)
            yield (universe, 0, ("list", t), [doc], 1, False)
            yield (universe, 0, ("dict", t), {"k": doc}, 1, False)
            yield (universe, 0, ("tuple", [("leaf", "int"), t]), [0, doc], 1, False)
            for kind in ("dc", "nt", "plain"):
                member = {"k": kind, "mod": 0, "name": "M", "fields": [{"n": "a", "t": t}]}
                yield ({"mods": [False], "classes": [*enums, member]}, 0, ("cls", len(enums), False), {"a": doc}, 1, False)


PARTS = [
    Part("corrupted", lambda: corrupted(Profile(json_leaf=True, recursive=True)), run, quick=8000, thorough=200000),
    Part("simple", grid, run, quick=6000, thorough=120000),
    Part("table", None, run, exhaustive=table),
]
