"C14: a generated JSON schema rejects what the type does not allow."

from typing import Any, Optional

import jsonschema
from hypothesis import strategies as st

from strong_typing.schema import classdef_to_schema, validate_object
from strong_typing.serialization import json_to_object

from ..core import Part, Stats, call, must, require, short
from ..declared import declarations
from ..gen import JSON_DOCS, WRONG_SCALARS, Gen, Profile, get_at, mutate, positions, set_at, shape_labels
from ..schemas import conforms
from ..world import Gray, World, concrete

ID = "C14"
RULE = (
    "A case is a generated program (mutually exclusive unions), a type, and documents: serialized values in which one to "
    "three faults were planted at any depth (kind replaced, member removed, added, renamed or nulled, item dropped, added or "
    "doubled, enumeration, literal and text values changed, numbers just outside an annotated range, lengths just outside the "
    "annotated ones, unknown mapping keys). A reference predicate says whether the schema must admit the document; "
    "jsonschema and the library's own validation must agree, and documents that are admitted must deserialize. Documents "
    "whose status depends on format checks or on 1.0 versus 1 are left out. Non-trivial: at least one document must be refused."
)
PROFILE = Profile(depth=3, exclusive_unions=True, tagged=False, unique_names=True)


def edges(t: Any, w: World) -> list[Any]:
    "Values next to the bounds that annotations of a type set."

    result: list[Any] = []
    todo = [t]
    seen: set[int] = set()
    while todo:
        s = todo.pop()
        if s[0] == "ann":
            for a in s[2]:
                if a[0] == "range":
                    result += [a[1] - 1, a[1], a[2], a[2] + 1]
                elif a[0] in ("minlen", "maxlen"):
                    result += ["x" * a[1], "x" * (a[1] + 1), "x" * max(0, a[1] - 1)]
        if s[0] == "literal":
            result += list(s[1])
        if s[0] in ("cls", "elit", "edict") and s[1] not in seen:
            seen.add(s[1])
            c = w.specs[s[1]]
            if c["k"] == "enum":
                result += [v for _, v in c["members"]]
            else:
                todo += [f["t"] for f in w.fields(s[1])]
        from ..world import subspecs

        todo += subspecs(s)
    return result


@st.composite
def cases(draw: Any, declared: bool = False) -> Any:
    g = Gen(draw, PROFILE)
    if declared:
        universe, mod, t, values = draw(declarations(values=3))
    else:
        universe = g.make_universe()
        mod = g.int(0, len(universe["mods"]) - 1)
        t = g.top_type(mod)
        values = None
    docs = []
    with World(universe) as w:
        special = edges(t, w)
        for _ in range(g.int(1, 3)):
            doc = concrete(w.encode(t, g.pick(values) if values else g.make_value(t)))
            for _ in range(g.int(1, 3)):
                move = g.pick(["mutate", "mutate", "edge", "double", "kind", "key", "drop"])
                places = positions(doc)
                if move in ("drop", "double"):
                    places = [p for p in places if isinstance(get_at(doc, p), list if move == "double" else (list, dict))] or places
                path = g.pick(places)
                old = get_at(doc, path)
                if move == "edge" and special:
                    doc = set_at(doc, path, g.pick(special))
                elif move == "double" and isinstance(old, list) and old:
                    doc = set_at(doc, path, [*old, g.pick(old)])
                elif move == "drop" and old and isinstance(old, list):
                    k = g.int(0, len(old) - 1)
                    doc = set_at(doc, path, old[:k] + old[k + 1 :])
                elif move == "drop" and old and isinstance(old, dict):
                    gone = g.pick(list(old))
                    doc = set_at(doc, path, {k: v for k, v in old.items() if k != gone})
                elif move == "kind":
                    doc = set_at(doc, path, g.pick(WRONG_SCALARS))
                elif move == "key" and isinstance(old, dict):
                    value = g.pick(list(old.values())) if old else g.draw(JSON_DOCS)
                    doc = set_at(doc, path, {**old, g.pick(["zz", "", "one", "ONE", *(k + "x" for k in list(old)[:1])]): value})
                else:
                    doc = mutate(g, doc)
                if g.chance(1, 2):
                    break
            docs.append(doc)
    return (universe, mod, t, docs)


def run(case: Any, stats: Stats) -> None:
    universe, mod, t, docs = case
    with World(universe) as w:
        typ = w.type(t, mod)
        schema = must(classdef_to_schema, typ)
        validator = jsonschema.Draft202012Validator(schema)
        for doc in docs:
            try:
                expected = conforms(w, t, doc)
            except Gray:
                stats.label("left out")
                continue
            error = next(validator.iter_errors(doc), None)
            if expected:
                require(error is None, lambda: f"{short(doc)} as {typ} is refused by its schema: {error.message}")  # noqa: B023
                outcome = call(json_to_object, typ, doc, context=w.modules[mod])
                require(
                    outcome.ok, lambda: f"{short(doc)} as {typ} is admitted by its schema but {outcome.describe()} when deserialized"  # noqa: B023
                )
                stats.label("admitted")
            else:
                require(error is not None, lambda: f"{short(doc)} as {typ} is admitted by its schema {short(schema, 1200)}")  # noqa: B023
                checked = call(validate_object, typ, doc)
                require(
                    isinstance(checked.error, jsonschema.exceptions.ValidationError),
                    lambda: f"validate_object({typ}, {short(doc)}) {checked.describe()}",  # noqa: B023
                )
                stats.label("refused", f"refused by:{error.validator}")
                stats.nontrivial()
        stats.label(*shape_labels(t, universe))


KEYS = ["one", "two", "a.b", "a|b", "x y", "é", "1", "(", "^", "$", "a+", "[b]", "\\\\d", "N/A", "on", "ne", "t", "{2}", "*", "?", "ONE", "#"]


@st.composite
def mapping_cases(draw: Any) -> Any:
    "Mappings keyed by enumerations with few or many members, and keys that resemble a member."

    g = Gen(draw, PROFILE)
    values = g.sample(KEYS, 1, 9)
    universe = {
        "mods": [False],
        "classes": [
            {"k": "enum", "mod": 0, "name": "E", "base": "Enum", "members": [(f"M{i}", v) for i, v in enumerate(values)]},
            {"k": "dc", "mod": 0, "name": "A", "fields": [{"n": "m", "t": ("edict", 0, ("leaf", "int"))}]},
        ],
    }
    t: Any = g.pick([("edict", 0, ("leaf", "int")), ("cls", 1, False), ("list", ("edict", 0, ("leaf", "int"))), ("dict", ("edict", 0, ("leaf", "bool")))])
    docs = []
    for _ in range(g.int(1, 4)):
        keys = g.sample(values, 0, 2)
        near = g.pick(values)
        other = g.pick(values)
        extra = g.pick(
            [near + "x", "x" + near, near + other, f"{near}|{other}", near[:-1], near.upper(), f"({near})", f" {near}", f"{near} ", near * 2, "M0", near.replace(".", "x")]
        )
        keys += [extra] if g.chance(2, 3) else []
        item: Any = dict.fromkeys(keys, False if t[0] == "dict" else 1)
        docs.append({"cls": {"m": item}, "list": [item], "dict": {"k": item}}.get(t[0], item))
    return (universe, 0, t, docs)


# --- text of a wrong form, for the formats that the validator decides ---

FORMATS: dict[str, tuple[list[str], list[str]]] = {
    "date": (["2020-02-29", "1999-12-31"], ["2019-02-29", "2020-13-01", "31-12-1999", "2020-02-30", "", "x", "2020-1-1"]),
    "uuid": (
        ["f81d4fae-7dec-11d0-a765-00a0c91e6bf6", "00000000-0000-0000-0000-000000000000"],
        ["f81d4fae-7dec-11d0-a765-00a0c91e6bfg", "f81d4fae-7dec-11d0-a765-00a0c91e6bf", "", "x", "f81d4fae_7dec_11d0_a765_00a0c91e6bf6"],
    ),
    "ipv4": (["192.0.2.1", "0.0.0.0"], ["192.0.2.256", "192.0.2", "::1", "", "x", "1.2.3.4.5"]),
    "ipv6": (["2001:db8::1", "::"], ["2001:db8::1::", "192.0.2.1", "12345::", "", "x", ":::"]),
}
WRAPS: list[Any] = [
    ("", lambda t: t, lambda x: x),
    ("list", lambda t: ("list", t), lambda x: [x]),
    ("set", lambda t: ("set", t), lambda x: [x]),
    ("dict", lambda t: ("dict", t), lambda x: {"k": x}),
    ("tuple", lambda t: ("tuple", [("leaf", "int"), t]), lambda x: [1, x]),
    ("class", lambda t: ("cls", 0, False), lambda x: {"m": x}),
    ("classes", lambda t: ("cls", 1, False), lambda x: {"n": [{"m": x}]}),
    ("union", lambda t: ("union", [t, ("leaf", "int")], "P"), lambda x: x),
    ("optional", lambda t: ("list", ("opt", t, "O")), lambda x: [x]),
    ("annotated", lambda t: ("ann", t, [("maxlen", 80)]), lambda x: x),
]


def formats() -> Any:
    for name, texts in FORMATS.items():
        for n in range(len(WRAPS)):
            for good in (True, False):
                for text in texts[0 if good else 1]:
                    yield (name, n, good, text)


def run_formats(case: Any, stats: Stats) -> None:
    name, n, good, text = case
    label, wrap, place = WRAPS[n]
    leaf = ("leaf", name)
    t = wrap(leaf)
    universe = {
        "mods": [False],
        "classes": [
            {"k": "dc", "mod": 0, "name": "A", "fields": [{"n": "m", "t": leaf}]},
            {"k": "dc", "mod": 0, "name": "B", "fields": [{"n": "n", "t": ("list", ("cls", 0, False))}]},
        ],
    }
    with World(universe) as w:
        typ = w.type(t, 0)
        doc = place(text)
        checked = call(validate_object, typ, doc)
        if good:
            require(checked.ok, lambda: f"validate_object({typ}, {doc}) {checked.describe()}")
        else:
            require(
                isinstance(checked.error, jsonschema.exceptions.ValidationError), lambda: f"validate_object({typ}, {doc}) {checked.describe()}"
            )
        stats.label("admitted" if good else "refused", name, label)
        stats.nontrivial(not good)


PARTS = [
    Part("formats", None, run_formats, exhaustive=formats),
    Part("documents", cases, run, quick=3500, thorough=60000),
    Part("declarations", lambda: cases(declared=True), run, quick=4000, thorough=40000),
    Part("mappings", mapping_cases, run, quick=1500, thorough=20000),
]
