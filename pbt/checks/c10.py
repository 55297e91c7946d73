"C10: member names are translated the same way everywhere."

import collections
import keyword
from typing import Any

from hypothesis import strategies as st

from strong_typing.deserializer import DeserializerOptions
from strong_typing.exception import JsonKeyError
from strong_typing.mapping import python_field_to_json_property
from strong_typing.schema import classdef_to_schema
from strong_typing.serialization import json_to_object, object_to_json
from strong_typing.serializer import create_serializer

from ..core import Part, Stats, call, must, require
from ..gen import ALIASES, FIELD_NAMES, HARD_KEYWORDS, Gen, Profile
from ..world import World, concrete, is_optional, json_name, same

ID = "C10"
RULE = (
    "A case is a class of any kind (data class, named tuple, plain class, exception, with or without a base class) whose "
    "members have generated names (all keywords with one or two underscores, soft keywords, leading underscores, non-ASCII) "
    "and annotations (aliases at any place of the annotation list, nested annotations, optional, defaulted). Written, read "
    "and schema names must equal a reference mapping; any other spelling of one member must be refused as unknown (and the "
    "member be missing). All names are also given to attributes of objects without annotations and to fields of untyped named "
    "tuples. Non-trivial: at least one member whose JSON name differs from its Python name."
)

NAMES = list(
    dict.fromkeys(
        [k + "_" for k in HARD_KEYWORDS]
        + [k + "__" for k in HARD_KEYWORDS[::5]]
        + [s + "_" for s in keyword.softkwlist if s != "_"]
        + list(keyword.softkwlist[1:])
    + ["ord", "ins", "ify", "iss", "ass", "nota", "forE", "tryX", "defé", "dels", "Nones", "Truer", "in1", "_if", "_in_x"]
        + FIELD_NAMES
        + ["ünïcode_", "_private", "_in_", "iN_", "IN_", "none_", "true_", "x__y", "a1_", "self_", "cls", "self", "id_", "Class_", "_0"]
    )
)
NAMES = [n for n in NAMES if not keyword.iskeyword(n)]
MORE_ALIASES = [*ALIASES, "x-y", "b", "in", "class_", "from", "self", "__init__", "0", " ", "\n", "ſ"]


@st.composite
def classes(draw: Any) -> Any:
    g = Gen(draw, Profile())
    kind = g.pick(["dc", "dc", "nt", "plain", "exc"])
    future = g.chance(1, 3)
    used: set[str] = set()

    def fields(lo: int, hi: int) -> list[dict[str, Any]]:
        result = []
        names = [n for n in NAMES if kind != "nt" or not n.startswith("_") and n not in ("count", "index", "cls")]
        for n in g.sample(names, lo, hi):
            t: Any = ("leaf", g.pick(["int", "str", "bool"]))
            shape = g.int(0, 5)
            if shape == 1:
                t = ("list", t)
            elif shape == 2:
                t = ("aux", g.pick(["int8", "float64"]))
            elif shape == 3:
                t = ("literal", ["v", "w"])
            if g.chance(1, 3):
                t = ("opt", t, g.pick("OUPVQ"))
            if g.chance(1, 2):
                annots: list[Any] = [("alias", g.pick(MORE_ALIASES))]
                if g.chance(1, 3):
                    annots.insert(g.int(0, 1), ("mark", 1))
                if g.chance(1, 6):
                    annots.append(("alias", "second"))
                if g.chance(1, 4):  # annotated twice
                    t = ("ann", ("ann", t, annots[:1]), annots[1:] or [("mark", 2)])
                else:
                    t = ("ann", t, annots)
            elif g.chance(1, 8):
                t = ("ann", t, [("mark", 1)])
            j = json_name(n, t)
            if n in used or j in used or any(r["n"] == n for r in result):
                continue
            used.update({n, j})
            f: dict[str, Any] = {"n": n, "t": t}
            if kind == "dc" and g.chance(1, 4):
                f["d"] = ("fac", g.make_value(t))
            if kind != "nt" and not future and g.chance(1, 6):
                f["q"] = True
            result.append(f)
        return sorted(result, key=lambda f: bool(f.get("d")))

    specs: list[dict[str, Any]] = []
    options = {o: g.chance(1, 3) for o in ("frozen", "slots")} if kind == "dc" else {}
    if kind != "nt" and g.chance(1, 3):
        specs.append({"k": kind, "mod": 0, "name": "Base", "fields": fields(1, 2), **options, "kw_only": True})
    spec = {"k": kind, "mod": 0, "name": "Main", "fields": fields(1, 4), **options, "kw_only": True}
    if specs:
        spec["base"] = 0
    specs.append(spec)
    g.universe = {"mods": [future], "classes": specs}
    t = ("cls", len(specs) - 1, False)
    value = g.make_value(t)
    # another spelling for one member
    which = g.int(0, 20)
    spelling = g.int(0, 7)
    return (g.universe, t, value, which, spelling, g.pick(["", "list", "member"]))


def run(case: Any, stats: Stats) -> None:
    universe, t, value, which, spelling, wrap = case
    with World(universe) as w:
        cls = w.type(t, 0)
        module = w.modules[0]
        fields = w.fields(t[1])
        names = {f["n"]: json_name(f["n"], f["t"]) for f in fields}

        # the mapping itself
        for f in fields:
            typ = w.type(f["t"], 0, plain=True)
            got = must(python_field_to_json_property, f["n"], typ)
            require(got == names[f["n"]], lambda: f"{f['n']}: {typ} maps to {got!r}, expected {names[f['n']]!r}")  # noqa: B023
            bare = must(python_field_to_json_property, f["n"])
            want = json_name(f["n"], ("leaf", "int"))
            require(bare == want, lambda: f"{f['n']} maps to {bare!r}, expected {want!r}")  # noqa: B023

        # writing
        obj = w.build(t, value)
        doc = concrete(w.encode(t, value))
        for fn in (object_to_json, must(create_serializer, cls, module).generate):
            out = must(fn, obj)
            require(
                type(out) is dict and list(out) == list(doc),
                lambda: f"{obj!r} is written with names {list(out)}, expected {list(doc)}",  # noqa: B023
            )

        # schema
        schema = must(classdef_to_schema, cls)
        properties = schema.get("properties", {})
        require(
            set(properties) == set(names.values()),
            lambda: f"schema of {w.source(t[1])} has properties {list(properties)}, expected {list(names.values())}",
        )
        required = {names[f["n"]] for f in fields if not is_optional(f["t"])}
        require(
            set(schema.get("required", [])) == required,
            lambda: f"schema of {w.source(t[1])} requires {schema.get('required')}, expected {sorted(required)}",
        )

        # reading
        def read(document: Any, skip: bool = False) -> Any:
            options = DeserializerOptions(skip_unassigned=skip)
            if wrap == "list":
                return call(lambda: json_to_object(list[cls], [document], context=module, options=options)[0])  # type: ignore
            return call(json_to_object, cls, document, context=module, options=options)

        outcome = read(doc)
        require(
            outcome.ok and same(outcome.value, w.decode(t, doc)),
            lambda: f"{doc!r} as {w.source(t[1])} {outcome.describe()}, expected {obj!r}",
        )

        present = [f for f in fields if names[f["n"]] in doc]
        if present:
            f = present[which % len(present)]
            name = names[f["n"]]
            options = [f["n"], f["n"] + "_", f["n"].rstrip("_"), name + "_", name.upper(), name.lower(), name.lstrip("_"), name + " "]
            other = options[spelling]
            if other not in names.values():
                changed = {(other if k == name else k): x for k, x in doc.items()}
                outcome = read(changed)
                require(
                    not outcome.ok and isinstance(outcome.error, JsonKeyError),
                    lambda: f"{other!r} in place of {name!r} for {w.source(t[1])} {outcome.describe()}",
                )
                outcome = read(changed, skip=True)
                if is_optional(f["t"]) or f.get("d"):
                    without = {k: x for k, x in doc.items() if k != name}
                    require(
                        outcome.ok and same(outcome.value, w.decode(t, without)),
                        lambda: f"{other!r} in place of {name!r}, ignoring extra members, {outcome.describe()}",
                    )
                else:
                    require(
                        not outcome.ok and isinstance(outcome.error, JsonKeyError),
                        lambda: f"{other!r} in place of {name!r}, ignoring extra members, {outcome.describe()}",
                    )
                stats.label("other spelling")
    stats.label(f"class:{w.specs[t[1]]['k']}", *(f"name:{'alias' if f['t'][0] == 'ann' and names[f['n']] != f['n'] else 'keyword' if names[f['n']] != f['n'] else 'same'}" for f in fields))
    stats.nontrivial(any(n != j for n, j in names.items()))


def all_names() -> Any:
    "Every name once, for every kind of class."

    for kind in ("dc", "nt", "plain", "exc"):
        for n in NAMES:
            if kind == "nt" and (n.startswith("_") or n == "cls"):
                continue
            for t in (("leaf", "int"), ("opt", ("leaf", "int"), "O"), ("ann", ("leaf", "int"), [("mark", 1)])):
                universe = {"mods": [False], "classes": [{"k": kind, "mod": 0, "name": "Main", "fields": [{"n": n, "t": t}]}]}
                value = {n: [1] if t[0] == "opt" else 1}
                yield (universe, ("cls", 0, False), value, 0, 0, "")


def untyped_names() -> Any:
    "Every name, as an attribute of an object without annotations and as a field of an untyped named tuple."

    for n in NAMES:
        yield ("attribute", n)
        if not n.startswith("_"):
            yield ("field", n)


class Bare:
    pass


def run_untyped(case: Any, stats: Stats) -> None:
    kind, n = case
    obj: Any
    if kind == "field":
        obj = collections.namedtuple("Tup", [n])(1)  # type: ignore
    else:
        obj = Bare()
        setattr(obj, n, 1)
    want = json_name(n, ("leaf", "int"))
    for label, outcome in (("object_to_json", call(object_to_json, obj)), ("in a list", call(object_to_json, [obj]))):
        value = outcome.value[0] if outcome.ok and label == "in a list" else outcome.value
        require(outcome.ok and value == {want: 1}, lambda: f"{kind} {n!r} ({label}) {outcome.describe()}, expected {want!r}")  # noqa: B023
    stats.label(f"untyped:{kind}")
    stats.nontrivial(want != n)


PARTS = [
    Part("classes", classes, run, quick=4000, thorough=80000),
    Part("all-names", None, run, exhaustive=all_names),
    Part("untyped-names", None, run_untyped, exhaustive=untyped_names),
]
