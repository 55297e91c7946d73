"C06: missing, null, extra and defaulted members are treated as declared."

import dataclasses
from typing import Any, Iterator

from hypothesis import strategies as st

from strong_typing.deserializer import DeserializerOptions
from strong_typing.exception import JsonKeyError, JsonTypeError, JsonValueError
from strong_typing.serialization import json_to_generic

from ..core import Part, Stats, call, must, require
from ..declared import declarations
from ..gen import ALIASES, FIELD_NAMES, Gen, Profile, get_at, set_at, shape_labels
from ..world import Gray, Reject, World, concrete, is_optional, json_name, same, strip_ann, unwrap_optional

ID = "C06"
RULE = (
    "A case is a program with class-like types, a type, the encoding of a value of it, and a list of edits on JSON objects "
    "that stand for class instances at any depth: members removed, set to null, added, or reordered. Both settings of the "
    "ignore-extra-members option are tried in a generated order. Expected object or refusal comes from a reference reader; "
    "the kind of the error must be one that some fault in the document calls for. Factory defaults must be distinct objects "
    "in distinct results. Non-trivial: at least one edit was made to an object."
)


def class_objects(w: World, t: Any, doc: Any, path: tuple[Any, ...] = ()) -> Iterator[tuple[tuple[Any, ...], int]]:
    "Positions in a document at which there is an object standing for an instance of a class."

    t = strip_ann(t)
    kind = t[0]
    if doc is None:
        return
    if kind == "opt":
        yield from class_objects(w, t[1], doc, path)
    elif kind in ("list", "set"):
        for i, x in enumerate(doc):
            yield from class_objects(w, t[1], x, (*path, i))
    elif kind == "tuple":
        for i, (s, x) in enumerate(zip(t[1], doc)):
            yield from class_objects(w, s, x, (*path, i))
    elif kind in ("dict", "edict"):
        for k, x in doc.items():
            yield from class_objects(w, t[-1], x, (*path, k))
    elif kind == "cls" and w.specs[t[1]]["k"] != "enum":
        yield path, t[1]
        for f in w.fields(t[1]):
            name = json_name(f["n"], f["t"])
            if name in doc:
                yield from class_objects(w, f["t"], doc[name], (*path, name))


def faults(w: World, t: Any, doc: Any, skip: bool, inside: bool = False) -> set[str]:
    "Kinds of all faults in a document that is valid but for missing, null and extra members."

    t = strip_ann(t)
    kind = t[0]
    if kind == "opt":
        found = faults(w, t[1], doc, skip) if doc is not None else set()
        return found if inside else ({"key"} if found else set())
    if kind in ("list", "set"):
        return set().union(*(faults(w, t[1], x, skip) for x in doc))
    if kind == "tuple":
        return set().union(*(faults(w, s, x, skip) for s, x in zip(t[1], doc)))
    if kind in ("dict", "edict"):
        return set().union(*(faults(w, t[-1], x, skip) for x in doc.values()))
    if kind == "cls" and w.specs[t[1]]["k"] != "enum":
        result: set[str] = set()
        names = set()
        for f in w.fields(t[1]):
            name = json_name(f["n"], f["t"])
            names.add(name)
            if doc.get(name) is not None:
                result |= faults(w, f["t"], doc[name], skip, inside=True)
            elif is_optional(f["t"]) or w.specs[t[1]]["k"] == "dc" and f.get("d"):
                pass
            else:
                result.add("value" if name in doc else "key")
        if not skip and any(k not in names for k in doc):
            result.add("key")
        return result
    return set()


ERRORS = {"key": (JsonKeyError,), "value": (JsonValueError, ValueError), "type": (JsonTypeError,)}
EXTRA = ["extra", "x", "in", "in_", "", "a", "é", "_a", "$ref"]


PROFILE = Profile(
    unions=False, kinds=("dc", "dc", "nt", "plain", "exc"), depth=2, max_fields=4, min_classes=1, more_defaults=True
)


@st.composite
def edited(draw: Any, declared: bool = False) -> Any:
    g = Gen(draw, PROFILE)
    if declared:
        universe, mod, t, (v, *_) = draw(declarations(profile=PROFILE))
    else:
        universe = g.make_universe()
        mod = g.int(0, len(universe["mods"]) - 1)
        t = g.top_type(mod) if g.chance(1, 4) else ("cls", len(universe["classes"]) - 1, False)
        if g.chance(1, 4):
            t = ("list", t)
        v = g.make_value(t, 4)
    edits: list[Any] = []
    with World(universe) as w:
        doc = concrete(w.encode(t, v))
        for _ in range(g.pick([1, 1, 2, 3, 0])):
            places = list(class_objects(w, t, doc))
            if not places:
                break
            path, index = g.pick(places)
            obj = get_at(doc, path)
            fields = w.fields(index)
            names = [json_name(f["n"], f["t"]) for f in fields]
            move = g.pick(["remove", "remove", "null", "null", "extra", "extra", "reorder", "respell"])
            if move in ("remove", "null") and not names:
                move = "extra"
            if move == "remove":
                gone = g.sample(names, 1, max(1, len(names)))
                new = {k: x for k, x in obj.items() if k not in gone}
            elif move == "null":
                void = g.sample(names, 1, max(1, len(names)))
                new = {**obj, **dict.fromkeys(void)}
            elif move == "respell" and fields:
                f = g.pick(fields)
                name = json_name(f["n"], f["t"])
                spelling = g.pick([f["n"], f["n"] + "_", f["n"].rstrip("_"), name + "_", name.upper()])
                new = {(spelling if k == name else k): x for k, x in obj.items()}
            elif move == "reorder":
                keys = g.sample(list(obj), len(obj), len(obj))
                new = {k: obj[k] for k in keys}
            else:
                pool = [n for n in EXTRA + [f["n"] for f in fields] + FIELD_NAMES[:6] + ALIASES[:3] if n not in names]
                new = dict(obj)
                for n in g.sample(pool, 1, 2):
                    new[n] = g.pick([None, 1, "x", [], {"a": 1}])
                if g.chance(1, 2):
                    new = {k: new[k] for k in reversed(list(new))}
            edits.append((move, len(path)))
            doc = set_at(doc, path, new)
    return (universe, mod, t, doc, edits, g.chance(1, 2))


def collect_factories(w: World, t: Any, doc: Any, obj: Any) -> Iterator[Any]:
    "Mutable members of a result that come from a default factory."

    t = strip_ann(t)
    kind = t[0]
    if doc is None:
        return
    if kind == "opt":
        yield from collect_factories(w, t[1], doc, obj)
    elif kind == "list":
        for x, o in zip(doc, obj):
            yield from collect_factories(w, t[1], x, o)
    elif kind == "tuple":
        for s, x, o in zip(t[1], doc, obj):
            yield from collect_factories(w, s, x, o)
    elif kind == "dict":
        for x, o in zip(doc.values(), obj.values()):
            yield from collect_factories(w, t[1], x, o)
    elif kind == "cls" and w.specs[t[1]]["k"] != "enum":
        for f in w.fields(t[1]):
            value = getattr(obj, f["n"])
            item = doc.get(json_name(f["n"], f["t"]))
            if item is None:
                if w.specs[t[1]]["k"] == "dc" and (f.get("d") or ("",))[0] == "fac" and mutable(value):
                    yield value
            else:
                yield from collect_factories(w, unwrap_optional(f["t"]) if is_optional(f["t"]) else f["t"], item, value)


def mutable(value: Any) -> bool:
    return isinstance(value, (list, dict, set)) or hasattr(value, "__dict__") and not hasattr(type(value), "__members__")


def run(case: Any, stats: Stats) -> None:
    universe, mod, t, doc, edits, first = case
    with World(universe) as w:
        typ = w.type(t, mod)
        module = w.modules[mod]
        for skip in (first, not first, first):
            try:
                expected, refused = w.decode(t, doc, skip), False
            except Reject:
                expected, refused = None, True
            except Gray:
                continue
            options = DeserializerOptions(skip_unassigned=skip)
            outcome = call(json_to_generic, typ, doc, context=module, options=options)
            where = lambda: f"{doc!r} as {w.render(t, mod)} with skip_unassigned={skip}"  # noqa: B023, E731
            if not refused:
                require(outcome.ok, lambda: f"{where()} denotes {expected!r} but {outcome.describe()}")  # noqa: B023
                require(
                    same(expected, outcome.value),  # noqa: B023
                    lambda: f"{where()} denotes {expected!r} but {outcome.describe()}",  # noqa: B023
                )
                again = must(json_to_generic, typ, doc, context=module, options=options)
                made = [list(collect_factories(w, t, doc, r)) for r in (outcome.value, again)]
                ids = [id(x) for xs in made for x in xs]
                require(
                    len(set(ids)) == len(ids),
                    lambda: f"{where()}: objects made by a default factory are shared between results",
                )
                if ids:
                    stats.label("factory defaults")
            else:
                kinds = faults(w, t, doc, skip)
                assert kinds, (t, doc)
                allowed = tuple(e for k in kinds for e in ERRORS[k])
                require(not outcome.ok, lambda: f"{where()} must be refused but {outcome.describe()}")  # noqa: B023
                require(
                    isinstance(outcome.error, allowed),
                    lambda: f"{where()} must be refused with {sorted(kinds)} error but {outcome.describe()}",  # noqa: B023
                )
                stats.label(*(f"refused:{k}" for k in sorted(kinds)))
    stats.label(*(f"edit:{m}" for m, _ in edits), *shape_labels(t, universe))
    if any(d for _, d in edits):
        stats.label("edit:nested")
    stats.nontrivial(bool(edits))


LOOSE = [0, 1, -1, True, False, "", "a", "2024-01-01", "PT1S", 0.0, 1.0, 1.5, 2**70, "true", "127.0.0.1", (), (1, 2)]


@st.composite
def loose_defaults(draw: Any) -> Any:
    "Members whose default need not be of the declared type, and a value for the member."

    g = Gen(draw, LOOSE_PROFILE)
    universe = g.make_universe()
    mod = g.int(0, len(universe["mods"]) - 1)
    t = g.top_type(mod)
    t = unwrap_optional(t) if is_optional(t) else t
    v = g.make_value(t, 3)
    default = g.pick(["encoded", "encoded", "loose", "loose", "value", "null"])
    loose = g.pick(LOOSE)
    docs = []
    for _ in range(g.int(1, 3)):
        docs.append(g.pick(["default", "default", "value", "loose", "null", "missing"]))
    return (universe, mod, t, v, default, loose, g.chance(1, 4), docs, g.pick(LOOSE[:-2]))


LOOSE_PROFILE = Profile(depth=2, max_classes=2, max_fields=2)


def run_loose(case: Any, stats: Stats) -> None:
    universe, mod, t, v, kind, loose, factory, docs, other = case
    with World(universe) as w:
        typ = w.type(t, mod)
        module = w.modules[mod]
        value = w.build(t, v)
        encoded = concrete(w.encode(t, v))
        default = {"encoded": encoded, "loose": loose, "value": value, "null": None}[kind]
        calls = []

        def make() -> Any:
            calls.append(None)
            return default

        try:
            field: Any = dataclasses.field(default_factory=make) if factory else dataclasses.field(default=default)
            cls = dataclasses.make_dataclass("Loose", [("x", typ, field)])
        except ValueError:
            factory = True  # mutable
            cls = dataclasses.make_dataclass("Loose", [("x", typ, dataclasses.field(default_factory=make))])
        plain = dataclasses.make_dataclass("Plain", [("x", typ)])
        cls.__module__ = plain.__module__ = module.__name__
        del calls[:]
        for how in docs:
            if how == "missing":
                doc: Any = {}
            else:
                doc = {"x": {"default": default, "value": encoded, "loose": other, "null": None}[how]}
                if how == "default" and not is_json_value(default):
                    continue
            outcome = call(json_to_generic, cls, doc, context=module)
            count = len(calls)
            del calls[:]
            where = lambda: f"{doc!r} as class with member of type {typ} and default {default!r}"  # noqa: B023, E731
            if doc.get("x") is None:
                require(outcome.ok and outcome.value.x is default, lambda: f"{where()} {outcome.describe()}")  # noqa: B023
                require(count == factory, lambda: f"{where()}: default factory is called {count} times")  # noqa: B023
                stats.label("default taken")
                continue
            require(count == 0, lambda: f"{where()}: default factory is called {count} times")  # noqa: B023
            same_as = call(json_to_generic, plain, doc, context=module)
            if same_as.ok:
                require(
                    outcome.ok and same(same_as.value.x, outcome.value.x),
                    lambda: f"{where()} {outcome.describe()}, {same_as.value.x!r} without a default",  # noqa: B023
                )
            else:
                require(
                    not outcome.ok and type(outcome.error) is type(same_as.error),
                    lambda: f"{where()} {outcome.describe()}, but {same_as.describe()} without a default",  # noqa: B023
                )
            stats.label(f"default {kind}, document {how}, {'read' if outcome.ok else 'refused'}")
            stats.nontrivial(how == "default")


def is_json_value(value: Any) -> bool:
    if type(value) is list:
        return all(map(is_json_value, value))
    if type(value) is dict:
        return all(map(is_json_value, value.values()))
    return value is None or type(value) in (bool, int, float, str)


PARTS = [
    Part("members", edited, run, quick=7000, thorough=180000),
    Part("declarations", lambda: edited(declared=True), run, quick=5000, thorough=60000),
    Part("loose defaults", loose_defaults, run_loose, quick=4000, thorough=60000),
]
