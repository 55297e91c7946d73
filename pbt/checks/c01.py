"C01: serializing and then deserializing gives the value back."

import dataclasses
import json
from typing import Optional

from strong_typing.serialization import json_dump_string, json_to_generic, json_to_object, object_to_json
from strong_typing.serializer import create_serializer

from ..core import Discard, Part, Probe, Stats, must, require
from ..declared import declarations
from ..gen import DEFAULT, Profile, shape_labels, typed_values
from ..world import Gray, Reject, World, concrete, depth_of, same

ID = "C01"
RULE = (
    "A case is a generated program (0-4 classes: data classes with frozen/slots/kw_only, named tuples, plain classes, "
    "exceptions, enumerations; inheritance, forward references, several modules, string annotations), a type expression "
    "over it and values of the type. The value is serialized (by run-time and by declared type), dumped to text, loaded, "
    "and deserialized. Non-trivial: the type is a class or has a container or union, i.e. not a lone leaf, and the value "
    "is in the domain (the documented decoding of its documented encoding is the value itself)."
)


def run(case, stats: Stats) -> None:
    universe, mod, t, values = case
    with World(universe) as w:
        typ = w.type(t, mod)
        module = w.modules[mod]
        for v in values:
            obj = w.build(t, v)
            try:
                reference = w.decode(t, concrete(w.encode(t, v)))
            except (Gray, Reject):
                raise Discard()
            if not same(reference, obj):
                raise Discard()  # e.g. an earlier union member accepts the document

            by_value = must(object_to_json, obj)
            serializer = must(create_serializer, typ, module)
            by_type = must(serializer.generate, obj)
            for label, doc in (("object_to_json", by_value), ("create_serializer", by_type)):
                text = must(json_dump_string, doc)
                loaded = must(json.loads, text)
                back = must(json_to_generic, typ, loaded, context=module)
                require(same(back, obj), lambda: f"{obj!r} -> {label} -> {text} -> {back!r}")
                back = must(json_to_object, typ, loaded, context=module)
                require(same(back, obj), lambda: f"{obj!r} -> {label} -> {text} -> json_to_object -> {back!r}")
        labels = shape_labels(t, universe)
        stats.label(*labels, f"depth:{depth_of(t)}")
        stats.nontrivial(t[0] not in ("leaf", "aux", "literal"))


def run_leaf(case, stats: Stats) -> None:
    run(case, stats)
    stats.nontrivial()


def leaf_cases():
    from hypothesis import strategies as st

    from ..gen import LEAF_VALUES, ALL_LEAVES

    universe = {"mods": [False], "classes": []}
    return st.sampled_from(ALL_LEAVES + ("none", "json", "sjson")).flatmap(
        lambda n: LEAF_VALUES[n].map(lambda v: (universe, 0, ("leaf", n), [v]))
    )


@dataclasses.dataclass
class Defaulted:
    member: Optional[int] = 5


def probe_default() -> Optional[str]:
    obj = Defaulted(None)
    back = json_to_object(Defaulted, object_to_json(obj))
    if back != obj:
        return f"{obj} (declared as member: Optional[int] = 5) is read back as {back}"
    return None


probes = [Probe("none-over-default", probe_default)]

PARTS = [
    Part("programs", lambda: typed_values(Profile(json_leaf=True, recursive=True), values=2), run, quick=6000, thorough=160000),
    Part("declarations", declarations, run, quick=3000, thorough=40000),
    Part("leaves", leaf_cases, run_leaf, quick=4000, thorough=80000),
]
