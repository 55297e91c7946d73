"C08: unions pick the right member."

from typing import Any

from hypothesis import strategies as st

from strong_typing.deserializer import DeserializerOptions, create_deserializer
from strong_typing.exception import JsonKeyError, JsonTypeError, JsonValueError
from strong_typing.serialization import json_to_generic

from ..core import Part, Stats, call, must, require
from ..gen import JSON_DOCS, Gen, Profile, mutate, shape_labels
from ..world import Gray, Reject, World, concrete, same

ID = "C08"
RULE = (
    "Part `plain`: unions of 2-5 overlapping member types (leaves, containers, enumerations, literals, classes over the same "
    "few member names, some with a literal that all but one of the classes have) in several positions, with documents that are encodings of a value of any member, corrupted, or "
    "arbitrary; a reference takes the first member type that accepts, and requires a key error if there is none. Part "
    "`tagged`: unions of 2-4 classes of any kind with one or two literal-typed members in common (renamed, aliased, "
    "multi-valued, enumeration literals, inherited), with documents whose tag is right, of another class, missing, null, "
    "unknown, or ill-typed; ambiguous declarations must be refused when the converter is made. Non-trivial: at least two "
    "members could match by JSON kind (plain), or all tagged cases."
)

SMALL = ("int", "float", "str", "bool", "date", "datetime", "uuid", "bytes", "time", "timedelta", "ipv4")


def overlapping_classes(g: Gen, mods: int) -> list[dict[str, Any]]:
    classes: list[dict[str, Any]] = []
    for i in range(g.int(2, 4)):
        kind = g.pick(["dc", "dc", "nt", "plain", "exc", "enum"])
        mod = g.int(0, mods - 1)
        name = "ABCD"[i]
        if kind == "enum":
            classes.append(g.make_enum(mod, name))
            continue
        fields: list[dict[str, Any]] = []
        for n in g.sample(["a", "b"] if g.chance(1, 2) else ["a", "b", "c"], 1 if kind != "dc" else 0, 3):
            t: Any = ("leaf", g.pick(["int", "str", "bool", "date", "float"]))
            if g.chance(1, 3):
                t = ("opt", t, g.pick("OUPVQ"))
            elif g.chance(1, 4):
                t = g.pick([("list", t), ("dict", t), ("literal", ["x", "y"]), ("literal", [1])])
            f: dict[str, Any] = {"n": n, "t": t}
            if kind == "dc" and g.chance(1, 4):
                f["d"] = ("fac", g.make_value(t))
            fields.append(f)
        fields.sort(key=lambda f: bool(f.get("d")))
        spec = {"k": kind, "mod": mod, "name": name, "fields": fields}
        if kind == "dc":
            spec.update({o: g.chance(1, 3) for o in ("frozen", "slots", "kw_only")})
        classes.append(spec)
    objects = [c for c in classes if c["k"] != "enum"]
    if len(objects) > 1 and g.chance(1, 3):
        # a literal in common that one of the classes does not have, or has as another type
        odd = g.pick(objects)
        for i, spec in enumerate(objects):
            spec["fields"] = [f for f in spec["fields"] if f["n"] != "kind"]
            if spec is not odd:
                spec["fields"].insert(0, {"n": "kind", "t": ("literal", ["xyzw"[i]])})
            elif g.chance(1, 2):
                spec["fields"].insert(0, {"n": "kind", "t": ("leaf", "str")})
    return classes


def family_member(g: Gen, family: str) -> Any:
    "Types that accept the same kind of JSON document."

    enums = [i for i, c in enumerate(g.classes()) if c["k"] == "enum"]
    objects = [i for i, c in enumerate(g.classes()) if c["k"] != "enum"]
    if family == "string":
        options: list[Any] = [("leaf", n) for n in ("str", "bytes", "uuid", "date", "datetime", "time")]
        options += [("literal", ["", "1", "null"]), ("leaf", "str"), ("literal", ["AAAA", "true", "a"])]
    elif family == "number":
        options = [("leaf", "int"), ("leaf", "float"), ("literal", [0, 1, 2]), ("literal", [True]), ("leaf", "bool"), ("aux", "int8")]
    elif family == "object":
        options = [("cls", i, False) for i in objects * 3]
        options += [("dict", ("leaf", n)) for n in ("int", "str", "float")]
    else:
        leaf = ("leaf", g.pick(["int", "float", "str", "bytes"]))
        options = [("list", leaf), ("set", leaf), ("tuple", [leaf]), ("tuple", [leaf, leaf]), ("list", ("list", leaf))]
        if objects:
            options.append(("list", ("cls", g.pick(objects), False)))
    if enums and family in ("string", "number"):
        options.append(("cls", g.pick(enums), False))
    return g.pick(options) if options else ("leaf", "int")


def member_type(g: Gen) -> Any:
    kind = g.pick(["leaf", "leaf", "cls", "cls", "list", "dict", "tuple", "set", "literal", "ann", "none"])
    leaf = ("leaf", g.pick(SMALL))
    if kind == "leaf":
        return leaf
    if kind == "cls":
        return ("cls", g.int(0, len(g.classes()) - 1), False)
    inner = leaf if not g.chance(1, 3) else ("cls", g.int(0, len(g.classes()) - 1), False)
    if kind in ("list", "dict"):
        return (kind, inner)
    if kind == "tuple":
        return ("tuple", [leaf, inner] if g.chance(1, 2) else [inner])
    if kind == "set":
        return ("set", leaf)
    if kind == "literal":
        return g.make_literal(len(g.classes()))
    if kind == "ann":
        return ("ann", leaf, [("mark", 1)])
    return ("leaf", "none")


def key(t: Any) -> str:
    if t[0] == "literal":
        return repr(sorted(map(repr, t[1])))
    return repr(t[1]) if t[0] == "ann" else repr(t)


@st.composite
def plain_unions(draw: Any) -> Any:
    g = Gen(draw, Profile())
    mods = g.int(1, 2)
    g.universe = {"mods": [g.chance(1, 3) for _ in range(mods)], "classes": []}
    g.universe["classes"] = overlapping_classes(g, mods)
    members: list[Any] = []
    keys: set[str] = set()
    family = g.pick(["string", "number", "object", "array", "any"])
    for _ in range(g.int(2, 5)):
        m = member_type(g) if family == "any" or g.chance(1, 8) else family_member(g, family)
        if key(m) not in keys:
            keys.add(key(m))
            members.append(m)
    if len(members) < 2:
        members = [("leaf", "int"), ("leaf", "str")]
    if g.shell_kind(("union", members, "U")) != "plain":
        members.append(("leaf", "int") if ("leaf", "int") not in members else ("leaf", "uuid"))
    style = "U" if not g.chance(1, 3) or any(m == ("leaf", "none") for m in members[:2]) else "P"
    union: Any = ("union", members, style)
    v = g.make_value(union)
    with World(g.universe) as w:
        doc = concrete(w.encode(union, v))
    move = g.pick(["same", "same", "mutate", "mutate", "any"])
    if move == "mutate":
        for _ in range(g.int(1, 2)):
            doc = mutate(g, doc)
    elif move == "any":
        doc = draw(JSON_DOCS)
    position = g.pick(["top", "top", "list", "dict", "tuple", "member"])
    return (g.universe, union, doc, position, g.chance(1, 4))


def run_plain(case: Any, stats: Stats) -> None:
    universe, union, doc, position, skip = case
    if position == "member":
        universe = {
            "mods": universe["mods"],
            "classes": [*universe["classes"], {"k": "dc", "mod": 0, "name": "Holder", "fields": [{"n": "x", "t": union}]}],
        }
    with World(universe) as w:
        t, document = union, doc
        get = lambda r: r  # noqa: E731
        if position == "list":
            t, document, get = ("list", union), [doc], lambda r: r[0]
        elif position == "dict":
            t, document, get = ("dict", union), {"k": doc}, lambda r: r["k"]
        elif position == "tuple":
            t, document, get = ("tuple", [union, ("leaf", "int")]), [doc, 0], lambda r: r[0]
        elif position == "member":
            t, document, get = ("cls", len(universe["classes"]) - 1, False), {"x": doc}, lambda r: r.x
        options = DeserializerOptions(skip_unassigned=skip)
        if position == "member" and doc is None:
            return  # a null member, not a union member
        if position == "member" and ("leaf", "none") in union[1]:
            # an optional member of a class reads as the union without `None`
            rest = [m for m in union[1] if m != ("leaf", "none")]
            if len(rest) < 2:
                return
            reference: Any = ("union", rest, "U")
            if w.union_kind(reference) != "plain":
                return
        else:
            reference = union
        accepted = []
        try:
            for m in reference[1]:
                try:
                    accepted.append(w.decode(m, doc, skip))
                except Reject:
                    pass
        except Gray:
            return
        typ = w.type(t, 0)
        outcome = call(json_to_generic, typ, document, context=w.modules[0], options=options)
        if accepted:
            require(
                outcome.ok and same(accepted[0], get(outcome.value)),
                lambda: f"{doc!r} as {w.render(t, 0)}: first match is {accepted[0]!r} but {outcome.describe()}",
            )
        else:
            require(
                not outcome.ok and isinstance(outcome.error, JsonKeyError),
                lambda: f"{doc!r} as {w.render(t, 0)} matches no member, expected a key error but {outcome.describe()}",
            )
    if union[1][0] != t and accepted and len(accepted) > 1 and not same(accepted[0], accepted[1]):
        stats.label("order matters")
    stats.label(f"accepting members:{min(len(accepted), 3)}", f"at:{position}", *shape_labels(union, universe))
    stats.nontrivial(len(accepted) != 1 or accepted and position != "top")


TAG_VALUES = {
    "str": ["a", "b", "c", "d", "e", "", "x y", "é"],
    "int": [1, 2, 3, 4, 5, 0, -1, 10],
    "bool": [True, False],
}


def tagged_program(g: Gen, ambiguous: bool) -> Any:
    "Classes that share literal-typed members; returns the indices of the classes in the union."

    mods = g.int(1, 2)
    classes: list[dict[str, Any]] = []
    g.universe = {"mods": [g.chance(1, 3) for _ in range(mods)], "classes": classes}
    tags = g.sample([("kind", None), ("type", None), ("is_", None), ("tag", "$type"), ("which_", "which_"), ("in_", "x")], 1, 2)
    count = g.int(2, 4)
    enum_values: dict[str, int] = {}
    vt = {}
    pools: dict[str, list[Any]] = {}
    for n, _ in tags:
        vt[n] = g.pick(["str", "str", "int", "enum"]) if count > 2 else g.pick(["str", "str", "int", "bool", "enum"])
        if vt[n] == "enum":
            enum_values[n] = len(classes)
            classes.append(
                {"k": "enum", "mod": g.int(0, mods - 1), "name": f"E{len(classes)}", "base": g.pick(["Enum", "StrMix", "StrEnum"]),
                 "members": [(f"M{i}", v) for i, v in enumerate(["a", "b", "c", "d", "e", "f", "g", "h"])]}
            )
            pools[n] = [f"M{i}" for i in range(8)]
        else:
            pools[n] = list(TAG_VALUES[vt[n]])
    chosen: list[int] = []
    repeated = g.pick([n for n, _ in tags]) if ambiguous else None
    used: dict[str, Any] = {}
    for c in range(count):
        kind = g.pick(["dc", "dc", "plain", "exc", "nt"])
        spec: dict[str, Any] = {"k": kind, "mod": g.int(0, mods - 1), "name": "ABCDEFGHKL"[len(classes)], "fields": []}
        if kind == "dc":
            spec.update({o: g.chance(1, 3) for o in ("frozen", "slots")})
            spec["kw_only"] = g.chance(1, 4)
        fields: list[dict[str, Any]] = []
        for n, alias in tags:
            many = 1 if vt[n] == "bool" else g.pick([1, 1, 2])
            values = [pools[n].pop(g.int(0, len(pools[n]) - 1)) for _ in range(min(many, max(1, len(pools[n]) - (count - c - 1))))]
            if n == repeated and c == count - 1:
                values = [*values[:-1], used[n]] if g.chance(1, 2) else [used[n], *values[1:]]
            elif n == repeated and (n not in used or g.chance(1, 3)):
                used[n] = g.pick(values)
            t: Any = ("elit", enum_values[n], values) if vt[n] == "enum" else ("literal", values)
            if alias is not None:
                t = ("ann", t, [("alias", alias)])
            elif g.chance(1, 6):
                t = ("ann", t, [("mark", 1)])
            # the name in Python may differ between classes as long as the name in JSON is the same
            name = n
            if alias is not None and g.chance(1, 2):
                name = n.rstrip("_") + "0"
            fields.append({"n": name, "t": t})
            if kind == "dc" and g.chance(1, 3):
                # the tag may be left out
                fields[-1]["d"] = ("fac", g.make_value(t))
                spec["kw_only"] = True
        for n in g.sample(["a", "b", "c"], 0, 2):
            t = ("leaf", g.pick(["int", "str"]))
            fields.append({"n": n, "t": ("opt", t, g.pick("OUP")) if g.chance(1, 2) else t})
        if g.chance(1, 3):
            fields.reverse()
        if kind in ("dc", "plain", "exc") and g.chance(1, 4) and len(fields) > 1:
            # tag inherited from a base class
            base = {"k": kind, "mod": spec["mod"], "name": f"Base{len(classes)}", "fields": fields[:1]}
            for o in ("frozen", "slots", "kw_only"):
                if o in spec:
                    base[o] = spec[o]
            classes.append(base)
            spec["base"] = len(classes) - 1
            fields = fields[1:]
        spec["fields"] = fields
        chosen.append(len(classes))
        classes.append(spec)
    return chosen


@st.composite
def tagged_unions(draw: Any) -> Any:
    g = Gen(draw, Profile())
    ambiguous = g.chance(1, 6)
    chosen = tagged_program(g, ambiguous)
    if ambiguous or g.chance(1, 3):
        chosen = g.sample(chosen, len(chosen), len(chosen))
    style = g.pick("UUP")
    union = ("union", [("cls", i, False) for i in chosen], style)
    position = g.pick(["top", "top", "list", "dict", "member", "optional-member", "tuple", "nested"])
    if ambiguous:
        return (g.universe, union, None, position, "ambiguous", False)
    pick = g.int(0, len(chosen) - 1)
    v = [pick, g.make_value(union[1][pick], 2)]
    with World(g.universe) as w:
        doc = concrete(w.encode(union, v))
        tags = w.union_tags(union[1])
        other = concrete(w.encode(union[1][(pick + 1) % len(chosen)], g.make_value(union[1][(pick + 1) % len(chosen)], 2)))
    name = g.pick(list(tags))
    move = g.pick(["good", "good", "other", "missing", "null", "unknown", "wrong", "mutate", "any", "body"])
    if move == "other":
        doc = {**doc, name: other[name]}
    elif move == "missing":
        doc = {k: x for k, x in doc.items() if k != name}
        if g.chance(1, 2):
            doc = {k: x for k, x in doc.items() if k not in tags}
    elif move == "null":
        doc = {**doc, name: None}
    elif move == "unknown":
        doc = {**doc, name: g.pick(["unknown", 99, "A", 2, "M0"])}
    elif move == "wrong":
        doc = {**doc, name: g.pick([[], {}, [1], {"a": 1}, 1.5, True, "1", 1.0, [["a"]]])}
    elif move == "mutate":
        doc = mutate(g, doc)
    elif move == "any":
        doc = draw(JSON_DOCS)
    elif move == "body":
        doc = {**other, **{k: doc[k] for k in tags if k in doc}}
    return (g.universe, union, doc, position, move, g.chance(1, 4))



def wrap_position(w: World, t: Any, doc: Any, position: str) -> Any:
    if position == "list":
        return ("list", t), [doc], lambda r: r[0]
    if position == "dict":
        return ("dict", t), {"k": doc}, lambda r: r["k"]
    if position == "tuple":
        return ("tuple", [("leaf", "int"), t]), [0, doc], lambda r: r[1]
    if position == "nested":
        return ("list", ("dict", t)), [{"k": doc}], lambda r: r[0]["k"]
    if position in ("member", "optional-member"):
        return ("cls", len(w.specs) - 1, False), {"x": doc}, lambda r: r.x
    return t, doc, lambda r: r


def run_tagged(case: Any, stats: Stats) -> None:
    universe, union, doc, position, move, skip = case
    if position in ("member", "optional-member"):
        t: Any = ("opt", union, "O") if position == "optional-member" else union
        universe = {
            "mods": universe["mods"],
            "classes": [*universe["classes"], {"k": "dc", "mod": 0, "name": "Holder", "fields": [{"n": "x", "t": t}]}],
        }
    with World(universe) as w:
        t, document, get = wrap_position(w, union, doc, position)
        typ = w.type(t, 0)
        module = w.modules[0]
        stats.label(f"tag:{move}", f"at:{position}", *shape_labels(union, universe))
        stats.nontrivial()
        if move == "ambiguous":
            for _ in range(2):  # refused each time
                outcome = call(create_deserializer, typ, module)
                require(
                    not outcome.ok and isinstance(outcome.error, (TypeError, JsonTypeError)),
                    lambda: f"{w.render(t, 0)} has ambiguous tags but making a converter {outcome.describe()}",  # noqa: B023
                )
            return
        assert w.union_kind(union) == "tagged", union
        parser = must(create_deserializer, typ, module, DeserializerOptions(skip_unassigned=skip))
        if doc is None and position.endswith("member"):
            return
        tags = w.union_tags(union[1])
        try:
            expected, reject = w.decode(union, doc, skip), None
        except Reject as ex:
            expected, reject = None, ex.kind
        except Gray:
            return
        outcome = call(parser.parse, document)
        if reject is None:
            require(
                outcome.ok and same(expected, get(outcome.value)),
                lambda: f"{doc!r} as {w.render(t, 0)} denotes {expected!r} but {outcome.describe()}",
            )
            return
        require(
            not outcome.ok and isinstance(outcome.error, (JsonKeyError, JsonTypeError, JsonValueError, ValueError)),
            lambda: f"{doc!r} as {w.render(t, 0)} must be refused but {outcome.describe()}",
        )
        # the tag itself is at fault
        values = {n: [v for _, vs in by_member for v in vs] for n, by_member in tags.items()}
        if not isinstance(doc, dict) or all(
            doc.get(n) is None or not any(type(v) is type(doc[n]) and v == doc[n] for v in values[n]) for n in tags
        ):
            require(
                isinstance(outcome.error, JsonTypeError),
                lambda: f"{doc!r} as {w.render(t, 0)} has no valid tag, expected a type error but {outcome.describe()}",
            )


PARTS = [
    Part("plain", plain_unions, run_plain, quick=6000, thorough=150000),
    Part("tagged", tagged_unions, run_tagged, quick=6000, thorough=150000),
]
