"""
Member declarations: the product of ways to declare one member of a class.

Random programs are large but visit any particular combination (say an optional member of an inherited data class that has
a default factory) rarely. Here a case has one holder class, and each aspect of its member is chosen uniformly.
"""

from typing import Any

from hypothesis import strategies as st

from .gen import Gen, Profile

MARK = ("mark", 1)

# classes that members may refer to
BASE_CLASSES: list[dict[str, Any]] = [
    {"k": "enum", "mod": 0, "name": "Word", "base": "Enum", "members": [("ONE", "one"), ("NONE", ""), ("DOT", "a.b")]},
    {"k": "enum", "mod": 0, "name": "Count", "base": "Enum", "members": [("ZERO", 0), ("TWO", 2)]},
    {"k": "dc", "mod": 0, "name": "Inner", "fields": [{"n": "a", "t": ("leaf", "int")}]},
    {"k": "nt", "mod": 0, "name": "Pair", "fields": [{"n": "a", "t": ("leaf", "int")}, {"n": "b", "t": ("opt", ("leaf", "str"), "O")}]},
    {"k": "plain", "mod": 0, "name": "Plain", "fields": [{"n": "a", "t": ("opt", ("leaf", "bool"), "P")}]},
]

# type, values (the first is truthy in Python, the second is falsy or as short as possible)
SIMPLE: list[tuple[Any, list[Any]]] = [
    (("leaf", "int"), [7, 0]),
    (("leaf", "float"), [1.5, 0.0]),
    (("leaf", "bool"), [True, False]),
    (("leaf", "str"), ["x", ""]),
    (("leaf", "bytes"), [b"\xff", b""]),
    (("leaf", "datetime"), [(2024, 2, 29, 1, 2, 3, 4, 0), (1, 1, 1, 0, 0, 0, 0, -3_600_000_000)]),
    (("leaf", "date"), [(2024, 2, 29), (1, 1, 1)]),
    (("leaf", "time"), [(23, 59, 59, 999999, 0), (0, 0, 0, 0, 0)]),
    (("leaf", "timedelta"), [(1, 2, 3), (0, 0, 0)]),
    (("leaf", "uuid"), [2**128 - 1, 0]),
    (("leaf", "ipv4"), [2**32 - 1, 0]),
    (("leaf", "ipv6"), [2**128 - 1, 0]),
    (("aux", "int8"), [-128, 0]),
    (("aux", "uint64"), [2**64 - 1, 0]),
    (("aux", "float32"), [0.5, 0.0]),
    (("cls", 0, False), ["ONE", "NONE"]),
    (("cls", 1, False), ["TWO", "ZERO"]),
    (("literal", ["a", ""]), [0, 1]),
    (("literal", [5, 0]), [0, 1]),
    (("elit", 0, ["ONE", "NONE"]), [0, 1]),
    (("ann", ("leaf", "int"), [("range", -1, 9)]), [9, 0]),
    (("ann", ("leaf", "str"), [("minlen", 0), ("maxlen", 3)]), ["abc", ""]),
]
NESTED: list[tuple[Any, list[Any]]] = [
    (("list", ("leaf", "int")), [[1], []]),
    (("dict", ("leaf", "str")), [[("k", "v")], []]),
    (("set", ("leaf", "str")), [["s"], []]),
    (("tuple", [("leaf", "int"), ("opt", ("leaf", "str"), "O")]), [(1, ["t"]), (0, None)]),
    (("edict", 0, ("leaf", "float")), [[("NONE", 2.5)], []]),
    (("cls", 2, False), [{"a": 3}, {"a": 0}]),
    (("cls", 3, False), [{"a": 3, "b": ["y"]}, {"a": 0, "b": None}]),
    (("cls", 4, False), [{"a": [True]}, {"a": None}]),
    (("union", [("leaf", "int"), ("leaf", "str")], "U"), [(0, 3), (1, "")]),
    (("union", [("leaf", "bool"), ("cls", 2, False)], "P"), [(1, {"a": 1}), (0, False)]),
    (("list", ("opt", ("cls", 2, False), "P")), [[None, [{"a": 1}]], [None]]),
]
TYPES = SIMPLE + NESTED
STYLES = ["dc", "frozen", "slots", "kw_only", "frozen slots", "child", "override", "nt", "plain", "plain child", "exc"]
WRAPS = ["", "ann", "opt", "opt", "opt ann", "ann opt", "ann ann opt", "opt alias", "alias"]
NAMES = ["m", "m", "in_", "class_", "m_", "_m"]


def member_type(g: Gen, t: Any) -> tuple[Any, bool]:
    wrap = g.pick(WRAPS)
    optional = "opt" in wrap
    style = g.pick("OUPVQ")
    if wrap in ("ann", "opt ann") and t[0] not in ("aux", "cls", "ann"):
        t = ("ann", t, [MARK])
    if optional:
        t = ("opt", t, style)
    if wrap == "ann opt" or wrap == "ann ann opt":
        t = ("ann", t, [MARK] if wrap == "ann opt" else [("mark", [2]), ("mark", "x")])
    if "alias" in wrap:
        t = ("ann", t, [("alias", g.pick(["$ref", "in", "a b", "m", "é"]))]) if t[0] not in ("ann", "aux") else t
    return t, optional


@st.composite
def declarations(draw: Any, values: int = 2, profile: Profile = Profile()) -> Any:
    "Cases (universe, module, type, [values]) like `typed_values`."

    g = Gen(draw, profile)
    style = g.pick(STYLES)
    kind = "dc" if style in ("dc", "frozen", "slots", "kw_only", "frozen slots", "child", "override") else style.split()[0]
    pool = [x for x in TYPES if profile.unions or x[0][0] != "union"]
    inner, samples = g.pick(pool)
    t, optional = member_type(g, inner)
    name = g.pick(NAMES)
    if kind == "nt":
        name = name.lstrip("_") or "m"

    def described(v: Any) -> Any:
        return [v] if optional else v

    member: dict[str, Any] = {"n": name, "t": t}
    if g.chance(1, 8) and kind != "nt":
        member["q"] = True
    if kind == "dc":
        default = g.pick(["no", "val", "val", "fac", "null"])
        v = described(g.pick(samples))
        hashable = inner[0] in ("leaf", "aux", "literal", "elit", "ann", "tuple") or inner in [("cls", i, False) for i in (0, 1, 3)]
        if default == "val" and hashable:
            member["d"] = ("val", v)
        elif default in ("fac", "val"):
            member["d"] = ("fac", v)
        elif default == "null" and optional:
            member["d"] = ("null",)
    fields: list[dict[str, Any]] = [member]
    if g.chance(1, 2):
        fields.insert(0, {"n": "first", "t": ("leaf", "int")})
    if g.chance(1, 4):
        fields.append({"n": "last", "t": ("opt", ("leaf", "str"), "O"), **({"d": ("null",)} if kind == "dc" else {})})
    index = len(BASE_CLASSES)
    holder: dict[str, Any] = {"k": kind, "mod": 0, "name": "Holder", "fields": fields}
    for flag in ("frozen", "slots", "kw_only"):
        if flag in style.split():
            holder[flag] = True
    if kind == "dc":
        g.add_options(holder)
    g.add_extras(holder)
    classes = [*BASE_CLASSES, holder]
    if style in ("child", "plain child"):
        extra = [{"n": "own", "t": ("opt", ("leaf", "int"), "O"), **({"d": ("null",)} if kind == "dc" else {})}] if g.chance(1, 2) else []
        classes.append({"k": kind, "mod": 0, "name": "Child", "fields": extra, "base": index})
        index += 1
    elif style == "override":
        # the base class declares the member in another way
        other = dict(member, t=("opt", ("leaf", "int"), "O"), d=("null",))
        other.pop("q", None)
        classes[index] = {"k": "dc", "mod": 0, "name": "Holder", "fields": [{"n": "first", "t": ("leaf", "int")}, other]}
        if "d" not in member and not optional:
            member["d"] = ("fac", samples[0])  # a member without a default cannot follow one with
        elif "d" not in member:
            member["d"] = ("null",)
        classes.append({"k": "dc", "mod": 0, "name": "Child", "fields": [member], "base": index})
        index += 1
    universe = {"mods": [g.chance(1, 4)], "classes": classes}
    g.universe = universe
    top: Any = ("cls", index, False)
    start = g.int(0, 1)
    value = [one_value(g, universe, index, name, optional, samples, start + i) for i in range(values)]
    place = g.pick(["", "", "", "list", "member", "opt"])
    if place == "list":
        return (universe, 0, ("list", top), [value, value[::-1]][:values])
    if place == "opt":
        return (universe, 0, ("opt", top, "O"), [[v] for v in value])
    if place == "member":
        classes.append({"k": "dc", "mod": 0, "name": "Outer", "fields": [{"n": "o", "t": top}]})
        return (universe, 0, ("cls", index + 1, False), [{"o": v} for v in value])
    return (universe, 0, top, value)


def one_value(g: Gen, universe: Any, index: int, name: str, optional: bool, samples: list[Any], which: int) -> dict[str, Any]:
    classes = universe["classes"]
    names: list[str] = []
    i = index
    while i is not None:
        names = [f["n"] for f in classes[i]["fields"]] + names
        i = classes[i].get("base")
    result: dict[str, Any] = {}
    for n in dict.fromkeys(names):
        if n == name:
            v = samples[which % len(samples)]
            result[n] = ([v] if optional else v) if not (optional and g.chance(1, 3)) else None
        elif n == "first":
            result[n] = g.int(0, 3)
        else:
            result[n] = g.pick([None, ["z" if n == "last" else 0]])
    # a member without a default that is None is left out of JSON, and one with a default takes that when read
    spec = next(f for i in (index, classes[index].get("base")) if i is not None for f in classes[i]["fields"] if f["n"] == name)
    if result[name] is None and spec.get("d", ("null",))[0] != "null":
        result[name] = [samples[0]]
    return result


