"Strategies for universes, types, values and corrupted documents (see `pbt.world` for the notation)."

import datetime
import keyword
from dataclasses import dataclass, field, replace
from typing import Any, Callable, Optional

from hypothesis import strategies as st

from .world import AUX_RANGE, EXTRAS, Spec, World, expand_rec, is_json, is_optional, json_name, strip_ann, subspecs, unwrap_optional, walk

ALL_LEAVES = ("int", "str", "bool", "float", "bytes", "datetime", "date", "time", "timedelta", "uuid", "ipv4", "ipv6")
HARD_KEYWORDS = list(keyword.kwlist)

FIELD_NAMES = (
    "a b c x1 size in_ from_ class_ None_ True_ is_ lambda_ match_ type_ case_ print_ in__ id_ snake_case mixedCase "
    "élan naïve_ 名前 _a value_ def_ not_ or_ d e f g h i j k"
).split()
NT_FIELD_NAMES = [n for n in FIELD_NAMES if not n.startswith("_")]
ALIASES = ["$ref", "alias", "in", "in_", "a b", 'x"y', "日本", "type", "a", "class", "", "é", "A"]
CLASS_NAMES = ["A", "B", "C", "D", "E", "F", "G", "H", "K", "L"]
TAG_NAMES = ["kind", "type", "tag_", "is_"]
MEMBER_NAMES = ["ONE", "TWO", "three", "Four", "FIVE", "six", "SEVEN", "eight", "NINE", "T10", "T11", "T12", "T13"]
STR_VALUES = ["one", "two", "", "a.b", "x y", "é", "1", "$ref", "N/A", "a|b", "(", "null", "^"]
INT_VALUES = [1, 0, 2, -1, 100, 2**31, -(2**63), 2**64]
FLOAT_VALUES = [0.5, 1.25, -2.5, 1e-9, 3.75]


CLASS_OPTIONS = ["order=True", "repr=False", "match_args=False", "unsafe_hash=True", "eq=False"]
FIELD_OPTIONS = ["init=False", "init=False", "repr=False", "compare=False", "kw_only=True", "metadata={'a': 1}", "hash=False"]


@dataclass(frozen=True)
class Profile:
    "What a generator may use."

    leaves: tuple[str, ...] = ALL_LEAVES
    kinds: tuple[str, ...] = ("dc", "nt", "plain", "exc", "enum")
    mods: int = 2
    min_classes: int = 0
    unique_names: bool = False
    max_classes: int = 4
    max_fields: int = 4
    depth: int = 3
    aux: bool = True
    annotations: bool = True
    alias: bool = True
    unions: bool = True
    optional_anywhere: bool = True
    literals: bool = True
    sets: bool = True
    tuples: bool = True
    edicts: bool = True
    tagged: bool = True
    forward: bool = True
    inherit: bool = True
    defaults: bool = True
    more_defaults: bool = False
    json_leaf: bool = False
    recursive: bool = False
    json_names: tuple[str, ...] = ("json", "sjson")
    naive_time: bool = True
    zones: bool = True
    plain_names: bool = False
    exclusive_unions: bool = False
    quoted: bool = True
    cross_inherit: bool = True
    lineage: bool = True
    extras: bool = True
    enum_kinds: tuple[str, ...] = ("str", "int", "bool", "float")


DEFAULT = Profile()


class Gen:
    "Draws random choices; simple choices come first such that shrinking leads to them."

    def __init__(self, draw: Callable[[Any], Any], profile: Profile = DEFAULT) -> None:
        self.draw = draw
        self.p = profile
        self.universe: dict[str, Any] = {"mods": [False], "classes": []}
        self.lineage = False
        self.shell: Any = None
        self.in_union = 0
        self.orders: dict[frozenset[Any], list[Any]] = {}

    # --- primitives ---

    def int(self, lo: int, hi: int) -> int:
        return self.draw(st.integers(lo, hi)) if hi > lo else lo

    def pick(self, items: Any) -> Any:
        items = list(items)
        return items[self.int(0, len(items) - 1)]

    def chance(self, k: int, n: int) -> bool:
        return self.int(0, n - 1) >= n - k

    def sample(self, items: Any, lo: int, hi: int) -> list[Any]:
        pool = list(items)
        count = min(self.int(lo, hi), len(pool))
        result = []
        for _ in range(count):
            result.append(pool.pop(self.int(0, len(pool) - 1)))
        return result

    # --- classes ---

    def classes(self) -> list[dict[str, Any]]:
        return self.universe["classes"]

    def make_universe(self) -> dict[str, Any]:
        # a universe in which classes are likely to inherit across modules
        self.lineage = self.p.lineage and self.p.inherit and self.p.mods > 1 and self.p.max_classes > 2 and self.chance(1, 5)
        mods = self.int(2 if self.lineage else 1, self.p.mods)
        self.universe = {"mods": [self.chance(1, 3) for _ in range(mods)], "classes": []}
        if self.p.recursive:
            kinds = ["list", "dict", "union", "optional"]
            self.universe["rec"] = {
                m: tuple((n, self.pick(kinds), self.pick(["Tree", "Leaf"])) for n in ("Tree", "Leaf")) for m in range(mods)
            }
        count = self.int(max(self.p.min_classes, 3) if self.lineage else self.p.min_classes, self.p.max_classes)
        plan = []
        used: set[tuple[int, str]] = set()
        for _ in range(count):
            kind = self.pick(self.p.kinds)
            if plan and plan[-1][0] != "enum" and self.chance(*((4, 5) if self.lineage else (1, 3))):
                kind = plan[-1][0]
            mod = self.int(0, mods - 1)
            free = [n for n in CLASS_NAMES if not any((m, n) in used for m in range(mods) if self.p.unique_names or m == mod)]
            name = free[0] if not self.chance(1, 2) else self.pick(free)
            used.add((mod, name))
            plan.append((kind, mod, name))
        self.plan = plan
        index = 0
        while index < len(plan):
            kind, mod, name = plan[index]
            if kind == "enum":
                self.classes().append(self.make_enum(mod, name))
            else:
                self.classes().append(self.make_class(index, kind, mod, name))
            index += 1
        return self.universe

    def make_enum(self, mod: int, name: str, string_only: bool = False) -> dict[str, Any]:
        vt = "str" if string_only else self.pick(self.p.enum_kinds)
        if vt == "str":
            base = self.pick(["Enum", "StrMix", "StrEnum"])
            values = self.sample(STR_VALUES, *((1, 6) if not self.chance(1, 12) else (7, 13)))
        elif vt == "int":
            base = self.pick(["Enum", "IntEnum"])
            values = self.sample(INT_VALUES, 1, 5)
        elif vt == "float":
            base = "Enum"
            values = self.sample(FLOAT_VALUES, 1, 3)
        else:
            base = "Enum"
            values = self.sample([True, False], 1, 2)
        names = self.sample(MEMBER_NAMES, len(values), len(values))
        members = list(zip(names, values))
        if self.chance(1, 4):
            members.append(("ALIAS", self.pick(values)))
        spec = {"k": "enum", "mod": mod, "name": name, "base": base, "members": members}
        self.add_extras(spec)
        return spec

    def all_fields(self, index: int) -> list[dict[str, Any]]:
        spec = self.classes()[index]
        result: dict[str, Any] = {}
        if spec.get("base") is not None and spec["k"] != "enum":
            for f in self.all_fields(spec["base"]):
                result[f["n"]] = f
        for f in spec["fields"]:
            result[f["n"]] = f
        return list(result.values())

    def has_recursive_alias(self, index: int) -> bool:
        return any(s[0] == "rec" for f in self.all_fields(index) for s in walk(f["t"]))

    def make_class(self, index: int, kind: str, mod: int, name: str) -> dict[str, Any]:
        spec: dict[str, Any] = {"k": kind, "mod": mod, "name": name, "fields": []}
        inherited: list[dict[str, Any]] = []
        if kind == "dc":
            for option in ("frozen", "slots", "kw_only"):
                spec[option] = self.chance(1, 8 if self.lineage and option == "frozen" else 3)
        if self.p.inherit and kind != "nt" and self.chance(*((4, 5) if self.lineage else (1, 2))):
            bases = [
                i
                for i, c in enumerate(self.classes())
                if c["k"] == kind
                and (kind != "dc" or bool(c.get("frozen")) == bool(spec.get("frozen")))
                and (c["mod"] == mod or self.p.cross_inherit and not self.has_recursive_alias(i))
            ]
            if self.lineage:
                bases = [i for i in bases if self.classes()[i]["mod"] != mod] or bases
            if bases:
                spec["base"] = self.pick(bases)
                inherited = self.all_fields(spec["base"])
                if kind == "dc" and any(f.get("d") for f in inherited):
                    spec["kw_only"] = True
        json_names = {json_name(f["n"], f["t"]) for f in inherited}
        names = {f["n"] for f in inherited}
        count = self.int(0 if inherited or kind in ("dc",) else 1, self.p.max_fields)
        wide = self.p.max_fields >= 4 and self.chance(1, 16)
        if wide:
            count = self.int(5, 16)
        pool = NT_FIELD_NAMES if kind == "nt" else FIELD_NAMES
        if self.p.plain_names:
            pool = [n for n in pool if n.isascii() and not n.endswith("_") and not n.startswith("_")]
        fields: list[dict[str, Any]] = []
        for position in range(count):
            n = pool[min(position, 2)] if not self.chance(2, 3) else self.pick(pool)
            if n in names:
                n = next(x for x in pool if x not in names)
            if wide and position > 3:
                t: Spec = self.leaf_strict()
            elif self.lineage and self.p.forward and self.p.depth > 1 and self.chance(1, 3):
                t = (self.pick(["list", "dict"]), ("cls", self.int(index, len(self.plan) - 1), True))
            else:
                t = self.make_type(mod=mod, index=index, depth=self.p.depth - 1)
            if self.p.alias and self.chance(1, 5):
                marks = [("mark", 1), ("alias", self.pick(ALIASES))]
                annots = [marks[1]] if not self.chance(1, 3) else (marks if self.chance(1, 2) else [marks[1], marks[0]])
                t = ("ann", t[1], [*t[2], *annots]) if t[0] == "ann" else ("ann", t, annots)
            j = json_name(n, t)
            if j in json_names or n in names:
                continue
            f: dict[str, Any] = {"n": n, "t": t}
            if self.p.quoted and kind in ("dc", "plain", "exc") and self.chance(1, 6):
                f["q"] = True
            if kind == "dc" and self.p.defaults and self.chance(2 if self.p.more_defaults else 1, 3 if self.p.more_defaults else 2 if is_optional(t) else 4):
                f["d"] = self.make_default(t)
            names.add(n)
            json_names.add(j)
            fields.append(f)
        if kind == "dc":
            fields = [f for f in fields if not f.get("d")] + [f for f in fields if f.get("d")]
            if inherited and any(f.get("d") for f in inherited):
                spec["kw_only"] = True
        spec["fields"] = fields
        if kind == "dc":
            self.add_options(spec)
        self.add_extras(spec)
        return spec

    def add_options(self, spec: dict[str, Any]) -> None:
        "Declares a data class with options that do not matter to conversions."

        if self.p.extras and self.chance(1, 4):
            for f in spec["fields"]:
                if self.chance(1, 2):
                    f["o"] = [self.pick(FIELD_OPTIONS)]
        if self.p.extras and self.chance(1, 8):
            spec["o"] = [self.pick(CLASS_OPTIONS[: 3 if spec.get("frozen") else 5])]

    def add_extras(self, spec: dict[str, Any]) -> None:
        if self.p.extras and self.chance(1, 6):
            pool = [x for x in EXTRAS if spec["k"] != "enum" or x in ("method", "property", "static", "class", "text")]
            spec["x"] = sorted({self.pick(pool) for _ in range(self.int(1, 3))})

    def make_default(self, t: Spec) -> Optional[tuple[Any, ...]]:
        if is_optional(t) and not self.chance(1, 3):
            return ("null",)
        # values of classes declared so far only
        if any(i >= len(self.classes()) for i in self.reachable(t)):
            return ("null",) if is_optional(t) else None
        if "jobj" in self.p.json_names and self.has_placeholder(t):
            return None
        value = self.make_value(t, depth=2)
        if self.shell_world().hashable(t) and not self.chance(1, 5):
            return ("val", value)
        return ("fac", value)

    def has_placeholder(self, t: Spec) -> bool:
        types = [t, *(f["t"] for i in self.reachable(t) if self.classes()[i]["k"] != "enum" for f in self.all_fields(i))]
        return any(s[0] == "leaf" and s[1] in ("jobj", "jarr") for x in types for s in walk(x))

    def reachable(self, t: Spec) -> set[int]:
        "Indices of classes that a type refers to directly or indirectly."

        seen: set[int] = set()
        todo = [t]
        while todo:
            for i in references(todo.pop(), self.universe) - seen:
                seen.add(i)
                if i < len(self.classes()) and self.classes()[i]["k"] != "enum":
                    todo.extend(f["t"] for f in self.all_fields(i))
        return seen

    def shell_world(self) -> World:
        "A world that answers questions about class specifications without declaring anything."

        if self.shell is None:
            self.shell = World.__new__(World)
        self.shell.universe = self.universe
        self.shell.specs = self.classes()
        return self.shell

    # --- types ---

    def leaf(self) -> Spec:
        if self.p.json_leaf and self.chance(1, 20):
            return ("leaf", self.pick(self.p.json_names))
        if self.p.aux and self.chance(1, 8):
            return ("aux", self.pick([a for a in list(AUX_RANGE) + ["float32", "float64"]]))
        return ("leaf", self.pick(self.p.leaves))

    def usable_classes(self, index: int, enums: Optional[bool] = None) -> list[int]:
        return [
            i
            for i, c in enumerate(self.classes())
            if i < index and (enums is None or (c["k"] == "enum") == enums)
        ]

    def make_type(
        self, *, mod: int = 0, index: Optional[int] = None, depth: Optional[int] = None, guarded: bool = False,
        hashable: bool = False, top: bool = False
    ) -> Spec:
        """
        :param index: Classes below this index are already declared; None if all classes are.
        :param guarded: Inside a container, such that forward references still permit finite values.
        """

        total = len(self.classes())
        limit = total if index is None else index
        depth = self.p.depth if depth is None else depth
        options: list[str] = ["leaf", "leaf"]
        if limit > 0:
            options += ["cls", "cls", "cls"]
        if depth > 0 and not hashable:
            options += ["list", "dict"]
            if self.p.optional_anywhere or not guarded:
                options += ["opt", "opt"]
            if self.p.sets:
                options.append("set")
            if self.p.tuples:
                options.append("tuple")
            if self.p.unions:
                options.append("union")
            if self.p.edicts and self.string_enums(limit):
                options.append("edict")
        if depth > 0 and hashable and self.p.tuples:
            options.append("tuple")
        if self.p.literals:
            options.append("literal")
        if self.p.annotations:
            options.append("ann")
        if guarded and self.p.forward and index is not None and not hashable:
            options += ["fwd", "fwd"] * (3 if self.lineage else 1)
        if self.p.recursive and not hashable:
            options.append("rec")
        kind = self.pick(options)
        sub = lambda **kw: self.make_type(mod=mod, index=index, depth=depth - 1, **kw)  # noqa: E731
        if kind == "leaf":
            return self.leaf()
        if kind == "rec":
            return ("rec", self.pick(["Tree", "Leaf"]), self.universe["rec"][mod])
        if kind == "cls":
            candidates = list(range(limit))
            if hashable:
                candidates = [i for i in candidates if self.shell_world().hashable(("cls", i, False))]
            if not candidates:
                return self.leaf()
            return ("cls", self.pick(candidates), False)
        if kind == "fwd":
            candidates = [i for i in range(len(self.plan)) if i >= limit]
            if not candidates:
                return self.leaf()
            return ("cls", self.pick(candidates), True)
        if kind == "list":
            return ("list", sub(guarded=True))
        if kind == "dict":
            return ("dict", sub(guarded=True))
        if kind == "edict":
            return ("edict", self.pick(self.string_enums(limit)), sub(guarded=True))
        if kind == "set":
            return ("set", self.hash_type(sub(hashable=True)))
        if kind == "tuple":
            if self.chance(1, 24):
                return ("tuple", [self.leaf_strict() for _ in range(self.int(4, 12))])
            return ("tuple", [sub(hashable=hashable) for _ in range(self.int(1, 3) if not self.chance(1, 8) else 0)])
        if kind in ("opt", "union"):
            self.in_union += 1  # `typing` has members of unions hashable
        try:
            return self.make_nested(kind, sub, mod, index, depth, guarded, hashable, limit)
        finally:
            if kind in ("opt", "union"):
                self.in_union -= 1

    def make_nested(self, kind: str, sub: Any, mod: int, index: Optional[int], depth: int, guarded: bool, hashable: bool, limit: int) -> Spec:
        if kind == "opt":
            inner = sub(guarded=True)
            while inner[0] in ("opt",) or is_json(inner) or inner == ("leaf", "none") or is_flat(inner):
                inner = inner[1] if inner[0] == "opt" else self.leaf_strict()
            return ("opt", inner, self.pick("OUPVQ"))
        if kind == "union":
            return self.in_order(self.make_union(mod, index, depth, guarded))
        if kind == "literal":
            return self.make_literal(limit)
        if kind == "ann":
            return self.make_annotated(mod, index, depth, guarded, hashable)
        raise ValueError(kind)

    def top_type(self, mod: int) -> Spec:
        "A type that more often than not involves the last class of the universe."

        last = len(self.classes()) - 1
        if last < 0 or not self.chance(2, 3):
            return self.make_type(mod=mod)
        index = last if not self.chance(1, 3) else self.int(0, last)
        t: Spec = ("cls", index, False)
        wrap = self.pick(["", "", "list", "opt", "dict", "tuple"])
        if wrap in ("list", "dict"):
            return (wrap, t)
        if wrap == "opt" and self.p.optional_anywhere:
            return ("opt", t, self.pick("OUPVQ"))
        if wrap == "tuple" and self.p.tuples:
            return ("tuple", [t, self.leaf()])
        return t

    def leaf_strict(self) -> Spec:
        return ("leaf", self.pick(self.p.leaves))

    def hash_type(self, t: Spec) -> Spec:
        return t if self.shell_world().hashable(t) else self.leaf_strict()

    def string_enums(self, limit: int) -> list[int]:
        return [
            i
            for i, c in enumerate(self.classes())
            if i < limit and c["k"] == "enum" and isinstance(c["members"][0][1], str)
        ]

    def make_literal(self, limit: int) -> Spec:
        t = self.pick_literal(limit)
        if t[0] == "literal":
            values = self.orders.setdefault(frozenset(("literal", repr(v)) for v in t[1]), t[1])  # type: ignore
            return ("literal", values)
        names = self.orders.setdefault(frozenset(("elit", t[1], n) for n in t[2]), t[2])  # type: ignore
        return ("elit", t[1], names)

    def pick_literal(self, limit: int) -> Spec:
        enums = [i for i, c in enumerate(self.classes()) if i < limit and c["k"] == "enum"]
        if enums and self.chance(1, 3):
            i = self.pick(enums)
            members = self.canonical_members(i)
            return ("elit", i, self.sample(members, 1, 3))
        kind = self.pick(["str", "int", "bool"])
        if kind == "str":
            return ("literal", self.sample(STR_VALUES, 1, 3))
        if kind == "int":
            return ("literal", self.sample(INT_VALUES[:5], 1, 3))
        return ("literal", self.sample([True, False], 1, 2))

    def canonical_members(self, i: int) -> list[str]:
        seen: dict[Any, str] = {}
        for n, v in self.classes()[i]["members"]:
            seen.setdefault(v, n)
        return list(seen.values())

    def make_annotated(self, mod: int, index: Optional[int], depth: int, guarded: bool, hashable: bool) -> Spec:
        kind = self.pick(["mark", "range", "len"])
        if kind == "range":
            lo = self.pick([0, -5, 10, -(2**40)])
            return ("ann", ("leaf", "int"), [("range", lo, lo + self.pick([0, 1, 9, 2**41]))])
        if kind == "len":
            lo = self.int(0, 3)
            annots = [("minlen", lo), ("maxlen", lo + self.int(0, 4))]
            return ("ann", ("leaf", "str"), self.sample(annots, 1, 2))
        inner = self.make_type(mod=mod, index=index, depth=depth - 1 if depth else 0, guarded=guarded, hashable=hashable)
        if inner[0] in ("ann", "opt") or is_json(inner) or is_flat(inner) or inner[0] == "cls" and inner[2]:
            return inner
        return ("ann", inner, [("mark", self.pick([1, "text", (1, 2)] if self.in_union else [1, "text", (1, 2), [1]]))])

    def in_order(self, t: Spec) -> Spec:
        """
        Gives equal unions in a program the same order of members.

        `typing` caches special forms by equality, and thus may replace a union by one with another order of members.
        """

        if t[0] != "union":
            return t
        order = self.orders.setdefault(frozenset(map(union_key, t[1])), [union_key(m) for m in t[1]])
        return ("union", sorted(t[1], key=lambda m: order.index(union_key(m))), t[2])

    def make_union(self, mod: int, index: Optional[int], depth: int, guarded: bool) -> Spec:
        limit = len(self.classes()) if index is None else index
        if self.p.tagged and self.chance(1, 3):
            t = self.pick_tagged(limit)
            if t is not None:
                return t
        members: list[Spec] = []
        keys: set[str] = set()
        for _ in range(self.int(2, 3) if not self.chance(1, 16) else self.int(4, 7)):
            m = self.make_type(mod=mod, index=index, depth=depth - 1, guarded=False)
            m = unwrap_member(m)
            if is_json(m) or is_flat(m) or m == ("leaf", "none") or m[0] == "cls" and m[2]:
                continue
            key = union_key(m)
            if key in keys:
                continue
            if self.p.exclusive_unions and any(self.overlap(m, x) for x in members):
                continue
            keys.add(key)
            members.append(m)
        if len(members) < 2:
            return members[0] if members else self.leaf_strict()
        t = ("union", members, self.pick("UP"))
        if self.shell_kind(t) == "ambiguous":
            return members[0]
        return t

    def shell_kind(self, t: Spec) -> str:
        w = World.__new__(World)
        w.universe = self.universe
        w.specs = self.classes()
        w.literal_values = lambda spec: list(spec[1]) if spec[0] == "literal" else self.enum_values(spec)  # type: ignore
        return w.union_kind(t)

    def enum_values(self, spec: Spec) -> list[Any]:
        members = dict(self.classes()[spec[1]]["members"])
        return [members[n] for n in spec[2]]

    def pick_tagged(self, limit: int) -> Optional[Spec]:
        "A union of declared classes that happen to share a literal-typed member."

        indices = [i for i, c in enumerate(self.classes()) if i < limit and c["k"] != "enum"]
        w = self.shell_world()
        indices = [i for i in indices if w.literal_fields(("cls", i, False))]
        if len(indices) < 2:
            return None
        chosen = self.sample(indices, 2, 3)
        t = ("union", [("cls", i, False) for i in chosen], "U")
        return t if self.shell_kind(t) == "tagged" else None

    def overlap(self, a: Spec, b: Spec) -> bool:
        "Whether a document might conform to both types (conservative)."

        ka, kb = self.json_kinds(a), self.json_kinds(b)
        return bool(ka & kb)

    def json_kinds(self, t: Spec) -> set[str]:
        kind = t[0]
        if kind == "ann":
            return self.json_kinds(t[1])
        if kind == "rec":
            return self.json_kinds(expand_rec(t))
        if kind == "leaf":
            if t[1] == "none":
                return {"null"}
            if t[1] in ("int", "float"):
                return {"number"}
            if t[1] == "bool":
                return {"boolean"}
            if is_json(t):
                return {"null", "number", "boolean", "string", "array", "object"}
            return {"string"}
        if kind == "aux":
            return {"number"}
        if kind in ("list", "set", "tuple"):
            return {"array"}
        if kind in ("dict", "edict"):
            return {"object"}
        if kind == "opt":
            return {"null"} | self.json_kinds(t[1])
        if kind == "union":
            return set().union(*(self.json_kinds(m) for m in t[1]))
        if kind == "literal":
            return {{"str": "string", "bool": "boolean"}.get(type(t[1][0]).__name__, "number")}
        if kind == "elit" or kind == "cls" and self.class_kind(t[1]) == "enum":
            spec = self.classes()[t[1]]
            v = spec["members"][0][1]
            return {{"str": "string", "bool": "boolean"}.get(type(v).__name__, "number")}
        return {"object"}

    def class_kind(self, index: int) -> str:
        return self.classes()[index]["k"] if index < len(self.classes()) else self.plan[index][0]

    # --- values ---

    def make_value(self, t: Spec, depth: int = 3) -> Any:
        kind = t[0]
        if kind == "leaf":
            return self.leaf_value(t[1])
        if kind == "aux":
            return self.aux_value(t[1])
        if kind in ("list", "set", "vtuple"):
            return [self.make_value(t[1], depth - 1) for _ in range(self.size(depth, t[1][0] in ("leaf", "aux")))]
        if kind == "dict":
            keys = self.keys(depth, t[1][0] in ("leaf", "aux"))
            return [(k, self.make_value(t[1], depth - 1)) for k in keys]
        if kind == "edict":
            members = self.canonical_members(t[1])
            keys = self.sample(members, 0, min(3, len(members)) if not self.chance(1, 12) else len(members)) if depth > 0 else []
            return [(k, self.make_value(t[2], depth - 1)) for k in keys]
        if kind == "tuple":
            return [self.make_value(s, depth - 1) for s in t[1]]
        if kind == "opt":
            if depth <= 0 or not self.chance(2, 3):
                return None
            return [self.make_value(t[1], depth - 1)]
        if kind == "union":
            i = self.int(0, len(t[1]) - 1)
            return [i, self.make_value(t[1][i], depth - 1)]
        if kind == "literal":
            return self.int(0, len(t[1]) - 1)
        if kind == "elit":
            return self.int(0, len(t[2]) - 1)
        if kind == "ann":
            return self.annotated_value(t, depth)
        if kind == "cls":
            spec = self.classes()[t[1]]
            if spec["k"] == "enum":
                return self.pick([n for n, _ in spec["members"]])
            result = {}
            for f in self.all_fields(t[1]):
                v = self.make_value(f["t"], depth - 1)
                default = f.get("d")
                if v is None and default is not None and default[0] != "null" and is_optional(f["t"]):
                    # would be read back as the default
                    v = default[1]
                result[f["n"]] = v
            return result
        if kind == "rec":
            return self.make_value(expand_rec(t), min(depth, 3))
        raise ValueError(t)

    def size(self, depth: int, simple: bool = False) -> int:
        if simple and depth > 0 and self.chance(1, 24):
            return self.int(4, 24)
        return self.int(0, 3 if depth > 1 else 2) if depth > 0 else 0

    def keys(self, depth: int, simple: bool = False) -> list[str]:
        if depth <= 0:
            return []
        keys = dict.fromkeys(self.leaf_value("str") for _ in range(self.size(depth, simple)))
        return list(keys)

    def annotated_value(self, t: Spec, depth: int) -> Any:
        inner, annots = t[1], t[2]
        for a in annots:
            if a[0] == "range":
                return self.int(a[1], a[2]) if not self.chance(1, 2) else self.pick([a[1], a[2]])
        lo = next((a[1] for a in annots if a[0] == "minlen"), None)
        hi = next((a[1] for a in annots if a[0] == "maxlen"), None)
        if lo is not None or hi is not None:
            lo = lo or 0
            return self.draw(st.text(min_size=lo, max_size=hi if hi is not None else lo + 3))
        return self.make_value(inner, depth)

    def aux_value(self, name: str) -> Any:
        if name.startswith("float"):
            return self.leaf_value("float")
        lo, hi = AUX_RANGE[name]
        return self.pick([0, lo, hi, 1]) if self.chance(1, 2) else self.int(lo, hi)

    def leaf_value(self, name: str) -> Any:
        value = self.draw(LEAF_VALUES[name])
        if isinstance(value, str) and name == "ipv6" and not self.p.zones:
            return 1
        return value


def is_flat(t: Spec) -> bool:
    "True for the name of a union, whose members become those of a union around it."

    return t[0] == "rec" and expand_rec(t)[0] in ("opt", "union")


def unwrap_member(t: Spec) -> Spec:
    while t[0] in ("opt",) or t[0] == "union" or t[0] == "ann" and t[1][0] in ("opt", "union", "cls"):
        t = t[1][0] if t[0] == "union" else t[1]
    return t


def union_key(t: Spec) -> str:
    "Types with the same key may be the same type to Python."

    if t[0] == "literal":
        return repr(("literal", sorted(map(repr, t[1]))))
    if t[0] == "cls":
        return f"cls{t[1]}"
    return repr(t)


def small_float() -> Any:
    return st.one_of(
        st.sampled_from([0.0, 1.0, -0.0, 0.5, -1.5, 1e300, 5e-324, 123456789.125, 1e16, -1e22]),
        st.floats(allow_nan=False, allow_infinity=False),
    )


INTS = st.one_of(
    st.integers(-5, 5),
    st.sampled_from([2**31 - 1, 2**31, -(2**31), 2**53 + 1, -(2**53) - 1, 2**63 - 1, 2**63, 2**64, -(2**63), 10**30]),
    st.integers(-(2**70), 2**70),
)
TEXTS = st.one_of(
    st.text(max_size=6),
    st.sampled_from(
        ["", "a", "null", "0", "true", "2020-01-01", "é", "日本語", "\u2028", "\x00", '"', "\\", "\n", "a/b", "😀", "PT0S", "AAAA"]
    ),
)


@st.composite
def datetimes(draw: Any, naive: bool = False) -> Any:
    d = draw(DATES)
    return (*d, *draw(CLOCK), None if naive else draw(OFFSETS))


def _valid_date(t: tuple[int, int, int]) -> tuple[int, int, int]:
    y, m, d = t
    last = 29 if m == 2 and (y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)) else [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][m - 1]
    return y, m, min(d, last)


DATES = st.one_of(
    st.tuples(st.integers(1990, 2030), st.integers(1, 12), st.integers(1, 31)).map(_valid_date),
    st.tuples(st.integers(1, 9999), st.integers(1, 12), st.integers(1, 31)).map(_valid_date),
    st.sampled_from([(1, 1, 1), (9999, 12, 31), (2000, 2, 29), (999, 10, 9), (1970, 1, 1)]),
)
MICROS = st.one_of(st.just(0), st.sampled_from([1, 1000, 999999, 999000, 500000, 10, 123456]), st.integers(0, 999999))
CLOCK = st.one_of(
    st.tuples(st.integers(0, 23), st.integers(0, 59), st.integers(0, 59), MICROS),
    st.sampled_from([(0, 0, 0, 0), (23, 59, 59, 999999), (12, 0, 0, 0)]),
)
DAY_US = 86400 * 10**6
OFFSETS = st.one_of(
    st.just(0),
    st.integers(-14 * 4, 14 * 4).map(lambda q: q * 15 * 60 * 10**6),
    st.integers(-1439, 1439).map(lambda m: m * 60 * 10**6),
    st.integers(-86399, 86399).map(lambda s: s * 10**6),
    # CPython's own parser reads a non-zero offset of less than a second as UTC
    st.integers(-DAY_US + 1, DAY_US - 1).filter(lambda us: abs(us) >= 10**6),
)
TIMEDELTAS = st.one_of(
    st.sampled_from(
        [(0, 0, 0), (0, 1, 0), (0, 0, 1), (0, 59, 1000), (0, 60, 0), (0, 3600, 0), (0, 86399, 999999), (1, 0, 0), (-1, 0, 0), (-1, 86399, 999999)]
        + [(999999999, 86399, 999999), (-999999999, 0, 0), (365, 3661, 500000), (0, 3600, 1), (0, 61, 0), (7, 0, 0)]
    ),
    st.tuples(st.integers(-3, 400), st.integers(0, 86399), MICROS),
    st.tuples(st.integers(-999999999, 999999999), st.integers(0, 86399), MICROS),
)
JSON_SCALARS = st.one_of(st.none(), st.booleans(), INTS, small_float(), TEXTS)
JSON_DOCS = st.recursive(
    JSON_SCALARS, lambda c: st.one_of(st.lists(c, max_size=3), st.dictionaries(TEXTS, c, max_size=3)), max_leaves=6
)
STRICT_DOCS = st.recursive(
    st.one_of(st.booleans(), INTS, small_float(), TEXTS),
    lambda c: st.one_of(st.lists(c, max_size=3), st.dictionaries(TEXTS, c, max_size=3)),
    max_leaves=6,
)

LEAF_VALUES: dict[str, Any] = {
    "none": st.none(),
    "bool": st.booleans(),
    "int": INTS,
    "float": small_float(),
    "str": TEXTS,
    "bytes": st.binary(max_size=7),
    "datetime": datetimes(),
    "date": DATES,
    "time": st.tuples(CLOCK, st.one_of(st.none(), OFFSETS)).map(lambda t: (*t[0], t[1])),
    "timedelta": TIMEDELTAS,
    "uuid": st.one_of(st.sampled_from([0, 1, 2**128 - 1]), st.integers(0, 2**128 - 1)),
    "ipv4": st.one_of(st.sampled_from([0, 1, 2**32 - 1, 0x7F000001]), st.integers(0, 2**32 - 1)),
    "ipv6": st.one_of(
        st.sampled_from([0, 1, 2**128 - 1, 0xFFFF00000000 + 0x7F000001, 1 << 112]), st.integers(0, 2**128 - 1),
        # with a zone
        st.builds("{}%{}".format, st.sampled_from(["fe80::1", "::", "fe80::a:b:c:d"]), st.sampled_from(["eth0", "1", "Z.9-x"])),
    ),
    "json": JSON_DOCS,
    "sjson": STRICT_DOCS,
}


def shape_labels(t: Spec, universe: dict[str, Any], limit: int = 30) -> set[str]:
    "Features of a type including the classes it refers to, for the statistics."

    labels: set[str] = set()
    seen: set[int] = set()
    todo = [t]
    while todo:
        for s in walk(todo.pop()):
            labels.add(f"type:{s[1]}" if s[0] == "leaf" else f"type:{s[0]}")
            if s[0] == "cls" and s[2]:
                labels.add("forward reference")
            if s[0] in ("cls", "elit", "edict") and s[1] not in seen:
                seen.add(s[1])
                c = universe["classes"][s[1]]
                labels.add(f"class:{c['k']}")
                if c["k"] != "enum":
                    for o in ("frozen", "slots", "kw_only"):
                        if c.get(o):
                            labels.add(f"class:{o}")
                    if c.get("base") is not None:
                        labels.add("class:inherited")
                        todo.append(("cls", c["base"], False))
                    for f in c["fields"]:
                        if f.get("d"):
                            labels.add(f"default:{f['d'][0]}")
                        if f.get("q") or universe["mods"][c["mod"]]:
                            labels.add("string annotation")
                        todo.append(f["t"])
    if "type:cls" in labels and is_recursive(t, universe):
        labels.add("recursive")
    return labels


def references(t: Spec, universe: dict[str, Any]) -> set[int]:
    return {s[1] for s in walk(t) if s[0] in ("cls", "elit", "edict")}


def is_recursive(t: Spec, universe: dict[str, Any]) -> bool:
    graph: dict[int, set[int]] = {}
    for i, c in enumerate(universe["classes"]):
        graph[i] = set()
        if c["k"] != "enum":
            if c.get("base") is not None:
                graph[i].add(c["base"])
            for f in c["fields"]:
                graph[i] |= references(f["t"], universe)
    for start in references(t, universe):
        for node in reach(start, graph):
            if node in {x for m in graph[node] for x in reach(m, graph)}:
                return True
    return False


def reach(start: int, graph: dict[int, set[int]]) -> set[int]:
    seen = {start}
    todo = [start]
    while todo:
        for m in graph[todo.pop()]:
            if m not in seen:
                seen.add(m)
                todo.append(m)
    return seen


@st.composite
def typed_values(draw: Any, profile: Profile = DEFAULT, values: int = 1) -> Any:
    "Cases (universe, module, type, [values])."

    g = Gen(draw, profile)
    universe = g.make_universe()
    mod = g.int(0, len(universe["mods"]) - 1)
    t = g.top_type(mod)
    vs = [g.make_value(t) for _ in range(values)]
    return (universe, mod, t, vs)


# --- corrupting documents ---


def positions(doc: Any, path: tuple[Any, ...] = ()) -> list[tuple[Any, ...]]:
    result = [path]
    if isinstance(doc, list):
        for i, x in enumerate(doc):
            result += positions(x, (*path, i))
    elif isinstance(doc, dict):
        for k, x in doc.items():
            result += positions(x, (*path, k))
    return result


def get_at(doc: Any, path: tuple[Any, ...]) -> Any:
    for p in path:
        doc = doc[p]
    return doc


def set_at(doc: Any, path: tuple[Any, ...], value: Any) -> Any:
    "Returns a copy of a document with one position replaced."

    if not path:
        return value
    if isinstance(doc, list):
        return [set_at(x, path[1:], value) if i == path[0] else x for i, x in enumerate(doc)]
    return {k: (set_at(x, path[1:], value) if k == path[0] else x) for k, x in doc.items()}


WRONG_SCALARS: list[Any] = [None, True, False, 0, 1, 1.0, 0.5, -1, "", "x", "1", "true", [], {}, [1], {"a": 1}, [[]], {"": None}]


def mutate(g: Gen, doc: Any) -> Any:
    "Changes one position of a document."

    places = positions(doc)
    path = g.pick(places)
    old = get_at(doc, path)
    moves = ["replace", "replace"]
    if isinstance(old, list):
        moves += ["drop", "append", "dup"]
    if isinstance(old, dict):
        moves += ["del", "del", "add", "rename", "null", "respell"]
    if isinstance(old, str):
        moves += ["text", "text"]
    if isinstance(old, (int, float)):
        moves += ["num"]
    move = g.pick(moves)
    if move == "replace":
        return set_at(doc, path, g.pick(WRONG_SCALARS) if not g.chance(1, 4) else g.draw(JSON_DOCS))
    if move == "drop":
        new = old[:-1]
    elif move == "append":
        new = [*old, g.pick(WRONG_SCALARS)]
    elif move == "dup":
        new = [*old, *old[:1]]
    elif move == "del":
        new = {k: v for i, (k, v) in enumerate(old.items()) if i != g.int(0, max(0, len(old) - 1))} if old else {}
    elif move == "add":
        new = {**old, g.pick(["extra", "a", "in_", "in", "kind", "", "A"]): g.pick(WRONG_SCALARS)}
    elif move == "rename":
        keys = list(old)
        k0 = g.pick(keys) if keys else None
        new = {(f"{k}_" if k == k0 else k): v for k, v in old.items()}
    elif move == "respell":
        keys = list(old)
        k0 = g.pick(keys) if keys else None
        new = {(k.swapcase() if k == k0 else k): v for k, v in old.items()}
    elif move == "null":
        keys = list(old)
        k0 = g.pick(keys) if keys else None
        new = {k: (None if k == k0 else v) for k, v in old.items()}
    elif move == "text":
        new = g.pick([old + " ", " " + old, old[:-1], old + "0", old.upper(), old.lower(), old.replace("-", ""), old + "\n", "x" + old])
    else:
        new = g.pick([bool(old), float(old) if abs(old) < 1e300 else 0.5, str(old), -old, old + 1 if abs(old) < 1e300 else 0, 0.5])
    return set_at(doc, path, new)
