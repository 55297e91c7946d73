"C24: run-time type checks of nested objects."

import collections
import datetime
import ipaddress
import typing
import uuid
from collections import Counter
from typing import Any

from hypothesis import strategies as st

from strong_typing.inspection import RecursiveChecker, check_recursive, is_generic_instance

from ..core import Discard, Part, Stats, call, must, require
from ..gen import Gen, Profile
from ..world import AUX_BASE, World

ID = "C24"
RULE = (
    "A case is a generated type over generated classes with a value of the type. For the instance check, the object is then "
    "edited in up to three places (another object of any kind, an item more or less, other containers, subclasses), and the "
    "answer must equal that of a separately written judge. For the recursive check, a predicate records its calls; declared "
    "types and objects must be those of all leaf members, and the result is the conjunction for several predicates. "
    "Non-trivial: the value has at least two nodes."
)
PROFILE = Profile(json_leaf=False, mods=2)
HINTS = {
    "int": int, "str": str, "bool": bool, "float": float, "bytes": bytes, "none": type(None), "datetime": datetime.datetime,
    "date": datetime.date, "time": datetime.time, "timedelta": datetime.timedelta,
}  # fmt: skip


class MyList(list):  # type: ignore
    pass


class MyDict(dict):  # type: ignore
    pass


class MyInt(int):
    pass


Named = collections.namedtuple("Named", ["a", "b"])  # type: ignore

POOL: list[Any] = [
    lambda: None, lambda: True, lambda: 1, lambda: 1.0, lambda: "a", lambda: b"a", lambda: [], lambda: {}, lambda: (), lambda: set(),
    lambda: [1], lambda: ["a"], lambda: {"a": 1}, lambda: {1: "a"}, lambda: (1, "a"), lambda: {1}, lambda: frozenset([1]),
    lambda: MyList([1]), lambda: MyDict(a=1), lambda: MyInt(3), lambda: Named(1, "a"), lambda: datetime.datetime(2020, 1, 1),
    lambda: datetime.date(2020, 1, 1), lambda: object(), lambda: int, lambda: [[]], lambda: [None], lambda: 0, lambda: False,
    lambda: "", lambda: collections.OrderedDict(a="b"), lambda: range(3), lambda: [True], lambda: [1.5], lambda: {"a": None},
]  # fmt: skip


def vary(g: Gen, t: Any) -> Any:
    "Some lists become tuples of any length."

    kind = t[0]
    if kind == "list" and g.chance(1, 4):
        return ("vtuple", vary(g, t[1]))
    if kind in ("list", "dict"):
        return (kind, vary(g, t[1]))
    if kind == "opt":
        return (kind, vary(g, t[1]), t[2])
    if kind == "ann":
        return (kind, vary(g, t[1]), *t[2:])
    if kind == "tuple":
        return (kind, [vary(g, x) for x in t[1]])
    if kind == "union":
        return (kind, [vary(g, x) for x in t[1]], *t[2:])
    if kind == "edict":
        return (kind, t[1], vary(g, t[2]))
    return t


@st.composite
def cases(draw: Any, edits: bool = True) -> Any:
    g = Gen(draw, PROFILE)
    universe = g.make_universe()
    for c in universe["classes"]:
        for f in c.get("fields", ()):
            f["t"] = vary(g, f["t"])
    mod = g.int(0, len(universe["mods"]) - 1)
    t = vary(g, g.top_type(mod))
    v = g.make_value(t)
    choices = [[g.int(0, 40) for _ in range(5)] for _ in range(g.int(0, 3))] if edits else g.int(0, 6)
    return (universe, mod, t, v, choices)


def conforms(w: World, t: Any, obj: Any) -> bool:
    kind = t[0]
    if kind == "leaf":
        return isinstance(obj, HINTS.get(t[1]) or w.type(t))
    if kind == "aux":
        return isinstance(obj, int if AUX_BASE[t[1]] == "int" else float)
    if kind == "ann":
        return conforms(w, t[1], obj)
    if kind == "list":
        return isinstance(obj, list) and all(conforms(w, t[1], x) for x in obj)
    if kind == "set":
        return isinstance(obj, set) and all(conforms(w, t[1], x) for x in obj)
    if kind == "vtuple":
        return isinstance(obj, tuple) and all(conforms(w, t[1], x) for x in obj)
    if kind == "dict":
        return isinstance(obj, dict) and all(isinstance(k, str) and conforms(w, t[1], x) for k, x in obj.items())
    if kind == "edict":
        return isinstance(obj, dict) and all(isinstance(k, w.classes[t[1]]) and conforms(w, t[2], x) for k, x in obj.items())
    if kind == "tuple":
        return isinstance(obj, tuple) and len(obj) == len(t[1]) and all(conforms(w, s, x) for s, x in zip(t[1], obj))
    if kind == "opt":
        return obj is None or conforms(w, t[1], obj)
    if kind == "union":
        return any(conforms(w, s, obj) for s in t[1])
    if kind == "literal":
        return any(type(obj) is type(x) and obj == x for x in t[1])
    if kind == "elit":
        return any(obj is w.classes[t[1]][n] for n in t[2])  # type: ignore
    assert kind == "cls", t
    return isinstance(obj, w.classes[t[1]])


def edit(w: World, obj: Any, choices: list[int]) -> Any:
    "Another object, different in one place."

    step, move, item, _, _ = choices
    rest = [*choices[1:], choices[0]]
    kind = type(obj)
    if step % 3 and kind in (list, tuple, set) and obj:
        items = sorted(obj, key=repr) if kind is set else list(obj)
        i = item % len(items)
        items[i] = edit(w, items[i], rest)
        return remake(kind, items, obj)
    if step % 3 and kind is dict and obj:
        key = list(obj)[item % len(obj)]
        return {k: edit(w, x, rest) if k is key else x for k, x in obj.items()}
    move %= 8
    extra = POOL[item % len(POOL)]()
    if kind in (list, tuple, set):
        items = list(obj)
        if move == 0:
            return remake(kind, [*items, extra], obj)
        if move == 1:
            return remake(kind, items[1:], obj)
        if move == 2:
            return list(items) if kind is tuple else tuple(items)
        if move == 3 and kind is list:
            return MyList(items)
        if move == 4:
            return remake(kind, items * 2, obj)
    if kind is dict:
        if move == 0:
            return {**obj, "zz": extra}
        if move == 1:
            return {**obj, 1: next(iter(obj.values()), extra)}
        if move == 2:
            return MyDict(obj)
        if move == 3:
            return list(obj.values())
        if move == 4 and w.classes:
            return {next(iter(c)) if isinstance(c := w.classes[item % len(w.classes)], type(HEnum)) else "k": x for x in obj.values()}
    if move == 5 and kind in w.classes and not isinstance(kind, type(HEnum)):
        # an instance of a derived class
        try:
            derived = type("Derived", (kind,), {})
            return derived.__new__(derived)
        except TypeError:
            return extra
    if move == 6 and w.classes:
        cls: Any = w.classes[item % len(w.classes)]
        if isinstance(cls, type(HEnum)):
            return next(iter(cls), None)
        return cls.__new__(cls, *((None,) * len(getattr(cls, "_fields", ()))))
    return extra


def remake(kind: Any, items: list[Any], old: Any) -> Any:
    try:
        return kind(items)
    except (TypeError, AttributeError):  # not hashable
        return old


HEnum = __import__("enum").Enum


def nodes(obj: Any) -> int:
    if isinstance(obj, dict):
        return 1 + sum(map(nodes, obj.values()))
    if isinstance(obj, (list, tuple, set)):
        return 1 + sum(map(nodes, obj))
    return 1


def run_instance(case: Any, stats: Stats) -> None:
    universe, mod, t, v, edits = case
    with World(universe) as w:
        typ = w.type(t, mod, plain=True)
        obj = w.build(t, v)
        objs = [obj]
        for e in edits:
            objs.append(edit(w, objs[-1], e))
        for o in objs:
            want = conforms(w, t, o)
            got = must(is_generic_instance, o, typ)
            require(got is want, lambda: f"is_generic_instance({o!r}, {typ!r}) is {got!r}")  # noqa: B023
            stats.label("instance" if want else "other")
        if t[0] == "leaf" and t[1] in ("int", "str", "bool", "float", "bytes"):
            for o in objs:
                got = must(is_generic_instance, o, typing.ForwardRef(t[1]))
                require(got is conforms(w, t, o), lambda: f"is_generic_instance({o!r}, reference to {t[1]}) is {got!r}")  # noqa: B023
        stats.nontrivial(nodes(obj) >= 2 and bool(edits))


def leaves(w: World, t: Any, obj: Any, out: list[tuple[Any, Any]]) -> None:
    "Types and objects to call the predicate with."

    kind = t[0]
    if kind == "ann":
        leaves(w, t[1], obj, out)
    elif kind in ("leaf", "aux", "literal", "elit", "opt", "union"):
        out.append((bare(w.type(t, 0, plain=True)), obj))
    elif kind in ("list", "vtuple", "set"):
        for x in obj:
            leaves(w, t[1], x, out)
    elif kind == "dict":
        for x in obj.values():
            leaves(w, t[1], x, out)
    elif kind == "edict":
        for x in obj.values():
            leaves(w, t[2], x, out)
    elif kind == "tuple":
        for s, x in zip(t[1], obj):
            leaves(w, s, x, out)
    elif w.specs[t[1]]["k"] == "enum":
        out.append((w.classes[t[1]], obj))
    else:
        for f in w.fields(t[1]):
            leaves(w, f["t"], getattr(obj, f["n"]), out)


def bare(typ: Any) -> Any:
    return typing._strip_annotations(typ)  # type: ignore[attr-defined]


class Tally:
    "The multiset of calls; types are compared by equality, objects by identity."

    def __init__(self, calls: list[tuple[Any, Any]]) -> None:
        self.groups: list[tuple[Any, Counter[int]]] = []
        for typ, obj in calls:
            for known, counter in self.groups:
                if known == typ:
                    counter[id(obj)] += 1
                    break
            else:
                self.groups.append((typ, Counter([id(obj)])))

    def __eq__(self, other: Any) -> bool:
        if len(self.groups) != len(other.groups):
            return False
        return all(any(t == u and c == d for u, d in other.groups) for t, c in self.groups)


def run_recursive(case: Any, stats: Stats) -> None:
    universe, mod, t, v, pick = case
    with World(universe) as w:
        typ = w.type(t, mod, plain=True)
        obj = w.build(t, v)
        want: list[tuple[Any, Any]] = []
        leaves(w, t, obj, want)
        calls: list[tuple[Any, Any]] = []

        def record(typ: Any, o: Any) -> bool:
            calls.append((bare(typ), o))
            return True

        got = must(lambda: RecursiveChecker(record).check(typ, obj))
        require(got is True, lambda: f"checking {obj!r} with a predicate that always holds is {got!r}")
        require(
            Tally(calls) == Tally(want), lambda: f"checking {obj!r} as {typ!r} applies the predicate to {calls}, expected {want}"
        )
        kinds = {id(o): i for i, (_, o) in enumerate(want)}
        types = [a for i, (a, _) in enumerate(want) if all(a != b for b, _ in want[:i])]
        chosen = types[pick % len(types)] if types else int
        predicates: list[Any] = [
            lambda a, o: False,
            lambda a, o: a != chosen,
            lambda a, o: a == chosen,
            lambda a, o: kinds[id(o)] != pick,
            lambda a, o: kinds[id(o)] != len(want) - 1,
            lambda a, o: len(repr(o)) % 7 != pick,
        ]
        for n, p in enumerate(predicates):
            expected = all(p(a, o) for a, o in want)
            got = must(lambda: RecursiveChecker(lambda a, o: p(bare(a), o)).check(typ, obj))  # noqa: B023
            require(got is expected, lambda: f"checking {obj!r} as {typ!r} with predicate {n} is {got!r}")  # noqa: B023
            stats.label("holds" if expected else "fails")

        cls = t[0] == "cls" or t[0] == "ann" and t[1][0] == "cls"
        if cls or t[0] == "leaf":
            calls.clear()
            got = must(lambda: check_recursive(obj, pred=record))
            require(got is True and Tally(calls) == Tally(want), lambda: f"check_recursive({obj!r}) applies to {calls}, expected {want}")
            require(must(lambda: check_recursive(obj)) is True, "check_recursive without predicate fails")
            for value_pred in (lambda o: len(repr(o)) % 7 != pick, lambda o: not isinstance(o, str), lambda o: o is None):
                got = must(lambda: check_recursive(obj, value_pred=value_pred))  # noqa: B023
                expected = all(value_pred(o) for _, o in want)
                require(got is expected, lambda: f"check_recursive({obj!r}) with a value predicate is {got!r}")  # noqa: B023
                got = must(lambda: check_recursive(obj, type_pred=lambda a: bare(a) == chosen, value_pred=value_pred))  # noqa: B023
                expected = all(value_pred(o) for a, o in want if a == chosen)
                require(got is expected, lambda: f"check_recursive({obj!r}) with values of {chosen} is {got!r}")  # noqa: B023
            for kwargs in (
                {"type_pred": lambda a: True},
                {"type_pred": lambda a: True, "pred": record},
                {"value_pred": lambda o: True, "pred": record},
                {"type_pred": lambda a: True, "value_pred": lambda o: True, "pred": record},
            ):
                outcome = call(check_recursive, obj, **kwargs)
                require(isinstance(outcome.error, TypeError), lambda: f"check_recursive with {list(kwargs)} {outcome.describe()}")  # noqa: B023
        stats.nontrivial(len(want) >= 2)
        stats.label(f"leaf-members:{min(len(want), 10)}")


class Impostor:
    "Has the items of an object of another type."

    def __init__(self, obj: Any) -> None:
        self.items = obj

    def __iter__(self) -> Any:
        return iter(self.items)

    def __len__(self) -> int:
        return len(self.items)


def impostor(obj: Any, path: list[int]) -> Any:
    "An object that resembles another one but is no instance of its type."

    kind = type(obj)
    choice = path[2] % 4
    if choice == 0:
        return object()
    if choice == 1:
        return None
    if isinstance(obj, (list, tuple)):
        if choice == 3 or hasattr(obj, "_fields"):
            return Impostor(obj)
        return list(obj) if isinstance(obj, tuple) else tuple(obj)
    if isinstance(obj, set):
        return frozenset(obj) if choice == 2 else list(obj)
    if isinstance(obj, dict):
        return list(obj.items()) if choice == 2 else collections.UserDict(obj)
    if isinstance(obj, HEnum):
        return obj.value if not isinstance(obj.value, HEnum) else object()
    # an object with equal members of another class with the same name
    members = {n: getattr(obj, n) for n in dir(obj) if not n.startswith("__") and not callable(getattr(obj, n))}
    return type(kind.__name__, (), {"__module__": kind.__module__, "__qualname__": kind.__qualname__, "__annotations__": kind.__dict__.get("__annotations__", {}), **members})()


def misplace(w: World, t: Any, obj: Any, path: list[int]) -> Any:
    "Replaces one part that is not a leaf by an object of no such type; returns (object, whether it was found)."

    kind = t[0]
    if kind == "ann":
        return misplace(w, t[1], obj, path)
    deeper = path[0] % 3 != 0
    rest = [*path[1:], path[0]]
    if kind in ("list", "vtuple"):
        if deeper and obj:
            i = path[1] % len(obj)
            new, found = misplace(w, t[1], obj[i], rest)
            return type(obj)([*obj[:i], new, *obj[i + 1 :]]), found
        return impostor(obj, path), True
    if kind == "tuple":
        if deeper and obj:
            i = path[1] % len(obj)
            new, found = misplace(w, t[1][i], obj[i], rest)
            return (*obj[:i], new, *obj[i + 1 :]), found
        return ((*obj, 1), True) if path[1] % 2 else (impostor(obj, path), True)
    if kind in ("dict", "edict"):
        if deeper and obj:
            key = list(obj)[path[1] % len(obj)]
            new, found = misplace(w, t[-1], obj[key], rest)
            return {**obj, key: new}, found
        return impostor(obj, path), True
    if kind == "set":
        return impostor(obj, path), True
    if kind == "cls":
        spec = w.specs[t[1]]
        if spec["k"] == "enum":
            return impostor(obj, path), True
        fields = w.fields(t[1])
        if deeper and fields:
            f = fields[path[1] % len(fields)]
            new, found = misplace(w, f["t"], getattr(obj, f["n"]), rest)
            return w.make(t[1], {**{x["n"]: getattr(obj, x["n"]) for x in fields}, f["n"]: new}), found
        return impostor(obj, path), True
    return obj, False


@st.composite
def wrong_cases(draw: Any) -> Any:
    universe, mod, t, v, _ = draw(cases(edits=False))
    g = Gen(draw)
    return (universe, mod, t, v, [g.int(0, 11) for _ in range(4)])


def run_wrong(case: Any, stats: Stats) -> None:
    universe, mod, t, v, path = case
    with World(universe) as w:
        typ = w.type(t, mod, plain=True)
        obj, found = misplace(w, t, w.build(t, v), path)
        if not found:
            stats.label("leaf")
            return
        outcome = call(RecursiveChecker(lambda a, o: True).check, typ, obj)
        require(isinstance(outcome.error, TypeError), lambda: f"checking {obj!r} as {typ!r} {outcome.describe()}")
        stats.label("refused")
        stats.nontrivial(path[0] % 3 != 0)


# --- one simple type in one place of a container, against objects of every kind ---


class Derived(dict):  # type: ignore
    pass


TABLE_TYPES: dict[str, tuple[Any, Any]] = {
    **{n: (t, lambda x, t=t: isinstance(x, t)) for n, t in HINTS.items()},  # type: ignore
    "time": (datetime.time, lambda x: isinstance(x, datetime.time)),
    "uuid": (uuid.UUID, lambda x: isinstance(x, uuid.UUID)),
    "ipv4": (ipaddress.IPv4Address, lambda x: isinstance(x, ipaddress.IPv4Address)),
    "object": (object, lambda x: True),
    "bare list": (list, lambda x: isinstance(x, list)),
    "bare dict": (dict, lambda x: isinstance(x, dict)),
    "MyInt": (MyInt, lambda x: isinstance(x, MyInt)),
    "Derived": (Derived, lambda x: isinstance(x, Derived)),
    "literal": (typing.Literal[1, "a"], lambda x: type(x) in (int, str) and x in (1, "a")),
    "literal bool": (typing.Literal[True], lambda x: x is True),
    "list of int": (list[int], lambda x: isinstance(x, list) and all(isinstance(y, int) for y in x)),
    "optional": (typing.Optional[str], lambda x: x is None or isinstance(x, str)),
    "float or text": (typing.Union[float, str], lambda x: isinstance(x, (float, str))),
    "new style": (bytes | None, lambda x: x is None or isinstance(x, bytes)),
}
TABLE_OBJECTS = [
    *POOL, lambda: datetime.time(1), lambda: uuid.UUID(int=1), lambda: ipaddress.IPv4Address(1), lambda: ipaddress.IPv6Address(1), lambda: 2,
    lambda: -1.5, lambda: datetime.timedelta(1), lambda: bytearray(b"a"), lambda: float("nan"), lambda: 10**400, lambda: [1, "a"], lambda: Derived(),
]  # fmt: skip
# type, object of that form, what the item has to be
TABLE_FORMS: dict[str, tuple[Any, Any, Any]] = {
    "": (lambda t: t, lambda x: x, lambda x, ok: ok),
    "list": (lambda t: list[t], lambda x: [x], lambda x, ok: ok),
    "List": (lambda t: typing.List[t], lambda x: [x], lambda x, ok: ok),
    "MyList": (lambda t: list[t], lambda x: MyList([x]), lambda x, ok: ok),
    "set": (lambda t: set[t], lambda x: {x}, lambda x, ok: ok),
    "Set": (lambda t: typing.Set[t], lambda x: {x}, lambda x, ok: ok),
    "frozen set as set": (lambda t: set[t], lambda x: frozenset([x]), lambda x, ok: False),
    "dict value": (lambda t: dict[str, t], lambda x: {"k": x}, lambda x, ok: ok),
    "dict key": (lambda t: dict[t, int], lambda x: {x: 1}, lambda x, ok: ok),
    "Dict value": (lambda t: typing.Dict[int, t], lambda x: {1: x}, lambda x, ok: ok),
    "dict value, wrong key": (lambda t: dict[int, t], lambda x: {"k": x}, lambda x, ok: False),
    "tuple": (lambda t: tuple[t], lambda x: (x,), lambda x, ok: ok),
    "pair first": (lambda t: tuple[t, str], lambda x: (x, "a"), lambda x, ok: ok),
    "pair second": (lambda t: typing.Tuple[str, t], lambda x: ("a", x), lambda x, ok: ok),
    "pair too short": (lambda t: tuple[t, t], lambda x: (x,), lambda x, ok: False),
    "pair too long": (lambda t: tuple[t, t], lambda x: (x, x, x), lambda x, ok: False),
    "list as tuple": (lambda t: tuple[t], lambda x: [x], lambda x, ok: False),
    "named tuple": (lambda t: tuple[t, t], lambda x: Named(x, x), lambda x, ok: ok),
    "items": (lambda t: tuple[t, ...], lambda x: (x, x), lambda x, ok: ok),
    "no items": (lambda t: tuple[t, ...], lambda x: (), lambda x, ok: True),
    "last of many": (lambda t: list[typing.Any if t is None else typing.Union[t, int]], lambda x: [0, 1, 2, 3, 4, 5, x], lambda x, ok: ok or isinstance(x, int)),
    "union": (lambda t: typing.Union[t, str], lambda x: x, lambda x, ok: ok or isinstance(x, str)),
    "union last": (lambda t: typing.Union[str, int, t], lambda x: x, lambda x, ok: ok or isinstance(x, (str, int))),
    "optional": (lambda t: typing.Optional[t], lambda x: x, lambda x, ok: ok or x is None),
    "annotated": (lambda t: typing.Annotated[t, "a"], lambda x: x, lambda x, ok: ok),
    "nested": (lambda t: dict[str, list[tuple[int, typing.Optional[t]]]], lambda x: {"a": [], "b": [(1, None), (2, x)]}, lambda x, ok: ok or x is None),
    "set of pairs": (lambda t: set[tuple[t, t]], lambda x: {(x, x)}, lambda x, ok: ok),
}  # fmt: skip


def table() -> Any:
    for form in TABLE_FORMS:
        for name in TABLE_TYPES:
            for i in range(len(TABLE_OBJECTS)):
                yield (form, name, i)


def run_table(case: Any, stats: Stats) -> None:
    form, name, i = case
    typ, judge = TABLE_TYPES[name]
    make_type, make_object, verdict = TABLE_FORMS[form]
    x = TABLE_OBJECTS[i]()
    try:
        obj = make_object(x)
    except TypeError:
        raise Discard() from None  # not hashable
    want = bool(verdict(x, judge(x)))
    t = make_type(typ)
    got = must(is_generic_instance, obj, t)
    require(got is want, lambda: f"is_generic_instance({obj!r}, {t!r}) is {got!r}")
    stats.label("instance" if want else "other", form)
    stats.nontrivial(form != "")


PARTS = [
    Part("table", None, run_table, exhaustive=table),
    Part("instance", cases, run_instance, quick=6000, thorough=100000),
    Part("recursive", lambda: cases(edits=False), run_recursive, quick=6000, thorough=100000),
    Part("wrong", wrong_cases, run_wrong, quick=3000, thorough=50000),
]
