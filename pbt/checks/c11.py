"C11: custom to_json / from_json hooks are honoured wherever the type occurs."

from typing import Any, Optional

from hypothesis import strategies as st

from strong_typing.deserializer import create_deserializer
from strong_typing.exception import JsonKeyError, JsonTypeError, JsonValueError
from strong_typing.serialization import json_to_object, object_to_json
from strong_typing.serializer import create_serializer

from ..core import Part, Stats, call, require
from ..gen import Gen, Profile, shape_labels
from ..world import Bag, Gray, Reject, World, json_name, json_same, same, strip_ann, walk

ID = "C11"
RULE = (
    "A case is a generated program in which some classes (of any kind, enumerations included, own or inherited methods) have "
    "to_json and/or from_json methods that count calls and map objects to unpredictable JSON of a chosen shape, a type that "
    "uses them and a value. The output must carry exactly the objects the methods returned (by identity), one call per "
    "occurrence, and the rest must follow the documented mapping; likewise when reading, also through unions that try the "
    "methods in order, and for errors raised in one of the calls. A second part enumerates subclasses of built-in types in "
    "every position. Non-trivial: a hook is called below the top level or raises an error."
)

SHAPES = ["dict", "str", "list", "int", "float", "bool", "zero", "empty"]
# library errors are an ordinary refusal for a union, all others must get through
SOFT: dict[str, type[Exception]] = {
    "JsonKeyError": JsonKeyError,
    "JsonTypeError": JsonTypeError,
    "JsonValueError": JsonValueError,
    "ValueError": ValueError,
}


class HookFailure(Exception):
    pass


HARD: dict[str, type[Exception]] = {
    "HookFailure": HookFailure,
    "TypeError": TypeError,
    "KeyError": KeyError,
    "AttributeError": AttributeError,
    "RuntimeError": RuntimeError,
    "IndexError": IndexError,
    "RecursionError": RecursionError,
}


class Fault(Exception):
    "The reference model expects the error of a hook."


class Expect:
    "Stands for what a hook returns for an object."

    def __init__(self, obj: Any) -> None:
        self.obj = obj


class HookWorld(World):
    def __init__(self, universe: dict[str, Any]) -> None:
        self.values: dict[int, tuple[int, Any]] = {}  # by token
        self.clear()
        super().__init__(universe)

    def clear(self) -> None:
        self.fail_at: Optional[int] = None
        self.fail_with = ""
        self.returned: list[tuple[Any, Any]] = []  # (input, output)
        self.calls = 0
        self.raised: Optional[Exception] = None

    def _declare(self, index: int) -> None:
        self.modules[self.specs[index]["mod"]].__dict__["_HOOK"] = self
        super()._declare(index)

    def hook(self, index: int, side: str) -> Optional[dict[str, Any]]:
        spec = self.specs[index]
        own = spec.get("hook")
        if own is not None and side in own["sides"]:
            return own  # type: ignore
        if spec.get("base") is not None and spec["k"] != "enum":
            return self.hook(spec["base"], side)
        return None

    # --- called by the generated classes ---

    def count(self) -> None:
        self.calls += 1
        if self.fail_at == self.calls:
            self.raised = {**SOFT, **HARD}[self.fail_with](f"call {self.calls}")
            raise self.raised

    def output(self, shape: str, obj: Any) -> Any:
        self.count()
        n = self.calls
        result: Any = {
            "dict": {"#": n},
            "str": f"hook {n}",
            "list": [n, None],
            "int": 10**6 + n,
            "float": n + 0.25,
            "bool": True,
            "zero": 0,
            "empty": "",
            "null": None,
        }[shape]
        if shape == "list":
            result = object_to_json([n, None])  # the library may be used by a hook
        self.returned.append((obj, result))
        return result

    def input(self, cls: type, shape: str, data: Any) -> Any:
        try:
            self.count()
            index, value = self.find(shape, data)
            if index != self.classes.index(cls):
                raise Reject("hook")
        except Reject:
            self.raised = JsonTypeError(f"not for me: {data!r}")
            raise self.raised from None
        obj = self.build(("cls", self.classes.index(cls), False), value)
        self.returned.append((data, obj))
        return obj

    def find(self, shape: str, data: Any) -> tuple[int, Any]:
        try:
            if shape == "dict":
                n = data["#"] if type(data) is dict else None
            elif shape == "str":
                n = int(data.removeprefix("hook "))
            elif shape == "list":
                n = data[0] if len(data) == 2 and data[1] is None else None
            elif shape == "int":
                n = data - 10**6 if type(data) is int else None
            elif shape == "float":
                n = int(data - 0.25) if type(data) is float else None
            elif shape == "zero":
                n = 1 if type(data) is int and data == 0 else None
            elif shape == "empty":
                n = 1 if data == "" else None
            else:
                n = 1 if data is True else None
            if type(n) is not int:
                raise Reject("hook")
            return self.values[n]
        except (TypeError, ValueError, AttributeError, KeyError, IndexError, OverflowError):
            raise Reject("hook") from None

    # --- reference model ---

    def encode(self, spec: Any, v: Any) -> Any:
        if spec[0] == "cls" and self.hook(spec[1], "out"):
            return Expect(self.build(spec, v))
        return super().encode(spec, v)

    def document(self, expected: Any, spec: Any, v: Any) -> Any:
        "JSON document to read for a value."

        kind = spec[0]
        if kind == "cls":
            hook = self.hook(spec[1], "in")
            if hook:
                n = len(self.values) + 1
                if hook["shape"] in ("bool", "zero", "empty"):
                    n = 1
                self.values[n] = (spec[1], v)
                doc: Any = {
                    "dict": {"#": n},
                    "str": f"hook {n}",
                    "list": [n, None],
                    "int": 10**6 + n,
                    "float": n + 0.25,
                    "bool": True,
                    "zero": 0,
                    "empty": "",
                }[hook["shape"]]
                if hook["shape"] == "dict" and self.specs[spec[1]]["k"] != "enum":
                    for f in self.fields(spec[1]):
                        if strip_ann(f["t"])[0] in ("literal", "elit"):
                            doc[json_name(f["n"], f["t"])] = World.encode(self, f["t"], v[f["n"]])
                return doc
            if self.specs[spec[1]]["k"] == "enum":
                return super().encode(spec, v)
            result = {}
            for f in self.fields(spec[1]):
                item = self.document(None, f["t"], v[f["n"]])
                if item is not None:
                    result[json_name(f["n"], f["t"])] = item
            return result
        if kind in ("list", "set"):
            return [self.document(None, spec[1], x) for x in v]
        if kind == "dict":
            return {k: self.document(None, spec[1], x) for k, x in v}
        if kind == "edict":
            return {self.classes[spec[1]][k].value: self.document(None, spec[2], x) for k, x in v}  # type: ignore
        if kind == "tuple":
            return [self.document(None, s, x) for s, x in zip(spec[1], v)]
        if kind == "opt":
            return None if v is None else self.document(None, spec[1], v[0])
        if kind == "union":
            return self.document(None, spec[1][v[0]], v[1])
        if kind == "ann":
            return self.document(None, spec[1], v)
        from ..world import concrete

        return concrete(super().encode(spec, v))

    def decode_class(self, index: int, doc: Any, skip: bool) -> Any:
        hook = self.hook(index, "in")
        if hook is None:
            return super().decode_class(index, doc, skip)
        self.calls += 1
        if self.fail_at == self.calls:
            if self.fail_with in SOFT:
                raise Reject("hook")
            raise Fault()
        found, value = self.find(hook["shape"], doc)
        if found != index:
            raise Reject("hook")  # a document for another class
        return self.build(("cls", index, False), value)


def hooked_match(expected: Any, actual: Any, rest: list[tuple[Any, Any]]) -> bool:
    "Compares a document to the expected one, in which hooks must have returned the very objects."

    if isinstance(expected, Expect):
        for i, (obj, result) in enumerate(rest):
            if result is actual and same(obj, expected.obj):
                del rest[i]
                return True
        return False
    if isinstance(expected, Bag):
        if type(actual) is not list or len(actual) != len(expected):
            return False
        left = list(actual)
        for e in expected:
            for i, a in enumerate(left):
                if hooked_match(e, a, rest):
                    del left[i]
                    break
            else:
                return False
        return True
    if isinstance(expected, list):
        return type(actual) is list and len(actual) == len(expected) and all(hooked_match(e, a, rest) for e, a in zip(expected, actual))
    if isinstance(expected, dict):
        return (
            type(actual) is dict
            and list(actual) == list(expected)
            and all(hooked_match(expected[k], actual[k], rest) for k in expected)
        )
    return json_same(expected, actual)


def count_hooks(expected: Any) -> int:
    if isinstance(expected, Expect):
        return 1
    if isinstance(expected, list):
        return sum(map(count_hooks, expected))
    if isinstance(expected, dict):
        return sum(map(count_hooks, expected.values()))
    return 0


PROFILE = Profile(depth=3, max_classes=4, min_classes=1)


@st.composite
def programs(draw: Any) -> Any:
    g = Gen(draw, PROFILE)
    universe = g.make_universe()
    classes = universe["classes"]
    mod = g.int(0, len(universe["mods"]) - 1)
    t = g.top_type(mod)
    keys = {s[1] for s in walk(t) if s[0] in ("edict", "elit")}
    for c in classes:
        if c["k"] != "enum":
            keys |= {s[1] for f in c["fields"] for s in walk(f["t"]) if s[0] in ("edict", "elit")}
    candidates = [i for i in range(len(classes)) if i not in keys]
    chosen = g.sample(candidates, 1, 3)
    for i in chosen:
        c = classes[i]
        sides = g.pick([["out", "in"], ["out", "in"], ["out"], ["in"]])
        shape = g.pick(SHAPES if "in" in sides else [*SHAPES, "null", "null"])
        src = []
        if "out" in sides:
            src += ["def to_json(self):", f"    return _HOOK.output({shape!r}, self)"]
        if "in" in sides:
            src += ["@classmethod", "def from_json(cls, data):", f"    return _HOOK.input(cls, {shape!r}, data)"]
        c["src"] = src
        c["hook"] = {"sides": sides, "shape": shape}
    if any(any(f["n"] in ("to_json", "from_json") for f in c.get("fields", ())) for c in classes):
        raise AssertionError
    value = g.make_value(t)
    fail = (g.int(1, 4), g.pick([*HARD, *SOFT])) if g.chance(1, 2) else None
    return (universe, mod, t, value, fail)


def run(case: Any, stats: Stats) -> None:
    universe, mod, t, value, fail = case
    with HookWorld(universe) as w:
        typ = w.type(t, mod)
        module = w.modules[mod]
        obj = w.build(t, value)
        expected = w.encode(t, value)
        times = count_hooks(expected)

        # writing
        for name, fn in (
            ("object_to_json", object_to_json),
            ("serializer", lambda o: create_serializer(typ, module).generate(o)),
        ):
            w.clear()
            outcome = call(fn, obj)
            require(
                outcome.ok and hooked_match(expected, outcome.value, list(w.returned)),
                lambda: f"{name} for {typ}: {obj!r} {outcome.describe()}; hooks returned {[r for _, r in w.returned]}",  # noqa: B023
            )
            require(w.calls == times, lambda: f"{name} for {typ}: {obj!r} calls to_json {w.calls} times, expected {times}")  # noqa: B023
            if fail is not None and fail[0] <= times:
                w.clear()
                w.fail_at, w.fail_with = fail
                outcome = call(fn, obj)
                require(
                    outcome.error is not None and outcome.error is w.raised,
                    lambda: f"{name} for {typ}: to_json raised {w.raised!r} but the call {outcome.describe()}",  # noqa: B023
                )
                stats.label("error when writing")
                stats.nontrivial()

        # reading
        w.values.clear()
        doc = w.document(None, t, value)
        for name, fn in (
            ("json_to_object", lambda d: json_to_object(typ, d, context=module)),
            ("deserializer", lambda d: create_deserializer(typ, module).parse(d)),
        ):
            for plan in (None, fail):
                if plan is None and fail is not None and name == "deserializer":
                    continue
                w.clear()
                if plan is not None:
                    w.fail_at, w.fail_with = plan
                kind = "ok"
                want: Any = None
                try:
                    want = w.decode(t, doc)
                except Reject as ex:
                    kind = ex.kind
                except Fault:
                    kind = "fault"
                except Gray:
                    kind = "gray"
                if kind == "gray":
                    break
                reads = w.calls
                w.clear()
                if plan is not None:
                    w.fail_at, w.fail_with = plan
                outcome = call(fn, doc)
                if kind == "ok":
                    require(
                        outcome.ok and same(outcome.value, want),
                        lambda: f"{name}: {doc!r} as {typ} {outcome.describe()}, expected {want!r}",  # noqa: B023
                    )
                    require(
                        w.calls == reads,
                        lambda: f"{name}: {doc!r} as {typ} calls from_json {w.calls} times, expected {reads}",  # noqa: B023
                    )
                    if not has_kind(t, universe, ("union", "set", "opt")):
                        ids = collect(outcome.value, {})
                        require(
                            all(id(o) in ids for _, o in w.returned),
                            lambda: f"{name}: {doc!r} as {typ}: result {outcome.value!r} does not hold what from_json returned",  # noqa: B023
                        )
                        stats.label("identity")
                elif kind in ("fault", "hook"):
                    require(
                        outcome.error is not None and outcome.error is w.raised,
                        lambda: f"{name}: {doc!r} as {typ}: from_json raised {w.raised!r} but the call {outcome.describe()}",  # noqa: B023
                    )
                    stats.label("error when reading")
                    stats.nontrivial()
                else:
                    require(
                        not outcome.ok and isinstance(outcome.error, (JsonKeyError, JsonTypeError, JsonValueError, ValueError)),
                        lambda: f"{name}: {doc!r} as {typ} {outcome.describe()}, expected a {kind} error",  # noqa: B023
                    )
                    stats.label("refused by a union")
                if reads and t[0] != "cls":
                    stats.nontrivial()
        stats.label(*shape_labels(t, universe))
        stats.nontrivial(times > 0 and not isinstance(expected, Expect))


def has_kind(t: Any, universe: dict[str, Any], kinds: tuple[str, ...]) -> bool:
    return any(f"type:{k}" in shape_labels(t, universe) for k in kinds)


def collect(obj: Any, seen: dict[int, Any]) -> dict[int, Any]:
    if id(obj) in seen:
        return seen
    seen[id(obj)] = obj
    if isinstance(obj, (list, tuple, set)):
        for x in obj:
            collect(x, seen)
    elif isinstance(obj, dict):
        for x in obj.values():
            collect(x, seen)
    if type(obj).__module__.startswith("vt"):
        from ..world import member_names

        for n in member_names(type(obj)):
            collect(getattr(obj, n, None), seen)
    return seen


# --- subclasses of built-in types ---

BASES = {
    "int": "X(7)",
    "float": "X(1.5)",
    "str": "X('s')",
    "bytes": "X(b'b')",
    "list": "X([1])",
    "dict": "X({'a': 1})",
    "set": "X({1})",
    "tuple": "X((1, 2))",
    "frozenset": "X([1])",
    "datetime.date": "X(2020, 1, 1)",
    "datetime.datetime": "X(2020, 1, 1)",
    "datetime.timedelta": "X(1)",
    "uuid.UUID": "X(int=1)",
    "ipaddress.IPv4Address": "X('10.0.0.1')",
    "object": "X()",
    "Exception": "X('m')",
    "enum.Enum": "X.ONE",
    "str, enum.Enum": "X.ONE",
    "enum.IntEnum": "X.ONE",
    "typing.Generic[T]": "X()",
    "typing.NamedTuple": "X(1)",
    "Mixin": "X()",
    "Protocol": "X()",
}
# type, value given `x`, document given `d`, result given `r`
POSITIONS = {
    "top": ("X", "x", "d", "r"),
    "list": ("list[X]", "[x]", "[d]", "[r]"),
    "set": ("set[X]", "{x}", "[d]", "{r}"),
    "dict": ("dict[str, X]", "{'k': x}", "{'k': d}", "{'k': r}"),
    "edict": ("dict[Key, X]", "{Key.A: x}", "{'a': d}", "{Key.A: r}"),
    "tuple": ("tuple[int, X]", "(1, x)", "[1, d]", "(1, r)"),
    "optional": ("Optional[X]", "x", "d", "r"),
    "optional new": ("X | None", "x", "d", "r"),
    "optional first": ("None | X", "x", "d", "r"),
    "union": ("Union[X, bool]", "x", "d", "r"),
    "union last": ("Union[bool, X]", "x", "d", "r"),
    "union new": ("bool | X", "x", "d", "r"),
    "annotated": ("Annotated[X, Mark(1)]", "x", "d", "r"),
    "special": ("Annotated[X, SpecialConversion()]", "x", "d", "r"),
    "list annotated": ("list[Annotated[X, Mark(1)]]", "[x]", "[d]", "[r]"),
    "forward": ("list['X']", "[x]", "[d]", "[r]"),
    "data class": ("DC", "DC(x, [x], x)", "{'a': d, 'b': [d], 'c': d}", "DC(r, [r], r)"),
    "default": ("DC", "DC(x, [], None)", "{'a': d, 'b': []}", "DC(r, [], None)"),
    "frozen": ("FDC", "FDC(x)", "{'a': d}", "FDC(r)"),
    "named tuple": ("NT", "NT(x)", "{'a': d}", "NT(r)"),
    "plain": ("PC", "PC.make(x)", "{'a': d}", "PC.make(r)"),
    "nested": ("dict[str, list[tuple[X, Optional[X]]]]", "{'k': [(x, x)]}", "{'k': [[d, d]]}", "{'k': [(r, r)]}"),
}
TIMES = {"data class": 3, "nested": 2}
PAYLOADS = [{"custom": [1]}, ["custom"], "custom", 1234567, 1.75, {}, [], "", 0, False]


def grid() -> Any:
    for b, base in enumerate(BASES):
        for p, position in enumerate(POSITIONS):
            for inherited in (False, True):
                if inherited and ("num" in base or base == "typing.NamedTuple" or base == "Protocol"):
                    continue
                yield (base, position, inherited, PAYLOADS[(b + p) % len(PAYLOADS)], ["", *HARD][(b * 7 + p) % (len(HARD) + 1)])


@st.composite
def grid_points(draw: Any) -> Any:
    base = draw(st.sampled_from(list(BASES)))
    position = draw(st.sampled_from(list(POSITIONS)))
    inherited = draw(st.booleans()) and not ("num" in base or base in ("typing.NamedTuple", "Protocol"))
    return (base, position, inherited, draw(st.sampled_from(PAYLOADS)), draw(st.sampled_from(["", *HARD])))


class Recorder:
    def __init__(self, payload: Any, error: str) -> None:
        self.payload = payload
        self.error = error
        self.seen: list[Any] = []
        self.result: Any = None
        self.raised: Optional[Exception] = None

    def handle(self, obj: Any, result: Any) -> Any:
        self.seen.append(obj)
        if self.error:
            self.raised = HARD[self.error]("hook")
            raise self.raised
        return result


def run_grid(case: Any, stats: Stats) -> None:
    base, position, inherited, payload, error = case
    with World({"mods": [False], "classes": []}) as w:
        scope = w.modules[0].__dict__
        methods = (
            "    def to_json(self):\n        return _R.handle(self, _R.payload)\n"
            "    @classmethod\n    def from_json(cls, data):\n        return _R.handle(data, _R.result)\n"
        )
        unhash = "    __hash__ = object.__hash__\n" if base in ("list", "dict", "set") else ""
        body = {"enum.Enum": "    ONE = 1\n", "str, enum.Enum": "    ONE = 'one'\n", "enum.IntEnum": "    ONE = 1\n", "typing.NamedTuple": "    v: int\n"}
        bases = {"Mixin": "Mix", "Protocol": "typing.Protocol", "typing.Generic[T]": "typing.Generic[T]"}.get(base, base)
        if base == "Mixin":
            source = f"class Mix:\n{methods}class X(Mix):\n    a: int = 1\n"
        elif base == "Protocol":
            source = f"class P(typing.Protocol):\n    v: int\nclass X(P):\n    v = 1\n{methods}"
        elif inherited:
            source = f"class B({bases}):\n{body.get(base, '')}{unhash}{methods}class X(B):\n    pass\n"
        else:
            source = f"class X({bases}):\n{body.get(base, '')}{unhash}{methods}"
        source += (
            "class Key(enum.Enum):\n    A = 'a'\n"
            "@dataclasses.dataclass\nclass DC:\n    a: X\n    b: list[X]\n    c: Optional[X] = None\n"
            "@dataclasses.dataclass(frozen=True)\nclass FDC:\n    a: X\n"
            "class NT(NamedTuple):\n    a: X\n"
            "class PC:\n    a: X\n    @classmethod\n    def make(cls, a):\n        o = cls()\n        o.a = a\n        return o\n"
        )
        exec("T = typing.TypeVar('T')", scope)
        exec(compile(source, w.modules[0].__name__, "exec", dont_inherit=True), scope)
        type_text, value_text, doc_text, result_text = POSITIONS[position]
        if type_text.startswith("bool | ") and not isinstance(scope["X"], type):
            return
        typ = eval(type_text, scope)
        scope["x"] = x = eval(BASES[base], scope)
        scope["d"] = payload
        value = eval(value_text, scope)
        doc = eval(doc_text, scope)
        times = TIMES.get(position, 1)
        if payload is False and position.startswith("union"):
            return  # is accepted by another member

        for fn in (object_to_json, lambda o: create_serializer(typ, w.modules[0]).generate(o)):
            r = scope["_R"] = Recorder(payload, error)
            outcome = call(fn, value)
            if error:
                require(outcome.error is r.raised and r.raised is not None, lambda: f"to_json raised {r.raised!r} but writing as {typ} {outcome.describe()}")  # noqa: B023
            else:
                require(
                    outcome.ok and outcome.value == doc and all(p is payload for p in find_equal(outcome.value, doc, payload)),
                    lambda: f"writing {value!r} as {type_text}, X a {base}: {outcome.describe()}, expected {doc!r}",  # noqa: B023
                )
                require(len(r.seen) == times and all(o is x for o in r.seen), lambda: f"to_json called for {r.seen}")  # noqa: B023

        for fn in (
            lambda: json_to_object(typ, doc, context=w.modules[0]),
            lambda: create_deserializer(typ, w.modules[0]).parse(doc),
        ):
            r = scope["_R"] = Recorder(payload, error)
            scope["r"] = r.result = eval(BASES[base], scope)
            result = eval(result_text, scope)
            outcome = call(fn)
            if error:
                require(outcome.error is r.raised and r.raised is not None, lambda: f"from_json raised {r.raised!r} but reading {typ} {outcome.describe()}")  # noqa: B023
            else:
                require(
                    outcome.ok and deep_is(outcome.value, result, r.result),
                    lambda: f"reading {doc!r} as {type_text}, X a {base}: {outcome.describe()}, expected {result!r}",  # noqa: B023
                )
                require(len(r.seen) == times and all(o == payload for o in r.seen), lambda: f"from_json called for {r.seen}")  # noqa: B023
    stats.label(f"base:{base}", f"position:{position}")
    stats.nontrivial(position != "top" or bool(error))


def find_equal(actual: Any, doc: Any, payload: Any) -> list[Any]:
    "Items of a document at the places where the expected one has the payload object."

    if doc is payload:
        return [actual]
    if isinstance(doc, list):
        return [r for a, d in zip(actual, doc) for r in find_equal(a, d, payload)]
    if isinstance(doc, dict):
        return [r for k in doc for r in find_equal(actual[k], doc[k], payload)]
    return []


def deep_is(actual: Any, expected: Any, leaf: Any) -> bool:
    if expected is leaf:
        return actual is leaf
    if type(actual) is not type(expected):
        return False
    if isinstance(expected, (list, tuple)) and type(expected) in (list, tuple):
        return len(actual) == len(expected) and all(deep_is(a, e, leaf) for a, e in zip(actual, expected))
    if type(expected) is set:
        return len(actual) == 1 and deep_is(next(iter(actual)), next(iter(expected)), leaf)
    if type(expected) is dict:
        return list(actual) == list(expected) and all(deep_is(actual[k], expected[k], leaf) for k in expected)
    names = [n for n in "abc" if hasattr(expected, n)]
    if names:
        return all(deep_is(getattr(actual, n), getattr(expected, n), leaf) for n in names)
    return bool(actual == expected)


PARTS = [
    Part("programs", programs, run, quick=4000, thorough=80000),
    Part("built-in", grid_points, run_grid, quick=400, thorough=4000, exhaustive=grid),
]
