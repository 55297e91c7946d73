"C12: concurrent use of a type gives the same results as sequential use."

from .. import sched

sched.install()  # before the library is imported

from typing import Any  # noqa: E402

from hypothesis import strategies as st  # noqa: E402

from strong_typing.deserializer import DeserializerOptions, create_deserializer  # noqa: E402
from strong_typing.schema import classdef_to_schema  # noqa: E402
from strong_typing.serialization import json_to_object, object_to_json  # noqa: E402
from strong_typing.serializer import create_serializer  # noqa: E402

from ..core import HarnessError, Part, Stats, require  # noqa: E402
from ..declared import declarations  # noqa: E402
from ..forked import broken, describe, in_fork  # noqa: E402
from ..gen import Gen, Profile, mutate, shape_labels  # noqa: E402
from ..world import World, concrete  # noqa: E402

ID = "C12"
RULE = (
    "A case is a generated program (often with classes that refer to one another), two or three calls (serialize or "
    "deserialize a value or a corrupted document, with either option, by class, special form or forward reference) and a "
    "schedule of up to four preemptions at generated positions (between any two statements or sub-expressions), favouring functions that touch shared state. Each "
    "call runs in a thread of its own in a forked process where the library has not been used; a deterministic scheduler "
    "lets one thread run at a time. Every outcome must equal that of the call alone. The part `sweep` runs two calls on "
    "fixed programs with every preemption point out of an evenly spread subset. In the part `used-before` both calls have been "
    "made before, such that only the conversion itself is interrupted, at up to 40 points by the whole other call and by "
    "turns. Non-trivial: a thread was preempted while "
    "another one had work left."
)
ASSUMPTIONS = [
    "Threads switch between statements and sub-expressions of the library's own functions, not within C functions or the standard library; at most four preemptions are generated per case."
]


def outcome(w: World, op: Any) -> str:
    kind, mod, t, data, skip = op
    labels = {cls: f"{i}" for i, cls in enumerate(w.classes)}
    module = w.modules[mod]
    try:
        typ = w.type(t, mod)
        if kind == "ser":
            result = object_to_json(data)
        elif kind == "schema":
            result = classdef_to_schema(typ)
        elif kind == "cser":
            result = create_serializer(typ, module).generate(data)
        elif kind == "des":
            result = json_to_object(typ, data, context=module, options=DeserializerOptions(skip_unassigned=skip))
        else:
            result = create_deserializer(typ, module, DeserializerOptions(skip_unassigned=skip)).parse(data)
    except Exception as ex:
        return f"raised {type(ex).__name__}"
    return "returned " + describe(result, lambda c: labels.get(c, c.__name__))


def prepare(w: World, op: Any) -> Any:
    kind, mod, t, data, skip = op
    if kind in ("ser", "cser"):
        return (kind, mod, t, w.build(t, data), skip)
    return op


def alone(universe: Any, ops: Any) -> Any:
    "Outcome, number of steps and positions of interest of each call on its own."

    def child() -> Any:
        result = []
        for op in ops:
            with World(universe) as w:
                op = prepare(w, op)
                s = sched.Scheduler([lambda: outcome(w, op)], [])  # noqa: B023
                s.run()
                hot = s.hot[0]
                result.append([s.results[0], s.counts[0], hot[:: max(1, len(hot) // 200)]])
        return result

    # each in a process of its own, such that caches are cold
    results = []
    for op in ops:
        saved, ops = ops, [op]
        results += in_fork(child)
        ops = saved
    return results


def together(universe: Any, ops: Any, plan: Any) -> Any:
    def child() -> Any:
        with World(universe) as w:
            prepared = [prepare(w, op) for op in ops]
            s = sched.Scheduler([lambda op=op: outcome(w, op) for op in prepared], plan)  # type: ignore
            results = s.run()
            return [results, s.switches, s.blocked, s.free]

    return in_fork(child, limit=60)


def judge_schedule(universe: Any, ops: Any, plan: Any, singles: Any, stats: Stats) -> None:
    answer = together(universe, ops, plan)
    if isinstance(answer, dict):
        raise broken(answer)
    results, switches, blocked, free = answer
    for i, (single, result) in enumerate(zip(singles, results)):
        if str(result).startswith("harness:"):
            raise HarnessError(result)
        require(
            result == single[0],
            lambda: f"call {ops[i]!r} {result} among threads, but {single[0]} on its own (schedule {plan})",  # noqa: B023
        )
    stats.nontrivial(switches >= len(ops))
    stats.label(f"switches:{min(switches, 6)}")
    if blocked:
        stats.label("waited for a lock")
    if free:
        stats.label("ran freely")


@st.composite
def cases(draw: Any) -> Any:
    g = Gen(draw, Profile(depth=2, max_classes=4, min_classes=2, mods=2, max_fields=3))
    universe = g.make_universe()
    ops = []
    with World(universe) as w:
        last = len(universe["classes"]) - 1
        for _ in range(g.int(2, 3)):
            if ops and g.chance(1, 3):
                ops.append(ops[-1])
                continue
            mod = g.int(0, len(universe["mods"]) - 1)
            i = last if g.chance(1, 2) else g.int(0, last)
            form = g.pick(["cls", "cls", "cls", "list", "fwd", "any"])
            t: Any = {"cls": ("cls", i, False), "list": ("list", ("cls", i, False)), "fwd": ("list", ("cls", i, True))}.get(form)
            if t is None:
                t = g.top_type(mod)
            v = g.make_value(t, 2)
            kind = g.pick(["des", "cdes", "des", "ser", "cser"])
            if kind in ("ser", "cser"):
                ops.append((kind, mod, t, v, False))
                continue
            doc = concrete(w.encode(t, v))
            if g.chance(1, 5):
                doc = mutate(g, doc)
            ops.append((kind, mod, t, doc, g.chance(1, 4)))
    points = []
    for _ in range(g.int(1, 4)):
        points.append((g.int(0, len(ops) - 1), g.int(0, 3), g.int(0, 9999)))
    return (universe, ops, points)


def place(points: Any, singles: Any) -> list[tuple[int, int]]:
    "Turns relative positions into numbers of steps."

    done = [0] * len(singles)
    plan = []
    for thread, where, position in points:
        total, hot = singles[thread][1], [h for h in singles[thread][2] if h > done[thread]]
        if where < 3 and hot:
            target = hot[position * len(hot) // 10000]
        else:
            target = done[thread] + (total - done[thread]) * position // 10000
        count = max(1, target - done[thread])
        done[thread] += count
        plan.append((thread, count))
    return plan


def run(case: Any, stats: Stats) -> None:
    universe, ops, points = case
    singles = alone(universe, ops)
    judge_schedule(universe, ops, place(points, singles), singles, stats)
    for op in ops:
        stats.label(f"call:{op[0]}")
    stats.label(*(s for s in shape_labels(ops[0][2], universe) if s in ("recursive", "forward reference", "type:union", "class:inherited")))


# --- fixed programs, many preemption points ---

A, B, C = ("cls", 0, False), ("cls", 1, False), ("cls", 2, False)
INT = ("leaf", "int")
MUTUAL = {
    "mods": [False],
    "classes": [
        {"k": "dc", "mod": 0, "name": "A", "fields": [{"n": "x", "t": INT}, {"n": "b", "t": ("opt", ("cls", 1, True), "O")}]},
        {"k": "dc", "mod": 0, "name": "B", "fields": [{"n": "y", "t": INT}, {"n": "a", "t": ("list", ("cls", 0, True))}]},
    ],
}
CHAIN = {
    "mods": [False],
    "classes": [
        {"k": "dc", "mod": 0, "name": "A", "fields": [{"n": "x", "t": ("leaf", "datetime")}], "frozen": True},
        {"k": "nt", "mod": 0, "name": "B", "fields": [{"n": "a", "t": A}, {"n": "s", "t": ("list", A)}]},
        {"k": "plain", "mod": 0, "name": "C", "fields": [{"n": "b", "t": B}, {"n": "u", "t": ("union", [B, A], "U")}]},
    ],
}
SELF = {
    "mods": [True],
    "classes": [
        {"k": "plain", "mod": 0, "name": "A", "fields": [{"n": "x", "t": INT}, {"n": "next", "t": ("opt", ("cls", 0, True), "P")}]},
    ],
}
_DOC_A = {"x": 1, "b": {"y": 2, "a": [{"x": 3}]}}
_DOC_B = {"y": 2, "a": [{"x": 3, "b": {"y": 4, "a": []}}]}
_DOC_C = {"b": {"a": {"x": "2020-01-01T00:00:00Z"}, "s": []}, "u": {"x": "2021-01-01T00:00:00Z"}}
_V_A = {"x": 1, "b": [{"y": 2, "a": [{"x": 3, "b": None}]}]}
_V_B = {"y": 2, "a": [_V_A]}
_V_SELF = {"x": 1, "next": [{"x": 2, "next": None}]}
SWEEPS: list[tuple[Any, list[Any]]] = [
    (MUTUAL, [("des", 0, A, _DOC_A, False), ("des", 0, A, _DOC_A, False)]),
    (MUTUAL, [("des", 0, A, _DOC_A, False), ("des", 0, B, _DOC_B, False)]),
    (MUTUAL, [("des", 0, B, _DOC_B, False), ("des", 0, ("list", A), [_DOC_A], False)]),
    (MUTUAL, [("des", 0, A, {"x": 1, "zz": 1}, True), ("des", 0, A, {"x": 1, "zz": 1}, False)]),
    (MUTUAL, [("ser", 0, A, _V_A, False), ("ser", 0, B, _V_B, False)]),
    (MUTUAL, [("cser", 0, B, _V_B, False), ("ser", 0, B, _V_B, False)]),
    (CHAIN, [("des", 0, C, _DOC_C, False), ("des", 0, B, _DOC_C["b"], False)]),
    (CHAIN, [("des", 0, C, _DOC_C, False), ("des", 0, C, {"b": 1}, False)]),
    (SELF, [("des", 0, A, {"x": 1, "next": {"x": 2}}, False), ("cser", 0, A, _V_SELF, False)]),
    (SELF, [("ser", 0, A, _V_SELF, False), ("ser", 0, A, _V_SELF, False)]),
]
POINTS = 48


def sweep() -> Any:
    for s in range(len(SWEEPS)):
        for first in (0, 1):
            for k in range(POINTS):
                yield (s, first, k)


def sweep_points() -> Any:
    return st.tuples(
        st.integers(0, len(SWEEPS) - 1), st.integers(0, 1), st.integers(0, 10**6).map(lambda n: n * POINTS / 10**6), st.integers(0, 10**6).map(lambda n: n * POINTS / 10**6)
    )


_singles: dict[int, Any] = {}


def run_sweep(case: Any, stats: Stats) -> None:
    s, first, k, *more = case
    universe, ops = SWEEPS[s]
    if s not in _singles:
        _singles[s] = alone(universe, ops)
    singles = _singles[s]
    total, hot = singles[first][1], singles[first][2]
    position = hot[int(k * len(hot) / POINTS)] if hot and not more else int(total * k / POINTS)
    plan = [(first, max(1, position))]
    if more:
        plan.append((1 - first, max(1, int(singles[1 - first][1] * more[0] / POINTS))))
        plan.append((first, 10**9))
    judge_schedule(universe, ops, plan, singles, stats)


# --- types that have been used before ---


@st.composite
def warm_cases(draw: Any) -> Any:
    g = Gen(draw, Profile(depth=2, max_classes=3, min_classes=1, max_fields=4))
    common = g.pick(["des", "des", "ser", None])
    if g.chance(2, 3):
        universe, mod, t, values = draw(declarations(values=2))
    else:
        universe = g.make_universe()
        mod = 0
        t = g.top_type(mod)
        values = [g.make_value(t, 2), g.make_value(t, 2)]
    ops: list[Any] = []
    with World(universe) as w:
        for v in values:
            kind = common or g.pick(["des", "cdes", "ser", "cser", "schema"])
            if kind in ("ser", "cser", "schema"):
                ops.append((kind, mod, t, v, False))
                continue
            doc = concrete(w.encode(t, v))
            if g.chance(1, 5):
                doc = mutate(g, doc)
            ops.append((kind, mod, t, doc, False))
    return (universe, [ops[0], ops[-1]], g.int(0, 9999))


def run_warm(case: Any, stats: Stats) -> None:
    universe, ops, offset = case

    def child() -> Any:
        switches = 0
        with World(universe) as w:
            prepared = [prepare(w, op) for op in ops]
            tasks = [lambda op=op: outcome(w, op) for op in prepared]  # type: ignore
            expected = [task() for task in tasks]
            counts = []
            for task, want in zip(tasks, expected):
                s = sched.Scheduler([task], [])
                got = s.run()[0]
                if got != want:
                    return ["again", got, want, []]
                counts.append(s.counts[0])
            plans = []
            n = min(40, counts[0])
            for k in range(n):  # the second call in the middle of the first
                plans.append([(0, max(1, (k * counts[0] + offset % max(1, counts[0])) // n)), (1, 10**9), (0, 10**9)])
            for k in range(8):  # alternating
                a, b = 1 + (offset * (k + 3)) % counts[0], 1 + (offset * (k + 5)) % counts[1]
                plans.append([(0, a), (1, b), (0, 1 + a // 2), (1, 1 + b // 2), (0, 10**9)])
            for plan in plans:
                s = sched.Scheduler(tasks, plan)
                results = s.run()
                switches += s.switches
                for i, (got, want) in enumerate(zip(results, expected)):
                    if got != want:
                        return ["differs", got, want, [i, plan]]
        return ["fine", switches, counts, len(plans)]

    answer = in_fork(child, limit=120)
    if isinstance(answer, dict):
        raise broken(answer)
    if answer[0] != "fine":
        if str(answer[1]).startswith("harness:"):
            raise HarnessError(answer[1])
        what = f"call {ops[answer[3][0]]!r}" if answer[3] else "the same call again"
        require(False, lambda: f"{what} {answer[1]} among threads, but {answer[2]} on its own ({answer[3]})")
    stats.label(*(f"warm:{op[0]}" for op in ops), f"steps:{min(answer[2][0] // 40 * 40, 400)}+")
    stats.nontrivial(answer[1] > 2)


PARTS = [
    Part("schedules", cases, run, quick=2400, thorough=40000),
    Part("used-before", warm_cases, run_warm, quick=1200, thorough=20000),
    Part("sweep", sweep_points, run_sweep, quick=800, thorough=20000, exhaustive=sweep),
]
