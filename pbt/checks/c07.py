"C07: results do not depend on what was converted before."

import contextlib
import sys
import types
import typing
from typing import Any

from hypothesis import strategies as st

from strong_typing.deserializer import DeserializerOptions, create_deserializer
from strong_typing.schema import SchemaOptions, classdef_to_schema, validate_object
from strong_typing.serialization import json_to_generic, json_to_object, object_to_json
from strong_typing.serializer import create_serializer

from ..core import Discard, Part, Stats, must, require
from ..forked import describe, in_fork
from ..gen import JSON_DOCS, Gen, Profile, mutate, shape_labels
from ..world import Gray, Mark, Reject, World, concrete, json_same, same

ID = "C07"
RULE = (
    "A case is a program (several modules, same-named classes in different modules and scopes, recursive classes, "
    "optionally classes that are defined only in the middle of the history) and a history of up to eight calls: serialize "
    "by value or type, deserialize valid or corrupted documents with either option and by class, special form, or forward "
    "reference in a module, make converters and use them later, change options objects after use, generate schemas with "
    "several options, validate, and ask for unsupported conversions. The outcome (value or exception type) of each call "
    "within the history, executed in a forked process, must equal the outcome of the call alone in a fresh fork. "
    "Part names: two modules in which the same names are bound to types of generated programs or to recursive aliases, and "
    "bound again later, while values are converted with forward references to the names, with an explicit context or in "
    "that of the calling code; the result must be that of the type that the name stands for at that point. "
    "Non-trivial: at least two calls that refer to classes; a name that was bound to different types."
)

RAW = ["list", "dict[int, str]", "typing.Callable[[int], str]", "list[typing.Any]", "dict[str, 'Missing']", "'Missing'", "object"]


def make_ops(g: Gen, universe: Any, late: int) -> list[Any]:
    ops: list[Any] = []
    defined = late == 0
    with World({**universe, "late": 0}) as w:
        for _ in range(g.int(2, 7)):
            mod = g.int(0, len(universe["mods"]) - 1)
            kind = g.pick(["des", "des", "des", "ser", "cser", "schema", "validate", "fwd", "fwd", "hold", "raw", "define"])
            if kind == "define":
                if defined:
                    kind = "des"
                else:
                    ops.append(("define",))
                    defined = True
                    continue
            if kind == "raw":
                ops.append((g.pick(["des", "cser", "schema"]), mod, ("raw", g.pick(RAW)), g.draw(JSON_DOCS), False))
                continue
            if kind == "fwd" and universe["classes"]:
                i = g.int(0, len(universe["classes"]) - 1)
                t: Any = ("cls", i, True)
                name = w.class_name(i, mod) if not g.chance(1, 3) else universe["classes"][i]["name"]
                form = g.pick(["{}", "list[{}]", "dict[str, {}]", "Optional[{}]"])
                source = ("raw", form.format(repr(name)))
                doc = concrete(w.encode(t, g.make_value(t, 2)))
                doc = {"list[{}]": [doc], "dict[str, {}]": {"k": doc}}.get(form, doc)
                ops.append(("des", mod, source, doc, g.chance(1, 3)))
                continue
            t = g.top_type(mod)
            v = g.make_value(t, 2)
            if kind in ("ser", "cser"):
                ops.append((kind, mod, t, v, False))
                continue
            doc = concrete(w.encode(t, v))
            if g.chance(1, 3):
                doc = mutate(g, doc)
            if kind == "schema":
                ops.append((kind, mod, t, g.pick([None, "descriptions", "path", "examples"]), False))
            elif kind == "validate":
                ops.append((kind, mod, t, doc, False))
            else:
                ops.append((kind if kind == "hold" else "des", mod, t, doc, g.chance(1, 3)))
    if ops and g.chance(1, 2):
        ops.append(ops[0] if ops[0][0] != "define" else ops[-1])
    return ops


@st.composite
def histories(draw: Any) -> Any:
    g = Gen(draw, Profile(depth=2, max_classes=5, min_classes=1, mods=3, max_fields=3))
    universe = g.make_universe()
    # same name and module, different scope
    classes = universe["classes"]
    for i in range(1, len(classes)):
        if g.chance(1, 3):
            other = g.int(0, i - 1)
            classes[i] = {**classes[i], "name": classes[other]["name"], "mod": classes[other]["mod"], "local": i}
    late = g.int(0, len(classes) - 1) if g.chance(1, 3) else 0
    return ({**universe, "late": late}, make_ops(g, universe, late))


class Session:
    "A process history."

    def __init__(self, w: World) -> None:
        self.w = w
        self.held: list[Any] = []

    def describe(self, obj: Any) -> str:
        def label(cls: type) -> str:
            for i, c in enumerate(self.w.classes):
                if c is cls:
                    return f"{cls.__name__}#{i}"
            return cls.__name__

        return describe(obj, label)

    def perform(self, op: Any) -> str:
        try:
            return self._perform(op)
        except RecursionError:
            return "raised RecursionError"
        except Exception as ex:
            return f"raised {type(ex).__module__}.{type(ex).__name__}"

    def _perform(self, op: Any) -> str:
        w = self.w
        if op[0] == "define":
            w.define_late()
            return "defined"
        kind, mod, t, arg, flag = op
        module = w.modules[mod]
        typ = w.type(t, mod)
        if kind == "ser":
            return self.describe(object_to_json(w.build(t, arg)))
        if kind == "cser":
            if t[0] == "raw":
                return self.describe(create_serializer(typ, module).generate(arg))
            return self.describe(create_serializer(typ, module).generate(w.build(t, arg)))
        if kind == "des":
            options = DeserializerOptions(skip_unassigned=flag) if flag or mod else None
            fn = json_to_object if flag else json_to_generic
            return self.describe(fn(typ, arg, context=module, options=options))
        if kind == "hold":
            options = DeserializerOptions(skip_unassigned=flag)
            parser = create_deserializer(typ, module, options=options)
            options.skip_unassigned = not flag
            self.held.append(parser)
            return " / ".join(self.attempt(p, arg) for p in self.held[-1:])
        if kind == "schema":
            schema_options = None
            if arg == "descriptions":
                schema_options = SchemaOptions(use_descriptions=False)
            elif arg == "path":
                schema_options = SchemaOptions(definitions_path="#/definitions/")
            elif arg == "examples":
                schema_options = SchemaOptions(use_examples=False, property_description_fun=lambda c, n, d: f"{c.__name__}.{n}:{d}")
            return self.describe(classdef_to_schema(typ, schema_options))
        if kind == "validate":
            return self.describe(validate_object(typ, arg))
        raise ValueError(op)

    def attempt(self, parser: Any, doc: Any) -> str:
        try:
            return self.describe(parser.parse(doc))
        except Exception as ex:
            return f"raised {type(ex).__name__}"


def run(case: Any, stats: Stats) -> None:
    universe, ops = case
    with World(universe) as w:

        def history() -> list[str]:
            session = Session(w)
            return [session.perform(op) for op in ops]

        def alone(k: int) -> str:
            session = Session(w)
            for op in ops[:k]:
                if op[0] == "define":
                    session.perform(op)
            return session.perform(ops[k])

        together = in_fork(history)
        require(isinstance(together, list), lambda: f"history {ops!r} ended with {together!r}")
        memo: dict[str, Any] = {}
        defined = False
        for k, op in enumerate(ops):
            defined = defined or op[0] == "define"
            if op[0] == "define":
                continue
            key = repr((op, defined))
            if key not in memo:
                memo[key] = in_fork(lambda: alone(k))  # noqa: B023
            expected = memo[key]
            require(
                together[k] == expected,
                lambda: f"call {k} {op!r} gives {together[k]} after {k} other calls but {expected} on its own",  # noqa: B023
            )
            stats.label(f"op:{op[0]}", "refused" if expected.startswith("raised") else "answered")
    if universe["late"]:
        stats.label("class defined later")
    if any(c.get("local") is not None for c in universe["classes"]):
        stats.label("same-named classes")
    stats.label(*{label for op in ops if len(op) > 2 for label in shape_labels(op[2], universe)})
    stats.nontrivial(sum(1 for op in ops if len(op) > 2 and shape_labels(op[2], universe) & {"type:cls", "type:raw"}) >= 2)


# --- names that stand for different types ---

ALIASES = {
    "list": ("list['{n}']", lambda c: st.lists(c, max_size=2), st.just([])),
    "dict": ("dict[str, '{n}']", lambda c: st.dictionaries(st.sampled_from("ab"), c, max_size=2), st.just({})),
    "union": ("typing.Union[int, list['{n}']]", lambda c: st.lists(c, max_size=2), st.integers(0, 3)),
    "optional": ("typing.Optional[dict[str, '{n}']]", lambda c: st.dictionaries(st.sampled_from("ab"), c, max_size=2), st.none()),
}
FORMS: dict[str, Any] = {
    "text": lambda n: n,
    "expression": lambda n: f"typing.Optional[list[{n}]]",
    "reference": lambda n: typing.ForwardRef(n),
    "list": lambda n: list[n],  # type: ignore
    "dict": lambda n: dict[str, n],  # type: ignore
    "tuple": lambda n: tuple[n, n],  # type: ignore
    "optional": lambda n: typing.Optional[n],  # type: ignore
    "annotated": lambda n: typing.Annotated[n, Mark(1)],  # type: ignore
}
HOME = """
class Caller:
    def method(self, fn, typ, doc, **kw):
        return fn(typ, doc, **kw)

def function(fn, typ, doc, **kw):
    return fn(typ, doc, **kw)

def generator(fn, typ, doc, **kw):
    return next(fn(typ, doc, **kw) for _ in range(1))

anonymous = lambda fn, typ, doc, **kw: fn(typ, doc, **kw)
method = Caller().method
"""
CALLS = ("function", "generator", "anonymous", "method", "toplevel", "elsewhere", "context", "converter")


@st.composite
def bindings(draw: Any) -> Any:
    profile = Profile(depth=2, max_classes=2, mods=2, max_fields=2)
    programs = []
    for _ in range(2):
        g = Gen(draw, profile)
        universe = g.make_universe()
        mod = g.int(0, len(universe["mods"]) - 1)
        t = g.top_type(mod)
        programs.append((universe, mod, t, [g.make_value(t) for _ in range(2)]))
    g = Gen(draw, profile)
    targets: list[Any] = [0, 1, *ALIASES]
    ops: list[Any] = [("bind", home, name, g.pick(targets)) for home in (0, 1) for name in ("X", "Y")]
    bound: dict[tuple[int, str], Any] = {(h, n): k for _, h, n, k in ops}
    for _ in range(g.int(2, 8)):
        home, name = g.int(0, 1), g.pick("XXY")
        if g.chance(1, 3):
            bound[home, name] = g.pick(targets)
            ops.append(("bind", home, name, bound[home, name]))
        else:
            target = bound[home, name]
            values: Any = [0, 1]
            if type(target) is str:
                _, extend, base = ALIASES[target]
                docs = st.recursive(base, extend, max_leaves=3)
                values = [draw(docs), draw(docs)]
            form = g.pick(list(FORMS))
            ops.append(("use", home, name, form, g.pick(CALLS), g.chance(1, 2), values[:1] if form not in ("tuple", "list", "expression") else values))
    return programs, ops


def wrap(form: str, items: list[Any]) -> Any:
    if form in ("list", "expression"):
        return list(items)
    if form == "tuple":
        return tuple(items)
    if form == "dict":
        return {"k": items[0]}
    return items[0]


def run_names(case: Any, stats: Stats) -> None:
    programs, ops = case
    with contextlib.ExitStack() as stack:
        worlds = [stack.enter_context(World(p[0])) for p in programs]
        decoded: dict[tuple[int, int], Any] = {}
        homes = []
        for i in (0, 1):
            home = types.ModuleType(f"vthome{worlds[0].tag}_{i}")
            exec(HOME, home.__dict__)
            home.__dict__["typing"] = typing
            sys.modules[home.__name__] = home
            stack.callback(sys.modules.pop, home.__name__)
            homes.append(home)
        bound: dict[tuple[int, str], Any] = {}
        used: dict[str, set[Any]] = {"X": set(), "Y": set()}
        for op in ops:
            home = homes[op[1]]
            name = op[2]
            if op[0] == "bind":
                bound[op[1], name] = op[3]
                if type(op[3]) is int:
                    universe, mod, t, _ = programs[op[3]]
                    home.__dict__[name] = worlds[op[3]].type(t, mod, True)
                else:
                    home.__dict__[name] = eval(ALIASES[op[3]][0].format(n=name), {"typing": typing})
                continue
            _, _, _, form, how, to_object, values = op
            target = bound[op[1], name]
            used[name].add((op[1], target))
            if type(target) is int:
                universe, mod, t, vs = programs[target]
                w = worlds[target]
                objects = [w.build(t, vs[k]) for k in values]
                texts = [w.encode(t, vs[k]) for k in values]
                docs = [concrete(x) for x in texts]
                try:
                    expected = [w.decode(t, d) for d in docs]
                except (Gray, Reject):
                    raise Discard() from None
            else:
                docs = texts = objects = expected = list(values)
            if form == "optional" and docs[0] is None:
                expected = [None]
            typ = FORMS[form](name)
            doc, text = (list(x) if type(x) is tuple else x for x in (wrap(form, docs), wrap(form, texts)))
            value = wrap(form, expected)
            fn = json_to_object if to_object else json_to_generic
            if how == "converter":
                back = must(lambda: create_deserializer(typ, home).parse(doc))
            elif how == "context":
                back = must(fn, typ, doc, context=home)
            elif how == "elsewhere":
                back = must(homes[1 - op[1]].__dict__["function"], fn, typ, doc, context=home)
            elif how == "toplevel":
                home.__dict__["args"] = (fn, typ, doc)
                must(exec, "fn, typ, doc = args\nresult = fn(typ, doc)", home.__dict__)
                back = home.__dict__["result"]
            else:
                back = must(home.__dict__[how], fn, typ, doc)
            require(
                same(back, value),
                lambda: f"{doc!r} is read as {back!r} by reference ({how}) to {name} = {home.__dict__[name]}, expected {value!r}",  # noqa: B023
            )
            again = must(lambda: create_serializer(typ, home).generate(wrap(form, objects)))  # noqa: B023
            require(
                json_same(text, again),
                lambda: f"{objects!r} are written as {again!r} by reference to {name} = {home.__dict__[name]}, expected {text!r}",  # noqa: B023
            )
            stats.label(f"form:{form}", f"how:{how}", f"target:{target if type(target) is str else 'program'}")
        stats.nontrivial(any(len(x) > 1 for x in used.values()))


PARTS = [
    Part("histories", histories, run, quick=2400, thorough=60000),
    Part("names", bindings, run_names, quick=3000, thorough=60000),
]
