"C32: a name in the type of a member means what it means in the module of the class that declares the member."

import dataclasses
import enum
import itertools
import sys
import types
import typing
from typing import Any, Optional

from hypothesis import strategies as st

from strong_typing.deserializer import create_deserializer
from strong_typing.docstring import parse_type
from strong_typing.inspection import check_recursive, get_class_properties, get_referenced_types
from strong_typing.schema import classdef_to_schema, validate_object
from strong_typing.serialization import json_to_generic, json_to_object, object_to_json
from strong_typing.serializer import create_serializer

from ..core import Part, Stats, call, must, require
from ..gen import Gen
from ..world import same

ID = "C32"
RULE = (
    "A case is a program of two or three modules in which the same three names stand for different things (a class, an "
    "enumeration, a container of another of the names, a simple type) or for nothing, with a chain of classes (data classes, "
    "plain classes, exceptions) that starts in one module and goes on in others, or a named tuple, each with members whose "
    "types refer to the names as text, in part or as a whole, or lazily; and a sequence of operations on the classes in any "
    "order, with the module of any of the programs as the context. The expected type of a member comes from the module of the "
    "class that declares the member. Non-trivial: the name in a member's type stands for different things in two modules."
)

# the last is a built-in name, too
NAMES = ["Item", "Kind", "range"]
LEAVES = {"int": (int, [0, 7]), "str": (str, ["", "s"]), "bool": (bool, [True, False]), "float": (float, [0.5, 2.0])}
# type expression, with {n} for the name
FORMS: dict[str, str] = {
    "text": "'{n}'",
    "list-of-text": "list['{n}']",
    "text-of-list": "'list[{n}]'",
    "dict": "dict[str, '{n}']",
    "optional": "Optional['{n}']",
    "text-of-optional": "'Optional[{n}]'",
    "operator": "'{n} | None'",
    "tuple": "tuple['{n}', bytes]",
    "annotated": "Annotated['{n}', Mark()]",
    "text-of-annotated": "'Annotated[{n}, Mark()]'",
    "nested": "list[dict[str, '{n}']]",
    "list-of-optional": "list[Optional['{n}']]",
    "forward": "ForwardRef('{n}')",
    "direct": "{n}",
}
SHAPE = {
    "list-of-text": "list", "text-of-list": "list", "dict": "dict", "optional": "opt", "text-of-optional": "opt", "operator": "opt",
    "tuple": "tuple", "nested": "nested", "list-of-optional": "list-opt",
}  # fmt: skip
OPERATIONS = ["read", "write", "schema", "validate", "properties", "references", "check", "doc"]
_counter = itertools.count()


class Mark:
    def __eq__(self, other: Any) -> bool:
        return type(other) is Mark

    def __hash__(self) -> int:
        return 0

    def __repr__(self) -> str:
        return "Mark()"


@st.composite
def programs(draw: Any) -> Any:
    g = Gen(draw)
    count = g.int(2, 3)
    lazy = [g.chance(1, 4) for _ in range(count)]
    # what each name stands for in each module
    bindings: list[dict[str, Any]] = [{} for _ in range(count)]
    for name in NAMES:
        kinds = g.sample([*LEAVES, "class", "class", "class", "enum", "enum", "enum", "to-name", "to-name"], count, count)
        for m, kind in enumerate(kinds):
            others = [n for n in bindings[m] if bindings[m][n][0] != "to"]
            if kind == "to-name":
                bindings[m][name] = ("to", g.pick(["list['{n}']", "dict[str, '{n}']"]), g.pick(others)) if others else ("class",)
            else:
                bindings[m][name] = (kind,)
    kind = g.pick(["dc", "dc", "dc", "plain", "exc", "nt"])
    chain = []
    used = set()
    for level in range(1 if kind == "nt" else g.int(1, 3)):
        m = g.int(0, count - 1)
        members = []
        for i in range(g.int(1, 2) if level == 0 else g.int(0, 2)):
            name = g.pick(NAMES)
            used.add((m, name))
            members.append((f"m{level}{i}", name, g.pick([f for f in FORMS if kind == "dc" or f != "forward"])))
        if level > 0 and chain[0]["members"] and g.chance(1, 4):
            # declare a member of the first class again
            name = g.pick(NAMES)
            used.add((m, name))
            members.append((chain[0]["members"][0][0], name, g.pick([f for f in FORMS if kind == "dc" or f != "forward"])))
        # attributes of the class that are no members, and have a name in use in the module
        attributes = g.sample(NAMES, 1, 2) if g.chance(1, 4) else []
        chain.append({"mod": m, "members": members, "frozen": False, "attributes": attributes})
    # names that no class of the module uses need not exist in it
    for m, b in enumerate(bindings):
        for name in NAMES:
            inner = any(x[0] == "to" and x[2] == name for x in b.values())
            if (m, name) not in used and not inner and g.chance(1, 3):
                del b[name]
    slots = kind == "dc" and g.chance(1, 4)
    frozen = kind == "dc" and g.chance(1, 4)
    ops = [(g.pick(OPERATIONS), g.int(0, len(chain) - 1), g.pick([None, *range(count)]), g.int(0, 1), g.chance(1, 3)) for _ in range(g.int(1, 6))]
    # a class with a member whose type is a class of the chain, and another member of its own
    m = g.int(0, count - 1)
    known = [n for n in NAMES if n in bindings[m]]
    holder = {"mod": m, "list": g.chance(1, 3), "own": (g.pick(known), g.pick([f for f in FORMS])) if known and g.chance(2, 3) else None, "last": g.chance(1, 2)}
    return {"holder": holder, "lazy": lazy, "bindings": bindings, "kind": kind, "chain": chain, "slots": slots, "frozen": frozen, "ops": ops}


class Program:
    def __init__(self, case: Any) -> None:
        for cleanup in typing._cleanups:  # type: ignore
            cleanup()
        self.case = case
        self.modules: list[types.ModuleType] = []
        self.classes: list[type] = []
        tag = next(_counter)
        for m, b in enumerate(case["bindings"]):
            module = types.ModuleType(f"vtr{tag}_{m}")
            sys.modules[module.__name__] = module
            module.__dict__.update(
                {n: getattr(typing, n) for n in ("Annotated", "ForwardRef", "NamedTuple", "Optional", "Union")}, Mark=Mark, dataclass=dataclasses.dataclass, enum=enum
            )
            self.modules.append(module)
            for name, what in b.items():
                if what[0] in LEAVES:
                    setattr(module, name, LEAVES[what[0]][0])
                elif what[0] == "to":
                    setattr(module, name, eval(what[1].format(n=what[2])))
                elif what[0] == "class":
                    exec(f"@dataclass\nclass {name}:\n    in{m}_{name}: int\n", module.__dict__)
                else:
                    exec(f"class {name}(enum.Enum):\n    A = 'a{m}'\n    B = 'b{m}'\n", module.__dict__)
        for level, c in enumerate(case["chain"]):
            module = self.modules[c["mod"]]
            name = f"Class{level}"
            lines = ["from __future__ import annotations"] if case["lazy"][c["mod"]] else []
            bases = {"dc": "", "plain": "", "exc": "Exception", "nt": "NamedTuple"}[case["kind"]]
            if level:
                module.__dict__["Parent"] = self.classes[-1]
                bases = "Parent"
            if case["kind"] == "dc":
                lines.append(f"@dataclass(slots={case['slots']}, frozen={case['frozen']})")
            lines.append(f"class {name}({bases}):")
            doc = "".join(f"    :param {n}: text\n" for n, _, _ in c["members"])
            lines.append(f"    '''\n    A class.\n\n{doc}    '''" if case["kind"] == "dc" else "    'A class.'")
            lines += [f"    {n}: {self.annotation(FORMS[form].format(n=ref), c)}" for n, ref, form in c["members"]]
            lines += [f"    {n} = 'attribute'" for n in c["attributes"]]
            exec(compile("\n".join(lines), f"<{module.__name__}>", "exec", dont_inherit=True), module.__dict__)
            self.classes.append(module.__dict__[name])
        self.holders: list[type] = []
        h = case["holder"]
        module = self.modules[h["mod"]]
        for level, cls in enumerate(self.classes):
            module.__dict__["Held"] = cls
            # evaluated now, as the name is used again
            lines = ["@dataclass", f"class Holder{level}:"]
            lines.append("    inner: " + ("list[Held]" if h["list"] else "Held"))
            if h["own"]:
                lines.insert(3 if h["last"] else 2, f"    own: {FORMS[h['own'][1]].format(n=h['own'][0])}")
            exec(compile("\n".join(lines), f"<{module.__name__}>", "exec", dont_inherit=True), module.__dict__)
            del module.__dict__["Held"]
            self.holders.append(module.__dict__[f"Holder{level}"])

    def annotation(self, text: str, c: Any) -> str:
        # a lazily evaluated annotation is not quoted twice
        return text[1:-1] if self.case["lazy"][c["mod"]] and text.startswith("'") else text

    def close(self) -> None:
        for module in self.modules:
            sys.modules.pop(module.__name__, None)

    def members(self, level: int) -> list[tuple[str, int, str, str]]:
        "Name, module, referenced name and form of the members of a class, inherited ones first."

        result: dict[str, Any] = {}
        for c in self.case["chain"][: level + 1]:
            for n, ref, form in c["members"]:
                result[n] = (n, c["mod"], ref, form)
        return list(result.values())

    def target(self, m: int, name: str) -> Any:
        "What a name stands for, with names resolved."

        what = self.case["bindings"][m][name]
        if what[0] != "to":
            return getattr(self.modules[m], name)
        inner = self.target(m, what[2])
        return list[inner] if what[1].startswith("list") else dict[str, inner]  # type: ignore

    def leaf(self, m: int, name: str) -> type:
        what = self.case["bindings"][m][name]
        return self.leaf(m, what[2]) if what[0] == "to" else getattr(self.modules[m], name)

    def type(self, m: int, name: str, form: str) -> Any:
        t = self.target(m, name)
        shape = SHAPE.get(form)
        if shape is None:
            return typing.Annotated[t, Mark()] if "annotated" in form else t
        return {"list": list[t], "dict": dict[str, t], "opt": Optional[t], "tuple": tuple[t, bytes], "nested": list[dict[str, t]], "list-opt": list[Optional[t]]}[shape]  # type: ignore

    def value(self, m: int, name: str, which: int) -> tuple[Any, Any]:
        "A value and its document."

        what = self.case["bindings"][m][name]
        if what[0] in LEAVES:
            v = LEAVES[what[0]][1][which]
            return v, v
        if what[0] == "to":
            v, d = self.value(m, what[2], which)
            return ([v], [d]) if what[1].startswith("list") else ({"k": v}, {"k": d})
        if what[0] == "class":
            return getattr(self.modules[m], name)(which), {f"in{m}_{name}": which}
        return getattr(self.modules[m], name)("ab"[which] + str(m)), "ab"[which] + str(m)

    def member(self, m: int, name: str, form: str, which: int) -> tuple[Any, Any]:
        v, d = self.value(m, name, which)
        shape = SHAPE.get(form)
        if shape in ("list", "list-opt"):
            return [v], [d]
        if shape == "dict":
            return {"k": v}, {"k": d}
        if shape == "nested":
            return [{"k": v}], [{"k": d}]
        if shape == "tuple":
            return (v, b"x"), [d, "eA=="]
        return v, d


def run(case: Any, stats: Stats) -> None:
    p = Program(case)
    try:
        operate(p, case, stats)
    finally:
        p.close()


def operate(p: Program, case: Any, stats: Stats) -> None:
    for op, level, context, which, held in case["ops"]:
        cls = p.classes[level]
        h = case["holder"]
        own = None if h["own"] is None else p.member(h["mod"], *h["own"], which)
        if held and case["kind"] != "exc":
            stats.label("in a member of another class")
        else:
            held = False

        def hold_doc(doc: Any) -> Any:
            d = {"inner": [doc] if h["list"] else doc}  # noqa: B023
            return d if own is None else {**d, "own": own[1]}  # noqa: B023

        def release(obj: Any, doc: Any) -> Any:
            "Checks the class around an object, and returns the object."

            require(type(obj) is p.holders[level], lambda: f"{shown()}: {doc} is read as {obj!r}")  # noqa: B023
            if own is not None:  # noqa: B023
                require(same(own[0], obj.own), lambda: f"{shown()}: {doc} is read as {obj!r}")  # noqa: B023
            return obj.inner[0] if h["list"] else obj.inner  # noqa: B023

        def hold(obj: Any) -> Any:
            inner = [obj] if h["list"] else obj  # noqa: B023
            return p.holders[level](inner=inner) if own is None else p.holders[level](inner=inner, own=own[0])  # noqa: B023

        module = None if context is None else p.modules[context]
        members = p.members(level)
        pairs = {n: p.member(m, ref, form, which) for n, m, ref, form in members}
        doc = {n: d for n, (_, d) in pairs.items()}

        def shown() -> str:
            around = f", in {case['holder']}" if held else ""  # noqa: B023
            return f"{case['kind']} {cls.__module__}.{cls.__name__} with {members} and names {case['bindings']}{around}"  # noqa: B023

        if op == "read":
            t, d = (p.holders[level], hold_doc(doc)) if held else (cls, doc)
            for fn in (json_to_object, json_to_generic, lambda t, d, context: create_deserializer(t, context).parse(d)):
                obj = must(fn, t, d, context=module)  # type: ignore
                check_object(release(obj, d) if held else obj, cls, pairs, doc, shown)
        elif op == "write":
            obj, want, t = make(cls, pairs), doc, cls
            if held:
                obj, want, t = hold(obj), hold_doc(doc), p.holders[level]
            for text in (must(object_to_json, obj), must(lambda: create_serializer(t, module).generate(obj))):  # noqa: B023
                require(text == want, lambda: f"{shown()}: written as {text}, expected {want}")  # noqa: B023
        elif op in ("schema", "validate"):
            every = [*members, ("own", h["mod"], *h["own"])] if held and own is not None else members
            # definitions are shared by name, see known finding "same-name-definition" of C13
            if ambiguous(p, every) or case["kind"] == "exc":
                stats.label("names in use twice")
                continue
            t = p.holders[level] if held else cls
            schema = must(classdef_to_schema, t)
            names = set(schema["properties"])
            require(names == set(hold_doc(doc) if held else doc), lambda: f"{shown()}: schema {schema}")  # noqa: B023
            must(validate_object, t, hold_doc(doc) if held else doc)
            for n, m, ref, form in members:
                for other in range(len(p.modules)):
                    if op == "validate" and other != m and ref in case["bindings"][other] and kind_of(case, other, ref) != kind_of(case, m, ref):
                        wrong = {**doc, n: p.member(other, ref, form, which)[1]}
                        if fits(p, m, ref, other):
                            continue
                        wrong = hold_doc(wrong) if held else wrong
                        outcome = call(validate_object, t, wrong)
                        require(not outcome.ok, lambda: f"{shown()}: schema {schema} admits {wrong}")  # noqa: B023
        elif op == "properties":
            if held:
                found = dict(must(get_class_properties, p.holders[level]))
                inner = list[cls] if h["list"] else cls  # type: ignore
                require(found["inner"] == inner, lambda: f"{shown()}: properties {found}")  # noqa: B023
                stats.label(f"operation:{op}")
                continue
            found = dict(must(get_class_properties, cls))
            require(list(found) == [n for n, *_ in members], lambda: f"{shown()}: properties {found}")  # noqa: B023
            for n, m, ref, form in members:
                t = found[n]
                if isinstance(t, type) and form not in SHAPE:
                    want = p.target(m, ref)
                    require(t == want or isinstance(want, types.GenericAlias), lambda: f"{shown()}: {n} is of type {t}, expected {want}")  # noqa: B023
        elif op == "references":
            if case["kind"] not in ("dc", "plain"):
                continue
            every = [*members, ("own", h["mod"], *h["own"])] if held and own is not None else members
            found_types = must(get_referenced_types, p.holders[level] if held else cls)
            want_types = {cls} | ({p.holders[level]} if held else set()) | {p.leaf(m, ref) for _, m, ref, _ in every}
            for _, m, ref, form in every:
                if form == "tuple":
                    want_types.add(bytes)
                if SHAPE.get(form) in ("dict", "nested") or "dict" in str(p.target(m, ref)):
                    want_types.add(str)
                if p.leaf(m, ref).__module__ == p.modules[m].__name__ and dataclasses.is_dataclass(p.leaf(m, ref)):
                    want_types.add(int)
            require(found_types == want_types, lambda: f"{shown()}: references {found_types}, expected {want_types}")  # noqa: B023
        elif op == "check":
            obj = hold(make(cls, pairs)) if held else make(cls, pairs)
            seen: list[Any] = []
            must(lambda: check_recursive(obj, pred=lambda t, o: (seen.append((t, o)), True)[1]))  # noqa: B023
            for t, o in seen:
                if isinstance(t, type):
                    require(isinstance(o, t), lambda: f"{shown()}: predicate is asked about {o!r} as {t}")  # noqa: B023
            for n, (v, _) in pairs.items():
                require(
                    any(same(leaf_of(o), leaf_of(v)) for _, o in seen),
                    lambda: f"{shown()}: predicate is asked about {seen}, but not about {n} of {obj!r}",  # noqa: B023
                )
        elif case["kind"] == "dc":
            parsed = must(parse_type, cls)
            declared = {n: (m, ref, form) for n, m, ref, form in members if n in {x[0] for x in case["chain"][level]["members"]}}
            require(set(parsed.params) == set(declared), lambda: f"{shown()}: documented members {set(parsed.params)}")  # noqa: B023
            for n, (m, ref, form) in declared.items():
                t = parsed.params[n].param_type
                if isinstance(t, type) and typing.get_origin(t) is None:
                    want = p.type(m, ref, form)
                    require(t == want, lambda: f"{shown()}: documented member {n} is of type {t}, expected {want}")  # noqa: B023
        stats.label(f"operation:{op}", f"class:{case['kind']}", f"level:{level}")
        used = {(m, ref) for _, m, ref, _ in members}
        if any(ref in b and kind_of(case, o, ref) != kind_of(case, m, ref) for m, ref in used for o, b in enumerate(case["bindings"]) if o != m):
            stats.nontrivial()
    if any(n in p.case["bindings"][c["mod"]] for c in case["chain"] for n in c["attributes"]):
        stats.label("attribute of the same name")
    stats.label(*(f"form:{form}" for c in case["chain"] for _, _, form in c["members"]))
    stats.nontrivial(False)


def kind_of(case: Any, m: int, name: str) -> Any:
    what = case["bindings"][m][name]
    if what[0] == "to":
        return ("to", what[1], kind_of(case, m, what[2]))
    return (what[0], m) if what[0] in ("class", "enum") else what


def fits(p: Program, m: int, ref: str, other: int) -> bool:
    "True if a document of what a name stands for in another module is one for this module, too."

    a, b = kind_of(p.case, m, ref)[0], kind_of(p.case, other, ref)[0]
    # an integral number is an integer in a schema, and a class is a dictionary
    return "to" in (a, b) or a == b and a in LEAVES or {a, b} in ({"int", "float"}, {"str", "enum"})


def ambiguous(p: Program, members: Any) -> bool:
    "True if definitions of the same name would be needed for several things."

    names: dict[str, set[int]] = {}
    for _, m, ref, _ in members:
        while True:
            names.setdefault(ref, set()).add(m)
            what = p.case["bindings"][m][ref]
            if what[0] != "to":
                break
            ref = what[2]
    return any(len(x) > 1 for x in names.values())


def leaf_of(v: Any) -> Any:
    while True:
        if isinstance(v, list):
            v = v[0]
        elif isinstance(v, dict):
            v = v["k"]
        elif type(v) is tuple:
            v = v[0]
        elif dataclasses.is_dataclass(v) and not isinstance(v, type):
            v = next(iter(vars(v).values()))
        else:
            return v


def make(cls: Any, pairs: dict[str, Any]) -> Any:
    values = {n: v for n, (v, _) in pairs.items()}
    if dataclasses.is_dataclass(cls) or issubclass(cls, tuple):
        return cls(**values)
    obj = cls()
    obj.__dict__.update(values)
    return obj


def check_object(obj: Any, cls: type, pairs: dict[str, Any], doc: Any, shown: Any) -> None:
    require(type(obj) is cls, lambda: f"{shown()}: {doc} is read as {obj!r}")
    for n, (v, _) in pairs.items():
        got = getattr(obj, n)
        require(same(v, got), lambda: f"{shown()}: member {n} of {doc} is read as {got!r}, expected {v!r}")  # noqa: B023


PARTS = [Part("programs", programs, run, quick=3000, thorough=80000)]
