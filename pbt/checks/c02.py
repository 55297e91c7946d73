"C02: serialization produces only pure JSON, and the text form is lossless."

import io
import json
import re

from strong_typing.serialization import json_dump, json_dump_string, object_to_json
from strong_typing.serializer import create_serializer

from .. import untyped
from ..core import Part, Stats, Violation, must, require
from ..declared import declarations
from ..gen import JSON_DOCS, Profile, shape_labels, typed_values
from ..world import World, json_same, pure_json

ID = "C02"
RULE = (
    "A case is a typed value of a generated program, an untyped structure (built-in containers, classes without "
    "annotations, collections.namedtuple, with typed objects inside), or a list of JSON documents. The result of "
    "serialization must consist of exact JSON types only; its text must be compact, on one line, without escaped "
    "non-ASCII characters, and must parse back to the same document; the file form is the same text plus one newline. "
    "Non-trivial: the value or document is a container or class instance (not a lone leaf)."
)

ESCAPE = re.compile(r'\\(?:u([0-9a-fA-F]{4})|.)', flags=re.S)


def check_text(doc, text: str) -> None:
    require(type(text) is str, lambda: f"dump returned {type(text)}")
    inside = False
    i = 0
    while i < len(text):
        c = text[i]
        if inside:
            if c == "\\":
                m = ESCAPE.match(text, i)
                assert m is not None
                if m.group(1) is not None:
                    require(int(m.group(1), 16) < 0x80, lambda: f"non-ASCII character is escaped in {text!r}")
                i = m.end()
                continue
            if c == '"':
                inside = False
            require(c not in "\n\r", lambda: f"line break in {text!r}")
        else:
            if c == '"':
                inside = True
            require(not c.isspace(), lambda: f"white space outside of strings in {text!r}")
        i += 1
    try:
        again = json.loads(text)
    except ValueError as ex:
        raise Violation(f"{doc!r} is dumped as {text!r}, which is not JSON: {ex}") from None
    require(json_same(doc, again), lambda: f"{doc!r} is dumped as {text!r} and not read back")


def check_dump(docs) -> None:
    texts = []
    for doc in docs:
        text = must(json_dump_string, doc)
        check_text(doc, text)
        texts.append(text)
    # one file with several documents
    file = io.StringIO()
    for doc in docs:
        must(json_dump, doc, file)
    content = file.getvalue()
    expected = "".join(t + "\n" for t in texts)
    require(content == expected, lambda: f"file has {content!r}, expected {expected!r}")


def run_typed(case, stats: Stats) -> None:
    universe, mod, t, values = case
    docs = []
    with World(universe) as w:
        typ = w.type(t, mod)
        for v in values:
            obj = w.build(t, v)
            for fn in (object_to_json, must(create_serializer, typ, w.modules[mod]).generate):
                doc = must(fn, obj)
                problem = pure_json(doc)
                require(problem is None, lambda: f"{obj!r} is serialized to {doc!r}: {problem}")
                docs.append(doc)
        check_dump(docs)
    stats.label(*shape_labels(t, universe))
    stats.nontrivial(any(isinstance(d, (list, dict)) for d in docs))


def run_untyped(case, stats: Stats) -> None:
    universe, v = case
    with World(universe) as w:
        obj = untyped.build(w, v)
        doc = must(object_to_json, obj)
        problem = pure_json(doc)
        require(problem is None, lambda: f"{obj!r} is serialized to {doc!r}: {problem}")
        check_dump([doc])
    stats.label(*(f"untyped:{x[0]}" for x in untyped.walk(v)))
    stats.nontrivial(isinstance(doc, (list, dict)))


def run_docs(case, stats: Stats) -> None:
    check_dump(case)
    for doc in case:
        again = must(object_to_json, doc)
        require(json_same(doc, again), lambda: f"JSON document {doc!r} is serialized to {again!r}")
    stats.nontrivial(any(isinstance(d, (list, dict)) and d for d in case))


def docs():
    from hypothesis import strategies as st

    return st.lists(JSON_DOCS, min_size=1, max_size=3)


PARTS = [
    Part("typed", lambda: typed_values(Profile(json_leaf=True, recursive=True), values=2), run_typed, quick=3000, thorough=80000),
    Part("declarations", lambda: declarations(values=2, profile=Profile(json_leaf=True, recursive=True)), run_typed, quick=1500, thorough=40000),
    Part("untyped", lambda: untyped.untyped_values(Profile(max_classes=2)), run_untyped, quick=2500, thorough=60000),
    Part("documents", docs, run_docs, quick=3000, thorough=80000),
]
