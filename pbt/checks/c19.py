"C19: doc-string parsing is total, exact and stable under re-printing."

import dataclasses
import inspect
import re
from typing import Any, Optional

from hypothesis import strategies as st

from strong_typing.docstring import (
    Docstring,
    DocstringParam,
    DocstringRaises,
    DocstringReturns,
    DocstringSeeAlso,
    parse_text,
)

from ..core import Part, Probe, Stats, must, require, short
from ..docs import compose, paragraph, phrase
from ..gen import Gen

ID = "C19"
RULE = (
    "A case is a set of doc-string components (short and long description, parameters, returns, raises, see-also and fields "
    "of other kinds, lines that start with a colon but are not fields, with words that look like markup) written with a drawn layout: margin, first line on the line of the "
    "quotes or below, blank lines, entries wrapped at any place, any order of entries, synonyms of keywords. Parsing must give "
    "back the components. Or it is an arbitrary text made of pieces of doc-strings, white space and control characters: "
    "parsing must succeed and be stable under printing and parsing again. Non-trivial: there are two or more entries, or an "
    "entry and a description; for arbitrary texts, the result has an entry or a long description."
)

NAMES = ["x", "y", "value", "arg_1", "naïve", "*args", "**kwargs", "self", "a.b", "param", "returns", "_", "x-1"]
ERRORS = ["ValueError", "KeyError", "my.Error", "É", "TypeError", "raises"]
JUNK = [":-)", ":returns", ":return", ":see", ":seealso s", ":param x", ":raises KeyError", ":", ":x y z"]
OTHER = ["raiser E", "raisesx E", "raising E", "params x", "parameter x", "paramx", "returned", "returning x", "sees", "seealsos", "seen", "Raises E", "xparam y", "xraise E", "Return", "type x", "rtype", "meta private", "param", "param int x", "raises", "return x", "see also", "x", "Param x", "PARAM y"]


@st.composite
def component_cases(draw: Any) -> Any:
    g = Gen(draw)
    title = phrase(g) if g.chance(3, 4) else None
    description = None
    if title and g.chance(1, 2):
        description = "\n\n".join(paragraph(g) for _ in range(g.int(1, 3)))
    entries: list[tuple[str, str, str]] = []
    for n in g.sample(NAMES, 0, 4):
        entries.append(("param", n, phrase(g, 0, g.pick([6, 6, 20]))))
    if g.chance(1, 2):
        entries.append(("returns", "", phrase(g, 0, g.pick([6, 6, 20]))))
    for n in g.sample(ERRORS, 0, 2):
        entries.append(("raises", n, phrase(g, 0, g.pick([6, 6, 20]))))
    for _ in range(g.int(0, 2)):
        entries.append(("see", "", phrase(g, 0, g.pick([6, 6, 20]))))
    for n in g.sample(OTHER, 0, g.pick([0, 1, 2])):
        entries.append(("other", n, phrase(g, 0, g.pick([6, 6, 20]))))
    for n in g.sample(JUNK, 0, 1 if g.chance(1, 3) else 0):
        entries.insert(g.int(0, len(entries)), ("junk", "", n))
    if g.chance(1, 3):
        order = [g.int(0, 9) for _ in entries]
        entries = [e for _, e in sorted(zip(order, entries), key=lambda t: t[0])]
    fields = []
    for kind, name, text in entries:
        if kind == "param":
            head = f"param {name}"
        elif kind == "raises":
            head = f"{g.pick(['raise', 'raises'])} {name}"
        elif kind == "returns":
            head = g.pick(["return", "returns"])
        elif kind == "see":
            head = g.pick(["see", "seealso"])
        else:
            head = name
        assert head or kind == "junk"
        if kind != "other" and g.chance(1, 10):
            head = head.replace(" ", "  ")
        fields.append((head, text))
    text = compose(g, title, description, fields)
    return (title, description, entries, text)


def expected(title: Optional[str], description: Optional[str], entries: Any) -> Docstring:
    result = Docstring(short_description=title, long_description=description)
    for kind, name, text in entries:
        if kind == "param":
            result.params[name] = DocstringParam(name, text)
        elif kind == "raises":
            result.raises[name] = DocstringRaises(name, text)
        elif kind == "returns":
            result.returns = DocstringReturns(text)
        elif kind == "see":
            result.see_also.append(DocstringSeeAlso(text))
    return result


def parts(doc: Docstring) -> Any:
    "All that is in a doc-string, in order."

    return (
        doc.short_description,
        doc.long_description,
        [(k, p.name, p.description, p.param_type is inspect.Signature.empty) for k, p in doc.params.items()],
        doc.returns and (doc.returns.description, doc.returns.return_type is inspect.Signature.empty),
        [(k, r.typename, r.description, r.raise_type is inspect.Signature.empty) for k, r in doc.raises.items()],
        [s.text for s in doc.see_also],
    )


def run_components(case: Any, stats: Stats) -> None:
    title, description, entries, text = case
    want = expected(title, description and description.strip(), entries)
    got = must(parse_text, text)
    require(parts(got) == parts(want), lambda: f"{text!r} is parsed into {parts(got)}, expected {parts(want)}")
    full = "\n\n".join(t for t in (title, description and description.strip()) if t) or None
    require(got.full_description == full, lambda: f"full description of {text!r} is {got.full_description!r}")
    # what is printed from components rather than from a parsed text
    printed = must(str, want)
    again = must(parse_text, printed)
    require(parts(again) == parts(want), lambda: f"{parts(want)} is printed as {printed!r}, and parsed into {parts(again)}")
    require(
        str(again) == printed, lambda: f"{printed!r} becomes {str(again)!r} when parsed and printed"
    )
    if description:
        # a long description without a short one
        alone = expected(None, description.strip(), entries)
        require(
            alone.full_description == description.strip(),
            lambda: f"full description is {alone.full_description!r} with long description {description!r} only",
        )
        again = must(parse_text, must(str, alone))
        require(
            (again.full_description or "").split() == description.split() and parts(again)[2:] == parts(alone)[2:],
            lambda: f"{parts(alone)} is printed as {str(alone)!r}, and parsed into {parts(again)}",
        )
    # indentation of the block as a whole makes no difference
    lines = text.split("\n")
    moved = "\n".join([lines[0]] + ["   " + line if line else "" for line in lines[1:]])
    require(parts(must(parse_text, moved)) == parts(got), lambda: f"{moved!r} is parsed into something else than {text!r}")
    kinds = {e[0] for e in entries}
    entries = [e for e in entries if e[0] != "junk"]
    stats.label(*(f"with:{k}" for k in kinds), f"entries:{min(len(entries), 5)}", "long" if description else "short" if title else "none")
    stats.nontrivial(len(entries) + bool(title) + bool(description) > 1)


PIECES = [
    ":param x: text", ":param y:", ":param", ":param :", ":param a b: c", ":returns: r", ":return:", ":raises E: e", ":raises: e",
    ":see: s", ":seealso: http://x", "::", ":", ":-)", ":x", "text", "word word", "*b*", "e.g.", "é", "\\", "%", "{}", "$",
    "\n", "\n\n", "\n\n\n", " ", "  ", "    ", "\t", "\n    ", "\n:", "\n  ", "\r\n", "\x0c", "\x0b", "\x1c", "\x00", "\u2028", "\xa0", "\u200b", "\ufeff",
    "\n:param z: more\n", "\n:raises F: more", "\n\nlong text\n    code\n",
]  # fmt: skip


@st.composite
def arbitrary_cases(draw: Any) -> str:
    g = Gen(draw)
    if g.chance(1, 4):
        return draw(st.text(max_size=40))
    text = "".join(g.pick(PIECES) for _ in range(g.int(0, 12)))
    if g.chance(1, 3):
        text += draw(st.text(max_size=10))
    return text


def run_arbitrary(text: str, stats: Stats) -> None:
    doc = must(parse_text, text)
    require(type(doc) is Docstring, lambda: f"{text!r} is parsed into {doc!r}")
    for d in (doc.short_description, doc.long_description):
        require(d is None or d != "" and d == d.strip(), lambda: f"{text!r} is parsed into {parts(doc)}")
    require("\n" not in (doc.short_description or ""), lambda: f"short description of {text!r} is {doc.short_description!r}")
    entries = [p.description for p in doc.params.values()] + [r.description for r in doc.raises.values()]
    entries += [s.text for s in doc.see_also] + ([doc.returns.description] if doc.returns else [])
    for e in entries:
        require(e == " ".join(re.split(r"\s+", e)) == e.strip(), lambda: f"{text!r} has entry {e!r}")  # noqa: B023
    require(
        all(k == p.name for k, p in doc.params.items()) and all(k == r.typename for k, r in doc.raises.items()),
        lambda: f"{text!r} is parsed into {parts(doc)}",
    )
    # every word of the text is kept as long as there are no fields
    if not any(line.strip().startswith(":") for line in text.split("\n")):
        require(not entries and (doc.full_description or "").split() == text.split(), lambda: f"{text!r} is parsed into {parts(doc)}")
    stats.label("fields" if entries else "no fields", "long" if doc.long_description else "short" if doc.short_description else "none")
    stats.nontrivial(bool(entries) or bool(doc.long_description))
    if any(d is not None and d.startswith(":") for d in (doc.short_description, doc.long_description)):
        # see known finding "indented-colon"
        stats.label("indented colon")
        return
    printed = must(str, doc)
    again = must(parse_text, printed)
    require(parts(again) == parts(doc), lambda: f"{short(text)!r} is parsed into {parts(doc)}, printed {printed!r}, and parsed into {parts(again)}")
    require(str(again) == printed, lambda: f"{printed!r} becomes {str(again)!r} when parsed and printed")
    require(dataclasses.asdict(again) == dataclasses.asdict(doc), lambda: f"{text!r}: {again} is not {doc}")


def probe_colon() -> Optional[str]:
    doc = parse_text("Short.\n\n        :note: block\n    More.\n")
    if parts(parse_text(str(doc))) != parts(doc):
        return "a description that starts with an indented line with a colon becomes a field when printed and parsed again"
    return None


probes = [Probe("indented-colon", probe_colon)]

PARTS = [
    Part("components", component_cases, run_components, quick=4000, thorough=150000),
    Part("arbitrary", arbitrary_cases, run_arbitrary, quick=6000, thorough=250000),
]
