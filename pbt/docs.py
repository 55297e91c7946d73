"Doc-strings written from components."

from typing import Any, Optional

WORDS = "a the value of an object é see: x:y (1) `code` *b* param: None Ünï - , = $ref end. :ref: 100% \"q\" \\n it's".split()
NAMES = ["x", "y", "value", "arg_1", "naïve"]


def phrase(g: Any, lo: int = 1, hi: int = 6) -> str:
    "Words that cannot be taken for a field when they come first in a line."

    words = [g.pick(WORDS) for _ in range(g.int(lo, hi))]
    if words and words[0].startswith(":"):
        words[0] = "w"
    return " ".join(words)


def wrap(g: Any, text: str, indent: str) -> str:
    "Breaks a text into lines at random places, without starting a line with a colon unless it is indented."

    words = text.split(" ")
    result = words[0] if words else ""
    for w in words[1:]:
        result += ("\n" + indent if (indent or not w.startswith(":")) and g.chance(1, 4) else " ") + w
    return result


def paragraph(g: Any) -> str:
    "A block of text whose line structure is to be kept."

    lines = [phrase(g)]
    for _ in range(g.int(0, 2)):
        lines.append(g.pick(["", "  ", "    "]) + phrase(g) if not g.chance(1, 4) else "")
    text = "\n".join(lines).strip("\n")
    return text


def compose(g: Any, title: Optional[str], description: Optional[str], fields: list[tuple[str, ...]]) -> str:
    """
    Writes a doc-string.

    :param fields: Pairs of head and text, e.g. `("param x", "text")`; text is written as it is if there is no head.
    """

    margin = g.pick(["    ", "", "        ", "\t"])
    parts = []
    if title:
        parts.append(wrap(g, title, ""))
    if description:
        parts.append(description)
    text = "\n\n".join(parts)
    if fields:
        block = []
        for head, body in fields:
            if not head:
                # a line that starts with a colon but is not a field
                block.append(body)
                continue
            gap = g.pick([" ", " ", "  ", "\n    "]) if body else ""
            block.append(f":{head}:{gap}{wrap(g, body, g.pick(['    ', '  ', '      ']))}")
        sep = g.pick(["\n", "\n", "\n\n"])
        text = (text + g.pick(["\n\n", "\n\n", "\n"]) if text else "") + sep.join(block)
    lines = text.split("\n")
    # the margin is that of the lines after the first, some of which must not be indented any further
    others = [line for line in lines[1:] if line.strip()]
    first = g.chance(1, 2) and (not others or any(not line.startswith(" ") for line in others))
    out = [lines[0] if first else "\n" + margin + lines[0]]
    out += [margin + line if line else "" for line in lines[1:]]
    return "\n".join(out) + g.pick(["", "\n" + margin, "\n"])
