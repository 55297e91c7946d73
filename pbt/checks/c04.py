"C04: textual values are decoded exactly, and malformed text is refused."

import base64
import datetime
import ipaddress
import uuid
from typing import Any

from hypothesis import strategies as st

from strong_typing.exception import JsonValueError
from strong_typing.serialization import json_to_generic

from ..core import Discard, Part, Stats, call, require, short
from ..gen import CLOCK, DATES, Gen
from ..world import Gray, concrete, encode_leaf, build_leaf, loose_leaf, same, strict_leaf

ID = "C04"
RULE = (
    "A case is (textual type, text, verdict, position). Texts are assembled from components (durations from any subset of "
    "weeks/days/hours/minutes/seconds/fraction; timestamps, dates, times from fields and zone; UUIDs in either case; IPv6 "
    "in any spelling; Base64), so that the denoted value is known, or are one edit away from such a text, judged by strict "
    "lexical parsers written for the check. `must` = has to be decoded to the value, `may` = lenient reading allowed but "
    "only to the value, `no` = must be refused with a value error. Text sits at top level or inside a container, optional "
    "or class member. Non-trivial: the text is not the one the library itself writes for the value."
)


@st.composite
def durations(draw) -> Any:
    g = Gen(draw)
    parts: dict[str, int] = {}
    text = "P"
    big = g.chance(1, 6)
    top = {"W": 10, "D": 40, "H": 30, "M": 90, "S": 90}

    def number(unit: str) -> str:
        n = g.int(0, 10**g.int(1, 20)) if big else (g.int(0, top[unit]) if not g.chance(1, 4) else 0)
        negative = unit == "D" and g.chance(1, 4)
        parts[unit] = -n if negative else n
        digits = str(n)
        if g.chance(1, 8):
            digits = "0" * g.int(1, 3) + digits
        return ("-" if negative else "") + digits + unit

    for unit in "WD":
        if g.chance(1, 2):
            text += number(unit)
    clock = ""
    for unit in "HM":
        if g.chance(1, 2):
            clock += number(unit)
    fraction = ""
    if g.chance(1, 2):
        seconds = number("S")
        if g.chance(1, 2):
            count = g.int(1, 10)
            fraction = "".join(str(g.int(0, 9)) for _ in range(min(count, 6)))
            fraction += "".join(g.pick("000000001") for _ in range(count - 6))
            seconds = seconds[:-1] + "." + fraction + "S"
        clock += seconds
    if clock:
        text += "T" + clock
    if text == "P":
        return ("timedelta", text, "no", None)
    if len(fraction) > 9 and set(fraction[9:]) == {"0"} and set(fraction[6:9]) <= {"0"}:
        verdict = "may"
    elif len(fraction) > 6 and set(fraction[6:]) != {"0"}:
        return ("timedelta", text, "no", None)
    else:
        verdict = "must"
    micros = int((fraction + "000000")[:6])
    total = 7 * parts.get("W", 0) + parts.get("D", 0)
    seconds_total = 3600 * parts.get("H", 0) + 60 * parts.get("M", 0) + parts.get("S", 0)
    all_micros = (total * 86400 + seconds_total) * 10**6 + micros
    days, rest = divmod(all_micros, 86400 * 10**6)
    if not -999999999 <= days <= 999999999:
        return ("timedelta", text, "no", None)
    return ("timedelta", text, verdict, (days, rest // 10**6, rest % 10**6))


def fraction_text(g: Gen, us: int) -> tuple[str, str]:
    digits = f"{us:06d}"
    forms = [(digits, "must")]
    if us % 1000 == 0:
        forms.append((digits[:3], "must"))
    for n in (1, 2, 4, 5):
        if us % 10 ** (6 - n) == 0:
            forms.append((digits[:n], "may"))
    if us == 0:
        forms.insert(0, ("", "must"))
    digits, verdict = g.pick(forms)
    return ("." + digits if digits else ""), verdict


def zone_text(g: Gen) -> tuple[str, Any, str]:
    kind = g.pick(["Z", "zero", "quarter", "minute", "second", "hour", "micro"])
    if kind == "Z":
        return "Z", 0, "must"
    if kind == "zero":
        return "+00:00", 0, "must"
    sign = g.pick([1, -1])
    s = "+" if sign > 0 else "-"
    h = g.int(0, 23)
    if kind == "hour":
        return f"{s}{h:02d}", sign * h * 3600 * 10**6, "may"
    m = g.int(0, 59) if kind != "quarter" else 15 * g.int(0, 3)
    if kind in ("quarter", "minute"):
        return f"{s}{h:02d}:{m:02d}", sign * (h * 60 + m) * 60 * 10**6, "must"
    sec = g.int(1, 59)
    total = ((h * 60 + m) * 60 + sec) * 10**6
    text = f"{s}{h:02d}:{m:02d}:{sec:02d}"
    if kind == "second":
        return text, sign * total, "must"
    us = g.int(1, 999999)
    return f"{text}.{us:06d}", sign * (total + us), "must"


@st.composite
def timestamps(draw) -> Any:
    g = Gen(draw)
    date = draw(DATES)
    h, mi, s, us = draw(CLOCK)
    frac, v1 = fraction_text(g, us)
    name = g.pick(["datetime", "datetime", "time", "date"])
    iso = "{:04d}-{:02d}-{:02d}".format(*date)
    if name == "date":
        return (name, iso, "must", date)
    clock = f"{h:02d}:{mi:02d}:{s:02d}{frac}"
    zone, off, v2 = zone_text(g) if not g.chance(1, 5) else ("", None, "must")
    verdict = "may" if "may" in (v1, v2) else "must"
    if name == "time":
        return (name, clock + zone, verdict, (h, mi, s, us, off))
    if off is None:
        return (name, iso + "T" + clock, "no", None)
    return (name, iso + "T" + clock + zone, verdict, (*date, h, mi, s, us, off))


@st.composite
def addresses(draw) -> Any:
    g = Gen(draw)
    kind = g.pick(["ipv4", "ipv6", "uuid", "bytes"])
    if kind == "ipv4":
        octets = [g.pick([0, 1, 10, 127, 255]) if g.chance(1, 2) else g.int(0, 255) for _ in range(4)]
        value = int.from_bytes(bytes(octets), "big")
        text = ".".join(map(str, octets))
        bad = g.int(0, 9)
        if bad == 0:
            return (kind, ".".join(map(str, [*octets[:3], g.int(256, 999)])), "no", None)
        if bad == 1:
            return (kind, ".".join(map(str, octets[:3])), "no", None)
        if bad == 2:
            return (kind, text + ".0", "no", None)
        return (kind, text, "must", value)
    if kind == "uuid":
        value = g.draw(st.integers(0, 2**128 - 1))
        h = f"{value:032x}"
        text = f"{h[:8]}-{h[8:12]}-{h[12:16]}-{h[16:20]}-{h[20:]}"
        form = g.pick(["lower", "upper", "mixed", "plain", "braces", "urn", "short", "long"])
        if form == "upper":
            return (kind, text.upper(), "must", value)
        if form == "mixed":
            return (kind, text.title(), "must", value)
        if form == "plain":
            return (kind, h, "may", value)
        if form == "braces":
            return (kind, "{" + text + "}", "may", value)
        if form == "urn":
            return (kind, "urn:uuid:" + text, "may", value)
        if form == "short":
            return (kind, text[:-1], "no", None)
        if form == "long":
            return (kind, text + "0", "no", None)
        return (kind, text, "must", value)
    if kind == "bytes":
        data = g.draw(st.binary(max_size=9))
        text = base64.b64encode(data).decode("ascii")
        form = g.pick(["good", "good", "nopad", "space", "newline", "urlsafe", "extra"])
        if form == "nopad" and text.endswith("="):
            return (kind, text.rstrip("="), "no", None)
        if form == "space" and text:
            return (kind, text[:2] + " " + text[2:], "no", None)
        if form == "newline":
            return (kind, text + "\n", "no", None)
        if form == "urlsafe" and ("+" in text or "/" in text):
            return (kind, text.replace("+", "-").replace("/", "_"), "no", None)
        if form == "extra" and text:
            return (kind, text + "A", "no", None)
        return (kind, text, "must", data)
    groups = [g.pick([0, 0, 1, 0xFFFF]) if g.chance(2, 3) else g.int(0, 0xFFFF) for _ in range(8)]
    value = 0
    for x in groups:
        value = value << 16 | x
    upper = g.chance(1, 4)
    pad = g.chance(1, 4)
    texts = [(f"{x:04x}" if pad else f"{x:x}") for x in groups]
    texts = [t.upper() for t in texts] if upper else texts
    if g.chance(1, 4):  # dotted quad at the end
        low = groups[6] << 16 | groups[7]
        texts = [*texts[:6], ".".join(str(low >> s & 255) for s in (24, 16, 8, 0))]
    runs = [
        (i, j)
        for i in range(len(texts))
        for j in range(i + 1, len(texts) + 1)
        if all(x == 0 for x in groups[i:j]) and (len(texts) == 8 or j <= 6)
    ]
    if runs and g.chance(2, 3):
        i, j = g.pick(runs)
        text = ":".join(texts[:i]) + "::" + ":".join(texts[j:])
        if j - i == 1:
            return (kind, text, "may", value)
    else:
        text = ":".join(texts)
    if g.chance(1, 8):
        return (kind, text + g.pick([":", ":0:0:0:0:0:0:0:0", "g", "::::"]), "no", None)
    return (kind, text, "must", value)


EDITS = "0123456789-+:.TZPDHMSW zt\n\t/=,_ \u0661\u00e9AaFf%{}"


@st.composite
def neighbours(draw) -> Any:
    "Texts one edit away from a well-formed one, judged by the strict and loose readers."

    g = Gen(draw)
    name, text, verdict, value = g.draw(st.one_of(durations(), timestamps(), addresses()))
    position = g.int(0, len(text))
    edit = g.pick(["insert", "delete", "replace", "swap", "repeat", "case"])
    if edit == "insert":
        text = text[:position] + g.pick(EDITS) + text[position:]
    elif edit == "delete":
        text = text[:position] + text[position + 1 :]
    elif edit == "replace":
        text = text[:position] + g.pick(EDITS) + text[position + 1 :]
    elif edit == "swap" and position + 1 < len(text):
        text = text[:position] + text[position + 1] + text[position] + text[position + 2 :]
    elif edit == "repeat":
        text = text[:position] + text[position : position + 1] + text[position:]
    else:
        text = text.swapcase()
    if g.chance(1, 6):
        name = g.pick(["datetime", "date", "time", "timedelta", "uuid", "ipv4", "ipv6", "bytes"])
    return (name, text, None, None)


ENDS = [" ", "  ", "\n", "\t", "\r\n", "\x00", "\x0b", "\xa0", "\u200b", "\ufeff", "Z", "z", "0", "00", "+", "-", "=", "==", ".", ",", ":", "+00:00",
        "'", '"', "`", "T", "S", "UTC", " UTC", "%", "/24", "(", ")", "{", "}", "b", "u", "0x", "#", ";", "null", "\u0660"]  # fmt: skip


@st.composite
def surrounded(draw: Any) -> Any:
    "Well-formed texts with something before or after, judged by the strict and loose readers."

    g = Gen(draw)
    name, text, verdict, value = g.draw(st.one_of(durations(), timestamps(), addresses()))
    where = g.pick(["before", "after", "after", "both", "twice"])
    extra = text[-1:] if g.chance(1, 5) else g.pick(ENDS)
    if where in ("before", "both"):
        text = extra + text
    if where in ("after", "both", "twice"):
        text += extra * (2 if where == "twice" else 1)
    return (name, text, None, None)


POSITIONS = ["top", "list", "dict", "tuple", "optional", "optional-list", "member", "optional-member", "set"]
SOURCE = {
    "timedelta": datetime.timedelta,
    "datetime": datetime.datetime,
    "date": datetime.date,
    "time": datetime.time,
    "uuid": uuid.UUID,
    "ipv4": ipaddress.IPv4Address,
    "ipv6": ipaddress.IPv6Address,
    "bytes": bytes,
}
_members: dict[Any, type] = {}


def member_class(typ: Any, key: str) -> type:
    if (typ, key) not in _members:
        import dataclasses

        _members[(typ, key)] = dataclasses.make_dataclass(f"Holder_{len(_members)}", [("x", typ)], namespace={"__module__": __name__})
        _members[(typ, key)].__module__ = __name__
    return _members[(typ, key)]


def place(position: str, typ: Any, text: str) -> Any:
    "Returns type, document, and a function to get the value from the result."

    from typing import Optional

    if position == "top":
        return typ, text, lambda r: r
    if position == "list":
        return list[typ], [text], lambda r: r[0]
    if position == "dict":
        return dict[str, typ], {"k": text}, lambda r: r["k"]
    if position == "tuple":
        return tuple[int, typ], [1, text], lambda r: r[1]
    if position == "optional":
        return Optional[typ], text, lambda r: r
    if position == "optional-list":
        return list[Optional[typ]], [None, text], lambda r: r[1]
    if position == "set":
        return set[typ], [text], lambda r: next(iter(r))
    if position == "member":
        return member_class(typ, "m"), {"x": text}, lambda r: r.x
    if position == "optional-member":
        return member_class(Optional[typ], "o"), {"x": text}, lambda r: r.x
    raise ValueError(position)


def run(case: Any, stats: Stats) -> None:
    (name, text, verdict, value), position = case
    if verdict is None:
        try:
            strict = strict_leaf(name, text)
        except Gray:
            raise Discard()
        if strict is not None:
            verdict, expected = "must", strict
        elif loose_leaf(name, text):
            verdict, expected = "loose", None
        else:
            verdict, expected = "no", None
    else:
        expected = None if value is None else build_leaf(name, value)
    typ, doc, get = place(position, SOURCE[name], text)
    outcome = call(json_to_generic, typ, doc)
    stats.label(f"{name}:{verdict}", f"at:{position}")
    stats.nontrivial(value is None or concrete(encode_leaf(name, value)) != text)
    if verdict == "no":
        # a union member's refusal is reported as a key error for the union
        allowed = (JsonValueError, ValueError)
        if position in ("optional", "optional-list"):
            from strong_typing.exception import JsonKeyError

            allowed += (JsonKeyError,)  # type: ignore
        require(
            not outcome.ok and isinstance(outcome.error, allowed),
            lambda: f"{text!r} is not a well-formed or representable {name} but at {position} {outcome.describe()}",
        )
        return
    if verdict == "must":
        require(outcome.ok, lambda: f"{text!r} denotes {expected!r} but at {position} {outcome.describe()}")
    if outcome.ok:
        result = get(outcome.value)
        require(type(result) is SOURCE[name], lambda: f"{text!r} was decoded to {result!r}")
        if expected is not None:
            require(same(result, expected), lambda: f"{text!r} denotes {expected!r} but was decoded to {result!r}")
        if name == "datetime":
            require(result.tzinfo is not None, lambda: f"{text!r} was decoded to {result!r} without time zone")
    else:
        require(
            short(type(outcome.error).__name__) in ("JsonValueError", "JsonKeyError") or isinstance(outcome.error, ValueError),
            lambda: f"{text!r} as {name} at {position} {outcome.describe()}",
        )


def placed(strategy):
    return st.tuples(strategy, st.sampled_from(POSITIONS))


PARTS = [
    Part("durations", lambda: placed(durations()), run, quick=8000, thorough=200000),
    Part("timestamps", lambda: placed(timestamps()), run, quick=8000, thorough=200000),
    Part("identifiers", lambda: placed(addresses()), run, quick=6000, thorough=150000),
    Part("surrounded", lambda: placed(surrounded()), run, quick=8000, thorough=200000),
    Part("neighbours", lambda: placed(neighbours()), run, quick=16000, thorough=400000),
]
