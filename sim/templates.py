"""Recorded log sections as writers: lines with slots, and the result with the same slots.

A slot is a number field: the number and the blanks it may spread into.  A section may also have rows
which a job prints as often as it has atoms, k-points, bands...: those can be repeated.
``corpus/templates.json`` (made by ``tools/build_templates.py``) holds every section in this form.
"""
from __future__ import annotations

import json
from collections.abc import Mapping
from functools import lru_cache
from pathlib import Path

ZERO, SIGN, WIDE, FIXED = "z", "s", "w", "f"


def vary(token: str, draw, modes: str = "", odd: int = 0) -> str:
    """Another number for the field ``token``: same width, point and exponent.

    ``modes`` are the further shapes the field admits, each used in ``odd`` of 100 cases.
    """
    if modes == FIXED:
        return token
    num = token.lstrip(" ")
    room = len(token) - len(num)
    mode = modes[draw(len(modes))] if modes and odd and draw(100) < odd else ""
    if mode == ZERO:
        num = "".join("0" if c.isdigit() else c for c in num)
        return " " * room + (num if num[0] != "-" else num[1:].rjust(len(num)))
    out = []
    digits = [i for i, c in enumerate(num) if c.isdigit()]
    stop = next((i for i, c in enumerate(num) if c in "EeDd"), len(num))
    point = num.find(".")
    mant = [i for i in digits if i < stop]
    lead = mant[0]
    for i, c in enumerate(num):
        if i not in mant:
            out.append(c)
        elif i == lead and (point > lead + 1 or point < 0):
            # no new leading zero; a lone zero integer stays what it is
            out.append(str(1 + draw(9)) if c != "0" else c)
        elif i == lead and point == lead + 1 and c == "0":
            out.append("0")
        else:
            out.append(str(draw(10)))
    num = "".join(out)
    if not any(c in "123456789" for c in num[:stop]) and (point >= 0 or num[0] == "-"):
        # the sign of a zero is not kept
        num = num[:mant[-1]] + "1" + num[mant[-1] + 1:]
    if mode == SIGN and num[0] == "-":
        num = num[1:].rjust(len(num))
    elif mode == SIGN and room and num[0].isdigit():
        num = "-" + num
        room -= 1
    elif mode == WIDE and room and num[0].isdigit():
        extra = 1 + draw(min(room, 3))
        num = "".join(str(1 + draw(9)) for _ in range(extra)) + num
        room -= extra
    return " " * room + num


def number(token: str) -> float:
    return float(token.replace("D", "E").replace("d", "e"))


def join(parts: list, fill: list) -> str:
    out = [parts[0]]
    for f, p in zip(fill, parts[1:]):
        out += (f, p)
    return "".join(out)


def str_template(text: str, cands: list) -> list:
    """Split ``text`` at the tokens found in it, in order."""
    out: list = []
    rest = text
    for j, tok in sorted(cands, key=lambda c: c[0]):
        at = rest.find(tok)
        if at < 0:
            continue
        out += [rest[:at], j]
        rest = rest[at + len(tok):]
    return [*out, rest]


def str_fill(tmpl: list, fill: list) -> str:
    return "".join(fill[x].strip() if isinstance(x, int) else x for x in tmpl)


def pack(value):
    """JSON form of a key or literal."""
    if isinstance(value, (list, tuple)):
        return {"t": [pack(v) for v in value]}
    if isinstance(value, complex):
        return {"c": [value.real, value.imag]}
    if value is None or isinstance(value, (bool, int, float, str)):
        return value
    raise TypeError(f"{value!r}")


def unpack(value, index=None):
    if isinstance(value, dict):
        if "t" in value:
            return tuple(unpack(v, index) for v in value["t"])
        if "i" in value:
            # the number of a repeated row
            return str(index) if value["i"] == "s" else type_of(value["i"])(index)
        return complex(*value["c"])
    return value


def type_of(name: str):
    return {"i": int, "f": float}[name]


def decode(tree, fill: list, index=None):
    """The result a reader must give for ``fill``."""
    if "v" in tree:
        return unpack(tree["v"], index)
    if "d" in tree:
        return {unpack(k, index): decode(v, fill, index) for k, v in tree["d"]}
    if "l" in tree:
        return [decode(v, fill, index) for v in tree["l"]]
    kind, *args = tree["$"]
    if kind == "s":
        return str_fill(args[0], fill)
    if kind == "c":
        return complex(number(fill[args[0]]), number(fill[args[1]]))
    val = number(fill[args[0]])
    return -val if kind == "-" else val


def negated(tree):
    """Slots reported with the opposite sign."""
    if "d" in tree or "l" in tree:
        for v in tree.get("l") or [v for _, v in tree.get("d", ())]:
            yield from negated(v)
    elif "$" in tree and tree["$"][0] == "-":
        yield tree["$"][1]


def same(a, b) -> bool:
    if isinstance(a, Mapping):
        return isinstance(b, Mapping) and a.keys() == b.keys() and all(same(v, b[k]) for k, v in a.items())
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(map(same, a, b))
    return a == b or (a != a and b != b)


@lru_cache
def load() -> list[dict]:
    """Every recorded section as a writer."""
    path = Path(__file__).resolve().parent.parent / "corpus/templates.json"
    out = json.loads(path.read_text()) if path.exists() else []
    for sec in out:
        sec["not_after"], sec["not_before"] = set(sec["not_after"]), set(sec["not_before"])
        # reported with the opposite sign: a zero has none
        for box, trees in ((sec, [sec["full"], sec["high"]]), *((r, [a[3] for a in r["adds"]]) for r in sec["rows"])):
            for j in {j for t in trees for j in negated(t)}:
                box["modes"][j] = box["modes"][j].replace(ZERO, "")
    return out


# -- writing -------------------------------------------------------------------------
def lines_of(sec: dict, draw, odd: int = 0):
    """(lines, fill): the section's own lines with fresh numbers."""
    fill = [vary(t, draw, m, odd) for t, m in zip(sec["tokens"], sec["modes"])]
    text = join(sec["parts"], fill)
    return text.splitlines(keepends=True), fill


def row_lines(row: dict, draw, index: int, odd: int = 0):
    fill = [vary(t, draw, m, odd) for t, m in zip(row["tokens"], row["modes"])]
    if row["index"] is None:
        return join(row["parts"], fill), fill
    put = list(fill)
    for at, width in row["index"]:
        put[at] = str(index).rjust(width)
    return join(row["parts"], put), fill


def write(sec: dict, draw, odd: int = 0, grow: dict | None = None):
    """(lines, {"full": .., "high": ..}): the section with fresh numbers; ``grow``: {row: how often}."""
    lines, fill = lines_of(sec, draw, odd)
    out = {k: decode(sec[k], fill) for k in ("full", "high")}
    at: dict = {}
    # from the last row to the first: places in the result stay valid
    for r, times in sorted((grow or {}).items(), key=lambda g: -sec["rows"][g[0]]["after"]):
        row = sec["rows"][r]
        new = []
        for n in range(times):
            index = row["first"] + n
            text, own = row_lines(row, draw, index, odd)
            new += text.splitlines(keepends=True)
            for kind, path, pos, tree in row["adds"]:
                box = out[kind]
                for step in path:
                    box = box[unpack(step)]
                if isinstance(box, list):
                    box.insert(pos + n, decode(tree, own, index))
                else:
                    # a later row has the last word
                    box.setdefault(unpack(pos, index), decode(tree, own, index))
        at[row["after"]] = new
    text = []
    for i, line in enumerate(lines):
        text.append(line)
        text += at.get(i, ())
    return text, out


# -- how sections add up ---------------------------------------------------------------
def combine(run: dict, new: dict, rules: dict) -> None:
    """What a run holds after a further section."""
    for key, val in new.items():
        if key not in run:
            run[key] = val
            continue
        rule = rules.get(key, "set")
        if rule == "extend":
            run[key] = [*run[key], *val]
        elif rule == "update":
            run[key] = {**run[key], **val}
        elif rule in ("deep", "merge"):
            run[key] = _deep(run[key], val, grow=rule == "deep")
        else:
            run[key] = val


def _deep(old, new, *, grow: bool):
    if isinstance(old, Mapping) and isinstance(new, Mapping):
        return {**old, **{k: _deep(old[k], v, grow=grow) if k in old else v for k, v in new.items()}}
    if grow and isinstance(old, (list, tuple)) and isinstance(new, (list, tuple)):
        return [*old, *new]
    return new
