"""Inputs: recorded samples, recorded output sections, and simulated jobs."""
from __future__ import annotations

import io
import json
import logging
import re
from dataclasses import dataclass
from pathlib import Path

from . import models
from .castep_model import castep
from .common import pristine
from .core import Ctx
from .input_model import inputs

ROOT = Path(__file__).resolve().parent.parent / "corpus"

MODELS = dict(models.WRITERS)
MODELS["castep"] = castep
MODELS["cell"] = lambda ctx: inputs(ctx, "cell")
MODELS["param"] = lambda ctx: inputs(ctx, "param")

_cache: dict = {}


def quiet() -> None:
    """Log records go nowhere real."""
    root = logging.getLogger()
    if not root.handlers:
        root.addHandler(logging.NullHandler())


def load() -> dict:
    """Recorded material and the public parser tables."""
    if _cache:
        return _cache
    quiet()
    from castep_outputs.bin_parsers import PARSERS as BIN
    from castep_outputs.parsers import PARSERS as TEXT

    samples: dict[str, list] = {}
    for path in sorted((ROOT / "samples").iterdir()):
        samples.setdefault(path.suffix[1:], []).append((path.name, path.read_bytes()))
    sections = json.loads((ROOT / "sections.json").read_text())
    _cache.update(text=TEXT, bin=BIN, samples=samples,
                  castep_sections=[s for s in sections if s["kind"] == "castep"],
                  cell_sections=[s for s in sections if s["kind"] == "cell"])
    units = [(s["kind"], s["name"], s["text"].encode()) for s in sections]
    units += [(fmt, name, data) for fmt, ss in samples.items() for name, data in ss
              if len(data) < 10000]

    def survey():
        good = [_parses(*u) for u in units]
        return good, [(k[1], k[2]) for k in re._cache if isinstance(k[1], str)][-480:]

    # In a forked copy: the library itself has to stay as freshly imported.
    good, patterns = pristine(survey)
    for pattern, flags in patterns:
        re.compile(pattern, flags)
    _cache["units"] = [u for u, ok in zip(units, good) if ok] + [(fmt, "", b"") for fmt in MODELS]
    return _cache


def text_formats() -> list[str]:
    return list(load()["text"])


def bin_formats() -> list[str]:
    return list(load()["bin"])


def parser(fmt: str):
    c = load()
    return c["text"].get(fmt) or c["bin"][fmt]


def is_binary(fmt: str) -> bool:
    return fmt in load()["bin"]


@dataclass
class Input:
    fmt: str
    name: str
    data: bytes
    doc: object = None

    @property
    def text(self) -> str:
        return self.data.decode()

    @property
    def binary(self) -> bool:
        return is_binary(self.fmt)

    def stream(self):
        """Plain in-memory delivery."""
        return io.BytesIO(self.data) if self.binary else io.StringIO(self.text)

    def parse(self):
        return parser(self.fmt)(self.stream())


def castep_text(ctx: Ctx, hi: int = 4) -> tuple[str, str]:
    """A log stitched from recorded sections, optionally as several runs."""
    secs = load()["castep_sections"]
    header = next(s["text"] for s in secs if s["name"] == "test_get_build_version")
    out = []
    names = []
    for _ in range(ctx.between(1, hi, "n-sections")):
        s = secs[ctx.draw(len(secs), "section")]
        if ctx.draw(4, "new-run") == 3:
            out.append(header + "\n")
            names.append("run")
        out.append(s["text"].rstrip(" ") + "\n\n")
        names.append(s["name"].replace("test_", "").replace("get_", ""))
    return "".join(out), "+".join(names)


def pick(ctx: Ctx, formats: list[str] | None = None, *, big: bool = True,
         valid: bool = True) -> Input:
    """Choose one input.  ``valid`` inputs parse without error on their own."""
    for attempt in range(20):
        inp = _pick(ctx, formats, big=big)
        if not valid:
            return inp
        try:
            inp.parse()
        except Exception:  # noqa: BLE001, S112
            continue
        return inp
    return Input("hug", "fallback", b"  1.0  2.0  3.0  4.0  <-- cTPE\n")


def unit(ctx: Ctx) -> Input:
    """One recorded section, small sample or simulated job, each equally likely; parses on its own."""
    c = load()
    fmt, name, data = c["units"][ctx.draw(len(c["units"]), "unit")]
    if not name:
        doc = MODELS[fmt](ctx)
        return Input(fmt, "simulated", doc.data(), doc)
    return Input(fmt, name, data)


def _parses(fmt: str, name: str, data: bytes) -> bool:
    try:
        Input(fmt, name, data).parse()
    except Exception:  # noqa: BLE001
        return False
    return True


def _pick(ctx: Ctx, formats: list[str] | None, *, big: bool) -> Input:
    c = load()
    formats = formats or [*c["text"], *c["bin"], "castep", "castep", "castep", "cell"]
    fmt = formats[ctx.draw(len(formats), "format")]
    samples = [s for s in c["samples"].get(fmt, []) if big or len(s[1]) < 20000]
    if fmt == "castep":
        kind = ctx.draw(8, "castep-source")
        if kind < 5 or (kind == 7 and not big):
            text, name = castep_text(ctx)
            return Input(fmt, name, text.encode())
        if kind < 7:
            doc = castep(ctx, hi=2 if big else 1)
            return Input(fmt, "job", doc.data(), doc)
        name, data = samples[ctx.draw(len(samples), "sample")]
        return Input(fmt, name, data)
    if fmt in ("cell", "param") and ctx.draw(5, "cell-source") > 2:
        s = c["cell_sections"][ctx.draw(len(c["cell_sections"]), "cell-section")]
        return Input(fmt, s["name"], s["text"].encode())
    if fmt in MODELS and (not samples or ctx.draw(3, "source")):
        doc = MODELS[fmt](ctx)
        return Input(fmt, "simulated", doc.data(), doc)
    name, data = samples[ctx.draw(len(samples), "sample")]
    return Input(fmt, name, data)
