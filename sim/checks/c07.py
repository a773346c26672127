"""C07: what is reported does not depend on how the bytes are delivered."""
from __future__ import annotations

import gzip
import io
import logging
import os
from pathlib import Path

from .. import common, corpus
from ..common import require
from ..core import Ctx, canon
from ..runner import Check
from ..simfs import Plan, SimFS

NAMES = ("job", "my run", "a.b-c", "é", "[x]")


class Nameless:
    """A stream which offers only what every file offers."""

    def __init__(self, f) -> None:
        self._f = f

    def read(self, n=-1):
        return self._f.read(n)

    def readline(self, n=-1):
        return self._f.readline(n)

    def seek(self, pos, whence=0):
        return self._f.seek(pos, whence)

    def tell(self):
        return self._f.tell()

    def close(self):
        self._f.close()

    def __iter__(self):
        return self

    def __next__(self):
        line = self._f.readline()
        if not line:
            raise StopIteration
        return line


class C07(Check):
    ID = "C07"
    QUICK = 13000
    THOROUGH = 200000
    RULE = ("non-trivial: the delivery differs from a plain in-memory stream; distinct = input + "
            "delivery + raw read sizes + buffering")
    MEASURE = "hash of (input, delivery kind, raw read sizes, buffer, EINTR rate, line endings, log level)"
    PROBES = ("path as str", "path as Path", "handle", "in-memory", "nameless stream", "gzip stream",
              "line cursor", "text over bytes", "CRLF", "relative path", "symlink", "after preamble",
              "debug logging", "one-byte reads", "interrupted reads", "parse_single by name",
              "unbuffered binary", "no final newline", "read twice", "line cursor stepped",
              "very long lines", "numbered handle", "after another document")
    REAL = [*common.COMMON_REAL, "every text and binary parser", "parse_single", "log_factory"]
    STUB = ["raw file reads (simulated disk: short reads, EINTR, buffer sizes)", "log sink"]
    ASSUMPTIONS = ["UTF-8 locale"]

    def run(self, ctx: Ctx) -> None:
        from castep_outputs import parse_single
        from castep_outputs.utilities.filewrapper import FileWrapper

        inp = corpus.pick(ctx, big=ctx.draw(12, "big") == 11)
        parse = corpus.parser(inp.fmt)
        data = inp.data
        if not inp.binary and ctx.draw(8, "final-newline") == 7 and data.endswith(b"\n"):
            trial = corpus.Input(inp.fmt, inp.name, data.rstrip(b"\n"))
            out = common.outcome(trial.parse)
            if out[0] == "ok":
                inp, data = trial, trial.data
                ctx.probe("no final newline")
        want = inp.parse()
        base = canon(want)
        size = len(data)
        fs = SimFS(ctx)
        stem = NAMES[ctx.draw(len(NAMES), "stem")]
        crlf = not inp.binary and b"\r" not in data and ctx.draw(4, "crlf") == 3
        disk = data.replace(b"\n", b"\r\n") if crlf else data
        if crlf:
            ctx.probe("CRLF")
        sub = ("", "d/", "d/e f/")[ctx.draw(3, "dir")]
        path = fs.put(f"{sub}{stem}.{inp.fmt}", disk)
        chunks = common.draw_chunks(ctx, 4 * size)
        if size < 3000 and ctx.draw(10, "bytewise") == 9:
            chunks = (1,)
            ctx.probe("one-byte reads")
        plan = Plan(chunks=chunks, eintr=(0, 2, 7)[ctx.draw(3, "eintr")],
                    buffer=(0, 64, 513, 4096)[ctx.draw(4, "buf")] if size < 20000 else 0)
        if plan.eintr:
            ctx.probe("interrupted reads")
        fs.plans[path] = plan
        mode = "rb" if inp.binary else "r"
        how = ctx.draw(16, "delivery")
        debug = ctx.draw(3, "debug") == 2
        root = logging.getLogger()
        old = root.level
        records = []

        class Sink(logging.Handler):
            def emit(self, record) -> None:
                records.append(record.getMessage())

        sink = Sink()
        with fs:
            if debug:
                ctx.probe("debug logging")
                root.setLevel(logging.DEBUG)
                root.addHandler(sink)
            try:
                if how == 0:
                    ctx.probe("path as str")
                    got = parse(path)
                elif how == 1:
                    ctx.probe("path as Path")
                    got = parse(Path(path))
                elif how in (2, 3):
                    ctx.probe("handle")
                    with open(path, mode) as f:
                        if ctx.draw(3, "peeked") == 2:
                            f.read(ctx.draw(size + 1, "peek"))
                            f.seek(0)
                        got = parse(f)
                elif how == 15:
                    # handles whose name is a number, or bytes
                    ctx.probe("numbered handle")
                    if ctx.draw(2, "by-fd"):
                        with open(os.open(path, os.O_RDONLY), mode) as f:
                            got = parse(f)
                    else:
                        with open(os.fsencode(path), mode) as f:
                            got = parse(f)
                elif how == 4:
                    ctx.probe("in-memory")
                    got = parse(io.BytesIO(data) if inp.binary else io.StringIO(inp.text))
                elif how == 5:
                    ctx.probe("nameless stream")
                    with open(path, mode) as f:
                        got = parse(Nameless(f))
                elif how == 6:
                    ctx.probe("gzip stream")
                    with _gz(disk, inp.binary) as f:
                        got = parse(f)
                elif how == 7 and not inp.binary:
                    ctx.probe("line cursor")
                    with open(path, mode) as f:
                        got = parse(FileWrapper(f))
                elif how == 8 and not inp.binary:
                    ctx.probe("text over bytes")
                    got = parse(io.TextIOWrapper(io.BytesIO(disk), encoding="utf-8"))
                elif how == 9:
                    ctx.probe("relative path")
                    os.chdir(os.path.dirname(path))
                    name = os.path.basename(path)
                    got = parse((name, Path(name), "./" + name)[ctx.draw(3, "rel")])
                elif how == 10:
                    ctx.probe("symlink")
                    link = os.path.join(fs.root, f"latest.{inp.fmt}")
                    os.symlink(path, link)
                    got = parse(link)
                elif how == 11:
                    ctx.probe("after preamble")
                    # what comes before may look like the document itself
                    kind = ctx.draw(4, "preamble")
                    if kind < 2:
                        pre = b"a line somebody else reads\n" * ctx.between(1, 3, "lines")
                    elif kind == 2:
                        pre = b"".join(disk.splitlines(keepends=True)[:ctx.between(1, 40, "lines")])
                    else:
                        pre = disk
                    if not pre.endswith(b"\n") and not inp.binary:
                        pre += b"\n"
                    if kind > 1:
                        ctx.probe("after another document")
                    p2 = fs.put("pre." + inp.fmt, pre + disk)
                    fs.plans[p2] = plan
                    over = ctx.draw(3, "over") if not inp.binary else 0
                    with open(p2, mode) as f:
                        if inp.binary:
                            f.seek(len(pre))
                            got = parse(f)
                        else:
                            g = io.StringIO((pre + disk).decode(), newline=None) if over == 1 else f
                            g = FileWrapper(g) if over == 2 else g
                            for _ in range(pre.count(b"\n")):
                                if over == 2:
                                    next(g)
                                else:
                                    g.readline()
                            got = parse(g)
                elif how == 12:
                    if not inp.binary and ctx.draw(2, "by-name"):
                        ctx.probe("parse_single by name")
                        got = parse_single(path, inp.fmt)
                    else:
                        got = parse_single(path)
                elif how == 14 and not inp.binary:
                    # the line cursor itself: stepping on and back
                    ctx.probe("line cursor stepped")
                    text = inp.text
                    if ctx.draw(4, "long-lines") == 3:
                        # lines longer than any buffer
                        ctx.probe("very long lines")
                        head, sep, tail = text.partition("\n")
                        longer = (head + " ") * (1 + ctx.draw(20000, "longer") // (len(head) + 1))
                        text = longer + sep + tail
                        path = fs.put("long." + inp.fmt, text.replace(
                            "\n", "\r\n" if crlf else "\n").encode())
                        fs.plans[path] = plan
                    steps = [ctx.draw(4, "step") for _ in range(ctx.between(4, 60, "steps"))]
                    base = _model_walk([*io.StringIO(text)], steps)
                    want = base
                    with open(path, mode) as f:
                        got = _walk(FileWrapper(f), steps)
                    require(got == base, "delivery-matters",
                            lambda: f"{inp.fmt} ({inp.name}): steps {steps} (chunks {chunks}, crlf "
                                    f"{crlf}): " + common.diff(base, got))
                    got, base = want, canon(want)
                elif inp.binary:
                    ctx.probe("unbuffered binary")
                    plan.eintr = 0
                    with open(path, mode, buffering=0) as f:
                        got = parse(f)
                else:
                    ctx.probe("read twice")
                    with open(path, mode) as f:
                        parse(f)
                        f.seek(0)
                        got = parse(f)
                ctx.op(f"{inp.fmt} ({inp.name}, {size} bytes) delivery {how} "
                       f"chunks {chunks} buffer {plan.buffer} eintr {plan.eintr} crlf {crlf} "
                       f"debug {debug}")
            except Exception as exc:  # noqa: BLE001
                require(False, "delivery-fails", f"{inp.fmt} ({inp.name}): delivery {how} "
                        f"(chunks {chunks}, crlf {crlf}, debug {debug}) raised {exc!r}")
            finally:
                root.setLevel(old)
                root.removeHandler(sink)
            require(canon(got) == base, "delivery-matters",
                    lambda: f"{inp.fmt} ({inp.name}): delivery {how} (chunks {chunks}, "
                            f"crlf {crlf}, debug {debug}): " + common.diff(want, got))
        ctx.nontrivial = how != 4 or crlf or debug
        ctx.signature(inp.fmt, inp.name, size, how, chunks, plan.buffer, plan.eintr, crlf, debug, stem, sub)
        ctx.sim_time += fs.reads


def _walk(cursor, steps) -> list:
    """Lines and line numbers met while stepping on (0-2) and back (3)."""
    seen = []
    fresh = False  # a step back needs a step on before
    for step in steps:
        if step == 3:
            if fresh:
                cursor.rewind()
                seen.append(("back", cursor.lineno))
            fresh = False
        else:
            line = next(cursor, None)
            if line is None:
                break
            seen.append((line, cursor.lineno))
            fresh = True
    return seen


def _model_walk(lines: list, steps) -> list:
    """What ``_walk`` must see."""
    seen = []
    at = 0
    fresh = False
    for step in steps:
        if step == 3:
            if fresh:
                at -= 1
                seen.append(("back", at))
            fresh = False
        elif at == len(lines):
            break
        else:
            at += 1
            seen.append((lines[at - 1], at))
            fresh = True
    return seen


def _gz(disk: bytes, binary: bool):
    packed = io.BytesIO(gzip.compress(disk, 1, mtime=0))
    return gzip.open(packed, "rb" if binary else "rt")


CHECK = C07()
