"""C13: the text output of a running or killed job is refused or read as far as it goes."""
from __future__ import annotations

from collections.abc import Mapping

from .. import common, corpus
from ..castep_model import castep
from ..common import require
from ..core import Ctx, leq
from ..runner import Check
from ..simfs import Plan, SimFS

#: Formats written record by record, readable while their job still runs.
STREAMED = {"md", "geom", "bands", "hug", "elastic", "err", "ts", "phonon", "xrd_sf", "magres",
            "elf_fmt", "chdiff_fmt", "pot_fmt", "den_fmt", "epme", "castep", "cell", "param"}
#: Formats of which an unfinished last item may show.
OPEN_ENDED = {"md", "geom", "bands", "ts"}
GONE = object()


def between(got, lo, hi, fmt: str) -> bool:
    """``got`` is ``lo`` plus at most an unfinished picture of what ``hi`` adds."""
    if lo is GONE:
        # a spin-polarised k-point cut after its first component is not labelled yet
        return fmt == "bands" or common.partial_of(got, hi)
    if isinstance(hi, Mapping) and isinstance(lo, Mapping):
        return (isinstance(got, Mapping) and all(k in got for k in lo)
                and all(k in hi and between(v, lo.get(k, GONE), hi[k], fmt) for k, v in got.items()))
    if isinstance(hi, (list, tuple)) and isinstance(lo, (list, tuple)):
        return (isinstance(got, (list, tuple)) and len(lo) <= len(got) <= len(hi)
                and all(between(g, lo[i] if i < len(lo) else GONE, hi[i], fmt)
                        for i, g in enumerate(got)))
    return leq(got, lo) or leq(got, hi)


def settled(runs):
    """Without the one entry whose parts are replaced by what is printed further down the section."""
    return [{k: v for k, v in r.items() if k != "berry_phase"} for r in runs] if isinstance(runs, list) else runs


def keeps(got, lo, hi) -> bool:
    """Everything settled in ``lo`` (not touched by what follows) is in ``got`` as written."""
    if hi is GONE:
        return True
    if isinstance(lo, Mapping) and isinstance(hi, Mapping):
        return isinstance(got, Mapping) and all(
            k not in hi or (k in got and keeps(got[k], v, hi[k])) for k, v in lo.items())
    if isinstance(lo, (list, tuple)) and isinstance(hi, (list, tuple)) and len(hi) >= len(lo):
        return (isinstance(got, (list, tuple)) and len(got) >= len(lo)
                and all(keeps(g, x, h) for g, x, h in zip(got, lo, hi)))
    return not leq(lo, hi) or leq(got, lo)


class C13(Check):
    ID = "C13"
    QUICK = 6500
    THOROUGH = 250000
    RULE = ("non-trivial: the file was cut before its end or grew while being read; distinct = job "
            "shape + cut + growth")
    MEASURE = "hash of (format, record shapes, cut offset, growth steps, delivery)"
    PROBES = ("between records", "inside a record", "inside the header", "torn line", "refused",
              "completed part only", "unfinished item shown", "unfinished section shown", "castep log", "grew while read",
              "read again when finished", "empty file", "several reads of one growing file")
    REAL = [*common.COMMON_REAL, "every text parser with a writer model (21 formats)"]
    STUB = ["simulation job writers (crash between lines or inside a line)",
            "raw file reads (simulated disk, file growing while read)"]
    ASSUMPTIONS = ["a job writes whole lines unless killed inside one",
                   "a crash keeps a prefix of what was written",
                   "growth under an open reader adds whole records and starts between events"]

    def run(self, ctx: Ctx) -> None:
        formats = [f for f in corpus.MODELS if not corpus.is_binary(f)]
        fmt = formats[ctx.draw(len(formats), "format")] if ctx.draw(5, "castep?") else "castep"
        doc = castep(ctx, hi=1 + (ctx.draw(4, "runs") == 3)) if fmt == "castep" \
            else corpus.MODELS[fmt](ctx)
        if fmt == "castep":
            ctx.probe("castep log")
        data = doc.data()
        bounds = doc.boundaries()
        n = len(doc.records)
        parse = corpus.parser(fmt)
        lines = [0, *(i + 1 for i, b in enumerate(data) if b == 10)]
        fs = SimFS(ctx)
        name = "job." + fmt

        def cut_point(lo: int) -> int:
            kind = ctx.draw(5, "cut-kind")
            if kind in (0, 1):
                ctx.probe("between records")
                options = [b for b in bounds if b >= lo] or [len(data)]
                return options[ctx.draw(len(options), "cut-record")]
            if kind in (2, 3):
                options = [x for x in lines if x >= lo]
                return options[ctx.draw(len(options), "cut-line")]
            return len(data)

        def done(size: int) -> int:
            """Complete records (-1: header incomplete)."""
            return sum(b <= size for b in bounds) - 1

        def exact(got, k: int) -> bool:
            return doc.match(got, k) is not None if doc.quirks else leq(got, doc.expected(k))

        def acceptable(got, k: int, size: int) -> bool:
            if k < 0:
                return True
            if exact(got, k):
                ctx.probe("completed part only")
                return True
            if size in bounds:
                return k == 0 and not got
            if k < n and exact(got, k + 1):
                return True
            if k < n and fmt == "castep" and doc.records[k][1][0] == "section" and between(
                    *map(settled, (got, doc.expected(k), doc.expected(k + 1))), fmt):
                ctx.probe("unfinished section shown")
                return True
            if fmt in OPEN_ENDED and k < n and between(got, doc.expected(k), doc.expected(k + 1), fmt):
                ctx.probe("unfinished item shown")
                return True
            return False

        stages = [cut_point(0)]
        for _ in range(ctx.draw(3, "n-stages")):
            stages.append(cut_point(stages[-1]))
        have = stages[0]
        path = fs.put(name, data[:have])
        plan = Plan(chunks=common.draw_chunks(ctx, 4 * len(data)),
                    buffer=(0, 128, 700)[ctx.draw(3, "buf")] if len(data) < 9000 else 0)
        fs.plans[path] = plan
        if not have:
            ctx.probe("empty file")
        torn = ctx.draw(5, "torn-line") == 4
        if len(stages) > 1:
            ctx.probe("several reads of one growing file")

        def grow(to: int) -> None:
            nonlocal have
            if to > have:
                fs.append(name, data[have:to])
                have = to
                ctx.fault("file-grows", f"to {to}")

        with fs:
            for stage, size in enumerate(stages):
                grow(size)
                if size < len(data):
                    ctx.fault("writer-stopped", f"at {size} of {len(data)}")
                k0 = done(have)
                ctx.op(f"read {fmt} at {have} bytes, {k0} of {n} records")
                out = common.outcome(lambda: parse(path))
                if size not in bounds:
                    ctx.probe("inside the header" if k0 < 0 else "inside a record")
                if out[0] == "err":
                    ctx.probe("refused")
                    ok = (size not in bounds or k0 <= 0 or (fmt not in STREAMED and size != len(data)))
                    require(ok or (fmt in ("md", "geom") and k0 < 1), "finished-part-refused",
                            f"{fmt} with {k0} of {n} complete records, nothing torn: {out[1]!r}")
                else:
                    require(acceptable(out[1], k0, size), "unfinished-as-finished",
                            lambda size=size, k0=k0, out=out:
                            f"{fmt} cut at {size}, {k0} of {n} records: "
                            + common.diff(doc.expected(max(k0, 0)), out[1]))
                    if size == len(data):
                        require(exact(out[1], n), "finished-part-refused", "complete file misread")
            if torn and have < len(data):
                # killed inside a line: what was finished before is unharmed
                end = next(x for x in lines if x > have) if have < len(data) else have
                if end - have > 1:
                    grow(have + 1 + ctx.draw(end - have - 1, "torn-at"))
                    ctx.probe("torn line")
                    ctx.fault("writer-killed", f"at {have} inside a line")
                    k = done(have)
                    out = common.outcome(lambda: parse(path))
                    if out[0] == "ok" and k >= 0 and not doc.quirks:
                        require(keeps(out[1], doc.expected(k), doc.expected(min(k + 1, n))),
                                "finished-part-damaged",
                                lambda k=k, out=out: f"{fmt} torn at {have}, {k} of {n} records: "
                                + common.diff(doc.expected(k), out[1]))
            elif ctx.draw(4, "grow-in-read") == 3 and have < len(data):
                # the job goes on writing, record by record, under the reader
                soft = doc.info.get("soft", ())
                later = [b for i, b in enumerate(bounds) if b > have and i not in soft]
                k0 = done(have)
                start = have

                def on_read(_raw, _pos):
                    if later and ctx.draw(3, "grow-now") == 2:
                        grow(later.pop(0))
                        ctx.probe("grew while read")

                plan.on_read = on_read
                out = common.outcome(lambda: parse(path))
                plan.on_read = None
                k1 = done(have)
                if out[0] == "ok" and start in bounds and k0 >= 0 and k0 not in soft:
                    require(any(exact(out[1], k) for k in range(k0, k1 + 1))
                            or (k0 == 0 and not out[1]), "growing-file-misread",
                            lambda: f"{fmt} grew from {k0} to {k1} records while read: "
                            + common.diff(doc.expected(k0), out[1]))
                elif start in bounds and fmt in STREAMED and k0 >= 1 and k0 not in soft:
                    require(False, "finished-part-refused", f"growing {fmt}: {out[1]!r}")
            if ctx.draw(3, "finish") == 2:
                fs.put(name, data)
                ctx.probe("read again when finished")
                ctx.op("read the finished file")
                got = parse(path)
                require(exact(got, n), "complete-file-misread",
                        lambda: common.diff(doc.expected(), got))
        ctx.nontrivial = any(s < len(data) for s in stages)
        ctx.signature(fmt, bounds[:40], stages, have, plan.chunks, plan.buffer)
        ctx.sim_time += fs.reads


CHECK = C13()
