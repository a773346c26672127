"""C17: files the library opens are closed when it is done; the caller's stay as they were."""
from __future__ import annotations

import errno
import gc
import sys
from contextlib import nullcontext
from pathlib import Path

from .. import common, corpus, models
from ..common import require
from ..core import Ctx
from ..runner import Check
from ..sched import AsyncFault
from ..simfs import Plan, SimFS


class Sunk(Exception):
    """Raised by a caller's sink."""


class C17(Check):
    ID = "C17"
    QUICK = 22000
    THOROUGH = 200000
    RULE = ("non-trivial: a fault fired, the input was refused, or a caller's handle was used; "
            "distinct = input + interface + fault + delivery")
    MEASURE = "hash of (format, input, interface, fault, offset, delivery)"
    PROBES = ("by path", "by handle", "read error", "open error", "interrupt", "refused input",
              "caller's handle survives error", "caller's handle survives collection",
              "caller's sink", "own output file", "write error", "predicted files", "lazy reader", "interrupted between statements",
              "line cursor over handle", "binary cursor over handle", "several calls")
    REAL = [*common.COMMON_REAL, "every parser", "parse_single, parse_all", "FileWrapper, Block",
            "FortranBinaryReader", "get_generated_files, MDGeomParser"]
    STUB = ["raw file reads and writes (simulated disk: EIO, EACCES, ENOSPC, signals); "
            "exceptions raised between two lines of the library"]
    ASSUMPTIONS = []

    def run(self, ctx: Ctx) -> None:
        from castep_outputs import MDGeomParser, parse_single
        from castep_outputs.bin_parsers.fortran_bin_parser import FortranBinaryReader
        from castep_outputs.cli.castep_outputs_main import parse_all
        from castep_outputs.tools.get_generated_files import get_generated_files
        from castep_outputs.utilities.filewrapper import Block, FileWrapper

        fs = SimFS(ctx)
        shape = []
        ncalls = ctx.between(1, 3, "n-calls")
        if ncalls > 1:
            ctx.probe("several calls")
        gc.disable()
        silent: list = []
        sys.unraisablehook = lambda args: silent.append(
            f"{getattr(args.object, '__qualname__', args.object)}: {args.exc_value!r}")
        for i in range(ncalls):
            inp = corpus.pick(ctx, big=False, valid=False)
            data = inp.data
            damage = ctx.draw(4, "damage")
            if damage == 3 and data:
                data = data[:ctx.draw(len(data), "cut")]
                ctx.fault("truncated", f"{inp.fmt} to {len(data)}")
            path = fs.put(f"in{i}.{inp.fmt}", data)
            plan = Plan(chunks=common.draw_chunks(ctx, 4 * len(data)))
            fs.plans[path] = plan
            kind = ctx.draw(8, "fault")
            stop = None
            if kind == 6:
                span = (30, 300, 3000, 20000)[ctx.draw(4, "interrupt-span")]
                stop = AsyncFault(ctx, 1 + ctx.draw(span, "interrupt-line"),
                                  (KeyboardInterrupt, MemoryError)[ctx.draw(2, "interrupt-kind")],
                                  spare=fs.openers)
            elif kind == 7:
                plan.seek_fail = ctx.draw(4, "seeks")
                plan.fail_with = lambda: OSError(errno.EIO, "Input/output error")
            elif kind == 3:
                plan.fail_at = ctx.draw(len(data) + 1, "fail-at")
                plan.fail_with = lambda: OSError(errno.EIO, "Input/output error")
            elif kind == 4:
                plan.fail_at = ctx.draw(len(data) + 1, "fail-at")
                plan.fail_with = lambda: KeyboardInterrupt("signal")
            elif kind == 5:
                plan.open_error = PermissionError(errno.EACCES, "Permission denied")
            parse = corpus.parser(inp.fmt)
            iface = ctx.draw(11, "interface")
            if iface == 10:
                stop = None
            if iface == 10 and inp.fmt not in ("md", "geom"):
                # the lazy reader, mostly on what it can read
                if ctx.draw(4, "traj"):
                    doc = models.md(ctx, lo=1, hi=4)
                    data = doc.data()[:ctx.draw(len(doc.data()) + 1, "cut") if damage == 3 else None]
                    path = fs.put(f"in{i}.{doc.fmt}", data)
                    if kind in (3, 4):
                        plan.fail_at = ctx.draw(len(data) + 1, "fail-at")
                    fs.plans[path] = plan
            mine = None
            sink = None
            keep = None
            with fs:
                if iface in (2, 3, 4, 5):
                    plan.open_error, saved = None, plan.open_error
                    binary = inp.binary
                    mine = open(path, "rb" if binary else "r")  # noqa: SIM115
                    plan.open_error = saved
                    ctx.probe("by handle")
                else:
                    ctx.probe("by path")
                if iface == 6 and ctx.draw(2, "wfault"):
                    out = fs.root + f"/dump{i}"
                    fs.plans[out] = Plan(write_limit=ctx.draw(200, "write-limit"),
                                         write_error=OSError(errno.ENOSPC, "No space left on device"))
                if iface == 7:
                    sink = open(fs.root + f"/sink{i}", "w", encoding="utf-8")  # noqa: SIM115
                before = len(fs.leaked())

                def call():
                    if iface == 0:
                        return parse(path)
                    if iface == 1:
                        return parse(Path(path))
                    if iface == 2:
                        return parse(mine)
                    if iface == 3:
                        return parse_single(mine, parse)
                    if iface == 4 and not inp.binary:
                        ctx.probe("line cursor over handle")
                        w = FileWrapper(mine)
                        for _ in range(3):
                            next(w, None)
                        w.rewind()
                        b = Block.get_lines(w, 2, eof_possible=True)
                        del w, b
                        return None
                    if iface == 4 or (iface == 5 and inp.binary):
                        ctx.probe("binary cursor over handle")
                        r = FortranBinaryReader(mine)
                        next(r, None)
                        del r
                        return None
                    if iface == 5:
                        return parse(mine)
                    if iface == 10:
                        ctx.probe("lazy reader")
                        reader = MDGeomParser(path if i % 2 else path + "x" * (kind == 5))
                        for _ in range(ctx.draw(4, "n-frames")):
                            if reader.next_frame is not None:
                                reader.read_next()
                        it = iter(reader)
                        next(it, None)
                        del reader, it
                        return None
                    if iface == 6:
                        ctx.probe("own output file")
                        return parse_all(output=fs.root + f"/dump{i}", out_format="print",
                                         **{inp.fmt: [path]})
                    if iface == 7:
                        ctx.probe("caller's sink")
                        return parse_all(output=sink, out_format="print", **{inp.fmt: [path]})
                    if iface == 8 and inp.fmt in ("cell", "param"):
                        ctx.probe("predicted files")
                        stem = Path(path)
                        other = stem.with_suffix(".param" if inp.fmt == "cell" else ".cell")
                        fs.put(other.name, b"task : singlepoint\n" if inp.fmt == "cell" else b"")
                        return get_generated_files(
                            cell_file=stem if inp.fmt == "cell" else other,
                            param_file=other if inp.fmt == "cell" else stem)
                    return parse_single(path)

                ctx.op(f"{inp.fmt} ({inp.name}, {len(data)} bytes) by interface {iface}, fault {kind}")
                exc = None
                try:
                    with stop or nullcontext():
                        keep = call()
                except BaseException as e:  # noqa: BLE001
                    exc = e
                    e.__traceback__ = None
                    e.__context__ = e.__cause__ = None
                if stop is not None and stop.fired:
                    ctx.probe("interrupted between statements")
                fired = plan.fired or (stop is not None and stop.fired) or any(p.fired for p in fs.plans.values())
                if exc is not None:
                    ctx.probe("interrupt" if isinstance(exc, KeyboardInterrupt) else
                              "open error" if plan.open_error and plan.fired else
                              "write error" if iface == 6 and getattr(exc, "errno", 0) == errno.ENOSPC
                              else "read error" if plan.fired else "refused input")
                require(not silent, "fails-silently", f"while finishing interface {iface} on "
                        f"{inp.fmt}: {silent}")
                left = fs.leaked()
                require(len(left) <= before, "file-left-open",
                        f"after {'error ' + repr(exc) if exc else 'return'} of interface {iface} on "
                        f"{inp.fmt}: still open: {left}")
                for what, handle in (("input", mine), ("sink", sink)):
                    if handle is None:
                        continue
                    require(not handle.closed, "caller-file-closed",
                            f"{what} handle closed by interface {iface} ({inp.fmt}, {exc!r})")
                    exc_was = exc
                    exc = keep = None
                    gc.collect()
                    require(not handle.closed, "caller-file-closed",
                            f"{what} handle closed when results of interface {iface} were collected")
                    ctx.probe("caller's handle survives collection")
                    if exc_was is not None:
                        ctx.probe("caller's handle survives error")
                    # and it still works
                    plan.fail_at = plan.seek_fail = None
                    if what == "input":
                        handle.seek(0)
                        got = handle.read()
                        whole = data if inp.binary else data.decode(errors="replace")
                        require(inp.binary is False or got == whole, "caller-file-unusable", inp.fmt)
                        require(len(got) > 0 or not data, "caller-file-unusable", inp.fmt)
                    else:
                        handle.write("more\n")
                    handle.close()
                shape.append((inp.fmt, inp.name, len(data), iface, kind, plan.fail_at,
                              stop and stop.at, bool(fired)))
                ctx.nontrivial = ctx.nontrivial or bool(fired) or mine is not None or exc is not None
        ctx.signature(shape)
        ctx.sim_time += fs.reads


CHECK = C17()
