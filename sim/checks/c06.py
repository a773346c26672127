"""C06: a read that fails is reported; no partial result, and trying again gives it all."""
from __future__ import annotations

import errno
import sys
from contextlib import nullcontext
from pathlib import Path

from .. import common, corpus
from ..common import require
from ..core import Ctx, canon
from ..runner import Check
from ..sched import AsyncFault
from ..simfs import Plan, SimFS

READ_FAULTS = (
    ("EIO", lambda: OSError(errno.EIO, "Input/output error")),
    ("ESTALE", lambda: OSError(errno.ESTALE, "Stale file handle")),
    ("ETIMEDOUT", lambda: TimeoutError(errno.ETIMEDOUT, "Connection timed out")),
    ("signal", lambda: KeyboardInterrupt("signal during read")),
    ("no-memory", lambda: MemoryError("cannot allocate buffer")),
    ("exit", lambda: SystemExit("asked to stop")),
)
OPEN_FAULTS = (
    lambda: PermissionError(errno.EACCES, "Permission denied"),
    lambda: OSError(errno.EMFILE, "Too many open files"),
    lambda: FileNotFoundError(errno.ENOENT, "No such file or directory"),
    lambda: IsADirectoryError(errno.EISDIR, "Is a directory"),
    lambda: OSError(errno.ENFILE, "Too many open files in system"),
)


def chain(exc: BaseException):
    seen = []
    todo = [exc]
    while todo:
        e = todo.pop()
        if e is None or any(e is s for s in seen):
            continue
        seen.append(e)
        todo += [e.__cause__, e.__context__]
    return seen


class C06(Check):
    ID = "C06"
    QUICK = 11000
    THOROUGH = 200000
    RULE = ("non-trivial: the injected fault fired inside the call; distinct = input + interface + "
            "fault kind + byte offset + delivery")
    MEASURE = "hash of (format, input, interface, fault kind, offset, chunking, repetition)"
    PROBES = ("fault at first byte", "fault at end of file", "fault mid-file", "open refused",
              "undecodable byte", "fault never reached", "persistent fault", "caller's handle re-read",
              "interrupted between statements", "failed seek",
              "binary format", "castep log", "input file", "one of several inputs", "command line")
    REAL = [*common.COMMON_REAL, "every text and binary parser", "parse_single, parse_all"]
    STUB = ["raw file reads (simulated disk: EIO, ESTALE, ETIMEDOUT, signals, ENOMEM; failing "
            "seeks, failing open); exceptions raised between two lines of the library"]
    ASSUMPTIONS = ["faults stop before the retry"]

    def run(self, ctx: Ctx) -> None:
        from castep_outputs import parse_single
        from castep_outputs.cli.castep_outputs_main import main, parse_all

        inp = corpus.pick(ctx, big=ctx.draw(12, "big") == 11)
        parse = corpus.parser(inp.fmt)
        base = canon(inp.parse())
        mode = "rb" if inp.binary else "r"
        if inp.binary:
            ctx.probe("binary format")
        elif inp.fmt == "castep":
            ctx.probe("castep log")
        elif inp.fmt in ("cell", "param"):
            ctx.probe("input file")
        fs = SimFS(ctx)
        name = "job." + inp.fmt
        size = len(inp.data)
        path = fs.put(name, inp.data)
        plan = Plan(chunks=common.draw_chunks(ctx, 4 * size),
                    buffer=(0, 128, 1024)[ctx.draw(3, "buf")] if size < 20000 else 0)
        fs.plans[path] = plan

        iface = ctx.draw(8, "interface")
        ifname = ("parser(str)", "parser(Path)", "parser(handle)", "parse_single", "parse_all",
                  "parse_single with parser", "parse_all of several", "command line")[iface]
        held = None
        files = {inp.fmt: [path]}
        if iface >= 6:
            # the faulty file is one of several, of the same or other kinds
            iface = 4
            cli = ifname == "command line"
            for k in range(ctx.between(1, 3, "n-others")):
                other = inp if ctx.draw(2, "same-kind") else corpus.pick(ctx, big=False)
                p2 = fs.put(f"other{k}.{other.fmt}", other.data)
                ps = files.setdefault(other.fmt, [])
                ps.insert(ctx.draw(len(ps) + 1, "place"), p2)
            ctx.probe("one of several inputs")
            if ctx.draw(2, "kinds-order"):
                files = dict(reversed(files.items()))
        else:
            cli = False

        def call():
            if iface == 0:
                return parse(path)
            if iface == 1:
                return parse(Path(path))
            if iface == 2:
                held.seek(0)
                return parse(held)
            if iface == 3:
                return parse_single(path)
            if iface == 4:
                if not cli:
                    return parse_all(output=fs.root + "/out.txt", out_format="print", **files)
                argv = ["castep_outputs", "-f", "print", "-o", fs.root + "/out.txt"]
                for typ, paths in files.items():
                    argv += [f"--{typ}", *paths]
                real, sys.argv = sys.argv, argv
                ctx.probe("command line")
                try:
                    return main()
                finally:
                    sys.argv = real
            return parse_single(Path(path), parse)

        kind = ctx.draw(8, "fault")
        sure = False
        stop = None
        with fs:
            if iface == 2:
                held = open(path, mode)  # noqa: SIM115
            if kind == 0 and iface != 2:
                plan.open_error = ctx.pick(OPEN_FAULTS, "open-fault")()
                what = f"open fails: {plan.open_error!r}"
                sure = True
                ctx.probe("open refused")
            elif kind == 2 and iface != 4:
                span = (30, 300, 3000, 20000)[ctx.draw(4, "interrupt-span")]
                stop = AsyncFault(ctx, 1 + ctx.draw(span, "interrupt-line"),
                                  (KeyboardInterrupt, MemoryError, SystemExit)[ctx.draw(3, "interrupt-kind")])
                what = f"{stop.exc.__name__} at line {stop.at} of the library"
            elif kind == 3 and ctx.draw(3, "seek-fault") == 2:
                label, plan.fail_with = ctx.pick(READ_FAULTS, "read-fault")
                plan.seek_fail = ctx.draw(6, "seeks") + (iface == 2)
                what = f"{label} at seek {plan.seek_fail}"
            elif kind == 1 and not inp.binary:
                at = ctx.draw(size, "bad-byte") if size else 0
                fs.put(name, inp.data[:at] + b"\xff" + inp.data[at + 1:])
                what = f"undecodable byte at {at}"
                ctx.fault("bad-byte", f"at {at}")
                ctx.probe("undecodable byte")
            else:
                label, plan.fail_with = ctx.pick(READ_FAULTS, "read-fault")
                where = ctx.draw(6, "fault-where")
                plan.fail_at = (0 if where == 4 else size if where == 5
                                else ctx.draw(size + 1, "fault-at"))
                plan.fail_times = 1 << 30 if ctx.draw(4, "persistent") == 3 else 1
                if plan.fail_times > 1:
                    ctx.probe("persistent fault")
                ctx.probe("fault at first byte" if plan.fail_at == 0 else
                          "fault at end of file" if plan.fail_at == size else "fault mid-file")
                what = f"{label} at byte {plan.fail_at} of {size}"
            ctx.op(f"{ifname} of {inp.fmt} ({inp.name}): {what}")
            exc = None
            got = None
            try:
                with stop or nullcontext():
                    got = call()
            except BaseException as e:  # noqa: BLE001
                exc = e
            fired = plan.fired > 0 or (stop is not None and stop.fired)
            if fired and stop is not None:
                ctx.probe("interrupted between statements")
            elif fired and plan.fail_at is None:
                ctx.probe("failed seek")
            if kind == 1 and not inp.binary:
                if exc is None and iface != 4:
                    require(canon(got) == base, "bad-byte-swallowed", f"{what}: result differs")
                elif exc is None:
                    pass
                else:
                    require(any(isinstance(e, (UnicodeDecodeError, ValueError)) for e in chain(exc)),
                            "wrong-error", f"{what}: {exc!r}")
            elif not fired:
                ctx.probe("fault never reached")
                require(exc is None, "spurious-error", f"{what}, never reached: {exc!r}")
                require(iface == 4 or canon(got) == base, "wrong-result", what)
            elif exc is None:
                # only acceptable if the failure was fully recovered from
                require(not sure and plan.fail_times == 1 and iface != 4 and canon(got) == base,
                        "fault-swallowed", f"{ifname}: {what}: returned {str(got)[:200]}")
            else:
                require(any(getattr(e, "errno", None) is not None
                            or isinstance(e, (KeyboardInterrupt, MemoryError, SystemExit))
                            for e in chain(exc)), "wrong-error",
                        f"{what}: reported as {exc!r}")
            if iface == 4:
                made = Path(fs.root, "out.txt")
                if exc is not None:
                    require(not made.exists() or made.stat().st_size == 0, "partial-output",
                            f"{what}: output was written")
                made.unlink(missing_ok=True)
            # faults stop: the same call gives everything
            plan.fail_at = plan.open_error = plan.seek_fail = None
            fs.put(name, inp.data)
            ctx.op("again, without faults")
            if iface == 2:
                ctx.probe("caller's handle re-read")
                require(not held.closed, "handle-closed", "caller's handle was closed")
            try:
                got = call()
            except Exception as e:  # noqa: BLE001
                require(False, "no-recovery", f"after {what}: retry failed: {e!r}")
            if iface == 4:
                text = Path(fs.root, "out.txt").read_text()
                require(bool(text.strip()), "no-recovery", f"after {what}: retry wrote nothing")
                if sum(map(len, files.values())) > 1:
                    for p2 in (q for ps in files.values() for q in ps):
                        require(repr(p2) in text, "no-recovery",
                                f"after {what}: retry does not report {fs.rel(p2)}")
            else:
                require(canon(got) == base, "no-recovery", f"after {what}: retry differs")
            if held:
                held.close()
        ctx.nontrivial = fired or kind == 1
        ctx.signature(inp.fmt, inp.name, size, iface, what, plan.chunks, plan.buffer)
        ctx.sim_time += fs.reads


CHECK = C06()
