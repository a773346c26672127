"""C04: the unformatted-record reader behaves as a cursor over the written records."""
from __future__ import annotations

import errno
import io
from itertools import islice

from .. import common
from ..common import require
from ..core import Ctx, leq
from ..models import Values, _d, _i, record
from ..runner import Check
from ..simfs import Plan, SimFS

KINDS = ("int", "ints", "float", "floats", "complexes", "str", "empty", "bytes")


def make_record(ctx: Ctx, vals: Values) -> tuple[bytes, object, object]:
    """(payload, type to ask for, value meant)."""
    kind = "big" if ctx.draw(60, "rec-big") == 59 else ctx.pick(KINDS, "rec-kind")
    if kind == "int":
        v = vals.integer(-2**31, 2**31 - 1)
        return _i(v), int, v
    if kind == "ints":
        v = tuple(vals.integer(-999, 999) for _ in range(ctx.draw(6, "n")))
        return _i(*v), (int, ...), v
    if kind == "float":
        v = float(vals.fixed(9))
        return _d(v), float, v
    if kind == "floats":
        v = tuple(float(vals.fixed(9)) for _ in range(ctx.draw(40, "n")))
        return _d(*v), (float, ...), v
    if kind == "complexes":
        v = tuple(complex(float(vals.fixed(5)), float(vals.fixed(5)))
                  for _ in range(ctx.draw(5, "n")))
        return b"".join(_d(c.real, c.imag) for c in v), (complex, ...), v
    if kind == "str":
        v = f"{vals.integer():<8d}"[:1 + ctx.draw(8, "n")]
        return v.encode(), str, v
    if kind == "empty":
        return b"", (float, ...), ()
    if kind == "big":
        # longer than buffers, pipes and 16-bit lengths
        n = (255, 4096, 65528, 65536, 65544, 131080, (1 << 20) + 24)[ctx.draw(7, "big")]
        if ctx.draw(2, "big-typed"):
            v = (float(vals.fixed(9)),) * (n // 8)
            return _d(*v), (float, ...), v
        return (record(b"abc") * (n // 11 + 1))[:n], None, None
    # bytes which look like record markers
    v = record(b"abc")[:1 + ctx.draw(11, "n")] * (1 + ctx.draw(30, "reps"))
    return v, None, None


class C04(Check):
    ID = "C04"
    QUICK = 44000
    THOROUGH = 400000
    RULE = ("non-trivial: at least three operations of which one moved backwards or skipped; "
            "distinct = record kinds + delivery + history of operations")
    MEASURE = "hash of (record kinds and sizes, delivery, operation history)"
    PROBES = ("read past the end", "rewound to the start", "rewound from the end", "skip to the end",
              "empty record", "short reads", "failed read then restart", "dict ran past the end",
              "abandoned an endless cycle", "cycles ran past the end",
              "record beyond 64 kB", "failed seek", "unbuffered file",
              "many records")
    REAL = ["FortranBinaryReader and byte conversion", "CPython buffered I/O"]
    STUB = ["raw file reads (simulated disk)", "Fortran writer"]
    ASSUMPTIONS = ["records are written with equal leading and trailing 4-byte big-endian lengths",
                   "skip/rewind stay within the file"]

    def run(self, ctx: Ctx) -> None:
        from castep_outputs.bin_parsers.fortran_bin_parser import FortranBinaryReader

        vals = Values(ctx)
        n_recs = ctx.between(1, 9, "n-records")
        if ctx.draw(40, "many") == 39:
            n_recs = ctx.between(60, 300, "n-records")
            ctx.probe("many records")
        recs = [make_record(ctx, vals) for _ in range(n_recs)]
        raw = b"".join(record(r[0]) for r in recs)
        size = len(recs)
        if any(not r[0] for r in recs):
            ctx.probe("empty record")
        if any(len(r[0]) > 65535 for r in recs):
            ctx.probe("record beyond 64 kB")
        fs = SimFS(ctx)
        delivery = ctx.draw(3, "delivery")
        chunks = common.draw_chunks(ctx, len(raw)) if delivery else ()
        if chunks:
            ctx.probe("short reads")
        plan = Plan(chunks=chunks, buffer=(0, 16, 64)[ctx.draw(3, "buf")],
                    eintr=(0, 3)[ctx.draw(2, "eintr")] if delivery == 1 else 0)
        path = fs.put("job.cst_esp", raw)
        fs.plans[path] = plan
        hist = []
        with fs:
            if delivery == 0:
                handle = io.BytesIO(raw)
            elif delivery == 1:
                handle = open(path, "rb")  # noqa: SIM115
            else:
                handle = open(path, "rb", buffering=0)  # noqa: SIM115
                ctx.probe("unbuffered file")
            reader = FortranBinaryReader(handle)
            cur = 0

            def past_end(call, what: str) -> None:
                nonlocal cur
                ctx.probe("read past the end")
                try:
                    got = call()
                except (StopIteration, RuntimeError, OSError, EOFError, ValueError):
                    cur = size
                else:
                    require(False, "invented-record", f"{what} past the last record gave {got!r}")

            for _ in range(ctx.between(3, 24, "n-ops")):
                op = ctx.draw(9, "op")
                typed = []
                for r in recs[cur:]:
                    if r[1] is None:
                        break
                    typed.append(r)
                if op in (0, 1):
                    ctx.op(f"next at {cur}")
                    if cur == size:
                        got = next(reader, None)
                        ctx.probe("read past the end")
                        require(got is None, "invented-record", f"record after the last: {got!r}")
                    else:
                        got = next(reader)
                        require(got == recs[cur][0], "wrong-record",
                                f"record {cur}: {got[:40]!r} instead of {recs[cur][0][:40]!r}")
                        cur += 1
                elif op in (2, 3):
                    n = ctx.draw(cur + 1, "rewind")
                    if cur == size and n:
                        ctx.probe("rewound from the end")
                    if n == cur and n:
                        ctx.probe("rewound to the start")
                    ctx.op(f"rewind {n} at {cur}")
                    if n == 1 and ctx.draw(2, "default"):
                        reader.rewind()
                    elif ctx.draw(2, "as-skip"):
                        reader.skip(-n)
                    else:
                        reader.rewind(n)
                    cur -= n
                elif op == 4:
                    n = ctx.draw(size - cur + 1, "skip")
                    ctx.op(f"skip {n} at {cur}")
                    reader.skip(n)
                    cur += n
                    if cur == size and n:
                        ctx.probe("skip to the end")
                elif op == 5 and typed:
                    ctx.op(f"get {typed[0][1]} at {cur}")
                    got = reader.get(typed[0][1])
                    require(leq(got, typed[0][2]), "wrong-value",
                            f"record {cur}: {got!r} instead of {typed[0][2]!r}")
                    cur += 1
                elif op == 6:
                    n = ctx.draw(len(typed) + 1, "n-dict")
                    keys = {f"k{i}": r[1] for i, r in enumerate(typed[:n])}
                    over = cur + n == size and ctx.draw(3, "overrun") == 2
                    ctx.op(f"dict of {n}{' and one more' if over else ''} at {cur}")
                    if over:
                        ctx.probe("dict ran past the end")
                        keys["extra"] = (float, ...)
                        past_end(lambda: reader.get_dtype_dict(keys), "get_dtype_dict")
                    else:
                        got = reader.get_dtype_dict(keys)
                        want = {f"k{i}": r[2] for i, r in enumerate(typed[:n])}
                        require(leq(got, want), "wrong-value", lambda: common.diff(want, got))
                        cur += n
                elif op == 7:
                    n = ctx.draw(len(typed) + 1, "n-iter")
                    ctx.op(f"iter of {n} at {cur}")
                    if cur + n == size and ctx.draw(3, "overrun") == 2:
                        past_end(lambda: list(reader.get_dtype_iter(
                            [*(r[1] for r in typed[:n]), (float, ...)])), "get_dtype_iter")
                    else:
                        got = list(reader.get_dtype_iter([r[1] for r in typed[:n]]))
                        require(leq(got, [r[2] for r in typed[:n]]), "wrong-value", f"{got!r}")
                        cur += n
                elif op == 8 and typed:
                    # cycles over however many equal-typed groups there are
                    n = ctx.between(1, min(3, len(typed)), "cycle-len")
                    types = [r[1] for r in typed[:n]]
                    reps = 1
                    while (reps + 1) * n <= len(typed) and [
                            r[1] for r in typed[reps * n:(reps + 1) * n]] == types:
                        reps += 1
                    reps = 1 + ctx.draw(reps, "reps")
                    endless = ctx.draw(2, "endless")
                    as_dict = ctx.draw(2, "cycle-dict")
                    dt = {f"k{i}": t for i, t in enumerate(types)} if as_dict else tuple(types)
                    ctx.op(f"{reps} cycles of {n} at {cur}")
                    if cur + n * reps == size and ctx.draw(3, "overrun") == 2:
                        # the last cycle finds no record, or too few
                        ctx.probe("cycles ran past the end")
                        begun = ctx.draw(n, "begun")
                        if begun:
                            reader.skip(n * reps - begun)
                            short = (*(r[1] for r in recs[size - begun:]), *types[:n - begun])
                            dt = {f"k{i}": t for i, t in enumerate(short)} if as_dict else short
                            reps = 0
                        past_end(lambda: list(reader.get_dtype_cycle(dt, n=reps + 1)),
                                 "get_dtype_cycle")
                        hist.append((op, cur))
                        continue
                    if endless:
                        ctx.probe("abandoned an endless cycle")
                        got = list(islice(reader.get_dtype_cycle(dt), reps))
                    else:
                        got = list(reader.get_dtype_cycle(dt, n=reps))
                    flat = [v for g in got for v in (g.values() if as_dict else g)]
                    require(len(got) == reps and leq(flat, [r[2] for r in typed[:n * reps]]),
                            "wrong-value", f"cycles at {cur}: {got!r}")
                    cur += n * reps
                hist.append((op, cur))
                if delivery and cur and ctx.chance(1, 16, "fail-move"):
                    # moving back fails: reported, and the records are still there
                    plan.seek_fail = ctx.draw(2 * cur, "seeks")
                    plan.fail_with = lambda: OSError(errno.EIO, "Input/output error")
                    was = plan.fired
                    n = ctx.between(1, cur, "rewind")
                    ctx.op(f"rewind {n} at {cur}, seek failing")
                    try:
                        reader.rewind(n)
                    except OSError:
                        require(plan.fired > was, "spurious-error", "rewind failed without a fault")
                        ctx.probe("failed seek")
                        plan.seek_fail = None
                        handle.seek(0)
                        reader = FortranBinaryReader(handle)
                        cur = 0
                    else:
                        require(plan.fired == was, "fault-swallowed", "failed seek was not reported")
                        plan.seek_fail = None
                        cur -= n
                if delivery and ctx.chance(1, 12, "fail"):
                    # the disk fails under one read; a reader at the start sees it all again
                    handle.seek(0)
                    plan.fail_at = ctx.draw(len(raw), "fail-at")
                    plan.fired = 0
                    plan.fail_with = lambda: OSError(errno.EIO, "Input/output error")
                    got = []
                    try:
                        for rec in FortranBinaryReader(handle):
                            got.append(rec)
                    except OSError:
                        pass
                    else:
                        require(plan.fired == 0, "fault-swallowed", "EIO was not reported")
                    plan.fail_at = None
                    want = [r[0] for r in recs]
                    require(got == want[:len(got)], "wrong-record", "before a failed read")
                    ctx.probe("failed read then restart")
                    handle.seek(0)
                    reader = FortranBinaryReader(handle)
                    cur = 0
            ctx.op(f"rest from {cur}")
            got = list(reader)
            require(got == [r[0] for r in recs[cur:]], "wrong-record",
                    f"remaining records from {cur}: {len(got)} of {size - cur}")
            handle.close()
        ctx.nontrivial = any(h[0] in (2, 3, 4) for h in hist)
        ctx.signature([(str(r[1]), len(r[0])) for r in recs], delivery, chunks, hist)
        ctx.sim_time += fs.reads


CHECK = C04()
