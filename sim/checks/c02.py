"""C02: a failed or interrupted read never makes later trajectory reads wrong."""
from __future__ import annotations

import errno
from contextlib import nullcontext

from .. import common, models
from ..common import require
from ..core import Ctx, leq
from ..runner import Check
from ..sched import AsyncFault
from ..simfs import Plan, SimFS

FAULTS = (
    lambda: OSError(errno.EIO, "Input/output error"),
    lambda: OSError(errno.ESTALE, "Stale file handle"),
    lambda: TimeoutError(errno.ETIMEDOUT, "Connection timed out"),
    lambda: KeyboardInterrupt("signal during read"),
    lambda: MemoryError("no buffer"),
)


#: raised between two statements of the library
ASYNC = (KeyboardInterrupt, MemoryError, TimeoutError)


class C02(Check):
    ID = "C02"
    QUICK = 10000
    THOROUGH = 160000
    RULE = ("non-trivial: an injected fault fired inside an access and at least one later access "
            "succeeded; distinct = trajectory shape + access history + fault kinds and offsets")
    MEASURE = "hash of (trajectory shape, accesses, fault kind and byte offset of each fault)"
    PROBES = ("DOS line ends", "frame edited by the caller", "fault in sequential read", "fault in random access", "fault in slice",
              "fault while opening", "failed seek",
              "interrupted between statements", "two faults", "fault while iterating", "fault in index list", "read_next right after fault",
              "retry of same frame after fault")
    REAL = [*common.COMMON_REAL, "MDGeomParser (lazy trajectory reader)"]
    STUB = ["raw file reads (simulated disk: EIO, ESTALE, ETIMEDOUT, signals, short reads; "
            "failing seeks); exceptions raised between two lines of the library",
            "simulation job writer"]
    ASSUMPTIONS = ["frames of one file have equal length, as the job writes them",
                   "interruptions arrive at a line boundary of the library or at a disk operation"]

    def run(self, ctx: Ctx) -> None:
        from castep_outputs.tools.md_geom_parser import MDGeomParser

        doc = models.md(ctx, lo=2, hi=8, scale=True, dos=True)
        frames = doc.expected()
        n = len(frames)
        if b"\r\n" in doc.data():
            ctx.probe("DOS line ends")
        fs = SimFS(ctx)
        data = doc.data()
        path = fs.put("job." + doc.fmt, data)
        # buffers smaller than a frame keep the fault inside the access that needs it
        plan = Plan(chunks=common.draw_chunks(ctx, 4 * len(data)),
                    buffer=(64, 200, 512, 2048)[ctx.draw(4, "buf")],
                    eintr=(0, 0, 5)[ctx.draw(3, "eintr")])
        fs.plans[path] = plan
        bounds = doc.boundaries()
        fired = 0
        good_after = 0
        it = None  # an iteration under way: (iterator, number of the next frame)
        stop = None  # interruption between two statements, armed for the next access

        def arm(lo: int, hi: int) -> None:
            nonlocal stop
            if ctx.draw(5, "interrupt") == 4:
                span = (12, 60, 400, 2500)[ctx.draw(4, "interrupt-span")]
                stop = AsyncFault(ctx, 1 + ctx.draw(span, "interrupt-line"), ctx.pick(ASYNC, "interrupt-kind"))
                return
            if ctx.draw(5, "seek-fault") == 4:
                plan.seek_fail = ctx.draw(3, "seeks")
                plan.fail_with = FAULTS[ctx.draw(len(FAULTS), "fault-kind")]
                plan.fired = 0
                return
            plan.fail_at = ctx.between(lo, max(lo, hi - 1), "fault-offset")
            plan.fail_with = FAULTS[ctx.draw(len(FAULTS), "fault-kind")]
            plan.fired = 0
            plan.fail_times = 1 + (ctx.draw(6, "fault-times") == 5)

        with fs:
            if ctx.chance(1, 6, "fault-open"):
                arm(0, bounds[min(1, n)])
            try:
                parser = MDGeomParser(path)
            except (Exception, KeyboardInterrupt) as exc:  # noqa: BLE001
                require(plan.fired > 0, "spurious-error", f"constructor: {exc!r}")
                ctx.probe("fault while opening")
                ctx.op(f"open failed: {type(exc).__name__}")
                fired += 1
                plan.fail_at = plan.seek_fail = None
                parser = MDGeomParser(path)
            plan.fail_at = plan.seek_fail = None
            require(len(parser) == n, "wrong-length", f"{len(parser)} frames of {n}")
            just_failed = None
            for _ in range(ctx.between(2, 14, "n-ops")):
                armed = ctx.chance(2, 5, "arm")
                stop = None
                if armed:
                    f = ctx.draw(n, "fault-frame")
                    arm(bounds[f], bounds[f + 1])
                else:
                    plan.fail_at = plan.seek_fail = None
                before = plan.fired if armed else 0

                def hit(armed=armed, before=before):
                    return armed and (plan.fired > before or (stop is not None and stop.fired))

                kind = ctx.draw(7, "op")
                nxt = parser.next_frame
                if kind >= 5:
                    # iterating: every frame, or the failure; never an early end
                    if it is None or kind == 6:
                        it = [iter(parser), 0]
                    steps = ctx.between(1, n, "steps")
                    ctx.op(f"iterate {steps} from {it[1]}")
                    ctx.probe("fault while iterating")
                    nxt = None
                    for _ in range(steps):
                        i = it[1]
                        try:
                            with stop or nullcontext():
                                g = next(it[0])
                        except StopIteration:
                            require(i >= n, "ends-early", f"iteration over {n} frames ended at {i}; "
                                    f"fault {'fired' if hit() else 'not fired'}")
                            it = None
                            break
                        except (Exception, KeyboardInterrupt) as exc:  # noqa: BLE001
                            require(hit(), "spurious-error",
                                    f"iteration at {i} failed without a fault: {exc!r}")
                            fired += 1
                            it = None
                            just_failed = [i]
                            break
                        require(i < n and leq(g, frames[i]), "wrong-frame",
                                lambda i=i, g=g: f"iteration: not frame {i}: "
                                + (common.diff(frames[i], g) if i < n else "past the end"))
                        it[1] += 1
                    plan.fail_at = plan.seek_fail = None
                    continue
                if kind == 0:
                    idx = [nxt] if nxt is not None else []
                    what, call = f"read_next (frame {nxt})", lambda: [parser.read_next()]
                elif kind in (1, 2):
                    i = ctx.draw(2 * n, "index") - n
                    idx = [i % n]
                    what, call = f"frame {i}", lambda i=i: [parser[i]]
                elif kind == 4:
                    idx = [ctx.draw(n, "i") for _ in range(ctx.between(1, 4, "n-idx"))]
                    what, call = f"frames {idx}", lambda x=tuple(idx): parser[list(x)]
                else:
                    sl = slice(ctx.draw(n, "a"), None, (1, 2, -1)[ctx.draw(3, "step")])
                    idx = list(range(n))[sl]
                    what, call = f"{sl}", lambda s=sl: parser[s]
                ctx.op(what)
                try:
                    with stop or nullcontext():
                        got = call()
                except StopIteration:
                    require(not idx, "ends-early", f"{what}: reported as the end of the file; "
                            f"fault {'fired' if hit() else 'not fired'}")
                    continue
                except (Exception, KeyboardInterrupt) as exc:  # noqa: BLE001
                    require(hit(), "spurious-error",
                            f"{what} failed without a fault: {exc!r}")
                    got = None
                if got is None:
                    fired += 1
                    if stop is not None:
                        ctx.probe("interrupted between statements")
                    elif plan.fail_at is None:
                        ctx.probe("failed seek")
                    ctx.probe(("fault in sequential read", "fault in random access",
                               "fault in random access", "fault in slice", "fault in index list")[kind])
                    if fired == 2:
                        ctx.probe("two faults")
                    plan.fail_at = plan.seek_fail = None
                    now = parser.next_frame
                    # frames before the one that failed have been read; one interrupted
                    # just after the read itself may have been too
                    past = {i + 1 if i + 1 < n else None for i in (idx if stop else idx[:-1])}
                    require(now in {nxt, *idx, *past}, "next-frame",
                            f"after failed {what}: next frame {now} is neither {nxt} nor in {idx}")
                    just_failed = idx
                    continue
                require(bool(idx) or kind == 3, "wrong-frame", f"{what}: frame after the end")
                if just_failed is not None:
                    if kind == 0:
                        ctx.probe("read_next right after fault")
                    elif idx == just_failed:
                        ctx.probe("retry of same frame after fault")
                    good_after += 1
                just_failed = None
                require(len(got) == len(idx), "wrong-frame", f"{what}: {len(got)} frames")
                for i, g in zip(idx, got):
                    require(leq(g, frames[i]), "wrong-frame",
                            lambda i=i, g=g: f"{what}: not frame {i}: {common.diff(frames[i], g)}")
                if ctx.draw(6, "spoil") == 5:
                    common.spoil(got)
                    ctx.probe("frame edited by the caller")
                if idx:
                    want = idx[-1] + 1 if idx[-1] + 1 < n else None
                    require(parser.next_frame == want, "next-frame",
                            f"after {what}: next frame {parser.next_frame}, should be {want}")
            # faults have stopped: every frame is readable
            plan.fail_at = plan.seek_fail = None
            ctx.op("all, after faults stopped")
            got = list(parser)
            require(leq(got, frames), "wrong-frame", lambda: "final pass: " + common.diff(frames, got))
        ctx.nontrivial = fired > 0
        ctx.signature(doc.fmt, n, plan.buffer, tuple(ctx.trace[:60]))
        ctx.sim_time += fs.reads


CHECK = C02()
