"""C03: the trajectory of a running or killed job yields only complete, exact frames."""
from __future__ import annotations


from .. import common, models
from ..common import require
from ..core import Ctx, leq
from ..runner import Check
from ..simfs import Plan, SimFS


class C03(Check):
    ID = "C03"
    QUICK = 12000
    THOROUGH = 160000
    RULE = ("non-trivial: the writer was stopped inside a frame, or the file grew while it was being "
            "read; distinct = trajectory shape + crash offsets + polls")
    MEASURE = "hash of (trajectory shape, crash/growth offsets, order of polls and accesses)"
    PROBES = ("torn inside a number", "torn at line end", "torn at frame end", "torn in header",
              "grew between opens", "grew during a read", "refused to open", "restarted job appended",
              "eager read of torn file")
    REAL = [*common.COMMON_REAL, "MDGeomParser and the eager .md/.geom parser"]
    STUB = ["raw file reads", "simulation job writer (crash at arbitrary byte)"]
    ASSUMPTIONS = ["frames of one file have equal length", "a crash keeps a prefix of what was written"]

    def run(self, ctx: Ctx) -> None:
        from castep_outputs.parsers import PARSERS
        from castep_outputs.tools.md_geom_parser import MDGeomParser

        doc = models.md(ctx, lo=2, hi=6, scale=True)
        frames = doc.expected()
        n = len(frames)
        data = doc.data()
        bounds = doc.boundaries()
        fs = SimFS(ctx)
        name = "job." + doc.fmt

        def cut_point() -> int:
            kind = ctx.draw(5, "cut-kind")
            if kind == 0:
                return len(data)
            f = ctx.draw(n, "cut-frame")
            lo, hi = bounds[f], bounds[f + 1]
            if kind == 1:
                return bounds[1 + f]
            if kind == 2:
                ends = [i + 1 for i in range(lo, hi) if data[i:i + 1] == b"\n"]
                ctx.probe("torn at line end")
                return ends[ctx.draw(len(ends), "cut-line")]
            if kind == 3 and ctx.draw(4, "cut-header") == 3:
                ctx.probe("torn in header")
                return ctx.draw(bounds[0] + 1, "cut-byte")
            ctx.probe("torn inside a number")
            return lo + ctx.draw(hi - lo, "cut-byte")

        # the writer's progress: increasing sizes, the last one possibly complete
        sizes = sorted(cut_point() for _ in range(ctx.between(1, 4, "n-stages")))
        path = fs.put(name, data[:sizes[0]])
        ctx.fault("writer-killed", f"at {sizes[0]} of {len(data)}")
        plan = Plan(chunks=common.draw_chunks(ctx, 4 * len(data)),
                    buffer=(0, 100, 700)[ctx.draw(3, "buf")])
        fs.plans[path] = plan
        have = sizes[0]

        def grow(to: int) -> None:
            nonlocal have
            if to > have:
                fs.append(name, data[have:to])
                have = to
                ctx.fault("file-grows", f"to {to}")

        def complete(size: int) -> int:
            return sum(b <= size for b in bounds[1:])

        def exact(got, i: int, what: str) -> None:
            require(leq(got, frames[i]), "wrong-frame",
                    lambda: f"{what}: {common.diff(frames[i], got)}")

        with fs:
            for stage, size in enumerate(sizes):
                if stage:
                    ctx.probe("grew between opens")
                    grow(size)
                if any(b == have for b in bounds):
                    ctx.probe("torn at frame end")
                # Growing under the header read would splice a torn line with its
                # own continuation: only a job already past its first frame grows
                # while it is being opened.
                during = (stage + 1 < len(sizes) and have >= bounds[1]
                          and ctx.draw(2, "grow-during-open"))
                if during:
                    def on_read(raw, pos, to=sizes[stage + 1]):
                        if ctx.draw(3, "grow-now") == 2:
                            grow(to)
                            ctx.probe("grew during a read")
                    plan.on_read = on_read
                low = complete(have)
                ctx.op(f"open at {have} bytes ({low} complete frames)")
                try:
                    parser = MDGeomParser(path)
                except Exception as exc:  # noqa: BLE001
                    plan.on_read = None
                    ctx.probe("refused to open")
                    ctx.log(f"refused: {type(exc).__name__}")
                    require(low < 2, "refused-complete",
                            f"{low} complete frames on disk yet opening failed: {exc!r}")
                    continue
                high = complete(have)
                m = len(parser)
                require(m <= high, "incomplete-counted", f"{m} frames reported, {high} complete")
                require(m >= low, "frames-lost", f"{m} frames reported, {low} complete at open")
                for _ in range(ctx.between(1, 5, "n-reads")):
                    if not m:
                        break
                    kind = ctx.draw(3, "op")
                    if kind == 0:
                        i = ctx.draw(2 * m, "index") - m
                        ctx.op(f"frame {i}")
                        exact(parser[i], i % m, f"frame {i} of {m}")
                    elif kind == 1:
                        i = parser.next_frame
                        ctx.op(f"read_next ({i})")
                        try:
                            got = parser.read_next()
                        except StopIteration:
                            require(i is None, "wrong-frame", "stopped early")
                        else:
                            require(i is not None, "wrong-frame", "read past the last frame")
                            exact(got, i, "read_next")
                    else:
                        ctx.op("all")
                        got = list(parser)
                        require(len(got) == m, "frames-lost", f"{len(got)} of {m}")
                        for i, g in enumerate(got):
                            exact(g, i, f"iterated frame {i}")
                plan.on_read = None
                if ctx.draw(2, "eager"):
                    ctx.probe("eager read of torn file")
                    low = complete(have)
                    ctx.op(f"eager read at {have} bytes")
                    try:
                        got = PARSERS[doc.fmt](path)
                    except Exception as exc:  # noqa: BLE001
                        ctx.log(f"refused: {type(exc).__name__}")
                        require(low * (have == bounds[low]) == 0, "refused-complete",
                                f"{low} complete frames on disk, nothing torn, yet: {exc!r}")
                    else:
                        require(low <= len(got) <= low + 1, "incomplete-counted",
                                f"eager reader gives {len(got)} frames, {low} complete")
                        for i in range(low):
                            exact(got[i], i, f"eager frame {i}")
            if ctx.draw(3, "restart") == 2 and complete(have) >= 1:
                # the restarted job rewinds to the last complete frame and goes on
                k = complete(have)
                fs.put(name, data[:bounds[k]])
                have = bounds[k]
                ctx.fault("writer-restarted", f"at frame {k}")
                grow(len(data))
                ctx.probe("restarted job appended")
                got = list(MDGeomParser(path))
                require(leq(got, frames), "wrong-frame",
                        lambda: "after restart: " + common.diff(frames, got))
        ctx.nontrivial = any(s not in bounds for s in sizes) or len(set(sizes)) > 1
        ctx.signature(doc.fmt, n, tuple(sizes), plan.buffer, tuple(ctx.trace[:40]))
        ctx.sim_time += fs.reads


CHECK = C03()
