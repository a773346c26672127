"""C01: reading a trajectory lazily gives frame i for i, whatever was read before."""
from __future__ import annotations

from pathlib import Path

from .. import common, models
from ..common import require
from ..core import Ctx, leq
from ..runner import Check
from ..simfs import Plan, SimFS


class Model:
    """Executable reference: a list and a next pointer."""

    def __init__(self, frames: list) -> None:
        self.frames = frames
        self.next: int | None = 0 if frames else None

    def get(self, i: int):
        n = len(self.frames)
        if not -n <= i < n:
            return IndexError
        i %= n
        self.next = i + 1 if i + 1 < n else None
        return self.frames[i]

    def read_next(self):
        if self.next is None:
            return StopIteration
        return self.get(self.next)


class C01(Check):
    ID = "C01"
    QUICK = 9000
    THOROUGH = 120000
    RULE = ("non-trivial: at least two frames and at least three accesses of which one is not "
            "sequential; distinct = workload shape + access history + delivery plan")
    MEASURE = "hash of (trajectory shape, sequence of accesses with arguments, raw read plan)"
    PROBES = ("DOS line ends", "no header", "frame edited by the caller", "negative index", "slice", "reverse slice", "out of range", "end reached",
              "two readers", "iterator jump", "file grew", "frames beyond one buffer")
    REAL = [*common.COMMON_REAL, "MDGeomParser (lazy trajectory reader)"]
    STUB = ["raw file reads (simulated disk: short reads, EINTR, growth)", "simulation job writer"]
    ASSUMPTIONS = ["frames of one file have equal length, as the job writes them"]

    def run(self, ctx: Ctx) -> None:
        from castep_outputs.tools.md_geom_parser import MDGeomParser

        doc = models.md(ctx, lo=1, hi=9, scale=True, dos=True)
        frames = doc.expected()
        n = len(frames)
        if b"\r\n" in doc.data():
            ctx.probe("DOS line ends")
        if not doc.header:
            ctx.probe("no header")
        fs = SimFS(ctx)
        path = fs.put("job." + doc.fmt, doc.data())
        plan = Plan(chunks=common.draw_chunks(ctx, 8 * len(doc.data())), buffer=(0, 64, 300, 8192)[ctx.draw(4, "buf")],
                    eintr=(0, 3, 7)[ctx.draw(3, "eintr")])
        fs.plans[path] = plan
        if len(doc.data()) > (plan.buffer or 8192):
            ctx.probe("frames beyond one buffer")
        readers = []
        iters: list = []
        jumps = 0

        def check(what: str, got, want) -> None:
            if isinstance(want, type) and issubclass(want, BaseException):
                require(isinstance(got, want), "wrong-frame", f"{what}: expected {want.__name__}, got "
                        f"{str(got)[:200]}")
            else:
                require(not isinstance(got, BaseException), "wrong-frame", f"{what}: raised {got!r}")
                require(leq(got, want), "wrong-frame",
                        lambda: f"{what}: {common.diff(want, got)}")
                if ctx.draw(6, "spoil") == 5:
                    # the frame is the caller's
                    common.spoil(got)
                    ctx.probe("frame edited by the caller")

        def attempt(fn):
            try:
                return fn()
            except (IndexError, StopIteration) as exc:
                return exc

        def expect_many(model: Model, idx: list[int]):
            out = []
            for i in idx:
                v = model.get(i)
                if v is IndexError:
                    return IndexError
                out.append(v)
            return out

        with fs:
            def new_reader():
                arg = path if ctx.draw(2, "path-kind") else Path(path)
                parser = MDGeomParser(arg)
                readers.append((parser, Model(frames)))
                ctx.op(f"open reader {len(readers) - 1}")
                require(len(parser) == n, "wrong-length", f"{len(parser)} frames of {n}")
                require(parser.comment.split() == doc.info["comment"].split(), "wrong-comment",
                        f"{parser.comment!r} of {doc.info['comment']!r}")

            new_reader()
            for _ in range(ctx.between(1, 24, "n-ops")):
                if len(readers) < 2 and ctx.chance(1, 10, "second-reader"):
                    new_reader()
                    ctx.probe("two readers")
                r = ctx.draw(len(readers), "reader")
                parser, model = readers[r]
                kind = ctx.draw(10, "op")
                require(parser.next_frame == model.next, "next-frame",
                        f"reader {r}: next frame reported {parser.next_frame}, is {model.next}")
                if kind in (0, 1):
                    what = f"{r}: read_next"
                    ctx.op(what)
                    want = model.read_next()
                    if want is StopIteration:
                        ctx.probe("end reached")
                    check(what, attempt(parser.read_next), want)
                elif kind in (2, 3, 4):
                    i = ctx.draw(2 * n + 4, "index") - n - 2
                    call = ctx.draw(2, "getter")
                    what = f"{r}: {'get_frame' if call else 'item'}({i})"
                    ctx.op(what)
                    if i < 0:
                        ctx.probe("negative index")
                    if not -n <= i < n:
                        ctx.probe("out of range")
                    if (i % n) != model.next:
                        jumps += 1
                    want = model.get(i)
                    check(what, attempt(lambda p=parser, i=i, c=call:
                                        p.get_frame(i) if c else p[i]), want)
                elif kind == 5:
                    def edge(label):
                        v = ctx.draw(2 * n + 4, label)
                        return None if v == 0 else v - n - 2
                    sl = slice(edge("start"), edge("stop"), (None, 1, 2, -1, -2)[ctx.draw(5, "step")])
                    what = f"{r}: {sl}"
                    ctx.op(what)
                    ctx.probe("slice")
                    if (sl.step or 1) < 0:
                        ctx.probe("reverse slice")
                    jumps += 1
                    check(what, attempt(lambda p=parser, s=sl: p[s]),
                          expect_many(model, list(range(n))[sl]))
                elif kind == 6:
                    idx = [ctx.draw(2 * n, "many-i") - n for _ in range(ctx.between(0, 4, "many-n"))]
                    form = ctx.draw(4, "many-form")
                    if ctx.draw(4, "many-out") == 3:
                        # one of them does not exist
                        ctx.probe("out of range")
                        bad = ctx.draw(4, "many-bad")
                        idx.insert(ctx.draw(len(idx) + 1, "many-at"), (n, -n - 1, n + 1, -n - 5)[bad])
                    if form == 3:
                        first = ctx.draw(n, "range-first")
                        last = first + ctx.between(-n, n + 1, "range-last")
                        step = (1, 2, -1)[ctx.draw(3, "range-step")]
                        arg = range(first, last, step)
                        idx = list(arg)
                    else:
                        arg = (idx, tuple(idx), (i for i in idx))[form]
                    what = f"{r}: frames {idx}"
                    ctx.op(what)
                    jumps += 1
                    check(what, attempt(lambda p=parser, a=arg: p[a]), expect_many(model, idx))
                elif kind == 7:
                    iters.append([iter(parser), 0, False, r])
                    ctx.op(f"{r}: iter #{len(iters) - 1}")
                elif kind == 8 and iters:
                    j = ctx.draw(len(iters), "iter")
                    it, pos, begun, r = iters[j]
                    model = readers[r][1]
                    if begun and ctx.chance(1, 3, "send"):
                        to = ctx.draw(n + 1, "send-to")
                        ctx.probe("iterator jump")
                        jumps += 1
                        what = f"{r}: iter #{j} jump to {to}"
                        ctx.op(what)
                        got = attempt(lambda it=it, to=to: it.send(to))
                        pos = to
                    else:
                        what = f"{r}: iter #{j} next"
                        ctx.op(what)
                        got = attempt(lambda it=it: next(it))
                    if pos >= n:
                        check(what, got, StopIteration)
                        iters.pop(j)
                    else:
                        check(what, got, model.get(pos))
                        iters[j] = [it, pos + 1, True, r]
                elif kind == 9:
                    if ctx.draw(2, "grow"):
                        fs.append("job." + doc.fmt,
                                  "".join(doc.records[ctx.draw(n, "grow-with")][0]).encode())
                        ctx.fault("file-grows")
                        ctx.probe("file grew")
                        # later readers see the longer file; only existing ones are tested further
                        while len(readers) < 2:
                            readers.append(readers[0])
                    else:
                        what = f"{r}: all"
                        ctx.op(what)
                        check(what, list(parser), expect_many(model, list(range(n))))
            ctx.signature(doc.fmt, n, plan.chunks, plan.buffer, tuple(ctx.trace[:60]))
            ctx.nontrivial = n > 1 and ctx.ops >= 3 and jumps > 0
        if ctx.draw(2, "eager"):
            with open(path.replace("job.", "copy."), "wb") as f:
                f.write(doc.data())
            from castep_outputs.parsers import PARSERS
            eager = PARSERS[doc.fmt](path.replace("job.", "copy."))
            check("eager", eager, frames)
            ctx.op("eager read")
        ctx.sim_time += fs.reads


CHECK = C01()
