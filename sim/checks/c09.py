"""C09: concurrent callers get the results they would get alone."""
from __future__ import annotations

import errno
import io

from .. import common, corpus
from ..common import require
from ..core import Ctx, canon
from ..models import md
from ..runner import Check
from ..sched import Scheduler
from ..simfs import Plan, SimFS


class C09(Check):
    ID = "C09"
    QUICK = 4800
    THOROUGH = 100000
    RULE = ("non-trivial: at least two tasks and three preemptions inside library code; distinct = "
            "tasks' work + sequence of (task, event count) at each switch")
    MEASURE = "hash of (inputs, per-task calls, switch points in library-line/IO events)"
    PROBES = ("same file in two tasks", "two formats", "castep logs", "two lazy readers on one file",
              "one task's read fails", "three tasks", "input files", "dumps", "binary formats",
              "lazy against eager", "same format")
    REAL = [*common.COMMON_REAL, "every parser, parse_single, parse_all, MDGeomParser"]
    STUB = ["thread scheduling (simulated, line and I/O granularity inside the library)",
            "raw file reads (simulated disk)", "locks created by the library"]
    ASSUMPTIONS = ["callers do not share one open handle or one lazy reader",
                   "preemption at line boundaries of library code and at raw I/O"]

    def run(self, ctx: Ctx) -> None:
        from castep_outputs import MDGeomParser, parse_single
        from castep_outputs.cli.castep_outputs_main import parse_all

        fs = SimFS(ctx)
        ntasks = 2 + (ctx.draw(4, "n-tasks") == 3)
        if ntasks == 3:
            ctx.probe("three tasks")
        traj = md(ctx, "md", lo=2, hi=3, max_atoms=2)
        frames = traj.expected()
        traj_path = fs.put("traj.md", traj.data())

        def task(n: int, prev):
            kind = ctx.draw(8, "work")
            if kind == 7:
                order = [ctx.draw(len(frames), "frame") for _ in range(ctx.between(1, 3, "reads"))]

                def lazy():
                    p = MDGeomParser(traj_path)
                    return [p[i] for i in order]
                return "lazy", traj_path, None, [lazy]
            if prev is not None and prev[2] is not None and ctx.draw(2, "share"):
                inp, path = prev[2], prev[1]
                if ctx.draw(2, "same-bytes") and path:
                    ctx.probe("same file in two tasks")
                else:
                    # same format, other data: cross-talk is visible
                    inp = small(ctx, [inp.fmt])
                    path = fs.put(f"t{n}.{inp.fmt}", inp.data)
                    ctx.probe("same format")
            else:
                inp = small(ctx)
                path = fs.put(f"t{n}.{inp.fmt}", inp.data)
            parse = corpus.parser(inp.fmt)
            calls = []
            for _ in range(ctx.between(1, 2, "calls")):
                how = ctx.draw(4, "how")
                if how == 0:
                    calls.append(lambda: parse(path))
                elif how == 1:
                    calls.append(lambda: parse_single(path, out_format="json"))
                elif how == 2:
                    calls.append(lambda: parse(inp.stream()))
                else:
                    def dump():
                        out = io.StringIO()
                        parse_all(output=out, out_format="print", **{inp.fmt: [path]})
                        return out.getvalue()
                    calls.append(dump)
                    ctx.probe("dumps")
            return inp.fmt, path, inp, calls

        tasks = []
        for n in range(ntasks):
            tasks.append(task(n, tasks[-1] if tasks else None))
        kinds = [t[0] for t in tasks]
        if len(set(kinds)) > 1:
            ctx.probe("two formats")
        if kinds.count("castep") > 1:
            ctx.probe("castep logs")
        if kinds.count("lazy") > 1:
            ctx.probe("two lazy readers on one file")
        if "lazy" in kinds and ({"md", "geom"} & set(kinds)):
            ctx.probe("lazy against eager")
        if {"cell", "param"} & set(kinds):
            ctx.probe("input files")
        if {"cst_esp", "epme_bin"} & set(kinds):
            ctx.probe("binary formats")
        alone = [common.pristine(lambda t=t: [common.portable(common.outcome(c)) for c in t[3]])
                 for t in tasks]
        bad = None
        if ctx.draw(4, "failing") == 3:
            bad = ctx.draw(ntasks, "failing-task")
            size = len(fs.get(fs.rel(tasks[bad][1])))
            own = fs.put("failing." + tasks[bad][1].rsplit(".", 1)[1], fs.get(fs.rel(tasks[bad][1])))
            fs.plans[own] = Plan(fail_at=ctx.draw(size + 1, "fail-at"), fail_times=1 << 30,
                                 fail_with=lambda: OSError(errno.EIO, "Input/output error"))
            fmt = own.rsplit(".", 1)[1]
            tasks[bad] = (tasks[bad][0], own, None, [lambda: corpus.parser(fmt)(own)])
            ctx.probe("one task's read fails")
        sched = Scheduler(ctx, (40, 400, 3000)[ctx.draw(3, "gap-scale")], 150)

        def body(calls):
            return lambda: [common.outcome(c) for c in calls]

        for n, t in enumerate(tasks):
            ctx.op(f"task {n}: {len(t[3])} calls on {t[0]} {fs.rel(t[1])}")
            sched.spawn(str(n), body(t[3]))
        fs.on_event = lambda _kind: sched.tick() if sched.current is not None else None
        with fs:
            sched.run()
            fs.on_event = None
        ctx.fault("preemption", f"{sched.switches} switches")
        ctx.faults["preemption"] += max(0, sched.switches - 1)
        for n, t in enumerate(tasks):
            task = sched.tasks[n]
            if task["exc"] is not None:
                raise task["exc"]
            if n == bad:
                continue
            for k, (out, want) in enumerate(zip(task["result"], alone[n])):
                require(common.same(out, want), "concurrent-crosstalk",
                        lambda n=n, k=k, t=t, out=out, want=want:
                        f"task {n} ({t[0]}) call {k} differs from running alone: "
                        f"{common.describe(out)}, alone {want[0]} "
                        f"{want[1] if want[0] == 'err' else str(want[2])[:300]}")
                if t[0] == "lazy":
                    require(out[0] == "ok", "concurrent-crosstalk", "lazy read failed")
                if out[0] == "ok":
                    require(canon(out[1]) == out[2], "concurrent-crosstalk",
                            f"result of task {n} changed after it was returned")
        ctx.nontrivial = sched.switches >= 3
        ctx.signature(kinds, [(fs.rel(t[1])) for t in tasks], sched.order[:200], sched.events,
                      sched.switches)


def small(ctx: Ctx, formats=None):
    """An input which traces quickly."""
    for _ in range(6):
        inp = corpus.pick(ctx, formats, big=False)
        if len(inp.data) < 4000:
            return inp
    return inp


CHECK = C09()
