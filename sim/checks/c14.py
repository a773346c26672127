"""C14: restarts appended to one log are reported as separate runs, each with its own data."""
from __future__ import annotations

from .. import common, corpus
from ..castep_model import castep, merge
from ..common import require
from ..core import Ctx, canon, leq
from ..runner import Check
from ..simfs import Plan, SimFS
from .c13 import keeps

def alike(a, b) -> bool:
    """The same run to any caller."""
    return canon(a, order=False) == canon(b, order=False)



SWALLOWED = "torn-block-swallows-restart"


class C14(Check):
    ID = "C14"
    QUICK = 1300
    THOROUGH = 60000
    RULE = ("non-trivial: at least two runs in the log; distinct = run shapes + where each was killed "
            "+ delivery")
    MEASURE = "hash of (runs, kill points, delivery)"
    PROBES = ("finished runs", "killed between events", "killed inside an event", "killed inside a line",
              "three runs", "recorded log", "stitched sections", "read between restarts", "refused",
              "killed in the header", "full detail", "reduced detail", "earlier run intact after restart")
    REAL = [*common.COMMON_REAL, "the .castep parser"]
    STUB = ["CASTEP jobs (killed at an arbitrary point, restarted appending to the same log)",
            "raw file reads (simulated disk)"]
    ASSUMPTIONS = ["a restarted job appends its output, beginning with its own header"]

    def run(self, ctx: Ctx) -> None:
        from castep_outputs.parsers.castep_file_parser import Filters, parse_castep_file

        fs = SimFS(ctx)
        detail = ctx.draw(6, "detail")
        full = detail in (3, 4)
        filters = Filters.FULL if full else Filters.HIGH
        if full:
            ctx.probe("full detail")
        elif detail == 5:
            ctx.probe("reduced detail")
            kinds = list(Filters.__members__.values())
            for _ in range(ctx.between(1, 4, "n-kinds")):
                kind = kinds[ctx.draw(len(kinds), "kind")]
                filters = kind if filters is Filters.HIGH else filters | kind

        def parse(path):
            return corpus.parser("castep")(path) if detail == 0 else parse_castep_file(path, filters)

        def alone(data):
            """The runs of one job's log on its own."""
            return common.outcome(lambda: parse(fs.put("own.castep", data)))

        c = corpus.load()
        header = next(s["text"] for s in c["castep_sections"]
                      if s["name"] == "test_get_build_version") + "\n"
        text = b""
        want: list = []      # what the whole log means, run by run
        shape = []
        nrun = 2 + (ctx.draw(3, "n-runs") == 2)
        if nrun == 3:
            ctx.probe("three runs")
        swallowed = False    # a kill inside an event precedes a restart
        vague: dict[int, tuple] = {}  # runs which only have bounds
        plan = Plan()
        path = fs.put("job.castep", b"")
        fs.plans[path] = plan
        for r in range(nrun):
            source = ctx.draw(6, "source")
            final = r == nrun - 1
            if source == 5:
                # recorded: alone it must parse, and mean the same inside the log
                if ctx.draw(2, "recorded"):
                    name, data = c["samples"]["castep"][ctx.draw(len(c["samples"]["castep"]), "sample")]
                    ctx.probe("recorded log")
                else:
                    body, name = corpus.castep_text(ctx, hi=3)
                    data = (header + body).encode()
                    ctx.probe("stitched sections")
                out = alone(data)
                if out[0] == "err":
                    continue
                if not data.endswith(b"\n\n"):
                    data += b"\n"
                want += out[1]
                text += data
                shape.append((name, len(data)))
                ctx.op(f"run {r}: recorded {name}")
                ctx.probe("finished runs")
                continue
            doc = castep(ctx, hi=1)
            data = doc.data()
            bounds = doc.boundaries()
            n = len(doc.records)
            soft = doc.info["soft"]
            kill = 0 if final else ctx.draw(4 if detail < 5 else 2, "kill")
            payloads = [p for _, p in doc.records]
            def settled(k: int, cut: int) -> None:
                """The job wrote k whole events: what does its log say?"""
                out = alone(data[:cut])
                require(out[0] == "ok", "run-refused", lambda: f"run {r} alone, {k} events: {out[1]!r}")
                if detail < 5:
                    mean = merge(payloads[:k], scf=full)
                    require(leq(out[1], mean), "run-misread",
                            lambda: f"run {r} alone, {k} events: {common.diff(mean, out[1])}")
                want.extend(out[1])

            if kill == 0:
                ctx.probe("finished runs")
                cut, k = len(data), n
                settled(n, cut)
            else:
                k = 1 + ctx.draw(n, "kill-after")
                if detail == 5 and k in soft:
                    k = n
                cut = bounds[k]
                inside = k < n and kill >= 2
                if inside:
                    lines = [i + 1 for i in range(cut, bounds[k + 1] - 1) if data[i:i + 1] == b"\n"]
                    if kill == 2 and lines:
                        cut = lines[ctx.draw(len(lines), "kill-line")]
                        ctx.probe("killed inside an event")
                    else:
                        cut += 1 + ctx.draw(bounds[k + 1] - cut - 1, "kill-byte")
                        ctx.probe("killed inside a line")
                elif ctx.draw(10, "kill-in-header") == 9:
                    k = 0
                    cut = 1 + ctx.draw(bounds[1] - 1, "kill-byte")
                    ctx.probe("killed in the header")
                else:
                    ctx.probe("killed between events")
                ctx.fault("job-killed", f"run {r} after {k} of {n} events, byte {cut} of {len(data)}")
                if cut in bounds and k and k not in soft:
                    settled(k, cut)
                elif k == 0:
                    swallowed = True
                    vague[len(want)] = ({}, {})
                    want.append(None)
                else:
                    swallowed = True
                    vague[len(want)] = (merge(payloads[:k], scf=full)[0],
                                        merge(payloads[:k + 1], scf=full)[0])
                    want.append(None)
            text += data[:cut]
            shape.append(("job", n, k, cut))
            ctx.op(f"run {r}: {k} of {n} events")
            if not final and ctx.draw(3, "read-between") == 2:
                fs.put("job.castep", text)
                ctx.probe("read between restarts")
                out = common.outcome(lambda: parse(path))
                if not swallowed and not vague:
                    require(out[0] == "ok" and leq(out[1], want), "runs-mixed",
                            lambda out=out: f"log so far: {common.describe(out)}")
        if len(shape) < 2:
            ctx.log("nothing to restart")
            return
        fs.put("job.castep", text)
        plan.chunks = common.draw_chunks(ctx, 4 * len(text))
        with fs:
            out = common.outcome(lambda: parse(path))
        if not swallowed:
            require(out[0] == "ok", "restart-refused", lambda: f"{shape}: {out[1]!r}")
            require(len(out[1]) == len(want), "runs-lost",
                    lambda: f"{len(out[1])} runs reported, {len(want)} in the log: {shape}")
            for i, (g, w) in enumerate(zip(out[1], want)):
                require(alike(g, w), "runs-mixed",
                        lambda i=i, g=g, w=w: f"run {i} of {shape}: {common.diff(w, g, loose_seq=False)}")
                ctx.probe("earlier run intact after restart")
        elif out[0] == "err":
            ctx.probe("refused")
        else:
            got = out[1]
            # a run killed in its header may be no run at all
            trial = [w for i, w in enumerate(want) if not (i in vague and vague[i] == ({}, {}))]
            if len(got) == len(want) or (len(got) == len(trial) and leq(got, trial)):
                ref = want if len(got) == len(want) else trial
                for i, (g, w) in enumerate(zip(got, ref)):
                    if w is None:
                        lo, hi = vague[i]
                        require(keeps(g, lo, hi), "runs-mixed",
                                lambda i=i, g=g, lo=lo: f"killed run {i} of {shape}: {common.diff(lo, g)}")
                    else:
                        require(leq(g, w), "runs-mixed",
                                lambda i=i, g=g, w=w: f"run {i} of {shape}: {common.diff(w, g)}")
                        ctx.probe("earlier run intact after restart")
            else:
                first = min(vague)
                # nothing before the torn block can be taken in by it
                require(first <= len(got) < len(want), "runs-lost",
                        f"{len(got)} runs reported, {len(want)} in the log: {shape}")
                for i, (g, w) in enumerate(zip(got[:first], want)):
                    require(leq(g, w), "runs-mixed", lambda i=i, g=g, w=w:
                            f"run {i} of {shape}: {common.diff(w, g)}")
                require(SWALLOWED in self.findings, "runs-mixed",
                        f"{len(got)} runs reported, {len(want)} in the log: a block of the killed run "
                        f"took in the header of the next: {shape}")
                ctx.known.append(SWALLOWED)
        ctx.nontrivial = len(want) >= 2
        ctx.signature(shape, plan.chunks, full)
        ctx.sim_time += fs.reads


CHECK = C14()
