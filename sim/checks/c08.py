"""C08: calls do not influence each other, whatever was parsed, failed or edited before."""
from __future__ import annotations

import errno
import io
from contextlib import nullcontext
from copy import deepcopy
from pathlib import Path

from .. import common, corpus
from ..common import require
from ..core import Ctx, canon
from ..models import md
from ..runner import Check
from ..settings import settings
from ..sched import AsyncFault
from ..simfs import Plan, SimFS


PARAMS = (
    b"task : singlepoint\nwrite_formatted_density : true\n",
    b"task : moleculardynamics\nxc_functional : rscan\nmd_num_iter : 10\nwrite_none : true\n",
    b"task : spectral\nspectral_task : all\nspin_polarised : true\nphonon_method : dfpt\n"
    b"xc_functional : hse06\nwrite_checkpoint : minimal\npdos_calculate_weights : true\n",
)


class C08(Check):
    ID = "C08"
    QUICK = 4500
    THOROUGH = 80000
    RULE = ("non-trivial: at least two calls, one repeating an earlier input or interface; distinct "
            "= inputs + sequence of calls, faults and edits")
    MEASURE = "hash of (inputs, order of calls, injected failures, edits of earlier results)"
    PROBES = ("repeat of an earlier input", "after a failed call", "after edited results",
              "after an interrupted read", "after an interruption between statements", "other format in between", "lazy reader in between",
              "dump in between", "file prediction in between",
              "prediction from data", "different filter in between",
              "earlier result still intact", "failing input fails again the same way")
    REAL = [*common.COMMON_REAL, "every parser, parse_single, parse_all, MDGeomParser, "
            "get_generated_files"]
    STUB = ["raw file reads (simulated disk: EIO, signals); exceptions raised between two "
            "lines of the library", "log sink"]
    ASSUMPTIONS = ["the reference is the same call alone in a forked copy of the fresh process"]

    def run(self, ctx: Ctx) -> None:
        from castep_outputs import MDGeomParser, parse_single
        from castep_outputs.cli.castep_outputs_main import parse_all
        from castep_outputs.parsers import PARSERS
        from castep_outputs.parsers.castep_file_parser import Filters, parse_castep_file
        from castep_outputs.tools import get_generated_files

        fs = SimFS(ctx)
        inputs = []
        echo = int(ctx.draw(3, "echo") > 0)  # mostly one input, again and again
        for i in range(ctx.between(1, 3, "n-inputs")):
            if echo:
                inp = corpus.unit(ctx)
            elif inputs and ctx.draw(3, "same-format"):
                inp = corpus.pick(ctx, [inputs[-1].fmt], big=False)
            else:
                inp = corpus.pick(ctx, big=False)
            inputs.append(inp)
            fs.put(f"in{i}.{inp.fmt}", inp.data)
            torn = inp.data[:ctx.draw(len(inp.data) + 1, "torn-at")]
            fs.put(f"torn{i}.{inp.fmt}", torn)
        traj = md(ctx, "md", lo=2, hi=4)
        fs.put("traj.md", traj.data())
        for k, text in enumerate(PARAMS):
            fs.put(f"gen{k}.param", text)
        gens = [settings(ctx), settings(ctx)]
        fs.put("gen.cell", b"%block lattice_abc\n3 3 3\n90 90 90\n%endblock lattice_abc\n"
               b"%block positions_frac\nSi 0 0 0\n%endblock positions_frac\n")

        def make(op: int, i: int, arg: int):
            inp = inputs[i]
            path = f"{fs.root}/in{i}.{inp.fmt}"
            if op == 0:
                return f"parse {i}", lambda: corpus.parser(inp.fmt)(path)
            if op == 1:
                return f"parse_single {i}", lambda: parse_single(path, out_format="json")
            if op == 2:
                def dump():
                    out = io.StringIO()
                    parse_all(output=out, out_format=("json", "print", "pprint")[arg],
                              **{inp.fmt: [path]})
                    return out.getvalue()
                return f"dump {i} {arg}", dump
            if op == 3:
                return f"parse torn {i}", lambda: corpus.parser(inp.fmt)(
                    f"{fs.root}/torn{i}.{inp.fmt}")
            if op == 4:
                def lazy():
                    p = MDGeomParser(fs.root + "/traj.md")
                    return [p[arg % len(p)], p.read_next() if p.next_frame is not None else None]
                return f"lazy {arg}", lazy
            if op == 5:
                return f"predict {arg}", lambda: get_generated_files(
                    "job", cell_file=Path(fs.root, "gen.cell"),
                    param_file=Path(fs.root, f"gen{arg}.param"))
            if op == 8:
                def predict():
                    if arg:
                        cell, param = deepcopy(gens[arg - 1])
                    else:
                        cell = PARSERS["cell"](fs.root + "/gen.cell")[0]
                        param = PARSERS["param"](fs.root + "/gen1.param")[0]
                    before = canon([cell, param])
                    out, again = (common.outcome(lambda: get_generated_files(
                        "job", cell_data=cell, param_data=param)) for _ in range(2))
                    if canon([cell, param]) != before or not common.same(out, again):
                        return "the caller's settings were edited"
                    return out[:2]
                return f"predict from data {arg}", predict
            if op == 6 and inp.fmt == "castep":
                flt = (Filters.LOW, Filters.MEDIUM, Filters.FULL)[arg]
                return f"parse {i} filter {arg}", lambda: parse_castep_file(path, flt)
            return f"from memory {i}", lambda: corpus.parser(inp.fmt)(inp.stream())

        ops = []
        for _ in range(ctx.between(2, 7 + 3 * echo, "n-calls")):
            op = (0, 1, 2, 3, 4, 5, 6, 7, 0, 3, 8)[ctx.draw(11, "op")] if not echo else \
                (0, 0, 0, 7, 3, 1)[ctx.draw(6, "echo-op")]
            i = ctx.draw(len(inputs), "input")
            arg = ctx.draw(3, "arg")
            fault = ctx.draw(5, "fault") == 4
            if fault and (op not in (0, 1, 2) or ctx.draw(2, "between")):
                # stopped between two lines of the library
                span = (30, 300, 3000, 20000)[ctx.draw(4, "interrupt-span")]
                at = -1 - ctx.draw(span, "interrupt-line")
            else:
                at = ctx.draw(len(inputs[i].data) + 1, "fault-at") if fault else 0
            exc = ctx.draw(3, "fault-kind") if fault else 0
            edit = ctx.draw(3, "edit") + echo
            ops.append((op, i, arg, fault, at, exc, edit))
        wanted = {}
        for op, i, arg, *_ in ops:
            if (op, i, arg) not in wanted:
                wanted[op, i, arg] = common.pristine(
                    lambda op=op, i=i, arg=arg: common.portable(common.outcome(make(op, i, arg)[1])))
        kept = []
        seen = set()
        failed = edited = interrupted = False
        with fs:
            for op, i, arg, fault, at, kind, edit in ops:
                what, call = make(op, i, arg)
                if fault:
                    path = f"{fs.root}/in{i}.{inputs[i].fmt}"
                    exc = (lambda: OSError(errno.EIO, "Input/output error"),
                           lambda: KeyboardInterrupt("signal"), lambda: MemoryError())[kind]
                    stop = None
                    if at < 0:
                        stop = AsyncFault(ctx, -at, (KeyboardInterrupt, SystemExit, MemoryError)[kind])
                        ctx.op(f"{what} stopped at line {-at} of the library")
                    else:
                        fs.plans[path] = plan = Plan(fail_at=at, fail_with=exc)
                        ctx.op(f"{what} with a read failing at {at}")
                    try:
                        with stop or nullcontext():
                            call()
                    except BaseException:  # noqa: BLE001, S110
                        pass
                    if stop is not None:
                        interrupted = interrupted or stop.fired
                        if stop.fired:
                            ctx.probe("after an interruption between statements")
                    else:
                        interrupted = interrupted or plan.fired > 0
                        del fs.plans[path]
                    # then, straight away, the same call in peace
                ctx.op(what)
                out = common.outcome(call)
                want = wanted[op, i, arg]
                require(op != 8 or out[0] == "err" or out[1] != "the caller's settings were edited",
                        "argument-edited", "get_generated_files changed the data it was given")
                require(common.same(out, want), "history-matters",
                        lambda what=what, out=out, want=want:
                        f"{what} after {[t for t in ctx.trace if not t.startswith('FAULT')][:-1]}: "
                        f"got {common.describe(out)}, alone: {want[0]} "
                        f"{want[1] if want[0] == 'err' else str(want[2])[:200]}")
                key = (op, i, arg)
                if key in seen:
                    ctx.probe("repeat of an earlier input")
                    if out[0] == "err":
                        ctx.probe("failing input fails again the same way")
                seen.add(key)
                if failed:
                    ctx.probe("after a failed call")
                if edited:
                    ctx.probe("after edited results")
                if interrupted:
                    ctx.probe("after an interrupted read")
                if len({inputs[o[1]].fmt for o in ops}) > 1:
                    ctx.probe("other format in between")
                for n, label in ((2, "dump in between"), (4, "lazy reader in between"),
                                 (5, "file prediction in between"), (8, "prediction from data"), (6, "different filter in between")):
                    if op == n:
                        ctx.probe(label)
                failed = failed or out[0] == "err"
                if out[0] == "ok":
                    if edit >= 2:
                        edited = common.spoil(out[1]) > 0 or edited
                        ctx.op("caller edits that result")
                        ctx.fault("result-edited")
                    else:
                        kept.append((what, out))
            for what, out in kept:
                require(canon(out[1]) == out[2], "earlier-result-changed",
                        lambda what=what: f"result of {what} changed after it was returned")
                ctx.probe("earlier result still intact")
        ctx.nontrivial = True
        ctx.signature([(p.fmt, p.name, len(p.data)) for p in inputs], ops)
        ctx.sim_time += fs.reads


CHECK = C08()
