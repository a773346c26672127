"""C10: the output sink gets whole documents or nothing, and loses nothing it held."""
from __future__ import annotations

import ast
import errno
import io
import json
import os
import pprint
import sys
from collections.abc import Mapping
from pathlib import Path

from .. import common, corpus
from ..common import require
from ..core import Ctx, leq
from ..runner import Check
from ..simfs import Plan, SimFS

FORMATS = ("json", "print", "pprint", "yaml", "pyyaml", "ruamel")


def jkey(key):
    if isinstance(key, (tuple, list)):
        if key and isinstance(key[0], tuple):
            return "_".join(str(y) for x in key for y in x)
        return "_".join(map(str, key))
    return key if isinstance(key, str) else next(iter(json.loads(json.dumps({key: 0}))))


def jref(obj):
    """What a JSON document says about ``obj``."""
    if isinstance(obj, Mapping):
        return {jkey(k): jref(v) for k, v in obj.items()}
    if isinstance(obj, (list, tuple)):
        return [jref(v) for v in obj]
    if isinstance(obj, complex):
        return {"real": obj.real, "imag": obj.imag}
    return obj


class C10(Check):
    ID = "C10"
    QUICK = 9500
    THOROUGH = 160000
    RULE = ("non-trivial: the sink held something before, or a read or write fault fired, or several "
            "files went into one document; distinct = inputs + sink + format + fault and place")
    MEASURE = "hash of (inputs, interface, sink kind, format, prior content, fault kind and offset)"
    PROBES = ("existing output kept", "input fails", "last of several inputs fails", "disk full",
              "torn write", "interrupted write", "closed pipe", "caller's stream", "stdout",
              "several inputs", "no input", "whole document loads back", "unknown format",
              "command line", "second document appended", "missing directory", "short writes",
              "odd file names", "document beyond 1 MB")
    REAL = [*common.COMMON_REAL, "parse_all, parse_single, dumpers, command line"]
    STUB = ["raw file reads and writes (simulated disk: EIO, ENOSPC, EDQUOT, torn and short writes, "
            "signals)", "standard output"]
    ASSUMPTIONS = ["the sink is not written by others meanwhile"]

    def run(self, ctx: Ctx) -> None:
        from castep_outputs.cli.castep_outputs_main import main, parse_all

        fs = SimFS(ctx)
        files: dict[str, list] = {}
        values = {}
        names: set[str] = set()
        count = ctx.draw(4, "n-inputs")
        count = 1 if count == 0 and ctx.draw(4, "none") else count
        for i in range(count):
            if i == 0 and ctx.draw(150, "huge") == 149:
                inp = _huge(ctx)
                ctx.probe("document beyond 1 MB")
            else:
                inp = corpus.pick(ctx, big=ctx.draw(20, "big") == 19)
            name = (f"in{i}.{inp.fmt}", f"in{i}.{inp.fmt}", f"in {i}.out", f"in{i}", f"\u00ef{i}.{inp.fmt.upper()}",
                    f"in{i}.castep", f"same.{inp.fmt}", f"d{i}/x.{inp.fmt}")[ctx.draw(8, "file-name")]
            if name in names:
                name = f"in{i}.{inp.fmt}"
            elif not name.startswith("in"):
                ctx.probe("odd file names")
            names.add(name)
            path = fs.put(name, inp.data)
            files.setdefault(inp.fmt, []).append(path)
            values[path] = inp.parse()
        # in the order a caller lists them
        paths = [p for ps in files.values() for p in ps]
        if count > 1:
            ctx.probe("several inputs")
        if not count:
            ctx.probe("no input")
        fmt = FORMATS[ctx.draw(len(FORMATS), "out-format")]
        if fmt != "json" and sum(os.path.getsize(p) for p in paths) > 2500:
            fmt = ("json", "print")[ctx.draw(2, "quick-format")]
        unknown = ctx.draw(30, "unknown-format") == 29
        cli = ctx.draw(3, "cli") == 2 and not unknown and count > 0 and fmt != "yaml"
        sink = ctx.draw(4, "sink")  # 0,1 file; 2 caller's stream; 3 stdout
        if cli and sink == 2:
            sink = 0
        outname = fs.root + "/out dir/result" if ctx.draw(8, "no-dir") == 7 else fs.root + "/result.out"
        missing = "out dir" in outname and sink < 2
        prior = b""
        if sink < 2 and not missing and ctx.draw(2, "prior"):
            prior = (b"# earlier results\n", b"{\"a\": 1}\n", b"\xc3\xa9 no newline", b"x" * 9000, b"\n")[
                ctx.draw(5, "prior-text")]
            fs.put("result.out", prior)
            ctx.probe("existing output kept")

        def as_text(fh_value) -> str:
            if fmt == "print":
                return f"{fh_value}\n"
            return pprint.pformat(fh_value) + "\n"

        def check_doc(text: str) -> None:
            if len(paths) == 1:
                want = values[paths[0]]
            else:
                # order of the entries is not at issue here
                want = {p: values[p] for p in sorted(paths, key=lambda p: text.find(repr(p)))}
            if fmt == "json":
                got = json.loads(text)
                require(leq(got, jref(want)), "wrong-document",
                        lambda: common.diff(jref(want), got))
            elif fmt in ("print", "pprint"):
                require(_words(text) == _words(as_text(want)), "wrong-document",
                        lambda: _first_diff(as_text(want), text))
                try:
                    got = ast.literal_eval(text.strip())
                except (ValueError, SyntaxError):
                    got = None
                if got is not None:
                    # nor does the literal
                    require(leq(_unsigned(got), _unsigned(want)), "wrong-document",
                            lambda: common.diff(want, got))
            else:
                if fmt == "pyyaml":
                    import yaml
                    got = yaml.unsafe_load(text)
                else:
                    from ruamel.yaml import YAML
                    got = YAML(typ="unsafe").load(text)
                # YAML does not keep the sign of a complex zero
                require(leq(_unsigned(got), _unsigned(want)), "wrong-document",
                        lambda: common.diff(want, got))
            ctx.probe("whole document loads back")

        # the fault
        fault = ctx.draw(4, "fault")
        bad = None
        out_plan = Plan(write_chunk=(0, 0, 700, 4096)[ctx.draw(4, "short-writes")])
        if out_plan.write_chunk and sink < 2:
            ctx.probe("short writes")
        if fault == 1 and paths:
            bad = ctx.draw(len(paths), "bad-input")
            size = os.path.getsize(paths[bad])
            fs.plans[paths[bad]] = Plan(
                fail_at=ctx.draw(size + 1, "fail-at"),
                fail_with=(lambda: OSError(errno.EIO, "Input/output error"),
                           lambda: KeyboardInterrupt("signal"))[ctx.draw(2, "fail-kind")])
            ctx.probe("input fails")
            if bad == len(paths) - 1 and bad:
                ctx.probe("last of several inputs fails")
        wfault = fault == 2
        limit = None
        if wfault:
            limit = ctx.draw((1, 100, 3000, 30000)[ctx.draw(4, "limit-scale")], "limit")
            wkind = ctx.draw(4, "write-fault")
            werr = (lambda: OSError(errno.ENOSPC, "No space left on device"),
                    lambda: OSError(errno.EDQUOT, "Disk quota exceeded"),
                    lambda: OSError(errno.EIO, "Input/output error"),
                    lambda: KeyboardInterrupt("signal during write"))[wkind]
            ctx.probe(("disk full", "disk full", "torn write", "interrupted write")[wkind])
            out_plan.write_limit, out_plan.write_error = limit, werr
        real_out, real_argv = sys.stdout, sys.argv
        with fs:
            fs.plans[os.path.realpath(outname)] = out_plan
            stdout = _Pipe(limit if wfault and sink == 3 else None)
            stream = stream_raw = None
            lead = ""
            if sink == 2:
                ctx.probe("caller's stream")
                lead = ("", "caller's own text\n")[ctx.draw(2, "lead")]
                if wfault or ctx.draw(2, "stream-kind"):
                    stream_raw = fs.root + "/stream.txt"
                    fs.plans[stream_raw] = out_plan
                    out_plan.write_limit = None
                    stream = open(stream_raw, "w+", encoding="utf-8")  # noqa: SIM115
                    stream.write(lead)
                    stream.flush()
                    if wfault:
                        out_plan.write_limit = out_plan.written + limit
                else:
                    stream = io.StringIO()
                    stream.write(lead)
            out_fmt = "toml" if unknown else fmt
            if unknown:
                ctx.probe("unknown format")

            def call():
                if cli:
                    ctx.probe("command line")
                    args = ["castep_outputs", "-f", fmt]
                    if sink < 2:
                        args += ["-o", outname]
                    for typ, ps in files.items():
                        args += [f"--{typ}", *ps]
                    sys.argv = args
                    main()
                else:
                    target = stream if sink == 2 else None
                    if sink < 2:
                        target = outname if sink else Path(outname)
                    parse_all(output=target, out_format=out_fmt, **files)

            exc = None
            ctx.op(f"{'cli' if cli else 'parse_all'} {[fs.rel(p) for p in paths]} as {out_fmt} to "
                   f"{('file', 'file', 'stream', 'stdout')[sink]}, fault {fault}, limit {limit}, bad {bad}")
            sys.stdout = stdout
            try:
                call()
            except BaseException as e:  # noqa: BLE001
                exc = e
            finally:
                sys.stdout, sys.argv = real_out, real_argv
            require(not isinstance(exc, SystemExit), "spurious-error", f"{exc!r}")
            read_fired = bad is not None and fs.plans[paths[bad]].fired > 0
            write_fired = out_plan.fired > 0 or stdout.fired
            if write_fired:
                ctx.probe("closed pipe") if sink == 3 else None

            def held() -> bytes:
                path = outname if sink < 2 else stream_raw
                return fs.get(path) if os.path.exists(path) else b""

            if sink == 2:
                require(not stream.closed, "stream-closed", "the caller's stream was closed")
            if sink < 2:
                require(stdout.getvalue() == "", "stray-output", f"{stdout.getvalue()[:100]!r}")
            if unknown or missing:
                if missing:
                    ctx.probe("missing directory")
                require(exc is not None, "error-swallowed",
                        "unknown format accepted" if unknown else "output not written, no error")
                clean = True
            else:
                clean = read_fired
            if read_fired and not (unknown or missing):
                require(exc is not None, "error-swallowed", "an input could not be read, no error")
            if clean:
                # nothing of a document may have been written
                if sink < 2:
                    require(held() == prior, "partial-output",
                            f"after a failure the output holds {held()[:80]!r}, was {prior[:80]!r}")
                    require(bool(prior) or not os.path.exists(outname), "partial-output",
                            "an output file was left by a run which failed before writing")
                elif sink == 2:
                    now = stream.getvalue() if stream_raw is None else None
                    if now is None:
                        stream.flush()
                        now = held().decode()
                    require(now == lead, "partial-output", f"stream got {now[len(lead):][:80]!r}")
                else:
                    require(stdout.getvalue() == "", "partial-output", "document on stdout")
            elif write_fired:
                if sink == 2:
                    # a buffered stream reports at its own flush at the latest
                    if exc is None:
                        try:
                            stream.flush()
                        except BaseException as e:  # noqa: BLE001
                            exc = e
                require(exc is not None, "write-error-swallowed",
                        f"writing failed after {limit} bytes but the call succeeded")
                if sink < 2:
                    require(held()[:len(prior)] == prior, "prior-lost",
                            "earlier content changed by a failed write")
            else:
                require(exc is None, "spurious-error", f"{exc!r}")
                if sink < 2:
                    now = held()
                    require(now[:len(prior)] == prior, "prior-lost", "earlier content changed")
                    text = now[len(prior):].decode()
                elif sink == 2:
                    if stream_raw is None:
                        now = stream.getvalue()
                    else:
                        if wfault:
                            out_plan.write_limit = None
                        stream.flush()
                        now = held().decode()
                    require(now.startswith(lead), "prior-lost", "caller's own text is gone")
                    text = now[len(lead):]
                else:
                    ctx.probe("stdout")
                    text = stdout.getvalue()
                if not (sink == 2 and wfault):
                    check_doc(text)
            if sink == 2 and stream_raw is not None:
                out_plan.write_limit = None
                try:
                    stream.close()
                except BaseException:  # noqa: BLE001, S110
                    pass
            # faults stop: the document is added after whatever is there
            if sink < 2 and not missing and not unknown and ctx.draw(3, "again") == 2:
                ctx.probe("second document appended")
                out_plan.write_limit = None
                for p in paths:
                    fs.plans.pop(p, None)
                before = held()
                ctx.op("again, without faults")
                sys.stdout = stdout
                try:
                    call()
                finally:
                    sys.stdout, sys.argv = real_out, real_argv
                now = held()
                require(now[:len(before)] == before, "prior-lost", "second document overwrote the first")
                check_doc(now[len(before):].decode())
        ctx.nontrivial = bool(prior) or fault in (1, 2) or count > 1
        ctx.signature([fs.rel(p) for p in paths], cli, sink, out_fmt, len(prior), fault, limit, bad,
                      out_plan.write_chunk, [os.path.getsize(p) for p in paths])
        ctx.sim_time += fs.reads


def _huge(ctx: Ctx) -> corpus.Input:
    """A long shock-compression run."""
    base = 1 + ctx.draw(1000, "huge-base")
    rows = "".join(f"  {base + i}.{i % 997:03d}E-003  {i * 7}.5  -{i}.25  {(i * base) % 8191}.125  <-- cTPE\n"
                   for i in range(6000 + 6000 * ctx.draw(3, "huge-rows")))
    return corpus.Input("hug", "huge", rows.encode())


class _Pipe(io.StringIO):
    """Standard output; breaks after ``limit`` characters."""

    def __init__(self, limit) -> None:
        super().__init__()
        self.limit = limit
        self.fired = False

    def write(self, text):
        if self.limit is not None and self.tell() + len(text) > self.limit:
            super().write(text[:max(0, self.limit - self.tell())])
            self.fired = True
            raise BrokenPipeError(errno.EPIPE, "Broken pipe")
        return super().write(text)


def _unsigned(obj):
    if isinstance(obj, Mapping):
        return {_unsigned(k): _unsigned(v) for k, v in obj.items()}
    if isinstance(obj, (list, tuple)):
        return type(obj)(map(_unsigned, obj)) if type(obj) in (list, tuple) else tuple(obj)
    return complex(obj.real + 0.0, obj.imag + 0.0) if isinstance(obj, complex) else obj


def _words(text: str) -> str:
    return "".join(text.split())


def _first_diff(a: str, b: str) -> str:
    a, b = _words(a), _words(b)
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y:
            return f"at {i}: {a[max(0, i - 40):i + 40]!r} != {b[max(0, i - 40):i + 40]!r}"
    return f"lengths {len(a)} {len(b)}"


CHECK = C10()
