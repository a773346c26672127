"""Which lines of castep_outputs do the checks' runs execute?  linecov.py N [ID ...]

Development aid: forked runs with sys.monitoring, union over runs; prints missing lines per file.
"""
from __future__ import annotations

import dis
import os
import pickle
import sys
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
sys.path[:0] = [os.environ.get("SIM_REPO", "/repo"), str(VERIF)]
sys.dont_write_bytecode = True
PKG = os.path.join(os.environ.get("SIM_REPO", "/repo"), "castep_outputs")
from sim import simfs  # noqa: E402

simfs.install_lock_seam()
from sim import core, runner  # noqa: E402
from sim.checks import load  # noqa: E402

TOOL = 3
mon = sys.monitoring
hit: set = set()


def on_line(code, line):
    if code.co_filename.startswith(PKG):
        hit.add((code.co_filename, line))
    return mon.DISABLE


def lines_of(path: str) -> set[int]:
    out: set[int] = set()
    todo = [compile(Path(path).read_text(), path, "exec")]
    while todo:
        code = todo.pop()
        if code.co_name != "<module>":
            out |= {ln for _, ln in dis.findlinestarts(code) if ln and ln != code.co_firstlineno}
        todo += [c for c in code.co_consts if hasattr(c, "co_code")]
    return out


def work(ids, n, part, parts):
    mon.use_tool_id(TOOL, "linecov")
    mon.register_callback(TOOL, mon.events.LINE, on_line)
    mon.set_events(TOOL, mon.events.LINE)
    scratch = runner.scratch_base()
    for ident in ids:
        check = load(ident)
        check.findings = runner.load_findings(ident)
        check.warm()
        for i in range(part, n, parts):
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    d = f"{scratch}/{ident}{i}"
                    os.mkdir(d)
                    os.chdir(d)
                    ctx = core.Ctx(seed=runner.run_seed(ident, 1, i), scratch=d)
                    runner.execute(check, ctx)
                    data = pickle.dumps(hit)
                    while data:
                        data = data[os.write(w, data):]
                finally:
                    os._exit(0)
            os.close(w)
            buf = b""
            while chunk := os.read(r, 1 << 20):
                buf += chunk
            os.close(r)
            os.waitpid(pid, 0)
            if buf:
                hit.update(pickle.loads(buf))
    import shutil
    shutil.rmtree(scratch)


def main():
    n = int(sys.argv[1])
    ids = sys.argv[2:] or [f"C{i:02d}" for i in range(1, 18) if i != 11]
    pipes = []
    for part in range(8):
        r, w = os.pipe()
        if os.fork() == 0:
            work(ids, n, part, 8)
            with os.fdopen(w, "wb") as f:
                pickle.dump(hit, f)
            os._exit(0)
        os.close(w)
        pipes.append(r)
    for r in pipes:
        with os.fdopen(r, "rb") as f:
            hit.update(pickle.loads(f.read()))
    for path in sorted(Path(PKG).rglob("*.py")):
        want = lines_of(str(path))
        got = {ln for p, ln in hit if p == str(path)}
        miss = sorted(want - got)
        if want:
            print(f"{path.relative_to(PKG)} {len(want & got)}/{len(want)} missing {miss}")


main()
