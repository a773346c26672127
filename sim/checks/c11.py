"""C11: the same files give the same document, whatever the hash seed or directory order."""
from __future__ import annotations

import atexit
import os
import pickle
import shutil
import socket
import subprocess
import sys
import tempfile
from pathlib import Path

from .. import common, corpus
from ..common import require
from ..core import Ctx, HarnessError
from ..runner import Check
from ..settings import settings
from ..simfs import SimFS

CHILD = str(Path(__file__).resolve().parent.parent / "hashchild.py")
SEEDS = (0, 1, 2, 3, 5, 8, 42, 77, 123, 1000, 4242, 31337, 65535, 99999, 2**31, 2**32 - 2)


class C11(Check):
    ID = "C11"
    QUICK = 900
    THOROUGH = 100000
    RULE = ("non-trivial: always (the two interpreters have different hash seeds); distinct = inputs, jobs and "
            "pair of seeds")
    MEASURE = "hash of (inputs, kinds of call, hash seeds, listing order)"
    PROBES = ("parse", "document", "command line with seed", "file prediction", "several error files",
              "listing order changed", "castep log", "mixed functional")
    REAL = [*common.COMMON_REAL, "fresh interpreter per hash seed", "every parser, dumpers, command "
            "line, get_generated_files"]
    STUB = ["hash seed", "order of directory listings"]
    ASSUMPTIONS = ["order within a returned set object is not promised"]

    def run(self, ctx: Ctx) -> None:
        fs = SimFS(ctx)
        jobs = []
        names = []
        stems = []
        n = ctx.between(4, 9, "n-inputs")
        for i in range(n):
            inp = corpus.pick(ctx, big=i == 0)
            if inp.fmt == "castep":
                ctx.probe("castep log")
            path = fs.put(f"s{i % 3}{'.x' * (i % 2)}.{inp.fmt}", inp.data)
            stems.append(f"s{i % 3}{'.x' * (i % 2)}")
            names.append((inp.fmt, inp.name, len(inp.data)))
            jobs.append(("parse", (inp.fmt, path)))
            ctx.probe("parse")
            if ctx.draw(2, "dump"):
                out = ("json", "print", "pprint", "yaml")[ctx.draw(
                    4 if len(inp.data) < 2500 else 3, "out-format")]
                jobs.append(("dump", (out, {inp.fmt: [path]})))
                ctx.probe("document")
        for _ in range(ctx.between(2, 8, "n-predict")):
            cell, param = settings(ctx)
            jobs.append(("predict", (cell, param)))
            ctx.probe("file prediction")
        errs = ctx.draw(5, "n-err")
        for k in range(errs):
            fs.put(f"{stems[0]}.{k + 1:04d}.err", b"Error in job\n Current trace stack:\n  a\n  b\n")
        if errs > 1:
            ctx.probe("several error files")
        seeds = sorted(set(stems))
        jobs.append(("cli", ["-f", "print", *[f"{fs.root}/{s}" for s in seeds]]))
        jobs.append(("cli", ["--inc-err", "--inc-castep", f"{fs.root}/{seeds[0]}"]))
        ctx.probe("command line with seed")
        a = ctx.draw(len(SEEDS), "hash-seed")
        b = (a + 1 + ctx.draw(len(SEEDS) - 1, "hash-seed-2")) % len(SEEDS)
        order = ctx.draw(1000, "listing-order")
        if order:
            ctx.probe("listing order changed")
            ctx.fault("listing-reordered")
        ctx.fault("hash-seed-changed", f"{SEEDS[a]} {SEEDS[b]}")
        one = self.child(jobs, a, 0, fs.root)
        two = self.child(jobs, b, order, fs.root)
        for job, x, y in zip(jobs, one, two):
            ctx.op(f"{job[0]} {str(job[1]).replace(fs.root, '')[:80]}")
            require(x == y, "order-dependent",
                    lambda job=job, x=x, y=y: f"{job[0]} {str(job[1]).replace(fs.root, "")[:200]} differs between hash seeds "
                                              f"{SEEDS[a]} and {SEEDS[b]} (listing {order}): {first_diff(x, y)}")
        ctx.nontrivial = a != b
        ctx.signature(names, [j[0] for j in jobs], a, b, order)
        ctx.sim_time += len(jobs)

    def warm(self) -> None:
        super().warm()
        self.dir = tempfile.mkdtemp(prefix="castepsim-hash.")
        owner = os.getpid()
        self.servers = []
        repo = os.environ.get("SIM_REPO", "/repo")
        for k, seed in enumerate(SEEDS):
            env = {**os.environ, "PYTHONHASHSEED": str(seed), "PYTHONPATH": repo,
                   "PYTHONPYCACHEPREFIX": sys.pycache_prefix}
            self.servers.append(subprocess.Popen(
                [sys.executable, CHILD, f"{self.dir}/{k}"], stdin=subprocess.PIPE,
                stdout=subprocess.PIPE, env=env))

        def stop() -> None:
            if os.getpid() == owner:
                for p in self.servers:
                    p.stdin.close()
                    p.wait()
                shutil.rmtree(self.dir, ignore_errors=True)

        atexit.register(stop)
        for p in self.servers:
            if p.stdout.readline() != b"ready\n":
                raise HarnessError("interpreter did not start")

    def child(self, jobs, which: int, order: int, cwd: str):
        with socket.socket(socket.AF_UNIX) as sock:
            sock.connect(f"{self.dir}/{which}")
            with sock.makefile("rwb") as f:
                pickle.dump((jobs, order, cwd), f)
                f.flush()
                try:
                    return pickle.load(f)
                except EOFError as exc:
                    raise HarnessError("interpreter gave no answer") from exc


def first_diff(x, y) -> str:
    if x[0] != y[0]:
        return f"{x[0]} {x[1][:80]} / {y[0]} {y[1][:80]}"
    p, q = x[1], y[1]
    for i, (c, d) in enumerate(zip(p, q)):
        if c != d:
            return f"{p[max(0, i - 60):i + 60]!r} / {q[max(0, i - 60):i + 60]!r}"
    return f"lengths {len(p)} {len(q)}"


CHECK = C11()
