"""C18: a .cell/.param file means what its statements say, through every edit and save."""
from __future__ import annotations

import os
from pathlib import Path

from .. import common, corpus
from ..common import require
from ..core import Ctx, leq
from ..input_model import CELL, PARAM, User, assemble
from ..runner import Check
from ..simfs import Plan, SimFS


class C18(Check):
    ID = "C18"
    QUICK = 32000
    THOROUGH = 600000
    RULE = ("non-trivial: the file held at least two statements or was edited, and was read at least once; "
            "distinct = statement text + edits + saves + delivery")
    MEASURE = "hash of (file texts saved, edit and save kinds, cut offsets, delivery)"
    PROBES = ("cell", "param", "statement repeated", "statement removed", "statements reordered", "statement added",
              "comments added", "DOS line ends", "last line unended", "interrupted save", "save ran out of space",
              "replaced by rename", "read while being saved", "torn statement", "torn block refused", "old handle kept",
              "more than nine rows", "handle", "through parse_single", "both files of one job",
              *sorted({*CELL, *PARAM}))
    REAL = [*common.COMMON_REAL, "cell/param parser", "parse_single"]
    STUB = ["authors of input files (statement-level model of the input format)",
            "raw file reads (simulated disk: short reads, EINTR, file growing while read)"]
    ASSUMPTIONS = ["a save which is cut short leaves a prefix of the new text",
                   "statements are written in the forms the CASTEP documentation and the test samples show"]

    def run(self, ctx: Ctx) -> None:
        fs = SimFS(ctx)
        jobs = [("cell", "param")[ctx.draw(2, "format")]]
        if ctx.draw(4, "both") == 3:
            jobs = ["cell", "param"]
            ctx.probe("both files of one job")
        shape: list = []
        states = []
        for fmt in jobs:
            ctx.probe(fmt)
            states.append(_File(ctx, fs, fmt, shape))
        with fs:
            for _ in range(ctx.between(1, 4, "n-rounds")):
                f = states[ctx.draw(len(states), "which")]
                f.edit()
                f.save()
                f.read()
            for f in states:
                f.finish()
        ctx.nontrivial = any(len(f.recs) > 1 for f in states) or len(shape) > 3
        ctx.signature(tuple(map(str, shape)))
        ctx.sim_time += fs.reads


# listed in KNOWN_FINDINGS.txt
ALONE = "keyword-without-value"


class _File:
    """One input file, its author and the program reading it."""

    def __init__(self, ctx: Ctx, fs: SimFS, fmt: str, shape: list) -> None:
        self.ctx, self.fs, self.fmt, self.shape = ctx, fs, fmt, shape
        self.user = User(ctx, alone=True)
        self.kinds = PARAM if fmt == "param" else CELL
        self.name = f"job.{fmt}"
        self.path = os.path.join(fs.root, self.name)
        self.recs: list = []
        self.eol = "\n"
        if ctx.draw(5, "dos") == 4:
            self.eol = "\r\n"
            ctx.probe("DOS line ends")
        for _ in range(ctx.between(1, 6, "n-statements")):
            self.add()
        fs.put(self.name, b"")
        self.saved: object = [{}]
        self.state = "empty"  # what the disk holds: "whole" or a cut text
        self.have = 0
        self.data, self.bounds = b"", [0]

    # -- editing ---------------------------------------------------------------------
    def statement(self):
        ctx = self.ctx
        for _ in range(4):
            kind = self.kinds[ctx.draw(len(self.kinds), "statement")]
            rec = getattr(self.user, kind)()
            if rec is not None:
                ctx.probe(kind)
                if len(rec[0]) > 11:
                    ctx.probe("more than nine rows")
                return rec
        return self.user.blank()

    def add(self, at: int | None = None) -> None:
        rec = self.statement()
        self.recs.insert(len(self.recs) if at is None else at, rec)

    def edit(self) -> None:
        ctx = self.ctx
        for _ in range(ctx.draw(3, "n-edits")):
            kind = ctx.draw(5, "edit")
            n = len(self.recs)
            if kind == 0 and n < 12:
                self.add(ctx.draw(n + 1, "where"))
                ctx.probe("statement added")
            elif kind == 1 and n > 1:
                rec = self.recs.pop(ctx.draw(n, "which"))
                self.user.taken.discard(rec[1][1] if len(rec[1]) > 1 else "")
                ctx.probe("statement removed")
            elif kind == 2 and n > 1:
                i, j = ctx.draw(n, "which"), ctx.draw(n, "with")
                self.recs[i], self.recs[j] = self.recs[j], self.recs[i]
                ctx.probe("statements reordered")
            elif kind == 3:
                self.recs.insert(ctx.draw(n + 1, "where"), self.user.blank())
                ctx.probe("comments added")
            elif kind == 4:
                # the same key or block again: the last one counts
                sets = [r for r in self.recs if r[1][0] == "set"]
                if sets and n < 12:
                    key = sets[ctx.draw(len(sets), "which")][1][1]
                    keep, self.user.taken = self.user.taken, set()
                    for _ in range(12):
                        rec = self.statement()
                        if rec[1][0] == "set" and rec[1][1] == key:
                            self.recs.append(rec)
                            ctx.probe("statement repeated")
                            break
                    self.user.taken = keep
            ctx.op(f"edit {self.name}: {kind}")
            self.shape.append(("edit", kind))

    # -- saving ----------------------------------------------------------------------
    def render(self) -> None:
        parts = []
        self.bounds = [0]
        for lines, _ in self.recs:
            parts.append("".join(lines).replace("\n", self.eol).encode())
            self.bounds.append(self.bounds[-1] + len(parts[-1]))
        self.data = b"".join(parts)
        if self.ctx.draw(5, "unended") == 4 and self.recs[-1][1][0] == "set":
            self.ctx.probe("last line unended")
            self.data = self.data[:-len(self.eol)]
            self.bounds[-1] = len(self.data)
        self.saved = self.expected()
        self.shape.append(("text", corpus_hash(self.data)))

    def save(self) -> None:
        ctx = self.ctx
        old, old_data = self.saved, self.data[:self.have]
        whole = self.state == "whole"
        self.render()
        kind = ctx.draw(4, "save")
        self.shape.append(("save", kind))
        if kind == 3 and whole:
            # a second program still reads the old text while the new one is moved in place
            ctx.probe("replaced by rename")
            held = open(self.path) if ctx.draw(2, "held") else None  # noqa: SIM115
            new = self.fs.put(self.name + ".new", self.data)
            os.replace(new, self.path)
            ctx.op(f"replace {self.name}")
            self.have, self.state = len(self.data), "whole"
            if held is not None:
                ctx.probe("old handle kept")
                with held:
                    got = corpus.parser(self.fmt)(held)
                require(leq(got, old), "another-text-read", lambda: f"{old_data!r}: " + common.diff(old, got))
            return
        if kind in (1, 2) and self.data:
            self.have = self.cut()
            self.state = "whole" if self.have == len(self.data) else "cut"
            self.fs.put(self.name, self.data[:self.have])
            if self.state == "cut":
                ctx.probe(("interrupted save", "save ran out of space")[kind - 1])
                ctx.fault(("save-killed", "save-enospc")[kind - 1], f"at {self.have} of {len(self.data)}")
            return
        self.fs.put(self.name, self.data)
        self.have, self.state = len(self.data), "whole"
        ctx.op(f"save {self.name}, {len(self.recs)} statements")

    def cut(self) -> int:
        ctx = self.ctx
        kind = ctx.draw(4, "cut-kind")
        if kind == 0:
            return self.bounds[ctx.draw(len(self.bounds), "cut-statement")]
        if kind == 1:
            ends = [i + 1 for i, b in enumerate(self.data) if b == 10] or [len(self.data)]
            return ends[ctx.draw(len(ends), "cut-line")]
        return ctx.draw(len(self.data) + 1, "cut-byte")

    def expected(self, k: int | None = None):
        recs = self.recs if k is None else self.recs[:k]
        return assemble([p for _, p in recs])

    # -- reading ---------------------------------------------------------------------
    def outcome(self, call):
        """The result, the listed defect made good."""
        out = common.outcome(call)
        if out[0] == "ok" and len(out[1]) == 1:
            for lines, payload in self.recs:
                if payload[0] == "alone":
                    got = dict(out[1][0])
                    if got.get(payload[1]) is True:
                        del got[payload[1]]
                        out = ("ok", [got])
                    elif self.state == "whole" and payload[1] not in got:
                        self.ctx.known.append(ALONE)
        return out

    def deliver(self):
        from castep_outputs import parse_single

        ctx = self.ctx
        plan = Plan(chunks=common.draw_chunks(ctx, 4 * len(self.data)),
                    buffer=(0, 128, 700)[ctx.draw(3, "buf")] if len(self.data) < 9000 else 0,
                    eintr=(0, 0, 3)[ctx.draw(3, "eintr")])
        self.fs.plans[self.path] = plan
        route = ctx.draw(4, "route")
        self.shape.append(("read", route, plan.chunks, plan.buffer, self.have))
        parse = corpus.parser(self.fmt)
        ctx.op(f"read {self.name} at {self.have} bytes, route {route}")
        if route == 0:
            return plan, lambda: parse(self.path)
        if route == 1:
            return plan, lambda: parse(Path(self.path))
        if route == 2:
            ctx.probe("handle")

            def by_handle():
                with open(self.path) as f:
                    return parse(f)
            return plan, by_handle
        ctx.probe("through parse_single")
        return plan, lambda: parse_single(self.path)

    def read(self) -> None:
        ctx = self.ctx
        if not self.have and self.data:
            got = common.outcome(self.deliver()[1])
            require(got[0] == "ok" and got[1] == [{}], "empty-file-misread", lambda: common.describe(got))
            return
        done = sum(b <= self.have for b in self.bounds[1:])
        whole = self.have in self.bounds
        plan, call = self.deliver()
        start, grown = done, []
        if self.state == "cut" and whole and ctx.draw(3, "goes-on") == 2:
            # the save goes on, statement by statement, under the reader
            later = [b for b in self.bounds if b > self.have]

            def on_read(_raw, _pos):
                if later and ctx.draw(3, "grow-now") == 2:
                    to = later.pop(0)
                    self.fs.append(self.name, self.data[self.have:to])
                    self.have = to
                    grown.append(to)
                    ctx.probe("read while being saved")
                    ctx.fault("file-grows", f"to {to}")

            plan.on_read = on_read
        out = self.outcome(call)
        plan.on_read = None
        if grown:
            self.state = "whole" if self.have == len(self.data) else "cut"
            done = sum(b <= self.have for b in self.bounds[1:])
        if whole:
            require(out[0] == "ok", "statements-refused",
                    lambda: f"{done} whole statements: {out[1]!r}")
            require(any(leq(out[1], self.expected(k)) for k in range(start, done + 1)), "statements-not-as-written",
                    lambda: f"{self.name}: " + common.diff(self.expected(start), out[1]))
            return
        ctx.probe("torn statement")
        lines, payload = self.recs[done]
        tail = self.data[self.bounds[done]:self.have].decode()
        block = "%" in lines[0].split("#")[0].split("!")[0]
        if block and len(tail.splitlines(keepends=True)) > 1 and "%endblock" not in tail.lower():
            ctx.probe("torn block refused")
            require(out[0] == "err", "unfinished-as-finished",
                    lambda: f"{self.name} cut inside {payload[1]}: {common.describe(out)}")
            return
        if out[0] == "err":
            require(block, "statements-refused", lambda: f"{done} whole statements, {tail!r}: {out[1]!r}")
            return
        lo, hi = self.expected(done)[0], self.expected(done + 1)[0]
        key = payload[1] if payload[0] == "set" else None
        got = out[1][0] if len(out[1]) == 1 else {}
        require(len(out[1]) == 1 and all(k in got and (k == key or leq(got[k], v)) for k, v in lo.items())
                and all(k in hi for k in got), "finished-part-damaged",
                lambda: f"{self.name} torn inside {tail!r}: " + common.diff([lo], out[1]))

    def finish(self) -> None:
        """The author saves once more; whatever happened before, this is what counts."""
        self.render()
        self.fs.put(self.name, self.data)
        self.have, self.state = len(self.data), "whole"
        self.read()


def corpus_hash(data: bytes) -> str:
    import hashlib
    return hashlib.blake2b(data, digest_size=6).hexdigest()


CHECK = C18()
