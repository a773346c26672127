"""C15: the line cursor delivers a file's lines like a list with one position."""
from __future__ import annotations

import errno
import io
import re

from .. import common
from ..common import require
from ..core import Ctx
from ..runner import Check
from ..simfs import Plan, SimFS

WORDS = ("alpha", "beta 1.0", "  gamma", "BEGIN block", "END block", "ENDING", "", " ", "----", "==",
         "caf\u00e9 \u03c0", "x" * 140, "\u2202\U0001d7d9 wide", "\tindented\t", "0.1  -2.5E-003")
EXHAUSTED = -1


class Cursor:
    """A wrapper (or block) under test beside its list model."""

    def __init__(self, obj, lines: list[str], *, block: bool, label: str, final: bool = True) -> None:
        self.obj = obj
        self.lines = lines
        self.block = block
        self.label = label
        self.pos = 0
        self.before = 0       # position a wrapper rewinds to
        self.final = final
        self.clean = True     # no end of file met yet: line numbers are exact
        self.spent = 0        # times the end was met since the last delivered line


class C15(Check):
    ID = "C15"
    QUICK = 36000
    THOROUGH = 500000
    RULE = ("non-trivial: lines were delivered after a rewind or through a nested block; distinct = "
            "content + delivery + operation sequence")
    MEASURE = "hash of (lines, delivery, growth, operations)"
    PROBES = ("file", "in-memory text", "crlf", "no final newline", "multi-byte text", "empty file",
              "wrapper rewind", "second rewind", "rewind at end", "block rewind", "rewound past start",
              "block from pattern", "pattern not matched", "several ends", "end missing: refused",
              "end missing: allowed", "block of a block", "lines block", "lines block past end",
              "block as file", "bounds removed", "file grew", "long text", "read error", "two cursors", "eintr")
    REAL = ["FileWrapper and Block", "CPython buffered and text I/O layers"]
    STUB = ["raw file reads (simulated disk: short reads, EINTR, EIO, growth at end of file)"]
    ASSUMPTIONS = ["growth adds whole lines"]

    def run(self, ctx: Ctx) -> None:
        from castep_outputs.utilities.filewrapper import Block, FileWrapper

        fs = SimFS(ctx)
        cursors: list[Cursor] = []
        shape: list = []
        plans = []
        rewound = False

        def content() -> list[str]:
            n = ctx.draw(12, "n-lines")
            lines = [WORDS[ctx.draw(len(WORDS), "word")] + "\n" for _ in range(n)]
            if ctx.draw(12, "long") == 11:
                # long runs of one line, and lines longer than the readers' buffers
                ctx.probe("long text")
                word = (" \n", "\n", "row 1.0\n", "y" * 9000 + "\n", "\u03c0" * 5000 + "\n",
                        "z" * 70000 + "\n")[ctx.draw(6, "run-of")]
                at = ctx.draw(n + 1, "run-at")
                lines[at:at] = [word] * (3 if len(word) > 99 else (60, 101, 300)[ctx.draw(3, "run-length")])
            return lines

        with fs:
            for w in range(1 + (ctx.draw(3, "n-files") == 2)):
                lines = content()
                if lines and ctx.draw(4, "final-newline") == 3:
                    lines[-1] = lines[-1][:-1] or "x"
                    ctx.probe("no final newline")
                if not lines:
                    ctx.probe("empty file")
                if any(ord(c) > 127 for x in lines for c in x):
                    ctx.probe("multi-byte text")
                if ctx.draw(5, "kind") == 4:
                    ctx.probe("in-memory text")
                    handle = io.StringIO("".join(lines))
                    final = True
                else:
                    eol = "\n"
                    if ctx.draw(5, "eol") == 4:
                        ctx.probe("crlf")
                        eol = "\r\n"
                    data = "".join(lines).replace("\n", eol).encode()
                    path = fs.put(f"f{w}", data)
                    plan = Plan(chunks=common.draw_chunks(ctx, len(data)),
                                buffer=(0, 1, 7, 128)[ctx.draw(4, "buf")] if len(data) < 60000 else 0,
                                eintr=(0, 0, 2, 3)[ctx.draw(4, "eintr")])
                    if plan.eintr:
                        ctx.probe("eintr")
                    fs.plans[path] = plan
                    plans.append((plan, data))
                    ctx.probe("file")
                    handle = open(path, encoding="utf-8")  # noqa: SIM115
                    final = eol != "\n" or bool(lines and not lines[-1].endswith("\n"))
                c = Cursor(FileWrapper(handle), lines, block=False, label=f"file{w}", final=final)
                c.handle = handle
                c.path = None if isinstance(handle, io.StringIO) else f"f{w}"
                cursors.append(c)
                shape.append(tuple(lines))
            if len(cursors) > 1:
                ctx.probe("two cursors")
            if plans and ctx.draw(8, "fail") == 7:
                plan, data = plans[ctx.draw(len(plans), "fail-which")]
                plan.fail_at = ctx.draw(len(data) + 1, "fail-at")
                plan.fail_with = lambda: OSError(errno.EIO, "Input/output error")
                plan.fail_times = 1 << 30

            def take(c: Cursor, how: str) -> None:
                """One step of the cursor against the list."""
                nonlocal rewound
                try:
                    got = next(c.obj)
                except StopIteration:
                    got = None
                want = c.lines[c.pos] if c.pos < len(c.lines) else None
                require(got == want, "wrong-line",
                        f"{how}: {c.label} at {c.pos} of {len(c.lines)} gave {got!r}, not {want!r}")
                c.before = c.pos
                if want is None:
                    c.clean = False
                    c.spent += 1
                else:
                    c.pos += 1
                    c.spent = 0

            def spent(c: Cursor, used: int) -> None:
                c.pos += used
                c.before = c.pos - 1 if used else c.before

            many = max(len(c.lines) for c in cursors) > 50
            for _ in range(ctx.between(4, 30, "n-ops")):
                c = cursors[ctx.draw(len(cursors), "cursor")]
                op = ctx.draw(14, "op")
                left = len(c.lines) - c.pos
                ctx.op(f"op {op} on {c.label} at {c.pos}/{len(c.lines)}")
                shape.append((c.label, op))
                try:
                    if op <= 3:
                        take(c, "next")
                    elif op == 4:
                        for _ in range(ctx.draw(120 if many else 4, "run")):
                            take(c, "iteration")
                    elif op in (5, 6):
                        if c.block and c.spent:
                            continue
                        if c.block:
                            ctx.probe("block rewind")
                            try:
                                c.obj.rewind()
                            except ValueError:
                                require(c.pos == 0, "rewind-refused", f"{c.label} at {c.pos}")
                                ctx.probe("rewound past start")
                            else:
                                require(c.pos > 0, "rewound-past-start", c.label)
                                c.pos -= 1
                        else:
                            c.obj.rewind()
                            ctx.probe("rewind at end" if c.spent else "wrapper rewind"
                                      if c.before < c.pos else "second rewind")
                            c.pos = c.before
                        rewound = True
                        take(c, "after rewind")
                    elif op == 7 and not c.block:
                        # rewinding twice goes back no further
                        c.obj.rewind()
                        c.obj.rewind()
                        ctx.probe("second rewind")
                        c.pos = c.before
                        rewound = True
                    elif op == 7:
                        # all the way back, from anywhere
                        for _ in range(len(c.lines) + c.spent + 2):
                            try:
                                c.obj.rewind()
                            except ValueError:
                                break
                        else:
                            require(False, "rewind-endless", c.label)
                        c.pos, c.spent = 0, 0
                        ctx.probe("block rewind")
                        take(c, "from the start again")
                        rewound = True
                    elif op in (8, 9, 10):
                        if not left or (c.block and c.spent):
                            continue
                        self._pattern(ctx, Block, cursors, c, take)
                        rewound = rewound or cursors[-1] is not c
                    elif op == 11:
                        if c.block and c.spent:
                            continue
                        self._lines(ctx, Block, cursors, c)
                        rewound = True
                    elif op == 12 and c.block:
                        self._views(ctx, c)
                    elif op == 12 and c.path and not c.final and ctx.draw(2, "grow"):
                        more = [WORDS[ctx.draw(len(WORDS), "word")] + "\n"
                                for _ in range(ctx.between(1, 3, "n-more"))]
                        # only at the end: what was read ahead is otherwise fixed
                        while c.pos < len(c.lines):
                            take(c, "to the end")
                        fs.append(c.path, "".join(more).encode())
                        c.lines += more
                        ctx.fault("file-grows", f"{c.label} by {len(more)}")
                        ctx.probe("file grew")
                        take(c, "after growth")
                    elif op == 13 and c.clean and not c.block:
                        require(c.obj.lineno == c.pos, "wrong-line-number",
                                f"{c.label}: {c.obj.lineno}, {c.pos} lines delivered")
                        require(c.obj.tell() == c.handle.tell(), "wrong-position", c.label)
                except OSError as exc:
                    require(exc.errno == errno.EIO and any(p.fired for p, _ in plans),
                            "spurious-error", f"{c.label}: {exc!r}")
                    ctx.probe("read error")
                    break
            for c in cursors:
                if not c.block and not c.handle.closed:
                    c.handle.close()
        ctx.nontrivial = rewound
        ctx.signature(shape, [(p.chunks, p.buffer, p.eintr) for p, _ in plans])
        ctx.sim_time += fs.reads

    def _pattern(self, ctx: Ctx, Block, cursors, c: Cursor, take) -> None:
        """A block from the next line to the n-th line matching an end pattern."""
        start = re.compile(("BEGIN", "^", "a", "^\\s*$")[ctx.draw(4, "start")])
        end = re.compile(("^END", "END", "-{3}", "^\\s*$", "==", "\\d")[ctx.draw(6, "end")])
        n_end = 1 + (ctx.draw(4, "n-end") == 3)
        eof = bool(ctx.draw(2, "eof-possible"))
        first = c.pos
        init = c.lines[first]
        take(c, "block start")
        want, found, used = [init], 0, 0
        if start.search(init):
            for line in c.lines[c.pos:]:
                want.append(line)
                used += 1
                if end.search(line):
                    found += 1
                    if found == n_end:
                        break
        else:
            want = []
        done = not want or found == n_end
        ctx.op(f"block {start.pattern!r}..{end.pattern!r}x{n_end} eof={eof}")
        try:
            block = Block.from_re(init, c.obj, start, end, n_end=n_end, eof_possible=eof)
        except OSError as exc:
            if exc.errno is not None:
                raise
            require(not done and not eof, "block-refused",
                    f"{c.label}: block of {want} is all there: {exc!r}")
            ctx.probe("end missing: refused")
            c.pos = c.before = len(c.lines)
            c.spent += 1
            c.clean = False
            return
        require(done or eof, "unfinished-block", f"{c.label}: {block.aslist()} has no end")
        require(block.aslist() == want, "wrong-block", f"{c.label}: {block.aslist()} is not {want}")
        if want:
            c.pos += used
            if done:
                c.before = c.pos - 1
            else:
                ctx.probe("end missing: allowed")
                c.before = c.pos
                c.clean = False
                c.spent += 1
            if n_end > 1:
                ctx.probe("several ends")
            ctx.probe("block of a block" if c.block else "block from pattern")
            if len(cursors) < 6:
                new = Cursor(block, want, block=True, label=f"{c.label}.{first}")
                cursors.append(new)
        else:
            require(not block, "wrong-block", "unmatched block is not false")
            ctx.probe("pattern not matched")

    def _lines(self, ctx: Ctx, Block, cursors, c: Cursor) -> None:
        n = ctx.draw(5, "n-take")
        eof = bool(ctx.draw(2, "eof-possible"))
        left = len(c.lines) - c.pos
        ctx.op(f"next {n} lines eof={eof}")
        try:
            block = Block.get_lines(c.obj, n, eof_possible=eof)
        except OSError as exc:
            if exc.errno is not None:
                raise
            require(n >= left and not eof, "block-refused", f"{n} of {left} lines: {exc!r}")
            ctx.probe("lines block past end")
            c.pos = c.before = len(c.lines)
            c.spent += 1
            c.clean = False
            return
        want = c.lines[c.pos:c.pos + n]
        require(block.aslist() == want, "wrong-block", f"{block.aslist()} is not {want}")
        require(n <= left or eof, "unfinished-block", f"{n} of {left} lines")
        ctx.probe("lines block")
        # the following line may have been consumed too
        try:
            seen = next(c.obj)
        except StopIteration:
            seen = None
        ok = [p for p in (c.pos + n, c.pos + n + 1)
              if seen == (c.lines[p] if p < len(c.lines) else None)]
        require(bool(ok), "wrong-line", f"after {n} lines of {c.label} at {c.pos}: {seen!r}")
        if seen is None:
            c.pos = c.before = len(c.lines)
            c.spent += 2
            c.clean = False
        elif len(ok) == 2 or c.block:
            # ambiguous (equal lines): this cursor is not followed further
            cursors.remove(c) if len(cursors) > 1 else None
            if len(cursors) == 1 and cursors[0] is c:
                while True:
                    try:
                        next(c.obj)
                    except StopIteration:
                        break
                c.pos = c.before = len(c.lines)
                c.spent += 1
                c.clean = False
        else:
            c.before = ok[0]
            c.pos = ok[0] + 1
            c.clean = False
        if len(cursors) < 6:
            cursors.append(Cursor(block, want, block=True, label=f"{c.label}:{n}"))

    def _views(self, ctx: Ctx, c: Cursor) -> None:
        b = c.obj
        require(len(b) == len(c.lines), "wrong-block", f"length {len(b)}")
        require(b.aslist() == c.lines, "wrong-block", f"list {b.aslist()}")
        require(bool(b) == any(x.strip() for x in c.lines), "wrong-block", "truth")
        if c.lines:
            i = ctx.draw(len(c.lines), "index")
            require(b[i] == c.lines[i] and list(b[i:]) == c.lines[i:] and b[-1] == c.lines[-1],
                    "wrong-block", f"item {i}")
            got = [x for x in b.asstringio().read().split("\n") if x]
            require(got == [y for x in c.lines for y in x.split("\n") if y], "wrong-block", "as text")
        ctx.probe("block as file")
        if c.pos == 0 and not c.spent and len(c.lines) > 3:
            fore, back = ((ctx.draw(9, "fore"), ctx.draw(9, "back")) if ctx.draw(4, "wide") == 3
                          else (ctx.draw(3, "fore"), ctx.draw(3, "back")))
            b.remove_bounds(fore, back)
            c.lines = c.lines[fore:max(0, len(c.lines) - back)]
            require(b.aslist() == c.lines, "wrong-block", f"without bounds {fore},{back}")
            ctx.probe("bounds removed")


CHECK = C15()
