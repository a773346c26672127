"""C05: a torn or damaged binary output is never read as a complete one."""
from __future__ import annotations

import io
import struct

from .. import common, corpus
from ..common import require
from ..core import Ctx, leq
from ..models import cst_esp, epme_bin
from ..runner import Check
from ..simfs import Plan, SimFS


def split(raw: bytes) -> list[tuple[int, int]]:
    """(offset, payload size) of each record."""
    out, pos = [], 0
    while pos < len(raw):
        n = struct.unpack(">i", raw[pos:pos + 4])[0]
        out.append((pos, n))
        pos += n + 8
    return out


class C05(Check):
    ID = "C05"
    QUICK = 44000
    THOROUGH = 300000
    RULE = ("non-trivial: the file was cut short or a record marker damaged; distinct = file shape "
            "+ kind and place of damage + delivery")
    MEASURE = "hash of (format, grid/record shape, damage kind and offset, delivery)"
    PROBES = ("cut inside a payload", "cut inside a marker", "cut between records",
              "damaged marker", "file grew while read", "recorded sample", "empty file",
              "cut before the meta-GGA part")
    REAL = ["cst_esp and epme_bin parsers, FortranBinaryReader", "CPython buffered I/O"]
    STUB = ["raw file reads (simulated disk)", "Fortran writer (crash at arbitrary byte)"]
    ASSUMPTIONS = ["a crash keeps a prefix of what was written",
                   "a file cut exactly after its first potential is a complete file without meta-GGA"]

    def run(self, ctx: Ctx) -> None:
        from castep_outputs.bin_parsers.fortran_bin_parser import FortranBinaryReader

        c = corpus.load()
        fmt = ("cst_esp", "epme_bin")[ctx.draw(2, "format")]
        doc = None
        if ctx.draw(8, "sample") == 7 and c["samples"].get(fmt):
            raw = c["samples"][fmt][0][1]
            ctx.probe("recorded sample")
        else:
            doc = (cst_esp if fmt == "cst_esp" else epme_bin)(ctx)
            raw = doc.data()
        parse = corpus.parser(fmt)
        recs = split(raw)
        payloads = [raw[o + 4:o + 4 + n] for o, n in recs]
        kind = ctx.draw(4, "damage")
        whole = None
        lawful = {len(raw)}
        if fmt == "cst_esp":
            nx, ny, _nz = struct.unpack(">3i", payloads[1])
            lawful.add(recs[1 + nx * ny][0] + recs[1 + nx * ny][1] + 8)
        cut = len(raw)
        data = raw
        intact = len(recs)
        if kind in (0, 1, 2):
            r = ctx.draw(len(recs), "cut-record")
            off, n = recs[r]
            where = ctx.draw(4, "cut-where")
            if where == 0:
                cut = off
                ctx.probe("cut between records")
            elif where == 1:
                cut = off + 4 + ctx.draw(n + 1, "cut-byte")
                ctx.probe("cut inside a payload")
            else:
                cut = off + (ctx.draw(4, "cut-byte") if where == 2
                             else 4 + n + ctx.draw(4, "cut-byte"))
                ctx.probe("cut inside a marker")
            data = raw[:cut]
            intact = r
            ctx.fault("torn-write", f"at {cut} of {len(raw)}")
            if not data:
                ctx.probe("empty file")
        else:
            r = ctx.draw(len(recs), "bad-record")
            off, n = recs[r]
            at = (off if ctx.draw(2, "lead-or-trail") == 0 else off + 4 + n) + ctx.draw(4, "byte")
            bit = 1 << ctx.draw(8, "bit")
            data = raw[:at] + bytes([raw[at] ^ bit]) + raw[at + 1:]
            lead = data[off:off + 4]
            end = off + 4 + int.from_bytes(lead, "big")
            if data[end:end + 4] == lead:  # by chance a well-formed shorter record
                at = off + 4 + n
                data = raw[:at] + bytes([raw[at] ^ bit]) + raw[at + 1:]
            intact = r
            ctx.fault("flipped-bit", f"marker of record {r}, byte {at}")
            ctx.probe("damaged marker")
        torn = data is not raw and (kind == 3 or cut not in lawful)
        if not torn and cut != len(raw):
            ctx.probe("cut before the meta-GGA part")

        fs = SimFS(ctx)
        path = fs.put("job." + fmt, data)
        plan = Plan(chunks=common.draw_chunks(ctx, 2 * len(raw)),
                    buffer=(0, 16, 200)[ctx.draw(3, "buf")])
        grown = False
        if kind == 0 and ctx.draw(3, "grow") == 2:
            def on_read(_raw, _pos):
                nonlocal grown
                if not grown and ctx.draw(4, "grow-now") == 3:
                    fs.append("job." + fmt, raw[cut:])
                    grown = True
                    ctx.fault("file-grows", "to its full length")
                    ctx.probe("file grew while read")
            plan.on_read = on_read
        fs.plans[path] = plan
        with fs:
            how = ctx.draw(3, "delivery")
            ctx.op(f"parse damaged {fmt} via {('path', 'handle', 'memory')[how]}")
            if how == 0:
                out = common.outcome(lambda: parse(path))
            elif how == 1:
                def call():
                    with open(path, "rb") as f:
                        return parse(f)
                out = common.outcome(call)
            else:
                out = common.outcome(lambda: parse(io.BytesIO(data)))
            if out[0] == "ok" and (torn or cut == len(raw)):
                whole = doc.expected() if doc else corpus.parser(fmt)(io.BytesIO(raw))
            if torn and not (grown and how != 2):
                require(out[0] == "err", "torn-file-accepted",
                        lambda: f"{fmt} damaged at byte {cut if kind < 3 else at}: "
                                f"{common.describe(out)}")
            elif torn:
                require(out[0] == "err" or leq(out[1], whole), "torn-file-accepted",
                        lambda: "growing file: " + common.diff(whole, out[1]))
            elif cut == len(raw):
                require(out[0] == "ok" and leq(out[1], whole), "complete-file-misread",
                        lambda: common.describe(out))
            # record level: exactly the intact records, then an error
            ctx.op("records")
            got = []
            err = None
            try:
                with open(path, "rb") as f:
                    for rec in FortranBinaryReader(f):
                        got.append(rec)
            except (OSError, ValueError, EOFError, OverflowError, MemoryError) as exc:
                err = exc
            require(got == payloads[:len(got)], "torn-record-yielded",
                    f"{len(got)} records given differ from those written")
            if not (kind == 0 and plan.on_read):
                require(len(got) == intact, "torn-record-yielded" if len(got) > intact
                        else "record-lost", f"{len(got)} records given, {intact} intact")
                clean = kind < 3 and (cut == len(raw) or any(cut == o for o, _ in recs))
                require((err is None) == clean,
                        "torn-record-silent" if err is None else "spurious-error",
                        f"after {intact} records: {err!r}")
        ctx.nontrivial = data is not raw
        ctx.signature(fmt, [n for _, n in recs], kind, len(data), cut, intact, how, plan.chunks)
        ctx.sim_time += fs.reads


CHECK = C05()
