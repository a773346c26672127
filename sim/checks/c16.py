"""C16: everything a simulated job reported is in the result once, in order, with its value."""
from __future__ import annotations

from copy import deepcopy
from itertools import combinations
from pathlib import Path

from .. import common, corpus
from ..castep_extras import QUIRKS
from ..castep_model import castep, merge
from ..common import require
from ..core import Ctx, Violation, leq
from ..runner import Check
from ..simfs import Plan, SimFS


class C16(Check):
    ID = "C16"
    QUICK = 5400
    THOROUGH = 300000
    RULE = ("non-trivial: the job reported at least two events; distinct = format + event shapes + "
            "values + delivery")
    MEASURE = "hash of (format, event sizes, payload, route, delivery)"
    PROBES = ("castep log", "full detail", "molecular dynamics", "optimisation", "several runs",
              "several outputs of one process", "handle", "through parse_single", "eintr",
              "counts past nine",
              *corpus.MODELS)
    REAL = [*common.COMMON_REAL, "every parser with a writer model", "parse_single"]
    STUB = ["CASTEP jobs (event-level writers with a reference model per format)",
            "raw file reads (simulated disk: short reads, EINTR)"]
    ASSUMPTIONS = ["the writer models print as the recorded samples do"]

    def run(self, ctx: Ctx) -> None:
        from castep_outputs import parse_single
        from castep_outputs.parsers.castep_file_parser import Filters, parse_castep_file

        fs = SimFS(ctx)
        shape = []
        total = 0
        n = 1 + (ctx.draw(3, "n-outputs") == 2)
        if n > 1:
            ctx.probe("several outputs of one process")
        for i in range(n):
            formats = list(corpus.MODELS)
            fmt = "castep" if ctx.draw(2, "castep?") else formats[ctx.draw(len(formats), "fmt")]
            ctx.scale = ctx.draw(3, "scale?") == 2
            if ctx.scale:
                ctx.probe("counts past nine")
            doc = corpus.MODELS[fmt](ctx) if fmt != "castep" else castep(ctx, hi=2, extras=True)
            ctx.scale = False
            ctx.probe(fmt)
            data = doc.data()
            path = fs.put(f"out{i}.{fmt}", data)
            plan = Plan(chunks=common.draw_chunks(ctx, 4 * len(data)),
                        buffer=(0, 128, 700)[ctx.draw(3, "buf")] if len(data) < 9000 else 0,
                        eintr=(0, 0, 3)[ctx.draw(3, "eintr")])
            if plan.eintr:
                ctx.probe("eintr")
            fs.plans[path] = plan
            route = ctx.draw(4, "route")
            full = ctx.draw(4, "full") if fmt == "castep" else 0
            full = (0, 1, 1, 2)[full]
            total += len(doc.records)
            shape.append((fmt, [len(r[0]) for r in doc.records], hash_of(data), route, full,
                          plan.chunks, plan.buffer))
            ctx.op(f"read {fmt}, {len(doc.records)} events, route {route}")
            with fs:
                if full:
                    ctx.probe("full detail")
                    got = parse_castep_file(path, Filters.FULL if full == 1 else
                                            Filters.FULL | Filters.TEST_EXTRA_DATA)
                elif route == 0:
                    got = corpus.parser(fmt)(path)
                elif route == 1:
                    got = corpus.parser(fmt)(Path(path))
                elif route == 2:
                    ctx.probe("handle")
                    with open(path, "rb" if doc.binary else "r") as f:
                        got = corpus.parser(fmt)(f)
                else:
                    ctx.probe("through parse_single")
                    got = parse_single(path)
            if fmt == "castep":
                ctx.probe("castep log")
                payloads = [p for _, p in doc.records]
                if any(p[0] == "md" for p in payloads):
                    ctx.probe("molecular dynamics")
                if any(p[0] == "geom" for p in payloads):
                    ctx.probe("optimisation")
                want = merge(payloads, scf=full)
                if len(want) > 1:
                    ctx.probe("several runs")
                got = self._derived(got, want)
                for quirk in self._defects(got, want, payloads, full=full):
                    ctx.known.append(quirk)
                self._order(got, want, payloads)
            else:
                how = doc.match(got)
                require(how is not None, "events-not-as-written", lambda got=got, doc=doc:
                        f"{fmt}: " + common.diff(doc.expected(), got))
                for quirk in how:
                    require(quirk in self.findings, "events-not-as-written",
                            lambda got=got, doc=doc: f"{fmt}: " + common.diff(doc.expected(), got))
                    ctx.known.append(quirk)
        ctx.nontrivial = total >= 2
        ctx.signature(shape)
        ctx.sim_time += fs.reads

    def _defects(self, got, want, payloads, *, full: int) -> tuple:
        """Listed defects which explain the result."""
        if leq(got, want):
            return ()
        listed = [q for q in QUIRKS if q in self.findings
                  and merge(payloads, scf=full, quirks=frozenset({q})) != want]
        for size in range(1, len(listed) + 1):
            for combo in combinations(listed, size):
                if leq(got, merge(payloads, scf=full, quirks=frozenset(combo))):
                    return combo
        if listed:
            want = merge(payloads, scf=full, quirks=frozenset(listed))
        raise Violation("events-not-as-written", "castep: " + common.diff(want, got))

    def _derived(self, got, want):
        """``got`` with the model's figures for what the parser calculates, where they agree."""
        if not any("raman" in w for w in want):
            return got
        got = deepcopy(got)
        for g, w in zip(got, want):
            for modes, model in zip(g.get("raman", ()), w.get("raman", ())):
                for a, b in zip(modes, model):
                    scale = sum(abs(x) for row in b["tensor"] for x in row) + 1
                    for key, power in (("trace", 1), ("ii", 2)):
                        if isinstance(a.get(key), float) and abs(a[key] - b[key]) <= 1e-12 * scale ** power:
                            a[key] = b[key]
        return got

    def _order(self, got, want, payloads) -> None:
        """Lists are compared in order by ``leq``; dict reports of atoms keep file order too."""
        # further rows of a recorded section may stand in the middle of it
        other = {k for p in payloads if p[0] == "section" for k in p[1]["high"]}
        for g, w in zip(got, want):
            for key in ("initial_positions", "mulliken_popn", "hirshfeld"):
                if key in w and key not in other:
                    require(list(g[key]) == list(w[key]), "order-lost", key)


def hash_of(data: bytes) -> str:
    import hashlib
    return hashlib.blake2b(data, digest_size=6).hexdigest()


CHECK = C16()
