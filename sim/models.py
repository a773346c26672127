"""Simulated CASTEP writers: each emits a file and knows what it meant.

A writer produces header lines, a stream of records (each a list of lines and a
payload) and footer lines.  ``assemble(payloads)`` is the reference model: what
a reader must report after those records.  Structure comes from the choice
source; numeric values are unique within a document so each reported number is
attributable to one written number.
"""
from __future__ import annotations

import re
import struct
from dataclasses import dataclass, field
from itertools import combinations, product

from .core import Ctx, loose

SPECIES = ("Si", "O", "H", "Al", "Fe", "C", "B", "N", "Xe", "U")


class Values:
    """Numbers rendered as Fortran would print them.

    Usually all different, so that a misplaced one shows; some documents hold
    zeros, or only a few different values, so that a dropped one shows.
    """

    def __init__(self, ctx: Ctx, label: str = "values") -> None:
        self.rng = ctx.subrng(label)
        self.used: set[str] = set()
        self.flavour = ("unique", "unique", "zeros", "repeats")[ctx.draw(4, "number-flavour")]
        self.pool: dict = {}

    def _uniq(self, make, zero, kind) -> str:
        if self.flavour == "zeros" and not self.rng.randrange(4):
            # programs print the sign of what was rounded to zero
            return "-" + zero if kind[-1] is False and not self.rng.randrange(6) else zero
        if self.flavour == "repeats":
            pool = self.pool.setdefault(kind, [])
            if len(pool) < 3:
                pool.append(make())
            return self.rng.choice(pool)
        for _ in range(1000):
            s = make()
            if s not in self.used and float(s) != 0:
                self.used.add(s)
                return s
        return s

    def fixed(self, dec: int, mag: float = 10.0, *, positive: bool = False) -> str:
        lo = 0.0 if positive else -mag
        return self._uniq(lambda: f"{self.rng.uniform(lo, mag):.{dec}f}",
                          f"{0:.{dec}f}", (dec, mag, positive))

    def expo(self, dec: int = 16, three: bool = True) -> str:
        width = 3 if three else 2

        def make():
            m = self.rng.uniform(1, 9.999) * self.rng.choice((-1, 1))
            e = self.rng.randint(-30, 12)
            sign = "-" if e < 0 else "+"
            return f"{m:.{dec}f}E{sign}{abs(e):0{width}d}"
        return self._uniq(make, f"{0:.{dec}f}E+{0:0{width}d}", (dec, three))

    def listdir(self) -> str:
        """As gfortran's list-directed output: .25E-02, -.31E-13, 34.6, 0.0."""
        def make():
            if self.rng.randrange(2):
                return f"{self.rng.choice(('', '-'))}{self.rng.choice(('', '0'))}" \
                       f".{self.rng.randint(10 ** 15, 10 ** 16 - 1)}E-{self.rng.randint(2, 17):02d}"
            whole = self.rng.choice((0, self.rng.randint(1, 9), self.rng.randint(10, 999)))
            return f"{self.rng.choice(('', '-'))}{whole}.{self.rng.randint(10 ** 12, 10 ** 13 - 1)}"
        return self._uniq(make, "0.000000000000000", "listdir")

    def integer(self, lo: int = 1, hi: int = 9999) -> int:
        return self.rng.randint(lo, hi)


@dataclass
class Doc:
    """A complete simulated output and its meaning."""

    fmt: str
    header: list
    records: list  # (lines, payload)
    footer: list
    assemble: object
    #: listed defects (KNOWN_FINDINGS.txt) that ``assemble`` can imitate
    quirks: tuple = ()
    binary: bool = False
    #: extra facts
    info: dict = field(default_factory=dict)

    def data(self, n: int | None = None) -> bytes:
        """Bytes of the file (header, first n records; footer if complete)."""
        recs = self.records if n is None else self.records[:n]
        parts = list(self.header)
        for lines, _ in recs:
            parts += lines
        if n is None or n >= len(self.records):
            parts += self.footer
        if self.binary:
            return b"".join(parts)
        return "".join(parts).encode()

    def expected(self, n: int | None = None):
        recs = self.records if n is None else self.records[:n]
        return self.assemble([p for _, p in recs])

    def match(self, got, n: int | None = None):
        """Which listed defects explain ``got``: () if correct, None if nothing does."""
        recs = self.records if n is None else self.records[:n]
        payloads = [p for _, p in recs]
        want = loose(got)
        for size in range(len(self.quirks) + 1):
            for combo in combinations(self.quirks, size):
                kw = {"quirks": frozenset(combo)} if combo else {}
                if loose(self.assemble(payloads, **kw)) == want:
                    return combo
        return None

    def boundaries(self) -> list[int]:
        """Byte offsets after header and after each record."""
        out = []
        pos = sum(len(x if self.binary else x.encode()) for x in self.header)
        out.append(pos)
        for lines, _ in self.records:
            pos += sum(len(x if self.binary else x.encode()) for x in lines)
            out.append(pos)
        return out


#: Species of one element told apart by a label, as CASTEP writes them
TAGGED = ("Si", "O:ab", "H:1", "Al", "O")


def _species(ctx: Ctx):
    return TAGGED if ctx.draw(5, "tagged") == 4 else SPECIES


SIZES = (8, 9, 10, 11, 12, 35, 99, 100, 101, 130)


def _n(ctx: Ctx, lo: int, hi: int, what: str, cap: int = 130) -> int:
    """How many: a few, or (one count per document, where asked for) past one or two digits."""
    if ctx.scale and ctx.draw(4, what + "-scale") == 3:
        ctx.scale = False
        sizes = [n for n in SIZES if lo <= n <= cap]
        return sizes[ctx.draw(len(sizes), what + "-size")]
    return ctx.between(lo, hi, what)


def _atoms(ctx: Ctx, hi: int = 4, cap: int = 130) -> list[tuple[str, int]]:
    """Atom indices like CASTEP: numbered from 1 within each species."""
    n = _n(ctx, 1, hi, "n-atoms", cap)
    counts: dict[str, int] = {}
    out = []
    names = _species(ctx)
    for _ in range(n):
        sp = names[ctx.draw(4 + (names is TAGGED), "species")]
        counts[sp] = counts.get(sp, 0) + 1
        out.append((sp, counts[sp]))
    out.sort(key=lambda a: [names.index(a[0]), a[1]])
    return out


ALIASES = {"E": "energy", "T": "temperature", "P": "pressure", "h": "lattice_vectors",
           "hv": "lattice_velocity", "S": "stress", "R": "position", "V": "velocity",
           "F": "force"}


def _aliased(d: dict) -> dict:
    out = dict(d)
    for k, v in d.items():
        if k in ALIASES:
            out[ALIASES[k]] = v
    return out


# -- .md / .geom ---------------------------------------------------------------
def md_frame(vals: Values, atoms, *, geom: bool, blank: str, tags=("E", "T", "P", "h", "hv", "S"),
             vecs=("R", "V", "F")) -> tuple[list[str], dict]:
    lines = []
    frame: dict = {"ions": {a: {} for a in atoms}}

    def e24() -> str:
        return vals.expo(16)

    t = e24()
    if geom:
        # geometry optimisation frames start with the step number
        t = str(vals.integer(0, 99999))
        lines.append(f"{t:>20}\n")
        frame["time"] = float(t)
    else:
        t = t.lstrip("-")
        lines.append(f"{t:>41}\n")
        frame["time"] = float(t)
    shape = {"E": (1, 3), "T": (1, 1), "P": (1, 1), "h": (3, 3), "hv": (3, 3), "S": (3, 3)}
    for tag in tags:
        rows, cols = shape[tag]
        frame[tag] = []
        for _ in range(rows):
            nums = [e24() for _ in range(cols)]
            body = " " * 18 + "".join(f"{x:>27}" for x in nums)
            lines.append(f"{body:<99}  <-- {tag}\n")
            frame[tag].append([float(x) for x in nums])
    for tag in vecs:
        for sp, i in atoms:
            nums = [e24() for _ in range(3)]
            lines.append(f" {sp:<3}{i:>13}" + "".join(f"{x:>27}" for x in nums) + f"  <-- {tag}\n")
            frame["ions"][sp, i][tag] = tuple(float(x) for x in nums)
    lines.append(blank)
    frame["ions"] = {a: _aliased(v) for a, v in frame["ions"].items()}
    return lines, _aliased(frame)


def md(ctx: Ctx, fmt: str | None = None, *, lo: int = 1, hi: int = 6, max_atoms: int = 4,
       scale: bool = False, dos: bool = False) -> Doc:
    fmt = fmt or ("md", "geom")[ctx.draw(2, "md-geom")]
    if scale:  # now and then many more frames, or atoms
        kind = ctx.draw(40, "scale")
        if kind == 39:
            hi = 48
        elif kind == 38:
            max_atoms = 40
        elif kind == 37:
            lo, hi, max_atoms = 99, 140, 1
    atoms = _atoms(ctx, max_atoms)
    n = ctx.between(lo, hi, "n-frames")
    blank = ("\n", "  \n", " \n")[ctx.draw(3, "separator")]
    sets = ((("E", "T", "P", "h", "hv", "S"), ("R", "V", "F")),
            (("E", "h"), ("R", "F")), (("E", "T", "h", "S"), ("R", "V", "F")))
    tags, vecs = sets[ctx.draw(3, "tag-set")]
    vals = Values(ctx)
    comment = ("", "  A comment\n", "  two\n lines here\n", "  5 \u00b5m \u2202\U0001d7d9\n")[ctx.draw(3 + dos, "comment")]
    header = [" BEGIN header\n", " \n", comment, " END header\n", " \n"]
    if dos:
        kind = ctx.draw(12, "header")
        if kind == 11:  # cut off by somebody
            header, comment = [], ""
        elif kind == 10:
            header.pop()
        elif kind == 9:
            header.insert(0, "\n")
    recs = [md_frame(vals, atoms, geom=fmt == "geom", blank=blank, tags=tags, vecs=vecs)
            for _ in range(n)]
    if dos and ctx.draw(6, "dos") == 5:  # copied from another system
        header = [x.replace("\n", "\r\n") for x in header]
        recs = [([x.replace("\n", "\r\n") for x in lines], p) for lines, p in recs]
    return Doc(fmt, header, recs, [], lambda ps: list(ps), 
               info={"atoms": atoms, "blank": blank, "comment": comment.strip()})


# -- headers -------------------------------------------------------------------
def _regular_header(ctx: Ctx, vals: Values, counts: list[tuple[str, int]], *, extra: list[str] = (),
                    style: str = "index", nions: int | None = None):
    """(lines, expected part) of the standard CASTEP header block."""
    nat = nions or _n(ctx, 1, 3, "hdr-atoms")
    lines = [" BEGIN header\n"]
    exp: dict = {}
    for name, val in [("ions", nat), *counts]:
        lines.append(f"  Number of {name:<12} {val:>6}\n")
        exp[name] = val
    lines += list(extra)
    lines.append(" Unit cell vectors (A)\n")
    cell = []
    for _ in range(3):
        row = [vals.fixed(6) for _ in range(3)]
        lines.append("".join(f"{x:>12}" for x in row) + "\n")
        cell.append(tuple(map(float, row)))
    exp["unit_cell"] = cell
    lines.append(" Fractional Co-ordinates\n")
    coords: dict = {"index": [], "u": [], "v": [], "w": [], "spec": [], "mass": []}
    names = _species(ctx)
    for i in range(1, nat + 1):
        pos = [vals.fixed(6, 0.99) for _ in range(3)]
        mass = vals.fixed(6, 200, positive=True)
        sp = names[ctx.draw(4 + (names is TAGGED), "hdr-spec")]
        lines.append(f"{i:>6}" + "".join(f"{x:>12}" for x in pos) + f"   {sp:<6}{mass:>15}\n")
        coords["index"].append(i)
        for k, v in zip("uvw", pos):
            coords[k].append(float(v))
        coords["spec"].append(sp)
        coords["mass"].append(float(mass))
    exp["coords"] = coords
    lines.append(" END header\n")
    return lines, exp, nat


# -- .bands --------------------------------------------------------------------
def bands(ctx: Ctx) -> Doc:
    vals = Values(ctx)
    nk = _n(ctx, 1, 5, "n-kpts")
    neig = _n(ctx, 1, 4, "n-eigs")
    spin = ctx.draw(2, "spin")
    style = ctx.draw(3, "electrons")

    def electrons():
        n = vals.integer(1, 500)
        if not style:
            return str(n), n
        x = f"{n}.{(0, 500, 250)[ctx.draw(3, 'fraction')] if style == 2 else 0:03d}"
        return x, (int(n) if float(x) == n else float(x))

    header = [f"Number of k-points {nk:>4}\n", f"Number of spin components {1 + spin}\n"]
    head: dict = {"k-points": nk, "spin components": 1 + spin, "coords": {}}
    if spin and ctx.draw(2, "per-channel"):
        # a value for each spin channel
        e = [electrons() for _ in range(2)]
        fermi = [vals.fixed(6, 2) for _ in range(2)]
        header += [f"Number of electrons  {e[0][0]}     {e[1][0]}\n",
                   f"Number of eigenvalues {neig:>4}  {neig:>4}\n",
                   f"Fermi energies (in atomic units) {fermi[0]:>12}{fermi[1]:>12}\n"]
        head |= {"electrons": [x for _, x in e], "eigenvalues": [neig, neig],
                 "Fermi energies": [float(x) for x in fermi]}
    else:
        nelec, n = electrons()
        fermi = vals.fixed(6, 2)
        header += [f"Number of electrons  {nelec:>4}\n", f"Number of eigenvalues {neig:>4}\n",
                   f"Fermi energy (in atomic units) {fermi:>12}\n"]
        head |= {"electrons": n, "eigenvalues": neig, "Fermi energy": [float(fermi)]}
    header.append("Unit cell vectors\n")
    cell = []
    for _ in range(3):
        row = [vals.fixed(6, 20) for _ in range(3)]
        header.append("".join(f"{x:>12}" for x in row) + "\n")
        cell.append(tuple(map(float, row)))
    head["unit_cell"] = cell
    recs = []
    for k in range(1, nk + 1):
        q = [vals.fixed(8, 0.9) for _ in range(3)]
        w = vals.fixed(8, 1, positive=True)
        lines = [f"K-point {k:>5} " + " ".join(f"{x:>11}" for x in q) + f" {w:>11}\n"]
        qd: dict = {"qpt": [float(x) for x in q], "weight": float(w), "spin_comp": bool(spin)}
        for s in range(1 + spin):
            lines.append(f"Spin component {s + 1}\n")
            eigs = [vals.fixed(8, 5) for _ in range(neig)]
            lines += [f"{x:>14}\n" for x in eigs]
            qd[("band_up", "band_down")[s] if spin else "band"] = [float(x) for x in eigs]
        recs.append((lines, qd))
    return Doc("bands", header, recs, [], lambda ps: {**head, "bands": list(ps)})


# -- .hug ----------------------------------------------------------------------
def hug(ctx: Ctx) -> Doc:
    vals = Values(ctx)
    n = _n(ctx, 1, 6, "n-hug")
    recs = []
    for _ in range(n):
        row = [vals.fixed(12, 1, positive=True), vals.fixed(8, 900, positive=True),
               vals.fixed(8, 50), vals.fixed(8, 90)]
        recs.append(([f"  {row[0]}  {row[1]:>16}  {row[2]:>16}  {row[3]:>16}  <-- cTPE\n"],
                     [float(x) for x in row]))
    cols = ("compression", "temperature", "pressure", "energy")
    return Doc("hug", [], recs, [],
               lambda ps: {c: [p[i] for p in ps] for i, c in enumerate(cols)} if ps else None)


# -- .efield -------------------------------------------------------------------
def efield(ctx: Ctx) -> Doc:
    vals = Values(ctx)
    q = vals.fixed(1, 90, positive=True)
    nosc = _n(ctx, 2, 6, "n-osc")
    nper = _n(ctx, 2, 6, "n-perm")
    head, exp, _ = _regular_header(ctx, vals, [("branches", nosc), ("frequencies", nper)],
                                   extra=[f"  Oscillator Q             {q:>6}\n"])
    exp["Oscillator Q"] = [float(q)]
    recs = [([" BEGIN Oscillator Strengths   Freq (cm-1)   S xx yy zz yz zx xy ((D/A)**2/amu)\n"],
             ("osc-begin",))]
    for i in range(1, nosc + 1):
        row = [vals.fixed(6, 900) for _ in range(7)]
        recs.append(([f"{i:>9}" + "".join(f"{x:>16}" for x in row) + "\n"],
                     ("osc", i, *map(float, row))))
    recs.append(([" END Oscillator Strengths\n"], ("osc-end",)))
    recs.append(([" BEGIN permittivity   Freq (cm-1)    e_r  xx yy zz yz zx xy\n"],
                 ("per-begin",)))
    for _ in range(nper):
        row = [vals.fixed(6, 900) for _ in range(7)]
        recs.append(([" " + "".join(f"{x:>20}" for x in row) + "\n"],
                     ("per", *map(float, row))))
    recs.append(([" END permittivity\n"], ("per-end",)))
    names = ("xx", "yy", "zz", "yz", "xz", "xy")

    def assemble(ps, quirks=frozenset()):
        shift, drop = "efield-columns" in quirks, "efield-last-row" in quirks
        out = dict(exp)
        done = {p[0] for p in ps}
        if "osc-end" in done:
            rows = [p[1:] for p in ps if p[0] == "osc"]
            if drop:
                rows = rows[:-1]
            base = 0 if shift else 1
            out["oscillator_strengths"] = [
                {"freq": [r[base] for r in rows],
                 **{n: [r[base + 1 + j] for r in rows] for j, n in enumerate(names)}}]
        if "per-end" in done:
            rows = [p[1:] for p in ps if p[0] == "per"]
            if drop:
                rows = rows[:-1]
            out["permittivity"] = [
                {"freq": [r[0] for r in rows],
                 **{n: [r[1 + j] for r in rows] for j, n in enumerate(names)}}]
        return out

    return Doc("efield", head, recs, [], assemble, quirks=("efield-columns", "efield-last-row"))


# -- .elastic ------------------------------------------------------------------
def elastic(ctx: Ctx) -> Doc:
    vals = Values(ctx)
    nat = _n(ctx, 1, 3, "n-el-atoms")
    head, exp, _ = _regular_header(ctx, vals, [], nions=nat)
    recs = []
    kinds = ctx.shuffle([("Elastic Constants  (GPa)", "elastic_constants", "GPa"),
                         ("Compliance Matrix  (GPa^-1)", "compliance_matrix", "GPa^-1"),
                         ("Internal Strain (eV/A)", "internal_strain", "eV/A")], "el-order")
    atoms = []
    counts: dict = {}
    for sp in exp["coords"]["spec"]:
        counts[sp] = counts.get(sp, 0) + 1
        atoms.append((sp, len(atoms) + 1))
    for title, key, unit in kinds[:ctx.between(1, 3, "n-el-blocks")]:
        lines = [f" BEGIN {title}\n"]
        if key == "internal_strain":
            pay: dict = {"units": unit}
            for sp, i in atoms:
                pay[sp, i] = []
                for ax in "XYZ":
                    row = [vals.listdir() for _ in range(6)]
                    lines.append(f"{i:>6}   {sp:<3}     {ax}" + "".join(f"  {x:>22}" for x in row)
                                 + "\n")
                    pay[sp, i].append([float(x) for x in row])
        else:
            rows = []
            for _ in range(6):
                row = [vals.listdir() for _ in range(6)]
                lines.append("".join(f"  {x:>24}" for x in row) + "\n")
                rows.append([float(x) for x in row])
            pay = {"units": unit, "val": rows}
        lines.append(f" END {title.split('(')[0].strip()}\n")
        recs.append((lines, (key, pay)))

    def assemble(ps, quirks=frozenset()):
        out = {**exp, **dict(ps)}
        if "elastic-strain-index" in quirks and "internal_strain" in out:
            out["internal_strain"] = {
                k: v if k == "units" else
                [[float(k[1]), *map(float, re.findall(r"\d+", k[0])), *row] for row in v]
                for k, v in out["internal_strain"].items()}
        return out

    return Doc("elastic", head, recs, [], assemble, quirks=("elastic-strain-index",))


# -- .err ----------------------------------------------------------------------
def err(ctx: Ctx) -> Doc:
    vals = Values(ctx)
    n = ctx.between(1, 3, "n-msg")
    msg = [f"Error number {vals.integer()} in routine_{vals.integer()}" for _ in range(n)]
    depth = _n(ctx, 1, 8, "stack")
    stack = [f"routine_{vals.integer(1, 10 ** 8)}" for _ in range(depth)]
    header = [m + "\n" for m in msg] + ["Current trace stack:\n"]
    return Doc("err", header, [([f" {s}\n"], s) for s in stack], [],
               lambda ps: {"message": "\n".join(msg), "stack": list(ps)})


# -- .ts -----------------------------------------------------------------------
def ts(ctx: Ctx) -> Doc:
    vals = Values(ctx)
    atoms = _atoms(ctx, 3)
    kinds = ["REA", "PRO"] + ["TST"] * _n(ctx, 0, 4, "n-tst")
    names = {"REA": "reagent", "PRO": "product", "TST": "test"}
    confirm = ctx.draw(2, "confirm")
    header = [" TSTYPE TSConfirmation\n"] if confirm else [" TSTYPE LSTMaximum\n"]
    recs = []
    for i, kind in enumerate(kinds):
        coord = vals.expo(8).lstrip("-")
        lines = [f" {kind} {max(1, i - 1):>4}  {coord:>18}\n"]
        curr: dict = {"reaction_coordinate": float(coord)}
        e = [vals.expo(8) for _ in range(2)]
        body = " " * 10 + "".join(f"{x:>21}" for x in e)
        lines.append(f"{body:<73}  <-- E\n")
        curr["E"] = [[float(x) for x in e]]
        curr["h"] = []
        for _ in range(3):
            h = [vals.expo(8) for _ in range(3)]
            lines.append(" " * 10 + "".join(f"{x:>21}" for x in h) + "  <-- h\n")
            curr["h"].append([float(x) for x in h])
        for tag in "RF":
            for sp, j in atoms:
                v = [vals.expo(8) for _ in range(3)]
                lines.append(f" {sp:<3}{j:>9}" + "".join(f"{x:>21}" for x in v) + f"  <-- {tag}\n")
                curr.setdefault((sp, j), {})[tag] = [float(x) for x in v]
        curr = {k: _aliased(v) if isinstance(k, tuple) else v for k, v in curr.items()}
        lines.append("  \n")
        recs.append((lines, (names[kind], _aliased(curr))))

    def assemble(ps):
        out: dict = {"confirmation": True} if confirm else {}
        for key, val in ps:
            out.setdefault(key, []).append(val)
        return out

    return Doc("ts", header, recs, [], assemble)


# -- .tddft --------------------------------------------------------------------
def tddft(ctx: Ctx) -> Doc:
    vals = Values(ctx)
    header = ["BEGIN header\n", " CASTEP generated TDDFT output\n"]
    tops = []
    for ch in range(1, 1 + ctx.draw(3, "channels")):
        tops.append(vals.integer(1, 120))
        header.append(f" Highest occupied band for spin channel {ch}{tops[-1]:>11}\n")
    header += [" Energies in eV\n", " Unit cell vectors (A)\n"]
    cell = []
    for _ in range(3):
        row = [vals.fixed(6) for _ in range(3)]
        header.append("".join(f"{x:>12}" for x in row) + "\n")
        cell.append([float(x) for x in row])
    header.append(" Fractional Co-ordinates\n")
    coords = {}
    for sp, i in _atoms(ctx, 3):
        pos = [vals.fixed(6, 0.99) for _ in range(3)]
        header.append(f" {sp:<3}{i:>8}" + "".join(f"{x:>13}" for x in pos) + "\n")
        coords[sp, i] = [float(x) for x in pos]
    header.append("END header\n")
    recs = [(["BEGIN Characterisation of states as Kohn-Sham bands\n",
              " State      Occ.         Unocc.        Overlap\n"], ("o-begin",))]
    nst = _n(ctx, 1, 4, "n-states")
    for st in range(1, nst + 1):
        lines = []
        curr: dict = {}
        for j in range(_n(ctx, 1, 3, "n-overlap")):
            ov = vals.fixed(6, 0.99, positive=True)
            occ, un = vals.integer(1, 120), 121 + j
            lines.append(f"{st:>10}{occ:>10} -->{un:>11}{ov:>15}\n")
            curr[occ, un] = float(ov)
        tot = vals.fixed(6, 0.99, positive=True)
        lines.append(f" Total overlap for state{st:>5} = {tot}\n")
        curr["total"] = float(tot)
        recs.append((lines, ("o", curr)))
    recs.append((["END Characterisation of states as Kohn-Sham bands\n"], ("o-end",)))
    recs.append((["BEGIN TDDFT Spectroscopic Data\n",
                  " State   Energy   Characterisation Converged  Dipoles\n"], ("s-begin",)))
    for st in range(1, nst + 1):
        en = vals.fixed(10, 20, positive=True)
        ch = ("Singlet", "Triplet", "ReallyLong")[ctx.draw(3, "character")]
        conv = ("Yes", "No")[ctx.draw(2, "converged")]
        dip = [vals.expo(12) for _ in range(6)]
        recs.append(([f"{st:>8} {en:>20}  {ch:<12} {conv:<4} " + " ".join(f"{x:>24}" for x in dip)
                      + "\n"],
                     ("s", {"energy": float(en), "characterisation": ch, "converged": conv == "Yes",
                            "dipoles": [complex(float(a), float(b))
                                        for a, b in zip(dip[::2], dip[1::2])]})))
    recs.append((["END TDDFT Spectroscopic Data\n"], ("s-end",)))

    def assemble(ps, quirks=frozenset()):
        out: dict = {"unit_cell": cell, "coords": coords}
        if tops and "tddft-highest-band" not in quirks:
            out["highest_occupied_band"] = tops
        done = {p[0] for p in ps}
        if "o-end" in done:
            out["overlap"] = [p[1] for p in ps if p[0] == "o"]
        if "s-end" in done:
            out["spectroscopic_data"] = [p[1] for p in ps if p[0] == "s"]
        return out

    return Doc("tddft", header, recs, [], assemble,
               quirks=("tddft-highest-band",) if tops else ())


# -- .phonon -------------------------------------------------------------------
def phonon(ctx: Ctx) -> Doc:
    vals = Values(ctx)
    nat = _n(ctx, 1, 3, "n-ph-atoms", 35)
    nb = 3 * nat
    nq = _n(ctx, 1, 4, "n-q")
    ir, raman = ctx.draw(2, "ir"), ctx.draw(2, "raman")
    extra = [" Frequencies in         cm-1\n", " IR intensities in      (D/A)**2/amu\n",
             " Raman activities in    A**4 amu**(-1)\n"]
    head, exp, _ = _regular_header(ctx, vals, [("branches", nb), ("wavevectors", nq)],
                                   extra=extra, nions=nat)
    recs = []
    for q in range(1, nq + 1):
        pt = [vals.fixed(6, 0.99) for _ in range(3)]
        w = vals.fixed(10, 1, positive=True)
        line = f"     q-pt={q:>5}  " + "".join(f"{x:>10}" for x in pt) + f"{w:>18}"
        qd: dict = {"qpt": [float(x) for x in pt], "weight": float(w)}
        if ctx.draw(3, "q-dir") == 2:
            d = [vals.fixed(6, 0.99) for _ in range(3)]
            line += "".join(f"{x:>10}" for x in d)
            qd["dir"] = [float(x) for x in d]
        lines = [line + "\n"]
        qd["eigenvalues"] = []
        for b in range(1, nb + 1):
            f = vals.fixed(6, 2000)
            row = f"{b:>8}{f:>15}"
            qd["eigenvalues"].append(float(f))
            if ir:
                x = vals.fixed(7, 90, positive=True)
                row = f"{row:<31}{x:>15}"
                qd.setdefault("ir_intensity", []).append(float(x))
            if raman:
                x = vals.fixed(7, 90, positive=True)
                row = f"{row:<55}{x:>15}"
                qd.setdefault("raman_intensity", []).append(float(x))
            lines.append(f"{row:<70}\n")
        lines += ["                        Phonon Eigenvectors\n",
                  "Mode Ion                X                                   Y"
                  "                                   Z\n"]
        qd["eigenvectors"] = []
        for b in range(1, nb + 1):
            for a in range(1, nat + 1):
                v = [vals.fixed(12, 0.99) for _ in range(6)]
                lines.append(f"{b:>4}{a:>4}" + "".join(f"{x:>16}" for x in v) + "\n")
                qd["eigenvectors"].append([complex(float(v[i]), float(v[i + 1]))
                                           for i in (0, 2, 4)])
        recs.append((lines, qd))
    return Doc("phonon", head, recs, [],
               lambda ps: {**exp, "qpts": list(ps)} if ps else dict(exp))


# -- .phonon_dos ---------------------------------------------------------------
def phonon_dos(ctx: Ctx) -> Doc:
    vals = Values(ctx)
    nat = _n(ctx, 1, 3, "n-pd-atoms")
    nb = 3 * nat
    nbins = _n(ctx, 2, 6, "n-bins")
    head, exp, _ = _regular_header(ctx, vals, [("species", 1), ("branches", nb), ("bins in DOS", nbins)],
                                   nions=nat)
    spec = list(dict.fromkeys(exp["coords"]["spec"]))
    recs = [([" BEGIN GRADIENTS   n   f   |Grad_q f|\n"], ("g-begin",))]
    for q in range(1, _n(ctx, 1, 3, "n-grad-q") + 1):
        pt = [vals.fixed(6, 0.99) for _ in range(3)]
        w = vals.fixed(10, 1, positive=True)
        lines = [f"     q-pt={q:>5}  " + "".join(f"{x:>10}" for x in pt) + f"{w:>18}\n"]
        qd: dict = {"qpt": [float(x) for x in pt], "pth": [float(w)], "n": [], "f": [],
                    "Grad_qf": []}
        for b in range(1, nb + 1):
            f, g = vals.fixed(6, 900, positive=True), vals.fixed(7, 900, positive=True)
            lines.append(f"{b:>8}{f:>15}{g:>22}\n")
            qd["n"].append(b)
            qd["f"].append(float(f))
            qd["Grad_qf"].append(float(g))
        recs.append((lines, ("g", qd)))
    recs.append(([" END GRADIENTS\n"], ("g-end",)))
    recs.append(([" BEGIN DOS   Freq (cm-1)  g(f)" + "".join(f"   {s:<3}" for s in spec) + "\n"],
                 ("d-begin",)))
    for _ in range(nbins):
        row = [vals.fixed(1, 900), vals.fixed(6, 9, positive=True),
               *(vals.fixed(6, 9, positive=True) for _ in spec)]
        recs.append((["".join(f"  {x:>9}" for x in row) + "\n"], ("d", *map(float, row))))
    recs.append(([" END DOS\n"], ("d-end",)))

    def assemble(ps, quirks=frozenset()):
        drop = "phonon-dos-last-bin" in quirks
        out: dict = dict(exp)
        if "phonon-dos-empty-key" in quirks:
            out[""] = ()
        done = {p[0] for p in ps}
        if "g-end" in done:
            out["gradients"] = [p[1] for p in ps if p[0] == "g"]
        if "d-end" in done:
            rows = [p[1:] for p in ps if p[0] == "d"]
            if drop:
                rows = rows[:-1]
            out["dos"] = [{c: [r[i] for r in rows] for i, c in enumerate(("freq", "g", *spec))}]
        return out

    return Doc("phonon_dos", head, recs, [], assemble,
               quirks=("phonon-dos-last-bin", "phonon-dos-empty-key"))


# -- .xrd_sf -------------------------------------------------------------------
def xrd_sf(ctx: Ctx) -> Doc:
    vals = Values(ctx)
    cols = ["F_PAW", "F_IAM", "F_PP", "F_core", "F_soft", "F_aug"][:ctx.between(1, 6, "n-cols")]
    header = ["   h   k   l" + "".join(f"{f'Re({c})':>12}{f'Im({c})':>12}" for c in cols) + "\n"]
    recs = []
    for _ in range(_n(ctx, 1, 6, "n-xrd")):
        q = [vals.integer(-99, 99) for _ in range(3)]
        row = [vals.fixed(6, 200) for _ in range(2 * len(cols))]
        recs.append((["".join(f"{x:>4}" for x in q) + "".join(f"{x:>12}" for x in row) + "\n"],
                     (q, [complex(float(row[2 * i]), float(row[2 * i + 1]))
                          for i in range(len(cols))])))

    def assemble(ps):
        if not ps:
            return {}
        return {"qvec": [p[0] for p in ps],
                **{c.lower(): [p[1][i] for p in ps] for i, c in enumerate(cols)}}

    return Doc("xrd_sf", header, recs, [], assemble)


# -- .magres -------------------------------------------------------------------
def magres(ctx: Ctx) -> Doc:
    vals = Values(ctx)
    atoms = _atoms(ctx, 3)
    name = f"seed{vals.integer()}"
    # CASTEP ran species and number together once the number filled its columns
    version, width = (("23.1", 5), ("23.1", 5), ("19.11", 3), ("22.11", 5), ("8.0", 3))[ctx.draw(5, "version")]
    joined = ctx.draw(3, "joined") == 2
    if joined:
        first = 10 ** (width - 1) + ctx.draw(3, "first-number")
        atoms = [(sp, i + first - 1) for sp, i in atoms]
    header = ["#$magres-abinitio-v1.0\n", "[calculation]\n", "calc_code CASTEP\n",
              f"calc_code_version  {version}\n", f"calc_name {name}\n", "calc_comment\n",
              "[/calculation]\n"]
    calc = {"code": "CASTEP", "code_version": version, "name": name}
    lat = [vals.expo(16, three=False) for _ in range(9)]
    lines = ["[atoms]\n", "units lattice Angstrom\n", "lattice " + " ".join(lat) + "\n",
             "units atom Angstrom\n"]
    coords = {}
    for sp, i in atoms:
        p = [vals.expo(16, three=False) for _ in range(3)]
        lines.append(f"atom {sp:<3} {sp:<3} {i:>4} " + " ".join(p) + "\n")
        coords[sp, i] = [float(x) for x in p]
    lines.append("[/atoms]\n")
    recs = [(lines, ("atoms", {"units": {"lattice": "Angstrom", "atom": "Angstrom"},
                               "lattice": [float(x) for x in lat], "coords": coords}))]
    lines = ["[magres]\n", "units ms ppm\n"]
    mag: dict = {"units": {"ms": "ppm"}}
    for key, alias in (("ms", "magnetic_resonance_shielding"), ("efg", "electric_field_gradient"),
                       ("efg_local", "local_electric_field_gradient"),
                       ("efg_nonlocal", "nonlocal_electric_field_gradient")):
        if key != "ms" and ctx.draw(2, "mag-kind"):
            continue
        mag[key] = {}
        if key == "efg":
            lines.append("units efg au\n")
            mag["units"]["efg"] = "au"
        for sp, i in atoms:
            t = [vals.expo(16, three=False) for _ in range(9)]
            lines.append(f"{key} {sp}{i:>{width}} " + " ".join(t) + "\n")
            mag[key][sp, i] = [float(x) for x in t]
        mag[alias] = mag[key]
    for key, alias in (("isc_fc", "j_coupling_fc"), ("isc_orbital_p", "j_coupling_orbital_p"),
                       ("isc_orbital_d", "j_coupling_orbital_d"), ("isc_spin", "j_coupling_spin"),
                       ("isc", "j_coupling_k_total")):
        if not ctx.draw(3, "isc") and len(atoms) < 13:
            mag[key] = {}
            for a in atoms:
                for b in atoms:
                    t = [vals.expo(16, three=False) for _ in range(9)]
                    lines.append(f"{key} {a[0]} {a[1]} {b[0]} {b[1]} " + " ".join(t) + "\n")
                    mag[key][a, b] = [float(x) for x in t]
            mag[alias] = mag[key]
    lines.append("[/magres]\n")
    recs.append((lines, ("magres", mag)))
    if ctx.draw(3, "old-block") == 2:
        lines, tensors, info = ["[magres_old]\n"], {}, {}
        for sp, i in atoms:
            who = f"{sp} {i:>8}"
            d: dict = {"coords": coords[sp, i], "eigenvalue": [], "eigenvector": []}
            t = [[vals.fixed(4, 900) for _ in range(3)] for _ in range(3)]
            tensors[sp, i] = [[float(x) for x in row] for row in t]
            lines += ["============\n", f"Atom: {who}\n", "============\n",
                      f"{who} Coordinates      0.000    0.000    0.000   A\n", "\n", "TOTAL Shielding Tensor\n", "\n",
                      *("              " + "".join(f"{x:>12}" for x in row) + "\n" for row in t), "\n"]
            for ax in ("xx", "yy", "zz"):
                val, vec = vals.fixed(4, 900), [vals.fixed(4, 1) for _ in range(3)]
                lines += [f"{who} Eigenvalue  sigma_{ax} {val:>12} (ppm)\n",
                          f"{who} Eigenvector sigma_{ax} " + "".join(f"{x:>12}" for x in vec) + "\n"]
                d["eigenvalue"].append(float(val))
                d["eigenvector"].append([float(x) for x in vec])
            lines.append("\n")
            for key, unit in (("Isotropic:", " (ppm)"), ("Anisotropy:", " (ppm)"), ("Asymmetry:", "")):
                val = vals.fixed(4, 900)
                lines.append(f"{who} {key:<12} {val:>12}{unit}\n")
                d[key.strip(":").lower()] = float(val)
            lines.append("\n")
            info[sp, i] = d
        lines.append("[/magres_old]\n")
        recs.append((lines, ("old", (tensors, info))))

    def assemble(ps, quirks=frozenset()):
        out = {"calc": calc}
        for key, val in ps:
            if key != "old":
                out[key] = val
                continue
            tensors, info = val
            if len(tensors) == 1 or "magres-old-shielding" in quirks:
                out["total_shielding"] = list(tensors.values())[-1]
            else:
                out["total_shielding"] = tensors
            ren = {"eigenvalue": "eigvenvalue", "eigenvector": "eigvenvector"} \
                if "magres-old-names" in quirks else {}
            out["atom_info"] = {a: {ren.get(k, k): x for k, x in d.items()} for a, d in info.items()}
        return out

    return Doc("magres", header, recs, [], assemble,
               quirks=("magres-old-names", "magres-old-shielding") if len(recs) > 2 else ())


# -- *_fmt ---------------------------------------------------------------------
def grid_fmt(ctx: Ctx, fmt: str | None = None) -> Doc:
    fmt = fmt or ("elf_fmt", "chdiff_fmt", "pot_fmt", "den_fmt")[ctx.draw(4, "fmt")]
    vals = Values(ctx)
    title, cols = {"elf_fmt": ('"<a b c> chi_alpha chi_beta"', ["chi_alpha", "chi_beta"]),
                   "chdiff_fmt": ('"<a b c> charge" in units of electrons/grid_point'
                                  " * number of grid_points", ["charge"]),
                   "pot_fmt": ('"<a b c> pot" in units of Hartrees', ["pot"]),
                   "den_fmt": ('"<a b c> charge" in units of electrons/grid_point'
                               " * number of grid_points", ["charge"])}[fmt]
    n = [ctx.between(1, 4, "n-grid") for _ in range(3)]
    if ctx.scale and ctx.draw(3, "grid-scale") == 2:
        n[ctx.draw(3, "grid-axis")] = SIZES[ctx.draw(len(SIZES), "grid-size")]
    nspins = 2 if fmt == "elf_fmt" else 1
    if fmt in ("pot_fmt", "den_fmt") and ctx.draw(3, "grid-spin") == 2:
        # the spin is a column of its own
        nspins = 2
        title, cols = {"pot_fmt": ('"<a b c> pot_up pot_down" in units of Hartrees', ["pot_up", "pot_down"]),
                       "den_fmt": ('"<a b c> charge spin" in units of electrons/grid_point'
                                   " * number of grid_points", ["charge", "spin"])}[fmt]
    header = [" BEGIN header\n", "\n",
              "           Real Lattice(A)               Lattice parameters(A)    Cell Angles\n"]
    for i, (a, al) in enumerate((("a", "alpha"), ("b", "beta "), ("c", "gamma"))):
        row = ["0.0000000"] * 3
        row[i] = vals.fixed(7, 9, positive=True)
        header.append("".join(f"{x:>12}" for x in row) + f"     {a} = {row[i]}  {al} =   90.0\n")
    header += ["\n", f"   {nspins}                            ! nspins\n",
               f"{n[0]:>4}  {n[1]:>4}  {n[2]:>4}                ! fine FFT grid along <a,b,c>\n",
               f" END header: data is {title}\n", "\n"]
    recs = []
    for k, j, i in product(*(range(1, x + 1) for x in n[::-1])):
        row = [vals.fixed(6, 90) for _ in cols]
        recs.append(([f"{i:>6}{j:>6}{k:>6}" + "".join(f"{x:>20}" for x in row) + "\n"],
                     ([i, j, k], [float(x) for x in row])))

    def assemble(ps):
        if not ps:
            return {}
        return {"q": [p[0] for p in ps],
                **{c: [p[1][j] for p in ps] for j, c in enumerate(cols)}}

    return Doc(fmt, header, recs, [], assemble)


# -- .epme ---------------------------------------------------------------------
def epme(ctx: Ctx) -> Doc:
    vals = Values(ctx)
    nb, nbr = _n(ctx, 1, 2, "n-bands", 11), _n(ctx, 1, 3, "n-branch")
    vol, fermi = vals.fixed(10, 900, positive=True), vals.expo(16)
    header = [" Electron-phonon coupling file\n", " Version           1\n",
              " All units are atomic units\n", f" Unit cell volume   {vol}     \n",
              f" Fermi Energy  {fermi}     \n", f" Number of bands:    {nb:>8}\n",
              f" Number of phonon branches: {nbr:>8}\n"]
    head = {"version": 1, "volume": float(vol), "fermi_energy": float(fermi), "n_bands": nb,
            "n_branches": nbr}
    recs = []
    for _ in range(_n(ctx, 1, 3, "n-pairs")):
        ki, kf = ([vals.fixed(6, 0.99) for _ in range(3)] for _ in range(2))
        lead = ["Electron-Phonon coupling matrix elements between kpoints ("
                + "".join(f"{x:>12}" for x in ki) + ") and (" + "".join(f"{x:>12}" for x in kf)
                + ")\n",
                "Ph index  Band_i  Band_f      ph_freq         E_i         E_f          "
                "velocity for band 1                 velocity for band 2   EP Matrix\n"]
        for p in range(1, nbr + 1):
            for bi in range(1, nb + 1):
                for bf in range(1, nb + 1):
                    row = [vals.fixed(6, 0.99) for _ in range(11)]
                    recs.append((
                        [*lead, f"{p:>8}{bi:>8}{bf:>8}" + "".join(f"{x:>13}" for x in row) + "\n"],
                        ([float(x) for x in ki], [float(x) for x in kf], (p, bi, bf),
                         [float(x) for x in row])))
                    lead = []

    def assemble(ps, quirks=frozenset()):
        # 11 numbers: ph_freq E_i E_f v1(3) v2(3) EP(2)
        shift = "epme-columns" in quirks
        o = 0 if shift else 1
        return {**head, "data": [
            {"kpt_i": ki, "kpt_f": kf, "ph_index": idx[0], "band_i": idx[1], "band_f": idx[2],
             **({} if shift else {"ph_freq": r[0]}),
             "e_i": r[o], "e_f": r[o + 1], "velocity": [r[o + 2:o + 5], r[o + 5:o + 8]],
             "e_p_matrix": complex(r[o + 8], r[o + 9])} for ki, kf, idx, r in ps]}

    return Doc("epme", header, recs, [], assemble, quirks=("epme-columns",))


# -- Fortran unformatted ---------------------------------------------------------
def record(data: bytes) -> bytes:
    n = struct.pack(">i", len(data))
    return n + data + n


def _d(*xs: float) -> bytes:
    return struct.pack(f">{len(xs)}d", *xs)


def _i(*xs: int) -> bytes:
    return struct.pack(f">{len(xs)}i", *xs)


def cst_esp(ctx: Ctx) -> Doc:
    vals = Values(ctx)
    nx, ny, nz = (_n(ctx, 1, 4, d) for d in ("nx", "ny", "nz"))
    mgga = ctx.draw(2, "mgga") if nx > 1 else 0
    header = [record(_i(1)), record(_i(nx, ny, nz))]
    recs = []
    for part in range(1 + mgga):
        for x in range(1, nx + 1):
            for y in range(1, ny + 1):
                col = [complex(float(vals.fixed(6)), float(vals.fixed(6))) for _ in range(nz)]
                recs.append(([record(_i(x, y) + b"".join(_d(c.real, c.imag) for c in col))],
                             (part, x, y, col)))

    def assemble(ps):
        out: dict = {"n_spins": 1, "grid": [nx, ny, nz]}
        planes: list = [{}, {}]
        for part, x, _y, col in ps:
            planes[part].setdefault(x, []).append(col)
        out["esp"] = list(planes[0].values())
        if planes[1]:
            out["mgga"] = list(planes[1].values())
        return out

    return Doc("cst_esp", header, recs, [], assemble, binary=True)


def epme_bin(ctx: Ctx) -> Doc:
    vals = Values(ctx)

    def f() -> float:
        return float(vals.fixed(6))

    nsp = 1
    nat = _n(ctx, 1, 3, "n-eb-atoms")
    nb = _n(ctx, 1, 2, "n-eb-bands", 11)
    npair = _n(ctx, 1, 3, "n-eb-pairs")
    fermi = f()
    lat = [f() for _ in range(9)]
    header = [record(b"EPME"), record(_i(1)), record(b"HEADER"), record(_i(nsp)), record(_d(fermi)),
              record(b"ATOM"), record(_i(nat)), record(_d(*lat))]
    ions = {}
    names = _species(ctx)
    for i in range(1, nat + 1):
        sp = names[ctx.draw(4, "eb-spec")]
        pos = [f() for _ in range(3)]
        header += [record(_i(i)), record(f"{sp:<8}".encode()), record(_d(*pos))]
        ions[sp, i] = pos
    header += [record(b"KPOINT"), record(_i(npair * 2)), record(_i(nb))]
    kpts = {}
    for s in range(1, nsp + 1):
        for k in range(1, npair * 2 + 1):
            eig, vel = [f() for _ in range(nb)], [f() for _ in range(3 * nb)]
            header += [record(_i(s)), record(_i(k)), record(_i(nb)), record(_i(1)),
                       record(_d(*eig)), record(_d(*vel))]
            kpts[s, k] = {"n_bands": nb, "min_band": 1, "eigenvalues": eig, "velocities": vel}
    header += [record(b"EPCOUPLING"), record(_i(npair)), record(_i(nb * nb))]
    recs = []
    for p in range(npair):
        freq = [f() for _ in range(3 * nat)]
        modes = [complex(f(), f()) for _ in range(2)]
        mat = [complex(f(), f()) for _ in range(nb * nb)]

        def c(xs):
            return b"".join(_d(x.real, x.imag) for x in xs)

        recs.append(([record(_i(3 * nat)), record(_i(nb)), record(_i(nb)),
                      record(_i(2 * p + 1, 2 * p + 2)), record(_d(*freq)), record(c(modes)),
                      record(c(mat))],
                     {"kpts": [2 * p + 1, 2 * p + 2], "frequencies": freq, "modes": modes,
                      "matrix_elements": mat}))
    head = {"version": 1, "n_spins": nsp, "fermi_energy": fermi, "n_ions": nat,
            "real_lattice": lat, "ions": ions, "n_kpoint_pairs": npair, "n_bands": nb,
            "kpoints": kpts}
    return Doc("epme_bin", header, recs, [], lambda ps: {**head, "phonons": list(ps)}, binary=True)


WRITERS = {
    "md": lambda c: md(c, "md"), "geom": lambda c: md(c, "geom"), "bands": bands, "hug": hug,
    "efield": efield, "elastic": elastic, "err": err, "ts": ts, "tddft": tddft, "phonon": phonon,
    "phonon_dos": phonon_dos, "xrd_sf": xrd_sf, "magres": magres,
    "elf_fmt": lambda c: grid_fmt(c, "elf_fmt"), "chdiff_fmt": lambda c: grid_fmt(c, "chdiff_fmt"),
    "pot_fmt": lambda c: grid_fmt(c, "pot_fmt"), "den_fmt": lambda c: grid_fmt(c, "den_fmt"),
    "epme": epme, "cst_esp": cst_esp, "epme_bin": epme_bin,
}
