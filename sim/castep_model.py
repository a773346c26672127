"""Simulated CASTEP jobs: what a job wrote to its log and what it meant.

A job is a list of events; each event is (lines, payload).  Payloads are small
instructions a reader's result must reflect, replayed by ``merge`` on a plain
dict - the reference model of a run.
"""
from __future__ import annotations

from copy import deepcopy

from . import templates
from .castep_extras import KPOINT_Z, MAKERS, MEMORY_COMMA, ORBITAL_TOTAL, QUIRKS, Extras
from .castep_tables import BERRY_TABLES, INTERNAL_IMAGE, PSPOT_CHARGE
from .core import Ctx
from .models import SPECIES, Doc, Values, _atoms

BANNER = [" +-------------------------------------------------+\n",
          " |                                                 |\n",
          " |      CCC   AA    SSS  TTTTT  EEEEE  PPPP        |\n",
          " |                                                 |\n",
          " +-------------------------------------------------+\n", "\n", "\n"]
RULE = "=" * 80 + "\n"
DASH = "-" * 80 + "\n"


class Job(Extras):
    """Event vocabulary of one simulated job."""

    def __init__(self, ctx: Ctx, vals: Values, number: int, *, sections: bool = False,
                 extras: bool = False) -> None:
        self.ctx = ctx
        self.sections = sections and templates.load()
        self.extras = extras
        self.used: list[str] = []
        self.barred: set[str] = set()
        self.v = vals
        self.number = number
        self.atoms = _atoms(ctx, 3)

    # -- header events -----------------------------------------------------------
    def build(self):
        stamp = self.v.integer(100000, 999999)
        lines = [*BANNER, f" Compiled for linux_x86_64_gfortran on 14-04-2023 run {self.number}\n",
                 f" from code version {stamp} master Fri Apr 14 2023 +0100\n",
                 " Compiler: GNU Fortran 12.2.1; Optimisation: FAST\n",
                 f" Comms   : Open MPI v4.1.{self.number}\n", " MATHLIBS: blas (LAPACK version 3.11.0)\n",
                 " FFT Lib : fftw3 version fftw-3.3.10\n",
                 " Fundamental constants values: CODATA 2018\n", "\n"]
        return lines, ("new", {
            "summary": "Compiled for linux_x86_64_gfortran on 14-04-2023 run "
                       f"{self.number} from code version {stamp} master Fri Apr 14 2023 +0100",
            "compiler": "GNU Fortran 12.2.1; Optimisation: FAST",
            "comms": f"Open MPI v4.1.{self.number}", "mathlibs": "blas (LAPACK version 3.11.0)",
            "fft_lib": "fftw3 version fftw-3.3.10",
            "fundamental_constants_values": "CODATA 2018"})

    def started(self):
        when = f"Wed, 13 Mar 2024 21:18:{self.v.integer(10, 59)} +0000"
        return [f" Run started: {when}\n", "\n"], ("set", "time_started", when)

    def title(self):
        t = f"{('Simulated', '\u00c9tude \u212b')[self.ctx.draw(6, 'title') == 5]} job {self.v.integer()}"
        return ([" ************************************ Title ************************************\n",
                 f" {t}\n", "\n"], ("set", "title", t))

    def continuation(self):
        name = f"seed{self.v.integer()}.check"
        return ([f"Reading continuation data from model file {name}\n", "\n"],
                ("set", "continuation", name))

    def masses(self):
        lines = ["                               Mass of species in AMU\n"]
        out = {}
        for sp in dict.fromkeys(a[0] for a in self.atoms):
            m = self.v.fixed(7, 200, positive=True)
            lines.append(f"{sp:>38}{m:>14}\n")
            out[sp] = float(m)
        return [*lines, "\n"], ("mass", out)

    def warning(self):
        n = self.v.integer()
        kind = self.ctx.draw(4, "warn-kind")
        if kind == 2 and "spin" not in self.barred:
            # nothing stands between it and what is printed next
            text = f"WARNING - setting {n} too high to be efficient"
            lines, (_, parts) = self.spin()
            return [f" {text}\n", *lines], ("lines", [(1, ("append", "warning", text)), *parts])
        if kind == 3:
            text = f"cell_check_{n}:  Warning - odd angle"
            return ([f"{text}\n", "     between a and b\n", "     between b and c\n", "\n"],
                    ("lines", [(1, ("append", "warning", text)), (1, ("extend", "warning", " between a and b")),
                               (2, ("extend", "warning", " between b and c"))]))
        if kind:
            return ([f" WARNING - setting {n} too low to be accurate\n",
                     "         - proceed with caution ...\n", "\n"],
                    ("lines", [(1, ("append", "warning",
                                    f"WARNING - setting {n} too low to be accurate")),
                               (2, ("extend", "warning", " - proceed with caution ..."))]))
        mark = "?" * 71 + "\n"
        return ([mark, f"          Warning in routine_{n}\n", f"   value {n} adjusted\n", mark],
                ("append", "warning", f"Warning in routine_{n} value {n} adjusted"))

    # -- geometry ------------------------------------------------------------------
    def cell(self, key="initial_cell"):
        v = self.v
        real = [[v.fixed(7, 9) for _ in range(3)] for _ in range(3)]
        recip = [[v.fixed(9, 9) for _ in range(3)] for _ in range(3)]
        par = [v.fixed(6, 9, positive=True) for _ in range(3)]
        ang = [v.fixed(6, 170, positive=True) for _ in range(3)]
        vol, da, dg = (v.fixed(6, 99, positive=True) for _ in range(3))
        lines = ["                           -------------------------------\n",
                 "                                      Unit Cell\n",
                 "                           -------------------------------\n",
                 "        Real Lattice(A)                      Reciprocal Lattice(1/A)\n"]
        lines += ["".join(f"{x:>14}" for x in r) + "     " + "".join(f"{x:>14}" for x in k) + "\n"
                  for r, k in zip(real, recip)]
        lines += ["\n", "                       Lattice parameters(A)       Cell Angles\n"]
        lines += [f"                    {a} = {p:>13}          {n} = {x:>11}\n"
                  for a, n, p, x in zip("abc", ("alpha", "beta ", "gamma"), par, ang)]
        lines += ["\n", f"                Current cell volume = {vol:>21} A**3\n",
                  f"                            density = {da:>21} amu/A**3\n",
                  f"                                    = {dg:>21} g/cm^3\n", "\n"]
        return lines, ("set", key, {
            "real_lattice": [[float(x) for x in r] for r in real],
            "recip_lattice": [[float(x) for x in r] for r in recip],
            "lattice_parameters": [float(x) for x in par], "cell_angles": [float(x) for x in ang],
            "volume": float(vol), "density_amu": float(da), "density_g": float(dg)})

    def positions(self, key="initial_positions"):
        lines = ["                           -------------------------------\n",
                 "                                     Cell Contents\n",
                 "                           -------------------------------\n", "\n",
                 "            " + "x" * 60 + "\n",
                 "            x  Element    Atom        Fractional coordinates of atoms  x\n",
                 "            x            Number           u          v          w      x\n",
                 "            x----------------------------------------------------------x\n"]
        out = {}
        for a in self.atoms:
            p = [self.v.fixed(6, 0.99) for _ in range(3)]
            lines.append(f"            x  {a[0]:<3}{a[1]:>13}      " + "".join(f"{x:>11}" for x in p)
                         + "   x\n")
            out[a] = [float(x) for x in p]
        return [*lines, "            " + "x" * 60 + "\n", "\n"], ("set", key, out)

    def memory(self, what="Electronic energy minimisation requirements"):
        v = self.v
        m = [(v.fixed(1, 900, positive=True), v.fixed(1, 90, positive=True)) for _ in range(2)]
        lines = ["+---------------- MEMORY AND SCRATCH DISK ESTIMATES PER PROCESS --------------+\n",
                 "|                                                     Memory          Disk    |\n"]
        out = {}
        for name, (a, b) in zip(("Model and support data", what), m):
            lines.append(f"| {name:<48}{a:>8} MB {b:>11} MB |\n")
            out["_".join(name.lower().split())] = {"memory": float(a), "disk": float(b)}
        lines += ["|                                               ----------------------------- |\n",
                  "| Approx. total storage required per process           19.8 MB         0.0 MB |\n",
                  "|                                                                             |\n",
                  "| Requirements will fluctuate during execution and may exceed these estimates |\n",
                  "+-----------------------------------------------------------------------------+\n"]
        return [*lines, "\n"], ("append", "memory_estimate", out)

    def memory_full(self):
        """With the row every run with few atoms has."""
        lines, (_, _, out) = self.memory()
        a, b = self.v.fixed(1, 900, positive=True), self.v.fixed(1, 90, positive=True)
        name = "Baseline code, static data and system overhead"
        lines.insert(2, f"| {name:<48}{a:>8} MB {b:>11} MB |\n")
        return lines, ("memory", {"_".join(name.lower().split()): {"memory": float(a), "disk": float(b)},
                                  **out})

    # -- electronic ------------------------------------------------------------------
    def scf(self, detail=None):
        v, ctx = self.v, self.ctx
        # with fixed occupancies there is no Fermi energy
        fixed = ctx.draw(4, "fixed-occ") == 3
        fermi = ("          " if fixed else "Fermi     ", "          " if fixed else "energy    ")
        rule = "-" * 72 + " <-- SCF\n"
        lines = [rule,
                 f"SCF loop      Energy           {fermi[0]}      Energy gain       Timer   <-- SCF\n",
                 f"                               {fermi[1]}      per atom          (sec)   <-- SCF\n",
                 rule]
        out = []
        steps = 1 + ctx.draw(3, "scf-steps")
        if self.extras and ctx.draw(12, "scf-long") == 11:
            steps = (9, 10, 11, 12, 100, 101)[ctx.draw(6, "scf-steps")]

        def e():
            return f"{float(v.fixed(8)):.8E}".replace("E+", "E+0").replace("E-", "E-0")

        for i in range(steps):
            rep: dict = {}
            if detail and i and ctx.draw(2, "scf-debug"):
                more, rep["debug_info"] = self.scf_debug()
                lines += more
            en, fe, t = e(), e(), v.fixed(2, 900, positive=True)
            if i == 0:
                gain = None
                lines.append(f"Initial  {en}  {' ' * 15 if fixed else fe:<15}              {t:>14}  <-- SCF\n")
            else:
                gain = e()
                lines.append(f"{i:>7}  {en}  {' ' * 15 if fixed else fe:<15}  {gain:>16}{t:>11}  <-- SCF\n")
            rep.update({"energy": float(en), "energy_gain": gain and float(gain), "time": float(t)})
            if not fixed:
                rep["fermi_energy"] = float(fe)
            if detail and i:
                more, said = self.scf_said()
                lines += more
                rep.update(said)
            out.append(rep)
        return [*lines, rule, "\n"], ("scf", out)

    def scf_verbose(self):
        return self.scf(detail=True)

    def energy(self):
        e = self.v.fixed(9, 9000)
        kind = self.ctx.draw(4, "energy-kind")
        line, key = ((f"Final energy, E             = {e:>18}     eV\n", "final_energy"),
                     (f"Final free energy (E-TS)    = {e:>18}     eV\n", "free_energy"),
                     (f"NB est. 0K energy (E-0.5TS)      = {e:>18}     eV\n", "est_0K"),
                     (f" Total energy corrected for finite basis set = {e:>14} eV\n",
                      "final_basis_set_corrected"))[kind]
        return [line], ("energy", key, float(e))

    def noise(self):
        n = self.v.integer()
        return ([("Calculating approximate eigenstates for fixed initial Hamiltonian\n",
                  f"Cut-off for approx. calculation is   {n}.000 eV\n",
                  f"Writing model to seed{n}.check\n", " \n", "\n")[self.ctx.draw(5, "noise")]],
                ("nothing",))

    def forces(self):
        kind = ("", "Symmetrised ", "Constrained ", "Unconstrained ")[self.ctx.draw(4, "f-kind")]
        title = f" {kind}Forces "
        lines = [" " + title.center(84, "*") + "\n", " *" + " " * 82 + "*\n",
                 " *" + "Cartesian components (eV/A)".center(82) + "*\n",
                 " * " + "-" * 80 + " *\n",
                 " *                         x                    y                    z"
                 "              *\n", " *" + " " * 82 + "*\n"]
        out = {}
        for sp, i in self.atoms:
            f = [self.v.fixed(5, 90) for _ in range(3)]
            lines.append(f" * {sp:<3}{i:>14}" + "".join(f"{x:>21}" for x in f)
                         + "         *\n"[-len("         *\n"):])
            out[sp, i] = [float(x) for x in f]
        lines += [" *" + " " * 82 + "*\n", " " + "*" * 84 + "\n", "\n"]
        return lines, ("table", "forces", kind.strip().lower() or "non_descript", out)

    def stress(self):
        kind = ("", "Symmetrised ")[self.ctx.draw(2, "s-kind")]
        s = [self.v.fixed(6, 90) for _ in range(6)]
        m = ((s[0], s[1], s[2]), (s[1], s[3], s[4]), (s[2], s[4], s[5]))
        lines = [" " + f" {kind}Stress Tensor ".center(49, "*") + "\n", " *" + " " * 47 + "*\n",
                 " *          Cartesian components (GPa)           *\n",
                 " * --------------------------------------------- *\n",
                 " *             x             y             z     *\n", " *" + " " * 47 + "*\n"]
        lines += [f" *  {ax} " + "".join(f"{x:>14}" for x in row).rjust(40) + "  *\n"
                  for ax, row in zip("xyz", m)]
        lines += [" *" + " " * 47 + "*\n", " *  Pressure:    3.8824                          *\n",
                  " *" + " " * 47 + "*\n", " " + "*" * 49 + "\n", "\n"]
        return lines, ("table", "stresses", kind.strip().lower() or "non_descript",
                       [float(x) for x in s])

    def mulliken(self):
        v = self.v
        lines = ["     Atomic Populations (Mulliken)\n", "     -----------------------------\n",
                 "Species          Ion     s       p       d       f      Total   Charge (e)\n",
                 "=" * 74 + "\n"]
        out = {}
        for sp, i in self.atoms:
            q = [v.fixed(3, 9, positive=True) for _ in range(6)]
            lines.append(f"  {sp:<3}{i:>14}  " + "".join(f"{x:>8}" for x in q[:5])
                         + f"{q[5]:>10}\n")
            out[sp, i] = {"spin_sep": False, "spin": None,
                          **dict(zip(("s", "p", "d", "f", "total", "charge"), map(float, q)))}
        return [*lines, "=" * 74 + "\n", "\n"], ("set", "mulliken_popn", out)

    def hirshfeld(self):
        lines = ["     Hirshfeld Analysis\n", "     ------------------\n",
                 "Species   Ion     Hirshfeld Charge (e)\n", "=" * 38 + "\n"]
        out = {}
        for sp, i in self.atoms:
            q = self.v.fixed(2, 99)
            lines.append(f"  {sp:<3}{i:>7}{q:>22}\n")
            out[sp, i] = float(q)
        return [*lines, "=" * 38 + "\n", "\n"], ("set", "hirshfeld", out)

    def spin(self):
        a, b = self.v.fixed(6, 9), self.v.fixed(6, 9, positive=True)
        return ([f"Integrated Spin Density     =     {a}     hbar/2\n",
                 f"Integrated |Spin Density|   =     {b}     hbar/2\n"],
                ("lines", [(1, ("append", "spin", float(a))), (1, ("append", "modspin", float(b)))]))

    def finish(self, blank: bool = True):
        v = self.v
        t = [v.fixed(2, 900, positive=True) for _ in range(4)]
        mem = v.integer(1000, 999999)
        lines = [f"Initialisation time = {t[0]:>10} s\n", f"Calculation time    = {t[1]:>10} s\n",
                 f"Finalisation time   = {t[2]:>10} s\n", f"Total time          = {t[3]:>10} s\n",
                 f"Peak Memory Use     = {mem} kB\n", " \n"]
        keys = ("initialisation_time", "calculation_time", "finalisation_time", "total_time")
        if not blank:
            del lines[-1]
        return lines, ("lines", [*((1, ("set", k, float(x))) for k, x in zip(keys, t)),
                                 (1 + blank, ("set", "peak_memory_use", float(mem)))])

    def efficiency(self):
        p = self.v.integer(1, 99)
        return ([f"Overall parallel efficiency rating: Satisfactory ({p}%)\n", "\n"],
                ("set", "parallel_efficiency", float(p)))

    # -- molecular dynamics ----------------------------------------------------------
    def md_data(self, zero: bool):
        v = self.v
        x = {k: v.fixed(6, 900) for k in ("time", "pot", "kin", "tot", "enth", "ham", "temp")}
        side = "            x"

        def row(label, val, unit):
            return f"{side}{label:>21} {val:>13}{unit:>21}     x\n"

        lines = ["            " + "x" * 62 + "\n",
                 side + " " * 47 + "MD Data:     x\n", side + " " * 60 + "x\n",
                 row("time :", x["time"], "ps"), side + " " * 60 + "x\n",
                 row("Potential Energy:", x["pot"], "eV"), row("Kinetic   Energy:", x["kin"], "eV"),
                 row("Total     Energy:", x["tot"], "eV")]
        out = {"time": float(x["time"]), "potential_energy": float(x["pot"]),
               "kinetic_energy": float(x["kin"]), "total_energy": float(x["tot"])}
        if not zero:
            lines.append(row("Enthalpy:", x["enth"], "eV"))
            out["enthalpy"] = float(x["enth"])
        lines += [row("Hamilt    Energy:", x["ham"], "eV"), side + " " * 60 + "x\n",
                  row("Temperature:", x["temp"], "K"), "            " + "x" * 62 + "\n", "\n"]
        out["hamilt_energy"] = float(x["ham"])
        out["temperature"] = float(x["temp"])
        return lines, ("update", out)

    def md_zero(self):
        subs = [self.forces(), self.md_data(zero=True)]
        lines = [" Starting MD\n", "\n"]
        for s, _ in subs:
            lines += s
        return lines, [p for _, p in subs]

    def md_step(self, i: int, *, cell: bool):
        subs = [self.memory("Molecular Dynamics requirements")]
        if cell:
            subs.append(self.cell("cell"))
        subs += [self.positions("positions"), self.scf_in_step(), self.energy(), self.forces()]
        if self.ctx.draw(2, "md-stress"):
            subs.append(self.stress())
        subs.append(self.md_data(zero=False))
        lines = [f" Starting MD iteration {i:>10} ...\n", RULE, " \n"]
        for s, _ in subs:
            lines += s
        lines += [DASH, f" ... finished MD iteration {i:>10}\n", "\n"]
        return lines, ("md", [p for _, p in subs])

    def scf_in_step(self):
        lines, _ = self.scf()
        return lines, ("nothing",)

    # -- geometry optimisation ---------------------------------------------------------
    def geom_table(self, minim):
        v = self.v
        rule = f" +-----------+-----------------+-----------------+------------+-----+ <-- {minim}\n"
        lines = [rule, f" | Parameter |      value      |    tolerance    |    units   | OK? | <-- {minim}\n",
                 rule]
        out = {}
        for name, key, unit in (("  dE/ion   ", "de_ion", "eV"), ("  |F|max   ", "f_max", "eV/A"),
                                ("  |dR|max  ", "dr_max", "A"), ("   Smax    ", "smax", "GPa")):
            a, b = (f"{float(v.fixed(6, positive=True)):.6E}".replace("E+", "E+0").replace("E-", "E-0")
                    for _ in range(2))
            ok = ("No ", "Yes")[self.ctx.draw(2, "ok")]
            lines.append(f" |{name}|   {a:>13} |   {b:>13} |{unit:>11} | {ok} | <-- {minim}\n")
            out[key] = {"value": float(a), "tolerance": float(b), "converged": ok == "Yes"}
        return [*lines, rule, "\n"], ("append", "minimisation", out)

    def geom_min(self, minim):
        v = self.v
        rule = f" +------------+-------------+-------------+-----------------+ <-- min {minim}\n"
        lines = [rule, f" |    Step    |   lambda    |   F.delta'  |    enthalpy     | <-- min {minim}\n",
                 rule]
        out = {}
        for name in ("  previous  ", " trial step "):
            lam, fd, en = v.fixed(6, 9), v.fixed(6, 9), v.fixed(6, 9000)
            lines.append(f" |{name}| {lam:>11} | {fd:>11} | {en:>15} | <-- min {minim}\n")
            out[name.strip()] = {"lambda": float(lam), "fdelta": float(fd), "enthalpy": float(en)}
        return [*lines, rule, "\n"], ("append", "minimisation", out)

    def geom_done(self, minim, i):
        e = f"{float(self.v.fixed(5, 9)):.8E}".replace("E+", "E+0").replace("E-", "E-0")
        return ([f" {minim}: finished iteration {i:>5} with enthalpy= {e} eV\n", " \n"],
                ("append", "enthalpy", float(e)))

    def geom_step(self, minim, i):
        subs = [self.geom_min(minim)]
        trial = self.v.fixed(6, 9)
        subs.append(([DASH, f" {minim}: starting iteration {i:>9} with trial guess (lambda= {trial:>9})\n",
                      DASH], ("trial", float(trial))))
        subs += [self.cell("cell"), self.positions("positions"), self.scf_in_step(), self.energy(),
                 self.forces()]
        if self.ctx.draw(2, "geom-stress"):
            subs.append(self.stress())
        subs += [self.geom_done(minim, i), self.geom_table(minim)]
        lines = [f" Starting {minim} iteration {i:>10} ...\n", RULE, " \n"]
        for s, _ in subs:
            lines += s
        # the rule announcing the next section closes this one
        return [*lines, RULE], ("geom", [p for _, p in subs])

    def final_config(self, minim):
        c, cp = self.cell("cell")
        p, pp = self.positions("atoms")
        h = f"{float(self.v.fixed(5, 9)):.8E}".replace("E+", "E+0").replace("E-", "E-0")
        lines = [f" {minim}: Final Configuration:\n", RULE, "\n", *c, *p, "\n",
                 f" {minim}: Final Enthalpy     = {h} eV\n"]
        return lines, ("final", {"cell": cp[2], "atoms": pp[2], "final_enthalpy": float(h)})

    def final_modulus(self, minim):
        b = self.v.fixed(5, 900, positive=True)
        return ([f" {minim}: Final bulk modulus = {b:>13} GPa\n", "\n"],
                ("final-add", "final_bulk_modulus", float(b)))

    # -- recorded sections -------------------------------------------------------------
    def section(self):
        """Any other section a job can print, with any numbers and any number of rows."""
        ctx = self.ctx
        for _ in range(8):
            sec = self.sections[ctx.draw(len(self.sections), "section")]
            if sec["name"] not in self.barred and not sec["not_after"].intersection(self.used):
                break
        else:
            return self.noise()
        self.used.append(sec["name"])
        self.barred |= sec["not_before"]
        grow = {}
        for i, row in enumerate(sec["rows"]):
            size = ctx.draw(4, "rows")
            if size == 2:
                grow[i] = ctx.between(1, 3, "few-rows")
            elif size == 3:
                # past the widths of one, two and three digits
                grow[i] = min(row["max"], (8, 9, 10, 11, 35, 98, 99, 100)[ctx.draw(8, "many-rows")])
        odd = (0, 0, 10, 60)[ctx.draw(4, "odd-numbers")]
        lines, out = templates.write(sec, self.v.rng.randrange, odd, grow)
        return lines, ("section", out, sec["rules"], sec["name"])

    def add(self, maker):
        """An event, if it may stand after what the job printed before."""
        name = maker.__name__
        if name in self.barred:
            return self.noise()
        if name != "section":
            self.used.append(name)
        return maker()

    # -- whole job -------------------------------------------------------------------
    def events(self):
        ctx = self.ctx
        evs = [self.build()]
        for maker in (self.started, self.title, self.continuation, self.masses, self.warning):
            if ctx.draw(2, "opt-header"):
                evs.append(self.add(maker))
        if ctx.draw(4, "cell?"):
            evs.append(self.add(self.cell))
        if ctx.draw(4, "positions?"):
            evs.append(self.add(self.positions))
        kind = ctx.draw(3, "job-kind")
        if self.extras and ctx.draw(3, "single-point"):
            kind = 0
        mid = [self.memory, self.scf, self.energy, self.noise, self.spin, self.warning, self.mulliken,
               self.hirshfeld]
        if kind != 2:
            mid += [self.forces, self.stress]
        if self.extras and kind == 0 and ctx.draw(2, "tables"):
            mid += [getattr(self, m) for m in (*MAKERS, "memory_full", "scf_verbose")] * 3
        elif self.sections and kind == 0:
            mid += [self.section] * (2 * len(mid))
        evs += [self.add(mid[ctx.draw(len(mid), "event")]) for _ in range(ctx.between(0, 12 if self.extras else 6, "n-events"))]
        if kind == 1:
            cell = bool(ctx.draw(2, "md-cell"))
            n = ctx.between(1, 4, "md-steps")
            zl, zp = self.md_zero()
            # the rule that opens step 1 closes step 0
            evs.append(([*zl, "\n", RULE], ("md", zp)))
            for i in range(1, n + 1):
                lines, pay = self.md_step(i, cell=cell)
                if i > 1:
                    lines = ["\n", RULE, *lines]
                evs.append((lines, pay))
            if ctx.draw(2, "md-end"):
                evs.append(([" Finished MD\n", "\n"], ("nothing",)))
        elif kind == 2:
            minim = ("LBFGS", "BFGS", "TPSD")[ctx.draw(3, "minimiser")]
            evs += [self.forces() for _ in range(ctx.draw(2, "f0"))]
            evs += [self.geom_done(minim, 0), self.geom_table(minim), (["\n", RULE], ("nothing",))]
            evs += [self.geom_step(minim, i) for i in range(1, ctx.between(1, 3, "geom-steps") + 1)]
            evs += [self.final_config(minim), self.final_modulus(minim)]
            if ctx.draw(2, "post-pop"):
                evs.append(self.mulliken())
        evs += [self.add(mid[ctx.draw(5, "event")]) for _ in range(ctx.draw(3, "n-post"))
                if kind == 0]
        if ctx.draw(5, "finish?"):
            if self.extras and ctx.draw(6, "external?") == 5:
                # right under the timings, or after the blank line that ends them
                evs.append(self.finish(blank=bool(ctx.draw(2, "external-gap"))))
                evs += [self.external() for _ in range(ctx.between(1, 2, "n-external"))]
                return evs
            evs.append(self.add(self.finish))
            if ctx.draw(2, "eff?"):
                evs.append(self.add(self.efficiency))
        return evs


def _apply(run: dict, p: tuple, *, scf: int, quirks: frozenset = frozenset()) -> None:
    kind = p[0]
    if kind == "set":
        run[p[1]] = p[2]
    elif kind == "append":
        run.setdefault(p[1], []).append(p[2])
    elif kind == "extend":
        run[p[1]][-1] += p[2]
    elif kind == "update":
        run.update(p[1])
    elif kind == "into":
        run.setdefault(p[1], {}).update(p[2])
    elif kind == "full":
        if scf:
            _apply(run, p[1], scf=scf, quirks=quirks)
    elif kind == "berry":
        run.setdefault("berry_phase", {}).update(p[1])
        run["berry_phase"]["polarisation"] = {**p[2], **(p[3] if BERRY_TABLES not in quirks else {})}
    elif kind == "pspot":
        lost = {"element", "ionic_charge", "level_of_theory"} if p[2] and PSPOT_CHARGE in quirks else ()
        run.setdefault("pspot_detail", []).append({k: v for k, v in p[1].items() if k not in lost})
    elif kind == "internal":
        # a definition names atoms and the cells they are in
        run["internal_constraints"] = [
            {**c, "constraints": dict(c["constraints"]) if INTERNAL_IMAGE in quirks or
             len(dict(c["constraints"])) == len(c["constraints"]) else c["constraints"]} for c in p[1]]
    elif kind == "species":
        for sp, prop in p[1].items():
            run.setdefault("species_properties", {}).setdefault(sp, {}).update(prop)
    elif kind == "mass":
        for sp, m in p[1].items():
            run.setdefault("species_properties", {}).setdefault(sp, {})["mass"] = m
    elif kind == "energy":
        run.setdefault("energies", {}).setdefault(p[1], []).append(p[2])
    elif kind == "table":
        run.setdefault(p[1], {}).setdefault(p[2], []).append(p[3])
    elif kind == "scf":
        if scf:
            run.setdefault("scf", []).append(p[1])
    elif kind == "trial":
        run.setdefault("geom_opt", {}).setdefault("trial", []).append(p[1])
    elif kind == "md":
        step: dict = {}
        for q in p[1]:
            _apply(step, q, scf=False)
        if "memory_estimate" in step:
            run["memory_estimate"] = step.pop("memory_estimate")
        run.setdefault("md", []).append(step)
    elif kind == "geom":
        opt = run.setdefault("geom_opt", {})
        if not opt.get("iterations"):
            first = {}
            for k in ("enthalpy", "initial_cell", "initial_positions", "scf", "forces", "stresses",
                      "minimisation"):
                if k in run:
                    name = {"initial_cell": "cell", "initial_positions": "positions"}.get(k, k)
                    first[name] = run[k]
                    if name == k:
                        del run[k]
            opt["iterations"] = [first]
        step = {}
        for q in p[1]:
            _apply(step, q, scf=False)
        opt["iterations"].append(step)
    elif kind == "several":
        for q in p[1]:
            _apply(run, q, scf=scf)
    elif kind == "near":
        run.setdefault(p[1], []).append(p[2])
    elif kind == "kpoints":
        run["k-points"] = deepcopy(p[1])
        if KPOINT_Z in quirks:
            for pt in run["k-points"]["points"]:
                pt["qpt"] = (*pt["qpt"][:2], pt["qpt"][0])
    elif kind == "memory":
        run.setdefault("memory_estimate", []).append(
            {k: v for k, v in p[1].items() if "," not in k or MEMORY_COMMA not in quirks})
    elif kind == "cutoffs":
        cycles, en, total, slope, others = p[1:]
        for q in others:
            _apply(run, q, scf=scf)
        names = ("final_energy", "free_energy", "est_0K")
        if scf:
            run["bsc_energies"] = {k: tuple(e[i] for e in en[:-1]) for i, k in enumerate(names)}
            run["scf"], run["bsc_scf"] = cycles[-1], cycles[:-1]
            en = en[-1:]
        for e in en:
            for k, x in zip(names, e):
                run.setdefault("energies", {}).setdefault(k, []).append(x)
        run["energies"].setdefault("final_basis_set_corrected", []).append(total)
        run["dedlne"] = slope
    elif kind == "orbitals":
        run["orbital_popn"] = {k: v for k, v in p[1].items()
                               if k != "total_projected" or ORBITAL_TOTAL not in quirks}
    elif kind == "external":
        if scf == 2:
            run.setdefault("external_files", {})[p[1]] = p[2]
    elif kind == "section":
        templates.combine(run, deepcopy(p[1]["full" if scf else "high"]), p[2])
    elif kind == "final":
        run.setdefault("geom_opt", {})["final_configuration"] = dict(p[1])
    elif kind == "final-add":
        run["geom_opt"]["final_configuration"][p[1]] = p[2]
    elif kind != "nothing":
        raise AssertionError(kind)
    if kind == "append" and p[1] == "enthalpy":
        # a finished iteration announces an optimisation
        run.setdefault("geom_opt", {})


def merge(payloads, *, scf: int = 0, quirks: frozenset = frozenset()) -> list[dict]:
    """Reference model: the list of runs those events describe.

    ``scf``: 0 the default reading, 1 in full, 2 with appended files as well.
    """
    runs: list[dict] = []
    for p in payloads:
        if p[0] == "new":
            runs.append({"build_info": dict(p[1])})
        else:
            _apply(runs[-1], p, scf=scf, quirks=quirks)
    return runs


def castep(ctx: Ctx, *, lo: int = 1, hi: int = 3, sections: bool = True, extras: bool = False) -> Doc:
    """A .castep file holding one or more jobs."""
    vals = Values(ctx)
    recs = []
    starts = []
    soft = set()  # record counts at which an event is still being written
    for n in range(1, ctx.between(lo, hi, "n-jobs") + 1):
        starts.append(len(recs))
        for lines, pay in Job(ctx, vals, n, sections=sections, extras=extras).events():
            if pay[0] != "lines":
                recs.append((lines, pay))
                continue
            # events a reader may see line by line
            at = 0
            for count, part in pay[1]:
                recs.append((lines[at:at + count], part))
                at += count
                if at < len(lines):
                    soft.add(len(recs))
    return Doc("castep", [], recs, [], merge, info={"starts": starts, "soft": soft},
               quirks=QUIRKS if extras else ())


__all__ = ["SPECIES", "Job", "castep", "merge"]
