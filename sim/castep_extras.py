"""Further sections of a simulated CASTEP log, written table by table.

Tables here have as many rows as the job has k-points, modes, bands, temperatures or cut-offs, and any
of the columns CASTEP leaves out or in.  Each method returns (lines, payload) like ``castep_model.Job``.
"""
from __future__ import annotations

from . import models
from .castep_tables import BERRY_TABLES, INTERNAL_IMAGE, PSPOT_CHARGE, TABLES, Tables

# listed in KNOWN_FINDINGS.txt
KPOINT_Z = "kpoint-third-coordinate"
MEMORY_COMMA = "memory-row-with-comma"
ORBITAL_TOTAL = "orbital-total-projected"
QUIRKS = (KPOINT_Z, MEMORY_COMMA, ORBITAL_TOTAL, INTERNAL_IMAGE, PSPOT_CHARGE, BERRY_TABLES)

RULE74 = " + " + "-" * 74 + " +\n"


def _exp(x: str) -> str:
    return f"{float(x):.8E}".replace("E+", "E+0").replace("E-", "E-0")


class Extras(Tables):
    """Mixin of event makers; uses ``ctx``, ``v``, ``atoms`` and ``barred`` of the job."""

    def many(self, what: str, small: int = 4) -> int:
        """How many rows: few, or past the widths of one and two digits."""
        kind = self.ctx.draw(4, what)
        if kind < 3:
            return 1 + self.ctx.draw(small, what)
        return (8, 9, 10, 11, 12, 35, 99, 100, 101)[self.ctx.draw(9, what)]

    def vec(self, d: int = 6, hi: float = 0.99, n: int = 3) -> list[str]:
        return [self.v.fixed(d, hi) for _ in range(n)]

    # -- sampling ------------------------------------------------------------------
    def kpoint_list(self):
        side = " " * 13
        lines = [side + "+" * 55 + "\n",
                 side + "+  Number       Fractional coordinates        Weight  +\n",
                 side + "+-----------------------------------------------------+\n"]
        out = []
        for i in range(1, self.many("n-kpts", 6) + 1):
            q, w = self.vec(), self.v.fixed(7, 0.99, positive=True)
            lines.append(f"{side}+ {i:>5}  " + "".join(f"{x:>10} " for x in q) + f" {w:>9}  +\n")
            out.append({"qpt": tuple(map(float, q)), "weight": float(w)})
        lines += [side + "+" * 55 + "\n", "\n"]
        return lines, ("kpoints", {"points": out, "num_kpoints": len(out)})

    def kpoint_grid(self):
        grid = [self.v.integer(1, 30) for _ in range(3)]
        off = self.vec(3)
        n = self.v.integer(1, 99999)
        return (["                         -------------------------------\n",
                 "                              k-Points For BZ Sampling\n",
                 "                         -------------------------------\n",
                 "                       MP grid size for SCF calculation is "
                 + "".join(f"{g:>3}" for g in grid) + "\n",
                 "                            with an offset of  " + "".join(f"{x:>7}" for x in off) + "\n",
                 f"                       Number of kpoints used = {n:>13}\n", "\n"],
                ("set", "k-points", {"kpoint_mp_grid": tuple(grid),
                                     "kpoint_mp_offset": tuple(map(float, off)), "num_kpoints": n}))

    # -- populations ------------------------------------------------------------------
    def bonds(self):
        spin = self.ctx.draw(2, "bond-spin")
        lines = ["                 Bond                   Population" + ("        Spin" if spin else "")
                 + "       Length (A)\n", "=" * 80 + "\n"]
        out = {}
        pairs = [(a, b) for n, a in enumerate(self.atoms) for b in self.atoms[n + 1:]] or \
                [(self.atoms[0], self.atoms[0])]
        for a, b in pairs:
            p, s, d = self.v.fixed(2, 9), self.v.fixed(2, 9), self.v.fixed(5, 9, positive=True)
            lines.append(f"{a[0]:>16}{a[1]:>4} -- {b[0]:<3}{b[1]:>3} {p:>20}"
                         + (f"{s:>13}" if spin else "") + f"{d:>17}\n")
            key = tuple(sorted((a, b)))
            out[key] = {"population": float(p), **({"spin": float(s)} if spin else {}), "length": float(d)}
            out[key]["_"] = (a, b)
        out = {val.pop("_"): val for val in out.values()}
        return [*lines, "=" * 80 + "\n", "\n"], ("set", "bonds", out)

    def mulliken_spin(self):
        v = self.v
        rule = "=" * 94 + "\n"
        lines = ["     Atomic Populations (Mulliken)\n", "     -----------------------------\n",
                 "Species          Ion Spin      s       p       d       f      Total   Charge(e)   "
                 "Spin(hbar/2)\n", rule]
        out = {}
        names = ("s", "p", "d", "f", "total")
        for sp, i in self.atoms:
            up, dn = ([v.fixed(3, 9, positive=True) for _ in range(5)] for _ in range(2))
            q, m = v.fixed(3, 9), v.fixed(3, 9)
            lines += [f"  {sp:<3}{i:>14}   up:  " + "".join(f"{x:>8}" for x in up) + f"{q:>10}{m:>13}\n",
                      f"  {'':<3}{i:>14}   dn:  " + "".join(f"{x:>8}" for x in dn) + "\n"]
            out[sp, i] = {"spin_sep": True, "charge": float(q), "spin": float(m),
                          **{f"up_{n}": float(x) for n, x in zip(names, up)},
                          **{f"dn_{n}": float(x) for n, x in zip(names, dn)},
                          "total": float(up[4]) + float(dn[4])}
        return [*lines, rule, "\n"], ("set", "mulliken_popn", out)

    def orbitals(self):
        v = self.v
        rule = "  " + "-" * 43 + "\n"
        lines = ["            Orbital Populations\n", "     Ion    Atom   Orbital             Charge\n", rule]
        out = {}
        for sp, i in self.atoms:
            for orb in ("S", "Px", "Py", "Pz")[:1 + self.ctx.draw(4, "orbs")]:
                q = v.fixed(3, 9)
                lines.append(f"      {sp:<3}{i:>4}      {orb:<5}{q:>21}\n")
                out.setdefault((sp, i), {})[orb] = float(q)
        tot, (a, b) = v.fixed(3, 90), (v.fixed(3, 90, positive=True) for _ in range(2))
        lines += [rule, f"                           Total:{tot:>12}\n", rule,
                  f"The total projected population is {a:>9}{b:>9}\n", "\n"]
        out["total"] = float(tot)
        out["total_projected"] = (float(a), float(b))
        return lines, ("orbitals", out)

    # -- vibrations --------------------------------------------------------------------
    def phonons(self):
        v, ctx = self.v, self.ctx
        lines = [" " + "=" * 78 + "\n",
                 " +                           Vibrational Frequencies                          +\n",
                 " +                           -----------------------                          +\n",
                 " +" + " " * 76 + "+\n"]
        out = []
        q = self.vec()
        n_modes = self.many("n-modes", 6)
        for n in range(1, self.many("n-qpts", 3) + 1):
            split = ctx.draw(3, "loto") == 2
            if n == 1 or ctx.draw(3, "same-q") != 2:
                # several directions of approach to the same point
                q = self.vec()
            w = v.fixed(10, 0.99, positive=True)
            lines += [RULE74, f" +  q-pt={n:>5} (" + "".join(f"{x:>10}" for x in q) + f"){w:>17}"
                      .ljust(28) + "  +\n"]
            if split:
                lines.append(" +  q->0 along (" + "".join(f"{x:>10}" for x in self.vec()) + ")"
                             + " " * 31 + "+\n")
            lines += [RULE74,
                      f" +  Acoustic sum rule correction <{v.fixed(6, 90, positive=True):>11} cm-1 applied"
                      "                    +\n"]
            irrep, ir, raman, act = (ctx.draw(3, w) != 2 for w in ("irrep", "ir", "raman", "active"))
            raman, act = raman and ir, act and ir
            lines += [" +     N      Frequency irrep.    ir intensity active  raman activity  active +\n",
                      " +                (cm-1)         ((D/A)**2/amu)              (A**4/amu)       +\n",
                      " +" + " " * 76 + "+\n"]
            qd: dict = {"qpt": tuple(map(float, q)), "N": [], "frequency": []}
            for m in range(1, n_modes + 1):
                f = v.fixed(6, 900)
                row = f" + {m:>5} {f:>14}   "
                qd["N"].append(m)
                qd["frequency"].append(float(f))
                if irrep:
                    sym = "abcdefgzAN"[ctx.draw(10, "sym")]
                    qd.setdefault("irrep", []).append(sym)
                    row += sym
                else:
                    row += " "
                if ir:
                    x = v.fixed(7, 90, positive=True)
                    qd.setdefault("ir_intensity", []).append(float(x))
                    row += f"{x:>19}"
                    if act:
                        a = "YN"[ctx.draw(2, "ir-act")]
                        qd.setdefault("ir_active", []).append(a)
                        row += f"  {a}"
                if raman and act:
                    x = v.fixed(7, 90, positive=True)
                    qd.setdefault("raman_intensity", []).append(float(x))
                    row += f"{x:>21}"
                if act:
                    a = "YN"[ctx.draw(2, "r-act")]
                    qd.setdefault("raman_active", []).append(a)
                    row += f"  {a}" if raman else f"{a:>24}"
                lines.append(row.ljust(78) + "+\n")
            qd = {k: tuple(x) if k not in ("irrep", "ir_active", "raman_active", "qpt") else x
                  for k, x in qd.items()}
            if irrep and ctx.draw(2, "chars"):
                lines += [" + " + "." * 74 + " +\n",
                          " +        Character table from group theory analysis of eigenvectors          +\n",
                          f" +                           Point Group ={v.integer(1, 32):>4}, Oh"
                          "                            +\n", " + " + "." * 74 + " +\n"]
                heads = ["E", "2'", "4", '2"', "I", "m_v", "-4", "m_v"][:1 + ctx.draw(8, "classes")]
                lines += [(" +  Rep  Mul | " + "".join(f"{h:>4}" for h in heads)).ljust(78) + "+\n",
                          (" +           | " + "-" * 4 * len(heads)).ljust(78) + "+\n"]
                table = []
                for r in range(1 + ctx.draw(4, "reps")):
                    name = ("", "Eu", "A2u", "Tg")[ctx.draw(4, "rep-name")]
                    mul = 1 + ctx.draw(12, "mul")
                    vals = [ctx.draw(9, "char") - 4 for _ in heads]
                    lines.append((f" + {'abcd'[r]} {name:<4}{mul:>3} | " + "".join(f"{x:>4}" for x in vals))
                                 .ljust(78) + "+\n")
                    table.append({"chars": tuple(zip(heads, vals)), "mul": mul, "rep": "abcd"[r],
                                  **({"name": name} if name else {})})
                lines.append(RULE74)
                qd["char_table"] = table
            out.append(qd)
        lines += [" " + "=" * 78 + "\n", "\n"]
        return lines, ("set", "phonons", out)

    def raman(self):
        v = self.v
        lines = [" " + "=" * 78 + "\n",
                 " +                      Raman Susceptibility Tensors ((A/amu)*0.5)            +\n",
                 " +" + "-" * 76 + "+\n"]
        out = []
        for m in range(1, self.many("n-raman", 4) + 1):
            t = [self.vec(4, 90) for _ in range(3)]
            dep = v.fixed(6, 0.99, positive=True)
            lines.append(f" + Mode number:{m:>4} Raman tensor       Depolarisation Ratio"
                         "                   +\n")
            for k, row in enumerate(t):
                text = " + " + "".join(f"{x:>10}" for x in row) + (f"{dep:>14}" if not k else "")
                lines.append(text.ljust(78) + "+\n")
            lines.append(" +" + " " * 76 + "+\n")
            a = [[float(x) for x in r] for r in t]
            # a tensor's trace and second invariant
            ii = sum(a[i][i] * a[j][j] - a[i][j] * a[j][i] for i, j in ((0, 1), (0, 2), (1, 2)))
            out.append({"tensor": tuple(map(tuple, a)), "depolarisation": float(dep),
                        "trace": a[0][0] + a[1][1] + a[2][2], "ii": ii})
        lines += [" +" + "-" * 76 + "+\n", "\n"]
        return lines, ("near", "raman", out)

    def corrections(self):
        """Energies beside the final one."""
        kind = self.ctx.draw(3, "correction")
        if not kind:
            e, f = self.v.fixed(6, 9), self.v.fixed(9, 9000)
            e = f"{float(e):.6E}"
            return ([f"(SEDC) Total Energy Correction : {e} eV\n", "\n",
                     f"Dispersion corrected final energy* = {f:>16}     eV\n"],
                    ("lines", [(2, ("energy", "sedc_correction", float(e))),
                               (1, ("energy", "disperson_corrected", float(f)))]))
        if kind == 1:
            f = self.v.fixed(9, 9000)
            return ([f"Dispersion corrected final energy*, Ecor          = {f:>16}     eV\n"],
                    ("energy", "disperson_corrected", float(f)))
        f = self.v.fixed(17, 1)
        return ([f" Free energy of solvation         =  {f:>26} eV\n"], ("energy", "solvation", float(f)))

    def external(self):
        """Another output of the job, appended to its log (as the authors' own tests of CASTEP do)."""
        fmt = EXTERNAL[self.ctx.draw(len(EXTERNAL), "external-fmt")]
        doc = models.WRITERS[fmt](self.ctx)
        return ([f"<BEGIN {fmt}>\n", *doc.data().decode().splitlines(keepends=True), f"<END {fmt}>\n"],
                ("external", fmt, doc.expected()))

    def displacements(self):
        rule = " " + "-" * 78 + "\n"
        lines = [" " + "=" * 78 + "\n", "                      Atomic Displacement Parameters (A**2)\n",
                 "                      ==============================\n", "\n", rule,
                 "      T(K)  Ion        U11       U22       U33       U23       U31       U12\n", rule]
        out: dict = {}
        for n in range(self.many("n-temps", 3)):
            temp = f"{100.0 * n:.1f}"
            for sp, i in self.atoms:
                u = self.vec(6, 0.99, 6)
                lines.append(f"{temp:>10}  {sp:<2} {i:<4} " + "".join(f"{x:>10}" for x in u) + "\n")
                out.setdefault(temp, {})[sp, i] = tuple(map(float, u))
        return [*lines, rule, "\n"], ("set", "atomic_displacements", out)

    def thermodynamics(self):
        rule = " " + "-" * 78 + "\n"
        z = self.v.fixed(6, 9, positive=True)
        lines = [" " + "=" * 69 + "\n", "                             Thermodynamics\n",
                 "                             ==============\n", "\n",
                 f"            Zero-point energy = {z:>16}  eV\n", rule,
                 "       T(K)        E(eV)           F(eV)         S(J/mol/K)      Cv(J/mol/K)\n", rule]
        cols: dict = {k: [] for k in ("t", "e", "f", "s", "cv")}
        for n in range(self.many("n-thermo", 3)):
            row = [f"{50.0 * n:.1f}", self.v.fixed(6, 9), self.v.fixed(6, 9), self.v.fixed(3, 90),
                   self.v.fixed(3, 90)]
            lines.append(f"{row[0]:>10}" + "".join(f"{x:>16}" for x in row[1:]) + "\n")
            for k, x in zip(cols, row):
                cols[k].append(float(x))
        return ([*lines, rule, "\n", " " + "=" * 78 + "\n", "\n"],
                ("set", "thermodynamics", {"zero_point_energy": float(z),
                                           **{k: tuple(x) for k, x in cols.items()}}))

    def dynmat(self):
        rule = "  " + "-" * 114 + "\n"
        n = 3 * (1 + self.ctx.draw(3, "n-ions") if self.ctx.draw(6, "big-dynmat") else 11)
        lines = [rule, "            Dynamical matrix\n", " Ion XYZ        real part  ((cm-1)**2)\n"]
        part = []
        for which in range(2):
            if which:
                lines.append(" Ion XYZ        imaginary part  ((cm-1)**2)\n")
            rows = [self.vec(6, 90, n) for _ in range(n)]
            lines += [f"{k // 3 + 1:>4}{k % 3 + 1:>4}" + "".join(f"{x:>18}" for x in r) + "\n"
                      for k, r in enumerate(rows)]
            part.append(rows)
        return ([*lines, rule, "\n"],
                ("set", "dynamical_matrix", tuple(tuple(complex(float(a), float(b)) for a, b in zip(r, s))
                                                  for r, s in zip(*part))))

    def born(self):
        rule = " " + "=" * 67 + "\n"
        lines = [rule, "                      Born Effective Charges\n",
                 "                      ----------------------\n"]
        out = {}
        for sp, i in self.atoms:
            t = [self.vec(5, 9) for _ in range(3)]
            lines.append(f"   {sp:<3}{i:>6}   " + "".join(f"{x:>12}" for x in t[0]) + "\n")
            lines += [" " * 15 + "".join(f"{x:>12}" for x in r) + "\n" for r in t[1:]]
            out[sp, i] = tuple(tuple(map(float, r)) for r in t)
        return [*lines, rule, "\n"], ("append", "born", out)

    # -- electrons -----------------------------------------------------------------------
    def bands(self):
        ctx = self.ctx
        side = "  + " + "=" * 65 + " +\n"
        rule = "  + " + "-" * 65 + " +\n"
        lines = [side, "  +                       Electronic energies                         +\n",
                 "  +                       -------------------                         +\n",
                 "  +" + " " * 67 + "+\n",
                 "  +   Band number   Energy in eV                                      +\n", side,
                 "  +" + " " * 67 + "+\n"]
        lines = [side, "  +" + " " * 67 + "+\n",
                 "  +     Band Structure Calculation: Progress report on root process   +\n",
                 "  +" + " " * 67 + "+\n", *lines]
        out = []
        spins = 1 + ctx.draw(2, "n-spins")
        for k in range(1, self.many("n-bs", 4) + 1):
            group = self.v.integer(1, 16)
            for s in range(1, spins + 1):
                q = self.vec()
                lines += [rule, f"  +  Spin={s} kpt={k:>5} (" + "".join(f"{x:>10}" for x in q)
                          + f") kpt-group={group:>3}  +\n", rule, "  +" + " " * 67 + "+\n"]
                e = [self.v.fixed(6, 90) for _ in range(self.many("n-bands", 4))]
                lines += [f"  + {b:>11}{x:>16}".ljust(70) + "+\n" for b, x in enumerate(e, 1)]
                out.append({"spin": s, **{n: float(x) for n, x in zip(("kx", "ky", "kz"), q)},
                            "kpgrp": group, "band": tuple(range(1, len(e) + 1)),
                            "energy": tuple(map(float, e))})
        return [*lines, "  " + "=" * 69 + "\n", "\n"], ("set", "bs", out)

    def excitations(self):
        rule = "  + " + "=" * 65 + " +TDDFT\n"
        blank = "  +" + " " * 67 + "+TDDFT\n"
        lines = [rule, "  +                     TDDFT excitation energies                     +TDDFT\n",
                 "  +                     -------------------------                     +TDDFT\n",
                 "  +   State number         Energy in   eV     Estimated error         +TDDFT\n", rule, blank]
        out = []
        for n in range(1, self.many("n-exc", 4) + 1):
            e, d = self.v.fixed(12, 9, positive=True), self.v.fixed(9, 9, positive=True)
            d = f"{float(d):.10E}"
            t = ("spurious", "Singlet", "Triplet")[self.ctx.draw(3, "exc-type")]
            lines.append(f"  +{n:>10}{e:>22}{d:>19}     {t:<8}   +TDDFT\n")
            out.append({"energy": float(e), "error": float(d), "type": t})
        t = self.v.fixed(2, 90, positive=True)
        lines += [blank, rule, f"  +  TDDFT calculation time: {t:>10}".ljust(70) + "+TDDFT\n", rule, "\n"]
        return lines, ("set", "tddft", out)

    def scf_said(self):
        """What is said of a cycle below its line."""
        v, ctx = self.v, self.ctx
        lines, said = [], {}
        kind = ctx.draw(4, "density-said")
        if kind == 1:
            lines.append(" Density was not mixed in this cycle\n")
            said["density_residual"] = None
        elif kind > 1:
            x = f"{float(v.fixed(16, 9)):.16E}".replace("E+", "E+0").replace("E-", "E-0")
            lines.append(f" Norm of density residual is {x:>26}\n")
            said["density_residual"] = float(x)
        if ctx.draw(4, "constraint-said") == 3:
            x = f"{float(v.fixed(16, 9)):.16E}".replace("E+", "E+0").replace("E-", "E-0")
            lines.append(f" Total constraint energy: {x:>24} eV\n")
            said["constraint_energy"] = float(x)
        if ctx.draw(4, "dipole-said") == 3:
            x = v.fixed(5, 900)
            lines.append(f" Correcting PBC dipole-dipole with self-consistent method: dE = {x:>13} eV\n")
            said["dipole_corr_energy"] = float(x)
        return lines, said

    def scf_debug(self):
        """What a verbose job says before a cycle's line: states, eigenvalues, energies."""
        v, ctx = self.v, self.ctx
        nb = self.many("scf-bands", 3) if ctx.draw(6, "many-scf-bands") == 5 else 1 + ctx.draw(3, "scf-bands")
        n = v.integer(1, 99)
        lines = [f"Starting SCF cycle {v.integer(1, 30):>5} of up to    30\n", f" no. bands in each block={n:>12}\n"]
        out: dict = {"no_bands": n, "kinetic_eigenvalue": [], "eigenvalue": []}
        for _ in range(1 + ctx.draw(2, "scf-blocks")):
            for b in range(1, nb + 1):
                x = v.fixed(8, 0.99, positive=True)
                lines.append(f"Kinetic eigenvalue #{b:>4} = {x:>18}E+02\n")
                out["kinetic_eigenvalue"].append(float(x + "E+02"))
            lines.append(" Calculating the R matrix for the precon Sinv operator\n")
            for _ in range(1 + ctx.draw(3, "scf-rounds")):
                lines += [" Diagonalising expanded subspace\n", " Copying updated data back\n"]
                eig = []
                for b in range(1, nb + 1):
                    a, z, d = v.fixed(2, 99), v.fixed(2, 99), v.fixed(4, 9)
                    lines.append(f"eigenvalue {b:>4} init={a:>7}     fin={z:>7}     change={d:>7}\n")
                    eig.append({"initial": float(a), "final": float(z), "change": float(d)})
                out["eigenvalue"].append(eig)
                lines.append(" Checking convergence criteria\n")
        if ctx.draw(3, "scf-energies"):
            con = out["contributions"] = {}
            x = v.fixed(4, 9)
            lines += ["(Entering electronic_find_fermi_free)\n",
                      f"Fermi energy = {x}E+000 eV [lower bound; range =  1.43E-014 eV]\n",
                      "(Leaving electronic_find_fermi_free)\n", "\n", "End of SCF cycle energies\n"]
            con["fermi_energy"] = float(x)
            for text, key in CONTRIBUTIONS:
                if ctx.draw(8, "left-out") == 7:
                    continue
                x = v.fixed(17, 900)
                if text.startswith("("):
                    lines.append(f"{text:<33}{x:>25} eV)\n")
                else:
                    lines.append(f"{text:<33}= {x:>31} eV\n")
                con[key] = float(x)
            lines.append("\n")
        return lines, out

    def cutoff_scan(self):
        """Finite basis set correction: one SCF per cut-off; the last is the calculation itself."""
        n = (2, 3, 3, 5, 9, 10, 12)[self.ctx.draw(7, "n-cutoffs")]
        self.barred |= {"scf", "scf_verbose", "cutoff_scan", "energy"}
        lines = [f"Calculating finite basis set correction with {n:>2} cut-off energies.\n"]
        cycles, en, others = [], [], []
        for k in range(n):
            lines.append(f"Calculating total energy with cut-off of {150 + 5 * k:>4}.000 eV.\n")
            if self.ctx.draw(6, "warned") == 5:
                wl, pay = self.warning()
                lines += wl
                others += [x for _, x in pay[1]] if pay[0] == "lines" else [pay]
            sl, (_, rep) = self.scf()
            e = [self.v.fixed(9, 9000) for _ in range(3)]
            lines += [*sl[:-1], "\n", f"Final energy, E             = {e[0]:>18}     eV\n",
                      f"Final free energy (E-TS)    = {e[1]:>18}     eV\n",
                      "(energies not corrected for finite basis set)\n", "\n",
                      f"NB est. 0K energy (E-0.5TS)      = {e[2]:>18}     eV\n", "\n"]
            cycles.append(rep)
            en.append([float(x) for x in e])
        d, t = self.v.fixed(6, 90), self.v.fixed(6, 900)
        lines += [f" For future reference: finite basis dEtot/dlog(Ecut) = {d:>14}eV\n",
                  f" Total energy corrected for finite basis set = {t:>14} eV\n", "\n"]
        return lines, ("cutoffs", cycles, en, float(t), float(d), others)

    # -- cell -------------------------------------------------------------------------------
    def symmetry(self):
        v, ctx = self.v, self.ctx
        side = " " * 25
        dev, n, ncons = v.fixed(6, 0.9, positive=True), self.many("n-symops", 3), v.integer(0, 99)
        cells = v.integer(2, 99) if ctx.draw(3, "supercell") == 2 else 0
        pg, sg = v.integer(1, 32), v.integer(1, 230)
        verbose = ctx.draw(3, "symops") == 2
        lines = [side + "-" * 31 + "\n", side + "    Symmetry and Constraints\n", side + "-" * 31 + "\n", "\n",
                 *([f"                      Cell is a supercell containing {cells} primitive cells\n"] if cells else []),
                 f"                      Maximum deviation from symmetry = {dev:>12}     ANG\n", "\n",
                 f"                      Number of symmetry operations   = {n:>12}\n",
                 f"                      Number of ionic constraints     = {ncons:>12}\n",
                 f"                      Point group of crystal = {pg:>7}: Oh, m-3m, 4/m -3 2/m\n",
                 f"                      Space group of crystal = {sg:>7}: Fm-3m, -F 4 2 3\n", "\n"]
        sym: dict = {"max_deviation": float(dev), "num_symmetry_operations": n,
                     "point_group": {"id": pg, "schoenflies": "Oh", "hermann_mauguin": "m-3m",
                                     "hermann_mauguin_full": "4/m -3 2/m"},
                     "space_group": {"id": sg, "international": "Fm-3m", "hall": "-F 4 2 3"}}
        con: dict = {"num_ionic_constraints": ncons}
        if cells:
            sym["n_primitives"] = cells
        if verbose:
            sym["symop"] = []
            for k in range(1, n + 1):
                rot = [self.vec(11, 1.9) for _ in range(3)]
                dis = self.vec(11, 0.99)
                lines.append(f"{k:>22} rotation\n")
                lines += [" " * 17 + "(" + "".join(f"{x:>16}" for x in r) + " )\n" for r in rot]
                lines += [f"{k:>22} displacement\n",
                          " " * 17 + "(" + "".join(f"{x:>16}" for x in dis) + " )\n",
                          "                      symmetry related atoms:\n"]
                rel = []
                for sp in dict.fromkeys(a[0] for a in self.atoms):
                    ids = [i for s, i in self.atoms if s == sp]
                    lines.append(f"{sp:>15}:" + "".join(f"{i:>5}" for i in ids) + "\n")
                    rel += [(sp, i) for i in ids]
                lines.append("\n")
                sym["symop"].append({"rotation": [tuple(map(float, r)) for r in rot],
                                     "displacement": tuple(map(float, dis)), "symmetry_related": rel})
        fixed = ctx.draw(2, "com")
        lines.append("                         Centre of mass is "
                     + ("constrained\n" if fixed else "NOT constrained\n"))
        con["com_constrained"] = bool(fixed)
        if ctx.draw(2, "ionic-cons"):
            rule = "            " + "x" * 62 + "....\n"
            lines += ["\n", rule, "            x  Species       atom   co-ordinate  constraints.....\n",
                      "            x" + "-" * 61 + "....\n"]
            con["ionic_constraints"] = {}
            k = 0
            for sp, i in self.atoms:
                for _ in range(1 + ctx.draw(3, "dirs")):
                    c = self.vec(4, 9)
                    k += 1
                    lines.append(f"            x {sp:<3}{i:>18}       {'xyz'[k % 3]}   "
                                 + "".join(f"{x:>12}" for x in c) + "\n")
                    con["ionic_constraints"].setdefault((sp, i), []).append(tuple(map(float, c)))
            lines += [rule, "\n"]
        cell, ncell = [v.integer(0, 6) for _ in range(6)], v.integer(0, 6)
        lines += [f"                         Number of cell constraints= {ncell}\n",
                  "                         Cell constraints are:  " + "".join(f"{x:>2}" for x in cell) + "\n", "\n"]
        con["num_cell_constraints"] = ncell
        con["cell_constraints"] = tuple(cell)
        return lines, ("several", [("set", "symmetries", sym), ("set", "constraints", con)])


# events that say nothing about where they may stand: nothing of theirs is left open
#: as printed, as reported
CONTRIBUTIONS = (
    ("Exchange-correlation energy", "exchange_correlation_energy"), ("+Hartree energy", "hartree_energy"),
    ("+Local pseudopotential energy", "local_pseudopotential_energy"),
    ("Potential energy (total)", "potential_energy_total"), ("+Kinetic energy", "kinetic_energy"),
    ("+Non-local energy", "non_local_energy"), ("+Electronic entropy term (-TS)", "electronic_entropy_term_ts"),
    ("+Ewald energy (const)", "ewald_energy_const"),
    ("+non-Coulombic energy (const)", "non_coulombic_energy_const"),
    ("Total free energy (E-TS)", "total_free_energy_e_ts"),
    ("(XC correction to eigenvalue sum =", "xc_correction"),
    ("(Apolar corr to eigenvalue sum   =", "apolar_correction"),
    ("(Hubbard U correction to eigenvalu", "hubbard_u_correction"))

MAKERS = ("kpoint_list", "kpoint_grid", "bonds", "mulliken_spin", "orbitals", "phonons", "raman",
          "displacements", "thermodynamics", "dynmat", "born", "bands", "excitations", "cutoff_scan",
          "symmetry", "corrections", *TABLES)

# formats which no listed defect touches
EXTERNAL = ("bands", "hug", "xrd_sf", "elf_fmt", "chdiff_fmt", "pot_fmt", "den_fmt")
