"""Tables of a simulated CASTEP log whose rows refer to each other.

Recorded sections (``templates``) vary numbers and rows one by one; here the labels which tie rows
together (species pairs, states, labelled atoms, units, constraint definitions) vary too.
Each method returns (lines, payload) like ``castep_model.Job``.
"""
from __future__ import annotations

from .input_model import User

# listed in KNOWN_FINDINGS.txt
INTERNAL_IMAGE = "internal-constraint-periodic-image"
BERRY_TABLES = "berry-phase-tables"
PSPOT_CHARGE = "pspot-report-padded-charge"

SHELLS = "spdf"
WORDS = ("normal (1)", "Broyden", "beta-mn.check", "Local Density Approximation", "on", "off", "simple",
         "a/long/path/run.check", "LDA", "Gaussian")
GROUPS = ("General", "Exchange-Correlation", "Pseudopotential", "Basis Set", "Electronic", "Density Mixing",
          "Electronic Minimization", "Population Analysis", "Geometry Optimization", "Band Structure",
          "Van der Waals")
UNITS = ("A", "eV", "amu", "ps", "hbar/2", "cm-1", "eV/A", "GPa")


class Tables:
    """Mixin of event makers; uses ``ctx``, ``v``, ``atoms`` and ``many`` of the job."""

    def pick(self, seq, what: str):
        return seq[self.ctx.draw(len(seq), what)]

    def some(self, seq, what: str):
        """A few different items, in any order."""
        pool = list(seq)
        return [pool.pop(self.ctx.draw(len(pool), what)) for _ in range(1 + self.ctx.draw(min(4, len(pool)), what))]

    # -- parameters --------------------------------------------------------------------
    def parameters(self):
        ctx, v = self.ctx, self.v
        lines, out = [], {}
        for n, group in enumerate(self.some(GROUPS, "option-group")):
            title = f" {group} Parameters " if n == 0 or ctx.draw(3, "group-name") else f" {group} "
            lines += [" " + title.center(79, "*") + "\n", " \n"]
            here = {}
            for k in range(1, self.many("n-options") + 1):
                key = f"{self.pick(('energy cut-off', 'max. number of steps', 'smearing width', 'spin of channel', 'mixing'), 'option')} {k}"
                kind = ctx.draw(6, "option-kind")
                if kind == 0:
                    raw = v.integer(-9, 99999)
                    val, raw = raw, f"{raw:>10}"
                elif kind == 1:
                    raw = v.fixed(4, 99)
                    val, raw = float(raw), f"{raw:>10}"
                elif kind == 2:
                    raw, unit = v.fixed(4, 99), self.pick(UNITS, "unit")
                    val, raw = (float(raw), unit), f"{raw:>10}   {unit}"
                elif kind == 3:
                    raw, unit = v.expo(4, three=False), self.pick(UNITS, "unit")
                    val, raw = (float(raw), unit), f"{raw:>10}  {unit}"
                elif kind == 4:
                    unit = self.pick(UNITS, "unit")
                    lines.append(f" output {'length' + str(k):>14} unit".ljust(48) + f": {unit}\n")
                    out.setdefault("output_units", {})[f"length{k}"] = unit
                    continue
                else:
                    val = raw = self.pick(WORDS, "word")
                lines.append(f" {key:<47}: {raw}\n")
                here[key] = val
            if here:
                out[group.lower()] = here
            lines.append(" \n")
        return [*lines, " " + "*" * 79 + "\n", "\n"], ("set", "options", out)

    def dispersion(self):
        ctx, v = self.ctx, self.v
        lines = [" " * 32 + "-" * 20 + "\n", " " * 34 + "DFT-D parameters\n", " " * 32 + "-" * 20 + "\n", "\n"]
        scheme = self.pick(("G06", "XDM", "OBS", "TS", "MBD"), "scheme")
        lines.append(f"                          Dispersion-correction scheme : {scheme}\n")
        out: dict = {"dispersion_correction_scheme": scheme, "species": {}}
        for name in self.some(("s6", "d", "sc", "a1", "a2", "sR", "n"), "dftd"):
            x = v.fixed(6, 99, positive=True)
            lines.append(f"                        Parameter {name:<2} :{x:>11} {self.pick(('(default)', '(user)'), 'who')}\n")
            out["parameter_" + name.lower()] = float(x)
        lines.append("\n")
        if ctx.draw(3, "dftd-species"):
            side, rule = " " * 8, " " * 8 + "x" * 68 + "\n"
            lines += [rule, side + "x              Atomic DFT-D parameters                             x\n",
                      side + "x  Species      C6            R0                                   x\n",
                      side + "x               eV A^6        Ang                                  x\n",
                      side + "x" + "-" * 66 + "x\n"]
            for sp in dict.fromkeys(a[0] for a in self.atoms):
                c6, r0 = v.fixed(4, 99, positive=True), v.fixed(4, 9, positive=True)
                lines.append(f"{side}x  {sp:<10}{c6:>10}{r0:>13}   (default)                   x\n")
                out["species"][sp] = {"c6": float(c6), "r0": float(r0)}
            lines.append(rule)
        return [*lines, "\n", "\n"], ("set", "dftd", out)

    def potentials(self):
        """Interatomic potentials: lists of species pairs and triples, under a tag or none."""
        ctx, v = self.ctx, self.v
        tag = self.pick(("", "", "SR", "WL"), "tag")
        side = f"{tag} " if tag else "   "
        rule = side + "*" * 68 + "\n"
        species = list(dict.fromkeys(a[0] for a in self.atoms))[:2]
        out: dict = {}

        def row(text, kind):
            lines.append(f"{side}*{text}".ljust(len(side) + 67) + f"* <--{kind:>5}\n")

        def put(kind, name, value):
            out.setdefault(f"{tag}_{kind}" if tag else kind, {})[name] = value

        lines = [side + "************************     PairParams     ************************\n",
                 side + "*" + " " * 66 + "*\n"]
        for kind in self.some(("LJ", "SHO", "MORS", "BUCK"), "two-body"):
            lines.append(f"{side}*{'Two Body':>39}".ljust(len(side) + 67) + "*\n")
            if len(species) == 1 and ctx.draw(2, "single"):
                keys = [(species[0],)]
                lines.append(f"{side}*{species[0]:>32}".ljust(len(side) + 67) + "*\n")
            else:
                keys = [(a, b) for a in species for b in species]
                lines.append(f"{side}* " + "".join(f"{a:>9}-{b:<2}" for a, b in keys).ljust(65) + "*\n")
            for name in self.some(("r", "e", "s", "r_d", "k"), "label"):
                xs = [v.fixed(5, 99, positive=True) for _ in keys]
                row(f"{name:>5}" + "".join(f"{x:>12}" for x in xs) + f"   {self.pick(('A', 'eV', 'eV/A^2'), 'unit')}", kind)
                put(kind, name, {k: float(x) for k, x in zip(keys, xs)})
            lines.append(rule)
        if ctx.draw(2, "three-body"):
            trip = tuple(self.pick(species, "triple") for _ in range(3))
            lines += [f"{side}*{'Three Body':>40}".ljust(len(side) + 67) + "*\n",
                      f"{side}*{trip[0]:>29} {trip[1]:>3} {trip[2]:>3}".ljust(len(side) + 67) + "*\n"]
            for name in self.some(("l", "c", "C"), "label"):
                x = v.fixed(10, 99, positive=True)
                row(f"{name:>5}{x:>30}", "SW")
                put("SW", name, {trip: float(x)})
            lines += [rule, f"{side}*{'SW Units':>39}".ljust(len(side) + 67) + "*\n"]
            for name, unit in (("e", "eV"), ("s", "A")):
                x = v.fixed(10, 99, positive=True)
                row(f"{name:>5}{x:>30}{'':18}{unit}", "SW")
                put("SW", name, float(x))
            lines.append(rule)
        if ctx.draw(2, "globals"):
            for name in self.some(("A", "B", "C", "D", "CUT1", "CUT2", "EPS", "SIG", "m"), "global"):
                x = v.fixed(10, 99, positive=True)
                row(f"{name:>5}{x:>30}{'':18}{self.pick(('', 'eV', 'A'), 'unit')}", "DZ")
                put("DZ", name, float(x))
            lines.append(rule)
        return [*lines, "\n"], ("append", "pair_params", out)

    # -- pseudopotentials --------------------------------------------------------------
    def pseudo_report(self):
        ctx, v = self.ctx, self.v
        el, q = self.pick([a[0].split(":")[0] for a in self.atoms], "element"), v.fixed(2, 99, positive=True)
        side = "   "

        def row(text=""):
            lines.append(f"{side}|{text:<58}|\n")

        heavy, thin = side + "=" * 60 + "\n", side + "-" * 60 + "\n"
        lines = [heavy]
        row(" Pseudopotential Report - Date of generation 14-07-2023")
        lines.append(thin)
        theory = self.pick(("LDA", "PBE", "RSCAN"), "theory")
        row(f" Element: {el:<2} Ionic charge: {q:>5} Level of theory: {theory}")
        solver = self.pick(("Koelling-Harmon", "ZORA", "Schroedinger"), "solver")
        row(f" Atomic Solver: {solver}")
        row()
        row("               Reference Electronic Structure")
        row("         Orbital         Occupation         Energy")
        out: dict = {"element": el, "ionic_charge": float(q), "level_of_theory": theory,
                     "solver": solver,
                     "reference_electronic_structure": [], "pseudopotential_definition": []}
        for _ in range(1 + ctx.draw(6, "n-orbs")):
            orb = f"{1 + ctx.draw(7, 'n')}{self.pick(SHELLS, 'l')}" + self.pick(("", "", "1/2", "3/2"), "j")
            occ, e = v.fixed(3, 14, positive=True), v.fixed(3, 99)
            row(f"{orb:>15}".ljust(20) + f"{occ:>13}{e:>17}")
            out["reference_electronic_structure"].append({"orb": orb, "occupation": float(occ), "energy": float(e)})
        row()
        row("                 Pseudopotential Definition")
        row("      Beta    l   2j     e      Rc     scheme   norm")
        for k in range(1, 2 + ctx.draw(12, "n-beta")):
            beta = "loc" if ctx.draw(5, "loc") == 4 else k
            ang, j = ctx.draw(4, "l"), (None, 1, 3, 5)[ctx.draw(4, "2j")]
            e, rc, scheme, norm = v.fixed(3, 9), v.fixed(3, 3, positive=True), self.pick(("qc", "pn", "rr"), "scheme"), ctx.draw(2, "norm")
            row(f"{beta:>9}{ang:>6}{'' if j is None else j:>5}{e:>9}{rc:>8}{scheme:>7}{norm:>6}")
            out["pseudopotential_definition"].append({"beta": beta, "l": ang, "j": j, "e": float(e), "Rc": float(rc),
                                                      "scheme": scheme, "norm": norm})
        row()
        for text, none, key in (("Augmentation charge Rinner", "No charge augmentation", "augmentation_charge_rinner"),
                                ("Partial core correction Rc", "No partial core correction", "partial_core_correction")):
            xs = [v.fixed(3, 3, positive=True) for _ in range(ctx.draw(3, "radii"))]
            row(f" {text} = " + "  ".join(xs) if xs else f" {none}")
            if xs:
                out[key] = tuple(map(float, xs))
        lines.append(thin)
        row("      Author: Chris J. Pickard, Cambridge University")
        return [*lines, heavy, "\n"], ("pspot", out, len(q) < 5)

    def pseudo_energy(self):
        v = self.v
        sp = self.pick([a[0].split(":")[0] for a in self.atoms], "element")
        e = v.fixed(4, 9999)
        shells = " ".join(f"{1 + self.ctx.draw(6, 'n')}{self.pick(SHELLS, 'l')}{1 + self.ctx.draw(14, 'occ')}"
                          for _ in range(1 + self.ctx.draw(4, "n-shells")))
        spill = [v.fixed(2, 99, positive=True) for _ in range(self.ctx.draw(5, "n-spill"))]
        lines = [f" Pseudo atomic calculation performed for {sp} {shells}\n", "\n",
                 f" Converged in {v.integer(1, 999)} iterations to a total energy of {e} eV\n"]
        lines += [f" Charge spilling parameter for spin component {i} = {x}%\n" for i, x in enumerate(spill, 1)]
        prop = {"pseudo_atomic_energy": float(e)}
        if spill:
            prop["charge_spilling"] = tuple(0.01 * float(x) for x in spill)
        return [*lines, "\n"], ("species", {sp: prop})

    def species_table(self):
        """Electric quadrupole moments, then potential files."""
        v, side = self.v, " " * 26
        names = list(dict.fromkeys(a[0] for a in self.atoms))
        lines = [side + "   Electric Quadrupole Moment (Barn)\n"]
        prop: dict = {}
        for sp in names:
            x = v.fixed(7, 2)
            lines.append(f"{side}{sp:>7}{x:>14} {self.pick(('Isotope 55', 'No Isotope Defined'), 'isotope')}\n")
            prop.setdefault(sp, {})["electric_quadrupole_moment"] = float(x)
        lines += ["\n", side + "   Files used for pseudopotentials:\n"]
        for sp in names:
            name = self.pick((f"{sp.split(':')[0]}_C19_PBE_OTF.usp", "my-pot.usp", "on-the-fly", "x_00.recpot"), "pot")
            prop[sp]["pseudopot"] = name
            if self.ctx.draw(3, "pot-string") == 2:
                name, prop[sp]["pseudopot"] = User.pspot(self)
            lines.append(f"{side}{sp:>7} {name}\n")
        return [*lines, "\n"], ("species", prop)

    # -- atoms -------------------------------------------------------------------------
    def labelled_positions(self):
        v, side = self.v, " " * 5
        rule = side + "x" * 74 + "\n"
        lines = [rule, side + "x  Element    Atom        Fractional coordinates of atoms  User-defined  x\n",
                 side + "x            Number           u          v          w          LABEL     x\n",
                 side + "x" + "-" * 72 + "x\n"]
        pos, labels = {}, {}
        for k, (sp, i) in enumerate(self.atoms):
            lab = (("", "H1", "bulk", "surf_2", "A-B+C", "12345678")[self.ctx.draw(6, "label")])
            q = self.vec()
            lines.append(f"{side}x  {sp:<9}{i:>5}   " + "".join(f"{x:>11}" for x in q) + f"     {lab:<13}x\n")
            pos[f"{sp} [{lab}]" if lab else sp, i] = tuple(map(float, q))
            labels[sp, i] = lab or "NULL"
        return [*lines, rule, "\n"], ("several", [("into", "labels", labels), ("set", "initial_positions", pos)])

    def mixture_positions(self):
        v, side = self.v, " " * 8
        rule = side + "x" * 68 + "\n"
        lines = [rule, side + "x  Mixture   Fractional coordinates of atoms  Components  Weights  x\n",
                 side + "x   atoms       u          v          w                            x\n",
                 side + "x" + "-" * 66 + "x\n"]
        pos = {}
        for k in range(1, self.many("n-mixtures") + 1):
            q = self.vec()
            for n, sp in enumerate(self.some(("Si", "Ge", "C", "Si [A1]", "Ge:MyTag"), "component")):
                w = v.fixed(6, 0.99, positive=True)
                head = f"{k:>5}     " + "".join(f"{x:>11}" for x in q) if n == 0 else " " * 43
                lines.append(f"{side}x{head:<43}   {sp:<10}{w:>8}  x\n")
                pos[sp, k] = {"pos": tuple(map(float, q)), "weight": float(w)}
        return [*lines, rule, "\n"], ("set", "initial_positions", pos)

    def initial_spins(self):
        v, side = self.v, " " * 9
        rule = side + "x" * 70 + "\n"
        lines = [rule, side + "|  Element    Atom         Initial            Initial magnetic       |\n",
                 side + "|            Number    spin polarization        moment (uB)     Fix? |\n",
                 side + "|" + "-" * 68 + "|\n"]
        out = {}
        for sp, i in self.atoms:
            s, m, fix = v.fixed(6, 9), v.fixed(3, 9), self.ctx.draw(2, "fix")
            lines.append(f"{side}| {sp:<9}{i:>7}{s:>17}{m:>19}       {'FT'[fix]}       |\n")
            out[sp, i] = {"spin": float(s), "magmom": float(m), "fix": bool(fix)}
        return [*lines, rule, "\n"], ("set", "initial_spins", out)

    # -- internal coordinates ----------------------------------------------------------
    def internal_constraints(self):
        ctx, v = self.ctx, self.v
        lines = ["  INTERNAL CONSTRAINTS\n", " #  Type     Target    Actual           Definition\n", "\n"]
        out = []
        for k in range(1, self.many("n-internal") + 1):
            kind = ctx.draw(3, "internal")
            ids = [v.integer(1, 999) for _ in range(kind + 2)]
            while len(set(ids)) < len(ids):
                ids = [v.integer(1, 999) for _ in range(kind + 2)]
            if ctx.draw(8, "image") == 7:
                # two images of one atom
                ids[-1] = ids[0]
            cells = [tuple(ctx.draw(3, "shift") - 1 for _ in range(3)) for _ in ids]
            x, y = v.fixed(3, 99), v.fixed(3, 99999)
            done = ctx.draw(2, "satisfied")
            lines.append(f"{k:>3} {('Bond', 'Angle', 'Torsion')[kind]:<8}{x:>7} "
                         + ("Satisfied" if done else f"{y:>9}")
                         + "".join(f"{i:>4} (" + "".join(f"{c:>2}" for c in cell) + ")"
                                   for i, cell in zip(ids, cells)) + "\n")
            out.append({"type": ("Bond", "Angle", "Torsion")[kind], "satisfied": bool(done),
                        "target": None if done else float(x), "current": float(x) if done else float(y),
                        "constraints": list(zip(ids, cells))})
        return [*lines, "\n", "\n"], ("internal", out)

    def delocalised(self):
        v, ctx = self.v, self.ctx
        out: dict = {"constraint_mapping": {}}
        lines = ["Message: Generating delocalized internals\n"]
        for k in range(1, self.many("n-deloc") + 1):
            p = v.integer(1, 99999)
            lines.append(f" constraint #{k:>6} is a primitive #{p:>6}\n")
            out["constraint_mapping"][k] = p
        lines.append("\n")
        for name in ("bonds", "angles", "dihedrals"):
            n = v.integer(0, 99999)
            out["num_" + name] = n
            lines.append(f"Total number of primitive {name + ':':<12}{n:>9}\n")
        n = v.integer(0, 99999)
        out["num_internals"] = n
        lines += ["\n", f"Total number of primitive internals:{n:>11}\n", "\n",
                  "Message: Generation of delocalized internals is successful\n", "\n"]
        if ctx.draw(2, "active-space"):
            a, b, c = (v.integer(1, 99999) for _ in range(3))
            lines += [" Startup Hessian in Internal Coordinates\n", "\n",
                      f" The size of active space is : {a:>5}\n", f" There are : {b:>6}  degrees of freedom\n",
                      f" There are : {c:>6}  primitive internals\n", "\n"]
            out.update(active_space_size=a, num_dof=b, num_primitive_internals=c)
        return lines, ("into", "delocalised_internal", out)

    # -- magnetic resonance ------------------------------------------------------------
    def shieldings(self):
        v, ctx = self.v, self.ctx
        kind = ctx.draw(5, "magres-table")
        title, task, head = (
            ("Chemical Shielding Tensor", "Chemical Shielding", "Iso(ppm)   Aniso(ppm)  Asym"),
            ("Chemical Shielding and Electric Field Gradient Tensors",
             "Chemical Shielding and Electric Field Gradient", "Iso(ppm)   Aniso(ppm)  Asym    Cq(MHz)    Eta"),
            ("Electric Field Gradient Tensor", "Electric Field Gradient", "Cq(MHz)        Asym"),
            ("Isotropic J-coupling" if ctx.draw(2, "iso") else "Anisotropic J-coupling", "(An)Isotropic J-coupling",
             "FC           SD         PARA       DIA       TOT(Hz)"),
            ("Hyperfine Tensor", "Hyperfine", "Iso(MHz)"))[kind]
        width = 80
        lines = ["  " + "=" * (width + 2) + "\n", f"  |{title:^{width}}|\n", "  |" + "-" * width + "|\n",
                 "  |     Nucleus".ljust(width + 3) + "|\n", f"  |    Species            Ion    {head}".ljust(width + 3) + "|\n"]
        out: dict = {"task": task}
        who = ctx.draw(len(self.atoms), "perturbing")
        for n, (sp, i) in enumerate(self.atoms):
            asym = "N/A" if ctx.draw(5, "n/a") == 4 else v.fixed(2, 1, positive=True)
            na = None if asym == "N/A" else float(asym)
            cq = v.expo(3, three=False)
            if kind == 3:
                # the perturbing nucleus has no coupling with itself
                if n == who:
                    lines.append(f"  |** {sp:<8}{i:>10}     --.--       --.--       --.--      --.--       --.-- ".ljust(width + 3) + "|\n")
                    continue
                xs = [v.fixed(2, 999) for _ in range(5)]
                lines.append((f"  |   {sp:<8}{i:>10}" + "".join(f"{x:>12}" for x in xs)).ljust(width + 3) + "|\n")
                out[sp, i] = dict(zip(("fermi_contact", "spin_dipolar", "paramagnetic", "diamagnetic", "total"), map(float, xs)))
                continue
            cells: list = []
            val: dict = {}
            if kind in (0, 1):
                iso, ani = v.fixed(2, 9999), v.fixed(2, 9999)
                cells += [f"{iso:>12}", f"{ani:>12}", f"{asym:>10}"]
                val = {"cs_iso": float(iso), "cs_aniso": float(ani), "asym": na}
            if kind == 1:
                eta = v.fixed(2, 1, positive=True)
                cells += [f"{cq:>12}", f"{eta:>7}"]
                val.update(cq=float(cq), eta=float(eta))
            if kind == 2:
                cells += [f"{cq:>18}", f"{asym:>12}"]
                val = {"cq": float(cq), "asym": na}
            if kind == 4:
                cells += [f"{cq:>28}"]
                val = {"hf_iso": float(cq)}
            lines.append((f"  |    {sp:<8}{i:>12}" + "".join(cells)).ljust(width + 3) + "|\n")
            out[sp, i] = val
        if kind == 3:
            lines += ["  |" + " " * width + "|\n",
                      "  |** Signifies Perturbing Nucleus A of coupling J_AB".ljust(width + 3) + "|\n"]
        return [*lines, "  " + "=" * (width + 2) + "\n", "\n"], ("append", "magres", out)

    # -- excited states ----------------------------------------------------------------
    def excited_states(self):
        v, ctx = self.v, self.ctx
        name = self.pick(("N2-modos", "run_2", "a-b.c"), "seed")
        lines = ["               Calculating MODOS weights\n",
                 " +-------------------INPUT PARAMETERS-------------------+\n",
                 f"Taking band from model   {name}.check\n"]
        states = []
        for _ in range(self.many("n-states")):
            s = (v.integer(1, 12), 1 + ctx.draw(2, "spin"))
            if s not in states:
                states.append(s)
        out = []
        for k, (b, s) in enumerate(states, 1):
            lines += [f"  MODOS state  {k:>14}\n", f"  MODOS band  nr.  {b:>10}\n", f"  MODOS band has spin{s:>8}\n"]
            out.append({"band": b, "spin": s})
        order = list(range(len(states)))
        if ctx.draw(3, "other-order") == 2:
            order.reverse()
        if ctx.draw(5, "populations"):
            for k in order:
                p = v.fixed(6, 2, positive=True)
                lines.append(f"|DeltaSCF| Population of state:{states[k][0]:>6}{states[k][1]:>6}{p:>11}\n")
                out[k]["pop"] = float(p)
        if ctx.draw(5, "files"):
            for k in order:
                f = f"{name}.modos_state_{states[k][0]}_{states[k][1]}"
                lines.append(f" Writing file   {f}\n")
                out[k]["file"] = f
        return [*lines, "\n"], ("set", "delta_scf", {"file": f"{name}.check", "states": out})

    # -- elasticity --------------------------------------------------------------------
    def elasticity(self):
        v, ctx = self.v, self.ctx
        rule, thin = " " + "=" * 79 + "\n", " " + "-" * 79 + "\n"
        out: dict = {}
        lines = []
        for title, key in (("Elastic Constants Tensor (GPa)", "elastic_constants"),
                           ("Compliance Matrix (GPa^-1)", "compliance_matrix")):
            if ctx.draw(3, key):
                rows = [[v.fixed(6 if key[0] == "e" else 9, 9.9) for _ in range(6)] for _ in range(6)]
                lines += [rule, f"{title:^80}\n", thin, *("".join(f"{x:>13}" for x in r) + "\n" for r in rows), rule, "\n"]
                out[key] = tuple(tuple(map(float, r)) for r in rows)
        if ctx.draw(3, "properties"):
            y, p = [v.fixed(6, 999) for _ in range(3)], [v.fixed(6, 0.9) for _ in range(6)]
            lines += [rule, f"{'Elastic Properties':^80}\n", thin, f"{'x':>29}{'y':>15}{'z':>15}\n", thin,
                      "  Young's Modulus ::" + "".join(f"{x:>15}" for x in y) + "     (GPa)\n", "\n", thin,
                      "                        xy        xz        yx        yz        zx        zy\n", thin,
                      "  Poisson Ratios  ::" + "".join(f"{x:>10}" for x in p) + "\n", "\n", thin,
                      "                          Voigt          Reuss          Hill\n", thin]
            out["young_s_modulus"], out["poisson_ratios"] = tuple(map(float, y)), tuple(map(float, p))
            for name, key in (("  Bulk Modulus   ::", "bulk_modulus"), (" Shear Modulus   ::", "shear_modulus")):
                x = [v.fixed(6, 999) for _ in range(3)]
                lines.append(f" {name}" + "".join(f"{a:>14}" for a in x) + "     (GPa)\n")
                out[key] = tuple(map(float, x))
            lines += ["\n", thin]
            if ctx.draw(2, "sound"):
                s = [[v.fixed(6, 999) for _ in range(3)] for _ in range(3)]
                lines += [f"{'Speed of Sound':>47}\n", thin, f"{'x':>29}{'y':>15}{'z':>15}\n", thin]
                lines += [f"  {name:<16}{'xyz'[k]}" + "".join(f"{a:>15}" for a in s[k]) + "     (A/ps)\n"
                          for k, name in enumerate(("", "(Anisotropic)", ""))]
                lines += ["\n", " Assuming Isotropic material\n"]
                out["speed_of_sound"] = tuple(tuple(map(float, r)) for r in s)
                for name, key in (("  Longitudinal waves ::", "longitudinal_waves"),
                                  ("   Transverse waves  ::", "transverse_waves")):
                    x = v.fixed(6, 999)
                    lines.append(f"{name}{x:>14}   (A/ps)\n")
                    out[key] = float(x)
            lines += [rule, "\n"]
        if not out:
            return self.noise()
        return lines, ("into", "elastic", out)

    # -- response ----------------------------------------------------------------------
    def optics(self):
        v, ctx = self.v, self.ctx
        pays, lines = [], []

        def rows(n):
            m = [[v.fixed(5, 999) for _ in range(n)] for _ in range(3)]
            return m, ["".join(f"{x:>12}" for x in r[:3]) + "    " + "".join(f"{x:>12}" for x in r[3:])
                       + "\n" for r in m]

        def mat(m):
            return tuple(tuple(map(float, r)) for r in m)

        for kind in self.some(range(3), "optics"):
            both = ctx.draw(2, "both")
            if kind == 2:
                m, text = rows(6)
                lines += [" " + "=" * 75 + "\n", "      Nonlinear Optical Susceptibility (pm/V)\n",
                          "      ---------------------------------------\n", *text, " " + "=" * 75 + "\n", "\n"]
                pays.append(("set", "nlo", mat(m)))
                continue
            m, text = rows(6 if both else 3)
            rule = " " + "=" * (79 if both else 39) + "\n"
            if kind == 0:
                head = ["       Optical Permittivity (f->infinity)" + "             DC Permittivity (f=0)" * both + "\n",
                        "       ----------------------------------" + "             ---------------------" * both + "\n"]
                names = ("optical_permittivity", "dc_permittivity")
            else:
                head = ["                 Polarisabilit" + ("ies" if both else "y") + " (A**3)\n",
                        "                Optical (f->infinity)" + "                       Static  (f=0)" * both + "\n",
                        "                ---------------------" + "                       -------------" * both + "\n"]
                names = ("optical_polarisability", "static_polarisability")
            lines += [rule, *head, *text, rule, "\n"]
            pays.append(("set", names[0], mat([r[:3] for r in m])))
            if both:
                pays.append(("set", names[1], mat([r[3:] for r in m])))
        return lines, ("several", pays)

    def dipole(self):
        v = self.v
        a, b, m = v.fixed(4, 99), v.fixed(4, 99), v.fixed(5, 9, positive=True)
        e, p, d = ([v.fixed(k, 9) for _ in range(3)] for k in (4, 4, 6))

        def row(text=""):
            return f"  +{text:<67}+\n"

        rule = "  " + "=" * 69 + "\n"
        return [rule, row(), row("   D I P O L E   O F   M O L E C U L E   I N   S U P E R C E L L"),
                row("      Cite: S. J. Clark, et al. Europhys Lett 44, 578 (1998)"), row(),
                row("      WARNING: This is only correct for isolated molecules"), row(),
                row(f"    Total  ionic  charge in supercell:{a:>13} electrons"),
                row(f"    Total valence charge in supercell:{b:>13} electrons"), row(),
                row("   Centre of electronic charge for system:"),
                row("    " + "".join(f"{x:>11} " for x in e) + "      ANG"),
                row("   Centre of positive ionic charges:"),
                row("    " + "".join(f"{x:>11} " for x in p) + "      ANG"), row(),
                row(f"  Magnitude of Dipole ={m:>10}  DEBYE"),
                row("  Direction of Dipole = " + "".join(f"{x:>12}" for x in d)), row(), rule, "\n"], \
            ("set", "molecular_dipole", {
                "total_ionic": float(a), "total_valence": float(b), "centre_electronic": tuple(map(float, e)),
                "centre_positive": tuple(map(float, p)), "dipole_magnitude": float(m),
                "dipole_direction": tuple(map(float, d))})

    def solvation(self):
        v = self.v
        out = {}
        lines = [" ********************** AUTOSOLVATION CALCULATION RESULTS **********************\n",
                 " Calculation succeeded:\n", "  - Vacuum calculation converged to a ground state\n",
                 "  - Solvent calculation converged to a ground state\n", "\n"]
        for text, key, close in ((" Total energy in solvent          =", "total_energy_in_solvent", ""),
                                 (" -Total energy in vacuum          =", "total_energy_in_vacuum", ""),
                                 (" Free energy of solvation         =", "free_energy_of_solvation", ""),
                                 ("  (Apolar cavitation energy       =", "apolar_cavitation_energy", ")"),
                                 ("  (Apolar dis-rep energy          =", "apolar_dis_rep_energy", ")"),
                                 ("  (Total apolar solvation energy  =", "total_apolar_solvation_energy", ")"),
                                 ("  (Total polar solvation energy   =", "total_polar_solvation_energy", ")")):
            x = v.fixed(17, 99)
            lines.append(f"{text}{x:>27} eV{close}\n")
            out[key] = float(x)
        return [*lines, " " + "*" * 79 + "\n", "\n"], ("set", "autosolvation", out)

    def vibration_symmetry(self):
        v, ctx = self.v, self.ctx
        lines, pays = [], []
        rule = "  " + "*" * 72 + "\n"
        for title in self.some(("Elements of D with same absolute magnitude", "Phase of D elements",
                                "Elements of BEC  with same absolute magnitude",
                                "Phase of Born Effective Charge elements"), "analysis"):
            wide = 3 * (1 + ctx.draw(12, "width"))
            if title.startswith("Phase"):
                rows = [[v.fixed(1, 360) for _ in range(wide)] for _ in range(wide if "BEC" not in title else 3)]
                val = tuple(tuple(map(float, r)) for r in rows)
            else:
                rows = [[str(v.integer(0, 9999)) for _ in range(wide)] for _ in range(wide)]
                val = tuple(tuple(map(int, r)) for r in rows)
            lines += [rule, f"  Phonon Symmetry Analysis: {title}\n", rule,
                      *("".join(f"{x:>6}" for x in r) + "\n" for r in rows), "\n"]
            pays.append(("append", "phonon_symmetry_analysis", {"title": " ".join(title.split()), "mat": val}))
        return lines, ("several", pays)

    def absorption(self):
        v = self.v
        lines = ["  + ================================================================= +TDDFT\n",
                 "  +                     TDDFT excitation energies                     +TDDFT\n",
                 "  +                     -------------------------                     +TDDFT\n",
                 "  +   State number         Energy in   eV     Estimated error         +TDDFT\n",
                 "  + ================================================================= +TDDFT\n",
                 "  +                                                                   +TDDFT\n"]
        out = []
        for k in range(1, self.many("n-excitations") + 1):
            e, x, kind = v.fixed(15, 99, positive=True), v.expo(10, three=False), self.pick(("spurious", "Singlet", "Triplet"), "type")
            lines.append(f"  +{k:>10}{e:>22}{x:>19}     {kind:<11}+TDDFT\n")
            out.append({"energy": float(e), "error": float(x), "type": kind})
        return [*lines, "  +                                                                   +TDDFT\n",
                "  + ================================================================= +TDDFT\n",
                f"  +  TDDFT calculation time:{v.fixed(2, 999, positive=True):>11}".ljust(70) + "+TDDFT\n",
                "  + ================================================================= +TDDFT\n", "\n"], \
            ("set", "tddft", out)

    def berry(self):
        """Berry phase polarisation, in short or atom by atom."""
        v, ctx = self.v, self.ctx
        rule = "=" * 85 + "\n"
        lines = ["         ------------------------------------\n", "         Berry phase polarisation calculation\n",
                 "         ------------------------------------\n"]
        out: dict = {}
        early: dict = {}
        nums = lambda d, n=3: [v.fixed(d, 9) for _ in range(n)]  # noqa: E731
        vecs = lambda x: tuple(map(float, x))  # noqa: E731
        if ctx.draw(3, "verbose") == 2:
            lines += [rule, "             Ionic contribution to polarisation (phase) [-1:1]\n", rule,
                      "ni nsp  Zion     frac_a1     frac_a2     frac_a3      pol_G1      pol_G2     pol_G3\n"]
            ions = {}
            names = list(dict.fromkeys(a[0] for a in self.atoms))
            for sp, i in self.atoms:
                x, n = nums(6, 6), names.index(sp) + 1
                lines.append(f"{i:>3} {n}{v.fixed(2, 99, positive=True):>7}" + "".join(f"{a:>12}" for a in x) + "\n")
                ions[n, i] = {"coords": vecs(x[:3]), "polarisation": vecs(x[3:])}
            x = nums(6)
            lines += [" Total ionic polarisation (phase [-1:1])        " + "".join(f"{a:>12}" for a in x) + "\n", rule, "\n"]
            out["ionic_contribution_to_polarisation"] = {"units": "phase", "total": vecs(x), "ions": ions}
            for title, unit in (("             Polarisation (phase) [-1:1] in Recip Lattice Basis (G_1, G_2, G_3)\n", "phase"),
                                ("             Polarisation (e bohr)       in Recip Lattice Basis (G_1, G_2, G_3)\n", "val"),
                                ("      Volume Polarisation (e /bohr^2)    in Recip Lattice Basis (G_1, G_2, G_3)\n", "e /bohr^2"),
                                ("      Volume Polarisation (C/m^2)        in Recip Lattice Basis (G_1, G_2, G_3)\n", "C/m^2")):
                table = {w: nums(6) for w in ("Electronic", "Ionic", "Total")}
                lines += [rule, title, rule, *(f"{w + ' polarisation':<23}" + "".join(f"{a:>12}" for a in t) + "\n"
                                               for w, t in table.items()), rule, "\n"]
                got = {w: vecs(t) for w, t in table.items()}
                if unit in ("phase", "val"):
                    early[unit] = got
                    early.update({"units": "e bohr"} if unit == "val" else {})
                else:
                    # the same in other units
                    out["volume_polarisation"] = {"units": unit, **got}
        lines += [rule, " Polarisation (C/m^2) in Recip Lattice Basis defined on range [-Quantum/2:Quantum/2]\n",
                  "              Direction                   Electronic   Ionic    Total    (Quantum)\n", rule]
        pol = {}
        for k, g in enumerate(((1., 0., 0.), (0., 1., 0.), (0., 0., 1.)), 1):
            e, i, t, q = nums(4, 4)
            lines.append(f" G_{k}:  (" + ",".join(f"{a:>8.4f}" for a in g) + f"   ){e:>12}{i:>10}{t:>10} ({q:>10} )\n")
            pol[g] = {"elec": float(e), "ionic": float(i), "total": float(t), "quantum": float(q), "units": "C/m^2"}
        lines += [rule, "\n"]
        for unit in ("e/bohr^2", "C/m^2"):
            lines.append(rule)
            for w in ("Ionic", "Elec ", "Total"):
                x = nums(6)
                lines.append(f" {w} Polarisation (Cartesian Basis):" + "".join(f"{a:>12}" for a in x) + f" ({unit})\n")
                out[w.strip().lower()] = {"units": unit, "val": vecs(x)}
            lines += [rule, "\n"]
        return lines, ("berry", out, pol, early)

    def reaction(self):
        """The ends of a transition state search, and the field or pressure applied."""
        v, ctx = self.v, self.ctx
        lines, pays = [], []
        side, rule = " " * 12, " " * 12 + "x" * 60 + "\n"
        for end in self.some(("Reactant", "Product"), "end"):
            lines += [rule, f"{side}x{end:^58}x\n", rule,
                      side + "x  Element    Atom        Fractional coordinates of atoms  x\n",
                      side + "x            Number           u          v          w      x\n", side + "x" + "-" * 58 + "x\n"]
            pos = {}
            for sp, i in self.atoms:
                q = self.vec()
                lines.append(f"{side}x  {sp:<9}{i:>5}   " + "".join(f"{x:>11}" for x in q) + "   x\n")
                pos[sp, i] = tuple(map(float, q))
            lines += [rule, "\n"]
            pays.append(("set", end.lower(), pos))
        return lines, ("several", pays)

    def line_minimisation(self):
        v, ctx = self.v, self.ctx
        e, d = v.expo(6), v.expo(3)
        n = 1 + ctx.draw(5, "n-steps")
        best = ctx.draw(n, "best")
        xs, gs = ([v.expo(3) for _ in range(n)] for _ in range(2))

        def row(name, vals):
            cells = "".join(f"{x:>11}{'*' if k == best else ' '}" for k, x in enumerate(vals))
            return f"| {name}   |{cells}{'unnecessary ' * (5 - n)}".ljust(72) + "|<- line\n"

        return ["+------------------- WAVEFUNCTION LINE MINIMISATION --------------------+<- line\n",
                f"| Initial energy ={e:>15} eV; initial dE/dstep ={d:>12} eV |<- line\n",
                "|                                                                       |<- line\n",
                "|            1st step    2nd step    3rd step    4th step    5th step   |<- line\n",
                "+--------+--------------------------------------------------------------+<- line\n",
                row("step", xs), row("gain", gs),
                "+--------+--------------------------------------------------------------+<- line\n",
                " * indicates the final, accepted state (should have the lowest energy)\n", "\n"], \
            ("full", ("append", "wvfn_line_min", {"init_energy": float(e), "init_de_dstep": float(d),
                                                  "steps": tuple(map(float, xs)), "gain": tuple(map(float, gs))}))


TABLES = ("parameters", "dispersion", "potentials", "pseudo_report", "pseudo_energy", "species_table",
          "labelled_positions", "mixture_positions", "initial_spins", "internal_constraints", "delocalised",
          "shieldings", "excited_states", "elasticity", "optics", "dipole", "solvation", "vibration_symmetry",
          "absorption", "berry", "reaction", "line_minimisation")
