"""Simulated users writing .cell and .param files: statements and what they mean."""
from __future__ import annotations

from .core import Ctx
from .models import SPECIES, Doc, Values

REAL_KEYS = ("cut_off_energy", "grid_scale", "elec_energy_tol", "md_delta_t", "geom_energy_tol", "mix_metric_q",
             "geom_modulus_est", "kpoints_mp_spacing", "smearing_width", "md_ion_t", "phonon_fine_cutoff_method_tol",
             "nlxc_screening_len", "bs_kpoint_path_spacing", "efield_tol")
INT_KEYS = ("backup_interval", "run_time", "max_scf_cycles", "md_num_iter", "nextra_bands", "iprint", "charge",
            "num_dump_cycles", "rand_seed", "nlxc_ppd_size_x", "nlxc_ppd_size_y")
BOOL_KEYS = ("calculate_stress", "calculate_elf", "fix_all_cell", "fix_all_ions", "fix_com", "spin_polarised",
             "popn_calculate", "write_formatted_density", "calculate_hirshfeld")
# keywords which stand alone
FLAG_KEYS = ("symmetry_generate", "snap_to_symmetry")
STR_KEYS = ("task", "xc_functional", "smearing_scheme", "checkpoint", "continuation", "opt_strategy", "md_ensemble",
            "md_thermostat", "comment", "pspot_beta_phi_type", "geom_method", "charge_unit")
VEC_KEYS = ("kpoints_mp_grid", "quantization_axis", "phonon_kpoint_mp_grid", "supercell_kpoints_mp_grid",
            "external_efield", "kpoints_mp_offset", "magnetic_field")
UNITS = ("eV", "Ang", "GPa", "1/Ang", "fs", "K", "hartree", "eV/Ang")
WORDS = ("DEFAULT", "ColdSmearing", "seed.check", "PBE", "LangevinT", "geometryoptimisation", "bfgs", "NVT", "e",
         "aa.bbb", "two words", "a longer remark in words", "PBE0:x", "ratio a:b = c", "Path/To-file_1.check",
         "../run_1/seed.check", "./seed.check", "2nd.check", "1.2-a.check", "-CH3 group", "+x", ".x", "3 GPa run 2",
         "20261120010203040506070809101112.check", "1/3 filled", "5eV", "T2", "Falsehood", "true story")
#: what an author who deleted every row of a block leaves
EMPTY = {"sedc_custom_params": {"units": {"energy": "eV", "distance": "Ang"}}, "hubbard_u": {"units": "eV"},
         "ionic_constraints": {}, "nonlinear_constraints": [], "symmetry_ops": [], "species_pot": {},
         "devel_code": {}, "xc_definition": {"xc": {}, "params": {}}}


class User:
    """What one user may write into an input file."""

    def __init__(self, ctx: Ctx, *, alone: bool = False) -> None:
        self.ctx = ctx
        #: writes keywords without a value, too
        self.alone = alone
        self.v = Values(ctx)
        self.taken: set[str] = set()

    # -- style ---------------------------------------------------------------------
    def name(self, names) -> str | None:
        left = [n for n in names if n not in self.taken]
        if not left:
            return None
        pick = left[self.ctx.draw(len(left), "key")]
        self.taken.add(pick)
        return pick

    def cased(self, key: str) -> str:
        case = self.ctx.draw(7, "case")
        return (key, key.upper(), key.title())[case // 2] if case < 6 else key[:3].upper() + key[3:-1] + key[-1].upper()

    def remark(self) -> str:
        return ("", "", "", "  # a remark", " ! another : one", " #")[self.ctx.draw(6, "remark")]

    def margin(self) -> str:
        return ("", "", " ", "    ", "\t")[self.ctx.draw(5, "margin")]

    def num(self, dec: int = 6, mag: float = 20, *, positive: bool = False) -> tuple[str, float]:
        """A number as users write them."""
        kind = self.ctx.draw(6, "number")
        if kind == 4:
            a, b = self.v.integer(1, 9), self.v.integer(2, 9)
            sign = "" if positive or self.ctx.draw(2, "sign") else "-"
            return f"{sign}{a}/{b}", (-1 if sign else 1) * a / b
        if kind == 5:
            i = self.v.integer(1, 40)
            return str(i), float(i)
        if kind == 3:
            x = self.v.fixed(3, 9, positive=positive) + f"e{self.v.integer(-9, 9):+d}"
            return x, float(x)
        x = self.v.fixed(dec, mag, positive=positive)
        return x, float(x)

    def nums(self, n: int) -> tuple[str, list[float]]:
        got = [self.num() for _ in range(n)]
        gap = (" ", "   ", "\t")[self.ctx.draw(3, "gap")]
        return gap.join(t for t, _ in got), [x for _, x in got]

    def species(self, *, tags: bool = True) -> str:
        sp = SPECIES[self.ctx.draw(6, "species")]
        if tags and not self.ctx.draw(5, "tag"):
            sp += (":1", ":tag", ":surf_a")[self.ctx.draw(3, "which-tag")]
        return sp

    def scalar(self, names, text: str, value):
        key = self.name(names)
        if key is None:
            return None
        sep = (" : ", ": ", " = ", "=", "   ", ":", "\t", "  :   ", " =\t")[self.ctx.draw(9, "separator")]
        return [f"{self.margin()}{self.cased(key)}{sep}{text}{self.remark()}\n"], ("set", key, value)

    def gap(self) -> str:
        return (" ", " ", "   ", "\t")[self.ctx.draw(4, "gap")]

    # -- single statements ---------------------------------------------------------
    def integer(self):
        i = self.v.integer(-99, 9999)
        if not self.ctx.draw(5, "unit"):
            unit = UNITS[self.ctx.draw(len(UNITS), "which-unit")]
            return self.scalar(INT_KEYS, f"{i}{self.gap()}{unit}", [i, unit])
        return self.scalar(INT_KEYS, str(i), i)

    def real(self):
        text, value = (self.v.fixed(4, 99), None) if self.ctx.draw(2, "plain") else (
            self.v.fixed(2, 9) + f"{'eE'[self.ctx.draw(2, 'e')]}{self.v.integer(-9, 9):+03d}", None)
        value = float(text)
        if self.ctx.draw(2, "unit"):
            unit = UNITS[self.ctx.draw(len(UNITS), "which-unit")]
            return self.scalar(REAL_KEYS, f"{text}{self.gap()}{unit}", [value, unit])
        return self.scalar(REAL_KEYS, text, value)

    def boolean(self):
        val = bool(self.ctx.draw(2, "bool"))
        text = (("F", "FALSE", "false", "False"), ("T", "TRUE", "true", "True"))[val][self.ctx.draw(4, "spelling")]
        return self.scalar(BOOL_KEYS, text, val)

    def string(self):
        word = WORDS[self.ctx.draw(len(WORDS), "word")]
        return self.scalar(STR_KEYS, word, word)

    def vector(self):
        v: list = [self.v.integer(-3, 30) for _ in range(3)]
        text = [str(x) for x in v]
        real = self.ctx.draw(8, "which-real") if self.ctx.draw(2, "reals") else 0
        if real:  # some of them (bits of ``real``) reals
            for i in range(3):
                if real >> i & 1:
                    text[i] = self.v.fixed(3, 9)
            v = [float(x) for x in text]
        gap = self.gap()
        if self.ctx.draw(4, "unit") == 3:
            unit = UNITS[self.ctx.draw(len(UNITS), "which-unit")]
            return self.scalar(VEC_KEYS, gap.join(text) + self.gap() + unit, [v, unit])
        return self.scalar(VEC_KEYS, gap.join(text), v)

    def flag(self):
        if not self.alone or (key := self.name(FLAG_KEYS)) is None:
            return None
        return [f"{self.margin()}{self.cased(key)}{self.remark()}\n"], ("alone", key)

    def blank(self):
        return [("\n", "# a comment line\n", "! cut_off_energy : 12\n", "   \n",
                 "# %block positions_frac\n")[self.ctx.draw(5, "blank")]], ("nothing",)

    # -- blocks --------------------------------------------------------------------
    def block(self, title: str, body: list[str], value):
        """``body`` between its delimiters, with remarks and comment lines strewn in."""
        if title in self.taken:
            return None
        self.taken.add(title)
        ctx = self.ctx
        word = ("%BLOCK", "%block", "%Block", "%bLOck")[ctx.draw(4, "block-case")]
        end = ("%ENDBLOCK", "%endblock", "%EndBlock", "%ENDblock")[ctx.draw(4, "block-case")]
        name = self.cased(title)
        if not ctx.draw(40, "no-rows"):
            body, value = [], EMPTY.get(title, {} if title.startswith("positions") else {"data": []})
        lines = [f"{self.margin()}{word}{self.gap()}{name}\n"]
        strewn = ctx.draw(3, "strewn") == 2
        for ln in body:
            if strewn and not ctx.draw(4, "comment-line"):
                lines.append(("# between\n", "   ! between\n", "\n")[ctx.draw(3, "which-comment")])
            lines.append(f"{self.margin()}{ln}{self.remark() if strewn else ''}\n")
        return [*lines, f"{end} {name}\n"], ("set", title, value)

    def unit_line(self, body: list[str], units=("ang", "bohr", "nm")) -> str | None:
        if self.ctx.draw(2, "units"):
            body.append(units[self.ctx.draw(len(units), "which")])
            return body[-1]
        return None

    def count(self, hi: int = 12) -> int:
        """Mostly a few, sometimes past one digit."""
        if self.ctx.draw(4, "many"):
            return self.ctx.between(1, 4, "n")
        if self.ctx.draw(40, "scale") == 39:  # and past two
            return self.ctx.between(95, 130, "n-scale")
        return self.ctx.between(9, hi, "n-many")

    def table(self):
        """Blocks of bare numbers."""
        title, width, rows, units = (
            ("lattice_cart", 3, 3, ("ang", "bohr")), ("lattice_abc", 3, 2, ("ang", "bohr")),
            ("cell_constraints", 3, 2, None), ("external_pressure", 3, 3, ("GPa", "kbar")),
            ("ionic_velocities", 3, 0, ("ang/ps", "bohr/fs")), ("kpoints_list", 4, 0, None),
            ("bs_kpoint_path", 3, 0, None), ("phonon_supercell_matrix", 3, 3, None),
            ("external_efield", 3, 1, ("eV/ang/e",)), ("phonon_fine_kpoint_list", 3, 0, None),
        )[self.ctx.draw(10, "table")]
        body: list[str] = []
        out: dict = {"data": []}
        if units and (u := self.unit_line(body, units)):
            out["units"] = u
        for i in range(rows or self.count()):
            n = width - i if title == "external_pressure" else width
            text, vals = self.nums(n)
            body.append(text)
            out["data"].append(vals)
        return self.block(title, body, out)

    def species_table(self):
        title = ("species_mass", "species_lcao_states", "species_gamma", "species_q")[self.ctx.draw(4, "table")]
        body: list[str] = []
        out: dict = {}
        units = title in ("species_mass", "species_gamma", "species_q") and self.unit_line(
            body, {"species_mass": ("amu", "m_e"), "species_gamma": ("radsectesla",), "species_q": ("barn",)}[title])
        for _ in range(self.count(6)):
            sp = self.species()
            if sp in out:
                continue
            if title == "species_lcao_states":
                val: float = self.v.integer(1, 9)
                text = str(val)
            else:
                text = self.v.fixed(6, 200, positive=True)
                val = float(text)
            body.append(f"{sp:>9} {text}")
            out[sp] = val
        return self.block(title, body, {"data": out, **({"units": units} if units else {})})

    def positions(self):
        absolute = self.ctx.draw(2, "absolute")
        body: list[str] = []
        units = absolute and (self.unit_line(body) or "Ang")
        out: dict = {}
        counts: dict = {}
        number = self.count(14)
        sole = self.species() if number > 60 else None
        for _ in range(number):
            sp = sole if sole and self.ctx.draw(20, "sole") else self.species()
            counts[sp] = counts.get(sp, 0) + 1
            text, pos = self.nums(3)
            info: dict = {"pos": pos}
            if absolute:
                info["units"] = units
            extra = self.ctx.draw(5, "extra")
            if extra == 3:
                val, x = self.num(2, 5)
                text += (" SPIN= ", " spin : ", "  MAGMOM ", " SPIN=")[self.ctx.draw(4, "spin")] + val
                info["spin"] = x
            elif extra == 4:
                i, w = self.v.integer(1, 30), self.v.fixed(6, 1, positive=True)
                text += f" MIXTURE:({i:4d}  {w})"
                info["mix_index"], info["weight"] = i, float(w)
            body.append(f"{sp:<5} {text}")
            out[sp, counts[sp]] = info
        title = "positions_abs" if absolute else "positions_frac"
        return self.block(title + ("", "", "_intermediate", "_product")[self.ctx.draw(4, "which")], body, out)

    def ionic_constraints(self):
        body, out = [], {}
        few = self.ctx.draw(2, "few-atoms")
        pool = [(self.species(), self.v.integer(1, 30)) for _ in range(2)]
        for i in range(1, self.count(25) + 1):
            sp, n = pool[self.ctx.draw(2, "atom")] if few else (self.species(), self.v.integer(1, 30))
            vals = [self.v.fixed(4, 2) for _ in range(3)]
            body.append(f"{i:>3} {sp:>5} {n:>3}  " + "  ".join(vals))
            out.setdefault((sp, n), []).append([float(x) for x in vals])
        return self.block("ionic_constraints", body, out)

    def nonlinear_constraints(self):
        body, out = [], []
        for _ in range(self.count(11)):
            kind = self.ctx.draw(3, "kind")
            wide = "" if self.ctx.draw(4, "wide") else " "
            text, atoms = ("distance", "bend", "torsion")[kind], {}
            item = {"key": text, "atoms": atoms}
            while len(atoms) < kind + 2:
                a = self.species(tags=False), self.v.integer(1, 40)
                if a in atoms:
                    continue
                atoms[a] = [self.v.integer(-1, 1) for _ in range(3)]
                gap = wide and " " * 8
                text += f"  {a[0]} {gap}{a[1]}  {gap}" + " ".join(map(str, atoms[a]))
            body.append(text)
            out.append(item)
        return self.block("nonlinear_constraints", body, out)

    def symmetry_ops(self):
        body, out = [], []
        for n in range(self.count(12)):
            if self.ctx.draw(2, "op-comment"):
                body.append(f"# Symm. op. {n + 1}   C2")
            rows = [self.nums(3) for _ in range(4)]
            body += [t for t, _ in rows]
            out.append({"r": [x for _, x in rows[:3]], "t": rows[3][1]})
        return self.block("symmetry_ops", body, out)

    def sedc(self):
        body: list[str] = []
        units = ["eV", "Ang"]
        if self.ctx.draw(2, "units"):
            units = [("hartree", "bohr"), ("eV", "bohr"), ("J/mol", "nm"), ("Ry", "ang"), ("m", "n")][self.ctx.draw(5, "units")]
            body.append(" ".join(units))
        out: dict = {"units": dict(zip(("energy", "distance"), units))}
        for _ in range(self.count(6)):
            sp = self.species()
            if sp in out:
                continue
            pars = ("C6", "R0", "alpha", "Neff")[:1 + self.ctx.draw(4, "n-pars")]
            out[sp] = {k: self.v.fixed(4, 9) for k in pars}
            body.append(sp + "  " + " ".join(f"{k}:{x}" for k, x in out[sp].items()))
            out[sp] = {k: float(x) for k, x in out[sp].items()}
        return self.block("sedc_custom_params", body, out)

    def hubbard_u(self):
        body: list[str] = []
        out: dict = {"units": self.unit_line(body, ("eV", "Ha")) or "eV"}
        for _ in range(self.count(6)):
            sp = self.species()
            n = self.v.integer(1, 20) if self.ctx.draw(2, "one-atom") else None
            key = (sp, n) if n else sp
            if key in out:
                continue
            out[key] = {}
            text = f"{sp} {n if n else ''}"
            for orb in "spdf"[self.ctx.draw(4, "orb"):]:
                x = self.v.fixed(2, 9, positive=True)
                text += f"  {orb}: {x}"
                out[key][orb] = float(x)
                if self.ctx.draw(2, "one-orb"):
                    break
            body.append(text)
        return self.block("hubbard_u", body, out)

    def xc_definition(self):
        body, out = [], {"xc": {}, "params": {}}
        for k in ("LDA", "PBE", "hf", "LIBXC_MGGA_XC_ZLP")[:1 + self.ctx.draw(4, "n-xc")]:
            x = self.v.fixed(3, 2)
            body.append(f"{k} {x}")
            out["xc"][k.lower()] = float(x)
        if self.ctx.draw(2, "nlxc"):
            x = self.v.fixed(3, 2, positive=True)
            on = self.ctx.draw(2, "on")
            body += [f"NLXC_SCREENING_LENGTH {x}", "NLXC_SCREENING_FUNCTION THOMAS-FERMI",
                     f"NLXC_PPD_INT {('OFF', 'on')[on]}"]
            out["params"] = {"nlxc_screening_length": float(x), "nlxc_screening_function": "THOMAS-FERMI",
                             "nlxc_ppd_int": bool(on)}
        return self.block("xc_definition", body, out)

    def pspot(self) -> tuple[str, dict]:
        v = self.v
        loc = v.integer(0, 4)
        core = v.fixed(1, 3, positive=True)
        out: dict = {"local_channel": float(loc), "core_radius": float(core)}
        text = f"{loc}|{core}|"
        if self.ctx.draw(2, "beta"):
            a, b = v.fixed(1, 3, positive=True), v.fixed(1, 3, positive=True)
            text += f"{a}|{b}|"
            out["beta_radius"], out["r_inner"] = float(a), float(b)
        for k in ("coarse", "medium", "fine"):
            x = (str(v.integer(2, 20)), v.fixed(3, 20, positive=True))[self.ctx.draw(2, "grid")]
            text += f"{x}|"
            out[k] = float(x)
        groups = []
        betas = []
        for _ in range(self.ctx.between(1, 4, "n-beta")):
            n, ch = v.integer(2, 6), self.ctx.draw(4, "channel")
            g, proj = f"{n}{ch}", []
            for _ in range(self.ctx.draw(3, "n-proj")):
                kind = "UNGHLP"[self.ctx.draw(6, "proj")]
                p: dict = {"type": kind}
                g += kind
                if self.ctx.draw(2, "rc"):
                    x = v.fixed(1, 3, positive=True)
                    g += x
                    p["beta_rc"] = float(x)
                if self.ctx.draw(3, "e") == 2:
                    x = v.fixed(2, 3, positive=True)
                    g += "+" + x
                    p["beta_e"] = float(x)
                proj.append(p)
            groups.append(g)
            betas.append({"orbital": n, "shell": "spdf"[ch], "shell_ind": ch, "projectors": proj})
        out["beta_functions"] = betas
        out["beta_function_string"] = ":".join(groups)
        tail = ""
        if self.ctx.draw(2, "adj"):
            tail += "{5s0.5,5p0.5}"
            out["adjustment"] = ["5s0.5", "5p0.5"]
        if self.ctx.draw(2, "flags"):
            q = v.integer(4, 9)
            tail += f"(qc={q})"
            out["flags"] = [f"qc={q}"]
        out["print"] = bool(self.ctx.draw(2, "test"))
        if out["print"]:
            tail += "[3s2,3p1.5]"
            out["testing"] = ["3s2", "3p1.5"]
        out["poly_fit"] = False
        text += out["beta_function_string"] + tail
        out["string"] = text
        return text, out

    def species_pot(self):
        body, out = [], {}
        if not self.ctx.draw(5, "library"):
            body.append("QC5")
            out[None] = "QC5"
        for _ in range(self.count(6)):
            sp = self.species()
            if sp in out:
                continue
            if self.ctx.draw(2, "string"):
                text, out[sp] = self.pspot()
            else:
                text = out[sp] = f"{sp.split(':')[0]}_{self.v.integer(1, 99)}.usp"
            body.append(f"{sp} {text}")
        return self.block("species_pot", body, out)

    def _plain(self, par, used: int, n: int, body: list, out: dict) -> int:
        for _ in range(n):
            k, t, val = par(used)
            used += 1
            while k in out:
                k = "z" + k
            body.append(f"{k}{':='[self.ctx.draw(2, 'sep')]}{t}")
            out[k] = val
        return used

    def devel_code(self):
        v, ctx = self.v, self.ctx
        body, out = [], {}

        def par(n: int):
            kind = ctx.draw(5, "par")
            # names which end like others
            key = ("par_", "xpar_", "a_par_")[ctx.draw(3, "stem")] + "abcdefghijklmnopqrstuvw"[n if ctx.draw(3, "own") else n // 2]
            if kind == 0:
                val: object = v.integer(1, 900)
                return key, str(val), val
            if kind == 1:
                text = v.fixed(3, 90)
                return key, text, float(text)
            if kind == 2:
                b = bool(ctx.draw(2, "bool"))
                return key, ("False", "T")[b], b
            if kind == 3:
                text = v.fixed(1, 9, positive=True) + f"e{v.integer(-9, -1)}"
                return key, text, float(text)
            text = ("Hello", "fast", "PBE")[ctx.draw(3, "text")]
            return key, text, text

        used = 0
        groups = ("MD", "PP", "GEOM", "PPX")
        mode = ctx.draw(3, "pieces")
        names = [groups[ctx.draw(4, "group")] for _ in range(ctx.between(1, 4, "n-groups"))] if mode == 2 \
            else list(groups[:ctx.draw(4, "n-groups")])
        for name in names:
            if mode == 2 and used < 8:  # parameters of no group in between
                used = self._plain(par, used, ctx.draw(2, "between"), body, out)
            grp = out.setdefault(name.lower(), {})
            text = f"{name}: "
            for _ in range(ctx.between(1, 2, "n-pars")):
                k, t, val = par(used)
                used += 1
                while k in grp:
                    k = "z" + k
                grp[k] = val
                text += f"{k}{'==:'[ctx.draw(3, 'sep')]}{t} "
            if ctx.draw(3, "bare") == 2:
                word = ("word", "other")[ctx.draw(2, "word")]
                text += word + " "
                grp.setdefault("data", []).append(word)
            body.append(text + f":{('END', 'end', 'End')[ctx.draw(3, 'end-case')]}{name}")
        self._plain(par, used, ctx.draw(3, "n-pars"), body, out)
        if ctx.draw(2, "present") or not body:
            body.append("present_value")
            out["present_value"] = None
        return self.block("devel_code", body, out)


PARAM = ("integer", "real", "boolean", "string", "vector", "blank", "devel_code", "xc_definition")
CELL = ("table", "table", "species_table", "positions", "positions", "ionic_constraints", "nonlinear_constraints",
        "symmetry_ops", "sedc", "hubbard_u", "species_pot", "real", "boolean", "vector", "blank", "flag")


def assemble(payloads, **_):
    out: dict = {}
    for p in payloads:
        if p[0] == "set":
            out[p[1]] = p[2]
    return [out]


def inputs(ctx: Ctx, fmt: str) -> Doc:
    user = User(ctx)
    kinds = PARAM if fmt == "param" else CELL
    recs = []
    for _ in range(ctx.between(1, 7, "n-statements")):
        kind = kinds[ctx.draw(len(kinds), "statement")]
        if (rec := getattr(user, kind)()) is not None:
            recs.append(rec)
    if not any(p[0] == "set" for _, p in recs):
        recs.append(user.integer())
    return Doc(fmt, [], recs, [], assemble)
