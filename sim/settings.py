"""Settings of a calculation, as read from its .cell and .param files."""
from __future__ import annotations

from .core import Ctx

XCS = ("lda", "pbe", "rscan", "hse06", "pbe0", "wc", "blyp", "ms2", "pbesol", "r2scan", "b3lyp", "rpbe",
       "libxc_gga_x_2d_b86_mgc", "libxc_lda_c_vwn", "libxc_mgga_x_scan", "libxc_hyb_gga_xc_b97", "oep")
TASKS = ("singlepoint", "md", "geometryoptimisation", "phonon", "spectral", "magres", "elastic",
         "transitionstatesearch", "efield", "thermodynamics", "phonon+efield", "epcoupling", "autosolvation",
         "bandstructure", "optics", "moleculardynamics", "geom", "energy", "elnes", "tss", "wannier")
FLAGS = ("write_orbitals", "write_formatted_density", "write_formatted_potential", "popn_write",
         "write_cif_structure", "write_cell_structure", "calculate_elf", "write_formatted_elf",
         "calculate_xrd_sf", "pdos_calculate_weights", "spin_polarised", "write_none",
         "calculate_hirshfeld", "calculate_densdiff", "write_formatted_dielec_perm",
         "efield_calc_ion_permittivity", "calculate_modos", "spectral_restart", "write_bib", "write_bands",
         "write_cst_esp", "write_geom", "write_md", "write_otfg", "magres_write_response",
         "phonon_calculate_dos", "spin_orbit_coupling")
CHOICES = (("write_checkpoint", ("ALL", "minimal", "none", "both", "full")),
           ("spectral_task", ("coreloss", "bandstructure", "optics", "dos", "all")),
           ("spectral_theory", ("dft", "tddft")), ("geom_method", ("lbfgs", "pes")),
           ("md_ensemble", ("nve", "nvhug", "nphug")), ("md_extrap", ("first", "second", "mixed", "none")),
           ("opt_strategy", ("memory", "default", "speed")), ("opt_strategy_bias", (-1, 0, 2)),
           ("metals_method", ("dm", "edft")), ("md_num_beads", (1, 4)), ("num_farms", (1, 2, 3)),
           ("tddft_selected_state", (0, 1)), ("spin_treatment", ("none", "vector", "scalar")))
DEVEL = ("write_formatted_bands", "zdos_scf", "write_unformatted_density", "trace", "prof", "pp_hybrid",
         "lda_sf_pot_write", "calculate_xrd_sf", "zdos_spectral", "calc_elastic", "_pp", "spectral_spinvec",
         "spectral_spinvec_append")
SECTIONS = (("pp", ("pot_print", "fd_check")), ("spectral", ("calc_core", "calc_ome", "calc_pdos", "calc_dome")),
            ("elastic", ("deform_pot",)), ("phonon", ("write_first_order_potential",)),
            ("tddft", ("den1_write", "save_td_den_fmt")))
SPECIES = ("Si", "N", "Fe", "O")


def settings(ctx: Ctx) -> tuple[dict, dict]:
    """(cell, param) of some calculation."""
    names = [XCS[ctx.draw(len(XCS), "xc")] for _ in range(ctx.between(1, 3, "n-xc"))]
    param: dict = {}
    if len(set(names)) > 1:
        ctx.probe("mixed functional")
        param["xc_definition"] = {"xc": dict.fromkeys(names, 0.5)}
    else:
        param["xc_functional"] = names[0]
    param["task"] = TASKS[ctx.draw(len(TASKS), "task")]
    for key in FLAGS:
        v = ctx.draw(6, key)
        if v >= 4:
            param[key] = v == 5
    for key, opts in CHOICES:
        if ctx.draw(3, key) == 2:
            param[key] = opts[ctx.draw(len(opts), key)]
    if ctx.draw(2, "devel"):
        code: dict = {k: True for k in DEVEL if ctx.draw(4, k) == 3}
        for sec, keys in SECTIONS:
            if ctx.draw(3, sec) == 2:
                code[sec] = {k: bool(ctx.draw(2, k)) for k in keys if ctx.draw(2, k)}
        if code:
            param["devel_code"] = code
    cell: dict = {}
    if ctx.draw(3, "cell"):
        kinds = [s for s in SPECIES if ctx.draw(2, s)] or ["Si"]
        cell["positions_frac"] = {(s, i): {"pos": (0.0, 0.0, 0.0)} for s in kinds
                                  for i in range(1, 1 + ctx.between(1, 2, "atoms"))}
        if ctx.draw(2, "species-pot"):
            cell["species_pot"] = {s: ({"print": True, "string": "2|1.8"}, {"string": "3|1.8"}, s + "_C19.usp")[
                ctx.draw(3, "pot")] for s in kinds}
    return cell, param
