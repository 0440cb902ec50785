"""C08: coarse-mesh finite difference acceleration."""
from ref import *

TITLE = "Coarse-mesh acceleration is consistent with the transport solution"
EXPLANATION = (
    "The coupling coefficients, the matrix entries, the group solve, the coarse power iteration and the currents and "
    "surface fluxes derived from its result are compared with reference definitions (D-hat defined by reproducing the "
    "transport current, the sign of each surface by its outward normal, removal from the same cell), for every surface, "
    "cell, group and boundary type. The sparse linear solver is taken as given.")


def check(ck):
    specs(ck, "c08")
    mesh = ("coarse_neigh_cells", "surface_normal", "cell_thickness", "coarse_interface", "coarse_area", "coarse_surf",
            "coarse_volume")
    one = lambda f: len(f.p) == 1
    none = lambda f: not f.p
    pair(ck, "system", "coefficients and matrix entries are those that reproduce the transport currents and balance each cell", [
        ("CMFD::setup_solve", "CMFD__setup_solve"),
    ], opaque=mesh)
    pair(ck, "solve", "the coarse iteration solves each group once per pass with its own source and returns the flux to the same cells", [
        ("CMFD::fission_source", "CMFD__fission_source"),
        ("CMFD::total_fission", "CMFD__total_fission"),
        ("CMFD::solve_1g", "CMFD__solve_1g"),
        ("CMFD::residual", "CMFD__residual", dict(pick=none)),
        ("CMFD::residual", "CMFD__residual_1g", dict(pick=one)),
        ("CMFD::solve", "CMFD__solve", dict(
            opaque=mesh + ("solve_1g", "CMFD::residual", "CMFD::fission_source", "CMFD::total_fission", "setup_solve",
                           "store_currents", "update", "initialize_group", "SourceIsotropic", "Source::fission", "in_scatter", "scale"),
            drop=("print",),
            order=(("update", "setup_solve"), ("setup_solve", "residual"), ("fission_source", "solve_1g"), ("solve_1g", "total_fission"),
                   ("initialize_group", "fission", "in_scatter", "scale", "solve_1g"), ("solve_1g", "store_currents")))),
    ], opaque=mesh + ("CMFD::residual", "initialize_group", "Source::fission", "in_scatter", "scale"))
    pair(ck, "currents", "currents, surface fluxes and partial currents are those of the coarse solution, on the surfaces they belong to", [
        ("CMFD::store_currents", "CMFD__store_currents"),
        ("CoarseData::CoarseData", "CoarseData__ctor", dict(pick=lambda f: len(f.p) == 2)),
        ("CoarseData::zero_data", "CoarseData__zero_data"),
        ("CoarseData::zero_data_radial", "CoarseData__zero_data_radial"),
    ], opaque=mesh)
