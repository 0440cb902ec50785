"""C07: order of the multigroup solve."""
from ref import *

TITLE = "Multigroup solve visits every group once per pass in a valid order"
EXPLANATION = (
    "The outer pass of the fixed-source solver and the group sweep of every sweeper type (each Sn variant, MoC, the "
    "coupled MoC) are compared with reference definitions: which calls are made with which group, how often, under "
    "which conditions, and the relative order of source construction, cross-section update, expansion, sweep and "
    "current tally. Whether the iteration converges is not decided.")


def check(ck):
    specs(ck, "c07")
    pair(ck, "pass", "a pass stores the old flux, then builds the source of each group once and sweeps that group", [
        ("FixedSourceSolver::step", "FixedSourceSolver__step", dict(order=(
            ("store_old_flux", "sweep"), ("initialize_group", "fission", "in_scatter", "sweep"),
            ("store_old_flux", "in_scatter")))),
        ("FixedSourceSolver::solve", "FixedSourceSolver__solve", dict(
            opaque=("FixedSourceSolver::step", "FixedSourceSolver::initialize"), order=(("initialize", "step"), ("step", "flux_residual")))),
        ("FixedSourceSolver::initialize", "FixedSourceSolver__initialize"),
    ])
    inner = (("expand", "self_scatter"), ("self_scatter", "sweep1g<Current>", "sweep1g<NoCurrent>",
             "sweep1g<CurrentCorrections>", "sweep_1g<Current>", "sweep_1g<NoCurrent>", "sweep_1g_2d<Current>",
             "sweep_1g_2d<NoCurrent>"),
             ("zero_data_radial", "sweep1g<Current>"), ("zero_data_radial", "sweep1g<CurrentCorrections>"),
             ("zero_data", "sweep_1g<Current>"), ("zero_data", "sweep_1g_2d<Current>"),
             ("update", "expand"), ("update", "sweep1g<CurrentCorrections>"))
    pair(ck, "sweep", "a group sweep brings the cross sections up to date, works on that group's flux, evaluates the "
         "self-scattering source before each inner iteration and tallies currents on the last one only", [
        ("MoCSweeper::sweep", "MoCSweeper__sweep"),
        ("MoCSweeper_2D3D::sweep", "MoCSweeper_2D3D__sweep"),
        (lambda f: f.short == "sweep" and f.n.startswith("mocc::sn::SnSweeperVariant<"), "SnSweeperVariant__sweep",
         dict(least=7)),
    ], opaque=("sweep1g", "sweep_1g", "sweep_1g_2d", "expand", "zero_data", "zero_data_radial", "set_has_radial_data",
               "set_has_axial_data", "XSMesh::update", "update", "CurrentCorrections", "residual"),
         drop=("tic", "toc"), order=inner)
