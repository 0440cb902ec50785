"""C28: the output of a run is complete and labelled."""
from ref import *

TITLE = "Requested output contains every component's results, labelled correctly"
EXPLANATION = (
    "Every output function is compared with a reference definition: which datasets and groups it writes, under which text, with which values "
    "and dimensions, and which components it hands the file on to.")

IO = ("H5Node::write", "H5Node::read", "H5Node::create_group", "H5Node::dimensions", "H5Node::create_link", "get_pin_flux", "pin_powers",
      "pin_powers_2d", "Normalize", "output", "TallySpatial::get", "update")


def check(ck):
    specs(ck, "c28")
    like(ck, "sweepers", "a sweeper writes its fluxes and powers by group and hands the file to its parts",
         ["SnSweeper::output", "MoCSweeper::output", "MoCSweeper_2D3D::output", "PlaneSweeper_2D3D::output"], opaque=IO)
    like(ck, "particles", "the tallies are written by group with their deviations", ["ParticlePusher::output"], opaque=IO)
    like(ck, "solvers", "a solver writes its histories and hands the file to its parts",
         ["FixedSourceSolver::output", "EigenSolver::output", "MonteCarloEigenvalueSolver::output"], opaque=IO)
    like(ck, "run", "a run writes its solver's results, its input and its version", ["generate_output"], opaque=IO)
