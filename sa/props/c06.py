"""C06: eigenvalue iteration."""
from ref import *

TITLE = "Eigenvalue iteration: correct k update, and convergence only when converged"
EXPLANATION = (
    "The outer iteration, the eigenvalue update, the CMFD hand-over, the fission source and the total fission production "
    "are compared with reference definitions: which value k, the errors and the sources take, in which order the steps "
    "run, and under which conditions the loop ends and the solve is reported as converged. The rate at which the "
    "iteration converges is a runtime quantity and not decided.")


def check(ck):
    specs(ck, "c06")
    op = ("EigenSolver::step", "FixedSourceSolver::step", "do_cmfd", "calc_fission_source", "total_fission", "initialize", "Normalize",
          "get_pin_flux", "set_pin_flux", "CMFD::solve", "EigenSolver::output", "H5Node", "is_enabled")
    pair(ck, "k-update", "k is scaled by the ratio of new to old fission production and the source refreshed with it", [
        ("EigenSolver::step", "EigenSolver__step", dict(opaque=tuple(x for x in op if x != "EigenSolver::step"), order=(
            ("do_cmfd", "calc_fission_source"), ("calc_fission_source", "step"), ("step", "total_fission")))),
        ("EigenSolver::do_cmfd", "EigenSolver__do_cmfd", dict(opaque=op[:2] + op[3:], order=(("get_pin_flux", "solve"), ("solve", "set_pin_flux")))),
        ("TransportSweeper::total_fission", "TransportSweeper__total_fission"),
        ("TransportSweeper::calc_fission_source", "TransportSweeper__calc_fission_source"),
        ("TransportSweeper::store_old_flux", "TransportSweeper__store_old_flux"),
    ])
    pair(ck, "convergence", "the iteration ends only when both errors are below their tolerances after the minimum number of passes, or at the limit", [("EigenSolver::solve", "EigenSolver__solve", dict(opaque=op, drop=("output", "print", "H5Node")))])
