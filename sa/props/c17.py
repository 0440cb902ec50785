"""C17: fission rates and powers."""
from ref import *

TITLE = "Fission rates and powers count every region once with its volume"
EXPLANATION = (
    "Production, fission source, pin powers, flux residual and normalisation are compared with reference definitions: "
    "every region once, with its own volume, cross section and flux, for every group, in each component that forms them.")


def check(ck):
    specs(ck, "c17")
    like(ck, "production", "production sums nu-fission times flux times volume over every region and group once",
         ["TransportSweeper::total_fission", "CMFD::total_fission", "PlaneSweeper_2D3D::total_fission"],
         opaque=("SnSweeper::total_fission", "MoCSweeper::total_fission"))
    like(ck, "source", "the fission source of a region is its own nu-fission rate over all groups, divided by k",
         ["TransportSweeper::calc_fission_source", "CMFD::fission_source", "PlaneSweeper_2D3D::calc_fission_source",
          "PlaneSweeper_2D3D::n_reg_fission", "TransportSweeper::n_reg_fission"])
    like(ck, "power", "the power of a pin is the fission rate of its regions, normalised over the fuel pins",
         ["TransportSweeper::pin_powers", "SnSweeper::pin_powers", "SnSweeper::pin_powers_2d"],
         opaque=("coarse_position", "pin_position", "Normalize"))
    like(ck, "residual", "the flux residual compares each value with the previous one of the same region and group",
         ["TransportSweeper::flux_residual"])
    pair(ck, "norm", "normalised values average to one over the positive entries",
         [(lambda f: f.short == "Normalize" and f.n.startswith("mocc::"), "fn__Normalize", dict(least=2))])
