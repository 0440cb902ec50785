"""C09: homogenisation."""
from ref import *

TITLE = "Homogenised cross sections preserve reaction rates"
EXPLANATION = (
    "The volume- and flux-weighted homogenisation of a pin are compared with reference definitions that sum region "
    "reaction rates and divide by the matching weight, for every reaction, group and group-to-group transfer, together "
    "with the loop that assigns each pin its own regions. Zero flux sums are not excluded statically.")


def check(ck):
    specs(ck, "c09")
    pair(ck, "weights", "every homogenised cross section times its weight is the sum of the regions' rates", [
        ("XSMeshHomogenized::homogenize_region", "homogenize_region"),
        ("XSMeshHomogenized::homogenize_region_flux", "homogenize_region_flux"),
    ], opaque=("XSMeshRegion::update", "ScatteringMatrix::ScatteringMatrix"))
    pair(ck, "regions", "each pin is homogenised with the flux of its own regions", [
        ("XSMeshHomogenized::update", "update", dict(opaque=("homogenize_region_flux",))),
    ])
