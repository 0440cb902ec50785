"""C18: the 2D/3D coupling."""
from ref import *

TITLE = "The 2D/3D coupling transfers leakage, corrections and state to both halves"
EXPLANATION = (
    "The coupled sweeper, its source, its correction worker and the storage of the corrections are compared with reference "
    "definitions over all meshes, macroplanes, groups, angles and options: what is transferred, from where, to which half, in which order.")


def check(ck):
    specs(ck, "c18")
    like(ck, "leakage", "the leakage of a pin is the relaxed net axial loss per unit height of its own cell and group",
         ["PlaneSweeper_2D3D::add_tl"], opaque=("coarse_cell", "coarse_surf", "pin_position", "apply_transverse_leakage"))
    halves = ("SnSweeper::sweep", "MoCSweeper_2D3D::sweep", "get_pin_flux_1g", "set_pin_flux_1g", "add_tl", "TransportSweeper::sweep")
    like(ck, "cycle", "a sweep exchanges fluxes between the halves in the order the cycle prescribes",
         ["PlaneSweeper_2D3D::sweep"], opaque=halves,
         order=(("add_tl", "sweep", "get_pin_flux_1g", "set_pin_flux_1g"),))
    like(ck, "both", "every request to the coupled sweeper reaches the halves it concerns",
         ["PlaneSweeper_2D3D::initialize", "PlaneSweeper_2D3D::get_pin_flux_1g", "PlaneSweeper_2D3D::set_pin_flux_1g",
          "PlaneSweeper_2D3D::assign_source", ("PlaneSweeper_2D3D::create_source", {"throws": False}), "PlaneSweeper_2D3D::get_homogenized_xsmesh",
          "PlaneSweeper_2D3D::n_reg", "PlaneSweeper_2D3D::store_old_flux", "PlaneSweeper_2D3D::set_coarse_data"],
         opaque=halves + ("initialize", "store_old_flux", "set_coarse_data", "assign_source", "get_homogenized_xsmesh", "Source_2D3D"))
    like(ck, "factors", "the correction factors of a cell, direction and group are formed from and stored for the same ones",
         ["CurrentCorrections::calculate_corrections"], opaque=("coarse_surf", "coarse_position", "reverse"))
    like(ck, "coupled", "the radial sweep corrects on its last inner iteration with the cross sections of both halves",
         ["MoCSweeper_2D3D::sweep", "MoCSweeper_2D3D::set_coupling", "MoCSweeper_2D3D::set_self_coupling"],
         opaque=("sweep1g", "expand", "self_scatter", "zero_data_radial", "XSMeshHomogenized::update", "get_homogenized_xsmesh",
                 "CurrentCorrections", "NoCurrent", "CorrectionData", "ExpandedXS"))
    like(ck, "use", "a cell of the axial solver uses the factors of its own macroplane cell, direction and group",
         ["SnSweeper_CDD_%s::evaluate" % c for c in ("DD", "DD_FF", "FW", "SC", "PMB")])
    pair(ck, "use-2d", "a cell of a plane uses the factors of its own cell, direction and group", [
        (lambda f: f.short == "evaluate_2d" and "SnSweeper_CDD" in (f.clsn or ""), "cdd__evaluate_2d", dict(least=1))])
    like(ck, "storage", "each factor has its own place, neutral until it is computed or read",
         ["CorrectionData::alpha", "CorrectionData::beta", "CorrectionData::CorrectionData@3"])
    like(ck, "files", "factors read from files go to the planes, directions and groups they are given for",
         ["CorrectionData::read_data_single@3", "CorrectionData::read_data_multi", "CorrectionData::from_data"],
         opaque=("read_data_single", "read_data_multi"))
