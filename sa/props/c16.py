"""C16: flux moved between fine and coarse meshes."""
from ref import *

TITLE = "Flux moved between fine and coarse meshes keeps its pin average"
EXPLANATION = (
    "Reading and writing pin fluxes in every sweeper is compared with reference definitions for all meshes, macroplanes, "
    "groups and treatments: which regions enter the average of which pin with which volume, what each region becomes when "
    "a pin flux is written, the residual, and the refusals.")


def check(ck):
    specs(ck, "c16")
    op = ("get_pin_flux_1g", "set_pin_flux_1g", "coarse_cell", "coarse_position", "pin_position", "moc_plane_index",
          "plane_cell_begin", "plane_cell_end")
    like(ck, "read", "a pin flux read is the volume average over the regions of that pin, stored at that pin",
         ["MoCSweeper::get_pin_flux_1g", "SnSweeper::get_pin_flux_1g", "TransportSweeper::get_pin_flux",
          "PlaneSweeper_2D3D::get_pin_flux_1g"], opaque=op)
    like(ck, "write", "a pin flux written scales or sets the regions of that pin to that average and reports the change",
         ["MoCSweeper::set_pin_flux_1g", "SnSweeper::set_pin_flux_1g", "TransportSweeper::set_pin_flux",
          "PlaneSweeper_2D3D::set_pin_flux_1g"], opaque=op)
    like(ck, "planes", "an axial plane belongs to the macroplane that spans it", ["MoCSweeper::moc_plane_index"])
    like(ck, "layout", "each swept plane knows its axial planes, its geometry and its first region",
         [("MoCSweeper::MoCSweeper", {"only": ("subplane_bounds_", "first_reg_macroplane_", "nreg_plane_",
                                               "macroplane_unique_ids_")})],
         throws=False, max_depth=3, opaque=("TransportSweeper::TransportSweeper", "RayData", "BoundaryCondition", "bc_size_helper"))
