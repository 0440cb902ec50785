"""C14: layout, linking and lengths of the rays."""
from ref import *

TITLE = "Rays close on themselves, carry their spacing and preserve region areas"
EXPLANATION = (
    "The layout of the rays (numbers per face, modified angle, spacing, entry points, boundary numbering), the trace of one "
    "ray through the pins with its coarse crossings, and the correction of the lengths are compared with reference "
    "definitions over all meshes, angles and spacings.")
FUZZY = ("fp_equiv_ulp", "fp_equiv", "fp_equiv_abs", "fp_equiv_rel")


def check(ck):
    specs(ck, "c14")
    like(ck, "layout", "rays are laid out half a spacing in, and both ends are numbered by the face and place they meet",
         [("RayData::RayData@3", {})],
         drop=("Warn", "validate_input"), opaque=FUZZY + ("validate_input", "sanitize", "Box::intersect", "Ray::Ray", "RayData::correct_volume",
                         "RayData::modularize_angle", "AngularQuadrature::operator=", "AngularQuadrature::modify_angle", "AngularQuadrature::update_weights",
                         "Direction::modify_alpha", "CoreMesh::is_pin_modular"))
    like(ck, "modular", "the numbers of rays across the module fit the angle and are no coarser than the spacing asked for",
         ["RayData::modularize_angle"], opaque=("rational_approximation",))
    like(ck, "fraction", "the fraction found lies within the tolerance of the number", ["rational_approximation"])
    like(ck, "lengths", "segment lengths are scaled so that the traced area of every region is its area",
         ["RayData::correct_volume"])
    like(ck, "trace", "each segment carries its region, and each coarse crossing the surface met after that many segments",
         ["Ray::Ray@5"], opaque=("CoreMesh::trace", "CoreMesh::get_pinmesh", "CoreMesh::coarse_boundary_cell",
                                 "Mesh::coarse_norm_point", "Mesh::coarse_boundary_cell", "Mesh::coarse_surf", "Mesh::trace",
                                 "PinMesh::trace"))
    like(ck, "access", "rays and ray sets report what was traced",
         ["Ray::nseg", "Ray::ncseg", "Ray::cm_cell_fw", "Ray::cm_cell_bw", "Ray::cm_surf_fw", "Ray::cm_surf_bw",
          "Ray::seg_index@1", "Ray::bc", ("Ray::operator<", {"ref": "Ray__less"}), ("Ray::operator>", {"ref": "Ray__greater"}),
          "RayData::n_rays", "RayData::nx", "RayData::ny", "RayData::spacing", "RayData::max_segments"])
