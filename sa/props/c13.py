"""C13: points, lines, circles, boxes and pin meshes."""
from ref import *

TITLE = "Geometric primitives agree with plane geometry"
EXPLANATION = (
    "Each geometric primitive, direction and pin mesh function is compared with a reference definition written from the "
    "equations of the line, the circle and the direction cosines, over all coordinates, directions, radii and divisions.")
FUZZY = ("fp_equiv_ulp", "fp_equiv", "fp_equiv_abs", "fp_equiv_rel")
IDS = ("mocc::GeomSurface::last_id_", "mocc::GeomSurface::surf_id")


def check(ck):
    specs(ck, "c13")
    like(ck, "points", "points are measured, compared and combined as vectors of the plane and of space",
         [("Point2::Point2@2", {}), ("Point2::Point2@0", {"ref": "Point2__none"}), "Point2::distance",
          ("Point2::operator<", {"ref": "Point2__less"}), ("Point2::operator==", {"ref": "Point2__equal"}),
          ("Point2::operator!=", {"ref": "Point2__differ"}), ("Point2::operator-=", {"ref": "Point2__subtract"}),
          "Point2::alpha", "Point3::Point3@3", "Point3::distance", ("Point3::operator-=", {"ref": "Point3__subtract"}),
          "Point3::to_2d", "Midpoint"], opaque=FUZZY)
    like(ck, "directions", "the cosines and angles of a direction describe the same direction, before and after reflection",
         [("Direction::Direction@2", {"ref": "Direction__angles"}), ("Direction::Direction@3", {"ref": "Direction__cosines"}),
          "Direction::modify_alpha", "Direction::upwind_surface", "Direction::reflect", "Direction::Isotropic", "Direction::to_octant",
          ("Direction::operator!=", {"ref": "Direction__differ"}), ("Angle::operator!=", {"ref": "Angle__differ"}),
          ("Angle::Angle@3", {"ref": "Angle__angles"}), ("Angle::Angle@4", {"ref": "Angle__cosines"}),
          ("Angle::Angle@2", {"ref": "Angle__direction"}), ("Angle::Angle@1", {"ref": "Angle__input"}), "Angle::to_octant"],
         opaque=FUZZY)
    like(ck, "lines", "crossings lie on both objects and distances are measured along the direction of flight",
         ["Line::Line@2", "Line::distance_to_surface", "Circle::Circle@2", "Circle::distance_to_surface", "Box::Box@2",
          "Box::distance_to_surface", "Box::intersect", ("Intersect@4", {"ref": "fn__Intersect_circle"}),
          ("Intersect@3", {"ref": "fn__Intersect_lines"})], skip=IDS, opaque=FUZZY)
    like(ck, "pins", "the regions of a pin cover it once, and every point, segment and crossing belongs to the region it lies in",
         ["PinMesh_Cyl::PinMesh_Cyl@1", "PinMesh_Rect::PinMesh_Rect@1", "PinMesh_Cyl::trace", "PinMesh_Rect::trace",
          "PinMesh_Cyl::find_reg@1", "PinMesh_Rect::find_reg@1",
          ("PinMesh_Cyl::find_reg@2", {"ref": "PinMesh_Cyl__find_along"}), ("PinMesh_Rect::find_reg@2", {"ref": "PinMesh_Rect__find_along"}),
          "PinMesh_Cyl::distance_to_surface", "PinMesh_Rect::distance_to_surface", "PinMesh_Cyl::n_fsrs", "PinMesh_Rect::n_fsrs",
          "PinMesh::area", "PinMesh::areas"],
         skip=IDS, drop=("PinMesh",), opaque=FUZZY + ("PinMesh::PinMesh", "explode_string", "Intersect", "Box::intersect", "fuzzy_lt",
                                   "Circle::distance_to_surface", "Line::distance_to_surface"))
    like(ck, "tolerance", "two numbers count as equal within the stated tolerance only",
         ["fp_equiv_rel", "fp_equiv_abs", "fp_equiv", "fp_equiv_saferel", "fuzzy_lt"], opaque=("fp_equiv_ulp",))
