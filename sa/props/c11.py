"""C11: mesh numbering."""
from ref import *

TITLE = "Cells, faces, planes and regions are numbered consistently everywhere"
EXPLANATION = (
    "Every map between positions, cells, faces, planes, pins and regions is compared with a reference definition of "
    "the numbering over all mesh sizes and indices; the accessors that other components use are part of the comparison.")


def check(ck):
    specs(ck, "c11")
    only = lambda n, *t: (lambda f: len(f.p) == n and all(a in p["t"] for a, p in zip(t, f.p)))
    pair(ck, "cells", "cells count up in x, then y, then z, and every map from or to a cell uses that order", [
        ("Mesh::" + n, "Mesh__" + n) for n in
        ("coarse_cell", "coarse_position", "n_pin", "n_surf", "n_reg", "plane_cell_begin", "plane_cell_end", "n_cell_plane",
         "coarse_cell_offset", "cell_thickness", "coarse_neighbor", "plane_index", "n_macroplanes", "boundary_array",
         "boundary_condition")] + [
        ("Mesh::coarse_cell_point", "Mesh__coarse_cell_point2", dict(pick=only(1, "Point2"))),
        ("Mesh::coarse_cell_point", "Mesh__coarse_cell_point3", dict(pick=only(1, "Point3"))),
    ])
    pair(ck, "faces", "each face has one number, shared by the two cells it separates, and every map from or to a face uses it", [
        ("Mesh::" + n, "Mesh__" + n) for n in
        ("plane_surf_begin", "plane_surf_end", "plane_surf_xy_begin", "n_surf_plane", "coarse_surf_offset", "coarse_surf",
         "surface_normal", "prepare_surfaces", "coarse_neigh_cells", "coarse_interface")] + [
        ("Mesh::coarse_area", "Mesh__coarse_area_cell", dict(pick=only(2))),
        ("Mesh::coarse_area", "Mesh__coarse_area", dict(pick=only(1))),
    ], opaque=("coarse_neighbor",))
    pair(ck, "construction", "a mesh is built with the divisions, spans, volumes and separating lines of its grid", [
        ("Mesh::Mesh", "Mesh__ctor", dict(pick=only(6))),
    ], opaque=("prepare_surfaces",), skip=("mocc::GeomSurface::last_id_",))
    pair(ck, "core", "the core mesh locates pins, planes, regions and volumes by the same numbering", [
        ("CoreMesh::" + n, "CoreMesh__" + n) for n in
        ("n_reg", "pin_position", "pin_origin", "is_2d", "get_plane_by_axial_index", "unique_plane", "first_reg_plane",
         "unique_plane_id", "get_pinmesh", "get_location_info", "volumes")] + [
        ("Plane::pin_position", "Plane__pin_position"),
        ("Plane::geometrically_equivalent", "Plane__geometrically_equivalent"),
    ], opaque=("Plane::pin_position", "Plane::get_pinmesh", "plane_index", "Lattice::geometrically_equivalent"))
    pair(ck, "points", "points, faces and cells met by a ray are found by the same numbering", [
        ("Mesh::" + n, "Mesh__" + n, dict(n=40)) for n in ("coarse_boundary_cell", "coarse_surf_point", "coarse_norm_point", "trace")] + [
        ("Plane::get_pinmesh", "Plane__get_pinmesh"),
        ("Lattice::get_pinmesh", "Lattice__get_pinmesh"),
        ("Lattice::geometrically_equivalent", "Lattice__geometrically_equivalent"),
    ], opaque=("Lattice::get_pinmesh", "fp_equiv", "fp_equiv_abs", "Intersect"))
    pair(ck, "assembly", "planes and core are assembled from their lattices in that order", [
        ("Plane::Plane", "Plane__ctor", dict(pick=only(3))),
        ("CoreMesh::CoreMesh", "CoreMesh__ctor", dict(pick=only(1), skip=("mocc::GeomSurface::last_id_",), n=8)),
    ], opaque=("fp_equiv_ulp", "prepare_surfaces", "ParsePinMeshes", "ParsePins", "ParseLattices", "ParseAssemblies", "ParseCore"))
