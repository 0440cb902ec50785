"""C10: derived cross sections and the data every region is given."""
from ref import *

TITLE = "Derived cross sections are consistent with the data they come from"
EXPLANATION = (
    "The construction of materials, scattering matrices (packing, column sums, copies), cross-section regions and "
    "meshes, the cumulative distributions, equality and the assignment of library entries to identifiers are compared "
    "with reference definitions for every group, region and material.")


def check(ck):
    specs(ck, "c10")
    own = lambda *t: (lambda f: len(f.p) == len(t) and all(a in p["t"] for a, p in zip(t, f.p)))
    pair(ck, "materials", "transport is absorption plus total outscatter, the spectrum sums to one and each datum is the one given", [
        ("Material::Material", "Material__ctor", dict(pick=lambda f: len(f.p) == 5)),
        ("MaterialLib::assignID", "MaterialLib__assignID", dict(throws=False)),
        ("MaterialLib::get_material_by_id", "MaterialLib__get_material_by_id"),
        ("MaterialLib::get_index_by_id", "MaterialLib__get_index_by_id"),
        ("MaterialLib::has", "MaterialLib__has"),
    ], opaque=("ScatteringMatrix::ScatteringMatrix", "ScatteringMatrix::operator="))
    pair(ck, "scattering", "packing, column sums, copies and queries of a scattering matrix keep every transfer at its own pair of groups", [
        ("ScatteringMatrix::ScatteringMatrix", "ScatteringMatrix__ctor", dict(pick=own("Array"))),
        ("convert_vvec", "convert_vvec"),
        ("ScatteringMatrix::ScatteringMatrix", "ScatteringMatrix__copy", dict(pick=own("ScatteringMatrix"))),
        ("ScatteringMatrix::operator=", "ScatteringMatrix__assign"),
        ("ScatteringMatrix::self_scat", "ScatteringMatrix__self_scat"),
        ("ScatteringMatrix::out", "ScatteringMatrix__out"),
        ("ScatteringMatrix::to", "ScatteringMatrix__to"),
        ("ScatteringMatrix::out_cdf", "ScatteringMatrix__out_cdf"),
        ("ScatteringMatrix::as_vector", "ScatteringMatrix__as_vector"),
        ("ScatteringRow::operator==", "ScatteringRow__equal"),
        ("ScatteringRow::operator[]", "ScatteringRow__at"),
    ])
    pair(ck, "regions", "removal is transport less within-group scattering after every change, and every accessor returns its own datum", [
        ("XSMeshRegion::XSMeshRegion", "XSMeshRegion__ctor", dict(pick=lambda f: len(f.p) == 7)),
        ("XSMeshRegion::update", "XSMeshRegion__update"),
        ("XSMeshRegion::update_removal", "XSMeshRegion__update_removal"),
        ("XSMeshRegion::reaction_cdf", "XSMeshRegion__reaction_cdf"),
        ("XSMeshRegion::chi_cdf", "XSMeshRegion__chi_cdf"),
        ("XSMeshRegion::operator==", "XSMeshRegion__equal", dict(opaque=("fp_equiv_ulp", "ScatteringMatrix::operator!="))),
    ] + [("XSMeshRegion::" + n, "XSMeshRegion__" + n, dict(pick=lambda f: len(f.p) == 1))
         for n in ("xsmactr", "xsmacnf", "xsmacf", "xsmacch", "xsmacrm", "xsmacsc")], opaque=("ScatteringMatrix::operator=",))
    pair(ck, "meshes", "every region of a mesh is served by the cross sections of the material or pin it lies in", [
        ("XSMesh::allocate_xs", "XSMesh__allocate_xs"),
        ("XSMesh::XSMesh", "XSMesh__ctor", dict(pick=own("CoreMesh", "MeshTreatment"))),
        ("XSMeshHomogenized::XSMeshHomogenized", "XSMeshHomogenized__ctor", dict(
            pick=lambda f: len(f.p) == 1 and "CoreMesh" in f.p[0]["t"], skip=("mesh_",))),
    ], opaque=("XSMeshRegion::XSMeshRegion", "coarse_cell", "pin_position", "n_fsrs", "homogenize_region", "get_material_by_id"))
