"""C12: orientation and assembly of the input maps."""
from ref import *

TITLE = "Geometry input appears in the model where the user wrote it"
EXPLANATION = (
    "The constructors that place pins in lattices, lattices in assemblies and assemblies in the core, and the functions "
    "that collect them by ID, are compared with reference definitions over all map shapes and contents.")


def check(ck):
    specs(ck, "c12")
    like(ck, "maps", "the first row of a map is its north edge, the first level its top, and sizes and offsets add up over what was placed",
         ["Lattice::Lattice@2", "Assembly::Assembly@2", "Core::Core@2"],
         opaque=("explode_string", "explode_braces", "Lattice::compatible", "Assembly::compatible"))
    like(ck, "fit", "components are stacked only when they fit",
         ["Lattice::compatible", "Assembly::compatible"], opaque=("fp_equiv_ulp",))
    like(ck, "access", "a component is found at the position it was placed at",
         ["Core::at@2", "Lattice::at", "Plane::at", "Assembly::nx", "Assembly::ny", "Core::nz", "Core::nasy", "Core::dz", "Core::boundary",
          "MaterialLib::has"])
    like(ck, "parts", "every pin, mesh, boundary and core is the one its input names",
         ["Pin::Pin@3", "PinMesh::PinMesh@1", "bc_parse", "PinMeshFactory"], opaque=("explode_string",))
    like(ck, "collect", "every component in the input is kept under its own ID",
         ["ParseCore", "ParseLattices", "ParseAssemblies", "ParsePins", "ParsePinMeshes"],
         opaque=("Lattice::Lattice", "Assembly::Assembly", "Core::Core", "Pin::Pin", "PinMeshFactory"))
