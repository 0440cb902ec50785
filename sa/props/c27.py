"""C27: what is written to HDF5 is read back."""
from ref import *

TITLE = "Data written to HDF5 is read back under the same name, order and shape"
EXPLANATION = (
    "Writers and readers of cross sections, correction factors and quadratures are compared with reference definitions that pair them: the "
    "text of every path, the order values are laid out in, the dimensions handed over and the shapes refused.  The functions that talk to "
    "the library are compared as well: sizes and ranks they refuse, dimensions they create.")

IO = ("H5Node::write", "H5Node::read", "H5Node::read_1d", "H5Node::create_group", "H5Node::dimensions", "H5Node::create_link")


def check(ck):
    specs(ck, "c27")
    like(ck, "quadrature", "a quadrature is written and read under the same names, in the same order",
         ["AngularQuadrature::output", ("AngularQuadrature::AngularQuadrature", {"pick": lambda f: len(f.p) == 1 and "H5Node" in f.p[0]["t"]})],
         opaque=IO)
    like(ck, "cross sections", "cross sections are written and read under the same names, in the same order and shape",
         ["XSMeshHomogenized::output", "XSMeshHomogenized::read_data_single", "XSMeshHomogenized::read_data_multi"], opaque=IO)
    like(ck, "choice", "a file that holds the whole core is read as such, others plane by plane",
         [("XSMeshHomogenized::XSMeshHomogenized", {"pick": lambda f: len(f.p) == 2 and "xml" in f.p[1]["t"]})],
         opaque=IO + ("read_data_single", "read_data_multi", "XSMeshHomogenized::XSMeshHomogenized"), drop=("XSMeshHomogenized",))
    like(ck, "corrections", "correction factors are written and read under the same names, in the same order and shape",
         ["CorrectionData::output", ("CorrectionData::read_data_single@1", {"ref": "CorrectionData__read_data_all"}),
          "CorrectionData::read_data_single@3"], opaque=IO)
    like(ck, "planes", "each plane of the core is given the data of one file, and plane numbers outside the core are refused",
         ["CorrectionData::read_data_multi", "CorrectionData::from_data"], opaque=IO + ("read_data_single", "read_data_multi", "print_range"))

    def takes(*kinds):
        """Picks the overload whose parameters after the path are of the given kinds."""
        return lambda f: len(f.p) == 1 + len(kinds) and all(k in p["t"].replace("const ", "") for k, p in zip(kinds, f.p[1:]))
    vec, shape, array = "vector<double", "vector<int", "Array<double, %d>"
    pair(ck, "library", "data are created with the dimensions handed over and written in full; on reading, rank and size are "
         "verified, and a failure of either is reported", [
        ("convert_access", "fn__convert_access"),
        ("H5Node::H5Node", "H5Node__ctor", dict(only=("access_",), pick=lambda f: "char *" in f.p[0]["t"])),
        ("H5Node::create_group", "H5Node__create_group", dict(only=("createGroup",), ret=False)),
        ("H5Node::create_link", "H5Node__create_link"),
        ("H5Node::dimensions", "H5Node__dimensions"),
        ("H5Node::write", "H5Node__write_int", dict(pick=lambda f: len(f.p) == 2 and f.p[1]["t"] == "int")),
        ("H5Node::write", "H5Node__write_long", dict(pick=takes("unsigned long"))),
        ("H5Node::write", "H5Node__write_vec", dict(pick=takes(vec))),
        ("H5Node::write", "H5Node__write_shape", dict(pick=takes(vec, shape))),
        ("H5Node::write", "H5Node__write_b1", dict(pick=takes(array % 1, shape))),
        ("H5Node::write", "H5Node__write_text", dict(pick=takes("basic_string"))),
        ("H5Node::read", "H5Node__read_int", dict(pick=takes("int &"))),
        ("H5Node::read", "H5Node__read_vec", dict(pick=takes(vec))),
        ("H5Node::read_1d", "H5Node__read_1d"),
        ("H5Node::operator[]", "H5Node__at", dict(only=("openGroup",), ret=False)),
        ("H5Node::write", "H5Node__write_range", dict(pick=takes(":ConstArrayIterator", "Const", shape))),
        ("H5Node::write", "H5Node__write_range_w", dict(pick=takes(":ArrayIterator", ":Array", shape))),
    ] + [("H5Node::write", "H5Node__write_b%d_all" % n, dict(pick=takes(array % n))) for n in (1, 2, 3)]
      + [("H5Node::read", "H5Node__read_b%d_all" % n, dict(pick=takes(array % n))) for n in (1, 2, 3)],
        maker="H5::DataSpace", calls="all",
        drop=("openDataSet", "getSpace", "getSimpleExtentNdims", "getSimpleExtentNpoints", "isStorageContiguous"))
