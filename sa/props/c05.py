"""C05: source assembly."""
from ref import *

TITLE = "The neutron source is assembled from each contribution exactly once"
EXPLANATION = (
    "Each stage of the source assembly (initialisation from the external source, fission, in-scatter, auxiliary term, "
    "scaling, self-scatter, transverse leakage, the coupled 2D3D forwarding, construction and refusal of unusable "
    "input) is compared with a reference definition of what it has to leave in the source, over all regions, groups "
    "and cross-section mesh shapes; the order in which solvers and sweepers run the stages is compared as a call "
    "trace. The numerical size of any contribution is not decided.")


def check(ck):
    specs(ck, "c05")
    own = lambda f: not f.n.startswith("ref::")
    sh = {"source_1g_": "n_reg_"}
    pair(ck, "contributions", "each stage of the source assembly adds exactly its own contribution to every region", [
        ("Source::initialize_group", "Source__initialize_group"),
        ("Source::fission", "Source__fission"),
        ("Source::in_scatter", "Source__in_scatter"),
        ("Source::auxiliary", "Source__auxiliary"),
        ("Source::scale", "Source__scale"),
        ("SourceIsotropic::self_scatter", "SourceIsotropic__self_scatter"),
        ("MoCSweeper::apply_transverse_leakage", "MoCSweeper__apply_transverse_leakage"),
    ], shape=sh)
    pair(ck, "set-up", "a source covers every region and group of its mesh, starts empty, and an external source of "
         "another shape or an unsupported scattering treatment is refused", [
        ("Source::add_external", "Source__add_external"),
        ("SourceFactory", "SourceFactory", dict(pick=own)),
    ])
    pair(ck, "coupled", "the coupled source performs every stage on both of its parts", [
        ("Source_2D3D::initialize_group", "Source_2D3D__initialize_group"),
        ("Source_2D3D::in_scatter", "Source_2D3D__in_scatter"),
        ("Source_2D3D::fission", "Source_2D3D__fission"),
    ], opaque=("Source::initialize_group", "Source::in_scatter", "Source::fission"))
