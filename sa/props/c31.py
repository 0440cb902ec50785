"""C31: what is kept from one use to the next."""
import graph
from ref import *

TITLE = "Cached derived data is refreshed whenever what it depends on changes"
EXPLANATION = (
    "The expanded cross sections (how they are created, shared, and when they are worked out again), the state of the "
    "cross-section mesh that they are keyed by, the update of homogenised cross sections, what is derived in a "
    "cross-section region, the start of a group's working source, and every group sweep are compared with reference "
    "definitions. In addition every member function from which cross sections of a mesh can be changed after "
    "construction must announce a new state. That the flux handed to a mesh is the current one is decided by what is "
    "compared under C18.")

XS = ("xstr_", "xsnf_", "xsch_", "xsf_", "xsrm_")


def check(ck):
    specs(ck, "c31", "c05", "c07", "c09", "c10")
    pair(ck, "kept", "expanded cross sections are worked out again for another group or another state of the cross "
         "sections, and what shares them shares the record of what they hold", [
        ("ExpandedXS::ExpandedXS", "ExpandedXS__ctor", dict(pick=lambda f: f.p and "XSMesh" in f.p[0]["t"])),
        ("ExpandedXS::ExpandedXS", "ExpandedXS__share", dict(pick=lambda f: f.p and "Expanded" in f.p[0]["t"] and f.user)),
        ("ExpandedXS::operator=", "ExpandedXS__assign", dict(ret=False)),
        ("ExpandedXS::expand", "ExpandedXS__expand", dict(pick=lambda f: len(f.p) == 1)),
        ("ExpandedXS::expand", "ExpandedXS__split", dict(pick=lambda f: len(f.p) == 2)),
        ("ExpandedXS::operator[]", "ExpandedXS__at"),
    ])
    pair(ck, "announced", "a change of the cross sections is announced by a new state", [
        ("XSMesh::state", "XSMesh__state"),
        ("XSMeshHomogenized::update", "update", dict(opaque=("homogenize_region_flux",))),
        ("XSMeshHomogenized::set_flux", "XSMeshHomogenized__set_flux"),
    ])
    pair(ck, "derived", "what is derived from the cross sections of a region is worked out from the current ones", [
        ("XSMeshRegion::update", "XSMeshRegion__update"),
        ("XSMeshRegion::update_removal", "XSMeshRegion__update_removal"),
        ("XSMeshRegion::is_fissile", "XSMeshRegion__is_fissile"),
    ])
    pair(ck, "source", "the working source of a group starts afresh", [
        ("Source::initialize_group", "Source__initialize_group"),
    ], shape={"source_1g_": "n_reg_"})
    order = (("expand", "self_scatter"), ("update", "expand"), ("update", "sweep1g<CurrentCorrections>"))
    pair(ck, "sweeps", "each sweep brings the cross sections of its group up to date before it uses them", [
        ("MoCSweeper::sweep", "MoCSweeper__sweep"),
        ("MoCSweeper_2D3D::sweep", "MoCSweeper_2D3D__sweep"),
        (lambda f: f.short == "sweep" and f.n.startswith("mocc::sn::SnSweeperVariant<"), "SnSweeperVariant__sweep",
         dict(least=7)),
    ], opaque=("sweep1g", "sweep_1g", "sweep_1g_2d", "expand", "zero_data", "zero_data_radial", "set_has_radial_data",
               "set_has_axial_data", "XSMesh::update", "update", "CurrentCorrections", "residual"),
         drop=("tic", "toc"), order=order)
    announce(ck)


def announce(ck):
    ck.rule("changers", "a member function of a cross-section mesh from which its cross sections can change, and that is "
            "not part of constructing it, stores a new state")
    mesh = {"mocc::XSMesh", "mocc::XSMeshHomogenized"}
    fs = [f for f in ck.prog.funcs.values() if graph.own(ck.prog, f) and f.clsn in mesh]
    ck.need(len(fs), 12, "member functions of cross-section meshes")
    made = {f.id for f in fs if f.ctor}
    callers = {}
    for f in ck.prog.funcs.values():
        if graph.own(ck.prog, f):
            for _, g in graph.calls(ck.prog, f):
                callers.setdefault(g.id, set()).add(f.id)
    grown = True
    while grown:
        grown = False
        for f in fs:
            if f.id not in made and callers.get(f.id) and callers[f.id] <= made:
                made.add(f.id)
                grown = True
    n = 0
    for f in fs:
        ck.functions.add(f.n)
        r = graph.reach(ck.prog, [f])
        to = [g for g, _, _ in r.values() if g.n in ("mocc::XSMeshRegion::update", "mocc::XSMeshRegion::update_removal")]
        changes = not (f.id in made or f.cst or not to)
        n += changes
        own = [g for g, _, _ in r.values() if g.clsn in mesh]
        ck.ok(not changes or any(stores(x) for g in own for x in graph.parts(g)), f.n,
              "changes cross sections without announcing a new state: " + (" -> ".join(graph.path(r, to[0].id)) if to else ""), f.where)
    ck.need(n, 1, "member functions that change cross sections")


def stores(x):
    at = x.get("lhs") if x.get("k") == "asg" else x.get("e") if x.get("k") == "un" and x.get("op", "").endswith(("++", "--")) else None
    return isinstance(at, dict) and at.get("k") == "mem" and at.get("n") == "state_"
