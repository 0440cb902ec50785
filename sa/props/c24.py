"""C24: options."""
import nodes
from ref import *

TITLE = "Options are honoured or rejected, never silently misread"
EXPLANATION = (
    "For every input node whose attributes are checked against a list of names, the list is compared with the names "
    "that any function the node is handed to, or comes from, reads; every node that options are read from must be "
    "checked. Each function that reads options is compared with a reference definition: the default where the option "
    "is absent, the value given where it is present, the keyword that selects each choice, the values refused, and "
    "the warnings issued. Booleans are converted by the XML library.")


FUZZY = ("fp_equiv_ulp", "fp_equiv", "fp_equiv_abs", "fp_equiv_rel")
SETTINGS = ("solver", "parallel")      # outermost elements holding options; the others describe the core
DATA = ("data", "source")              # elements naming files rather than options


def names(ck):
    flow = nodes.Flow(ck.prog)
    ck.rule("names", "the attributes recognized for an element are those its reader, the functions the element comes "
                     "through and the functions it is handed to read")
    for a, tables in flow.checks.items():
        f, l = tables[0][1], tables[0][2]
        listed = {w for t in tables for w in t[0]}
        read = {}
        for n, g, k in flow.names(a) + flow.above(a):
            read.setdefault(n, "%s:%s" % (g.rel, k))
        ck.seen("%s: %d attributes" % (f.n, len(listed)), max(1, len(listed | set(read))))
        for n in sorted(set(read) - listed):
            ck.bad(f.n, "'%s' is read (%s) but reported as unrecognized" % (n, read[n]), "%s:%s" % (f.rel, l))
        for n in sorted(listed - set(read)):
            ck.bad(f.n, "'%s' is recognized but read nowhere" % n, "%s:%s" % (f.rel, l))
    ck.need(len(flow.checks), 11, "elements checked against a list")
    ck.rule("checked", "every element that options are read from is checked for attributes that are not options")
    n = 0
    for a, rs in flow.reads.items():
        if not any(p and p[0] in SETTINGS and p[-1] not in DATA for p in flow.elements(a)):
            continue
        n += 1
        f = rs[0][1]
        ck.seen(f.n, 1)
        if not flow.watched(a):
            ck.bad(f.n, "'%s' is read of an element whose attributes are never checked" % rs[0][0],
                   "%s:%s" % (f.rel, rs[0][2]))
    ck.need(n, 15, "functions reading options")


def check(ck):
    names(ck)
    specs(ck, "c24", "c04", "c05", "c06", "c07", "c08", "c14", "c20")
    made = ("CMFD::CMFD", "FixedSourceSolver::FixedSourceSolver", "EigenSolver::EigenSolver", "MoCSweeper::MoCSweeper",
            "MonteCarloEigenvalueSolver::MonteCarloEigenvalueSolver", "PlaneSweeper_2D3D::PlaneSweeper_2D3D",
            "MoCSweeper_2D3D::MoCSweeper_2D3D", "SnSweeper::SnSweeper", "TransportSweeper::TransportSweeper",
            "ParticlePusher::ParticlePusher", "XSMesh::XSMesh", "FissionBank::FissionBank", "XSMeshHomogenized::XSMeshHomogenized",
            "CoarseData::CoarseData", "Source::Source", "SourceIsotropic::SourceIsotropic", "Source_2D3D::Source_2D3D",
            "RayData::RayData", "BoundaryCondition::BoundaryCondition", "AngularQuadrature::AngularQuadrature",
            "CorrectionData::CorrectionData", "RNG_LCG::RNG_LCG", "make_cmfd_mesh", "bc_size_helper", "boundary_helper", "xs_mesh_factory",
            "find_angquad", "TransportSweeperFactory", "SnSweeperFactory", "SnSweeperFactory_CDD", "SourceFactory",
            "new_timer", "validate_input", "parse_options", "explode_string", "sanitize", "create_source", "add_external",
            "assign_source", "set_self_coupling", "set_seed", "from_data", "set_corrections", "set_ang_quad", "get_data",
            "get_homogenized_xsmesh", "set_coarse_data", "ExpandedXS::ExpandedXS", "volumes", "set_coupling", "set_flux",
            "SnSweeper_CDD::SnSweeper_CDD", "SnSweeper_DD::SnSweeper_DD", "SnSweeper_DD_SC::SnSweeper_DD_SC", "Fail")
    o = lambda *n: {"only": n}
    like(ck, "solvers", "the options of a solver have the meaning, the default and the limits documented", [
        ("CMFD::CMFD", o("k_tol_", "psi_tol_", "resid_reduction_", "max_iter_", "zero_fixup_", "is_enabled_", "dump_current_")),
        ("EigenSolver::EigenSolver", o("tolerance", "iterations_", "n_fissile", "cmfd_", "CMFD", "set_coarse_data") | {"havoc": False}),
        ("FixedSourceSolver::FixedSourceSolver", o("fixed_source_", "max_iter_", "flux_tol_", "sweeper_", "source_", "add_external", "assign_source", "create_source", "Factory")),
        ("MonteCarloEigenvalueSolver::MonteCarloEigenvalueSolver", o("cycle", "seed", "dump_sites_", "Warn")),
        ("ParallelEnvironment::ParallelEnvironment@1", o("num_threads_", "Warn", "omp_set")),
    ], opaque=made)
    like(ck, "sweepers", "the options of a sweeper have the meaning, the default and the limits documented", [
        ("TransportSweeper::TransportSweeper@3", {"ref": "TransportSweeper__full", "only": ("do_incoming",)}),
        ("TransportSweeper::TransportSweeper@1", {"ref": "TransportSweeper__bare", "only": ("do_incoming",), "pick": lambda f: "xml" in f.p[0]["t"]}),
        "PlaneSweeper_2D3D::parse_options", "PlaneSweeper_2D3D::create_source",
        ("PlaneSweeper_2D3D::PlaneSweeper_2D3D@3", {"only": ("parse_options", "set_ang_quad"), "havoc": False}),
        ("SnSweeper::SnSweeper", o("gs_boundary_", "n_inner_", "Warn")),
        ("MoCSweeper::MoCSweeper", {"only": ("n_inner_", "dump_", "gauss", "allow_", "split_"), "throws": False}),
        "find_angquad",
    ], opaque=made)
    like(ck, "choices", "each keyword selects what it names and any other is refused", [
        "SolverFactory", "TransportSweeperFactory", "SnSweeperFactory", "SnSweeperFactory_CDD",
    ], opaque=made)
    pair(ck, "kinds", "each keyword selects the quadrature, the scattering treatment or the ray correction it names and any other is refused", [
        ("AngularQuadrature::AngularQuadrature", "AngularQuadrature__xml",
         dict(pick=lambda f: len(f.p) == 1 and "xml" in f.p[0]["t"],
              opaque=("GenSn", "GenProduct", "GenChebyshev", "GenGauss", "GenYamamoto", "GenUserQuadrature",
                      "to_octant"), drop=("validate_input",))),
        ("SourceFactory", "SourceFactory", {}),
        ("RayData::RayData", "RayData__ctor",
         dict(pick=lambda f: len(f.p) == 3, only=("correction_type_", "modularization_method_", "correct_volume"), drop=("Warn", "validate_input"),
              opaque=FUZZY + ("validate_input", "sanitize", "Box::intersect", "Ray::Ray", "RayData::correct_volume",
                              "RayData::modularize_angle", "AngularQuadrature::operator=", "AngularQuadrature::modify_angle",
                              "AngularQuadrature::update_weights", "Direction::modify_alpha", "CoreMesh::is_pin_modular"))),
    ])
    pair(ck, "dumped", "corrections are written when asked for", [
        (lambda f: f.short == "SnSweeper_CDD" and f.ctor and "SnSweeper_CDD<" in f.n and len(f.p) == 2, "SnSweeper_CDD__ctor",
         {"only": ("dump_corrections_",), "least": 5, "throws": False})], opaque=made)
    op = ("step", "FixedSourceSolver::step", "do_cmfd", "calc_fission_source", "total_fission", "initialize", "Normalize",
          "EigenSolver::output", "H5Node", "is_enabled")
    pair(ck, "limits", "tolerances and limits given are those that end the iterations", [
        ("EigenSolver::solve", "EigenSolver__solve", dict(opaque=op, drop=("output", "print", "H5Node"))),
        ("EigenSolver::step", "EigenSolver__step", dict(opaque=tuple(x for x in op if x != "step"), only=("do_cmfd",))),
        ("FixedSourceSolver::solve", "FixedSourceSolver__solve", dict(opaque=("FixedSourceSolver::step", "FixedSourceSolver::initialize"))),
        ("CMFD::solve", "CMFD__solve", dict(
            opaque=("CMFD::CMFD", "solve_1g", "CMFD::residual", "CMFD::fission_source", "CMFD::total_fission", "setup_solve",
                    "store_currents", "update", "initialize_group", "SourceIsotropic", "Source::fission", "in_scatter", "scale"),
            drop=("print",), only=("solve_1g", "residual"))),
        ("MonteCarloEigenvalueSolver::solve", "MonteCarloEigenvalueSolver__solve", dict(
            opaque=("step", "reset_tallies", "get", "shannon_entropy"), only=("step", "reset_tallies", "active"))),
    ])
    like(ck, "unknown", "an attribute that is not on the list is reported", ["validate_input"])
