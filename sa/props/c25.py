"""C25: input refused before it is used."""
import graph
import nodes
from model import walk
from ref import *

TITLE = "Invalid input is refused with a diagnosis before it is used"
EXPLANATION = (
    "Every conversion of an attribute or element to a number is found in the source: it must keep the sign of what was "
    "written, and a condition on the number must lead to a refusal. Every function that reads input is compared with a "
    "reference definition: the conditions under which it refuses, and what it stores or makes from what it accepts. "
    "Numbers are converted by the XML library, which reads the leading digits of malformed text.")
NUMBERS = tuple("pugi::xml_%s::as_%s" % (a, b) for a in ("attribute", "text")
                for b in ("int", "uint", "double", "float", "llong", "ullong"))
FUZZY = ("fp_equiv_ulp", "fp_equiv", "fp_equiv_abs", "fp_equiv_rel")


def fields(prog, cls):
    """{member: type} of a class and its bases."""
    c = prog.class_by_name.get(cls)
    c = c[0] if isinstance(c, list) else c
    if c is None:
        return {}
    r = {}
    for b in c["bases"]:
        r.update(fields(prog, b["t"] if isinstance(b, dict) else b))
    r.update({x["n"]: x["t"] for x in c["fields"]})
    return r


def named(n):
    """The attribute or element a number is read of."""
    s = [x["v"] for x in walk(n.get("obj")) if x.get("k") == "str"]
    return s[0] if s else None


def keep(e):
    """The number read that an expression passes on unchanged."""
    e = nodes.strip(e)
    return e if isinstance(e, dict) and e.get("k") == "call" and e.get("fn") in NUMBERS else None


def reads(prog, f):
    """(call, what it is kept in, type of that) of every number read by a function."""
    done, out = set(), []
    kinds = fields(prog, f.cls) if f.cls else {}
    for i in f.inits or []:
        r = keep(i.get("e"))
        if r is not None and i.get("mem"):
            done.add(id(r))
            out.append((r, ("mem", i["mem"]), kinds.get(i["mem"], "")))
    for n in graph.parts(f):
        if n.get("k") == "decl":
            for v in n["v"]:
                r = keep(v.get("init"))
                if r is not None:
                    done.add(id(r))
                    out.append((r, ("var", v.get("d")), v.get("t", "")))
        elif n.get("k") == "asg" and n.get("op") == "=":
            r = keep(n["rhs"])
            if r is not None:
                done.add(id(r))
                l = n["lhs"]
                out.append((r, (l.get("k"), l.get("n") if l.get("k") == "mem" else l.get("d")), l.get("t", "")))
    for n in graph.parts(f):
        if n.get("k") == "call" and n.get("fn") in NUMBERS and id(n) not in done:
            out.append((n, None, ""))
    return out


def mentions(e, kept, name):
    for n in walk(e):
        k = n.get("k")
        if kept is not None and ((k == "var" and kept == ("var", n.get("d"))) or (k == "mem" and kept == ("mem", n.get("n")))):
            return True
        if k == "call" and n.get("fn") in NUMBERS and named(n) == name:
            return True
    return False


def refuses(body):
    for n in walk(body):
        if n.get("k") == "throw" or (n.get("k") == "call" and n.get("noret")):
            return True
        if n.get("k") == "call" and n.get("fn") in ("mocc::Fail", "mocc::Error", "exit", "std::exit"):
            return True
    return False


def sizes(f, kept):
    """Whether a function computes with what is kept, sizes something by it or loops up to it."""
    hit = lambda e: any((n.get("k") == "var" and kept == ("var", n.get("d"))) or (n.get("k") == "mem" and kept == ("mem", n.get("n")))
                        for n in walk(e))
    for n in graph.parts(f):
        k = n.get("k")
        if k == "bin" and n.get("op") in ("+", "-", "*", "/") and hit(n):
            return True
        if k in ("for", "while", "do") and hit(n.get("c")):
            return True
        if k == "ctor" and n.get("fn", "").startswith(("std::vector", "blitz::Array")) and hit(n.get("a")):
            return True
        if k == "call" and n.get("fn", "").split("::")[-1] in ("resize", "reserve") and hit(n.get("a")):
            return True
        if k == "sub" and hit(n.get("i")):
            return True
    return False


def guarded(prog, f, kept, name, deep=0):
    """Whether some condition on what is kept leads to a refusal, here or in a function it is handed to."""
    for m in graph.parts(f):
        if m.get("k") == "if" and any(mentions(m.get("c"), k, name) for k in kept) and (refuses(m.get("then")) or refuses(m.get("else"))):
            return True
        if m.get("k") == "switch" and any(mentions(m.get("c"), k, name) for k in kept) and refuses(m.get("body")):
            return True
    if deep < 2:
        for n, g in graph.calls(prog, f):
            if not graph.own(prog, g):
                continue
            for j, a in enumerate(n.get("a", ())):
                a = nodes.strip(a)
                if j < len(g.p) and isinstance(a, dict) and any(mentions(a, k, name) for k in kept) and a.get("k") in ("var", "mem", "call"):
                    if guarded(prog, g, [("var", g.p[j]["d"])], None, deep + 1):
                        return True
    return False


def numbers(ck):
    ck.rule("sign", "a number read from the input keeps its sign until it has been compared with its range")
    found = []
    for f in ck.prog.funcs.values():
        if graph.own(ck.prog, f):
            for r in reads(ck.prog, f):
                found.append((f,) + r)
                ck.functions.add(f.n)
    ck.need(len(found), 45, "numbers read from the input")
    for f, n, kept, t in found:
        wraps = "unsigned" in t or "size_t" in t or "as_u" in n["fn"]
        ck.ok(not wraps or not sizes(f, kept), f.n, "'%s' is converted to %s before it is compared with its range" % (named(n), t),
              "%s:%s" % (f.rel, n.get("l")))
    ck.rule("range", "a number read from the input is compared, and refused when it is out of its range")
    for f, n, kept, t in found:
        if any(m.get("k") == "if" and any(any(x is n for x in walk(b)) and refuses(b) for b in (m.get("then"), m.get("else")))
               for m in graph.parts(f)):
            text = any(m.get("k") == "call" and m.get("fn", "").endswith("operator<<") and any(x is n for x in walk(m)) for m in graph.parts(f))
            if text:
                continue        # part of the message of a refusal
        same = [k for g, m, k, _ in found if g is f and named(m) == named(n) and k is not None]
        ck.ok(guarded(ck.prog, f, same or [None], named(n)), f.n,
              "'%s' is used without a condition that refuses it" % named(n), "%s:%s" % (f.rel, n.get("l")))


def check(ck):
    numbers(ck)
    specs(ck, "c25", "c04", "c05", "c12", "c13", "c14", "c20", "c21", "c24", "c32")
    like(ck, "geometry", "identifiers, sizes, heights and lists of the geometry are refused unless they are complete, defined and in range",
         ["Lattice::Lattice@2", "Assembly::Assembly@2", "Core::Core@2", "Pin::Pin@3", "PinMesh::PinMesh@1", "bc_parse", "PinMeshFactory",
          "Lattice::compatible", "Assembly::compatible"],
         opaque=("explode_string", "explode_braces", "Lattice::compatible", "Assembly::compatible", "fp_equiv_ulp"), only=("ret",))
    like(ck, "identifiers", "a second component of the same identifier, or more or fewer than one core, is refused",
         ["ParseCore", "ParseLattices", "ParseAssemblies", "ParsePins", "ParsePinMeshes"],
         opaque=("Lattice::Lattice", "Assembly::Assembly", "Core::Core", "Pin::Pin", "PinMeshFactory"))
    like(ck, "meshes", "pin meshes without regions, or with radii that are not increasing and inside the pin, are refused",
         ["PinMesh_Cyl::PinMesh_Cyl@1", "PinMesh_Rect::PinMesh_Rect@1", ("Plane::Plane@3", {"ref": "Plane__ctor"})],
         only=("ret",), skip=("mocc::GeomSurface::last_id_", "mocc::GeomSurface::surf_id"), drop=("PinMesh",),
         opaque=FUZZY + ("PinMesh::PinMesh", "explode_string", "Line::Line", "Circle::Circle"))
    like(ck, "numbers", "text that is not a list of numbers, or braces that do not match, are refused",
         [("explode_string", {"ref": "fn__explode_int", "pick": lambda f: "int" in f.rt}),
          ("explode_string", {"ref": "fn__explode_real", "pick": lambda f: "int" not in f.rt}),
          ("explode_braces", {"opaque": ("explode_string",)})])
    like(ck, "library", "a library that is cut short, malformed or names a material twice is refused, as is an unknown or second assignment",
         [("MaterialLib::MaterialLib", {"ref": "MaterialLib__ctor_xml", "pick": lambda f: len(f.p) == 1 and "xml" in f.p[0]["t"]}),
          ("MaterialLib::MaterialLib", {"ref": "MaterialLib__ctor_file", "pick": lambda f: len(f.p) == 1 and "Scrubber" in f.p[0]["t"]}),
          "MaterialLib::assignID"], opaque=("getline", "explode_string", "Material::Material", "assignID"))
    pair(ck, "angles", "directions and weights that do not make a quadrature are refused", [
        ("Angle::Angle", "Angle__xml", dict(pick=lambda f: len(f.p) == 1 and "xml" in f.p[0]["t"])),
        ("GenUserQuadrature", "GenUserQuadrature", {}),
        ("AngularQuadrature::AngularQuadrature", "AngularQuadrature__xml",
         dict(pick=lambda f: len(f.p) == 1 and "xml" in f.p[0]["t"],
              opaque=("GenSn", "GenProduct", "GenChebyshev", "GenGauss", "GenYamamoto", "GenUserQuadrature",
                      "to_octant"), drop=("validate_input",))),
    ])
    pair(ck, "sources", "sources of another shape, unsupported scattering and ray spacings that cannot be laid out are refused", [
        ("Source::add_external", "Source__add_external", {}),
        ("SourceFactory", "SourceFactory", {}),
        ("RayData::RayData", "RayData__ctor",
         dict(pick=lambda f: len(f.p) == 3, only=("ret",), drop=("Warn", "validate_input"),
              opaque=FUZZY + ("validate_input", "sanitize", "Box::intersect", "Ray::Ray", "RayData::correct_volume",
                              "RayData::modularize_angle", "AngularQuadrature::operator=", "AngularQuadrature::modify_angle",
                              "AngularQuadrature::update_weights", "Direction::modify_alpha", "CoreMesh::is_pin_modular"))),
    ])
    made = ("CMFD::CMFD", "FixedSourceSolver::FixedSourceSolver", "EigenSolver::EigenSolver", "MoCSweeper::MoCSweeper",
            "MonteCarloEigenvalueSolver::MonteCarloEigenvalueSolver", "PlaneSweeper_2D3D::PlaneSweeper_2D3D",
            "MoCSweeper_2D3D::MoCSweeper_2D3D", "SnSweeper::SnSweeper", "TransportSweeper::TransportSweeper",
            "ParticlePusher::ParticlePusher", "XSMesh::XSMesh", "FissionBank::FissionBank", "XSMeshHomogenized::XSMeshHomogenized",
            "CoarseData::CoarseData", "Source::Source", "SourceIsotropic::SourceIsotropic", "Source_2D3D::Source_2D3D",
            "RayData::RayData", "BoundaryCondition::BoundaryCondition", "AngularQuadrature::AngularQuadrature",
            "CorrectionData::CorrectionData", "RNG_LCG::RNG_LCG", "make_cmfd_mesh", "bc_size_helper", "boundary_helper", "xs_mesh_factory",
            "find_angquad", "TransportSweeperFactory", "SnSweeperFactory", "SnSweeperFactory_CDD", "SourceFactory",
            "new_timer", "validate_input", "parse_options", "explode_string", "sanitize", "create_source", "add_external",
            "assign_source", "set_self_coupling", "set_seed", "from_data", "set_corrections", "set_ang_quad", "get_data",
            "get_homogenized_xsmesh", "set_coarse_data", "ExpandedXS::ExpandedXS", "volumes", "set_coupling", "set_flux",
            "SnSweeper_CDD::SnSweeper_CDD", "SnSweeper_DD::SnSweeper_DD", "SnSweeper_DD_SC::SnSweeper_DD_SC", "Fail")
    o = {"only": ("ret",)}
    like(ck, "limits", "tolerances, limits and counts out of their range, and unknown keywords, are refused", [
        ("CMFD::CMFD", o), ("EigenSolver::EigenSolver", o | {"havoc": False}), ("FixedSourceSolver::FixedSourceSolver", o | {"calls": ("Fail",)}),
        ("MonteCarloEigenvalueSolver::MonteCarloEigenvalueSolver", o), ("ParallelEnvironment::ParallelEnvironment@1", {"drop": ("validate_input",)}),
        "PlaneSweeper_2D3D::parse_options", "PlaneSweeper_2D3D::create_source", "find_angquad",
        ("SnSweeper::SnSweeper", o), ("MoCSweeper::MoCSweeper", o | {"ref": "MoCSweeper__refuses", "opaque": made + ("AngularQuadrature::operator=",)}),
        "SolverFactory", "TransportSweeperFactory", "SnSweeperFactory", "SnSweeperFactory_CDD"], opaque=made)
    like(ck, "bank", "a fission box that is empty, inside out or outside the core is refused",
         [("FissionBank::FissionBank@5", {})], opaque=("random", "random_int", "Isotropic"))
    acts = ("new_timer", "tic", "toc", "strip_extension", "apply_amendment", "SolverFactory", "output_geometry", "CoreMesh::CoreMesh",
            "ParallelEnvironment::ParallelEnvironment")
    like(ck, "files", "a command line, file or amendment that cannot be followed is refused before anything is built from it",
         [("InputProcessor::InputProcessor@1", {"skip": ("timer_", "args_", "doc_"), "drop": ("tic", "toc", "new_timer")}),
          ("InputProcessor::process", {"skip": ("timer_",), "drop": ("tic", "toc", "new_timer")}),
          "apply_amendment", ("output_geometry", {"only": ("ret",)})], opaque=acts)
