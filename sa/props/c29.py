"""C29: what each index numbers, and loops over a kind."""
import model
from kinds import Kinds, bare, infer, integer

TITLE = "Every array access uses the kind of index the array is stored by"
EXPLANATION = (
    "The kind of thing each integer, each dimension of each array and each element of a container of integers numbers "
    "is inferred over the whole program by unification, starting from functions and members whose meaning fixes it, and "
    "every place where two different kinds meet is reported. Functions are analysed once and their parameters and "
    "results taken at each call with the kinds the function itself gives them. Data held by a class of which one use is "
    "by fine regions and another by coarse cells is kept apart by use. Planes and macroplanes are one kind here, because "
    "the coarse data are deliberately stored by macroplane in the places of the first planes; sums and products of "
    "indices have no kind, and offsets are compared with reference definitions under C11, C14 and C16. Every counted "
    "loop over a kind is also required to start at its first and stop before its count.")

# what these results number or count
RESULTS = {
    "group": "MaterialLib::n_group XSMesh::n_group TransportSweeper::n_group CoreMesh::n_group XSMeshRegion::n_group "
             "ScatteringMatrix::n_group FixedSourceSolver::n_group",
    "cell": "Mesh::coarse_cell Mesh::coarse_cell_point Mesh::coarse_neighbor Mesh::coarse_boundary_cell Mesh::n_pin "
            "Mesh::plane_cell_begin",
    "surface": "Mesh::coarse_surf Mesh::coarse_surf_point Mesh::coarse_norm_point Mesh::n_surf Mesh::plane_surf_begin",
    "plane": "Mesh::nz Assembly::nz Core::nz",
    "column": "Mesh::nx Core::npin_x",
    "row": "Mesh::ny Core::npin_y",
    "angle": "AngularQuadrature::ndir AngularQuadrature::reflect AngularQuadrature::reverse",
    "unique plane": "CoreMesh::n_unique_planes CoreMesh::unique_plane_id",
    "xs region": "XSMesh::size",
    "region": "TransportSweeper::n_reg Source::n_reg",
    "ray": "RayData::n_rays",
    "segment": "Ray::nseg",
    "coarse segment": "Ray::ncseg",
    "pin region": "Pin::n_reg PinMesh::n_reg PinMesh_Cyl::find_reg PinMesh_Rect::find_reg PinMesh::find_reg",
    "pin material": "PinMesh::n_xsreg",
    "assembly column": "Core::nx",
    "assembly row": "Core::ny",
    "pin": "Plane::n_pin Lattice::n_pin",
}
MEMBERS = {
    ("mocc::Position::x",): "column",
    ("mocc::Position::y",): "row",
    ("mocc::Position::z",): "plane",
    ("mocc::TransportSweeper::flux_", 0): "region",
    ("mocc::TransportSweeper::flux_", 1): "group",
    ("mocc::TransportSweeper::flux_old_", 0): "region",
    ("mocc::TransportSweeper::flux_old_", 1): "group",
}
# functions whose arguments and results are of no one kind
ANY = ("mocc::H5Node", "mocc::Error", "mocc::Warn", "mocc::Normalize", "mocc::Range", "mocc::RNG_LCG",
       "mocc::Mesh::Mesh", "mocc::cmdo::PlaneSweeper_2D3D::n_reg", "mocc::mc::TallySpatial")
# the kind of what a mesh counts follows from how it is to be treated
BY_TREATMENT = {"TRUE": "region", "PLANE": "region", "PIN": "cell", "PIN_PLANE": "cell"}
CHOSEN = {"Mesh::n_reg": BY_TREATMENT, "Mesh::volumes": BY_TREATMENT, "CoreMesh::volumes": BY_TREATMENT}
CONTAINERS = {"ExpandedXS::operator[]": "sub", "ExpandedXS::size": "size", "TallySpatial::score": "sub"}
# classes used once by fine regions and once by coarse cells
SHARED = ("mocc::TransportSweeper", "mocc::Source", "mocc::SourceIsotropic", "mocc::XSMesh", "mocc::XSMeshRegion")
RENAMED = {"cells": {"region": "cell", "xs region": "cell"}}


def peel(o):
    while o is not None:
        if o.get("k") == "cast":
            o = o["e"]
        elif o.get("k") == "call" and (o.get("fn") or "").endswith(("operator->", "operator*")) and o.get("obj"):
            o = o["obj"]
        elif o.get("k") == "un" and o["op"] in "*&":
            o = o["e"]
        else:
            break
    return o


def bottom(o):
    while True:
        o = peel(o)
        if o.get("k") == "mem":
            o = o["b"]
        elif o.get("k") == "call" and o.get("obj") is not None and o.get("op") == "[]":
            o = o["obj"]
        else:
            return o


def use(cls, o, f):
    """By what the object is used here, of a class that has two uses."""
    if cls not in SHARED:
        return ""
    c = bare(f.cls or "")
    t = bare((peel(o) or {}).get("t") or "") if o is not None else ""
    if "mocc::sn::" in t or "mocc::cmdo::Sn" in t or "XSMeshHomogenized" in t:
        return "cells"
    if "mocc::moc::" in t:
        return ""
    if c == "mocc::XSMeshHomogenized":
        return "cells" if o is None or bottom(o).get("k") == "this" else ""
    if c == "mocc::CMFD" or c.startswith(("mocc::sn::", "mocc::cmdo::Sn")) or f.n.startswith("mocc::sn::"):
        return "cells"
    return ""


OPTS = dict(generic=ANY, tag=use, renamed=RENAMED, chosen=CHOSEN, containers=CONTAINERS)


def kinds_of(ck):
    seeds = {}
    for kind, names in RESULTS.items():
        for n in names.split():
            ids = {f.id for f in ck.prog.find(n)} | {
                d["id"] for d in ck.prog.decls.values() if (d.get("n") or "").endswith("::" + n)}
            ck.need(len(ids), 1, "function %s" % n)
            for i in ids:
                seeds[(("R", i, ""),)] = kind
    for path, kind in MEMBERS.items():
        c, m = path[0].rsplit("::", 1)
        cs = ck.prog.class_by_name.get(c) or []
        ck.need(sum(1 for x in cs for y in x["fields"] if y["n"] == m), 1, "member %s" % path[0])
        seeds[(("M", path[0], ""),) + path[1:]] = kind
    return infer(ck.prog, seeds, **OPTS)


def check(ck):
    k = kinds_of(ck)
    if not k.clashes:
        examples(ck, k)
    ck.rule("kinds", "a subscript is of the kind the dimension stands for, a loop variable of the kind of the count that "
            "bounds it, an argument of the kind of the parameter, an array of the kinds it was sized with")
    bad = {}
    for f, l, a, wa, b, wb, what in k.clashes:
        bad.setdefault((f.rel, l, what), (f, a, b))
    for (rel, l, what), (f, a, b) in sorted(bad.items()):
        ck.ok(False, f.n, "%s: a %s where a %s is meant" % (what, b, a), "%s:%d" % (rel, l))
    ck.seen("the program", k.meetings - len(bad))
    ck.functions.update(f.n for f in ck.prog.funcs.values() if f.body and not f.n.startswith("ref::"))
    ck.need(k.subscripts, 1200, "subscripts")
    ck.need(k.known, 900, "quantities of known kind")
    loops(ck, k)


def examples(ck, whole):
    """Each rule finds what it must in the examples and nothing else."""
    model.load_spec(ck.prog, "c29")
    got, want, fine = set(), set(), set()
    known = counts(whole)
    helpers = Kinds(ck.prog, {}, first=whole, example="ref::index::at", **OPTS).run()
    whole.nodes.update((x, y) for x, y in helpers.nodes.items() if x not in whole.nodes and x[0] in "PR")
    for f in ck.prog.funcs.values():
        if not f.n.startswith("ref::index::") or f.short == "at":
            continue
        (want if f.short.startswith("bad_") else fine).add(f.short)
        k = Kinds(ck.prog, {}, first=whole, example=f.n, **OPTS).run()
        if k.clashes or any(msg for _, _, msg in incomplete(k, known)):
            got.add(f.short)
    ck.need(len(want), 8, "examples to be reported")
    ck.need(len(fine), 5, "examples not to be reported")
    if got != want:
        raise model.AnalysisBroken("C29: of the examples %s are reported, not %s" % (sorted(got), sorted(want)))


def loops(ck, k):
    ck.rule("loops", "a counted loop over a kind starts at its first, and stops before its count")
    n = 0
    for f, where, msg in incomplete(k):
        n += 1
        ck.ok(not msg, f.n, msg, where)
    ck.need(n, 100, "counted loops over a kind")


def counts(k):
    """What is a count: the size of something, or what a loop from zero stays
    below."""
    out = set(k.counts)
    for f, x in k.loops:
        c = x.get("c")
        if c and c.get("k") == "bin" and c["op"] == "<" and first(k, x) == 0:
            k.here = f
            out.add(k.key(c["b"]))
    out.discard(None)
    return out


def incomplete(k, also=frozenset()):
    """(function, place, what is wrong if anything) of the counted loops."""
    done = set()
    bounds = counts(k) | also
    for f, x in k.loops:
        k.here = f
        c = x.get("c")
        v = counter(x)
        if v is None or c is None or c.get("k") != "bin" or (f.rel, x["l"]) in done:
            continue
        kind = k.kind(k.nodes.get(("V", f.id, v)))
        if kind is None:
            continue
        done.add((f.rel, x["l"]))
        where = "%s:%d" % (f.rel, x["l"])
        b = k.strip(c["b"])
        if c["op"] == "<=" and k.key(b) in bounds | {("S", "size"), ("S", "extent")}:
            yield f, where, "loop over every %s goes on to the count itself" % kind
            continue
        less = 0
        if b.get("k") == "bin" and b["op"] == "-" and k.const(b["b"]) and k.key(b["a"]) in bounds | {("S", "size")}:
            less = int(float(k.strip(b["b"]).get("v", 0)))
            if c["op"] == "<=":
                less -= 1
        start = first(k, x) or 0
        if start <= 0 and less <= 0:
            yield f, where, ""
            continue
        ok = shifts(k, x, v) or edges(k, f, kind)
        yield f, where, "" if ok else "loop leaves out the %s %s" % ("first" if start > 0 else "last", kind)


def counter(x):
    i = x.get("init")
    if i and i.get("k") == "decl" and len(i["v"]) >= 1 and "d" in i["v"][0] and integer(i["v"][0].get("t")):
        return i["v"][0]["d"]
    return None


def first(k, x):
    i = x.get("init")
    if i and i.get("k") == "decl" and i["v"][0].get("init"):
        e = k.strip(i["v"][0]["init"])
        if e.get("k") == "int":
            return int(e["v"])
    return None


def shifts(k, x, v):
    """The loop also visits neighbours of its index."""
    for n in model.walk(x.get("body") or []):
        if n["k"] == "bin" and n["op"] in ("+", "-"):
            a, b = k.strip(n["a"]), k.strip(n["b"])
            if any(p.get("k") == "var" and p.get("d") == v and k.const(q) for p, q in ((a, b), (b, a))):
                return True
    return False


def edges(k, f, kind):
    """The function visits a first or last one by itself."""
    for n in model.walk(f.body or []):
        if n["k"] == "call" and (any(k.strip(y).get("k") == "int" for y in n.get("a") or ())
                                 or (n.get("fn") or "").split("::")[-1] in ("front", "back", "begin", "rbegin")):
            return True
        if n["k"] == "call" and n.get("op") in ("[]", "()") and any(
                k.strip(y).get("k") == "bin" and k.strip(y)["op"] == "-" and k.const(k.strip(y)["b"]) for y in n["a"]):
            return True
    return False
