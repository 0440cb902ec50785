"""C23: deadlock and termination inside parallel regions."""
from core import *
import graph
import model
import par
from c22 import region, INLINE

TITLE = "Threads cannot deadlock or be killed inside a parallel region"
EXPLANATION = (
    "Every barrier and work-sharing construct a parallel region meets, with everything it calls looked into, is under conditions and "
    "loop bounds that are the same for all threads and outside any construct only some threads execute.  Every throw in the call graph "
    "of a region is caught inside it, or its condition is one that constructors refuse.  Locks taken by hand do not occur.")

MEETING = ("barrier", "for", "single", "sections", "for simd")
ALONE = ("critical", "single", "master", "for", "atomic", "sections", "section", "ordered", "for simd", "task")
# throws whose condition other properties exclude
EXCLUDED = {
    "mocc::Mesh::plane_index": "positions of particles stay inside the core (C19, C21)",
    "mocc::surface_to_normal": "rays cross the four faces of coarse cells only (C14)",
}


def constructs(ck, r):
    for i, e in enumerate(r.eff):
        if e.kind != "omp" or e.name != "begin" or e.node["dir"] not in MEETING:
            continue
        omp = e.omp[[id(o) for o in e.omp].index(id(r.node)) + 1:-1]
        w = e.where()
        inner = [o for o in omp if o["dir"] in ALONE]
        yield "nesting", not inner, "%s inside %s is reached by some threads only" % (
            e.node["dir"], inner[0]["dir"] if inner else ""), w
        bad = [c for c in e.pc if not r.uniform(c)]
        yield "uniform", not bad, "%s is reached under a condition that differs between threads" % e.node["dir"], w
        for l in e.loops:
            if l.b in r.wsb:
                continue
            d = l.b.a[0]
            yield "uniform", d.op == "whl" or r.uniform(d), "%s is reached as often as a loop runs whose bounds differ between " \
                "threads" % e.node["dir"], w


def values(prog, f, throw):
    """(enumeration, values) under which a throw happens, where a test of one enumerated value decides it."""
    found = []

    def cond(c, v):
        k = c.get("k")
        if k in ("cast", "paren", "expr"):
            return cond(c["e"], v)
        if k == "un" and c["op"] == "!":
            x = cond(c["e"], v)
            return None if x is None else not x
        if k == "bin" and c["op"] in ("&&", "||"):
            x, y = cond(c["a"], v), cond(c["b"], v)
            if x is None or y is None:
                return None
            return (x and y) if c["op"] == "&&" else (x or y)
        if k == "bin" and c["op"] in ("==", "!="):
            for a in (strip(c["a"]), strip(c["b"])):
                if a.get("k") == "enum":
                    enums.add(a["n"].rsplit("::", 1)[0])
                    return (int(a["v"]) == v) == (c["op"] == "==")
        return None

    def strip(e):
        while e.get("k") in ("cast", "paren"):
            e = e["e"]
        return e

    def under(n, path):
        if n is throw:
            found.append(list(path))
            return
        if isinstance(n, list):
            for x in n:
                under(x, path)
            return
        if not isinstance(n, dict):
            return
        for k, x in n.items():
            if isinstance(x, (dict, list)):
                under(x, path + [(n, k)])

    under(f.body, [])
    enums = set()
    if not found:
        return None
    ok = None
    for n, k in reversed(found[0]):
        if n.get("k") == "if" and k in ("a", "b", "then", "else", "t", "e"):
            ok = lambda v, n=n, k=k: (lambda x: None if x is None else (x if k in ("a", "then", "t") else not x))(cond(n["c"], v))
            ok(0)
            break
        if n.get("k") == "switch":
            labels = [x for x in walk(n["body"]) if x.get("k") in ("case", "default")]
            for x in labels:
                if x["k"] == "case":
                    y = strip(x["v"])
                    if y.get("k") == "enum":
                        enums.add(y["n"].rsplit("::", 1)[0])
            inside = [x for x in labels if any(y is throw for y in walk(x))]
            if not inside or inside[-1]["k"] != "default":
                # the throw follows the default label as a statement of the switch
                body = n["body"] if isinstance(n["body"], list) else n["body"].get("body", [])
                inside = [x for x in labels if x["k"] == "default"]
            if not inside:
                return None
            taken = {int(strip(x["v"])["v"]) for x in labels if x["k"] == "case" and strip(x["v"]).get("k") == "enum"}
            ok = lambda v, taken=taken: v not in taken
            break
    if ok is None or len(enums) != 1:
        return None
    e = prog.enum(sorted(enums)[0])
    if e is None:
        return None
    vals = {c["n"].split("::")[-1]: int(c["v"]) for c in e["c"]}
    return sorted(enums)[0], {n for n, v in vals.items() if ok(v)}


def produced(prog, enum):
    """Enumerators something other than a comparison or a case label mentions."""
    out = set()
    for f in prog.funcs.values():
        if not graph.own(prog, f):
            continue
        skip = set()
        for n in graph.parts(f):
            if n.get("k") == "case":
                skip |= {id(x) for x in walk(n["v"])}
            if n.get("k") == "bin" and n["op"] in ("==", "!="):
                skip |= {id(x) for x in walk(n)}
            if n.get("k") == "enum" and id(n) not in skip and n["n"].rsplit("::", 1)[0] == enum:
                out.add(n["n"].split("::")[-1])
    return out


def refused(prog, enum, classes):
    """Enumerators that constructors of the classes throw on."""
    out = set()
    for f in prog.funcs.values():
        if f.ctor and f.clsn in classes and f.body is not None:
            for n in walk(f.body):
                if n.get("k") == "throw":
                    v = values(prog, f, n)
                    if v and v[0] == enum:
                        out |= v[1]
    return out


def caught(f, throw):
    """A handler in f that takes what the throw raises."""
    for n in walk(f.body):
        if n.get("k") == "try" and any(x is throw for x in walk(n["body"])):
            if any(h.get("all") or (throw.get("t") or "").split("::")[-1] in (h.get("t") or "") for h in n["h"]):
                return True
    return False


def throws(ck, f, node):
    prog = ck.prog
    roots = []
    for n in walk(node.get("body")):
        if n.get("k") in ("call", "ctor"):
            roots += graph.targets(prog, n)
    seen = graph.reach(prog, roots)
    sites = [(f, n, [f.n]) for n in walk(node.get("body")) if n.get("k") == "throw"]
    for i, (g, _, _) in seen.items():
        sites += [(g, n, [f.n] + graph.path(seen, i)) for n in graph.parts(g) if n.get("k") == "throw"]
    for g, n, p in sites:
        ok = caught(g, n) or g.n in EXCLUDED
        if not ok:
            v = values(prog, g, n)
            if v is not None:
                left = v[1] & produced(prog, v[0])
                left -= refused(prog, v[0], {"mocc::Core", f.clsn, g.clsn})
                ok = not left
        yield g, n, p, ok, len(seen)


def check(ck):
    ck.rule("nesting", "no barrier or work-sharing construct is reached from inside a construct only some threads execute")
    ck.rule("uniform", "barriers and work-sharing constructs are reached by all threads or none, equally often")
    ck.rule("throw", "no exception leaves a parallel region")
    ck.rule("locks", "no lock is taken that an early exit could leave taken")
    model.load_spec(ck.prog, "c22")
    tried = 0
    for f, node in par.regions(ck.prog, "ref::Shared::"):
        if f.short.startswith(("stuck", "safe")):
            r = region(ck, f, node)
            bad = [1 for _, ok, _, _ in constructs(ck, r) if not ok] + [1 for *_, ok, _ in throws(ck, f, node) if not ok]
            tried += 1
            if bool(bad) != f.short.startswith("stuck"):
                raise AnalysisBroken("C23: %s is %s" % (f.n, "reported" if bad else "not reported"))
    ck.need(tried, 6, "examples")
    rs = par.regions(ck.prog)
    ck.need(len(rs), 30, "parallel regions")
    n = 0
    for f, node in rs:
        r = region(ck, f, node)
        for rid, ok, msg, w in constructs(ck, r):
            n += rid == "nesting"
            ck.ok(ok, f.n, msg, w, rid)
        for g, t, p, ok, _ in throws(ck, f, node):
            ck.ok(ok, f.n, "an exception thrown in %s leaves the parallel region: %s" % (g.n, " -> ".join(p)),
                  "%s:%d" % (g.rel, t["l"]), "throw")
    ck.need(n, 60, "barriers and work-sharing constructs")
    for f in ck.prog.funcs.values():
        if graph.own(ck.prog, f):
            for c in walk(f.body):
                if c.get("k") == "call" and (c.get("fn") or "").startswith("omp_set"):
                    ck.ok("lock" not in c["fn"], f.n, "%s: exclusion by hand is not released on every path" % c["fn"],
                          "%s:%d" % (f.rel, c["l"]), "locks")
