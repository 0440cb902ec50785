"""C22: data races."""
from core import *
import model
import par

TITLE = "Parallel regions are free of data races"
EXPLANATION = (
    "Every parallel region, once per instantiation, with everything it calls looked into: each access to memory the threads share is "
    "placed in a phase between barriers under its protection and indices; conflicting accesses that may meet are reported.")


INLINE = ("CurrentCorrections::post_ray", "CurrentCorrections::calculate_corrections")


def region(ck, f, node):
    s = ck.summ(f, reads=True, max_depth=16, inline=INLINE)
    return par.Region(ck.prog, f, node, s.eff)


def serial(ck, atom, cls, memo):
    """A switch that every constructor turns off when there are several threads, and nothing else turns on."""
    if atom.op != "fld" or atom.a[0].op != "this":
        return False
    name = atom.a[1]
    owner = [c for c in ck.prog.all_bases(cls) if any(x["n"] == name for x in (ck.prog.classes.get(c) or {"fields": []})["fields"])]
    if not owner:
        return False
    qn = ck.prog.classes[owner[0]]["n"] + "::" + name
    if qn not in memo:
        memo[qn] = switched_off(ck, name, qn, owner[0])
    return memo[qn]


def switched_off(ck, name, qn, owner):
    ctors = [f for f in ck.prog.funcs.values() if f.ctor and f.cls == owner and not f.copy and f.body is not None and f.user]
    for f in ck.prog.funcs.values():
        if f.body is not None and not f.ctor:
            for n in walk(f.body):
                if n.get("k") == "asg" and n["lhs"].get("k") == "mem" and n["lhs"].get("qn") == qn:
                    return False
    for f in ctors:
        s = ck.summ(f)
        v = s.mem.get(F(name))
        if v is None:
            return False
        several = 0
        for seed in range(200):
            env = Env(seed)
            if env.num(env.ev(mk("app", "omp_get_max_threads"))) >= 2:
                several += 1
                if env.truth(env.ev(v)):
                    return False
        if several < 10:
            return False
    return bool(ctors)


def check(ck):
    ck.rule("race", "two accesses to shared memory, one of them a write, are in different phases, under the same exclusion, or at "
            "elements belonging to different iterations")
    model.load_spec(ck.prog, "c22")
    tried = 0
    for f, node in par.regions(ck.prog, "ref::Shared::"):
        if f.short.startswith(("racy", "safe")):
            found = [x for _, fd in region(ck, f, node).conflicts() for x in fd]
            tried += 1
            if bool(found) != f.short.startswith("racy"):
                raise AnalysisBroken("C22: the race in %s is %s" % (f.n, "seen where there is none" if found else "not seen"))
    ck.need(tried, 8, "examples")
    rs = par.regions(ck.prog)
    ck.need(len(rs), 30, "parallel regions")
    off = {}
    for f, node in rs:
        r = region(ck, f, node)
        no = []
        for a in r.accesses:
            for c in a.pc:
                c = c.a[0] if c.op == "not" else c
                if f.cls and c not in no and c.op == "fld" and c.a[0].op == "this":
                    if serial(ck, c, f.cls, off):
                        no.append(c)
        for acc, found in r.conflicts(no):
            ck.seen("%s:%d" % (f.rel, node["l"]))
            for name, (a, b) in found.items():
                ck.bad(f.n, "%s: %s at %s and %s at %s may meet" % (
                    name, "written" if a.write else "read", a.where(), "written" if b.write else "read", b.where()), a.where())
