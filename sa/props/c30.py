"""C30: initialisation and lifetimes."""
import re

from core import *
from model import walk
import model
import graph
import init
from init import strip, path

TITLE = "Everything is initialised before it is read, and outlived by what it refers to"
EXPLANATION = (
    "A must-analysis over every function finds, for each local variable, each member of an object under construction and each member a "
    "constructor leaves for later, whether it certainly has a value wherever it is read; calls are followed through summaries.  Members "
    "are initialised only from members initialised before them, hand-written copies take every member along, and references or pointers "
    "that are kept are never bound to temporaries, locals or arguments passed by value.  Raw allocations are wrapped or freed exactly "
    "once, objects freed through a base have virtual destructors, and addresses into a sequence are not taken while it may still move.")
NOTE = ("Scalars, pointers and enumerations are followed, by name and through references; elements of arrays and what is reached through "
        "stored pointers are not.  That an object kept by reference outlives its keeper is decided where the keeper is made, not over "
        "the whole run.")

SMART = re.compile(r"(unique_ptr|shared_ptr)<")
GROW = ("push_back", "emplace_back", "insert", "resize", "emplace", "clear", "pop_back", "erase")


def short(n):
    return (n.get("fn") or "").split("::")[-1]


def owns(prog):
    return [f for f in prog.funcs.values() if graph.own(prog, f)]


def bases(prog, c, seen=()):
    out = [c]
    for b in c["bases"]:
        k = init.record(prog, b)
        if k is not None and k["id"] not in seen:
            out += bases(prog, k, tuple(seen) + (c["id"],))
    return out


# ------------------------------------------------------------------ reading
def judge(prog, f):
    """The flow of one function, constructors with their members."""
    if f.ctor and not f.copy:
        return init.made(prog, f)
    return init.Flow(prog, f).run()


def reads(ck, fs):
    ck.rule("reads", "no variable, and no member its constructor leaves for later, is read on any path before it has a value")
    n = v = 0
    for f in fs:
        fl = judge(ck.prog, f)
        n += fl.reads
        v += len(fl.track)
        if fl.track:
            ck.functions.add(f.n)
            ck.seen(f.where, len(fl.track))
        for k, line in fl.early:
            ck.bad(f.n, "%s may be read before it has a value" % fl.label(k), "%s:%s" % (f.rel, line))
    ck.need(v, 450, "things that begin without a value")
    ck.need(n, 700, "reads of them")


def heap(prog, f):
    """Constructors of objects that f makes outside its own frame."""
    for n in graph.parts(f):
        if n.get("k") == "new":
            i = strip(n.get("init")) if n.get("init") else None
            if isinstance(i, dict) and i.get("f") in prog.funcs:
                yield n, prog.funcs[i["f"]]
        elif n.get("k") == "call" and n.get("fn") in graph.MAKERS:
            for g in graph.targets(prog, n):
                yield n, g


def made(ck, fs):
    ck.rule("made", "an object made on the heap has every member that other code can have read through its functions")
    sites = {}
    for f in fs:
        for n in graph.parts(f):
            if n.get("k") == "call" and n.get("obj") is not None:
                for g in graph.targets(ck.prog, n):
                    sites.setdefault(g.id, []).append((f, n))
    methods = {}
    for g in fs:
        if not (g.ctor or g.dtor or g.static):
            c = init.owner(ck.prog, g)
            if c is not None:
                methods.setdefault(c["id"], []).append(g)
    done, n = set(), 0
    for f in fs:
        for node, ctor in heap(ck.prog, f):
            n += 1
            ck.seen("%s:%s" % (f.rel, node.get("l")))
            left = init.unset(ck.prog, ctor)
            if not left or ctor.id in done:
                continue
            done.add(ctor.id)
            c = init.owner(ck.prog, ctor)
            for b in bases(ck.prog, c):
                for g in methods.get(b["id"], ()):
                    r, w = init.summary(ck.prog, g, ("T",), frozenset(left))
                    if not r:
                        continue
                    for h, m in sites.get(g.id, ()):
                        p = path(m["obj"])
                        if p == ("T",) or p is not None and p[0] == "V" and not pointer(h, p):
                            continue
                        ck.bad(ctor.n, "leaves %s without a value, which %s reads when called at %s:%s" % (
                            ", ".join(sorted(".".join(x) for x in r)), g.n, h.rel, m.get("l")), ctor.where)
    ck.need(n, 20, "objects made on the heap")


def pointer(f, p):
    for q in f.p:
        if q.get("d") == p[1]:
            return q.get("t", "").rstrip().endswith("*")
    return False


def complete(prog, fs):
    """Constructors called for an object of their own, not for the base of
    another or on behalf of another constructor."""
    out = set()
    for f in fs:
        part = {id(strip(i["e"])) for i in f.inits or [] if i.get("base") or i.get("deleg")}
        for n in graph.parts(f):
            if n.get("k") == "ctor" and id(n) not in part and n.get("f"):
                out.add(n["f"])
            elif n.get("k") == "call" and n.get("fn") in graph.MAKERS:
                out |= {g.id for g in graph.targets(prog, n)}
            elif n.get("k") == "call" and short(n) in ("emplace_back", "emplace", "push_back", "construct"):
                m = re.search(r"<([\w:]+)[,>]", n.get("ot") or n.get("cls") or "")
                c = init.record(prog, m.group(1)) if m else None
                if c is not None:
                    out |= {g["id"] for g in c["methods"] if g["n"] == c["n"].split("::")[-1]}
    return out


def later(prog, fs):
    """Members some function other than a constructor certainly sets, by
    class; public members set from outside the class."""
    own, out = {}, set()
    for g in fs:
        c = init.owner(prog, g)
        if g.ctor or g.dtor or g.static:
            continue
        for n in walk(g.body):
            l = n["lhs"] if n.get("k") == "asg" else n["obj"] if n.get("k") == "call" and n.get("op") == "=" and n.get("obj") else None
            if l is None:
                continue
            e = strip(l)
            if e.get("k") == "mem" and strip(e["b"]).get("k") != "this":
                out.add(e.get("qn"))
        if c is not None:
            own.setdefault(c["id"], []).append(g)
    return own, out


def setters(prog, own, c, m):
    """Whether a function of the class or of one derived from it sets m."""
    kin = [k for k in prog.classes.values() if any(b["id"] == c["id"] for b in bases(prog, k))] + bases(prog, c)
    for k in kin:
        for g in own.get(k["id"], ()):
            r, w = init.summary(prog, g, ("T",), frozenset([m]))
            if m in w and m not in r:
                return True
    return False


def sibling(prog, fs, c, f, m):
    """Whether another constructor of the class, given arguments, sets m."""
    return any(g.ctor and g.p and not g.copy and g.id != f.id and init.owner(prog, g) is c and m not in init.unset(prog, g) for g in fs)


def left(ck, fs):
    ck.rule("left", "a constructor gives every scalar and pointer member a value, except those that a function of the class, or the code "
            "that uses it, certainly sets before they are read")
    whole = complete(ck.prog, fs)
    own, outside = later(ck.prog, fs)
    n = 0
    for f in fs:
        c = init.owner(ck.prog, f) if f.ctor and not f.copy else None
        if c is None:
            continue
        ck.functions.add(f.n)
        ck.seen(f.where, max(1, len(init.made(ck.prog, f).track)))
        n += 1
        if f.id not in whole or not f.p:
            continue
        for m in sorted(init.unset(ck.prog, f)):
            if len(m) > 1 and m[:1] in init.unset(ck.prog, f):
                continue
            qns = {"%s::%s" % (b["n"], m[0]) for b in bases(ck.prog, c)}
            if len(m) > 1 or qns & outside and not sibling(ck.prog, fs, c, f, m) or setters(ck.prog, own, c, m):
                continue
            ck.bad(f.n, "leaves the member %s without a value" % ".".join(m), f.where)
    ck.need(n, 90, "constructors")


# -------------------------------------------------------------------- order
def mentions(prog, f, seen=None):
    """Members of *this a function or anything it calls on *this mentions."""
    memo = prog.__dict__.setdefault("_mentioned", {})
    if f.id in memo:
        return memo[f.id]
    memo[f.id] = out = set()
    for n in walk(f.body):
        if n.get("k") == "mem" and strip(n["b"]).get("k") == "this":
            out.add(n["n"])
        elif n.get("k") == "call" and n.get("obj") is not None and strip(n["obj"]).get("k") == "this":
            g = prog.funcs.get(n.get("f"))
            if g is not None and g.body is not None:
                out |= mentions(prog, g)
    return out


def addressed(e):
    """Nodes under an address-of: naming a place, not reading it."""
    return {id(strip(n["e"])) for n in walk(e) if n.get("k") == "un" and n.get("op") == "&"}


def order(ck, fs):
    ck.rule("order", "bases and members are initialised only from what is already initialised")
    n = 0
    for f in fs:
        if not f.ctor or not f.inits:
            continue
        at = {i["mem"]: j for j, i in enumerate(f.inits) if i.get("mem")}
        for j, i in enumerate(f.inits):
            if i.get("deleg"):
                continue
            away = addressed(i.get("e"))
            used = set()
            for x in walk(i.get("e")):
                if x.get("k") == "mem" and strip(x["b"]).get("k") == "this" and id(x) not in away:
                    used.add(x["n"])
                elif x.get("k") == "call" and x.get("obj") is not None and strip(x["obj"]).get("k") == "this":
                    g = ck.prog.funcs.get(x.get("f"))
                    if g is not None and g.body is not None:
                        used |= mentions(ck.prog, g)
            for m in sorted(used):
                n += 1
                what = i.get("mem") or i.get("base")
                ck.ok(not (m in at and at[m] >= j), f.n, "%s is initialised from %s, which is initialised after it" % (what, m),
                      "%s:%s" % (f.rel, i.get("l") or f.l))
    ck.need(n, 30, "members used while initialising others")


# ------------------------------------------------------------------- copies
def source(f):
    """The parameter a copy is taken from."""
    return f.p[0].get("d") if len(f.p) else None


def taken(prog, f, d, depth=0):
    """Members of the object at parameter d that a function uses."""
    out = set()
    for n in graph.parts(f):
        if n.get("k") == "mem":
            p = path(n)
            if p is not None and p[:2] == ("V", d) and len(p) > 2:
                out.add(p[2])
        elif n.get("k") == "call" and n.get("obj") is not None:
            o = strip(n["obj"])
            if o.get("k") == "var" and o.get("d") == d:
                g = prog.funcs.get(n.get("f"))
                if g is not None and g.body is not None:
                    out |= mentions(prog, g)
        elif n.get("k") == "range":
            o = strip(n["r"])
            if o.get("k") == "var" and o.get("d") == d:
                c = init.record(prog, o.get("t", "").rstrip("& ").replace("const ", ""))
                for m in (c or {}).get("methods", ()):
                    if m["n"] in ("begin", "end") and m["id"] in prog.funcs:
                        out |= mentions(prog, prog.funcs[m["id"]])
    return out


def given(prog, f):
    out = set()
    for i in f.inits or []:
        if i.get("mem"):
            out.add(i["mem"])
        if i.get("deleg"):
            out |= {"*"}
    for n in walk(f.body):
        if n.get("k") == "asg" or n.get("k") == "call" and n.get("op") == "=" and n.get("obj") is not None:
            p = path(n["lhs"] if n["k"] == "asg" else n["obj"])
            if p is not None and p[0] == "T" and len(p) > 1:
                out.add(p[1])
        elif n.get("k") == "call" and n.get("obj") is not None:
            p = path(n["obj"])
            if p is not None and p[0] == "T" and len(p) > 1:
                out.add(p[1])
    return out


def equal(prog, f, d):
    """Members a function refuses to see differ between the two objects."""
    out = set()
    for n in walk(f.body):
        if n.get("k") == "bin" and n.get("op") in ("!=", "=="):
            a, b = path(n.get("a", n.get("lhs"))), path(n.get("b", n.get("rhs")))
            for x, y in ((a, b), (b, a)):
                if x and y and x[0] == "T" and y[:2] == ("V", d) and x[1:] == y[2:] and len(x) == 2:
                    out.add(x[1])
    return out


def copies(ck, fs):
    ck.rule("copies", "a hand-written copy or assignment carries every member of the object it copies")
    n = 0
    for f in fs:
        if not (f.copy or f.short == "operator=" and len(f.p) == 1) or not f.user:
            continue
        c = init.owner(ck.prog, f)
        if c is None or not c["fields"]:
            continue
        if not f.copy and c["t"] not in f.p[0].get("t", ""):
            continue
        d = source(f)
        t, g, e = taken(ck.prog, f, d), given(ck.prog, f), equal(ck.prog, f, d)
        ck.functions.add(f.n)
        for fd in c["fields"]:
            m = fd["n"]
            n += 1
            ck.ok(m in t or derived(ck.prog, f, c, m, t), f.n, "does not take along the member " + m, f.where)
            ck.ok(m in g or "*" in g or m in e, f.n, "leaves the member %s as it was" % m, f.where)
    ck.need(n, 15, "members of copied classes")


def derived(prog, f, c, m, t):
    """A member the constructor delegated to computes from members taken."""
    for i in f.inits or []:
        if i.get("deleg"):
            e = strip(i["e"])
            g = prog.funcs.get(e.get("f"))
            if g is None:
                return False
            # sizes and offsets follow from the arguments; stored values do not
            if any(j.get("mem") == m and j.get("written") for j in g.inits or []):
                return True
            for n in graph.parts(g):
                if n.get("k") == "asg" or n.get("k") == "call" and n.get("op") == "=":
                    l = n.get("lhs") if n["k"] == "asg" else n.get("obj")
                    for x in walk(l):
                        if x.get("k") == "mem" and x["n"] == m and strip(x["b"]).get("k") == "this":
                            return True
    return False


# --------------------------------------------------------------------- kept
def keeps(prog, g, depth=0):
    """Positions of the parameters whose address a function keeps in its
    object: bound to a reference or pointer member, here or further on."""
    memo = prog.__dict__.setdefault("_keeps", {})
    if g.id in memo:
        return memo[g.id]
    memo[g.id] = out = set()
    c = init.owner(prog, g)
    if c is None or depth > 6:
        return out
    ft = {}
    for b in bases(prog, c):
        for fd in b["fields"]:
            ft.setdefault(fd["n"], fd["t"])
    pos = {p.get("d"): i for i, p in enumerate(g.p)}

    def bound(t, e):
        """Parameter whose address lands in a place of type t."""
        e = strip(e)
        if t.rstrip().endswith("&"):
            p = path(e)
            return pos.get(p[1]) if p and p[0] == "V" and len(p) >= 2 else None
        if t.rstrip().endswith(("*", "* const")):
            if isinstance(e, dict) and e.get("k") == "un" and e.get("op") == "&":
                p = path(e["e"])
                return pos.get(p[1]) if p and p[0] == "V" else None
            p = path(e)
            return pos.get(p[1]) if p and p[0] == "V" and len(p) == 2 else None
        return None

    for i in g.inits or []:
        if i.get("mem"):
            t = ft.get(i["mem"], "")
            b = bound(t, i.get("e"))
            if b is not None:
                out.add(b)
        e = strip(i.get("e"))
        if isinstance(e, dict) and e.get("k") == "ctor" and e.get("f") in prog.funcs:
            h = prog.funcs[e["f"]]
            for j in keeps(prog, h, depth + 1):
                if j < len(e["a"]):
                    b = bound(h.p[j].get("t", ""), e["a"][j])
                    if b is not None:
                        out.add(b)
    for n in walk(g.body):
        if n.get("k") == "asg" and n.get("op", "=") == "=":
            p = path(n["lhs"])
            if p is not None and p[0] == "T" and len(p) == 2 and p[1] in ft:
                b = bound(ft[p[1]], n["rhs"])
                if b is not None:
                    out.add(b)
        elif n.get("k") == "call" and n.get("obj") is not None and strip(n["obj"]).get("k") == "this":
            h = prog.funcs.get(n.get("f"))
            if h is not None and h.body is not None and h.id != g.id:
                for j in keeps(prog, h, depth + 1):
                    if j < len(n.get("a", ())):
                        b = bound(h.p[j].get("t", ""), n["a"][j])
                        if b is not None:
                            out.add(b)
    return out


def dies(f, e, t, locs):
    """Why what an argument refers to ends with the full expression or the
    function; None when it does not."""
    e = strip(e)
    if not isinstance(e, dict):
        return None
    if t.rstrip().endswith("*"):
        if e.get("k") != "un" or e.get("op") != "&":
            return None
        e = strip(e["e"])
    if e.get("k") in ("ctor", "ilist", "int", "flt", "str", "bool"):
        return "a temporary"
    if e.get("k") == "call":
        return None if e.get("lv") else "a temporary"
    p = path(e)
    if p is not None and p[0] == "V":
        t = locs.get(p[1])
        if t is not None and not t[1] and not t[0].rstrip().endswith(("&", "*")):
            return "the local " + t[2]
    return None


def locals_of(f):
    locs = {p.get("d"): (p.get("t", ""), False, p.get("n")) for p in f.p}
    for n in graph.parts(f):
        vs = n["v"] if n.get("k") == "decl" else [n["var"]] if n.get("k") == "range" else []
        for v in vs:
            locs[v.get("d")] = (v.get("t", ""), v.get("static"), v.get("n"))
    return locs


def frames(f):
    """Constructions whose object is itself a variable or temporary of f's
    frame, by identity of their node."""
    out = set()
    for n in walk(f.body):
        vs = n["v"] if n.get("k") == "decl" else []
        for v in vs:
            e = strip(v.get("init"))
            if isinstance(e, dict) and e.get("k") == "ctor" and not v.get("static"):
                out.add(id(e))
    return out


def kept(ck, fs):
    ck.rule("kept", "what an object keeps a reference or pointer to is not a temporary, a local or a by-value argument that ends before it")
    n = 0
    for f in fs:
        locs = locals_of(f)
        frame = frames(f)
        c = init.owner(ck.prog, f)
        # reference members of the object itself
        if f.ctor and c is not None:
            ft = {fd["n"]: fd["t"] for fd in c["fields"]}
            for i in f.inits or []:
                t = ft.get(i.get("mem"), "")
                if t.rstrip().endswith(("&", "*")):
                    n += 1
                    why = dies(f, i.get("e"), t, locs)
                    ck.ok(why is None, f.n, "the member %s keeps %s" % (i["mem"], why), "%s:%s" % (f.rel, i.get("l")))
        for x in graph.parts(f):
            if x.get("k") not in ("ctor", "call"):
                continue
            maker = x["k"] == "call" and x.get("fn") in graph.MAKERS
            for g in graph.targets(ck.prog, x):
                if g.body is None:
                    continue
                ks = keeps(ck.prog, g)
                if not ks:
                    continue
                if g.ctor and not maker and id(x) in frame:
                    continue        # a later variable of the same frame
                if not g.ctor:
                    p = path(x["obj"]) if x.get("obj") is not None else None
                    if p is not None and p[0] == "V" and p[1] in locs and not locs[p[1]][0].rstrip().endswith(("&", "*")):
                        continue
                for j in sorted(ks):
                    if j >= len(x.get("a", ())):
                        continue
                    n += 1
                    why = dies(f, x["a"][j], g.p[j].get("t", ""), locs)
                    if why == "a temporary" and g.ctor and not maker and id(x) not in frame and not member(f, x) and not fresh(f, x):
                        why = None
                    ck.ok(why is None, f.n, "%s keeps %s for longer than it lives" % (g.n, why), "%s:%s" % (f.rel, x.get("l")))
    ck.need(n, 60, "references and pointers kept")


def member(f, x):
    return any(strip(i.get("e")) is x for i in f.inits or [])


def fresh(f, x):
    return any(n.get("k") == "new" and strip(n.get("init")) is x for n in graph.parts(f))


# ------------------------------------------------------------------ returns
def returns(ck, fs):
    ck.rule("returns", "no function returns a reference, a pointer or an array view of something that ends with it")
    n = 0
    for f in fs:
        t = f.rt.rstrip()
        view = t.startswith("blitz::Array") or "blitz::Array<" in t
        if not t.endswith(("&", "*")) and not view:
            continue
        locs = locals_of(f)
        for x in walk(f.body):
            if x.get("k") != "ret" or not x.get("e"):
                continue
            n += 1
            e = strip(x["e"])
            if t.endswith(("&", "*")):
                why = dies(f, e, t, locs)
                ck.ok(why is None, f.n, "returns %s by reference" % why, "%s:%s" % (f.rel, x.get("l")))
            else:
                w = viewed(f, e, locs)
                ck.ok(w is None, f.n, "returns a view of the storage of the local %s" % w, "%s:%s" % (f.rel, x.get("l")))
    ck.need(n, 60, "returned references, pointers and arrays")


def viewed(f, e, locs):
    """The local whose storage an array expression is a view of, if any."""
    todo = [e]
    for x in todo:
        x = strip(x)
        if not isinstance(x, dict):
            continue
        if x.get("k") == "ctor" and "blitz::Array<" in x.get("t", ""):
            if x.get("copy") and len(x["a"]) == 1:
                todo.append(x["a"][0])
            elif any(y.get("k") == "enum" and "neverDeleteData" in str(y.get("n", "") or y.get("qn", "")) for y in walk(x)):
                for y in walk(x["a"][0]):
                    if y.get("k") == "var" and y.get("vk") == "local":
                        t = locs.get(y.get("d"))
                        if t is not None and not t[1] and not t[0].rstrip().endswith(("&", "*")):
                            return t[2]
        elif x.get("k") == "var" and x.get("vk") == "local":
            for n in walk(f.body):
                if n.get("k") == "decl":
                    for v in n["v"]:
                        if v.get("d") == x.get("d") and v.get("init"):
                            i = strip(v["init"])
                            if i is not x:
                                todo.append(i)
        if len(todo) > 20:
            break
    return None


# -------------------------------------------------------------------- owned
def parents(f):
    up = {}

    def go(n, p):
        if isinstance(n, dict):
            if "k" in n:
                up[id(n)] = p
                p = n
            for k in n:
                if isinstance(n[k], (dict, list)):
                    go(n[k], p)
        elif isinstance(n, list):
            for x in n:
                go(x, p)
    for i in f.inits or []:
        go(i.get("e"), {"k": "init", "mem": i.get("mem")})
    go(f.body, None)
    return up


def place(f, up, n):
    """Where the value of an expression goes: ('smart',), ('ret',),
    ('var', d), or None."""
    x, p = n, up.get(id(n))
    while p is not None and p.get("k") in ("cast", "expr", "paren", "cond"):
        x, p = p, up.get(id(p))
    if p is None:
        return None
    k = p.get("k")
    if k == "ret":
        return ("ret",)
    if k == "decl":
        for v in p["v"]:
            if any(y is n for y in walk(v.get("init"))):
                return ("smart",) if SMART.search(v.get("t", "")) else ("var", v.get("d"))
    if k == "ctor" and SMART.search(p.get("t", "") or p.get("cls", "")):
        return ("smart",)
    if k == "call":
        if SMART.search(p.get("cls") or "") or SMART.search(p.get("ot") or ""):
            return ("smart",)
        if short(p) in ("emplace_back", "emplace", "push_back") and SMART.search(p.get("fn", "") + (p.get("ot") or "")):
            return ("smart",)
    if k == "asg":
        q = path(p["lhs"])
        if q is not None and q[0] == "V" and len(q) == 2:
            return ("var", q[1])
    if k == "init":
        return ("init", p.get("mem"))
    return None


def owned(ck, fs):
    ck.rule("owned", "memory taken directly is handed to an owner or freed exactly once on every path")
    givers = {}
    n = 0

    def follow(f, up, node, w):
        """What becomes of an owned raw pointer in f."""
        at = place(f, up, node)
        if at == ("smart",):
            return None
        if at == ("ret",):
            givers[f.id] = f
            return None
        if at is not None and at[0] == "init":
            c = init.owner(ck.prog, f)
            t = {fd["n"]: fd["t"] for fd in c["fields"]}.get(at[1], "") if c else ""
            return None if SMART.search(t) else "is kept in a plain pointer"
        if at is not None and at[0] == "var":
            return trail(f, up, at[1])
        return "is not handed to an owner"

    def trail(f, up, d):
        uses = [x for x in walk(f.body) if x.get("k") == "var" and x.get("d") == d and x.get("vk") == "local"]
        frees = [x for x in walk(f.body) if x.get("k") == "delete" and path(x["e"]) == ("V", d)]
        if frees:
            lo, hi, rets = freed(f.body, d)
            lows = rets + [(lo, hi)] if lo is not None else rets
            if any(h > 1 for _, h in lows):
                return "may be freed twice"
            if any(l < 1 for l, _ in lows):
                return "is not freed on every path"
            return None
        for x in uses:
            at = place(f, up, x)
            if at == ("smart",):
                return None
            if at == ("ret",):
                givers[f.id] = f
                return None
        return "is not handed to an owner"

    for f in fs:
        up = None
        for x in graph.parts(f):
            if x.get("k") == "new" and not x.get("place"):
                up = up or parents(f)
                n += 1
                why = follow(f, up, x, None)
                ck.ok(why is None, f.n, "the memory taken here %s" % why, "%s:%s" % (f.rel, x.get("l")))
            elif x.get("k") == "delete":
                n += 1
                p = path(x["e"])
                news = [y for y in graph.parts(f) if y.get("k") == "new"]
                ok = p is not None and p[0] == "V" and bool(news)
                ck.ok(ok or f.dtor, f.n, "frees memory it did not take", "%s:%s" % (f.rel, x.get("l")))
    for g in list(givers.values()):
        for f in fs:
            up = None
            for x in graph.parts(f):
                if x.get("k") == "call" and x.get("f") == g.id:
                    if SMART.search(g.rt):
                        continue
                    up = up or parents(f)
                    n += 1
                    why = follow(f, up, x, None)
                    ck.ok(why is None, f.n, "what %s gives up %s" % (g.n, why), "%s:%s" % (f.rel, x.get("l")))
    ck.need(n, 25, "allocations, releases and hand-overs")


def freed(body, d):
    """(least, most, [(least, most) at returns]) times a pointer is freed."""
    rets = []

    def seq(b, lo, hi):
        for s in b or []:
            if lo is None:
                return lo, hi
            lo, hi = one(s, lo, hi)
        return lo, hi

    def one(s, lo, hi):
        k = s.get("k")
        if k == "delete" and path(s["e"]) == ("V", d):
            return lo + 1, hi + 1
        if k == "expr":
            return one(s["e"], lo, hi)
        if k == "block":
            return seq(s["body"], lo, hi)
        if k == "if":
            a = seq(aslist(s.get("then")), lo, hi)
            b = seq(aslist(s.get("else")), lo, hi)
            return join(a, b)
        if k in ("for", "range", "while", "do"):
            a = seq(aslist(s.get("body")), lo, hi)
            if a[0] is None:
                return lo, hi
            return (min(lo, a[0]), 9 if a[1] > hi else hi)
        if k == "try":
            a = seq(aslist(s["body"]), lo, hi)
            for h in s["h"]:
                a = join(a, seq(aslist(h["body"]), lo, hi))
            return a
        if k == "ret":
            rets.append((lo, hi))
            return None, None
        if k == "throw" or k == "call" and s.get("noret"):
            return None, None
        return lo, hi

    lo, hi = seq(aslist(body), 0, 0)
    return lo, hi, rets


def aslist(b):
    return b if isinstance(b, list) else [b] if b else []


def join(a, b):
    if a[0] is None:
        return b
    if b[0] is None:
        return a
    return min(a[0], b[0]), max(a[1], b[1])


# ---------------------------------------------------------------- destroyed
def destroyed(ck, fs):
    ck.rule("destroyed", "a class freed through a pointer to its base has a virtual destructor")
    held = {}
    rx = re.compile(r"unique_ptr<(?:const )?([\w:]+)")
    for c in ck.prog.classes.values():
        for fd in c["fields"]:
            for m in rx.finditer(fd["t"]):
                held.setdefault(m.group(1), "%s:%s" % (c["rel"], fd["l"]))
    for f in fs:
        for m in rx.finditer(f.rt):
            held.setdefault(m.group(1), f.where)
    n = 0
    for t, where in sorted(held.items()):
        c = init.record(ck.prog, t)
        if c is None:
            continue
        derived_ = [k for k in ck.prog.classes.values() if k["id"] != c["id"] and any(b["id"] == c["id"] for b in bases(ck.prog, k))]
        if not derived_:
            continue
        n += 1
        virt = any(m["n"].startswith("~") and m["virt"] for b in bases(ck.prog, c) for m in b["methods"])
        ck.ok(virt, c["n"], "is freed through pointers but its destructor is not virtual, and %s derives from it" % derived_[0]["n"],
              "%s:%s" % (c["rel"], c["l"]))
    ck.need(n, 3, "classes freed through their base")


# -------------------------------------------------------------------- moved
def root(e):
    """Key of a sequence an element is taken from."""
    e = strip(e)
    if not isinstance(e, dict):
        return None
    if e.get("k") == "call" and e.get("obj") is not None and (e.get("op") == "[]" or short(e) in ("at", "back", "front", "data", "begin")):
        o = strip(e["obj"])
        if "std::vector<" in (e.get("ot") or e.get("cls") or o.get("t", "")):
            return path(o)
    if e.get("k") == "mem":
        return root(e["b"])
    return None


def moved(ck, fs):
    ck.rule("moved", "no address into a sequence is kept while the sequence may still move its elements")
    n = 0
    for f in fs:
        nodes = list(graph.parts(f))
        addrs = []
        for i, x in enumerate(nodes):
            if x.get("k") == "un" and x.get("op") == "&":
                r = root(x["e"])
                if r is not None:
                    addrs.append((i, x, r))
        if not addrs:
            continue
        loops = [(x, {id(y) for y in walk(x.get("body"))}) for x in nodes if x.get("k") in ("for", "range", "while", "do")]
        for i, x, r in addrs:
            n += 1
            later = []
            for j, y in enumerate(nodes):
                if y.get("k") == "call" and y.get("obj") is not None and short(y) in GROW and path(y["obj"]) == r:
                    if j > i or any(id(x) in b and id(y) in b for _, b in loops):
                        later.append((j, y))
            if later:
                first = min(j for j, _ in later)
                room = [j for j, y in enumerate(nodes) if y.get("k") == "call" and y.get("obj") is not None and short(y) == "reserve"
                        and path(y["obj"]) == r and j < min(first, i)]
                ok = bool(room) and all(short(y) in ("push_back", "emplace_back") for _, y in later)
                ck.ok(ok, f.n, "an address into %s is taken at line %s and the sequence changed at line %s" % (
                    ".".join(str(z) for z in r[1:]), x.get("l"), later[0][1].get("l")), "%s:%s" % (f.rel, x.get("l")))
            else:
                ck.seen("%s:%s" % (f.rel, x.get("l")))
    ck.need(n, 4, "addresses taken into sequences")


# ----------------------------------------------------------------- examples
def examples(ck):
    """Each rule finds what it must in the examples and nothing else."""
    model.load_spec(ck.prog, "c30")
    tried = 0
    by = {"reads": reads_of, "order": None}
    for f in [f for f in ck.prog.funcs.values() if f.n.startswith("ref::unset::")]:
        if not f.short.startswith(("bad", "fine")):
            continue
        got = bool(judge(ck.prog, f).early)
        tried += 1
        if got != f.short.startswith("bad"):
            raise AnalysisBroken("C30: %s is %s" % (f.n, "reported" if got else "not reported"))
    for name, rule in (("order", order), ("copies", copies), ("kept", kept), ("returns", returns), ("owned", owned), ("moved", moved)):
        fs = [f for f in ck.prog.funcs.values() if f.n.startswith("ref::%s::" % name)]
        t = Quiet(ck.prog)
        rule(t, fs)
        badly = {f.n for f in fs if "Bad" in f.n or "::bad" in f.n}
        tried += len(fs)
        if not badly or set(t.sites) != badly:
            raise AnalysisBroken("C30: of the %s examples %s are reported, not %s" % (name, sorted(t.sites), sorted(badly)))
    del by
    ck.need(tried, 20, "examples")


def reads_of(prog, f):
    return judge(prog, f).early


class Quiet:
    """Collects the reports on examples."""

    def __init__(self, prog):
        self.prog, self.sites, self.functions = prog, [], set()

    def rule(self, *a):
        pass

    def seen(self, *a):
        pass

    def need(self, *a):
        pass

    def bad(self, site, msg, where):
        if site not in self.sites:
            self.sites.append(site)

    def ok(self, cond, site, msg, where):
        if not cond:
            self.bad(site, msg, where)


def check(ck):
    examples(ck)
    fs = owns(ck.prog)
    reads(ck, fs)
    made(ck, fs)
    left(ck, fs)
    order(ck, fs)
    copies(ck, fs)
    kept(ck, fs)
    returns(ck, fs)
    owned(ck, fs)
    destroyed(ck, fs)
    moved(ck, fs)
