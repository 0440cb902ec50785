"""C26: errors reach the user and the exit status."""
from core import *
from model import walk
import model
import graph

TITLE = "Errors are never swallowed: a failed run ends with a nonzero status"
EXPLANATION = (
    "Every handler of every function is followed to the end of its paths: it throws, ends the program with a nonzero status, returns a "
    "failure its callers look at, or sets a flag tested directly afterwards.  Only the program's own exception type is thrown, an error "
    "object is never built and dropped, calls of the HDF5 library stand inside handlers, opened files and parsed documents are tested, "
    "and functions that answer success or failure are never called for nothing.")

ENDS = ("exit", "abort", "terminate", "_exit", "quick_exit", "__assert_fail")
FILES = ("basic_ifstream<", "basic_ofstream<", "basic_fstream<")
TESTS = ("good", "is_open", "fail", "bad", "operator!", "operator bool")
SCREEN = ("cerr", "cout", "LogScreen")
# members of the HDF5 library that cannot fail: handles are created empty, copied and closed
QUIET = ("DataSet", "DataSpace", "Group", "operator=", "PredType", "~DataSet", "~DataSpace", "~Group", "~H5File")


def peel(e):
    while isinstance(e, dict) and (e.get("k") in ("cast", "paren", "bind") or e.get("k") == "ctor" and e.get("copy") and len(e["a"]) == 1):
        e = e["a"][0] if e["k"] == "ctor" else e.get("e")
    return e


def value(e):
    e = peel(e)
    if isinstance(e, dict) and e.get("k") == "un" and e.get("op") == "-":
        v = value(e.get("e"))
        return None if v is None else -v
    if isinstance(e, dict) and e.get("k") in ("int", "enum", "bool"):
        return int(e["v"])
    return None


def short(n):
    return (n.get("fn") or "").split("::")[-1]


def name_of(e):
    """What identifies the variable or member an expression names."""
    e = peel(e)
    if not isinstance(e, dict):
        return None
    if e.get("k") == "var":
        return e.get("u") or ("d", e.get("d"))
    if e.get("k") == "mem":
        return e.get("qn")
    return None


class Flow:
    """Do all paths through a statement end in an error?"""

    def __init__(self, prog):
        self.prog, self.memo, self.chain = prog, {}, set()
        self.funcs = [f for f in prog.funcs.values() if graph.own(prog, f)]
        self.used = {}
        for f in self.funcs:
            for n in graph.parts(f):
                if n.get("k") == "expr":
                    e = peel(n.get("e"))
                    if isinstance(e, dict) and e.get("k") == "call":
                        for g in graph.targets(prog, e):
                            self.used.setdefault(g.id, []).append((f, e, False))
                        e["_dropped"] = True
        for f in self.funcs:
            for n in graph.parts(f):
                if n.get("k") == "call" and not n.get("_dropped"):
                    for g in graph.targets(prog, n):
                        self.used.setdefault(g.id, []).append((f, n, True))
        todo = [f for f in self.funcs if f.n == "main"]
        while todo:
            f = todo.pop()
            if f.id in self.chain:
                continue
            self.chain.add(f.id)
            for n in walk(f.body):
                if n.get("k") == "ret" and n.get("e"):
                    for c in walk(n["e"]):
                        if c.get("k") == "call":
                            todo.extend(g for g in graph.targets(prog, c) if graph.own(prog, g))

    def failing(self, f, e):
        """Does returning e tell the callers of f about the failure?"""
        v = value(e)
        if f.id in self.chain:
            return v is not None and v != 0
        if f.rt == "void" or v is None and not (isinstance(peel(e), dict) and peel(e).get("k") == "null"):
            return False
        us = self.used.get(f.id, [])
        return bool(us) and all(u for _, _, u in us)

    def never_returns(self, g):
        if g.id not in self.memo:
            self.memo[g.id] = False
            self.memo[g.id] = g.body is not None and self.ends(g.body, None)
        return self.memo[g.id]

    def expr_ends(self, e):
        for n in walk(e):
            if n.get("k") == "throw":
                return True
            if n.get("k") == "call":
                if short(n) in ENDS:
                    return not short(n).endswith("exit") or value((n.get("a") or [None])[0]) != 0
                ts = graph.targets(self.prog, n)
                if ts and all(self.never_returns(g) for g in ts):
                    return True
        return False

    def ends(self, s, f):
        if s is None:
            return False
        if isinstance(s, list):
            return any(self.ends(x, f) for x in s)
        k = s.get("k")
        if k == "block":
            return self.ends(s.get("body"), f)
        if k == "if":
            return self.expr_ends(s.get("c")) or (s.get("else") is not None and self.ends(s.get("then"), f) and self.ends(s.get("else"), f))
        if k == "throw":
            return True
        if k == "ret":
            return f is not None and self.failing(f, s.get("e"))
        if k == "try":
            return self.ends(s["body"], f) and all(self.ends(h["body"], f) for h in s["h"])
        if k in ("for", "while", "range", "switch", "do", "omp"):
            return False
        if k == "decl":
            return any(self.expr_ends(v.get("init")) for v in s.get("v") or [] if v.get("init"))
        return self.expr_ends(s)

    def flagged(self, h, rest, f):
        """The handler leaves a mark that the statements after it turn into an error."""
        marks = [name_of(n["lhs"]) for n in walk(h["body"]) if n.get("k") == "asg"]
        for s in rest:
            if s.get("k") == "if" and any(n.get("k") in ("var", "mem") and name_of(n) in marks for n in walk(s["c"])):
                if self.ends(s.get("then"), f) or self.ends(s.get("else"), f):
                    return True
        return False


def tries(b):
    """(try, the statements that follow it in its block)."""
    def blocks(n):
        if isinstance(n, list):
            if n and isinstance(n[0], dict) and "k" in n[0]:
                yield n
            for x in n:
                yield from blocks(x)
        elif isinstance(n, dict):
            for v in n.values():
                if isinstance(v, (dict, list)):
                    yield from blocks(v)
    seen = set()
    for l in blocks(b):
        for i, s in enumerate(l):
            if isinstance(s, dict) and s.get("k") == "try" and id(s) not in seen:
                seen.add(id(s))
                yield s, l[i + 1:]


def guarded(n, under=False):
    """(node, stands inside a try that catches everything)."""
    if isinstance(n, list):
        for x in n:
            yield from guarded(x, under)
    elif isinstance(n, dict):
        if n.get("k") == "try":
            yield from guarded(n["body"], under or any(h.get("all") or "H5::Exception" in (h.get("t") or "") for h in n["h"]))
            for h in n["h"]:
                yield from guarded(h["body"], under)
            return
        if "k" in n:
            yield n, under
        for v in n.values():
            if isinstance(v, (dict, list)):
                yield from guarded(v, under)


def shows(prog, body, names, depth=3):
    """Is one of the named variables written to the screen?"""
    for n in walk(body):
        if n.get("k") != "call":
            continue
        args = ([n["obj"]] if n.get("obj") else []) + [a for a in n.get("a") or [] if a]
        if n.get("op") == "<<" or short(n) == "operator<<":
            vs = [x for a in args for x in walk(a) if x.get("k") == "var"]
            if any(v.get("n") in SCREEN for v in vs) and any(name_of(v) in names for v in vs):
                return True
        elif depth:
            for g in graph.targets(prog, n):
                if graph.own(prog, g):
                    pass_on = {("d", p["d"]) for p, a in zip(g.p, n.get("a") or [])
                               if a and any(x.get("k") == "var" and name_of(x) in names for x in walk(a))}
                    if pass_on and shows(prog, g.body, pass_on, depth - 1):
                        return True
    return False


def tested(flow, f, names, depth=2):
    """Is the state of one of the named streams tested, with a failure ending in an error?"""
    for n in walk(f.body):
        if n.get("k") == "if":
            hit = False
            for x in walk(n["c"]):
                if x.get("k") == "call" and (short(x) in TESTS or short(x).startswith("operator bool")):
                    o = x.get("obj") or (x.get("a") or [None])[0]
                    hit = hit or o is not None and any(name_of(v) in names for v in walk(o) if v.get("k") in ("var", "mem"))
                if x.get("k") in ("var", "mem") and name_of(x) in names and not any(t in (x.get("t") or "") for t in FILES):
                    hit = True
            if hit and (flow.ends(n.get("then"), f) or flow.ends(n.get("else"), f)):
                return True
        if depth and n.get("k") == "call":
            for g in graph.targets(flow.prog, n):
                if graph.own(flow.prog, g):
                    on = {("d", p["d"]) for p, a in zip(g.p, n.get("a") or []) if a and name_of(a) in names}
                    on |= {x for x in names if not isinstance(x, tuple) and "::" in x} if n.get("obj") is not None and g.cls == f.cls else set()
                    if on and tested(flow, g, on, depth - 1):
                        return True
    return False


def opened(f):
    """(stream, line) of the files a function opens."""
    for n in graph.parts(f):
        if n.get("k") == "decl":
            for v in n["v"]:
                if any(t in (v.get("t") or "") for t in FILES) and [a for a in (v.get("init") or {}).get("a") or [] if a and
                                                                    "open" not in (a.get("t") or "").lower()]:
                    yield ("d", v["d"]), v.get("l") or n["l"]
        if n.get("k") == "call" and short(n) == "open" and any(t in (n.get("ot") or "") for t in FILES):
            yield name_of(n["obj"]), n["l"]
    for i in f.inits or []:
        e = i.get("e") or i.get("init") or {}
        if any(t in (e.get("t") or "") for t in FILES) and [a for a in e.get("a") or [] if a and "open" not in (a.get("t") or "").lower()]:
            yield "%s::%s" % (f.clsn if "::" in (f.clsn or "") else f.n.rsplit("::", 1)[0], i.get("mem")), f.l


def reports(prog, f):
    """The function tells the user itself."""
    return any(n.get("k") == "throw" or n.get("k") == "call" and short(n) in ("Warn", "Error", "Fail") for n in walk(f.body))


def of_rules(flow, f):
    """(rule, holds, message, line) of one function."""
    prog = flow.prog
    for t, rest in tries(f.body):
        whole = len(f.body) == 1 and f.body[0] is t
        for h in t["h"]:
            ok = flow.ends(h["body"], f) or whole and (f.ctor or f.dtor) or flow.flagged(h, rest, f)
            yield "handlers", ok, "a handler lets the program carry on after an error", h["l"]
            if f.id in flow.chain and h.get("var"):
                yield "message", shows(prog, h["body"], {("d", h["var"]["d"])}), "the error is not shown to the user", h["l"]
    for n in graph.parts(f):
        k = n.get("k")
        if k == "throw" and n.get("t"):
            t = n["t"].replace("const ", "").replace("&", "").strip()
            yield "thrown", t.endswith("mocc::Exception"), "%s is thrown, which nothing reports" % t, n["l"]
        if k == "expr":
            e = peel(n.get("e"))
            if isinstance(e, dict) and e.get("k") == "ctor" and (e.get("t") or "").endswith("mocc::Exception"):
                yield "dropped", False, "an error is built and never thrown", n["l"]
            if isinstance(e, dict) and e.get("k") == "call" and e.get("op") not in ("=", "<<", ">>") and (
                    e.get("t") == "bool" and (any(graph.own(prog, g) and not reports(prog, g) for g in graph.targets(prog, e)) or
                                              short(e) in ("regex_match", "regex_search"))
                    or "xml_parse_result" in (e.get("t") or "")):
                yield "results", False, "whether %s succeeded is not looked at" % short(e), n["l"]
        if k == "ctor" and (n.get("t") or "").endswith("mocc::Exception") and not n.get("copy"):
            yield "dropped", True, "", n["l"]
        if k == "call" and n.get("t") == "bool" and any(graph.own(prog, g) for g in graph.targets(prog, n)):
            yield "results", True, "", n["l"]
        if k == "call" and short(n) in ("exit", "_exit", "quick_exit"):
            yield "status", value(n["a"][0]) not in (0, None), "the program ends with a status that does not tell of the error", n["l"]
        if k == "decl":
            for v in n["v"]:
                if "xml_parse_result" in (v.get("t") or ""):
                    yield "files", tested(flow, f, {("d", v["d"])}), "the result of parsing the document is not tested", n["l"]
    for s, l in opened(f):
        yield "files", tested(flow, f, {s}), "whether the file could be opened is not tested", l


def library(flow, f):
    """Lines of calls of the HDF5 library outside every handler of f."""
    for n, under in guarded([f.inits or [], f.body]):
        if n.get("k") in ("call", "ctor", "new") and not under:
            fn = n.get("fn") or ""
            if fn.startswith("H5::") and not (short(n) in QUIET and (n["k"] == "call" or n.get("dflt") or n.get("copy"))):
                yield n


def covered(flow, f, seen=()):
    """All callers of f call it from inside handlers that catch everything."""
    us = flow.used.get(f.id, [])
    if not us or f.id in seen:
        return False
    for g, n, _ in us:
        under = [u for m, u in guarded([g.inits or [], g.body]) if m is n]
        if not all(under) and not covered(flow, g, seen + (f.id,)):
            return False
    return True


RULES = {
    "handlers": "every handler ends in an error on all its paths",
    "message": "the handler that decides the exit status shows the error",
    "thrown": "only the program's own exception is thrown",
    "dropped": "an error that is built is thrown or passed on",
    "results": "the answer of a function that reports success or failure is used",
    "status": "the program ends with a nonzero status after an error",
    "files": "files that are opened and documents that are parsed are tested",
    "library": "failures of the HDF5 library are caught and reported",
}
LEAST = {"handlers": 20, "message": 1, "thrown": 150, "dropped": 150, "results": 20, "status": 3, "files": 5, "library": 25}


def check(ck):
    model.load_spec(ck.prog, "c26")
    flow = Flow(ck.prog)
    # the rules notice the constructs they are about
    for f in [f for f in ck.prog.funcs.values() if f.n.startswith("ref::") and f.where.startswith("spec/c26") or f.file.endswith("spec/c26.cpp")]:
        if f.body is None:
            continue
        want = f.short.split("__")
        got = {r for r, ok, _, _ in of_rules(flow, f) if not ok} | ({"library"} if list(library(flow, f)) else set())
        if want[0] == "bad" and want[1] not in got or want[0] == "good" and got:
            raise AnalysisBroken("C26: the rule does not judge its example %s (%s)" % (f.n, sorted(got)))
    for r, t in RULES.items():
        ck.rule(r, t)
    n = dict.fromkeys(RULES, 0)
    for f in flow.funcs:
        hit = False
        for r, ok, msg, l in of_rules(flow, f):
            n[r] += 1
            hit = True
            ck.cur = r
            ck.ok(ok, f.n, msg, "%s:%s" % (f.rel, l))
        ls = list(library(flow, f))
        inside = [m for m, u in guarded([f.inits or [], f.body]) if u and m.get("k") in ("call", "ctor") and (m.get("fn") or "").startswith("H5::")]
        ck.cur = "library"
        for m in inside:
            n["library"] += 1
            ck.ok(True, f.n, "", "%s:%s" % (f.rel, m["l"]))
        for m in ls:
            n["library"] += 1
            ck.ok(covered(flow, f), f.n, "%s may fail outside every handler" % m["fn"], "%s:%s" % (f.rel, m["l"]))
        if hit or ls or inside:
            ck.functions.add(f.n)
    ck.cur = "status"
    for name in ("Error", "Fail"):
        f = ck.f1("mocc::" + name)
        ck.ok(flow.never_returns(f), f.n, "%s returns to its caller" % name, f.where)
        ck.ok(shows(ck.prog, f.body, {("d", p["d"]) for p in f.p}), f.n, "%s does not show the error" % name, f.where)
    main = ck.f1("main")
    rets = [m for m in walk(main.body) if m.get("k") == "ret"]
    for m in rets:
        # the status of the run, directly or through a variable
        names = {name_of(v) for v in walk(m.get("e")) if v.get("k") == "var"}
        srcs = [m.get("e")] + [v.get("init") for d in walk(main.body) if d.get("k") == "decl" for v in d["v"] if ("d", v["d"]) in names] + \
            [a["rhs"] for a in walk(main.body) if a.get("k") == "asg" and name_of(a["lhs"]) in names]
        ck.ok(any(c.get("k") == "call" and any(graph.own(ck.prog, g) for g in graph.targets(ck.prog, c)) for s in srcs for c in walk(s))
              or value(m.get("e")) not in (0, None), main.n, "the status of the run is not the exit status", "%s:%s" % (main.rel, m["l"]))
    if not rets:
        ck.ok(False, main.n, "the status of the run is not the exit status", main.where)
    for r, c in n.items():
        if c < LEAST[r]:
            raise AnalysisBroken("C26/%s: %d constructs, at least %d expected" % (r, c, LEAST[r]))
