"""Definite initialisation.

A forward must-analysis over one function's statements: which of the scalars
that begin without a value (local variables, members of the object under
construction, members of objects whose constructor leaves them) have certainly
been given one at each point.  A read of one that has not is recorded, and so is
the set certain at every normal exit.  Calls are followed through summaries: what
they read first and what they certainly set of an object they are given.
"""
import re

from model import walk

NUMBER = re.compile(r"^(const )?(volatile )?(unsigned |signed )?(bool|char|short|int|long|long long|float|double|"
                    r"long double|unsigned|size_t|std::size_t|real_t|mocc::real_t)( const)?$")
WRITES = {"=", "+=", "-=", "*=", "/=", "%=", "|=", "&=", "^=", "<<=", ">>="}
FOLLOW = 6


def scalar(prog, t):
    """Whether a value of this type is left indeterminate by default."""
    t = t.strip()
    if NUMBER.match(t):
        return True
    if t.endswith("*") or t.endswith("* const"):
        return True
    return re.sub(r"^const ", "", t) in names(prog)


def names(prog):
    memo = prog.__dict__.get("_enumnames")
    if memo is None:
        memo = set()
        for e in prog.enums.values():
            memo.add(e["n"])
        prog.__dict__["_enumnames"] = memo
    return memo


def fields(prog, cls):
    """The indeterminate fields of a class of the repository, by name."""
    return {f["n"]: f for f in cls["fields"] if scalar(prog, f["t"])}


def strip(n):
    while isinstance(n, dict) and n.get("k") in ("cast", "expr", "paren"):
        n = n["e"]
    return n


def record(prog, t):
    """The class of the repository that a type names."""
    t = re.sub(r"^(const )", "", t.strip())
    memo = prog.__dict__.get("_bytype")
    if memo is None:
        memo = {}
        for c in prog.classes.values():
            memo.setdefault(c["t"], c)
            memo.setdefault(c["n"], c)
        prog.__dict__["_bytype"] = memo
    return memo.get(t)


def path(n):
    """('V', d, names...) or ('T', names...): the object an lvalue names, from
    a local variable, a parameter or the current object; None otherwise."""
    n = strip(n)
    names = []
    while isinstance(n, dict):
        k = n.get("k")
        if k == "mem":
            if n.get("arrow") and strip(n["b"]).get("k") != "this":
                return None
            names.append(n["n"])
            n = strip(n["b"])
            continue
        if k == "un" and n.get("op") == "*" and strip(n["e"]).get("k") == "this":
            n = strip(n["e"])
            continue
        if k == "this":
            return ("T",) + tuple(reversed(names))
        if k == "var" and n.get("vk") in ("local", "param"):
            return ("V", n.get("d")) + tuple(reversed(names))
        return None
    return None


class Flow:
    def __init__(self, prog, f, track=(), depth=0):
        self.prog, self.f, self.depth = prog, f, depth
        self.track = set(track)         # paths whose value may be unset
        self.name = {}                  # local variables by number
        self.S = frozenset()            # None: unreachable
        self.exits = []                 # states at normal exits
        self.early = []                 # (path, line): read before set
        self.told = set()
        self.jump = []                  # break / continue collectors
        self.reads = 0
        self.quiet = 0

    # ------------------------------------------------------------- state
    def set(self, key):
        """A path, and all that is under it, has a value."""
        if self.S is None or key is None:
            return
        n = len(key)
        add = [k for k in self.track if k[:n] == key]
        if add:
            self.S = self.S | set(add)

    def unset(self, key, label=None):
        self.track.add(key)
        if self.S is not None:
            self.S = self.S - {key}

    def read(self, key, line):
        if key is None or self.S is None or key not in self.track:
            return
        self.reads += 1
        if key not in self.S and key not in self.told and not self.quiet:
            self.told.add(key)
            self.early.append((key, line))

    def under(self, key):
        n = len(key)
        return [k for k in self.track if k[:n] == key and len(k) > n]

    @staticmethod
    def meet(states):
        states = [s for s in states if s is not None]
        if not states:
            return None
        r = states[0]
        for s in states[1:]:
            r = r & s
        return r

    def key(self, n):
        """The tracked scalar an lvalue expression names."""
        p = path(n)
        return p if p is not None and p in self.track else None

    def label(self, key):
        if key[0] == "V":
            return ".".join([self.name.get(key[1], "?")] + list(key[2:]))
        return ".".join(key[1:])

    # -------------------------------------------------------- expressions
    def expr(self, n):
        if n is None or self.S is None:
            return
        if isinstance(n, list):
            for x in n:
                self.expr(x)
            return
        if not isinstance(n, dict):
            return
        k = n.get("k")
        if k in STATEMENTS:
            self.stmt(n)
            return
        if k in ("cast", "expr", "paren"):
            self.expr(n["e"])
            return
        if k == "asg":
            self.expr(n["rhs"])
            key = self.key(n["lhs"])
            if key is None:
                self.expr(n["lhs"])
            else:
                if n.get("op", "=") != "=":
                    self.read(key, n.get("l"))
                self.set(key)
            return
        if k == "un":
            key = self.key(n["e"])
            if n["op"] == "&" and key is not None:
                self.set(key)
                return
            if n["op"] == "&" and path(n["e"]) is not None:
                self.set(path(n["e"])) if path(n["e"]) != ("T",) else None
                return
            self.expr(n["e"])
            return
        if k == "bin":
            if n["op"] in ("&&", "||"):
                self.expr(n["a"] if "a" in n else n.get("lhs"))
                s = self.S
                self.expr(n["b"] if "b" in n else n.get("rhs"))
                self.S = s if self.S is None else s
                return
            for x in ("a", "lhs", "b", "rhs"):
                if x in n:
                    self.expr(n[x])
            return
        if k == "cond":
            self.expr(n["c"])
            s = self.S
            out = []
            for x in ("t", "a", "then"):
                if isinstance(n.get(x), (dict, list)):
                    self.S = s
                    self.expr(n[x])
                    out.append(self.S)
                    break
            for x in ("e", "b", "f", "else"):
                if isinstance(n.get(x), (dict, list)):
                    self.S = s
                    self.expr(n[x])
                    out.append(self.S)
                    break
            self.S = self.meet(out) if out else s
            return
        if k in ("call", "ctor"):
            self.call(n)
            return
        if k == "throw":
            self.expr(n.get("e"))
            self.S = None
            return
        if k == "lambda":
            # its body runs later, if at all; what it sets is not certain and
            # what it reads is judged where it is written
            s = self.S
            self.quiet += 1
            saved = self.exits
            self.exits = []
            self.block(n.get("body"))
            self.exits = saved
            self.quiet -= 1
            self.S = s
            return
        if k in ("var", "mem"):
            key = self.key(n)
            if key is not None:
                self.read(key, n.get("l"))
            elif path(n) is not None:
                if path(n) != ("T",):
                    self.set(path(n))       # named as a whole: given away
            elif k == "mem":
                self.expr(n["b"])
            return
        if k in ("sizeof", "int", "flt", "str", "bool", "chr", "enum", "null", "this", "fref"):
            return
        for x in n:
            if isinstance(n[x], (dict, list)) and x not in ("pt",):
                self.expr(n[x])

    def give(self, p, t, line, g=None, i=None):
        """An object handed to a function as argument i of type t."""
        rest = self.under(p)
        if not rest:
            return
        if g is not None and g.body is not None and t.rstrip().endswith("&") and i < len(g.p):
            r, w = summary(self.prog, g, ("V", g.p[i].get("d")), frozenset(k[len(p):] for k in rest), self.depth + 1)
            for m in r:
                self.read(p + m, line)
            for m in w:
                self.set(p + m)
            return
        # copied, or gone to code that is not the repository's
        self.set(p)

    def call(self, n):
        obj = n.get("obj")
        args = n.get("a") or []
        pts = n.get("pt") or []
        g = self.prog.funcs.get(n.get("f"))
        if n.get("k") == "call" and n.get("op") == "=" and obj is not None:
            self.expr(args)
            p = path(obj)
            if p is not None:
                self.set(p)
            else:
                self.expr(obj)
            return
        if obj is not None and path(obj) is None:
            self.expr(obj)
        for i, a in enumerate(args):
            t = pts[i] if i < len(pts) else ""
            key = self.key(a)
            p = path(a)
            if key is not None and t.endswith("&") and not t.startswith("const ") and "const &" not in t:
                if g is not None and g.body is not None and i < len(g.p):
                    r, w = summary(self.prog, g, ("V", g.p[i].get("d")), frozenset([()]), self.depth + 1)
                    if r:
                        self.read(key, n.get("l"))
                    if w:
                        self.set(key)
                else:
                    self.set(key)
            elif key is None and p is not None and self.under(p):
                self.give(p, t, n.get("l"), g, i)
            else:
                self.expr(a)
        if n.get("op") in (">>",):
            for a in args:
                self.set(self.key(a))
        if self.S is None:
            return
        if n.get("noret"):
            self.S = None
            return
        p = path(obj) if obj is not None else None
        if p is None:
            return
        rest = self.under(p)
        if not rest:
            return
        if g is None or g.body is None:
            if p != ("T",):
                self.set(p)
            return
        r, w = summary(self.prog, g, ("T",), frozenset(k[len(p):] for k in rest), self.depth + 1)
        for m in r:
            self.read(p + m, n.get("l"))
        for m in w:
            self.set(p + m)

    # --------------------------------------------------------- statements
    def stmts(self, body):
        for s in body or []:
            if self.S is None:
                # labels of a switch may bring it back to life; handled there
                return
            self.stmt(s)

    def block(self, b):
        if b is None:
            return
        if isinstance(b, list):
            self.stmts(b)
        else:
            self.stmt(b)

    def declare(self, v):
        t = v.get("t", "")
        if v.get("static"):
            return
        key = ("V", v.get("d"))
        self.name[v.get("d")] = v.get("n")
        init = v.get("init")
        if init is None:
            if scalar(self.prog, t):
                self.unset(key)
            return
        i = strip(init)
        if i.get("k") == "ctor" and not t.rstrip().endswith("&"):
            self.expr(init)
            for m in left(self.prog, i, self.depth + 1):
                self.unset(key + m)
            return
        if t.rstrip().endswith("&"):
            # a name for something: it may be set through it
            p = path(init)
            if p is not None:
                self.set(p) if p != ("T",) else None
                return
        self.expr(init)

    def loop(self, n, cond, body, inc, once=False):
        """One pass, then the state after zero or more."""
        self.expr(cond)
        before = self.S
        always = cond is None or strip(cond).get("k") == "bool" and strip(cond).get("v") is True
        self.jump.append({"break": [], "continue": []})
        self.block(body)
        j = self.jump.pop()
        end = self.meet([self.S] + j["continue"])
        self.S = end
        self.expr(inc)
        end = self.S
        if always:
            self.S = self.meet(j["break"])
        elif once:
            self.S = self.meet([end] + j["break"])
        else:
            self.S = self.meet([before] + j["break"])

    def runs(self, n):
        """Whether a counted loop certainly runs: fixed bounds."""
        i, c = n.get("init"), n.get("c")
        try:
            if i["k"] == "decl" and len(i["v"]) == 1 and c is not None:
                v = i["v"][0]
                a = strip(v["init"])
                c = strip(c)
                x, y = strip(c.get("a", c.get("lhs"))), strip(c.get("b", c.get("rhs")))
                if x.get("k") == "var" and x.get("d") == v["d"] and a["k"] == "int" and y["k"] == "int":
                    lo, hi = int(a["v"]), int(y["v"])
                    return lo < hi if c["op"] == "<" else lo <= hi if c["op"] == "<=" else \
                        lo > hi if c["op"] == ">" else lo >= hi if c["op"] == ">=" else False
        except (KeyError, TypeError, ValueError, AttributeError):
            pass
        return False

    def stmt(self, n):
        if self.S is None or n is None:
            return
        if isinstance(n, list):
            self.stmts(n)
            return
        k = n.get("k")
        if k == "block":
            self.stmts(n["body"])
        elif k == "decl":
            for v in n["v"]:
                self.declare(v)
        elif k == "if":
            if n.get("init"):
                self.stmt(n["init"])
            if n.get("cv"):
                self.declare(n["cv"])
            self.expr(n["c"])
            s = self.S
            self.block(n.get("then"))
            a = self.S
            self.S = s
            self.block(n.get("else"))
            self.S = self.meet([a, self.S])
        elif k == "for":
            self.block(n.get("init"))
            self.loop(n, n.get("c"), n["body"], n.get("inc"), self.runs(n))
        elif k == "range":
            self.expr(n["r"])
            before = self.S
            r = strip(n["r"])
            self.jump.append({"break": [], "continue": []})
            self.block(n["body"])
            j = self.jump.pop()
            if r.get("k") == "ilist" or "initializer_list" in n.get("rt", ""):
                self.S = self.meet([self.S] + j["continue"] + j["break"])
            else:
                self.S = self.meet([before] + j["break"])
            del before
        elif k == "while":
            if n.get("cv"):
                self.declare(n["cv"])
            self.loop(n, n["c"], n["body"], None)
        elif k == "do":
            self.jump.append({"break": [], "continue": []})
            self.block(n["body"])
            j = self.jump.pop()
            self.S = self.meet([self.S] + j["continue"])
            self.expr(n["c"])
            self.S = self.meet([self.S] + j["break"])
        elif k == "switch":
            if n.get("init"):
                self.stmt(n["init"])
            self.expr(n["c"])
            entry = self.S
            self.jump.append({"break": [], "continue": None})
            self.S = None
            default = [False]
            self.cases(n["body"], entry, default)
            j = self.jump.pop()
            out = [self.S] + j["break"]
            if not default[0] and not n.get("all"):
                out.append(entry)
            self.S = self.meet(out)
        elif k in ("break", "continue"):
            for j in reversed(self.jump):
                if j[k] is not None:
                    j[k].append(self.S)
                    break
            self.S = None
        elif k == "ret":
            if self.f.rt.rstrip().endswith("&") and self.depth and self.key(n.get("e")) is not None:
                self.set(self.key(n["e"]))      # handed out to be set or read
            else:
                self.expr(n.get("e"))
            if self.S is not None:
                self.exits.append(self.S)
            self.S = None
        elif k == "try":
            s = self.S
            self.block(n["body"])
            out = [self.S]
            for h in n["h"]:
                self.S = s
                self.block(h["body"])
                out.append(self.S)
            self.S = self.meet(out)
        elif k == "omp":
            for c in n.get("cl") or []:
                if c["n"] == "private":
                    for v in c["v"]:
                        v = strip(v)
                        if v.get("k") == "var" and v.get("vk") in ("local", "param"):
                            if scalar(self.prog, v.get("t", "")):
                                self.name[v.get("d")] = v.get("n")
                                self.unset(("V", v.get("d")))
                else:
                    self.expr(c["v"]) if c["n"] in ("num_threads", "if") else None
            self.block(n["body"])
        elif k in ("case", "default"):
            self.block(n["body"])
        else:
            self.expr(n)

    def cases(self, body, entry, default):
        for s in body or []:
            x = s
            while isinstance(x, dict) and x.get("k") in ("case", "default"):
                if x["k"] == "default":
                    default[0] = True
                self.S = self.meet([self.S, entry])
                b = x["body"]
                b = b if isinstance(b, list) else [b]
                if len(b) == 1 and b[0].get("k") in ("case", "default"):
                    x = b[0]
                    continue
                self.stmts(b)
                x = None
            if x is not None:
                if isinstance(x, dict) and x.get("k") == "block":
                    self.cases(x["body"], entry, default)
                elif self.S is not None:
                    self.stmt(x)

    # ------------------------------------------------------------ function
    def run(self):
        f = self.f
        for i in f.inits or []:
            e = strip(i.get("e"))
            self.expr(i.get("e"))
            if self.S is None:
                break
            if i.get("deleg") or i.get("base"):
                if i.get("deleg"):
                    self.set(("T",))
                gone = left(self.prog, e, self.depth + 1) if isinstance(e, dict) and e.get("k") == "ctor" else ()
                for m in gone:
                    self.unset(("T",) + m)
            elif i.get("mem"):
                self.set(("T", i["mem"]))
                if isinstance(e, dict) and e.get("k") == "ctor":
                    for m in left(self.prog, e, self.depth + 1):
                        self.unset(("T", i["mem"]) + m)
        self.stmts(f.body)
        if self.S is not None:
            self.exits.append(self.S)
        return self


STATEMENTS = {"block", "decl", "if", "for", "range", "while", "do", "switch", "case", "default", "break",
              "continue", "ret", "try", "omp"}


def owner(prog, f):
    """The class a member function belongs to."""
    for t in (f.cls, f.clsn):
        if t:
            c = prog.classes.get(t) or record(prog, t)
            if c is not None:
                return c
    return None


def made(prog, f, depth=0):
    """The flow of a constructor, its own indeterminate members tracked."""
    memo = prog.__dict__.setdefault("_made", {})
    if f.id not in memo:
        c = owner(prog, f)
        fl = Flow(prog, f, [("T", m) for m, d in (fields(prog, c) if c else {}).items() if d.get("init") is None],
                  depth)
        memo[f.id] = fl
        if not f.copy:
            fl.run()
    return memo[f.id]


def left(prog, n, depth=0):
    """The relative paths a constructor call leaves without a value."""
    if depth > FOLLOW or n.get("copy"):
        return frozenset()
    f = prog.funcs.get(n.get("f"))
    if f is None or f.body is None:
        if not n.get("dflt"):
            return frozenset()
        c = record(prog, n.get("t", ""))
        return bare(prog, c) if c is not None else frozenset()
    return unset(prog, f, depth)


def bare(prog, c):
    """What an implicit default constructor leaves."""
    if c.get("union"):
        return frozenset()
    return frozenset((m,) for m, d in fields(prog, c).items() if d.get("init") is None)


def unset(prog, f, depth=0):
    memo = prog.__dict__.setdefault("_unset", {})
    if f.id not in memo:
        memo[f.id] = frozenset()
        if not f.copy:
            fl = made(prog, f, depth)
            out = Flow.meet(fl.exits)
            if out is not None:
                memo[f.id] = frozenset(k[1:] for k in fl.track if k[0] == "T" and k not in out)
    return memo[f.id]


def summary(prog, g, root, rels, depth=0):
    """({paths read before they are set}, {paths certainly set}) of what a
    function does with the object at root."""
    memo = prog.__dict__.setdefault("_initsum", {})
    key = (g.id, root, rels)
    if key in memo:
        return memo[key]
    memo[key] = (frozenset(), frozenset())
    if depth > FOLLOW:
        return memo[key]
    fl = Flow(prog, g, [root + r for r in rels], depth)
    fl.run()
    n = len(root)
    r = frozenset(k[n:] for k, line in fl.early if k[:n] == root and k[n:] in rels)
    out = Flow.meet(fl.exits)
    w = rels if out is None else frozenset(x for x in rels if root + x in out)
    memo[key] = (r, w)
    return memo[key]
