"""What each integer of the program counts or numbers.

Every integer variable, member, parameter and result, every element of a
container of integers and every dimension of an array stands for one kind of
thing: energy groups, flat source regions, coarse mesh cells, surfaces, angles,
planes...  Which it is follows from how it is used: a subscript is of the kind
of the dimension it selects in, a loop variable of the kind of the count that
bounds it, an argument of the kind of its parameter, an array of the kinds of
the counts it was sized with.  `Kinds` unifies all of these over the whole
program, starting from a few results and members whose kind their meaning
fixes, and keeps every place at which two different kinds meet.
"""
import re

import model

INTS = {"int", "unsigned int", "unsigned long", "long", "unsigned short", "short", "size_t", "std::size_t",
        "unsigned long long", "long long", "hsize_t"}


def bare(t):
    t = (t or "").strip()
    while True:
        u = re.sub(r"^(const|volatile) ", "", t)
        u = re.sub(r" ?[&*]+( ?const)?$", "", u).strip()
        u = re.sub(r" const$", "", u)
        if u == t:
            return t
        t = u


def integer(t):
    return bare(t) in INTS


def array(t):
    return bare(t).startswith("blitz::Array<")


def sequence(t):
    return bare(t).startswith(("std::vector<", "std::deque<", "std::array<", "std::list<", "std::map<", "std::set<",
                               "std::initializer_list<", "blitz::TinyVector<", "Eigen::Matrix<", "std::pair<",
                               "__gnu_cxx::__normal_iterator", "std::_Rb_tree", "std::reverse_iterator"))


def pointer(t):
    t = re.sub(r"^const ", "", (t or "").strip())
    return t.rstrip("const ").endswith("*") or t.startswith(("std::shared_ptr<", "std::unique_ptr<",
                                                            "std::__shared_ptr"))


def owner(usr):
    """Qualified name of the class a method belongs to."""
    m = re.match(r"c:((?:@[NS]T?@[^@#]+)+)@F", usr or "")
    return "::".join(re.sub(r">#.*", "", x) for x in re.findall(r"@[NS]T?@([^@#]+)", m.group(1))) if m else ""


class Node:
    __slots__ = ("up", "kind", "kids", "name", "why")

    def __init__(self, name):
        self.up = None
        self.kind = None
        self.kids = None
        self.name = name
        self.why = None


class Kinds:
    def __init__(self, prog, seeds, generic=(), tag=None, renamed=None, first=None, chosen=None, containers=None, example=None, backwards=False):
        self.prog = prog
        self.backwards = backwards
        self.example = example
        self.containers = containers or {}
        self.chosen = chosen or {}
        self.tag = tag or (lambda cls, obj, f: "")
        self.renamed = renamed or {}
        self.first = first
        self.seeds = seeds
        self.generic = generic
        self.nodes = {}
        self._mixed = {}
        self.counts = set()
        self.loops = []
        self.round = {}
        self.test = False
        self.clashes = []
        self.meetings = 0
        self.subscripts = 0
        self.typed = []
        self.here = None
        self.at = 0

    # -- union ------------------------------------------------------------
    def find(self, a):
        r = a
        while r.up is not None:
            r = r.up
        while a.up is not None:
            a.up, a = r, a.up
        return r

    def node(self, key):
        n = self.nodes.get(key)
        if n is None:
            n = self.nodes[key] = Node(key)
            if self.first is not None and (key[-1] in self.renamed or self.example and key[0] in "MRP"):
                o = self.first.nodes.get(key[:-1] + ("",))
                if o is not None:
                    self.copied(n, self.first.find(o), self.renamed.get(key[-1], {}), 0)
        return self.find(n)

    def instance(self, key):
        """A parameter or result as this call sees it: of the kinds the
        function itself gives it, and otherwise of any."""
        n = Node(key)
        o = self.first.nodes.get(key[:-1] + ("",)) if self.first is not None else None
        if o is not None:
            self.copied(n, self.first.find(o), self.renamed.get(key[-1], {}), 0)
        return n

    def copied(self, n, o, names, depth):
        """What the first pass found of the class applies to this use of it,
        under the names the kinds have here."""
        if o.kind:
            n.kind, n.why = names.get(o.kind, o.kind), o.why
        if depth < 3:
            for k, v in (o.kids or {}).items():
                self.copied(self.kid(n, k), self.first.find(v), names, depth + 1)

    def kid(self, a, k):
        a = self.find(a)
        if a.kids is None:
            a.kids = {}
        n = a.kids.get(k)
        if n is None:
            n = a.kids[k] = Node((a.name, k))
        return self.find(n)

    def meet(self, a, b, what, line=None):
        """The two stand for the same kind."""
        if a is None or b is None:
            return
        self.meetings += 1
        todo = [(a, b)]
        while todo:
            a, b = todo.pop()
            a, b = self.find(a), self.find(b)
            if a is b:
                continue
            if a.kind and b.kind and a.kind != b.kind:
                self.clashes.append((self.here, line or self.at, a.kind, a.why, b.kind, b.why, what))
                continue
            b.up = a
            if b.kind and not a.kind:
                a.kind, a.why = b.kind, b.why
            for k, v in (b.kids or {}).items():
                if a.kids is None:
                    a.kids = {}
                if k in a.kids:
                    todo.append((a.kids[k], v))
                else:
                    a.kids[k] = v

    def kind(self, a):
        return None if a is None else self.find(a).kind

    def seed(self, a, kind, why):
        a = self.find(a)
        if a.kind and a.kind != kind:
            self.clashes.append((self.here, self.at, a.kind, a.why, kind, why, "given"))
            return
        a.kind, a.why = kind, why

    # -- program ----------------------------------------------------------
    def run(self):
        fs = sorted((f for f in self.prog.funcs.values() if self.of(f)), key=lambda f: (f.rel, f.l, f.id), reverse=self.backwards)
        for key, kind in self.seeds.items():
            name, path = key[0], key[1:]
            a = self.node(name)
            for k in path:
                a = self.kid(a, k)
            self.seed(a, kind, name)
        for f in fs:
            self.here, self.at = f, f.l
            for o in f.over:
                t = self.tag(owner(o), None, f)
                self.meet(self.node(("R", f.id, "")), self.node(("R", o, t)), "overriding function's result")
                for i in range(len(f.p)):
                    self.meet(self.node(("P", f.id, i, "")), self.node(("P", o, i, t)),
                              "overriding function's parameter")
            for q, p in enumerate(f.p):
                self.meet(self.node(("V", f.id, p["d"])), self.node(("P", f.id, q, "")), "parameter")
            for i in f.inits or []:
                self.at = i.get("l") or f.l
                if i.get("mem") is not None:
                    q = self.member(f, i["mem"])
                    m = self.node(("M", q, self.tag(q.rsplit("::", 1)[0], None, f)))
                    self.init(m, i.get("e"), "member initialiser")
                elif i.get("e") is not None:
                    self.ev(i["e"])
            self.stmts(f.body)
        return self

    def of(self, f):
        if self.example is not None:
            return f.n == self.example
        return f.rel.startswith("src/") and not f.n.startswith("ref::")

    def member(self, f, n):
        for t in self.prog.all_bases(f.clsn or f.cls or ""):
            c = self.prog.classes.get(t)
            if c and any(x["n"] == n for x in c["fields"]):
                return c["n"] + "::" + n
        return (bare(f.cls or "") or f.n.rsplit("::", 1)[0]) + "::" + n

    def mixed(self):
        """Local containers handed to functions whose parameters are of no one
        kind (the extents of a dataset, say): their elements are of none."""
        f = self.here
        if f.id not in self._mixed:
            out, used, own = set(), set(), set()
            for b in [f.body] + [i.get("e") for i in f.inits or []]:
                for n in model.walk(b) if b is not None else ():
                    if n["k"] in ("call", "ctor") and (n.get("fn") or "").startswith(self.generic):
                        for x in n.get("a") or []:
                            y = self.strip(x)
                            if y.get("k") == "var":
                                out.add(y.get("d"))
                    if n["k"] in ("sub", "range") or (n["k"] == "call" and n.get("op") == "[]") or (
                            n["k"] in ("call", "ctor") and (n.get("fn") or "").startswith("mocc::")
                            and not (n.get("fn") or "").startswith(self.generic)):
                        for x in ([n.get("obj"), n.get("r"), n.get("b")] if n["k"] != "ctor" else []) + (
                                n.get("a") if n["k"] in ("call", "ctor") and not n.get("op") else []):
                            y = self.strip(x) if isinstance(x, dict) else {}
                            if y.get("k") == "var":
                                used.add(y.get("d"))
                    if n["k"] == "decl":
                        own.update(v.get("d") for v in n["v"] if bare(v.get("t")).startswith("std::vector<"))
            out |= own - used
            out.discard(None)
            self._mixed[f.id] = out
        return self._mixed[f.id]

    # -- statements -------------------------------------------------------
    def stmts(self, b):
        if b is None:
            return
        if isinstance(b, list):
            for x in b:
                self.stmt(x)
        else:
            self.stmt(b)

    def again(self, n):
        """A loop that starts a variable declared before it anew may count
        something else with it."""
        e = n.get("e") if n and n.get("k") == "expr" else n
        if e and e.get("k") == "asg" and e["op"] == "=" and e["lhs"].get("k") == "var" and self.const(e["rhs"]):
            d = (self.here.id, e["lhs"].get("d"))
            self.round[d] = self.round.get(d, 0) + 1

    def local(self, d):
        r = self.round.get((self.here.id, d), 0)
        return self.node(("V", self.here.id, d) if not r else ("V", self.here.id, d, r, "v"))

    def var(self, v, what):
        a = self.local(v["d"])
        if v.get("init") is not None:
            self.init(a, v["init"], what)
        return a

    def stmt(self, n):
        if n is None:
            return
        k = n.get("k")
        if n.get("l"):
            self.at = n["l"]
        if k == "decl":
            for v in n["v"]:
                if "d" in v:
                    self.var(v, "initialisation")
        elif k == "expr":
            self.ev(n["e"])
        elif k == "block":
            self.stmts(n["body"])
        elif k == "if":
            self.stmts(n.get("init"))
            self.stmts(n.get("cv"))
            self.test = True
            self.ev(n.get("c"))
            self.test = False
            self.stmts(n.get("then"))
            self.stmts(n.get("else"))
        elif k in ("for",):
            self.loops.append((self.here, n))
            self.again(n.get("init"))
            self.stmts(n.get("init"))
            self.ev(n.get("c"))
            self.ev(n.get("inc"))
            self.stmts(n.get("body"))
        elif k in ("while", "do"):
            self.ev(n.get("c"))
            self.stmts(n.get("body"))
        elif k == "range":
            r = self.ev(n["r"])
            v = self.local(n["var"]["d"])
            if r is not None:
                self.meet(v, self.kid(r, "e"), "element of the range")
            self.stmts(n.get("body"))
        elif k == "switch":
            self.ev(n.get("c"))
            self.stmts(n.get("body"))
        elif k in ("case", "default"):
            for x in ("s", "sub", "body", "stmt"):
                self.stmts(n.get(x))
        elif k == "ret":
            if n.get("e") is not None and self.here.n.startswith(self.generic):
                self.ev(n["e"])
            elif n.get("e") is not None:
                self.init(self.node(("R", self.here.id, "")), n["e"], "result")
        elif k == "try":
            self.stmts(n.get("body"))
            for h in n.get("h") or []:
                self.stmts(h.get("body"))
        elif k == "omp":
            self.stmts(n.get("body"))
        elif k == "throw":
            self.ev(n.get("e"))
        elif k in ("break", "continue", "null", "empty", None):
            pass
        else:
            self.ev(n)

    # -- expressions ------------------------------------------------------
    def init(self, a, e, what):
        """`a` is made from `e`."""
        if e is None:
            return
        x = self.strip(e)
        if x.get("k") == "ctor" and (array(x.get("t")) or sequence(x.get("t"))):
            self.sized(a, x.get("a") or [], x.get("t"))
            return
        if x.get("k") == "ilist":
            for v in x.get("a") or x.get("e") or []:
                b = self.ev(v)
                if b is not None and a.name[-1] not in self.mixed():
                    self.meet(self.kid(a, "e"), b, "element of the list")
            return
        self.meet(a, self.ev(e), what)

    def sized(self, a, args, t):
        args = [x for x in args if not bare(x.get("t") or "").startswith(
            ("std::allocator<", "blitz::GeneralArrayStorage<")) and x.get("k") != "dflt"]
        if not args:
            return
        if len(args) == 1 and not integer(self.type(args[0])):
            self.meet(a, self.ev(args[0]), "copy")
            return
        ints = all(integer(self.type(x)) for x in args)
        if array(t):
            if ints:
                for i, x in enumerate(args):
                    self.counts.add(self.key(x))
                    self.meet(self.kid(a, i), self.ev(x), "extent %d of the array" % (i + 1))
            else:
                for x in args:
                    self.ev(x)
            return
        if bare(t).startswith("std::pair<"):
            for i, x in enumerate(args[:2]):
                self.meet(self.kid(a, ("first", "second")[i]), self.ev(x), "pair")
            return
        if bare(t).startswith(("std::vector<", "std::deque<", "Eigen::Matrix<")) and integer(self.type(args[0])):
            self.counts.add(self.key(args[0]))
            self.meet(self.kid(a, 0), self.ev(args[0]), "size of the vector")
            if len(args) > 1:
                b = self.ev(args[1])
                if b is not None:
                    self.meet(self.kid(a, "e"), b, "element")
            return
        for x in args:
            self.ev(x)

    def strip(self, e):
        while isinstance(e, dict):
            if e.get("k") == "cast" and (integer(e.get("t")) or not integer(self.type(e["e"]))):
                e = e["e"]
            elif e.get("k") == "ctor" and len(e.get("a") or []) == 1 and (e.get("copy") or e.get("elid")):
                e = e["a"][0]
            else:
                return e
        return e

    def key(self, e):
        """What names a quantity: the same member, variable or function
        everywhere it is mentioned."""
        e = self.strip(e)
        k = e.get("k")
        if k == "var":
            return ("V", self.here.id, e["d"]) if e.get("d") is not None else ("G", e.get("u"))
        if k == "mem":
            return ("M", e.get("qn"))
        if k == "call":
            return ("R", e.get("f")) if (e.get("fn") or "").startswith("mocc::") else (
                ("S", (e.get("fn") or "").split("::")[-1]))
        return None

    def type(self, e):
        while isinstance(e, dict) and e.get("k") in ("cast", "paren") and e.get("imp") and e.get("t") is None:
            e = e["e"]
        return e.get("t") if isinstance(e, dict) else None

    def ev(self, e):
        if e is None:
            return None
        if isinstance(e, list):
            for x in e:
                self.ev(x)
            return None
        if e.get("l"):
            self.at = e["l"]
        k = e.get("k")
        m = getattr(self, "e_" + k, None) if k else None
        if m is not None:
            return m(e)
        if k in ("decl", "block", "if", "for", "while", "do", "range", "switch", "ret", "try", "omp", "expr"):
            self.stmt(e)
            return None
        for x in e.values():
            if isinstance(x, dict) and "k" in x:
                self.ev(x)
            elif isinstance(x, list):
                for y in x:
                    if isinstance(y, dict) and "k" in y:
                        self.ev(y)
        return None

    def e_var(self, e):
        if e.get("vk") in ("local", "param") and e.get("d") is not None:
            return self.local(e["d"])
        if e.get("u"):
            return self.node(("G", e["u"]))
        return None

    def e_mem(self, e):
        b = self.ev(e.get("b"))
        q = e.get("qn") or ""
        if q.startswith(("std::", "blitz::", "Eigen::", "__gnu")):
            return self.kid(b, e["n"]) if b is not None else None
        q = re.sub(r"<.*>", "", q)
        return self.node(("M", q, self.tag(q.rsplit("::", 1)[0], e.get("b"), self.here)))

    def e_this(self, e):
        return None

    def e_cast(self, e):
        r = self.ev(e["e"])
        if integer(e.get("t")) and not integer(self.type(e["e"])):
            en = self.prog.enums.get(bare(self.type(e["e"])))
            if en is not None and self.strip(e["e"]).get("k") != "enum":
                r = Node(("enum", self.at))
                r.kind = r.why = bare(self.type(e["e"])).split("::")[-1]
                return r
            return None
        if not integer(e.get("t")) and integer(self.type(e["e"])):
            return None
        return r

    def e_expr(self, e):
        return self.ev(e["e"])

    def e_un(self, e):
        r = self.ev(e["e"])
        op = e["op"]
        if op in ("p++", "p--", "++", "--", "+"):
            return r
        if op == "*" and r is not None:
            return self.kid(r, "e") if self.steps(e["e"]) else r
        if op == "&":
            return r
        return None

    def steps(self, e):
        t = (self.type(e) or "")
        return bool(re.match(r"^(const )?(int|unsigned int|unsigned long|double|float) \*", t)) or "iterator" in t

    def e_bin(self, e):
        a, b = self.ev(e["a"]), self.ev(e["b"])
        op = e["op"]
        self.at = e.get("l") or self.at
        if op in ("<", "<=", ">", ">=", "==", "!="):
            if integer(self.type(e["a"])) and integer(self.type(e["b"])) and not (
                    self.test and op in ("==", "!=")):
                self.meet(a, b, "comparison")
            return None
        if op in ("+", "-") and integer(e.get("t")):
            if a is None and self.const(e["a"]):
                return b
            if b is None and self.const(e["b"]):
                return a
            if op == "-" and a is not None and b is not None and self.kind(a) and self.kind(a) == self.kind(b):
                return a
            return None
        if op == ",":
            return b
        return None

    def const(self, e):
        e = self.strip(e)
        return e.get("k") in ("int", "flt") or (e.get("k") == "un" and self.const(e["e"]))

    def e_asg(self, e):
        b = self.ev(e["rhs"]) if not self.lists(e["rhs"]) else None
        a = self.ev(e["lhs"])
        if e["op"] == "=" and a is not None:
            if b is not None:
                if self.likes(e["lhs"], e["rhs"]):
                    self.meet(a, b, "assignment")
            elif self.lists(e["rhs"]):
                self.init(a, e["rhs"], "assignment")
        return a

    def lists(self, e):
        return self.strip(e).get("k") in ("ctor", "ilist")

    def likes(self, a, b):
        ta, tb = bare(self.type(a)), bare(self.type(b))
        if ta in INTS or tb in INTS:
            return ta in INTS and tb in INTS
        return True

    def e_cond(self, e):
        self.ev(e["c"])
        a, b = self.ev(e["a"]), self.ev(e["b"])
        if a is not None and b is not None:
            self.meet(a, b, "alternatives")
        return a or b

    def e_sub(self, e):
        b = self.ev(e.get("b") or e.get("e"))
        i = self.ev(e.get("i"))
        if b is None:
            return None
        self.subscripts += 1
        self.meet(self.kid(b, 0), i, "subscript")
        return self.kid(b, "e")

    def e_lambda(self, e):
        self.stmts(e.get("body"))
        return None

    def e_ctor(self, e):
        t = e.get("t")
        if array(t) or sequence(t):
            a = Node(("tmp", self.at))
            self.sized(a, e.get("a") or [], t)
            return a
        if len(e.get("a") or []) == 1 and e.get("copy"):
            return self.ev(e["a"][0])
        self.args(e)
        return None

    def e_new(self, e):
        self.ev(e.get("init"))
        self.ev(e.get("n"))
        return None

    def args(self, e, skip=False):
        """Arguments met with the parameters of the function called."""
        f = e.get("f")
        ctor = e.get("k") == "ctor"
        vals = []
        t = self.tag(owner(f), e.get("obj"), self.here) if f else ""
        own = f is not None and (f in self.prog.funcs or f in self.prog.decls) and not skip and not self.free(e)
        for i, x in enumerate(e.get("a") or []):
            if own and self.lists(x) and not integer(self.type(x)):
                self.init(self.node(("P", f, i, t)) if ctor else self.instance(("P", f, i, t)), x, "argument")
                vals.append(None)
                continue
            v = self.ev(x)
            vals.append(v)
            if own and v is not None:
                self.meet(self.node(("P", f, i, t)) if ctor else self.instance(("P", f, i, t)), v, "argument %d of %s" % (i + 1, (e.get("fn") or "").split("::")[-1]))
        return vals

    def free(self, e):
        fn = e.get("fn") or ""
        return fn.startswith(self.generic) or e.get("f") not in self.prog.funcs and not fn.startswith("mocc::")

    def e_call(self, e):
        fn = e.get("fn") or ""
        short = fn.split("::")[-1]
        ot = e.get("ot") or e.get("cls") or ""
        outside = fn.startswith(("std::", "blitz::", "Eigen::", "__gnu_cxx::", "H5::", "pugi::", "operator"))
        if not outside:
            o = self.ev(e["obj"]) if e.get("obj") is not None else None
            for c, how in self.containers.items():
                if fn.startswith("mocc::") and fn.endswith(c):
                    if how == "size":
                        return self.kid(o, 0) if o is not None else None
                    a = e["a"]
                    self.subscripts += 1
                    if o is not None and integer(self.type(a[0])):
                        self.meet(self.kid(o, 0), self.ev(a[0]), "subscript")
                    for x in a[1:]:
                        self.ev(x)
                    return None
            if short == "operator=" and o is not None and len(e["a"]) == 1:
                self.meet(o, self.ev(e["a"][0]), "assignment")
                return o
            self.args(e)
            f = e.get("f")
            s = self.result(e)
            if s is not None:
                return s
            if f is None or self.free(e):
                return None
            return self.instance(("R", f, self.tag(owner(f), e.get("obj"), self.here)))
        o = self.ev(e["obj"]) if e.get("obj") is not None else None
        a = e.get("a") or []
        self.at = e.get("l") or self.at
        if o is not None:
            if short in ("operator->", "get", "operator*") and not a:
                if "iterator" in fn.lower() and short == "operator*":
                    return self.kid(o, "e")
                if "iterator" in fn.lower() and short == "operator->":
                    return self.kid(o, "e")
                return o
            if short == "operator()" and "Array<" in fn:
                return self.select(o, a)
            if short in ("operator[]", "at"):
                self.subscripts += 1
                c = self.strip(a[0])
                if c.get("k") == "int":
                    return self.kid(o, ("e", int(c["v"])))
                v = self.ev(a[0])
                if integer(self.type(a[0])):
                    self.meet(self.kid(o, 0), v, "subscript")
                return self.kid(o, "e")
            if short in ("begin", "end", "cbegin", "cend", "rbegin", "rend", "data", "crbegin", "crend", "copy"):
                return o
            if short in ("front", "back"):
                return self.kid(o, "e")
            if short in ("size", "numElements"):
                if array(ot) and not re.search(r", 1>$", bare(ot)):
                    return None
                return self.kid(o, 0)
            if short in ("extent", "length", "rows", "cols", "ubound"):
                if a and self.strip(a[0]).get("k") == "int":
                    return self.kid(o, int(self.strip(a[0])["v"]))
                if short == "rows":
                    return self.kid(o, 0)
                return None
            if short in ("push_back", "push_front", "insert", "emplace_back") and len(a) == 1:
                v = self.ev(a[0])
                if v is not None and self.strip(e["obj"]).get("d") not in self.mixed():
                    self.meet(self.kid(o, "e"), v, "element added")
                return None
            if short in ("resize", "reserve", "assign"):
                if all(integer(self.type(x)) for x in a) and array(ot):
                    for i, x in enumerate(a):
                        self.meet(self.kid(o, i), self.ev(x), "extent %d of the array" % (i + 1))
                elif a and integer(self.type(a[0])):
                    self.meet(self.kid(o, 0), self.ev(a[0]), "size of the vector")
                    for x in a[1:]:
                        v = self.ev(x)
                        if v is not None:
                            self.meet(self.kid(o, "e"), v, "element")
                else:
                    self.ev(a)
                return None
            if short == "reference" and len(a) == 1:
                self.meet(o, self.ev(a[0]), "view")
                return None
            if short == "operator=" and len(a) == 1:
                if self.lists(a[0]):
                    self.init(o, a[0], "assignment")
                else:
                    v = self.ev(a[0])
                    if v is not None and not self.scalar(a[0]):
                        self.meet(o, v, "assignment")
                return o
            if short in ("operator++", "operator--"):
                return o
            if short in ("operator+", "operator-") and "iterator" in fn:
                self.ev(a)
                return o
        vals = [self.ev(x) for x in a]
        if short in ("min", "max") and len(vals) == 2 and integer(e.get("t")):
            self.meet(vals[0], vals[1], "comparison")
            return vals[0] or vals[1]
        if short in ("move", "forward", "begin", "end") and len(vals) == 1:
            return vals[0]
        if short in ("distance",):
            return None
        return None

    def scalar(self, e):
        return bare(self.type(e)) in INTS | {"double", "float"}

    def result(self, e):
        """Results whose kind an argument selects."""
        for fn, by in self.chosen.items():
            if (e.get("fn") or "").endswith(fn):
                n = Node(("chosen", self.at))
                x = self.strip((e.get("a") or [{}])[0])
                k = by.get(x.get("n", "").split("::")[-1])
                if k:
                    m = n if integer(e.get("t")) else self.kid(n, 0)
                    m.kind, m.why = k, e["fn"]
                return n
        return None

    def select(self, o, a):
        """Subscripts and ranges of an array: an element or a view."""
        self.subscripts += 1
        rest = []
        for i, x in enumerate(a):
            t = bare(self.type(x))
            if t in INTS:
                self.meet(self.kid(o, i), self.ev(x), "subscript %d" % (i + 1))
            elif t.startswith("blitz::Range"):
                rest.append(i if self.whole(x) else None)
                self.ev(x)
            else:
                self.ev(x)
                return None
        if not rest:
            return self.kid(o, "e")
        v = Node(("view", self.here.id, self.at))
        for j, i in enumerate(rest):
            if i is None:
                continue
            self.meet(self.kid(v, j), self.kid(o, i), "view")
        self.meet(self.kid(v, "e"), self.kid(o, "e"), "view")
        return v

    def whole(self, x):
        x = self.strip(x)
        if x.get("k") == "ctor" and len(x.get("a") or []) == 1 and not integer(self.type(x["a"][0])):
            x = self.strip(x["a"][0])
        return x.get("k") == "call" and (x.get("fn") or "").endswith("Range::all")


def infer(prog, seeds, passes=8, **opts):
    """Passes until no more is learnt of parameters and results.  What two uses
    disagree on is reported at the use seen second, so when there is anything
    to report the program is also gone through backwards, and the account that
    blames fewer functions is taken."""
    k = settle(prog, seeds, passes, opts)
    if k.clashes:
        o = settle(prog, seeds, passes, dict(opts, backwards=True))
        if len({f.id for f, *_ in o.clashes}) < len({f.id for f, *_ in k.clashes}):
            return o
    return k


def settle(prog, seeds, passes, opts):
    k, known = None, -1
    for _ in range(passes):
        k = Kinds(prog, seeds, first=k, **opts).run()
        n = sum(1 for x in k.nodes.values() if k.kind(x))
        if n == known:
            break
        known = n
    k.known = known
    return k
