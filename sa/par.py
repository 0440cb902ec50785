"""Parallel regions: who touches what, in which phase, under what protection."""
import re

import graph
from core import *
from model import walk

# tables whose entries differ between the objects they are looked up for; that they do is decided elsewhere
DISTINCT = {"offset_": "C03", "bc_": "C14"}
WRITES = ("store", "append", "resize", "clear", "reserve", "pop", "erase", "insert", "assign", "swap")


def regions(prog, prefix=None):
    """Functions with a parallel region, once per instantiation."""
    out = []
    for f in prog.funcs.values():
        if f.body is not None and (f.n.startswith(prefix) if prefix else graph.own(prog, f)):
            for n in walk(f.body):
                if n.get("k") == "omp" and "parallel" in n["dir"]:
                    out.append((f, n))
    return sorted(out, key=lambda x: (x[0].file, x[0].l, x[0].id, x[1]["l"]))


def clause(n, name):
    return [c for c in n.get("cl", ()) if c["n"] == name]


def names(c):
    return {x.get("d") for v in c["v"] for x in walk(v) if x.get("k") == "var"}


def subterms(t):
    seen, todo = set(), [t]
    while todo:
        x = todo.pop()
        if not isinstance(x, T):
            if isinstance(x, tuple):
                todo.extend(x)
            continue
        if x in seen:
            continue
        seen.add(x)
        yield x
        todo.extend(x.a)


def steps(loc):
    """root, [("f", name) | ("i", indices)]"""
    out = []
    while loc.op in ("fld", "idx", "slice"):
        out.append(("f", loc.a[1]) if loc.op == "fld" else ("i", tuple(x for x in loc.a[1:])))
        loc = loc.a[0]
    return loc, out[::-1]


class Access:
    __slots__ = ("pos", "e", "write", "loc", "root", "path", "omp", "pc", "val", "exact")

    def name(self):
        r = [self.root.a[0] if self.root.op in ("sym", "L") else self.root.op]
        return ".".join(str(x) for x in r + [n for k, n in self.path if k == "f"])

    def where(self):
        return self.e.where()

    def guard(self):
        """The innermost protection."""
        for o in reversed(self.omp):
            if o["dir"] in ("critical", "atomic", "single", "master", "section"):
                return o
        return None

    def ws(self):
        for o in self.omp:
            if o["dir"] in ("for", "for simd", "parallel for"):
                return o
        return None


class Region:
    """The events of one parallel region."""

    def __init__(self, prog, f, node, eff):
        self.prog, self.f, self.node = prog, f, node
        inside = {v["d"] for d in walk(node.get("body")) if d.get("k") == "decl" for v in d["v"]}
        inside |= {x["d"] for d in walk(node.get("body")) for x in (d.get("var"),) if isinstance(x, dict) and "d" in x}
        for n in walk(node):
            if n.get("k") == "omp":
                for c in n.get("cl", ()):
                    if c["n"] in ("private", "firstprivate", "lastprivate", "reduction", "linear"):
                        inside |= names(c)
        self.inside = inside
        self.frame = None
        self.eff = [e for e in eff if any(o is node for o in e.omp)]
        self.binders = {}
        self.span = {}
        for i, e in enumerate(self.eff):
            ws = [o for o in e.omp if o["dir"] in ("for", "for simd", "parallel for")]
            for l in e.loops:
                k = self.lk(l)
                a, b = self.span.get(k, (i, i))
                self.span[k] = (min(a, i), max(b, i))
                if ws and l.omp and l.omp[-1] is ws[-1]:
                    self.binders.setdefault(id(ws[-1]), l.b)
        for e in eff:
            for l in [e.loc] + [e.val]:
                for t in subterms(l) if l is not None else ():
                    if t.op == "L" and e.func is f and t.a[1] in inside | {p["d"] for p in f.p}:
                        self.frame = t.a[2]
        self.wsb = set(self.binders.values())
        self.accesses = list(self.collect())
        self.seps = list(self.separators())

    @staticmethod
    def lk(l):
        return (l.b, l.line, l.func.id if getattr(l, "func", None) else None)

    # -- accesses
    def shared(self, root):
        if root.op in ("this", "sym"):
            g = self.prog.global_by_name.get(root.a[0]) if root.op == "sym" else None
            return not (g and any(x.get("tls") for x in g))
        if root.op == "L":
            return root.a[2] == self.frame and root.a[1] not in self.inside
        return False

    def collect(self):
        for i, e in enumerate(self.eff):
            if e.kind == "read" and e.loc is not None:
                if id(e.node) in self.handles(e.func):
                    continue
                yield from self.access(i, e, e.loc, False)
            elif e.kind in WRITES and e.loc is not None:
                yield from self.access(i, e, e.loc, True)
                if e.kind == "store" and e.op not in ("=", None):
                    yield from self.access(i, e, e.loc, False)
            elif e.kind == "call":
                n = e.node or {}
                if e.obj is not None and isinstance(e.obj, T):
                    m = self.prog.funcs.get(n.get("f")) or self.prog.decls.get(n.get("f"))
                    const_ = m is not None and (m.cst if hasattr(m, "cst") else m.get("cst"))
                    yield from self.access(i, e, e.obj, not const_)
                pt = n.get("pt") or []
                for k, a in enumerate(e.args):
                    if not isinstance(a, T):
                        continue
                    t = pt[k] if k < len(pt) else ""
                    ref_ = t.rstrip().endswith(("&", "*"))
                    w = ref_ and not t.strip().startswith("const ")
                    for x in subterms(a):
                        if x.op == "addr":
                            yield from self.access(i, e, x.a[0], w)
                    if ref_ and a.op in ("fld", "idx", "sym", "L"):
                        yield from self.access(i, e, a, w)

    def access(self, i, e, loc, write):
        if loc.op == "ite":
            yield from self.access(i, e, loc.a[1], write)
            yield from self.access(i, e, loc.a[2], write)
            return
        if loc.op == "addr":
            loc = loc.a[0]
        root, path = steps(loc)
        if not self.shared(root):
            return
        a = Access()
        a.pos, a.e, a.write, a.loc, a.root, a.path, a.val = i, e, write, loc, root, path, e.val
        a.omp = e.omp[[id(o) for o in e.omp].index(id(self.node)):]
        a.pc = e.pc
        # a pointer is read, not what it points to
        t = (e.node or {}).get("t") or ""
        if not write and e.kind == "read" and t.strip(" &").endswith("*") and path and path[-1][0] == "i":
            return
        a.exact = not write and e.kind == "read" and bool(re.search(r"\*( const)?$|^(const )?std::(shared_ptr|unique_ptr)<", t.strip(" &")))
        yield a

    def handles(self, f):
        """Nodes of f that name an object one of whose members is called."""
        memo = self.prog.__dict__.setdefault("_handles", {})
        if f.id not in memo:
            memo[f.id] = {id(n["obj"]) for n in graph.parts(f) if n.get("k") == "call" and isinstance(n.get("obj"), dict)} | \
                {id(n["a"][0]) for n in graph.parts(f) if n.get("k") == "call" and n.get("op") and n.get("a")
                 and n.get("obj") is None}
        return memo[f.id]

    # -- phases
    def separators(self):
        for i, e in enumerate(self.eff):
            if e.kind != "omp":
                continue
            d = e.node["dir"]
            if d == "barrier" and e.name == "begin" or \
                    d in ("for", "single", "sections") and e.name == "end" and not clause(e.node, "nowait"):
                yield i, e

    def atoms(self):
        out = []
        for _, e in self.seps:
            for c in e.pc:
                a = c.a[0] if c.op == "not" else c
                if a not in out:
                    out.append(a)
        return out[:4]

    @staticmethod
    def holds(pc, sigma):
        for c in pc:
            neg = c.op == "not"
            a = c.a[0] if neg else c
            if a in sigma and sigma[a] == neg:
                return False
        return True

    def adjacent(self, a, b, sigma, active):
        """Whether, under `sigma`, some thread may be at a while another is at b."""
        i, j = a.pos, b.pos
        if i <= j and not any(i < p < j for p in active):
            return "forward"
        if j <= i and not any(j < p < i for p in active):
            return "backward"
        ka = [self.lk(l) for l in a.e.loops]
        kb = [self.lk(l) for l in b.e.loops]
        for k in ka:
            if k in kb:
                s, t = self.span[k]
                for x, y in ((i, j), (j, i)):
                    if not any(x < p <= t for p in active) and not any(s <= p < y for p in active):
                        return "wrap"
        return None

    # -- dependence on the executing thread
    def uniform(self, t):
        for x in subterms(t):
            if x in self.wsb or x.op == "tmp":
                return False
            if x.op in ("phi", "fold", "pfold", "map") and any(y in self.wsb for y in subterms(x)):
                return False
            if x.op == "app" and x.a[0] in ("omp_get_thread_num",):
                return False
            if x.op in ("L", "undef") and x.op == "L" and not self.shared(x):
                return False
        return True

    def depends(self, t, b):
        return any(x is b for x in subterms(t))

    def injective(self, t, b):
        """A form of t that differs between iterations: None or a token two accesses must share."""
        if t is b:
            return ("b",)
        if t.op in ("add", "mul"):
            ds = [x for x in t.a if isinstance(x, T) and self.depends(x, b)]
            for x in ds:
                d = self.distinct(x, b)
                if d and t.op == "add":
                    return d
            if len(ds) == 1:
                r = self.injective(ds[0], b)
                rest = tuple(x for x in t.a if x is not ds[0])
                if r and (t.op == "add" or all(x.op == "c" and x.a[0] != 0 for x in rest)):
                    return r + (t.op, rest)
            return None
        if t.op == "range":
            return self.injective(t.a[0], b)
        return self.distinct(t, b)

    def distinct(self, t, b):
        root, path = steps(t)
        fs = [n for k, n in path if k == "f"]
        if t.op == "idx" and fs and fs[-1] in DISTINCT:
            for k, ix in path:
                if k == "i":
                    for x in ix[:1]:
                        if isinstance(x, T) and self.injective(x, b):
                            return ("table", fs[-1])
        return None

    def apart(self, a, b):
        """Different iterations of the same shared loop touch different elements."""
        w = a.ws()
        if w is None or b.ws() is not w or id(w) not in self.binders:
            return False
        v = self.binders[id(w)]
        for (k, x), (l, y) in zip(a.path, b.path):
            if k != l:
                return False
            if k == "f":
                if x != y:
                    return False
                continue
            for p, q in zip(x, y):
                if isinstance(p, T) and isinstance(q, T):
                    r = self.injective(p, v)
                    if r is not None and r == self.injective(q, v):
                        return True
        return False

    def overlap(self, a, b):
        if a.root is not b.root:
            return False
        if a.exact and len(b.path) > len(a.path) or b.exact and len(a.path) > len(b.path):
            return False
        for (k, x), (l, y) in zip(a.path, b.path):
            if k != l:
                return True
            if k == "f" and x != y:
                return False
            if k == "i":
                for p, q in zip(x, y):
                    if isinstance(p, T) and isinstance(q, T) and p.op == "c" and q.op == "c" and p.a[0] != q.a[0]:
                        return False
        return True

    def excluded(self, a, b):
        g, h = a.guard(), b.guard()
        if g is None or h is None:
            return False
        if g["dir"] != h["dir"]:
            return False
        if g["dir"] == "critical":
            return g.get("name") == h.get("name")
        if g["dir"] == "single":
            return g is h and not clause(g, "nowait")
        return g["dir"] in ("atomic", "master")

    def redundant(self, a):
        """Every thread writes the same value to the same place."""
        return a.write and a.guard() is None and a.ws() is None and a.e.kind == "store" and a.e.op == "=" and \
            self.uniform(a.loc) and (a.val is None or self.uniform(a.val)) and all(self.uniform(c) for c in a.pc)

    # -- conflicts
    def groups(self):
        out = {}
        for a in self.accesses:
            out.setdefault((a.root, next((n for k, n in a.path if k == "f"), None)), []).append(a)
        return {k: v for k, v in out.items() if any(a.write for a in v)}

    def conflicts(self, off=()):
        """Unordered conflicting pairs; `off`: atoms known false in a team of several threads."""
        import itertools
        atoms = self.atoms()
        free = [a for a in atoms if a not in off]
        sigmas = []
        for bits in itertools.product((True, False), repeat=len(free)):
            s = dict(zip(free, bits))
            s.update({a: False for a in off})
            sigmas.append((s, sorted(i for i, e in self.seps if self.holds(e.pc, s))))
        for (root, _), acc in sorted(self.groups().items(), key=lambda x: x[1][0].pos):
            found = {}
            for n, a in enumerate(acc):
                for b in acc[n:]:
                    if not (a.write or b.write) or not self.overlap(a, b):
                        continue
                    if self.excluded(a, b) or self.apart(a, b):
                        continue
                    for s, active in sigmas:
                        if not self.holds(a.pc, s) or not self.holds(b.pc, s):
                            continue
                        how = self.adjacent(a, b, s, active)
                        if how is None:
                            continue
                        if a is b and a.guard() is not None and a.guard()["dir"] in ("single", "master", "atomic", "critical"):
                            continue
                        if a is b and self.redundant(a):
                            continue
                        if a.e is b.e and self.redundant(a if a.write else b):
                            continue
                        # written alike by every thread, then read
                        if self.redundant(a) and not b.write and how == "forward" and a.pos < b.pos:
                            continue
                        if self.redundant(b) and not a.write and how == "backward" and b.pos < a.pos:
                            continue
                        # the same redundant value twice
                        if self.redundant(a) and self.redundant(b) and a.loc is b.loc and a.val is b.val:
                            continue
                        found.setdefault(a.name(), (a, b))
                        break
            yield acc, found
