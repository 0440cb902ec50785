"""Effect summaries by value numbering.

`Interp(prog).run(func)` abstractly executes a function once, with every input
left symbolic, and returns a Summary: the stores it performs (location, value
term, guards, enclosing loops, enclosing OpenMP constructs), the calls it makes
to functions that are kept opaque, the errors it raises and the value it
returns.  Callees of the analysed tree are inlined unless the rule keeps them
opaque, so moving code into a helper does not change the summary.  Loops are
summarised by their binder: induction variables are put in closed form and
accumulations become sums over the iteration space.
"""
import copy
import re
from terms import *
from terms import T
from model import walk, AnalysisBroken

MATH = {"sqrt": "sqrt", "exp": "exp", "log": "log", "sin": "sin", "cos": "cos",
        "tan": "tan", "acos": "acos", "asin": "asin", "atan": "atan",
        "atan2": "atan2", "floor": "floor", "ceil": "ceil", "pow": "pow",
        "round": "round"}
INT_TYPES = {"int", "unsigned int", "long", "unsigned long", "short", "unsigned short",
             "char", "unsigned char", "signed char", "long long", "unsigned long long",
             "bool", "size_t", "std::size_t", "__ptrdiff_t", "ptrdiff_t"}
FLT_TYPES = {"double", "float", "long double"}


def strip_type(t):
    t = t or ""
    t = t.replace("const ", "").replace("volatile ", "").strip()
    while t.endswith(("&", "*", " ", "const")):
        t = t[:-5] if t.endswith("const") else t[:-1]
    return t.strip()


def is_int(t):
    t = strip_type(t)
    return t in INT_TYPES


LABELS = {"surf_id"}    # members that only tell objects apart


def _intc(a):
    return a.op == "c" and isinstance(a.a[0], int) and not isinstance(a.a[0], bool)


def is_flt(t):
    return strip_type(t) in FLT_TYPES


_ARITH = {"add", "sub", "mul", "div", "neg", "ite", "idiv", "mod", "cast", "trunc", "min", "max"}


def element(v, ks, top=True):
    """Element `ks` of an array-valued expression."""
    if v.op == "slice":
        return idx(v, *ks)
    if v.op in _ARITH:
        return mk(v.op, *[element(x, ks, False) if isinstance(x, T) else x for x in v.a])
    if v.op == "app" and v.a[0] in ("sqrt", "exp", "abs", "fabs"):
        return mk("app", v.a[0], *[element(x, ks, False) for x in v.a[1:]])
    if top and v.op in ("fld", "L", "idx", "map", "fold", "phi") and ks:
        return idx(v, *ks)
    return v


class Eff:
    __slots__ = ("kind", "loc", "op", "val", "pc", "loops", "omp", "line", "func",
                 "name", "obj", "args", "node", "stack", "facts", "ins", "res")

    def terms(self):
        return [x for x in (self.loc, self.val, self.obj) if x is not None] + list(self.pc) + \
            [x for x in tuple(self.args) + tuple(self.ins or ()) if isinstance(x, T)] + [l.b for l in self.loops]

    def where(self):
        return "%s:%s" % (self.func.rel if self.func else "?", self.line)

    def __repr__(self):
        g = (" if " + " && ".join(map(show, self.pc))) if self.pc else ""
        l = (" for " + ", ".join(show(x.b) for x in self.loops)) if self.loops else ""
        if self.kind == "store":
            return "L%s %s %s %s%s%s" % (self.line, show(self.loc), self.op, show(self.val), g, l)
        if self.kind == "call":
            return "L%s CALL %s(%s)%s%s" % (self.line, self.name, ", ".join(
                ([show(self.obj)] if self.obj is not None else []) + [show(x) for x in self.args]), g, l)
        return "L%s %s %s%s%s" % (self.line, self.kind, self.name or (show(self.val) if self.val is not None else ""), g, l)


class Loop:
    __slots__ = ("b", "down", "line", "kind", "partial", "func", "omp")

    def __repr__(self):
        return "Loop(%s)" % show(self.b)


class State:
    __slots__ = ("mem", "pc", "facts")

    def __init__(self, mem=None, pc=(), facts=()):
        self.mem = mem if mem is not None else {}
        self.pc = pc
        self.facts = facts

    def copy(self):
        return State(dict(self.mem), self.pc, self.facts)


class Frame:
    __slots__ = ("func", "this", "env", "returns", "breaks", "conts", "n", "dyn", "parent")

    def __init__(self, func, this, n, dyn=None):
        self.func = func
        self.this = this
        self.env = {}
        self.returns = []
        self.breaks = []
        self.conts = []
        self.n = n
        self.dyn = dyn


LTYPE = {}   # declared types of local variables


class Summary:
    def __init__(self):
        self.eff = []
        self.ret = None
        self.mem = {}
        self.func = None
        self.params = {}
        self.this = None

    def stores(self, name=None):
        out = [e for e in self.eff if e.kind == "store"]
        if name:
            out = [e for e in out if root_name(e.loc) == name]
        return out

    def calls(self, name=None):
        return [e for e in self.eff if e.kind == "call" and
                (name is None or e.name == name or e.name.endswith("::" + name))]

    def throws(self):
        return [e for e in self.eff if e.kind == "throw"]


def _container_type(t):
    t = strip_type(t or "")
    return t.startswith(("std::vector", "std::map", "std::set", "std::list", "std::deque", "std::array",
                         "blitz::Array", "std::unordered_map")) or t in ("mocc::VecF", "mocc::VecI", "VecF", "VecI")


def root_name(loc):
    """Name of the field (or variable) an element location belongs to."""
    while loc.op in ("idx", "slice", "map"):
        loc = loc.a[0]
    if loc.op == "fld":
        return loc.a[1]
    if loc.op in ("sym", "L"):
        return loc.a[0]
    return None


def base_loc(loc):
    while loc.op in ("idx", "slice", "map"):
        loc = loc.a[0]
    return loc


def indices(loc):
    out = []
    while loc.op in ("idx", "slice"):
        out = list(loc.a[1:]) + out
        loc = loc.a[0]
    return out


def _array_len(t):
    """Element count of a fixed-size array type, or None."""
    m = re.match(r"std::array<.*, (\d+)(?:UL|u|ul)?>$", t)
    return int(m.group(1)) if m else None


LOGICAL = ("lt", "le", "eq", "not", "and", "or")


def outside(t):
    """Types whose objects stand for something outside the program: files and what is in them."""
    t = (t or "").replace("const ", "").rstrip("&* ")
    return t == "mocc::H5Node" or t.startswith("H5::")


MANIPULATORS = ("std::setw", "std::setfill", "std::setprecision")


def joined(x, y):
    """The text x followed by y; neighbouring literals are one."""
    if y.op == "s":
        if x.op == "s":
            return mk("s", x.a[0] + y.a[0])
        if x.op == "app" and x.a[0] == "joined" and x.a[2].op == "s":
            return mk("app", "joined", x.a[1], mk("s", x.a[2].a[0] + y.a[0]))
    if y.op == "app" and y.a[0] in MANIPULATORS and x.op == "app" and x.a[0] == "joined" and x.a[2].op == "app" and \
            x.a[2].a[0] in MANIPULATORS and x.a[2].a[0] > y.a[0]:
        return mk("app", "joined", joined(x.a[1], y), x.a[2])
    return mk("app", "joined", x, y)


class Interp:
    made = 0

    def __init__(self, prog, opaque=(), inline=(), max_depth=10, unroll=0,
                 assume=None, dyn=None, keep_calls=(), fields=None, single=False,
                 budget=400000, havoc=False, home=None, carried=False, reads=False):
        self.prog = prog
        self.reads = reads      # report what is read
        self.carried = carried  # give values carried from one iteration to the next their meaning
        self.havoc = havoc      # an opaque mutating call may change its object
        self.home = home        # whose helpers are looked into
        self.brk = []
        self.retlocs = set()   # local containers that are returned
        self.tail = 1
        self.opaque = tuple(opaque)
        self.inline = tuple(inline)
        self.max_depth = max_depth
        self.unroll = unroll
        self.assume = dict(assume or {})
        self.dyn = dyn
        self.fields = fields or {}
        Interp.made += 1
        self.nframe = 100000 * Interp.made   # locals of different runs are different
        self.ntmp = 0
        self.eff = []
        self.loops = []
        self.omp = []
        self.stack = []
        self.facts = ()
        self.dry = 0
        self.lambdas = {}
        self.budget = budget
        self.version = {}

    # ------------------------------------------------------------------ API
    def run(self, func, args=None, this=None, mem=None, ctor=None):
        this = this or mk("this")
        st = State(dict(mem or {}))
        for k, v in self.fields.items():
            st.mem[fld(this, k)] = v
        fr = Frame(func, this, self._fid(), self.dyn)
        params = {}
        for i, p in enumerate(func.p):
            if args and p["n"] in args:
                v = args[p["n"]]
            elif args and i in args:
                v = args[i]
            else:
                v = mk("sym", p["n"] or "arg%d" % i)
            params[p["n"]] = v
            fr.env[p["d"]] = self._local(fr, p)
            if self._by_ref(p["t"]) or not self._scalar(p["t"]):
                fr.env[p["d"]] = v
            else:
                st.mem[fr.env[p["d"]]] = v
        self.stack.append(func)
        if func.ctor:
            st = self._inits(func, fr, st)
        elif ctor is not None:
            # a reference for a constructor starts from what the language
            # itself initialises
            x = Frame(ctor, this, self._fid(), self.dyn)
            for c in self.prog.all_bases(ctor.cls):
                for y in (self.prog.classes.get(c) or {"fields": []})["fields"]:
                    if re.match(r"std::vector<", strip_type(y.get("ct") or y["t"])):
                        st.mem[fld(this, y["n"])] = self.tmp()
                        st.mem[mk("cnt", fld(this, y["n"]))] = ZERO
            st = self._inits(ctor, x, st, implicit=True)
        st = self.block(func.body, fr, st)
        self.stack.pop()
        s = Summary()
        s.func, s.params, s.this = func, params, this
        s.ret, st = self._merge_returns(fr, st)
        s.retlocs = self.retlocs
        s.mem = st.mem if st else {}
        s.eff = self.eff
        return s

    # -------------------------------------------------------------- helpers
    def _fid(self):
        self.nframe += 1
        return self.nframe

    def tmp(self):
        self.ntmp += 1
        return mk("tmp", self.ntmp)

    @staticmethod
    def _by_ref(t):
        return t.rstrip().endswith("&")

    @staticmethod
    def _scalar(t):
        t = t.strip()
        if t.endswith("*") or t.endswith("* const"):
            return True
        s = strip_type(t)
        return s in INT_TYPES or s in FLT_TYPES or s.startswith("enum ") or True

    def _local(self, fr, v):
        l = mk("L", v["n"], v["d"], fr.n)
        LTYPE[l] = strip_type(v.get("t") or "")
        return l

    def effect(self, kind, fr, st, line, loc=None, op=None, val=None, name=None,
               obj=None, args=(), node=None):
        if self.dry:
            return
        if val is not None and val.op == "newobj":
            val = self._held(val, st)
        e = Eff()
        e.kind, e.loc, e.op, e.val = kind, loc, op, val
        e.pc, e.loops, e.omp = st.pc, tuple(self.loops), tuple(self.omp)
        e.line, e.func, e.name, e.obj, e.args = line, fr.func, name, obj, tuple(args)
        e.node = node
        e.stack = tuple(self.stack)
        e.facts = st.facts
        e.ins, e.res = e.args, None
        self.eff.append(e)
        return e

    def _held(self, v, st):
        """What a new object holds, as far as it is known."""
        x = self.read(v.a[0], st)
        return x if x.op in ("struct", "ilist") else v

    # -------------------------------------------------------------- memory
    def used(self, loc, fr, st, e):
        """The value at loc, which an expression of the program uses."""
        if self.reads:
            self.effect("read", fr, st, e["l"], loc=loc, node=e)
        return self.read(loc, st)

    def read(self, loc, st):
        m = st.mem
        v = m.get(loc)
        if loc.op in ("L", "tmp", "fld", "idx", "sym"):
            # object with individually written parts
            parts = [k for k in m if k.a and k.a[0] is loc and k.op in ("fld", "idx")]
            if parts and all(k.op == "fld" for k in parts):
                base = v if v is not None else self._initial(loc, st)
                flat = []
                for k in sorted((k for k in parts if k.a[1] not in LABELS), key=lambda k: k.a[1]):
                    flat += [k.a[1], self.read(k, st)]
                if base.op in ("L", "tmp"):
                    base = mk("undef")
                return mk("struct", base, tuple(flat))
            if parts and all(k.op == "idx" and len(k.a) == 2 and k.a[1].op == "c"
                             for k in parts) and loc.op in ("L", "tmp"):
                n = max(k.a[1].a[0] for k in parts) + 1
                if isinstance(n, int) and 0 < n <= 64:
                    return mk("ilist", *[self.read(mk("idx", loc, const(i)), st) for i in range(n)])
        if v is not None:
            return v
        return self._initial(loc, st)

    def _initial(self, loc, st):
        if loc in self.assume:
            return self.assume[loc]
        if loc.op == "cnt":
            return self._size0(loc.a[0], st)
        if loc.op == "fld":
            b = self.read_base(loc.a[0], st)
            if b is not loc.a[0]:
                n = fld(b, loc.a[1])
                if n is not loc:
                    return self.read(n, st) if n.op in ("fld", "idx") else n
            return loc
        if loc.op == "idx":
            b = self.read_base(loc.a[0], st)
            if b is not loc.a[0]:
                n = idx(b, *loc.a[1:])
                if n is not loc:
                    return self.read(n, st) if n.op in ("fld", "idx") else n
            return loc
        return loc

    def read_base(self, b, st):
        """Value of a container/object location, without building a struct
        snapshot of separately tracked parts."""
        v = st.mem.get(b)
        if v is not None:
            return v
        if b in self.assume:
            return self.assume[b]
        if b.op == "fld":
            x = self.read_base(b.a[0], st)
            if x is not b.a[0]:
                n = fld(x, b.a[1])
                return self.read_base(n, st) if n.op in ("fld", "idx") and n is not b else n
        if b.op == "idx":
            x = self.read_base(b.a[0], st)
            if x is not b.a[0]:
                n = idx(x, *b.a[1:])
                return self.read_base(n, st) if n.op in ("fld", "idx") and n is not b else n
        return b

    def write(self, loc, val, st):
        if loc.op == "slice":
            if all(x.op == "all" for x in loc.a[1:]):
                loc = loc.a[0]
            else:
                self._write_section(loc, val, st)
                return
        if loc.op == "ite":
            return
        dead = [k for k in st.mem if k is not loc and contains(k, loc) and k.op in ("fld", "idx") and self._prefix(loc, k)]
        for k in dead:
            del st.mem[k]
        st.mem[loc] = val

    def _write_section(self, loc, val, st):
        arr = loc.a[0]
        ks = []
        for n, x in enumerate(loc.a[1:]):
            if x.op == "range":
                ks.append(self._binder(mk("rng", ZERO, add(sub(x.a[1], x.a[0]), ONE))))
            elif x.op == "all":
                ks.append(self._binder(mk("rng", ZERO, mk("app", "extent", arr, const(n)))))
        base = self.read_base(arr, st)
        if len(ks) == 1:
            pat = idx(loc, *ks)
            v = mk("map", base, ks[0], tuple(pat.a[1:]), element(val, ks))
        else:
            v = mk("app", "section", base, *(list(loc.a[1:]) + [val]))
        self.write(arr, v, st)

    @staticmethod
    def _prefix(loc, k):
        while k.op in ("fld", "idx"):
            k = k.a[0]
            if k is loc:
                return True
        return False

    def resolve(self, loc, st):
        """Follow aliases (references held by a view member) so that stores
        through a view are recorded against the viewed array."""
        if loc.op == "idx":
            b = self.resolve(loc.a[0], st)
            return idx(b, *loc.a[1:]) if b is not loc.a[0] else loc
        if loc.op == "fld":
            v = st.mem.get(loc)
            if v is not None and v.op == "alias":
                return v.a[0]
            b = self.resolve(loc.a[0], st)
            return fld(b, loc.a[1]) if b is not loc.a[0] else loc
        v = st.mem.get(loc)
        if v is not None and v.op == "alias":
            return v.a[0]
        if v is not None and v.op == "addr":
            return loc
        return loc

    # ------------------------------------------------------------ statements
    def block(self, b, fr, st):
        if b is None:
            return st
        if isinstance(b, dict):
            if b["k"] == "block":
                return self.block(b.get("body") or b.get("s") or [], fr, st)
            return self.stmt(b, fr, st)
        for s in b:
            if st is None:
                return None
            st = self.stmt(s, fr, st)
        return st

    def stmt(self, s, fr, st):
        self.budget -= 1
        if self.budget < 0:
            raise AnalysisBroken("value numbering of %s did not finish" % self.stack[0])
        k = s["k"]
        if k == "expr":
            self.rv(s["e"], fr, st)
            return None if self._noreturn(s["e"], fr, st) else st
        if k == "decl":
            for v in s["v"]:
                self.decl(v, fr, st)
            return st
        if k == "block":
            return self.block(s.get("body", []), fr, st)
        if k == "ret":
            v = None
            if s.get("e") is not None:
                e = s["e"]
                if self._by_ref(fr.func.rt or "") if fr.func and not getattr(fr, "parent", None) else False:
                    v = self.lv(e, fr, st)
                else:
                    p = self._peel(e)
                    tail, own = self.tail, len(self.stack) <= self.tail
                    if p["k"] == "var" and own and _container_type(p.get("t")):
                        l = self._var(p, fr)
                        if l.op == "L":
                            self.retlocs.add(l)
                    if own and p["k"] == "call":
                        self.tail = len(self.stack) + 1
                    v = self._plain(self.rv(e, fr, st), st)
                    self.tail = tail
            if self.brk and self.brk[-1] == fr.n:
                self.effect("exit", fr, st, s["l"])
            fr.returns.append((st.pc, st, v))
            return None
        if k == "if":
            return self.if_(s, fr, st)
        if k == "for":
            return self.for_(s, fr, st)
        if k == "range":
            return self.range_(s, fr, st)
        if k in ("while", "do"):
            return self.while_(s, fr, st)
        if k == "switch":
            return self.switch_(s, fr, st)
        if k == "break":
            if self.brk and self.brk[-1]:
                self.effect("exit", fr, st, s["l"])
            fr.breaks.append(st)
            return None
        if k == "continue":
            fr.conts.append(st)
            return None
        if k == "try":
            pre = st.copy()
            st2 = self.block(s["body"], fr, st)
            for h in s["h"]:
                hs = pre.copy()
                hs.pc = hs.pc + (mk("app", "caught", mk("s", h.get("t") or "...")),)
                if h.get("var"):
                    hv = h["var"]
                    if isinstance(hv, dict):
                        fr.env[hv["d"]] = self._local(fr, hv)
                self.block(h["body"], fr, hs)
            return st2
        if k == "omp":
            self.omp.append(s)
            try:
                if self.reads:
                    self.effect("omp", fr, st, s["l"], name="begin", node=s)
                st = self.block(s.get("body"), fr, st)
                if self.reads and st is not None:
                    self.effect("omp", fr, st, s["l"], name="end", node=s)
                return st
            finally:
                self.omp.pop()
        if k in ("case", "default", "label"):
            return self.block(s.get("body"), fr, st)
        if k == "nop":
            return st
        if k == "throw":
            self.rv(s, fr, st)
            return None
        # unknown statement: evaluate nested expressions
        return st

    def _noreturn(self, e, fr, st):
        if e["k"] == "throw":
            return True
        if e["k"] == "call" and e.get("noret") and e.get("fn") != "__assert_fail":
            return True
        if e["k"] == "call" and e.get("fn") == "__assert_fail":
            return True
        return False

    def decl(self, v, fr, st):
        if "d" not in v:
            return
        loc = self._local(fr, v)
        t = v.get("t", "")
        init = v.get("init")
        if self._by_ref(t) and init is not None:
            b = self.lv(init, fr, st)
            b = self.resolve(b, st)
            fr.env[v["d"]] = b
            return
        src = self._viewed(t, init)
        if src is not None:
            # copying a blitz array shares its storage
            b = self.resolve(self.lv(src, fr, st), st)
            if b.op in ("slice", "fld", "idx", "sym"):
                fr.env[v["d"]] = b
                return
        fr.env[v["d"]] = loc
        for kx in [x for x in st.mem if x is loc or self._prefix(loc, x)]:
            del st.mem[kx]
        if init is not None:
            val = self.rv(init, fr, st)
            if val.op == "newobj":
                self._adopt(val.a[0], loc, st)
                return
            if val is not loc:
                st.mem[loc] = self._conv(val, t)
            if "stringstream<" in t and not [x for x in init.get("a") or [] if x is not None and "openmode" not in (x.get("t") or "")
                                             and "Openmode" not in (x.get("t") or "")]:
                st.mem[fld(loc, "<text>")] = mk("s", "")
            self.effect("decl", fr, st, v.get("l"), loc=loc, val=val, node=v)
        else:
            if is_int(t) or is_flt(t):
                st.mem[loc] = mk("undef", v["n"])

    @staticmethod
    def _viewed(t, init):
        """The array a local blitz array is a view of."""
        if init is None or not strip_type(t).startswith("blitz::Array<"):
            return None
        e = init
        while e.get("k") == "ctor" and e.get("copy") and len(e["a"]) == 1:
            e = e["a"][0]
        if e is not init and e.get("k") in ("var", "mem"):
            return e
        if e.get("k") == "call" and (e.get("fn") or "").startswith("blitz::Array<") and e["fn"].endswith("::operator()"):
            return e
        return None

    def _adopt(self, src, dst, st):
        """Move a freshly built temporary object into a variable."""
        for k in list(st.mem):
            if self._prefix(src, k):
                nk = self._rebase(k, src, dst)
                st.mem[nk] = st.mem.pop(k)
        if src in st.mem:
            st.mem[dst] = st.mem.pop(src)

    def _rebase(self, k, src, dst):
        if k is src:
            return dst
        return mk(k.op, self._rebase(k.a[0], src, dst), *k.a[1:])

    def _conv(self, v, t):
        return v

    # -- branching
    def if_(self, s, fr, st):
        if s.get("init"):
            st = self.stmt(s["init"], fr, st)
        if s.get("cv"):
            self.decl(s["cv"], fr, st)
        c = self.rv(s["c"], fr, st)
        c = self._truth(c)
        if c.op == "c":
            br = s["then"] if c.a[0] else s.get("else")
            return self.block(br, fr, st) if br is not None else st
        pre = st.pc
        nr = len(fr.returns) + len(fr.breaks) + len(fr.conts)
        a = st.copy()
        a.pc = pre + (c,)
        a = self.block(s["then"], fr, a)
        nr2 = len(fr.returns) + len(fr.breaks) + len(fr.conts)
        b = st.copy()
        b.pc = pre + (not_(c),)
        b = self.block(s.get("else"), fr, b) if s.get("else") is not None else b
        nr3 = len(fr.returns) + len(fr.breaks) + len(fr.conts)
        return self._join(c, a, b, pre, nr2 > nr, nr3 > nr2)

    def _join(self, c, a, b, pre, ajump, bjump):
        if a is None and b is None:
            return None
        if a is None:
            if not ajump:      # the branch only fails: not a guard, a fact
                return State(b.mem, pre + b.pc[len(pre) + 1:], b.facts + (not_(c),))
            return b
        if b is None:
            if not bjump:
                return State(a.mem, pre + a.pc[len(pre) + 1:], a.facts + (c,))
            return a
        # both alive
        mem = {}
        keys = dict.fromkeys((*a.mem, *b.mem))
        for k in keys:
            va, vb = a.mem.get(k), b.mem.get(k)
            if va is vb:
                mem[k] = va
                continue
            if va is None:
                va = self._initial(k, a)
            if vb is None:
                vb = self._initial(k, b)
            if va.op == "alias" or vb.op == "alias":
                mem[k] = va if va.op == "alias" else vb
                continue
            mem[k] = ite(c, va, vb)
        ca, cb = a.pc[len(pre) + 1:], b.pc[len(pre) + 1:]
        pc = pre
        if ca or cb:
            x, y = TRUE, TRUE
            for q in ca:
                x = and_(x, q)
            for q in cb:
                y = and_(y, q)
            pc = pre + (ite(c, x, y),)
        facts = tuple(f for f in a.facts if f in b.facts)
        return State(mem, pc, facts)

    def _join_many(self, states, pre):
        """Join states whose path conditions extend `pre`."""
        states = [s for s in states if s is not None]
        if not states:
            return None
        out = states[-1]
        for s in reversed(states[:-1]):
            c = TRUE
            for q in s.pc[len(pre):]:
                c = and_(c, q)
            if c.op == "c" and c.a[0] is True:
                out = s
                continue
            mem = {}
            for k in dict.fromkeys((*s.mem, *out.mem)):
                va, vb = s.mem.get(k), out.mem.get(k)
                if va is vb:
                    mem[k] = va
                    continue
                if va is None:
                    va = self._initial(k, s)
                if vb is None:
                    vb = self._initial(k, out)
                if va.op == "alias" or vb.op == "alias":
                    mem[k] = va if va.op == "alias" else vb
                    continue
                mem[k] = ite(c, va, vb)
            out = State(mem, pre, tuple(f for f in s.facts if f in out.facts))
        return State(out.mem, pre, out.facts)

    def _merge_returns(self, fr, st):
        rets = list(fr.returns)
        if not rets:
            return None, st
        states = [r[1] for r in rets]
        if st is not None:
            states.append(st)
        # common prefix of path conditions
        pre = states[0].pc
        for s in states[1:]:
            n = 0
            while n < len(pre) and n < len(s.pc) and pre[n] is s.pc[n]:
                n += 1
            pre = pre[:n]
        val = None
        vals = [(r[0], r[2]) for r in rets if r[2] is not None]
        if vals:
            val = vals[-1][1]
            for pc, v in reversed(vals[:-1]):
                c = TRUE
                for q in pc[len(pre):]:
                    c = and_(c, q)
                val = ite(c, v, val)
        return val, self._join_many(states, pre)

    def _truth(self, c):
        return c

    # -- switch
    def switch_(self, s, fr, st):
        c = self.rv(s["c"], fr, st)
        body = s["body"]
        if isinstance(body, dict):
            body = body.get("body", []) if body["k"] == "block" else [body]
        flat = []

        def flatten(x):
            if isinstance(x, dict) and x["k"] in ("case", "default"):
                flat.append((x["k"], x.get("v"), x["l"]))
                b = x.get("body")
                if isinstance(b, list):
                    for y in b:
                        flatten(y)
                elif b is not None:
                    flatten(b)
            else:
                flat.append(("stmt", x, x["l"]))
        for x in body:
            flatten(x)
        labels = [(i, f) for i, f in enumerate(flat) if f[0] in ("case", "default")]
        pre = st.pc
        conds = {}
        none = TRUE
        for i, f in labels:
            if f[0] == "case":
                v = self.rv(f[1], fr, st)
                conds[i] = eq(c, v)
                none = and_(none, not_(conds[i]))
        has_default = False
        for i, f in labels:
            if f[0] == "default":
                conds[i] = none
                has_default = True
        out = []
        sb = fr.breaks
        # group labels that directly follow each other
        i = 0
        groups = []
        while i < len(flat):
            if flat[i][0] in ("case", "default"):
                cond = FALSE
                j = i
                while j < len(flat) and flat[j][0] in ("case", "default"):
                    cond = or_(cond, conds[j])
                    j += 1
                groups.append((cond, j))
                i = j
            else:
                i += 1
        for cond, j in groups:
            if cond.op == "c" and not cond.a[0]:
                continue
            x = st.copy()
            if not (cond.op == "c"):
                x.pc = pre + (cond,)
            fr.breaks = []
            y = x
            self.brk.append(0)
            for f in flat[j:]:
                if f[0] != "stmt":
                    continue
                y = self.stmt(f[1], fr, y)
                if y is None:
                    break
            self.brk.pop()
            outs = fr.breaks + ([y] if y is not None else [])
            if outs:
                jn = self._join_many(outs, x.pc)
                if jn:
                    out.append(jn)
            if cond.op == "c":
                break
        fr.breaks = sb
        if not has_default and not (none.op == "c" and not none.a[0]):
            x = st.copy()
            x.pc = pre + (none,) if none.op != "c" else pre
            out.append(x)
        return self._join_many(out, pre)

    # -- loops
    def _binder(self, dom):
        n = sum(1 for l in self.loops if l.b.a[0] is dom)
        return mk("bv", dom, n)

    def _find_inc(self, e):
        """(lvalue expr, step expr or None, sign) of an increment."""
        if e is None:
            return []
        if e["k"] == "bin" and e["op"] == ",":
            return self._find_inc(e["a"]) + self._find_inc(e["b"])
        if e["k"] == "cast":
            return self._find_inc(e["e"])
        if e["k"] == "un" and e["op"] in ("++", "p++", "--", "p--"):
            return [(e["e"], None, 1 if "+" in e["op"] else -1)]
        if e["k"] == "call" and e.get("op") in ("++", "--"):
            return [(e["obj"] if e.get("obj") is not None else e["a"][0], None,
                     1 if e["op"] == "++" else -1)]
        if e["k"] == "asg" and e["op"] in ("+=", "-="):
            return [(e["lhs"], e["rhs"], 1 if e["op"] == "+=" else -1)]
        return [(None, e, 0)]

    @staticmethod
    def _peel(e):
        while e is not None and e["k"] in ("cast",) or (e is not None and e["k"] == "ctor" and len(e["a"]) == 1 and e.get("copy")):
            e = e["e"] if e["k"] == "cast" else e["a"][0]
        return e

    def _conjuncts(self, c):
        c = self._peel(c)
        if c is not None and c["k"] == "bin" and c["op"] == "&&":
            return self._conjuncts(c["a"]) + self._conjuncts(c["b"])
        return [c]

    def for_(self, s, fr, st):
        if s.get("init") is not None:
            if s["init"]["k"] in ("decl", "expr", "block"):
                st = self.stmt(s["init"], fr, st)
            else:
                self.rv(s["init"], fr, st)
        incs = self._find_inc(s.get("inc"))
        ind = None
        extra = []
        for e, step, sg in incs:
            if ind is None and e is not None and sg:
                ev = self._peel(e)
                if ev["k"] == "var":
                    ind = (ev, step, sg)
                    continue
            extra.append((e, step, sg))
        match = None
        rest = []
        sp = self._entries(s, ind, fr, st)
        if sp is not None:
            m, k, loc = sp

            def setentry(x, v):
                x.mem[loc] = mk("app", "entry", m, k, v)
            return self._loop(mk("rng", ZERO, mk("app", "entries", m, k)), False, setentry, loc, s["body"], extra, [],
                              fr, st, s["l"], "for")
        if ind and s.get("c") is not None:
            for cj in self._conjuncts(s["c"]):
                m = self._bound(cj, ind[0]["d"]) if match is None else None
                if m:
                    match = m
                else:
                    rest.append(cj)
        if not match:
            return self._generic_loop(s, s.get("c"), s["body"], s.get("inc"), fr, st, "for")
        loc = fr.env.get(ind[0]["d"])
        if loc is None:
            loc = self._var(ind[0], fr)
        start = self.read(loc, st)
        bound = self.rv(match[1], fr, st)
        op = match[0]
        step = ONE if ind[1] is None else self.rv(ind[1], fr, st)
        cont = None
        lo, hi = start, bound
        if start.op == "iter":
            cont = start.a[0]
            lo = start.a[1]
            hi = bound.a[1] if bound.op == "iter" else bound
        down = ind[2] < 0
        if not down:
            if op in ("<=",):
                hi = add(hi, ONE)
            elif op not in ("<", "!="):
                return self._generic_loop(s, s.get("c"), s["body"], s.get("inc"), fr, st, "for")
        else:
            if op in (">", "!="):
                lo, hi = add(hi, ONE), add(lo, ONE)
            elif op == ">=":
                lo, hi = hi, add(lo, ONE)
            else:
                return self._generic_loop(s, s.get("c"), s["body"], s.get("inc"), fr, st, "for")
        dom = mk("rng", lo, hi) if step is ONE else mk("rng", lo, hi, step)

        def setvar(x, v):
            x.mem[loc] = mk("iter", cont, v) if cont is not None else v
        if self.unroll and lo.op == "c" and hi.op == "c" and step.op == "c" and \
                isinstance(lo.a[0], int) and isinstance(hi.a[0], int) and \
                (hi.a[0] - lo.a[0]) <= self.unroll * step.a[0]:
            seq = list(range(lo.a[0], hi.a[0], step.a[0]))
            if down:
                seq = seq[::-1]
            return self._unrolled(seq, setvar, s["body"], extra, rest, fr, st, loc)
        return self._loop(dom, down, setvar, loc, s["body"], extra, rest, fr, st, s["l"], "for",
                          after=(lambda x, at: setvar(x, (at or (lambda v: v))(hi if not down else sub(lo, ONE)))))

    def _entries(self, s, ind, fr, st):
        """A loop over the stored entries of one column of a sparse matrix:
        (matrix, column, iterator variable)."""
        if not ind or not (ind[0].get("t") or "").endswith("InnerIterator") or (s.get("init") or {}).get("k") != "decl":
            return None
        for v in s["init"]["v"]:
            i = self._peel(v.get("init"))
            if v.get("d") == ind[0]["d"] and i is not None and i["k"] == "ctor" and len(i["a"]) == 2:
                return self.resolve(self.lv(i["a"][0], fr, st), st), self.rv(i["a"][1], fr, st), fr.env[ind[0]["d"]]
        return None

    def _bound(self, c, d):
        c = self._peel(c)
        flip = {"<": ">", ">": "<", "<=": ">=", ">=": "<=", "!=": "!="}
        if c is None:
            return None
        if c["k"] == "bin" and c["op"] in flip:
            a, b = self._peel(c["a"]), self._peel(c["b"])
            if a["k"] == "var" and a.get("d") == d:
                return c["op"], c["b"]
            if b["k"] == "var" and b.get("d") == d:
                return flip[c["op"]], c["a"]
        if c["k"] == "call" and c.get("op") in flip:
            xs = ([c["obj"]] if c.get("obj") is not None else []) + c["a"]
            if len(xs) == 2:
                a, b = self._peel(xs[0]), self._peel(xs[1])
                if a["k"] == "var" and a.get("d") == d:
                    return c["op"], xs[1]
                if b["k"] == "var" and b.get("d") == d:
                    return flip[c["op"]], xs[0]
        return None

    def _unrolled(self, seq, setvar, body, extra, rest, fr, st, loc):
        pre = st.pc
        sb, sc = fr.breaks, fr.conts
        fr.breaks = []
        for v in seq:
            setvar(st, const(v))
            fr.conts = []
            x = st.copy()
            for cj in rest:
                c = self.rv(cj, fr, x)
                x.pc = x.pc + (c,)
            base = st.pc
            x = self.block(body, fr, x)
            outs = fr.conts + ([x] if x is not None else [])
            st = self._join_many(outs, base)
            if st is None:
                break
            for e, stp, sg in extra:
                self._do_inc(e, stp, sg, fr, st)
        outs = fr.breaks + ([st] if st is not None else [])
        fr.breaks, fr.conts = sb, sc
        return self._join_many(outs, pre)

    def _do_inc(self, e, stp, sg, fr, st):
        if e is None:
            self.rv(stp, fr, st)
            return
        loc = self.lv(e, fr, st)
        d = ONE if stp is None else self.rv(stp, fr, st)
        v = self.read(loc, st)
        self.write(loc, add(v, d) if sg > 0 else sub(v, d), st)

    def _once(self, bind, body, extra, rest, fr, st, post=None):
        """Execute a loop body once; returns the joined end state."""
        sb, sc = fr.breaks, fr.conts
        fr.breaks, fr.conts = [], []
        x = st.copy()
        bind(x)
        pre = x.pc
        for cj in rest:
            c = self.rv(cj, fr, x)
            if c.op != "c":
                x.pc = x.pc + (c,)
        self.brk.append(fr.n)
        x = self.block(body, fr, x)
        self.brk.pop()
        brk = None
        for q in fr.breaks:
            c = TRUE
            for w in q.pc[len(pre):]:
                c = and_(c, w)
            brk = c if brk is None else or_(brk, c)
        outs = fr.conts + ([x] if x is not None else [])
        end = self._join_many(outs, pre)
        bouts = fr.breaks
        if end is not None:
            for e, stp, sg in extra:
                self._do_inc(e, stp, sg, fr, end)
        fr.breaks, fr.conts = sb, sc
        if end is None:
            end = self._join_many(bouts, pre) if bouts else None
        elif bouts:
            # values on the breaking iteration also leave the loop
            end2 = self._join_many(bouts + [end], pre)
            end = end2
        return end, brk

    def _loop(self, dom, down, bind, ivar, body, extra, rest, fr, st, line, kind, after=None):
        b = self._binder(dom)
        lp = Loop()
        lp.b, lp.down, lp.line, lp.kind, lp.partial, lp.func = b, down, line, kind, False, fr.func
        lp.omp = tuple(self.omp)
        nret = len(fr.returns)

        def bindb(x):
            bind(x, b)
        # pass 1: which locations change
        self.loops.append(lp)
        self.dry += 1
        end, brk = self._once(bindb, body, extra, rest, fr, st)
        del fr.returns[nret:]
        changed = []
        if end is not None:
            for k, v in end.mem.items():
                if k is ivar or contains(k, b):
                    continue
                old = st.mem.get(k)
                if old is None and not self._visible(k, st, fr):
                    continue
                if old is not v and (old is not None or v is not k):
                    changed.append(k)
        # an element appended in the first pass is not one location that
        # changes: the position moves with the count
        grown = {k.a[0] for k in changed if k.op == "cnt"}
        changed = [k for k in changed if not (k.op == "idx" and k.a[0] in grown and k not in st.mem)]
        changed.sort(key=lambda k: k.id)
        phis = {k: mk("phi", b, k) for k in changed}
        inits = {k: (st.mem[k] if k in st.mem else self._initial(k, st)) for k in changed}
        closed = {}
        ends = {}
        if changed:
            x = st.copy()
            for k in changed:
                if inits[k].op == "alias":
                    continue
                x.mem[k] = phis[k]
            end, brk = self._once(bindb, body, extra, rest, fr, x)
            del fr.returns[nret:]
            # an element the first pass alone wrote to stands for one that moves
            # with a counter
            moved = [k for k in changed if k.op == "idx" and k not in st.mem and end is not None and end.mem.get(k) is phis[k]]
            if moved:
                changed = [k for k in changed if k not in moved]
                x = st.copy()
                for k in changed:
                    if inits[k].op != "alias":
                        x.mem[k] = phis[k]
                end, brk = self._once(bindb, body, extra, rest, fr, x)
                del fr.returns[nret:]
            if end is not None:
                for k in changed:
                    ends[k] = end.mem.get(k, phis[k])
                pset = [phis[k] for k in changed]
                for k in changed:
                    d = _delta(ends[k], phis[k])
                    if d is not None and not any(contains(d, q) for q in pset):
                        closed[k] = d
                # what an iterator refers to is known only once its own
                # progress is: go through the body again with it in place
                if any(inits[k].op in ("iter", "addr") for k in closed):
                    x = st.copy()
                    for k in changed:
                        if inits[k].op != "alias":
                            x.mem[k] = self._induct(inits[k], closed[k], b) if k in closed and inits[k].op in ("iter", "addr") \
                                else phis[k]
                    again, brk = self._once(bindb, body, extra, rest, fr, x)
                    del fr.returns[nret:]
                    if again is not None:
                        for k in changed:
                            if k not in closed or inits[k].op not in ("iter", "addr"):
                                ends[k] = again.mem.get(k, phis[k])
                                d = _delta(ends[k], phis[k])
                                closed.pop(k, None)
                                if d is not None and not any(contains(d, q) for q in pset):
                                    closed[k] = d
                # deltas may depend on other inductions; one more round
                for k in changed:
                    if k in closed:
                        continue
                    d = _delta(ends[k], phis[k])
                    if d is not None and not contains(d, phis[k]):
                        used = [j for j in changed if contains(d, phis[j])]
                        if all(j in closed for j in used):
                            m = {phis[j]: self._induct(inits[j], closed[j], b) for j in used}
                            closed[k] = subst(d, m)
            if dom.op == "whl" and len(rest) == 1 and kind != "do":
                # a loop that ends when a counter or iterator arrives at its end
                x = st.copy()
                for k in changed:
                    if inits[k].op != "alias":
                        x.mem[k] = self._induct(inits[k], closed[k], b) if k in closed else phis[k]
                c = self.rv(rest[0], fr, x)
                n = None
                if c.op == "not" and c.a[0].op == "eq" and b in c.a[0].a:
                    n = c.a[0].a[1] if c.a[0].a[0] is b else c.a[0].a[0]
                if n is not None and not contains(n, b) and not any(contains(n, q) for q in phis.values()):
                    self.dry -= 1
                    self.loops.pop()
                    return self._loop(mk("rng", ZERO, n), down, bind, ivar, body, extra, [], fr, st, line, kind, after)
        self.dry -= 1
        # pass 2: record effects with closed forms in place
        first = len(self.eff)
        x = st.copy()
        for k in changed:
            if inits[k].op == "alias":
                continue
            x.mem[k] = self._induct(inits[k], closed[k], b) if k in closed else phis[k]
        end, brk = self._once(bindb, body, extra, rest, fr, x)
        lp.partial = brk is not None
        self.loops.pop()
        # exit state
        out = st.copy()
        if end is not None:
            openk = [k for k in changed if k not in closed]
            if self.carried and not self.dry:
                self._carry(first, [k for k in openk if inits[k].op != "alias"], b, phis, inits, end, down)
            for k in changed:
                if inits[k].op == "alias":
                    out.mem[k] = end.mem.get(k, inits[k])
                    continue
                if k in closed and brk is None:
                    out.mem[k] = add(inits[k], self._total(closed[k], b))
                elif not any(contains(end.mem.get(k, phis[k]), phis[j]) for j in openk) \
                        and not contains(end.mem.get(k, phis[k]), b):
                    out.mem[k] = end.mem.get(k, phis[k])
                else:
                    ks = openk if k in openk else [k] if brk is None else openk + [k]
                    out.mem[k] = mk("fold", b, ks.index(k), tuple(phis[j] for j in ks),
                                    tuple(inits[j] for j in ks),
                                    tuple(end.mem.get(j, phis[j]) for j in ks), down, *((brk,) if brk is not None else ()))
            # element-wise updates
            maps = {}
            for k, v in end.mem.items():
                if k.op == "idx" and contains(k, b) and not contains(k.a[0], b) and k not in changed:
                    if st.mem.get(k) is v:
                        continue
                    maps.setdefault(k.a[0], []).append((k.a[1:], v))
            for arr, ups in maps.items():
                base = out.mem.get(arr)
                if base is None:
                    base = self._initial(arr, out)
                if base.op == "alias":
                    continue
                for pat, v in ups:
                    base = mk("map", base, b, tuple(pat), v)
                out.mem[arr] = base
        if after:
            at = None
            if brk is not None and end is not None and ivar is not None:
                # where the loop was left, or its end
                ph = mk("phi", b, ivar)
                at = lambda hi: mk("fold", b, len(openk), tuple(phis[j] for j in openk) + (ph,),
                                   tuple(inits[j] for j in openk) + (hi,),
                                   tuple(end.mem.get(j, phis[j]) for j in openk) + (ite(brk, b, ph),), down, brk)
            after(out, at)
        if len(fr.returns) > nret:
            pass
        return out

    def _carry(self, first, ks, b, phis, inits, end, down):
        """In the effects of a loop, what an iteration finds is what the ones
        before it left."""
        ps = tuple(phis[j] for j in ks)
        used = {i for e in self.eff[first:] for t in e.terms() for i in ids(t)}
        if not any(p.id in used for p in ps):
            return
        ins, ends = tuple(inits[j] for j in ks), tuple(end.mem.get(j, phis[j]) for j in ks)
        m = {p: mk("pfold", b, n, ps, ins, ends, down) for n, p in enumerate(ps)}

        def f(t):
            return subst(t, m) if isinstance(t, T) else t
        loops = {}
        for e in self.eff[first:]:
            if e.loc is not None and e.kind != "call":
                e.loc = f(e.loc)
            e.val, e.obj = f(e.val), f(e.obj)
            e.pc = tuple(f(c) for c in e.pc)
            e.args = type(e.args)(f(x) for x in e.args)
            if e.ins is not None:
                e.ins = type(e.ins)(f(x) for x in e.ins)
            ls = []
            for l in e.loops:
                if any(p.id in ids(l.b) for p in ps):
                    if l not in loops:
                        loops[l] = copy.copy(l)
                        loops[l].b = f(l.b)
                    l = loops[l]
                ls.append(l)
            e.loops = type(e.loops)(ls)

    def _visible(self, k, st, fr):
        """Is location k meaningful outside the loop body it was found in?"""
        r = k
        while r.op in ("fld", "idx"):
            r = r.a[0]
        if r.op in ("L", "tmp"):
            return r in st.mem or any(self._prefix(r, j) for j in st.mem) or \
                r in fr.env.values() and r.op == "L" and self._declared_before(r, st, fr)
        return True

    def _declared_before(self, r, st, fr):
        return False

    def _ordinal(self, b):
        dom = b.a[0]
        if dom.op == "rng":
            o = sub(b, dom.a[0])
            if len(dom.a) > 2:
                o = div(o, dom.a[2])
            return o
        return b

    def _induct(self, init, d, b):
        if not contains(d, b):
            return add(init, mul(d, self._ordinal(b)))
        return add(init, mk("psum", b, d))

    def _total(self, d, b):
        dom = b.a[0]
        if not contains(d, b) and dom.op == "rng":
            n = sub(dom.a[1], dom.a[0])
            if len(dom.a) > 2:
                n = div(n, dom.a[2])
            return mul(d, n)
        return mk("sum", b, d)

    def range_(self, s, fr, st):
        r = self.lv(s["r"], fr, st)
        r = self.resolve(r, st)
        v = s["var"]
        cont, lo, hi = self._container(r, s.get("rt"), fr, st)
        if hi is None:
            hi = self._size(cont, st)
        dom = mk("rng", lo, hi)
        loc = self._local(fr, v)
        byref = self._by_ref(v["t"])
        if cont.op == "ilist" and self.unroll:
            elems = list(cont.a)

            def setv(x, t):
                x.mem[loc] = elems[t.a[0]]
            fr.env[v["d"]] = loc
            return self._unrolled(list(range(len(elems))), setv, s["body"], [], [], fr, st, loc)

        def bind(x, b):
            el = idx(cont, b)
            if byref:
                fr.env[v["d"]] = el
            else:
                fr.env[v["d"]] = loc
                for kx in [k for k in x.mem if self._prefix(loc, k)]:
                    del x.mem[kx]
                x.mem[loc] = self.read(el, x)
        return self._loop(dom, False, bind, loc, s["body"], [], [], fr, st, s["l"], "range")

    def _container(self, r, rt, fr, st):
        """(container, lo, hi) a range-for iterates."""
        val = self.read_base(r, st)
        if val.op in ("ilist",):
            return val, ZERO, const(len(val.a))
        cn = strip_type(rt or "")
        n = _array_len(cn)
        if n is not None:
            return r, ZERO, const(n)
        for c in self.prog.all_bases(cn) if cn in self.prog.classes else []:
            cl = self.prog.classes.get(c)
            if not cl:
                continue
            fb = [f for f in self.prog.by_name.get(cl["n"] + "::begin", []) if not f.p]
            fe = [f for f in self.prog.by_name.get(cl["n"] + "::end", []) if not f.p]
            if fb and fe and len(self.stack) < self.max_depth:
                b = self._inline(fb[0], r, [], fr, st)
                e = self._inline(fe[0], r, [], fr, st)
                if b is not None and b.op == "iter":
                    hi = e.a[1] if e is not None and e.op == "iter" else None
                    return b.a[0], b.a[1], hi
                if b is not None and e is not None:   # pointers
                    n = _delta(e, b)
                    if n is not None:
                        return b, ZERO, n
        return r, ZERO, None

    def while_(self, s, fr, st):
        return self._generic_loop(s, s.get("c"), s["body"], None, fr, st, s["k"])

    def _generic_loop(self, s, cond, body, inc, fr, st, kind):
        tag = "%s:%s" % (fr.func.n if fr.func else "?", s["l"])
        n = sum(1 for l in self.loops if l.b.a[0].op == "whl")
        dom = mk("whl", n)
        if kind == "while" and cond is not None and cond["k"] == "bin":
            self.dry += 1
            c = self.rv(cond, fr, st.copy())
            self.dry -= 1
            if c is FALSE:
                return st
        extra = [(None, inc, 0)] if inc is not None else []
        rest = [cond] if cond is not None else []
        return self._loop(dom, False, lambda x, b: None, None, body, extra, rest, fr, st, s["l"], kind)

    # ---------------------------------------------------------- expressions
    def _var(self, e, fr):
        d = e.get("d")
        f = fr
        if d in f.env:
            return f.env[d]
        # captured by a lambda: look in defining frames
        p = getattr(f, "parent", None)
        while p is not None:
            if d in p.env:
                return p.env[d]
            p = getattr(p, "parent", None)
        return mk("sym", e.get("qn") or e["n"])

    def lv(self, e, fr, st):
        """Location denoted by an expression (or its value, for rvalues)."""
        k = e["k"]
        if k == "var":
            loc = self._var(e, fr)
            if e.get("vk") in ("global", "static") and loc.op == "sym":
                g = self._global(e)
                if g is not None:
                    return g
            return loc
        if k == "mem":
            if e.get("b") is None:
                return fld(fr.this, e["n"])
            if e.get("arrow"):
                b = self.rv_ptr(e["b"], fr, st)
            else:
                b = self.lv(e["b"], fr, st)
            b = self.resolve(b, st)
            if b.op == "addr":
                b = b.a[0]
            return fld(b, e["n"])
        if k == "sub":
            b = self.lv(e["b"], fr, st)
            bv = st.mem.get(b)
            if bv is None and b.op == "addr":
                bv = b
            if bv is not None and bv.op == "addr" and bv.a[0].op == "idx":
                return self.resolve(elem(bv.a[0], self.rv(e["i"], fr, st)), st)
            if bv is not None and bv.op in ("addr", "alias"):
                b = bv.a[0]
            elif bv is not None and bv.op in ("fld", "idx", "sym", "app", "ite", "bv"):
                b = bv   # pointer variable: index what it points to
            b = self.resolve(b, st)
            i = self.rv(e["i"], fr, st)
            return idx(b, i)
        if k == "un" and e["op"] == "*":
            return self.deref(self.rv_ptr(e["e"], fr, st))
        if k == "this":
            return fr.this
        if k == "cast":
            if e.get("ck") in ("LValueToRValue", "NoOp", "DerivedToBase", "UncheckedDerivedToBase",
                               "BaseToDerived", "ArrayToPointerDecay", "ConstructorConversion",
                               "UserDefinedConversion", None, "Dynamic", "BitCast"):
                return self.lv(e["e"], fr, st)
            return self.rv(e, fr, st)
        if k == "cond":
            c = self.rv(e["c"], fr, st)
            a, b = self.lv(e["a"], fr, st), self.lv(e["b"], fr, st)
            return ite(c, a, b)
        if k == "call":
            return self.call(e, fr, st, want_loc=True)
        if k == "asg":
            self.rv(e, fr, st)
            return self.lv(e["lhs"], fr, st)
        if k == "un" and e["op"] in ("++", "--"):
            self.rv(e, fr, st)
            return self.lv(e["e"], fr, st)
        if k == "ctor":
            if e.get("copy") and len(e["a"]) >= 1:
                return self.lv(e["a"][0], fr, st)
            v = self.rv(e, fr, st)
            return v.a[0] if v.op == "newobj" else v
        if k == "bin" and e["op"] == ",":
            self.rv(e["a"], fr, st)
            return self.lv(e["b"], fr, st)
        return self.rv(e, fr, st)

    def rv_ptr(self, e, fr, st):
        """Value of a pointer-like expression: the object it points to."""
        v = self.rv(e, fr, st)
        if v.op == "struct" and v.a[0].op != "undef" and (e.get("t") or "").rstrip().endswith("*"):
            return v.a[0]   # the object itself, not what is known of it
        return v.a[0] if v.op == "addr" else v

    def deref(self, v):
        if v.op == "addr":
            return v.a[0]
        if v.op == "iter":
            return idx(v.a[0], v.a[1])
        return v

    def _global(self, e):
        g = self.prog.globals.get(e.get("u"))
        if g is None or "init" not in g or g.get("init") is None:
            return None
        t = g.get("t", "")
        if "const" not in t and not g.get("cexpr"):
            return None
        if g.get("_val") is None:
            it = Interp(self.prog)
            fr = Frame(self.stack[-1] if self.stack else None, mk("this"), 0)
            try:
                v = it.rv(g["init"], fr, State())
            except Exception:
                v = mk("sym", g["n"])
            self.prog.gvals = getattr(self.prog, "gvals", {})
            g["_val"] = True
            self.prog.gvals[e["u"]] = v
        v = self.prog.gvals[e["u"]]
        if v.op in ("c", "ilist", "s") or v.op == "neg":
            return v
        return None

    def rv(self, e, fr, st):
        k = e["k"]
        if k == "int":
            return const(int(e["v"]))
        if k == "flt":
            return const(float(e["v"]))
        if k == "bool":
            return const(bool(e["v"]))
        if k == "chr":
            return const(int(e["v"])) if not isinstance(e["v"], str) else mk("s", e["v"])
        if k == "str":
            return mk("s", e["v"])
        if k == "null":
            return mk("sym", "nullptr")
        if k == "enum":
            return const(int(e["v"]))
        if k == "this":
            return fr.this
        if k == "zero":
            return ZERO
        if k == "sizeof":
            return mk("sym", "sizeof")
        if k == "fref":
            return mk("fn", e.get("fn") or "?")
        if k in ("var", "mem", "sub"):
            loc = self.lv(e, fr, st)
            loc = self.resolve(loc, st)
            return self.used(loc, fr, st, e)
        if k == "cast":
            return self.cast(e, fr, st)
        if k == "un":
            return self.unary(e, fr, st)
        if k == "bin":
            return self.binary(e, fr, st)
        if k == "asg":
            return self.assign(e, fr, st)
        if k == "cond":
            # an assertion
            b = e["b"]
            if any(n["k"] == "call" and n.get("fn") == "__assert_fail" for n in walk(b)) or \
                    any(n["k"] == "call" and n.get("fn") == "__assert_fail" for n in walk(e["a"])):
                return ZERO
            c = self._truth(self.rv(e["c"], fr, st))
            if c.op == "c":
                return self.rv(e["a"] if c.a[0] else e["b"], fr, st)
            a, bs = st.copy(), st.copy()
            a.pc = st.pc + (c,)
            bs.pc = st.pc + (not_(c),)
            va = self.rv(e["a"], fr, a)
            vb = self.rv(e["b"], fr, bs)
            j = self._join(c, a, bs, st.pc, False, False)
            st.mem = j.mem
            return ite(c, va, vb)
        if k == "call":
            return self.call(e, fr, st)
        if k == "ctor":
            return self.ctor(e, fr, st)
        if k == "ilist":
            vs = [self.rv(x, fr, st) for x in e["e"]]
            return mk("ilist", *[self.read(v.a[0], st) if v.op == "newobj" else v for v in vs])
        if k == "lambda":
            self.lambdas[e["f"]] = (e, fr)
            return mk("lam", e["f"])
        if k == "throw":
            # the construction of the exception object is not of interest
            self.dry += 1
            v = self.rv(e["e"], fr, st.copy()) if e.get("e") else None
            self.dry -= 1
            self.effect("throw", fr, st, e["l"], val=v, name=e.get("t") or "rethrow", node=e)
            return ZERO
        if k == "new":
            args = [self.rv(e["init"], fr, st)] if e.get("init") else []
            if e.get("n"):
                args.append(self.rv(e["n"], fr, st))
            if e.get("place") and args:
                at = self.rv(e["place"], fr, st)
                if at.op == "addr":
                    self.write(at.a[0], args[0], st)
                return at
            if args and args[0].op == "newobj":
                return args[0].a[0]
            return mk("app", "new:" + strip_type(e["t"]), *args)
        if k == "delete":
            self.effect("delete", fr, st, e["l"], val=self.rv(e["e"], fr, st), name="delete", node=e)
            return ZERO
        if k == "?":
            vals = [self.rv(x, fr, st) for x in e.get("ch", []) if isinstance(x, dict) and "k" in x]
            if len(vals) == 1:
                return vals[0]
            return mk("app", "?" + e.get("sc", ""), *vals)
        return mk("app", "?" + k)

    def cast(self, e, fr, st):
        ck = e.get("ck")
        if ck in ("LValueToRValue",):
            return self.rv(e["e"], fr, st)
        v = self.rv(e["e"], fr, st)
        if ck == "FloatingToIntegral":
            return cast_trunc(v)
        if ck in ("FloatingToBoolean", "IntegralToBoolean", "PointerToBoolean"):
            if v.op == "c" and not isinstance(v.a[0], bool):
                return const(bool(v.a[0]))
            if v.op in ("lt", "le", "eq", "not", "and", "or") or (v.op == "c"):
                return v
            if ck == "PointerToBoolean":
                return mk("app", "nonnull", v)
            if self._boolish(v):
                return v
            return not_(eq(v, ZERO))
        if ck == "IntegralCast" and v.op == "c" and isinstance(v.a[0], bool):
            return const(int(v.a[0]))
        if ck == "ArrayToPointerDecay":
            return v
        return v

    @staticmethod
    def _boolish(v):
        return v.op in ("lt", "le", "eq", "not", "and", "or")

    def unary(self, e, fr, st):
        op = e["op"]
        if op == "*":
            loc = self.deref(self.rv_ptr(e["e"], fr, st))
            return self.used(loc, fr, st, e) if loc.op in ("fld", "idx", "L", "sym", "tmp") else loc
        if op == "&":
            loc = self.resolve(self.lv(e["e"], fr, st), st)
            return loc if loc.op == "this" else mk("addr", loc)
        if op in ("++", "--", "p++", "p--"):
            loc = self.resolve(self.lv(e["e"], fr, st), st)
            old = self.read(loc, st)
            new = add(old, ONE) if "+" in op else sub(old, ONE)
            self.write(loc, new, st)
            self.effect("store", fr, st, e["l"], loc=loc, op="+=" if "+" in op else "-=",
                        val=ONE, node=e)
            return old if op.startswith("p") else new
        if op == "__extension__":
            return self.rv(e["e"], fr, st)
        v = self.rv(e["e"], fr, st)
        if op == "-":
            return neg(v)
        if op == "+":
            return v
        if op == "!":
            return not_(v)
        return mk("app", "op" + op, v)

    def arith(self, op, a, b, t=None):
        if op == "+":
            return add(a, b)
        if op == "-":
            return sub(a, b)
        if op == "*":
            return mul(a, b)
        if op == "/":
            if t is not None and is_int(t):
                return idiv(a, b)
            return div(a, b)
        if op == "%":
            return mod(a, b)
        if op == "<":
            return lt(a, b)
        if op == ">":
            return lt(b, a)
        if op == "<=":
            return le(a, b)
        if op == ">=":
            return le(b, a)
        if op == "==":
            return eq(a, b)
        if op == "!=":
            return not_(eq(a, b))
        if op in ("|", "&") and a.op in LOGICAL and b.op in LOGICAL:
            return or_(a, b) if op == "|" else and_(a, b)
        return mk("app", "op" + op, a, b)

    def binary(self, e, fr, st):
        op = e["op"]
        if op == ",":
            self.rv(e["a"], fr, st)
            return self.rv(e["b"], fr, st)
        if op in ("&&", "||"):
            a = self.rv(e["a"], fr, st)
            if a.op == "c":
                if bool(a.a[0]) == (op == "||"):
                    return a
                return self.rv(e["b"], fr, st)
            x = st.copy()
            x.pc = st.pc + ((a if op == "&&" else not_(a)),)
            b = self.rv(e["b"], fr, x)
            if x.mem != st.mem:
                j = self._join(a if op == "&&" else not_(a), x, st.copy(), st.pc, False, False)
                # pc bookkeeping: x carries one extra condition
                st.mem = j.mem
            return and_(a, b) if op == "&&" else or_(a, b)
        a = self.rv(e["a"], fr, st)
        b = self.rv(e["b"], fr, st)
        if a is b and op in ("==", "!=") and a.op != "c" and \
                strip_type((e["a"] or {}).get("t") or "") in FLT_TYPES:
            n = mk("app", "std::isnan", a)
            return n if op == "!=" else not_(n)
        if op in ("<", ">", "<=", ">=") and (_intc(a) != _intc(b)) and \
                is_int((e["a"] or {}).get("t") or "") and is_int((e["b"] or {}).get("t") or ""):
            # whole numbers: every comparison with a literal asks whether the other is less than some literal
            if _intc(a):
                a, b, op = b, a, {"<": ">", ">": "<", "<=": ">=", ">=": "<="}[op]
            b = add(b, ONE) if op in ("<=", ">") else b
            if b.op == "c" and b.a[0] <= 0 and all(strip_type(e[x].get("t") or "").startswith("unsigned") for x in "ab"):
                c = FALSE     # nothing unsigned is negative
            else:
                c = lt(a, b)
            return c if op[0] == "<" else not_(c)
        return self.arith(op, a, b, e.get("t"))

    def store(self, loc, op, val, fr, st, line, node=None, t=None):
        loc = self.resolve(loc, st)
        if op != "=":
            old = self.read(loc, st)
            new = self.arith(op[:-1], old, val, t)
        else:
            new = val
            op, val = self._compound(loc, val, st)
        if loc.op == "ite":
            c, a, b = loc.a
            for cc, l2 in ((c, a), (not_(c), b)):
                x = State(st.mem, st.pc + (cc,), st.facts)
                self.effect("store", fr, x, line, loc=l2, op=op, val=val, node=node)
                old = self.read(l2, st)
                n2 = self.arith(op[:-1], old, val, t) if op != "=" else val
                st.mem[l2] = ite(cc, n2, old)
            return new
        if new.op == "newobj":
            if val is new:
                val = self._held(new, st)
            self.write(loc, loc, st)
            del st.mem[loc]
            self._adopt(new.a[0], loc, st)
        else:
            self.write(loc, new, st)
        if op == "=":
            st.mem.pop(mk("cnt", loc), None)
        self.effect("store", fr, st, line, loc=loc, op=op, val=val, node=node)
        return new

    def _compound(self, loc, val, st):
        """x = x + v is x += v, and so on."""
        if val.op in ("add", "sub", "mul", "div") and loc.op != "ite":
            old = self.read(loc, st)
            if old.op not in ("const", "newobj"):
                d = _delta(val, old)
                if d is not None and d is not ZERO:
                    return "+=", d
                if val.op == "mul" and old in val.a and not contains(val.a[1 - val.a.index(old)], old):
                    return "*=", val.a[1 - val.a.index(old)]
                if val.op == "div" and val.a[0] is old and not contains(val.a[1], old):
                    return "/=", val.a[1]
        return "=", val

    def assign(self, e, fr, st):
        op = e["op"]
        val = self.rv(e["rhs"], fr, st)
        if e["lhs"]["k"] == "cast" and 0:
            pass
        loc = self.lv(e["lhs"], fr, st)
        if op == "=" and is_int(e.get("t") or "") and False:
            pass
        ct = e.get("ct") or e.get("t")
        return self.store(loc, op, val, fr, st, e["l"], e, ct)

    # ------------------------------------------------------------- objects
    def _inits(self, func, fr, st, implicit=False):
        cls = self.prog.classes.get(func.cls)
        given = set()
        for i in func.inits:
            if implicit and i.get("written"):
                continue
            if i.get("mem"):
                given.add(i["mem"])
                loc = fld(fr.this, i["mem"])
                if i.get("e") is None:
                    continue
                ft = self._field_type(func.cls, i["mem"])
                if ft and self._by_ref(ft):
                    v = self.resolve(self.lv(i["e"], fr, st), st)
                    st.mem[loc] = mk("alias", v)
                else:
                    v = self.rv(i["e"], fr, st)
                    if v.op == "newobj":
                        w = self._held(v, st)
                        self._adopt(v.a[0], loc, st)
                        v = w
                    else:
                        self.write(loc, v, st)
                    self.effect("store", fr, st, i["l"], loc=loc, op="=", val=v, node=i)
                    if i["e"]["k"] == "ctor" and not i["e"]["a"] and "std::vector<" in (i["e"].get("ct") or i["e"].get("t") or ft or ""):
                        st.mem[mk("cnt", loc)] = ZERO
            elif i.get("base") or i.get("deleg"):
                e = i.get("e")
                f = self.prog.funcs.get((e or {}).get("f"))
                if e is not None and e.get("copy") and len(e["a"]) == 1 and (f is None or f.body is None):
                    v = self._plain(self.rv(e["a"][0], fr, st), st)
                    for b in self.prog.all_bases(strip_type(e.get("t") or "")):
                        for x in (self.prog.classes.get(b) or {"fields": []})["fields"]:
                            loc = fld(fr.this, x["n"])
                            y = self._plain(self.read(fld(v, x["n"]), st), st)
                            self.write(loc, y, st)
                            self.effect("store", fr, st, i["l"], loc=loc, op="=", val=y, node=i)
                elif e is not None and e["k"] == "ctor":
                    args = [self._arg(a, pt, fr, st) for a, pt in zip(e["a"], (e.get("pt") or []) + [""] * len(e["a"]))]
                    f = self.prog.funcs.get(e.get("f"))
                    if f is not None and f.body is not None and len(self.stack) < self.max_depth \
                            and f not in self.stack and not self._is_opaque(f):
                        self._inline(f, fr.this, args, fr, st, ctor=True)
                    else:
                        self.effect("call", fr, st, i["l"], name=e.get("fn") or "?", obj=fr.this, args=args, node=e)
                elif e is not None:
                    self.rv(e, fr, st)
        return st

    def _field_type(self, cls, name):
        for b in self.prog.all_bases(cls or ""):
            c = self.prog.classes.get(b)
            if c:
                for f in c["fields"]:
                    if f["n"] == name:
                        return f["t"]
        return None

    def ctor(self, e, fr, st):
        fn = e.get("fn") or ""
        args = e["a"]
        if e.get("copy") and len(args) >= 1:
            return self.rv(args[0], fr, st)
        f = self.prog.funcs.get(e.get("f"))
        if f is not None and f.body is not None and not self._is_opaque(f) and \
                f not in self.stack and len(self.stack) < self.max_depth and self._small(f):
            vals = [self._arg(a, pt, fr, st) for a, pt in zip(args, (e.get("pt") or []) + [""] * len(args))]
            t = self.tmp()
            self._inline(f, t, vals, fr, st, ctor=True)
            return mk("newobj", t)
        args = [a for a in args if a is not None and not strip_type(a.get("t") or "").startswith(
            ("std::allocator<", "blitz::GeneralArrayStorage<"))]
        vals = [self.rv(a, fr, st) for a in args]
        vals = [self._plain(v, st) for v in vals]
        short = fn.split("::")[-1]
        t = strip_type(e.get("t") or "")
        if t.startswith("std::pair<") and len(vals) == 2:
            return mk("struct", mk("sym", "pair"), ("first", vals[0], "second", vals[1]))
        if t.startswith("std::array<") and len(vals) == 0:
            return self.tmp()
        if len(vals) == 1 and (t.startswith(("__gnu_cxx::__normal_iterator", "std::unique_ptr", "std::shared_ptr",
                                             "std::basic_string", "blitz::Array", "blitz::Range",
                                             "std::reverse_iterator", "blitz::ConstArrayIterator"))):
            if t.startswith("blitz::Array") and "blitz" not in (args[0].get("t") or ""):
                return mk("app", "ctor:" + t.split("<")[0], *vals)
            return vals[0]
        if t.startswith("blitz::Range") and (len(vals) == 2 or (len(vals) == 3 and vals[2] is ONE)):
            return mk("range", *vals[:2])
        if t.startswith("blitz::Range") and not vals:
            return mk("all")
        if not vals:
            return self.tmp()
        cls = self.prog.classes.get(t)
        if cls is not None and f is not None and not self._is_opaque(f) and f.body is not None and 0:
            pass
        if f is not None or (fn and fn.startswith("mocc::")):
            self.effect("call", fr, st, e["l"], name=fn, obj=None, args=vals, node=e)
        return mk("app", "ctor:" + t.split("<")[0], *vals)

    def _plain(self, v, st):
        if v.op == "newobj":
            return self.read(v.a[0], st)
        return v

    def _small(self, f):
        n = getattr(f, "_calls", None)
        if n is None:
            n = sum(1 for _ in walk(f.body)) + sum(1 for i in f.inits for _ in walk(i))
            f._calls = n
        return n < 400

    # --------------------------------------------------------------- calls
    def _is_opaque(self, f, name=None):
        n = name or f.n
        if f is not None and outside(f.cls) and f.ctor and self.stack and self.stack[0].cls != f.cls and \
                not self.stack[0].n.startswith("ref::H5Node"):
            return True
        for o in self.opaque:
            if o == n or n.endswith("::" + o) or (hasattr(o, "search") and o.search(n)):
                return True
        return False

    def _forced(self, f):
        for o in self.inline:
            if o == f.n or f.n.endswith("::" + o) or (hasattr(o, "search") and o.search(f.n)):
                return True
        return False

    def _arg(self, a, pt, fr, st):
        """Value passed for a parameter: a location when bound by reference."""
        if a is None:
            return mk("sym", "default")
        if pt and self._by_ref(pt):
            p = self._peel2(a)
            v = self.lv(a, fr, st)
            v = self.resolve(v, st)
            if v.op == "newobj":
                return v.a[0]
            if v.op == "L":
                # reference to a local that itself holds an object/pointer
                return v
            return v
        v = self.rv(a, fr, st)
        return self._plain(v, st)

    def _peel2(self, e):
        return e

    def _target(self, e, fr):
        """Definition a call resolves to, or None if it must stay opaque."""
        fid = e.get("f")
        f = self.prog.funcs.get(fid)
        if e.get("virt") and not e.get("qualcall"):
            # dynamic dispatch
            dyn = None
            o = e.get("obj")
            if o is not None and self._peel(o) is not None and self._peel(o)["k"] == "this":
                dyn = fr.dyn
            cands = self._overrides(fid)
            if dyn:
                for b in self.prog.all_bases(dyn):
                    for c in cands:
                        if self.prog.funcs[c].cls == b:
                            return self.prog.funcs[c]
            if len(cands) == 1:
                return self.prog.funcs[next(iter(cands))]
            return None
        return f

    def _overrides(self, fid):
        seen, todo = set(), [fid]
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            todo.extend(self.prog.overriders.get(x, ()))
        return {x for x in seen if x in self.prog.funcs and self.prog.funcs[x].body is not None}

    def _inline(self, f, this, vals, fr, st, ctor=False, dyn=None):
        nf = Frame(f, this, self._fid(), dyn if dyn else (fr.dyn if this is fr.this else None))
        nf.parent = None
        for p, v in zip(f.p, vals):
            if self._by_ref(p["t"]):
                if v.op in ("L", "fld", "idx", "sym", "tmp", "slice", "app", "ite", "this"):
                    nf.env[p["d"]] = v
                else:
                    loc = self._local(nf, p)
                    nf.env[p["d"]] = loc
                    st.mem[loc] = v
            else:
                loc = self._local(nf, p)
                nf.env[p["d"]] = loc
                st.mem[loc] = v
        pre = st.pc
        self.stack.append(f)
        try:
            if f.ctor:
                self._inits(f, nf, st)
            x = st.copy()
            x = self.block(f.body, nf, x)
            val, x = self._merge_returns(nf, x)
        finally:
            self.stack.pop()
        if x is not None:
            st.mem = x.mem
            st.facts = x.facts
            st.pc = pre
        return val

    def call(self, e, fr, st, want_loc=False):
        fn = e.get("fn") or "?"
        op = e.get("op")
        short = fn.split("::")[-1] if "operator" not in fn else fn[fn.rindex("operator"):]
        if "<" in short and not short.startswith("operator"):
            short = short.split("<")[0]
        if fn == "__assert_fail":
            return ZERO
        # lambda call
        if e.get("obj") is not None and op == "()":
            ov = self.rv(e["obj"], fr, st)
            if ov.op == "lam" and ov.a[0] in self.lambdas:
                return self._call_lambda(ov.a[0], e, fr, st)
        f = self._target(e, fr)
        if f is not None and f.body is not None and not self._is_opaque(f) and \
                f not in self.stack and len(self.stack) < self.max_depth and \
                (self._forced(f) or self._inlinable(f)):
            pts = e.get("pt") or []
            this = None
            if e.get("obj") is not None:
                this = self._objloc(e, fr, st)
            elif f.cls and not f.static:
                this = fr.this
            args = e["a"]
            vals = []
            for i, a in enumerate(args):
                pt = pts[i] if i < len(pts) else ""
                vals.append(self._arg(a, pt, fr, st))
            v = self._inline(f, this, vals, fr, st)
            if v is None:
                return ZERO
            if want_loc:
                return v
            if self._by_ref(f.rt or ""):
                v = self.resolve(v, st)
                return self.used(v, fr, st, e) if v.op in ("L", "fld", "idx", "tmp") else v
            return v
        if f is None or self.prog.funcs.get(e.get("f")) is None:
            r = self._library(e, fn, short, op, fr, st, want_loc)
            if r is not None:
                return r
        # opaque
        obj = None
        if e.get("obj") is not None:
            obj = self._objloc(e, fr, st)
        pts = e.get("pt") or []
        vals = []
        for i, a in enumerate(e["a"]):
            pt = pts[i] if i < len(pts) else ""
            if a is None:
                continue
            if self._by_ref(pt) and not pt.startswith("const "):
                vals.append(self._arg(a, pt, fr, st))
            else:
                v = self._plain(self.rv(a, fr, st), st)
                if v.op == "slice" and v.a[0].op == "L":
                    v = mk("slice", self.read(v.a[0], st), *v.a[1:])
                vals.append(v)
        name = self._opname(e, fn)
        if short == "operator=" and obj is not None and len(vals) == 1 and pts and strip_type(pts[0]) == strip_type(e.get("ot") or ""):
            self.store(obj, "=", vals[0], fr, st, e["l"], e)
            return obj
        outp = any(self._by_ref(p) and not p.startswith("const ") for p in pts)
        pure = not outp and (e.get("cst") or obj is None)
        ver = self.version.get(obj.id if obj is not None else None, 0)
        rec = self.effect("call", fr, st, e["l"], name=name, obj=obj, args=vals, node=e)
        if not pure:
            if obj is not None and not self.dry:
                self.version[obj.id] = ver + 1
            # out-parameters are redefined
            ins = [self._objval(obj, st)] if obj is not None else []
            mut = [self._by_ref(pts[n]) and not pts[n].startswith("const ") if n < len(pts) else False
                   for n in range(len(vals))]
            ins += [self.read(x, st) if x.op in ("L", "idx", "fld") and m else x for x, m in zip(vals, mut)]
            for n, (v, m) in enumerate(zip(vals, mut)):
                scal = m and self._scalar(strip_type(pts[n]))
                if m and (v.op == "L" or (scal and v.op in ("idx", "fld"))) and not outside(pts[n]):
                    o = mk("app", "out%d:%s" % (n, name), *ins)
                    self.write(v, o, st)
                    if v.op != "L":
                        self.effect("store", fr, st, e["l"], loc=v, op="=", val=o, node=e)
            vals = ins[1:] if obj is not None else ins
            if self.havoc and obj is not None and not e.get("cst") and name.startswith("mocc::") and not outside(e.get("ot")) and \
                    obj.op in ("this", "fld", "idx", "L", "sym", "tmp"):
                res = mk("app", name, *ins)
                if rec is not None:
                    rec.ins, rec.res = tuple(vals), res
                self.write(obj, mk("app", "after:" + name, *ins), st)
                return res
        if obj is None and name.startswith("mocc::") and any(v.op == "iter" and v.a[0].op == "L" for v in vals):
            # a function that is given a range of a local array may change it
            at = list(dict.fromkeys(v.a[0] for v in vals if v.op == "iter" and v.a[0].op == "L"))
            vals = [mk("iter", self.read(v.a[0], st), v.a[1]) if v.op == "iter" and v.a[0] in at else v for v in vals]
            if rec is not None:
                rec.ins = tuple(vals)
            for n, l in enumerate(at):
                self.write(l, mk("app", "via%d:%s" % (n, name), *vals), st)
        # a text handed on by its address is its value
        vals = [self.read(v, st) if v.op == "L" and "basic_string" in (LTYPE.get(v) or "") else v for v in vals]
        args = ([self._objval(obj, st)] if obj is not None else []) + vals
        res = mk("app", name, *[x for x in args])
        if rec is not None:
            rec.ins, rec.res = tuple(vals), res
        return res

    def _objval(self, obj, st):
        if self.havoc and obj.op in ("this", "fld", "idx"):
            return self.read_base(obj, st)
        if obj.op in ("L", "tmp"):
            x = self.read(obj, st)
            return x if x.op == "struct" else obj
        return obj

    def _objloc(self, e, fr, st):
        o = e["obj"]
        ot = e.get("ot") or ""
        v = self.lv(o, fr, st)
        v = self.resolve(v, st)
        vv = st.mem.get(v)
        if vv is not None and vv.op in ("addr",):
            return vv.a[0]
        if vv is not None and v.op == "L" and vv.op in ("fld", "idx", "app", "sym", "tmp", "this", "ite") and \
                (ot.rstrip().endswith("*") or self._is_handle(o.get("t")) or outside(ot)):
            return vv
        if v.op == "addr":
            return v.a[0]
        if v.op == "newobj":
            return v.a[0]
        return v

    @staticmethod
    def _is_handle(t):
        t = (t or "").replace("const ", "").strip()
        return t.rstrip("const ").endswith("*") or t.startswith(("std::unique_ptr", "std::shared_ptr",
                                                                "std::__shared_ptr"))

    def _opname(self, e, fn):
        return fn

    def _inlinable(self, f):
        if self._small(f) or f.n.startswith("ref::"):
            return True
        # helpers of the function under analysis: same class or same file
        top = self.home or self.stack[0]
        return f.file == top.file or (f.cls and f.cls == top.cls)

    def _call_lambda(self, fid, e, fr, st):
        node, dfr = self.lambdas[fid]
        if any(getattr(x, "id", None) == fid for x in self.stack):
            return mk("app", "lambda")
        nf = Frame(dfr.func, dfr.this, self._fid(), dfr.dyn)
        nf.parent = dfr
        for p, a in zip(node["p"], e["a"]):
            v = self._arg(a, p["t"], fr, st)
            if self._by_ref(p["t"]) and v.op in ("L", "fld", "idx", "sym", "tmp", "slice"):
                nf.env[p["d"]] = v
            else:
                loc = self._local(nf, p)
                nf.env[p["d"]] = loc
                st.mem[loc] = v
        pre = st.pc
        x = self.block(node["body"], nf, st.copy())
        val, x = self._merge_returns(nf, x)
        if x is not None:
            st.mem, st.facts, st.pc = x.mem, x.facts, pre
        return val if val is not None else ZERO

    def _apply(self, lam, vals, st):
        """Value of a lambda for given argument values."""
        node, dfr = self.lambdas[lam.a[0]]
        nf = Frame(dfr.func, dfr.this, self._fid(), dfr.dyn)
        nf.parent = dfr
        x = st.copy()
        for p, v in zip(node["p"], vals):
            if self._by_ref(p["t"]) and v.op in ("L", "fld", "idx", "sym", "tmp", "slice"):
                nf.env[p["d"]] = v
            else:
                loc = self._local(nf, p)
                nf.env[p["d"]] = loc
                x.mem[loc] = self.read(v, x) if v.op in ("L", "fld", "idx", "tmp") else v
        self.dry += 1
        x = self.block(node["body"], nf, x)
        val, x = self._merge_returns(nf, x)
        self.dry -= 1
        return val

    def _over(self, short, vals, st):
        """Standard algorithms that fold a predicate or operation over a range."""
        b, en, lam = vals[0], vals[1], vals[-1]
        if b.op != "iter" or en.op != "iter" or lam.op != "lam" or lam.a[0] not in self.lambdas:
            return None
        dom = mk("rng", b.a[1], en.a[1])
        bv = self._binder(dom)
        el = self.resolve(idx(b.a[0], bv), st)
        ph = mk("phi", bv, mk("sym", short))
        if short == "accumulate":
            end = self._apply(lam, [ph, el], st)
            if end is None:
                return None
            d = _delta(end, ph)
            if d is not None and not contains(d, ph):
                return add(vals[2], mk("sum", bv, d))
            return mk("fold", bv, 0, (ph,), (vals[2],), (end,), False)
        c = self._apply(lam, [el], st)
        if c is None:
            return None
        c = self._truth(c)
        if short == "find_if":
            end = en.a[1]
            return mk("iter", b.a[0], mk("fold", bv, 0, (ph,), (end,), (ite(eq(ph, end), ite(c, bv, end), ph),), False))
        if short == "count_if":
            return mk("sum", bv, ite(c, ONE, ZERO))
        if short == "all_of":
            return mk("fold", bv, 0, (ph,), (TRUE,), (ite(c, ph, FALSE),), False)
        r = mk("fold", bv, 0, (ph,), (FALSE,), (ite(c, TRUE, ph),), False)
        return r if short == "any_of" else mk("not", r)

    def _function(self, v, st):
        """A lambda handed to an algorithm, as the value it gives for arbitrary
        arguments."""
        if v.op == "lam" and v.a[0] in self.lambdas:
            n = len(self.lambdas[v.a[0]][0]["p"])
            r = self._apply(v, [mk("sym", "lambda argument %d" % i) for i in range(n)], st)
            if r is not None:
                return mk("app", "function", r)
        return v

    # -- library semantics
    def _library(self, e, fn, short, op, fr, st, want_loc):
        a = e["a"]
        obj = e.get("obj")
        L = lambda x: self.resolve(self.lv(x, fr, st), st)
        R = lambda x: self._plain(self.rv(x, fr, st), st)

        def out(loc):
            if want_loc:
                return loc
            return self.used(loc, fr, st, e) if loc.op in ("L", "fld", "idx", "tmp", "sym") else loc
        if op in ("[]", "()") and obj is not None:
            b = self._objloc(e, fr, st)
            i = [R(x) for x in a if x is not None]
            bt = e.get("cls") or ""
            if b.op == "iter":
                b, i = b.a[0], [add(b.a[1], i[0])] + i[1:]
            return out(self.resolve(idx(b, *i), st))
        if obj is not None and short in ("row", "col", "index", "value", "valueRef") and \
                (e.get("cls") or "").endswith("InnerIterator"):
            v = self.rv(obj, fr, st)
            if v.op == "app" and v.a[0] == "entry":
                rc = [mk("app", n, *v.a[1:]) for n in ("row", "col")]
                if short in ("row", "col", "index"):
                    return rc[short == "col"]
                return out(self.resolve(idx(v.a[1], *rc), st))
        if op in ("->", "*") and obj is not None and not a:
            v = self.rv(obj, fr, st)
            if v.op == "iter":
                return out(self.resolve(idx(v.a[0], v.a[1]), st))
            if v.op == "addr":
                return out(v.a[0])
            loc = L(obj)
            vv = st.mem.get(loc)
            if vv is not None and vv.op not in ("c",):
                loc = vv.a[0] if vv.op in ("addr",) else vv
            return loc if want_loc or op == "->" else (self.read(loc, st) if loc.op in ("L", "fld", "idx", "tmp") else loc)
        if op in ("=", "+=", "-=", "*=", "/=") and (obj is not None or len(a) == 2):
            lhs = obj if obj is not None else a[0]
            rhs = a[0] if obj is not None else a[1]
            loc = L(lhs)
            v = self.rv(rhs, fr, st)
            if "blitz::" in (e.get("cls") or "") or "Eigen" in (e.get("cls") or ""):
                if op == "=" and v.op == "c":
                    self.effect("store", fr, st, e["l"], loc=loc, op=op, val=v, node=e)
                    self.write(loc, mk("fillv", v), st)
                    return loc
                self.effect("store", fr, st, e["l"], loc=loc, op=op, val=v, node=e)
                if op == "=":
                    self.write(loc, v if v.op != "newobj" else v.a[0], st)
                else:
                    self.write(loc, self.arith(op[:-1], self.read(loc, st), v), st)
                return loc
            self.store(loc, op, v, fr, st, e["l"], e)
            return loc if want_loc else self.read(loc, st)
        if op in ("++", "--") and (obj is not None or a):
            loc = L(obj if obj is not None else a[0])
            old = self.read(loc, st)
            new = add(old, ONE) if op == "++" else sub(old, ONE)
            self.write(loc, new, st)
            post = (obj is not None and len(a) == 1)
            return old if post else (loc if want_loc else new)
        if op in ("<<", ">>"):
            lhs = obj if obj is not None else a[0]
            rhs = a[0] if obj is not None else a[1]
            l = self.lv(lhs, fr, st)
            if op == ">>":
                loc = L(rhs)
                at = fld(l, "<read>")
                old = self.read(at, st)
                v = mk("app", "read", self.read(l, st), old)
                self.write(at, add(old, ONE), st)
                if loc.op in ("L", "fld", "idx", "sym"):
                    self.effect("store", fr, st, e["l"], loc=loc, op="=", val=v, node=e)
                    self.write(loc, v, st)
                return l
            v = self.rv(rhs, fr, st)
            self.effect("io", fr, st, e["l"], loc=l, val=v, node=e)
            at = fld(l, "<text>")
            if at in st.mem:
                self.write(at, joined(self.read(at, st), v), st)
            return l
        if op in ("+", "-", "*", "/", "%", "<", ">", "<=", ">=", "==", "!="):
            xs = ([obj] if obj is not None else []) + a
            if len(xs) == 2:
                return self.arith(op, R(xs[0]), R(xs[1]))
            if len(xs) == 1:
                return neg(R(xs[0])) if op == "-" else R(xs[0])
        if op == "!" and obj is not None:
            return not_(R(obj))
        if op in ("&&", "||"):
            xs = ([obj] if obj is not None else []) + a
            x, y = R(xs[0]), R(xs[1])
            return and_(x, y) if op == "&&" else or_(x, y)
        if short in ("operator bool",) or short.startswith("operator bool") or "operator void (*" in fn:
            return mk("app", "nonnull", self._objloc(e, fr, st))
        if obj is None:
            if short in MATH:
                return mk("app", MATH[short], *[R(x) for x in a])
            if short in ("abs", "fabs"):
                v = R(a[0])
                return const(abs(v.a[0])) if v.op == "c" else mk("abs", v)
            if short in ("max", "min") and len(a) == 2:
                x, y = R(a[0]), R(a[1])
                if x.op == "c" and y.op == "c":
                    return const(max(x.a[0], y.a[0]) if short == "max" else min(x.a[0], y.a[0]))
                if x.id > y.id:
                    x, y = y, x
                return mk(short, x, y)
            if short in ("move", "forward", "ref", "cref"):
                return L(a[0]) if want_loc else R(a[0])
            if short in ("make_pair",):
                return mk("struct", mk("sym", "pair"), ("first", R(a[0]), "second", R(a[1])))
            if short in ("get",) and e.get("targs"):
                return mk("app", "get", *[R(x) for x in a])
            if short == "distance":
                return sub(R(a[1]), R(a[0]))
            if short in ("next",) and len(a) >= 1:
                return add(R(a[0]), R(a[1]) if len(a) > 1 and a[1] is not None else ONE)
            if short == "swap":
                l1, l2 = L(a[0]), L(a[1])
                v1, v2 = self.read(l1, st), self.read(l2, st)
                self.store(l1, "=", v2, fr, st, e["l"], e)
                self.store(l2, "=", v1, fr, st, e["l"], e)
                return ZERO
            if short in ("any_of", "all_of", "none_of", "count_if", "find_if") and len(a) == 3 or short == "accumulate" and len(a) == 4:
                r = self._over(short, [R(x) for x in a], st)
                if r is not None:
                    return r
            if short == "accumulate" and len(a) == 3:
                b, en, init = R(a[0]), R(a[1]), R(a[2])
                if b.op == "iter" and en.op == "iter":
                    dom = mk("rng", b.a[1], en.a[1])
                    bv = mk("bv", dom, 90)
                    bv = mk("bv", dom, sum(1 for l in self.loops if l.b.a[0] is dom))
                    return add(init, mk("sum", bv, self.read(idx(b.a[0], bv), st)))
            if short == "sum" and len(a) == 1:
                x = L(a[0]) if self._peel(a[0])["k"] in ("var", "mem", "call") else R(a[0])
                return mk("app", "sum", R(a[0]))
            if short in ("sort", "stable_sort", "reverse", "fill", "copy", "unique", "iota", "transform"):
                vals = [self._function(R(x), st) for x in a]
                if vals and vals[0].op == "iter" and short == "fill":
                    self.effect("store", fr, st, e["l"], loc=vals[0].a[0], op="=", val=vals[-1], node=e)
                    self.write(vals[0].a[0], mk("fillv", vals[-1]), st)
                    return ZERO
                tgt = vals[0].a[0] if vals and vals[0].op == "iter" else None
                self.effect("call", fr, st, e["l"], name="std::" + short, obj=tgt, args=vals, node=e)
                if tgt is not None and short not in ("copy", "transform"):
                    self.write(tgt, mk("app", short, self.read_base(tgt, st), *vals[2:]), st)
                if short == "unique":
                    return mk("iter", tgt if tgt is not None else ZERO, mk("app", "uniq", *vals))
                return ZERO
            if fn.endswith("Range::all"):
                return mk("all")
            if short == "make_shared" or short == "make_unique":
                vals = [R(x) for x in a if x is not None]
                t = e.get("t") or ""
                m = re.search(r"<\s*(.*?)\s*[,>]", t)
                self.effect("call", fr, st, e["l"], name="make:" + (m.group(1) if m else t), obj=None, args=vals, node=e)
                return mk("app", "new:" + (m.group(1) if m else t), *vals)
            if fn == "blitz::Range::all" or short == "all":
                return mk("all")
        else:
            if short in ("eof", "fail", "good", "bad", "operator bool", "operator!") and "basic_ios" in fn:
                return mk("app", fn, self.read(self._objloc(e, fr, st), st))
            if short in ("begin", "cbegin"):
                return mk("iter", self._objloc(e, fr, st), ZERO)
            if short in ("end", "cend"):
                o = self._objloc(e, fr, st)
                return mk("iter", o, self._size(o, st))
            if short in ("rbegin", "crbegin"):
                o = self._objloc(e, fr, st)
                return mk("iter", mk("app", "reversed", o), ZERO)
            if short in ("rend", "crend"):
                o = self._objloc(e, fr, st)
                return mk("iter", mk("app", "reversed", o), self._size(o, st))
            if short in ("size", "length", "numElements") and not a:
                o = self._objloc(e, fr, st)
                n = _array_len(strip_type(e.get("ot") or ""))
                if n is not None:
                    return const(n)
                return self._size(o, st)
            if short == "empty" and not a and "xml" not in fn:
                o = self._objloc(e, fr, st)
                return eq(self._size(o, st), ZERO)
            if short == "at" and len(a) == 1:
                return out(self.resolve(idx(self._objloc(e, fr, st), R(a[0])), st))
            if short == "front" and not a:
                return out(self.resolve(idx(self._objloc(e, fr, st), ZERO), st))
            if short == "back" and not a:
                o = self._objloc(e, fr, st)
                return out(self.resolve(idx(o, sub(self._size(o, st), ONE)), st))
            if short in ("push_back", "emplace_back"):
                o = self._objloc(e, fr, st)
                vals = [R(x) for x in a]
                v = vals[0] if len(vals) == 1 else self._emplaced(obj, vals, fr, st)
                if v.op == "newobj":
                    v = self.read(v.a[0], st)
                self.effect("append", fr, st, e["l"], loc=o, op="append", val=v, args=vals, node=e)
                n = mk("cnt", o)
                cur = st.mem.get(n, self._size0(o, st))
                st.mem[n] = add(cur, ONE)
                self._append(o, cur, v, st)
                return out(self.resolve(idx(o, cur), st)) if not (e.get("t") or "").startswith("void") else ZERO
            if short in ("fill",) and len(a) == 1:
                o = self._objloc(e, fr, st)
                v = R(a[0])
                self.effect("store", fr, st, e["l"], loc=o, op="=", val=v, node=e)
                self.write(o, mk("fillv", v), st)
                return ZERO
            if short == "reference" and len(a) == 1 and "blitz" in fn:
                o = self.lv(obj, fr, st)
                v = L(a[0])
                st.mem[o] = mk("alias", v)
                self.effect("alias", fr, st, e["l"], loc=o, val=v, node=e)
                return ZERO
            if short in ("resize", "reserve", "resizeAndPreserve", "clear", "assign", "erase", "insert", "pop_back", "reset", "swap"):
                o = self._objloc(e, fr, st)
                vals = [R(x) for x in a if x is not None]
                if short == "reset":
                    self.effect("store", fr, st, e["l"], loc=o, op="=", val=vals[0] if vals else mk("sym", "nullptr"), node=e)
                    st.mem[o] = vals[0] if vals else mk("sym", "nullptr")
                    return ZERO
                self.effect(short, fr, st, e["l"], loc=o, op=short, name=short, args=vals, node=e)
                if short == "clear":
                    st.mem[mk("cnt", o)] = ZERO
                if short == "resize" and len(vals) == 1 and "vector" in fn:
                    st.mem[mk("cnt", o)] = vals[0]
                if short == "resize" and len(vals) == 2 and "vector" in fn:
                    st.mem[mk("cnt", o)] = vals[0]
                    self.write(o, mk("fillv", vals[1]), st)
                if short in ("insert", "erase", "assign", "pop_back") and fn.startswith("std::basic_string<"):
                    self.write(o, mk("app", short, self.read(o, st), *vals), st)
                if short in ("insert", "erase", "assign", "pop_back", "swap"):
                    st.mem[mk("cnt", o)] = mk("app", short + "#", self._size(o, st), *vals)
                return o
            if short in ("data", "get", "c_str", "str", "lock", "valueRef") and not a:
                o = self._objloc(e, fr, st)
                if short == "str" and fld(o, "<text>") in st.mem:
                    return self.read(fld(o, "<text>"), st)
                return o if want_loc or short != "str" else mk("app", "str", o)
            if short == "str" and len(a) == 1 and "stringstream" in fn:
                self.write(fld(self._objloc(e, fr, st), "<text>"), R(a[0]), st)
                return ZERO
            if short in ("extent", "rows", "cols", "columns", "dimensions", "shape"):
                o = self._objloc(e, fr, st)
                return mk("app", short, o, *[R(x) for x in a])
            if short == "copy" and "blitz" in fn:
                return self._objloc(e, fr, st)
        return None

    def _emplaced(self, obj, vals, fr, st):
        """The element that emplace_back builds from its arguments."""
        t = strip_type((obj or {}).get("t") or "")
        m = re.match(r"std::(?:vector|list|deque)<(.*)>$", t)
        el = m.group(1) if m else ""
        if el.startswith("std::pair<") and len(vals) == 2:
            return mk("struct", mk("sym", "pair"), ("first", vals[0], "second", vals[1]))
        el = strip_type(el.split(", std::allocator")[0])
        fs = [f for f in self.prog.by_name.get(el + "::" + el.split("::")[-1], [])
              if len(f.p) == len(vals) and f.body is not None]
        if len(fs) == 1 and fs[0] not in self.stack and len(self.stack) < self.max_depth and not self._is_opaque(fs[0]):
            x = self.tmp()
            self._inline(fs[0], x, list(vals), fr, st, ctor=True)
            return mk("newobj", x)
        return mk("app", "tuple", *vals)

    def _size0(self, o, st):
        if o.op in ("L", "tmp"):
            v = st.mem.get(o)
            if v is None or v.op == "tmp":
                return ZERO
            if v.op == "ilist":
                return const(len(v.a))
            if v.op == "app" and v.a[0] == "ctor:std::vector" and len(v.a) > 1:
                return v.a[1]
            if v.op in ("sym", "fld", "idx") or v.op == "app" and not v.a[0].startswith("ctor:"):
                return mk("app", "size", v)
            if v.op == "s":
                return const(len(v.a[0]))
        else:
            v = st.mem.get(o)
            if v is not None and v.op == "app" and v.a[0] == "ctor:std::vector" and len(v.a) > 1 and v.a[1].op != "iter":
                return v.a[1]
            while v is not None and v is not o and (v.op == "map" or v.op == "app" and v.a[0] in ("sort", "stable_sort", "reverse")):
                v = v.a[0] if v.op == "map" else v.a[1]
            if v is not None and v.op == "ilist":
                return const(len(v.a))
            if v is not None and (v.op in ("sym", "fld", "idx") or v.op == "app" and not v.a[0].startswith("ctor:")):
                return mk("app", "size", v)
        return mk("app", "size", o)

    def _size(self, o, st):
        n = st.mem.get(mk("cnt", o))
        if n is not None:
            return n
        v = self.read_base(o, st)
        if v.op == "ilist":
            return const(len(v.a))
        return self._size0(o, st)

    def _append(self, o, pos, v, st):
        if v.op == "newobj":
            v = self.read(v.a[0], st)
        st.mem[mk("idx", o, pos)] = v


def _delta(e, phi):
    """e - phi when e is phi plus something; None otherwise."""
    if e is phi:
        return ZERO
    if not contains(e, phi):
        return None
    if e.op == "add":
        a, b = e.a
        if contains(a, phi) and not contains(b, phi):
            d = _delta(a, phi)
            return None if d is None else add(d, b)
        if contains(b, phi) and not contains(a, phi):
            d = _delta(b, phi)
            return None if d is None else add(d, a)
        return None
    if e.op == "sub":
        a, b = e.a
        if contains(a, phi) and not contains(b, phi):
            d = _delta(a, phi)
            return None if d is None else sub(d, b)
        return None
    if e.op == "ite":
        c, a, b = e.a
        if contains(c, phi):
            return None
        x, y = _delta(a, phi), _delta(b, phi)
        if x is None or y is None:
            return None
        return ite(c, x, y)
    if e.op == "iter" and phi.op == "phi":
        return None
    return None
