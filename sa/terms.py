"""Hash-consed value terms and their comparison by random interpretation.

A term denotes the value a program expression computes as a function of the
values its function starts with.  Two terms are compared by evaluating both at
random points (Gulwani & Necula, "Global value numbering using random
interpretation"): arithmetic is interpreted exactly over the rationals, loops
that accumulate are evaluated over sampled iteration points, and everything
else is an uninterpreted function whose value is a hash of its operands.  Equal
terms always agree; different terms disagree at some sampled point.
"""
import hashlib
import math
from fractions import Fraction


class T:
    __slots__ = ("op", "a", "id", "_sub")
    _tab = {}
    _n = 0

    def __repr__(self):
        return show(self)

    # keep identity hashing/equality (hash-consed)


def mk(op, *a):
    key = (op,) + tuple((x.id,) if isinstance(x, T) else
                        (type(x).__name__, x) for x in a)
    t = T._tab.get(key)
    if t is None:
        t = T()
        t.op = op
        t.a = a
        T._n += 1
        t.id = T._n
        t._sub = None
        T._tab[key] = t
    return t


def reset():
    """Forget all terms (between independent analyses)."""
    T._tab.clear()
    FREE.clear()


def const(v):
    if isinstance(v, bool):
        return mk("c", v)
    if isinstance(v, float) and v == int(v) and abs(v) < 2 ** 53:
        v = int(v)
    return mk("c", v)


ZERO = const(0)
ONE = const(1)
TRUE = const(True)
FALSE = const(False)


def is_c(t):
    return t.op == "c"


def cval(t):
    return t.a[0] if t.op == "c" else None


def subterms(t):
    """All distinct subterms."""
    seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        yield x
        for y in x.a:
            if isinstance(y, T):
                stack.append(y)
            elif isinstance(y, tuple):
                stack.extend(z for z in y if isinstance(z, T))


def ids(t):
    if t._sub is None:
        t._sub = frozenset(x.id for x in subterms(t))
    return t._sub


def contains(t, s):
    return s is t or s.id in ids(t)


def any_op(t, op):
    return any(x.op == op for x in subterms(t))


BINDS = {"sum": 0, "map": 1, "fold": 0}      # which argument is the variable bound
OUTSIDE = {"map": (0,), "fold": (3,)}          # and which ones lie outside its scope


def subst(t, m):
    """Replace subterms by the mapping m (term -> term), rebuilding through
    the simplifying constructors."""
    if not m:
        return t
    keys = set(k.id for k in m)
    memo = {}

    def go(x):
        r = memo.get(x.id)
        if r is not None:
            return r
        if x in m:
            r = m[x]
        elif not (ids(x) & keys):
            r = x
        elif x.op in ("fold", "pfold") and any(p in m for p in x.a[2]):
            # the carried values stand for themselves inside
            inner = {k: v for k, v in m.items() if k not in x.a[2]}
            r = rebuild(x.op, [go(x.a[0]) if n == 0 else y if n == 2 else tuple(go(z) for z in y) if n == 3 else
                               subst(y, inner) if isinstance(y, T) else
                               tuple(subst(z, inner) for z in y) if isinstance(y, tuple) else y
                               for n, y in enumerate(x.a)])
        elif x.op in BINDS and x.a[BINDS[x.op]] in m and m[x.a[BINDS[x.op]]].op != "bv":
            b = x.a[BINDS[x.op]]
            inner = {k: v for k, v in m.items() if k is not b}
            r = rebuild(x.op, [b if y is b else go(y) if n in OUTSIDE.get(x.op, ()) and isinstance(y, T) else
                               tuple(go(z) for z in y) if n in OUTSIDE.get(x.op, ()) and isinstance(y, tuple) else
                               subst(y, inner) if isinstance(y, T) else
                               tuple(subst(z, inner) if isinstance(z, T) else z for z in y) if isinstance(y, tuple) else y
                               for n, y in enumerate(x.a)])
        else:
            args = [go(y) if isinstance(y, T) else
                    (tuple(go(z) if isinstance(z, T) else z for z in y)
                     if isinstance(y, tuple) else y) for y in x.a]
            r = rebuild(x.op, args)
        memo[x.id] = r
        return r
    return go(t)


def rebuild(op, args):
    f = _CTOR.get(op)
    return f(*args) if f else mk(op, *args)


# -- constructors with light simplification --------------------------------
def _num(t):
    return t.op == "c" and isinstance(t.a[0], (int, float, Fraction)) and \
        not isinstance(t.a[0], bool)


def _nv(t):
    v = t.a[0]
    return v


def add(a, b):
    if _num(a) and _num(b):
        return const(_nv(a) + _nv(b))
    if _num(a) and _nv(a) == 0:
        return b
    if _num(b) and _nv(b) == 0:
        return a
    if a.op == "iter":
        return mk("iter", a.a[0], add(a.a[1], b))
    if b.op == "iter":
        return mk("iter", b.a[0], add(b.a[1], a))
    # (x + c1) + c2
    if _num(b) and a.op == "add" and _num(a.a[1]):
        return add(a.a[0], const(_nv(a.a[1]) + _nv(b)))
    if _num(b) and a.op == "sub" and _num(a.a[1]):
        return add(a.a[0], const(_nv(b) - _nv(a.a[1])))
    if _num(b) and _nv(b) < 0:
        return mk("sub", a, const(-_nv(b)))
    return mk("add", a, b)


def sub(a, b):
    if _num(a) and _num(b):
        return const(_nv(a) - _nv(b))
    if _num(b) and _nv(b) == 0:
        return a
    if a is b:
        return ZERO
    if a.op == "iter" and b.op == "iter":
        return sub(a.a[1], b.a[1])
    if a.op == "iter":
        return mk("iter", a.a[0], sub(a.a[1], b))
    if _num(b):
        return add(a, const(-_nv(b)))
    return mk("sub", a, b)


def mul(a, b):
    if _num(a) and _num(b):
        return const(_nv(a) * _nv(b))
    for x, y in ((a, b), (b, a)):
        if _num(x) and _nv(x) == 0:
            return ZERO
        if _num(x) and _nv(x) == 1:
            return y
    return mk("mul", a, b)


def div(a, b):
    if _num(a) and _num(b) and _nv(b) != 0:
        x, y = _nv(a), _nv(b)
        if isinstance(x, int) and isinstance(y, int) and x % y == 0:
            return const(x // y)
        return const(x / y)
    if _num(b) and _nv(b) == 1:
        return a
    return mk("div", a, b)


def idiv(a, b):
    if _num(a) and _num(b) and _nv(b) != 0:
        q = abs(_nv(a)) // abs(_nv(b))
        return const(int(q if (_nv(a) < 0) == (_nv(b) < 0) else -q))
    if _num(b) and _nv(b) == 1:
        return a
    return mk("idiv", a, b)


def mod(a, b):
    if _num(a) and _num(b) and _nv(b) != 0:
        return const(int(math.fmod(_nv(a), _nv(b))))
    return mk("mod", a, b)


def neg(a):
    if _num(a):
        return const(-_nv(a))
    if a.op == "neg":
        return a.a[0]
    return mk("neg", a)


def not_(a):
    if a.op == "c":
        return FALSE if a.a[0] else TRUE
    if a.op == "not":
        return a.a[0]
    return mk("not", a)


def and_(a, b):
    if a.op == "c":
        return b if a.a[0] else FALSE
    if b.op == "c":
        return a if b.a[0] else FALSE
    if a is b:
        return a
    return mk("and", a, b)


def or_(a, b):
    if a.op == "c":
        return TRUE if a.a[0] else b
    if b.op == "c":
        return TRUE if b.a[0] else a
    if a is b:
        return a
    return mk("or", a, b)


def lt(a, b):
    if a.op == "c" and b.op == "c":
        try:
            return TRUE if a.a[0] < b.a[0] else FALSE
        except TypeError:
            pass
    if a is b:
        return FALSE
    return mk("lt", a, b)


def le(a, b):
    if a.op == "c" and b.op == "c":
        try:
            return TRUE if a.a[0] <= b.a[0] else FALSE
        except TypeError:
            pass
    if a is b:
        return TRUE
    return mk("le", a, b)


def eq(a, b):
    if a is b:
        return TRUE
    if a.op in ("c", "s") and b.op in ("c", "s"):
        return TRUE if a.a[0] == b.a[0] else FALSE
    if a.op == "iter" and b.op == "iter" and a.a[0] is b.a[0]:
        return eq(a.a[1], b.a[1])
    for x, y in ((a, b), (b, a)):
        # a selection among constants, compared with a constant
        if x.op in ("c", "s") and y.op == "ite" and _selects(y):
            p = eq(x, y.a[1])
            q = eq(x, y.a[2])
            return or_(and_(y.a[0], p), and_(not_(y.a[0]), q))
    if a.id > b.id:
        a, b = b, a
    return mk("eq", a, b)


def _selects(t):
    return t.op in ("c", "s") or t.op == "ite" and _selects(t.a[1]) and _selects(t.a[2])


def ite(c, a, b):
    if c.op == "c":
        return a if c.a[0] else b
    if a is b:
        return a
    if c.op == "not":
        return ite(c.a[0], b, a)
    if a.op == "c" and b.op == "c" and a.a[0] is True and b.a[0] is False:
        return c
    # ite(c, ite(c, x, y), b)
    if a.op == "ite" and a.a[0] is c:
        a = a.a[1]
    if b.op == "ite" and b.a[0] is c:
        b = b.a[2]
    return mk("ite", c, a, b)


def idx(base, *i):
    if base.op == "slice":
        # indices fill the wildcard positions
        it = iter(i)
        out = []
        for x in base.a[1:]:
            if x.op == "all":
                y = next(it, None)
                out.append(y if y is not None else x)
            elif x.op == "range":
                y = next(it, None)
                out.append(add(x.a[0], y) if y is not None else x)
            else:
                out.append(x)
        out.extend(it)
        if any(x.op in ("all", "range") for x in out):
            return mk("slice", base.a[0], *out)
        return idx(base.a[0], *out)
    if any(x.op in ("all", "range") for x in i):
        return mk("slice", base, *i)
    if base.op == "ilist" and len(i) >= 1 and _num(i[0]) and \
            0 <= i[0].a[0] < len(base.a) and isinstance(i[0].a[0], int):
        r = base.a[i[0].a[0]]
        return idx(r, *i[1:]) if len(i) > 1 else r
    if base.op == "fillv":
        return base.a[0]
    if base.op == "map":
        old, b, pat, val = base.a
        if len(pat) == len(i):
            m = {}
            okm = True
            distinct = False
            for p, j in zip(pat, i):
                if p is j:
                    continue
                if p is b:
                    if b in m and m[b] is not j:
                        okm = False
                    m[b] = j
                    continue
                if p.op == "c" and j.op == "c":
                    distinct = True
                okm = False
            if okm:
                return subst(val, m) if m else val
            if distinct:
                return idx(old, *i)
    if base.op == "ite":
        a, b = base.a[1], base.a[2]
        if a.op in ("ilist", "fillv") or b.op in ("ilist", "fillv"):
            return ite(base.a[0], idx(a, *i), idx(b, *i))
    return mk("idx", base, *i)


def fld(base, name):
    if base.op == "struct":
        it = base.a[1]
        for k in range(0, len(it), 2):
            if it[k] == name:
                return it[k + 1]
        return fld(base.a[0], name)
    if base.op == "ite" and (base.a[1].op == "struct" or base.a[2].op == "struct"):
        return ite(base.a[0], fld(base.a[1], name), fld(base.a[2], name))
    return mk("fld", base, name)


def cast_trunc(a):
    if _num(a):
        return const(int(_nv(a)))
    return mk("trunc", a)


_CTOR = {"add": add, "sub": sub, "mul": mul, "div": div, "idiv": idiv, "mod": mod,
         "neg": neg, "not": not_, "and": and_, "or": or_, "lt": lt, "le": le,
         "eq": eq, "ite": ite, "idx": idx, "fld": fld, "trunc": cast_trunc}


# -- printing ---------------------------------------------------------------
def elem(loc, k):
    """The element k places after the array element `loc`."""
    return idx(loc.a[0], *(loc.a[1:-1] + (add(loc.a[-1], k),)))


LEGEND = None    # display aid: short names for loop binders


def show(t, d=0):
    if not isinstance(t, T):
        return repr(t)
    if d > 14:
        return "…"
    s = lambda x: show(x, d + 1)
    o, a = t.op, t.a
    if o in ("c",):
        return repr(a[0])
    if o == "s":
        return repr(a[0])
    if o == "sym":
        return a[0]
    if o == "this":
        return "this"
    if o == "L":
        return a[0]
    if o == "tmp":
        return "tmp%s" % a[0]
    if o == "fld":
        return (s(a[0]) + "." if a[0].op != "this" else "") + a[1]
    if o == "idx":
        return "%s[%s]" % (s(a[0]), ",".join(s(x) for x in a[1:]))
    if o == "slice":
        return "%s[%s]" % (s(a[0]), ",".join(s(x) for x in a[1:]))
    if o == "all":
        return ":"
    if o == "app":
        return "%s(%s)" % (a[0], ", ".join(s(x) for x in a[1:]))
    if o in ("add", "sub", "mul", "div", "idiv", "mod", "lt", "le", "eq", "and", "or"):
        sym = {"add": "+", "sub": "-", "mul": "*", "div": "/", "idiv": "//",
               "mod": "%", "lt": "<", "le": "<=", "eq": "==", "and": "&&",
               "or": "||"}[o]
        return "(%s %s %s)" % (s(a[0]), sym, s(a[1]))
    if o == "neg":
        return "-" + s(a[0])
    if o == "not":
        return "!" + s(a[0])
    if o == "ite":
        return "(%s ? %s : %s)" % tuple(s(x) for x in a)
    if o == "bv":
        if LEGEND is not None:
            if t not in LEGEND:
                LEGEND[t] = "i%d" % len(LEGEND)
            return LEGEND[t]
        return "i%s<%s>" % (a[1] or "", s(a[0]))
    if o == "rng":
        return "%s..%s" % (s(a[0]), s(a[1]))
    if o in ("sum", "psum"):
        return "%s{%s: %s}" % (o, s(a[0]), s(a[1]))
    if o == "phi":
        return "phi(%s)" % s(a[1])
    if o == "iter":
        return "it(%s@%s)" % (s(a[0]), s(a[1]))
    return "%s(%s)" % (o, ", ".join(
        s(x) if isinstance(x, T) else
        ("[" + ",".join(s(y) if isinstance(y, T) else str(y) for y in x) + "]"
         if isinstance(x, tuple) else str(x)) for x in a))


# -- evaluation -------------------------------------------------------------
def _h(*parts):
    h = hashlib.blake2b(digest_size=8)
    for p in parts:
        h.update(repr(p).encode())
        h.update(b"|")
    return int.from_bytes(h.digest(), "big")


INPUT = ("sym", "fld", "idx", "app", "L", "tmp", "phi", "mod", "idiv")
MATH = ("sqrt", "exp", "log", "sin", "cos", "tan", "acos", "asin", "atan", "floor", "ceil", "atan2", "pow", "round")


FREE = {}


class Ev:
    """One random interpretation.  `assign` fixes the value of given terms;
    `exact` selects rational arithmetic; `signed` lets atoms be negative."""

    def __init__(self, seed, assign=None, exact=True, signed=None, ints=False, pretend=False):
        self.seed = seed
        self.pretend = pretend
        self.assign = {k.id: v for k, v in (assign or {}).items()}
        self.exact = exact
        self.signed = (seed % 2 == 1) if signed is None else signed
        self.ints = ints
        self.env = {}
        self.memo = {}
        self._det = {}
        self.literals = {}    # the string literals met, numbered
        self.directed = False
        self.rename = {}      # value of an input -> the value it is given instead
        self.pairs = None     # comparisons met: [(input value, values that tell the outcomes apart)]

    def met(self, a, b, x, y, eq):
        """Note a comparison of an input with something else."""
        if self.q(x) == self.q(y) and eq or a.op == "addr" or b.op == "addr":
            return
        for t, v, w in ((a, x, y), (b, y, x)):
            if t.op in INPUT and not (t.op == "app" and t.a[0] in MATH) and isinstance(v, Fraction) and t.id not in self.assign:
                if isinstance(w, (str, bool)):
                    self.pairs.append((v, (w,)))
                elif eq:
                    self.pairs.append((v, (w,)))
                else:
                    self.pairs.append((v, (w - 1, w, w + 1)))
                return

    def like(self):
        o = type(self).__new__(type(self))
        o.__dict__.update(self.__dict__)
        o.memo, o._det, o.env, o.pairs = {}, {}, {}, None
        o.assign = dict(self.assign)
        return o

    def settled(self):
        """The interpretation in which some of the inputs compared take the
        values that decide the comparison the other way."""
        o = self.like()
        o.strict = True
        o.pretend = False
        cand = {}
        for v, ws in self.pairs:
            cand.setdefault(v, []).extend(ws)
        ren, tgt = {}, set(self.rename.values())
        for v in sorted(cand, key=lambda v: _h(self.seed, "settle", v)):
            if v in tgt or self.seed % 3 and _h(self.seed, "coin", v) % 4 == 0:
                continue
            w = cand[v][_h(self.seed, "which", v) % len(cand[v])]
            w = ren.get(w, w)
            if w == v:
                continue
            ren[v] = w
            tgt.add(w)
            if isinstance(w, (int, Fraction)) and not isinstance(w, bool):
                tgt.update((w - 1, w + 1))
        o.rename = {**{v: ren.get(w, w) for v, w in self.rename.items()}, **ren}
        return o if ren else None

    strict = False
    scale = 1
    tested = None   # inputs compared with literals: {term id: [literals]}

    def det(self, t):
        """Is the value of t fixed by literals, enumerated loops and directed
        inputs (rather than drawn at random)?"""
        r = self._det.get(t.id)
        if r is None:
            o = t.op
            if o in ("c", "s"):
                r = True
            elif o == "bv":
                d = t.a[0]
                r = d.op == "rng" and all(self.det(x) for x in d.a)
            elif o in ("add", "sub", "mul", "div", "idiv", "mod", "neg", "abs", "max", "min", "ite", "lt", "le", "eq",
                       "not", "and", "or", "trunc", "cast"):
                r = all(self.det(x) for x in t.a if isinstance(x, T))
            else:
                r = self.fixed(t)
            self._det[t.id] = r
        return r

    def fixed(self, t):
        return self.directed and t.id in self.assign

    def rnd(self, *key):
        r = _h(self.seed, *key)
        if self.ints:
            return r % 1009 + 2
        v = Fraction((r % 9973 + 911) * self.scale, 4099)
        if self.signed and (r >> 40) & 1:
            v = -v
        if self.rename:
            v = self.rename.get(v, v)
        return v if self.exact or isinstance(v, (str, bool)) else float(v)

    def q(self, v):
        """Canonical hashable image of a value."""
        if isinstance(v, float):
            return "%.9e" % v if v != 0 else 0
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, Fraction) and v.denominator == 1:
            return int(v)
        return v

    def num(self, v):
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, (int, float, Fraction)):
            return v
        return self.rnd("num", self.q(v))

    def points(self, b):
        dom = b.a[0]
        if dom.op == "rng":
            lo = self.num(self.ev(dom.a[0]))
            hi = self.num(self.ev(dom.a[1]))
            st = dom.a[2] if len(dom.a) > 2 else ONE
            if dom.a[0].op == "c" and dom.a[1].op == "c" and st.op == "c" \
                    and isinstance(lo, int) and isinstance(hi, int) \
                    and isinstance(st.a[0], int) and st.a[0] > 0 \
                    and hi - lo <= 16 * st.a[0]:
                return list(range(lo, hi, st.a[0]))
            if (dom.a[1].op != "c" or dom.a[0].op != "c") and self._eqc(dom, hi - lo, 0):
                return []       # the extent an emptiness test was told is zero
            if self.directed and isinstance(lo, int) and isinstance(hi, int) and st is ONE and \
                    self.det(dom.a[0]) and self.det(dom.a[1]) and hi - lo <= 12:
                return list(range(lo, hi))
            if self.strict and hi == int(hi) and lo == int(lo) and st is ONE and hi - lo <= 12:
                return list(range(int(lo), int(hi)))
            r = _h(self.seed, "pts", self.q(hi - lo))
            step = self.num(self.ev(st)) if st.op != "c" else st.a[0]
            o1 = r % 5 + 1
            o2 = o1 + (r >> 8) % 5 + 1
            o3 = o2 + (r >> 16) % 5 + 1
            return [lo + o1 * step, lo + o2 * step, lo + o3 * step]
        r = _h(self.seed, "pts", self.q(self.ev(dom)))
        return [r % 97 + 3, r % 97 + 8, r % 97 + 21]

    canon = None

    def free(self, t):
        """The loop variables a term's value depends on."""
        tab = FREE if self.canon is None else self.canon.__dict__.setdefault("free", {})
        r = tab.get(t.id)
        if r is not None:
            return r
        st = [(t, False)]
        while st:
            x, done = st.pop()
            if x.id in tab:
                continue
            kids = []
            if self.canon is not None and x.op in ("app", "fld", "idx", "sym", "L", "tmp"):
                n = self.canon(x)
                if n is not None and n is not x:
                    kids.append(n)
            for y in x.a:
                if isinstance(y, T):
                    kids.append(y)
                elif isinstance(y, tuple):
                    kids.extend(z for z in y if isinstance(z, T))
            if not done:
                st.append((x, True))
                st.extend((y, False) for y in kids if y.id not in tab)
                continue
            s = set()
            for y in kids:
                s.update(tab.get(y.id, ()))
            if x.op in ("bv", "phi"):
                s.add(x.id)
            tab[x.id] = tuple(sorted(s))
        return tab[t.id]

    def ev(self, t):
        k = t.id
        v = self.assign.get(k)
        if v is not None:
            return v
        fr = self.free(t)
        if fr:
            g = self.assign.get
            k = (k,) + tuple([g(b) for b in fr])
        m = self.memo
        if k in m:
            return m[k]
        v = self._ev(t)
        m[k] = v
        return v

    def bind(self, b, val, f):
        """Evaluate f() with binder b set to val."""
        oa = self.assign.get(b.id)
        self.assign[b.id] = val
        try:
            return f()
        finally:
            if oa is None:
                del self.assign[b.id]
            else:
                self.assign[b.id] = oa

    def _ev(self, t):
        o, a = t.op, t.a
        if o == "c":
            v = a[0]
            if isinstance(v, float):
                return Fraction(v).limit_denominator(10 ** 15) if self.exact and math.isfinite(v) else v
            return v
        if o == "s":
            return a[0]
        if o in ("sym", "L", "tmp", "this", "all", "undef", "lam", "fn"):
            return self.rnd(o, *[x if not isinstance(x, T) else self.q(self.ev(x)) for x in a])
        if o == "fld":
            return self.rnd("fld", self.q(self.ev(a[0])), a[1])
        if o == "idx" and a[0].op == "ilist" and len(a) == 2:
            i = self.ev(a[1])
            if isinstance(i, int) and not isinstance(i, bool) and 0 <= i < len(a[0].a):
                return self.ev(a[0].a[i])
        if o == "idx":
            return self.rnd("idx", *[self.q(self.ev(x)) for x in a])
        if o == "bv":
            dom = a[0]
            if dom.op == "rng":
                return self.points(t)[1 % max(1, len(self.points(t)))] if self.points(t) else 0
            return _h(self.seed, "bv", self.q(self.ev(dom)), a[1]) % 997 + 1
        if o == "add":
            return self.num(self.ev(a[0])) + self.num(self.ev(a[1]))
        if o == "sub":
            return self.num(self.ev(a[0])) - self.num(self.ev(a[1]))
        if o == "mul":
            return self.num(self.ev(a[0])) * self.num(self.ev(a[1]))
        if o == "div":
            x, y = self.num(self.ev(a[0])), self.num(self.ev(a[1]))
            if y == 0:
                return self.rnd("div0", self.q(x))
            if self.exact:
                if isinstance(x, float) or isinstance(y, float):
                    return x / y
                return Fraction(x) / Fraction(y)
            return x / y
        if o in ("idiv", "mod"):
            x, y = self.num(self.ev(a[0])), self.num(self.ev(a[1]))
            if y == 0:
                return self.rnd(o, self.q(x))
            xi = x == int(x) if not isinstance(x, float) or math.isfinite(x) else False
            yi = y == int(y)
            if xi and yi:
                q = abs(int(x)) // abs(int(y))
                if (x < 0) != (y < 0):
                    q = -q
                return q if o == "idiv" else int(x) - q * int(y)
            return self.rnd(o, self.q(x), self.q(y))
        if o == "neg":
            return -self.num(self.ev(a[0]))
        if o == "abs":
            return abs(self.num(self.ev(a[0])))
        if o == "trunc":
            x = self.num(self.ev(a[0]))
            if x == int(x):
                return int(x)
            return int(x)
        if o in ("max", "min"):
            xs = [self.num(self.ev(x)) for x in a]
            return max(xs) if o == "max" else min(xs)
        if o == "not":
            return not self.truth(self.ev(a[0]))
        if o in ("and", "or") and self.pairs is not None:
            x, y = self.truth(self.ev(a[0])), self.truth(self.ev(a[1]))
            return x and y if o == "and" else x or y
        if o == "and":
            return self.truth(self.ev(a[0])) and self.truth(self.ev(a[1]))
        if o == "or":
            return self.truth(self.ev(a[0])) or self.truth(self.ev(a[1]))
        if o in ("lt", "le"):
            x, y = self.ev(a[0]), self.ev(a[1])
            x, y = self.num(x), self.num(y)
            if self.pairs is not None:
                self.met(a[0], a[1], x, y, False)
            if self.directed and self.det(a[0]) and self.det(a[1]):
                return x < y if o == "lt" else x <= y
            if self.tested and not self.strict:
                # an input taken to equal a literal lies with it
                for i in (0, 1):
                    lits = self.tested.get(a[i].id)
                    if lits and a[1 - i].op == "c":
                        z = (x, y)[i]
                        k = [c for c in lits if self._eqc(a[i], z, c)]
                        if k:
                            x, y = (k[0], y) if i == 0 else (x, k[0])
                            return x < y if o == "lt" else x <= y
            if self.pretend and x != y and (a[0].op == "c") != (a[1].op == "c") and \
                    (a[0] if a[1].op == "c" else a[1]).op in ("sym", "fld", "idx", "app", "L"):
                # a limit on an input: either side of it
                less = x < y
                return less if _h(self.seed, "pretend", self.q(abs(x - y))) & 1 else not less
            return x < y if o == "lt" else x <= y
        if o == "eq":
            x, y = self.ev(a[0]), self.ev(a[1])
            if self.pairs is not None:
                self.met(a[0], a[1], x, y, True)
            if self.q(x) == self.q(y):
                return True
            if self.strict and not isinstance(x, bool) and not isinstance(y, bool):
                return False
            if self.det(a[0]) and self.det(a[1]):
                return False
            if a[0].op in ("c", "s") and a[1].op not in ("c", "s"):
                return self._eqc(a[1], y, x)
            if a[1].op in ("c", "s") and a[0].op not in ("c", "s"):
                return self._eqc(a[0], x, y)
            return False
        if o == "ite":
            if self.pairs is not None:
                self.ev(a[1]), self.ev(a[2])
            return self.ev(a[1]) if self.truth(self.ev(a[0])) else self.ev(a[2])
        if o == "sum":
            b, body = a
            tot = 0
            for p in self.points(b):
                tot = tot + self.bind(b, p, lambda: self.num(self.ev(body)))
            return tot
        if o == "psum":
            b, body = a
            cur = self.ev(b)
            tot = 0
            for p in self.points(b):
                if self.q(p) == self.q(cur):
                    return tot
                tot = tot + self.bind(b, p, lambda: self.num(self.ev(body)))
            return tot
        if o == "ord":
            b = a[0]
            cur = self.ev(b)
            return cur - self.num(self.ev(b.a[0].a[0])) if b.a[0].op == "rng" else cur
        if o in ("fold", "pfold"):
            b, which, phis, inits, ends, down = a[:6]
            until = a[6] if len(a) > 6 else None
            vals = [self.ev(x) for x in inits]
            pts = self.points(b)
            if down:
                pts = pts[::-1]
            cur = self.q(self.ev(b)) if o == "pfold" else None
            for p in pts:
                if cur is not None and self.q(p) == cur:
                    break
                def step():
                    old = {}
                    for ph, v in zip(phis, vals):
                        old[ph.id] = self.assign.get(ph.id)
                        self.assign[ph.id] = v
                    try:
                        return [self.ev(e) for e in ends], until is not None and self.ev(until)
                    finally:
                        for k2, v2 in old.items():
                            if v2 is None:
                                del self.assign[k2]
                            else:
                                self.assign[k2] = v2
                vals, left = self.bind(b, p, step)
                if left is True:
                    break
            return vals[which]
        if o == "app":
            f = a[0]
            if f in MATH:
                args = [self.num(self.ev(x)) for x in a[1:]]
                if f in ("floor", "ceil", "round"):
                    x = args[0]
                    return {"floor": math.floor, "ceil": math.ceil,
                            "round": round}[f](x)
                if f == "pow" and isinstance(args[1], int) and abs(args[1]) < 20:
                    return args[0] ** args[1] if args[0] != 0 or args[1] >= 0 else self.rnd("pow0")
                if not self.exact:
                    try:
                        return getattr(math, f)(*[float(x) for x in args])
                    except (ValueError, OverflowError):
                        return self.rnd("math", f, *[self.q(x) for x in args])
                return abs(self.rnd("math", f, *[self.q(x) for x in args]))
            return self.rnd("app", f, *[self.q(self.ev(x)) if isinstance(x, T) else x for x in a[1:]])
        # anything else: uninterpreted
        out = []
        for x in a:
            if isinstance(x, T):
                out.append(self.q(self.ev(x)))
            elif isinstance(x, tuple):
                out.append(tuple(self.q(self.ev(y)) if isinstance(y, T) else y for y in x))
            else:
                out.append(x)
        return self.rnd(o, *out)

    def _eqc(self, term, v, c):
        if isinstance(c, bool) or isinstance(v, bool):
            return self.truth(v) == self.truth(c)
        if isinstance(c, str):
            return _h(self.seed, "eqs", self.q(v)) % 8 == self.literals.setdefault(c, len(self.literals))
        if term.op in ("mod", "idiv", "bv") and isinstance(v, int):
            return v == c
        try:
            ci = int(c)
        except (TypeError, ValueError):
            return False
        return ci == c and 0 <= ci < 8 and _h(self.seed, "eqc", self.q(v)) % 8 == ci

    def truth(self, v):
        if isinstance(v, bool):
            return v
        if isinstance(v, (int, Fraction, float)):
            if isinstance(v, int) and v in (0, 1):
                return bool(v)
            return bool(_h(self.seed, "truth", self.q(v)) & 1)
        return bool(_h(self.seed, "truth", v) & 1)


def same(t1, t2, n=40, exact=True, assign=None, signed=None, ints=False, tol=1e-7, base=0):
    """Do t1 and t2 denote the same function of their inputs?"""
    if t1 is t2:
        return True
    for s in range(base, base + n):
        a1 = assign(s) if callable(assign) else assign
        e = Ev(s, a1, exact, signed, ints)
        v1, v2 = e.ev(t1), e.ev(t2)
        if exact:
            if e.q(v1) != e.q(v2):
                return False
        else:
            if isinstance(v1, str) or isinstance(v2, str):
                if v1 != v2:
                    return False
                continue
            x, y = float(e.num(v1)), float(e.num(v2))
            if not abs(x - y) <= tol * max(1.0, abs(x), abs(y)):
                return False
    return True
