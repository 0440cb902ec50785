"""Comparison of a function's observable effect with that of a reference
definition of the same operation.

Both are summarised by the value-numbering engine; what is compared is what a
caller can see: the values left in members and in objects passed by reference,
the returned value, the calls made on other components, and the conditions
under which the operation is refused.  How either side computes them - loop
structure, temporaries, helpers, order of independent statements - does not
take part."""
import copy
import re
from fractions import Fraction

from core import *
from core import _element
from terms import _h
import model

SILENT = ("LogFile", "LogScreen", "std::cout", "std::cerr", "operator<<", "Warn", "setw", "flush", "endl")
STD_MUTATING = ("std::copy", "std::fill", "std::sort", "std::stable_sort", "std::swap", "std::reverse",
                "std::iota", "std::partial_sum", "std::unique", "std::transform", "std::random_shuffle")


def plain(n):
    """A qualified name without the template arguments of its classes."""
    while True:
        m = re.sub(r"<[^<>]*>(?=::)", "", n)
        if m == n:
            return n
        n = m


def called(e):
    """Unqualified name of the function called, with its own template
    arguments but not those of its class."""
    n = plain(e.name or "").split("::")[-1]
    f = (getattr(e, "node", None) or {}).get("f") or ""
    m = re.search(r"@F@%s<(.*?)>#" % re.escape(n), f)
    if m and (e.name or "").startswith("mocc::"):
        n += "<" + ",".join(re.findall(r"@S@(\w+)", m.group(1))) + ">"
    return n


def root(loc):
    while loc.op in ("idx", "slice", "map", "fld", "addr", "elem"):
        loc = loc.a[0]
    return loc


def visible(loc):
    return root(loc).op not in ("L", "tmp")


SIZED = ("ctor:blitz::Array", "ctor:std::vector", "ctor:Eigen::Matrix", "ctor:std::valarray")


def uniform(e):
    """A loop over all elements of an array that treats them alike, as one
    operation on the array."""
    if e.kind != "store" or e.loc.op != "idx" or e.val is None or len(e.loc.a) != 2:
        return e
    b = e.loc.a[1]
    if b.op != "bv" or not e.loops or e.loops[-1] is not b:
        return e
    arr, dom = e.loc.a[0], b.a[0]
    if dom.op != "rng" or len(dom.a) > 2 or dom.a[0] is not ZERO or dom.a[1].op != "app" or dom.a[1].a[0] != "size" or \
            dom.a[1].a[1] is not arr:
        return e
    if any(contains(x, b) for x in list(e.pc) + [e.val, arr]):
        return e
    return E0(arr, e.op, e.val, e.loops[:-1], e.pc, getattr(e, "src", e))


def pure(e):
    """A query whose only effect is its value."""
    n = getattr(e, "node", None) or {}
    return bool(n.get("cst")) and (n.get("t") or "void") != "void"


class View:
    """What a summary makes observable."""

    def __init__(self, s, skip, calls, drop, shape):
        self.s = s
        self.shape = shape
        self.truth = vn.strip_type(s.func.rt or "") == "bool"
        self.st, self.calls, self.throws, self.app, self.rsz = [], [], [], [], []
        named = {l: mk("sym", "<returned>") for l in s.retlocs}
        for e in s.eff:
            if named and e.loc is not None and root(e.loc) in named:
                e = copy.copy(e)
                e.loc = subst(e.loc, named)
            if e.kind == "throw":
                self.throws.append(e)
            elif e.kind == "decl":
                v = e.val   # the extents of an array that is returned
                if e.loc is not None and e.loc.op == "sym" and v is not None and v.op == "app" and \
                        v.a[0] in ("ctor:blitz::Array", "ctor:Eigen::Matrix") and len(v.a) > 1 and \
                        not any(x.op in ("L", "tmp", "idx", "fld") and vn._container_type(vn.LTYPE.get(x) or "") for x in v.a[1:]):
                    e.kind, e.args = "resize", tuple(v.a[1:])
                    self.rsz.append(e)
            elif e.kind in ("store", "alias"):
                d = getattr(e, "node", None) or {}
                if d.get("mem") and not d.get("written") and e.val is not None and e.val.op == "tmp":
                    continue   # default initialisation
                if e.loc is not None and visible(e.loc) and not _named(e.loc, skip):
                    if e.kind == "store" and e.op == "=" and e.val is not None and e.val.op == "app" and \
                            e.val.a[0] in SIZED and len(e.val.a) > 1:
                        x = copy.copy(e)
                        x.kind, x.args = "resize", tuple(e.val.a[1:])
                        self.rsz.append(x)
                        continue
                    for x in self.parts(self.spread(elementwise(e))):
                        self.st.append(uniform(x))
            elif e.kind == "call" and e.name in ("std::copy", "std::fill"):
                x = elementwise(e)
                if x.loc is not None and visible(x.loc) and not _named(x.loc, skip):
                    self.st.append(x)
            elif e.kind == "call":
                n = e.name or ""
                if any(t in n for t in SILENT) or any(called(e) == d for d in drop):
                    continue
                p = n.split("::")
                if len(p) > 1 and p[-1] == p[-2] and not e.args and e.obj is not None and e.obj.op == "this":
                    continue   # trivial base constructor
                if calls == "repo" and not n.startswith("mocc::") and n not in STD_MUTATING:
                    continue
                if e.obj is not None and not visible(e.obj):
                    continue
                self.calls.append(e)
            elif e.kind in ("append", "resize", "delete"):
                if e.loc is not None and visible(e.loc) and not _named(e.loc, skip):
                    (self.rsz if e.kind == "resize" else self.app).append(e)
            elif e.kind in ("clear", "pop_back", "erase", "insert", "assign", "swap"):
                if e.loc is not None and visible(e.loc) and not _named(e.loc, skip):
                    x = copy.copy(e)
                    if e.kind == "clear":
                        x.kind, x.args = "resize", (ZERO,)
                        self.rsz.append(x)
                    else:
                        self.app.append(x)
        self.exits = [e for e in s.eff if e.kind == "exit"]

    def parts(self, e):
        """A store of a whole object as stores to its members."""
        if e.kind != "store" or e.op != "=" or e.val is None or e.val.op != "struct" or e.val.a[0].op not in ("undef", "sym"):
            return [e]
        f = e.val.a[1]
        out = []
        for n, v in zip(f[::2], f[1::2]):
            out += self.parts(E0(fld(e.loc, n), "=", v, e.loops, e.pc, getattr(e, "src", e)))
        return out

    def spread(self, e):
        """A store to a whole array of known shape as stores to its elements."""
        if e.kind != "store" or e.loc.op not in ("fld", "sym"):
            return e
        n = e.loc.a[1] if e.loc.op == "fld" else e.loc.a[0]
        if n not in self.shape:
            return e
        ks = [loop(x, k=("el", i)) for i, x in enumerate(self.shape[n])]
        return E0(idx(e.loc, *ks), e.op, _element(e.val, ks), list(e.loops) + ks, e.pc, e.src)


def handed(view, maker):
    """The contents of working arrays handed to a constructor, as stores to one array of that name; False when they are
    not known.  Where a working array lives makes no difference."""
    name, held, known = mk("sym", "<%s>" % maker), {}, True
    for e in view.s.eff:
        for t in (e.args if e.kind == "call" else ()):
            for x in subterms(t):
                if x.op == "app" and x.a[0] == "ctor:" + maker and len(x.a) > 2:
                    held[x.a[2]] = 0
    out = []
    for x in held:
        if x.op == "app" and x.a[0] == "ilist":
            out += [E0(idx(name, const(i)), "=", v, (), (), view.s.eff[0]) for i, v in enumerate(x.a[1:])]
            held[x] += len(x.a) - 1
    for e in view.s.eff:
        if e.kind not in ("append", "store") or e.loc is None or root(e.loc) not in held or e.val is None:
            continue
        r = root(e.loc)
        if e.kind == "append" and len(e.loops) == 1 and e.loops[0].b.a[0].op == "rng" and e.loops[0].b.a[0].a[0] is ZERO and not held[r]:
            at = e.loops[0].b
        elif e.kind == "append" and not e.loops and not e.pc:
            at = const(held[r])
        elif e.kind == "store" and e.op == "=" and e.loc is r:
            at = ZERO
        elif e.kind == "store" and e.op == "=" and e.loc.op == "idx" and len(e.loc.a) == 2 and e.loc.a[0] is r:
            at = e.loc.a[1]
        else:
            known = False
            continue
        held[r] += 1
        out.append(E0(idx(name, at), "=", e.val, e.loops, e.pc, e))
    for l in (view.st, view.app, view.rsz):
        l[:] = [e for e in l if e.loc is None or root(e.loc) not in held]
    return out if known and all(held.values()) else False


def extents(shape, canon=None):
    """The size of an array of known shape is the product of its extents."""
    def c(t):
        if t.op == "L":
            return mk("sym", "local:" + vn.LTYPE.get(t, "?"))
        if t.op == "tmp":
            return mk("sym", "fresh")
        if t.op == "app" and "<" in t.a[0] and plain(t.a[0]) != t.a[0]:
            return mk("app", plain(t.a[0]), *t.a[1:])
        if canon is not None:
            r = canon(t)
            if r is not None:
                return r
        if t.op == "app" and t.a[0] in ("size", "extent") and isinstance(t.a[1], T):
            if t.a[1].op == "slice" and t.a[0] == "size":
                r = ONE
                for i, x in enumerate(t.a[1].a[1:]):
                    if x.op == "all":
                        r = mul(r, mk("app", "extent", t.a[1].a[0], const(i)))
                    elif x.op == "range":
                        r = mul(r, add(sub(x.a[1], x.a[0]), ONE))
                return r
            n = vn.root_name(t.a[1])
            if n in shape and t.a[1].op in ("fld", "sym"):
                sh = shape[n]
                if t.a[0] == "extent" and t.a[2].op == "c" and t.a[2].a[0] < len(sh):
                    return sh[t.a[2].a[0]]
                if t.a[0] == "size":
                    r = sh[0]
                    for x in sh[1:]:
                        r = mul(r, x)
                    return r
        return None
    return c


def _named(loc, skip):
    while loc.op in ("idx", "slice", "map", "addr"):
        loc = loc.a[0]
    if loc.op == "fld":
        if loc.a[1] in skip:
            return True
        return _named(loc.a[0], skip) if loc.a[0].op in ("fld", "idx") else False
    return loc.op in ("sym",) and loc.a[0] in skip


def _points(eff, env, f):
    """f() at every sampled point of the effect's loops where it happens."""
    loops = [l.b if hasattr(l, "b") else l for l in eff.loops]
    out = []

    def go(i):
        if i == len(loops):
            if env.truth(env.ev(conj(eff.pc))):
                out.append(f())
            return
        for p in env.points(loops[i]):
            env.bind(loops[i], p, lambda: go(i + 1))
    go(0)
    return out


def address(loc):
    """(root object, member path, indices) of a location."""
    path, ixs = [], []
    while loc.op in ("idx", "slice", "fld", "addr"):
        if loc.op == "fld":
            path.append(loc.a[1])
        elif loc.op != "addr":
            path.append(len(loc.a) - 1)
            ixs = list(loc.a[1:]) + ixs
        loc = loc.a[0]
    return loc, tuple(reversed(path)), ixs


def _near(v):
    """Values that differ only by the rounding of literals coincide."""
    if isinstance(v, Fraction) and v.denominator != 1 or isinstance(v, float):
        return "%.8e" % float(v)
    return v


def _q(env, t):
    if isinstance(t, T):
        return _near(env.q(env.ev(t)))
    return t


def _holding(d, ix):
    """What is known of an element: its own entry or that of an enclosing part."""
    for n in range(len(ix), -1, -1):
        if ix[:n] in d:
            return d[ix[:n]]
    return None


def spans(e, env, bk, out):
    """Lengths of the array sections a section is assigned from."""
    s = getattr(e, "src", None)
    if s is None or s.kind != "store" or s.loc is None or s.loc.op != "slice" or s.val is None:
        return
    rs = [x for t in subterms(s.val) if t.op == "slice" for x in t.a[1:] if x.op == "range"]
    if rs:
        out.setdefault(bk, []).extend(_points(e, env, lambda: tuple(_q(env, sub(x.a[1], x.a[0])) for x in rs)))


def image(view, env):
    """Evaluated observable effect: {item: (value, sample effect)}"""
    out = {}
    src = {}
    span = {}
    for e in view.st:
        rt, path, ixs = address(e.loc)
        bk = ("mem", path[:-1] if path and isinstance(path[-1], int) else path)
        dyn = [rt] if any_op(rt, "bv") else []
        if not dyn:
            bk += (env.q(env.ev(rt)),)
        src.setdefault(bk, []).append(e)
        d = out.setdefault(bk, {})
        if e.kind == "alias" or e.op == "alias":
            d["alias"] = [_q(env, e.val)]
            continue
        spans(e, env, bk, span)
        ixs = dyn + ixs
        for n, x in enumerate(ixs):
            if x.op in ("all", "range"):
                ixs = ixs[:n]
                break
        for ix, v in _points(e, env, lambda: (tuple(env.q(env.ev(x)) for x in ixs),
                                              env.num(env.ev(e.val)) if e.val is not None else None)):
            parts = [k for k in d if k != "alias" and len(k) > len(ix) and k[:len(ix)] == ix]
            k, old = _holding(d, ix) or (("+", 0) if e.op in ("+=", "-=") else ("*", 1))
            d[ix] = _combine(e.op, k, old, v)
            for kk in parts:
                if e.op == "=":
                    del d[kk]
                else:
                    d[kk] = _combine(e.op, d[kk][0], d[kk][1], v)
    res = {}
    for bk, d in out.items():
        res[bk] = {k: (v if isinstance(v, list) else (v[0], _near(env.q(v[1])))) for k, v in d.items()
                   if k == "alias" or not k or v != _holding(d, k[:-1])}
        if not res[bk]:
            del res[bk]
    for k, v in span.items():
        res[("span",) + k[1:]] = sorted(set(v), key=repr)
        src[("span",) + k[1:]] = src[k]
    for e in view.rsz:
        k = ("size", env.q(env.ev(e.loc)))
        src.setdefault(k, []).append(e)
        pts = _points(e, env, lambda: tuple(_q(env, a) for a in e.args))
        if pts:
            res[k] = pts[-1:]
    for e in view.app:
        k = (e.kind, env.q(env.ev(e.loc)))
        src.setdefault(k, []).append(e)
        pts = _points(e, env, lambda: (_q(env, e.val) if e.val is not None else None,) + tuple(_q(env, a) for a in e.args))
        if pts:
            res.setdefault(k, []).extend(pts)
    for e in view.calls:
        if pure(e):
            continue
        k = ("call", called(e), env.q(env.ev(e.obj)) if e.obj is not None else None)
        src.setdefault(k, []).append(e)
        pts = _points(e, env, lambda: tuple(_q(env, a) for a in e.ins))
        if pts:
            res.setdefault(k, []).extend(pts)
    for e in view.exits:
        k = ("exit",)
        src.setdefault(k, []).append(e)
        pts = _points(e, env, lambda: tuple(_q(env, l.b) for l in e.loops))
        if pts:
            res.setdefault(k, []).extend(pts)
    if ("exit",) in res:
        res[("exit",)] = sorted(set(res[("exit",)]), key=repr)
    if view.s.ret is not None and not view.s.retlocs:
        res[("ret",)] = env.truth(env.ev(view.s.ret)) if view.truth else _q(env, view.s.ret)
    return res, src


def trace(view, env):
    """Calls in execution order at the sampled points."""
    out = []

    def go(effs, d):
        i = 0
        while i < len(effs):
            e = effs[i]
            if len(e.loops) <= d:
                if env.truth(env.ev(conj(e.pc))):
                    out.append((called(e), env.q(env.ev(e.obj)) if e.obj is not None else None,
                                tuple(_q(env, a) for a in e.ins)))
                i += 1
                continue
            j = i
            while j < len(effs) and len(effs[j].loops) > d and effs[j].loops[d] is e.loops[d]:
                j += 1
            grp = effs[i:j]
            pts = env.points(e.loops[d].b)
            for p in (reversed(pts) if e.loops[d].down else pts):
                env.bind(e.loops[d].b, p, lambda: go(grp, d + 1))
            i = j
    go(view.calls, 0)
    return out


def _combine(op, k, old, v):
    if op == "=":
        return ("=", v)
    if op == "+=":
        return (k, old + v) if k != "*" else ("+*", old + v)
    if op == "-=":
        return (k, old - v) if k != "*" else ("+*", old - v)
    if op == "*=":
        return (k, old * v)
    if op == "/=":
        return (k, old / v if v else 0)
    return (op, v)


DESC = {"span": "the section assigned to %s is not as long as specified",
        "mem": "the value stored in %s differs from the specified one",
        "size": "the extent given to %s differs from the specified one",
        "append": "the elements appended to %s differ from the specified ones",
        "delete": "what is deleted differs: %s",
        **{n: "the call of %s on %%s differs from the specified one" % n for n in ("pop_back", "erase", "insert", "assign", "swap")},
        "call": "the calls of %s differ from the specified ones",
        "exit": "the conditions for leaving a loop differ from the specified ones",
        "ret": "the returned value differs from the specified one",
        "throw": "the conditions of refusal differ from the specified ones"}


def label(k, effs):
    if k[0] in ("throw", "ret", "exit"):
        return DESC[k[0]]
    if k[0] == "call":
        return DESC["call"] % k[1]
    for e in effs:
        if e.loc is not None:
            return DESC[k[0]] % _locname(e.loc)
    return DESC[k[0]] % "memory"


def _locname(loc):
    n = vn.root_name(loc)
    return n or show(vn.base_loc(loc))


def choices(sums, canon, tested):
    """Inputs that the two functions compare with literals, with the values that
    tell the outcomes apart: {term: [values]}"""
    out = {}
    eqs = {}
    roots = []
    for s in sums:
        for e in s.eff:
            roots += [x for x in (e.loc, e.val) if x is not None] + list(e.pc) + [l.b for l in e.loops] + \
                [x for x in e.args if isinstance(x, T)]
        if s.ret is not None:
            roots.append(s.ret)
    seen = set()

    def note(x, c):
        d = 0
        while x.op in ("add", "sub") and x.a[1].op == "c" and isinstance(x.a[1].a[0], int):
            d += x.a[1].a[0] if x.op == "add" else -x.a[1].a[0]
            x = x.a[0]
        if x.op in ("bv", "phi", "c", "s", "ite", "add", "sub", "mul", "div", "idiv", "mod", "neg", "abs", "max", "min", "trunc") or any(y.op in ("bv", "L", "tmp", "phi") for y in subterms(x)):
            return
        n = canon(x)
        if n is not None:
            x = n
        v = c.a[0]
        if c.op == "s":
            out.setdefault(x, set()).add(v)
        elif isinstance(v, int) and not isinstance(v, bool) and abs(v) < 2 ** 20:
            out.setdefault(x, set()).update((v - d - 1, v - d, v - d + 1))

    for r in roots:
        st = [r]
        while st:
            t = st.pop()
            if t.id in seen:
                continue
            seen.add(t.id)
            if t.op in ("eq", "lt", "le"):
                a, b = t.a
                if b.op in ("c", "s"):
                    a, b = b, a
                if a.op in ("c", "s"):
                    note(b, a)
                if t.op == "eq" and vn._intc(a):
                    eqs.setdefault(b.id, set()).add(a.a[0])
            for y in t.a:
                if isinstance(y, T):
                    st.append(y)
                elif isinstance(y, tuple):
                    st.extend(z for z in y if isinstance(z, T))
    res = {}
    tested.clear()
    tested.update({k: sorted(v) for k, v in eqs.items()})
    for k, v in out.items():
        strs = sorted(x for x in v if isinstance(x, str))
        res[k] = strs + ["other"] if strs else sorted(v)
    return res


def envs(n, canon, pick=None, exact=True):
    for s in range(n):
        m = s % 4
        yield Env(s, canon, signed=(m in (1, 2)), exact=exact, pretend=(m == 2), ints=(m == 3))
    if not pick:
        return
    ks = sorted(pick, key=lambda t: t.id)
    m = min(max(len(pick[k]) for k in ks) * (1 if len(ks) == 1 else 2), 48)
    for s in range(m):
        asg = {}
        for j, k in enumerate(ks):
            v = pick[k]
            i = s if j == 0 else s + (s // len(v)) * (j % 5 + 1) + j
            asg[k] = v[i % len(v)]
        e = Env(1000 + s, canon, signed=(s % 3 == 1), exact=exact, pretend=False, ints=False, assign=asg)
        e.directed = True
        yield e


def both(es):
    """Each interpretation, followed by the one with its comparisons settled
    differently."""
    for e in es:
        if not e.ints and e.exact:
            e.pairs = []
        yield e
        for _ in range(3):
            e = e.settled() if e.pairs else None
            if e is None:
                break
            e.pairs = []
            yield e


def leaves(t, pc=(), out=None):
    """The conditions under which each alternative of a value is taken."""
    out = [] if out is None else out
    if len(out) < 64:
        if t.op == "ite":
            leaves(t.a[1], pc + (t.a[0],), out)
            leaves(t.a[2], pc + (not_(t.a[0]),), out)
        elif t.op == "struct":
            for x in t.a[1]:
                if isinstance(x, T):
                    leaves(x, pc, out)
        elif pc:
            out.append(pc)
    return out


def disjuncts(t):
    """The alternatives of a condition."""
    if t.op == "or":
        return [y for x in t.a for y in disjuncts(x)]
    if t.op == "not" and t.a[0].op == "and":
        return [y for x in t.a[0].a for y in disjuncts(not_(x))]
    if t.op == "not" and t.a[0].op == "not":
        return disjuncts(t.a[0].a[0])
    if t.op == "and":
        a, b = (disjuncts(x) for x in t.a)
        if 1 < len(a) * len(b) <= 16:
            return [and_(x, y) for x in a for y in b]
    return [t]


def refusals(v):
    """Each single condition on which the operation is refused: (loops, condition, effect)"""
    out = []
    for e in v.throws:
        ls = tuple(l.b if hasattr(l, "b") else l for l in e.loops)
        out += [(ls, c, e) for c in disjuncts(conj(e.pc))]
    return out


def excused(differ, agree, refused):
    """Do things differ only where one or two of the common refusals take
    place, and agree elsewhere?"""
    fs = [frozenset(k for k, x in enumerate(s) if x) for s in refused]
    fs = [f for f in fs if f & differ]
    for i, f in enumerate(fs):
        for g in fs[i:]:
            if differ <= f | g and agree - f - g:
                return True
    return False


def same_refusals(ra, rb, sa, sb):
    """Do two lists of refusals, given where each takes place among the
    interpretations, come to the same?  Returns one that has no
    counterpart."""
    if not sa and not sb:
        return None
    n = len((sa or sb)[0])
    both_ = set(map(tuple, sa)) & set(map(tuple, sb))
    ua = [i for i, s in enumerate(sa) if tuple(s) not in both_]
    ub = [i for i, s in enumerate(sb) if tuple(s) not in both_]
    # what differs only where another refusal takes place anyway
    if ua and ub:
        for i in list(ua):
            j = next((j for j in ub if excused({k for k in range(n) if sa[i][k] != sb[j][k]},
                                               {k for k in range(n) if sa[i][k] and sb[j][k]}, both_)), None)
            if j is not None:
                ua.remove(i)
                ub.remove(j)

    if bool(ua) == bool(ub) and all(
            sorted(sa[i][k] for i in ua if sa[i][k]) == sorted(sb[i][k] for i in ub if sb[i][k]) for k in range(n)):
        return None
    return (ra[ua[0]], None) if ua else (None, rb[ub[0]])


def times(env, r):
    """At how many of the sampled points of its loops a refusal takes place; a
    loop that the condition does not depend on counts once."""
    ls, c = r[:2]
    free = [contains(c, b) or any(contains(x, b) for x in ls[i + 1:]) for i, b in enumerate(ls)]

    def go(i):
        if i == len(ls):
            return int(bool(env.truth(env.ev(c))))
        ps = list(env.points(ls[i]))
        return sum(env.bind(ls[i], p, lambda: go(i + 1)) for p in (ps if free[i] else ps[:1]))
    return go(0)


def targets(v):
    """The branches of a summary, each of which some interpretation should
    take: (enclosing loops, conditions)."""
    out = {}
    for e in v.st + v.calls + v.app + v.rsz:
        ls = tuple(l.b if hasattr(l, "b") else l for l in e.loops)
        if e.pc:
            out[(ls, conj(e.pc))] = True
        if e.kind == "store" and e.val is not None:
            for pc in leaves(e.val):
                out[(ls, and_(conj(e.pc), conj(pc)))] = True
        inner(ls, e.pc, (e.val,) + tuple(getattr(e, "args", ())), out)
    if v.s.ret is not None:
        for pc in leaves(v.s.ret):
            out[((), conj(pc))] = True
    out = [g for g in out if g[1].op != "c"]
    for ls, c, e in refusals(v):
        if c.op != "c":
            out += [(ls, c), (ls, c, True)]
    return out


def inner(ls, pc, vals, out):
    """The alternatives within the values of one effect."""
    own = {x.id for x in ls}
    k = len(out)
    for v in vals:
        for t in subterms(v) if isinstance(v, T) else ():
            if t.op == "ite" and len(out) < k + 40 and all(x.id in own for x in subterms(t.a[0]) if x.op in ("bv", "phi")):
                for c in (t.a[0], not_(t.a[0])):
                    out.setdefault((ls, and_(conj(pc), c)), True)


def weight(v):
    """About how many terms one evaluation of a summary takes."""
    n = len(ids(v.s.ret)) if v.s.ret is not None else 0
    for e in v.st + v.calls + v.throws + v.app + v.rsz:
        for t in (e.loc, e.val, conj(e.pc)) + tuple(getattr(e, "args", ())):
            if isinstance(t, T):
                n += (len(ids(t)) + 1) * 4 ** len(e.loops)
    return n


def taken(env, goal):
    ls, c = goal[:2]

    def go(i):
        if i == len(ls):
            return env.truth(env.ev(c))
        return any(env.bind(ls[i], p, lambda: go(i + 1)) for p in env.points(ls[i]))
    return go(0) != (len(goal) > 2)


def sampled(n, canon, pick, exact, goals, trials, more=0, stop=None):
    """The interpretations compared: a fixed number, then as many of a further
    series as take a branch that none before took."""
    stop = stop or {}
    every = list(dict.fromkeys(r for l in stop.values() for r in l))

    def meet(env):
        fire = {r: bool(times(env, r)) for r in every}
        left = [g for g in goals if any(fire[r] for r in stop.get(id(g), ())) or not taken(env, g)]
        new = len(left) != len(goals)
        goals[:] = left
        return new
    for env in both(envs(n, canon, pick, exact=exact)):
        meet(env)
        yield env
    ks = sorted(pick or (), key=lambda t: t.id)
    for s in range(trials + more):
        if not goals and s >= more:
            return
        asg = {k: pick[k][_h(s, "pick", i) % len(pick[k])] for i, k in enumerate(ks) if _h(s, "use", i) % 4}
        m = s % 4
        e = Env(5000 + s, canon, signed=(m == 1), exact=exact, ints=(m == 3), assign=asg)
        e.directed = bool(asg)
        e.scale = 12 if m == 2 else 1
        for env in both([e]):
            if meet(env) or s < more:
                yield env
    # the branches still not taken, each aimed at
    for s in range(8 if exact else 0):
        for g in list(goals):
            if g not in goals:
                continue
            e = Env(9000 + s, canon, signed=bool(s % 3), exact=True)
            e.scale = 12 if s % 4 == 2 else 1
            e = steer(e, g, stop.get(id(g), ()))
            if e is not None and meet(e):
                yield e


def steer(env, goal, stops):
    """An interpretation like the given one in which the goal is met and none
    of the refusals takes place, by changing the values of the inputs that the
    conditions compare."""
    x = env.like()
    x.strict = True
    for k in range(5):
        ch = {}
        at(x, goal[0], lambda: toward(x, goal[1], len(goal) == 2, ch, k), any_=True)
        for ls, c in stops:
            at(x, ls, lambda: toward(x, c, False, ch, k))
        if not ch:
            return x
        n = x.like()
        n.rename = {**{v: ch.get(w, w) for v, w in x.rename.items()}, **ch}
        x = n
    return x


def at(env, ls, f, any_=False):
    """f at the sampled points of the loops, or at one of them."""
    if not ls:
        return f()
    ps = list(env.points(ls[0]))
    if any_ and ps:
        ps = [ps[(0, -1, len(ps) // 2)[env.seed % 3]]]
    for p in ps:
        env.bind(ls[0], p, lambda: at(env, ls[1:], f, any_))


def toward(env, c, want, ch, k):
    """Note the changes of inputs that give a condition the wanted outcome."""
    if c.op == "not":
        return toward(env, c.a[0], not want, ch, k)
    if env.truth(env.ev(c)) == want:
        return
    if c.op in ("and", "or"):
        if (c.op == "and") == want:
            for y in c.a:
                toward(env, y, want, ch, k)
        else:
            ys = flat(c, c.op)
            toward(env, ys[_h(env.seed, "arm", c.id, k) % len(ys)], want, ch, k)
        return
    if c.op == "ite":
        return toward(env, c.a[1] if env.truth(env.ev(c.a[0])) else c.a[2], want, ch, k)

    def put(t, w):
        if t.op in ("add", "sub") and isinstance(w, (int, float, Fraction)):
            a, b = t.a
            x, y = env.num(env.ev(a)), env.num(env.ev(b))
            return put(a, w - y if t.op == "add" else w + y) or put(b, w - x if t.op == "add" else x - w)
        v = env.ev(t)
        if t.op in INPUT and isinstance(v, Fraction) and t.id not in env.assign and v not in ch and \
                not (t.op == "app" and t.a[0] in MATH) and v != w:
            w = ch.get(w, w)
            if w != v:
                ch[v] = w
                return True
        return False
    if c.op == "eq":
        a, b = c.a if _h(env.seed, "side", c.id, k) % 2 else c.a[::-1]
        if want:
            put(a, env.ev(b)) or put(b, env.ev(a))
        return
    if c.op in ("lt", "le"):
        a, b = c.a
        x, y = env.num(env.ev(a)), env.num(env.ev(b))
        d = (1, 2, 0 if (c.op == "le") == want else 1)[_h(env.seed, "by", c.id, k) % 3]
        less = (a, y - d, b, x + d) if want else (a, y + d, b, x - d)
        if _h(env.seed, "side", c.id, k) % 2:
            less = less[2:] + less[:2]
        put(*less[:2]) or put(*less[2:])
        return
    put(c, want)


def flat(t, op):
    return [y for x in t.a for y in flat(x, op)] if t.op == op else [t]


def against(ck, f, ref, skip=(), calls="repo", drop=(), canon=None, n=24, args=None, only=None, throws=True,
            ret=True, exact=True, order=(), this=None, partial=True, havoc=True, shape=None, carried=True, maker=None, **kw):
    """One comparison; every observable item is an obligation."""
    rf = ref if not isinstance(ref, str) else ref_fn(ck, ref)
    kw["opaque"] = tuple(kw.get("opaque", ())) + ("Warn", "Timer::tic", "Timer::toc")
    drop = tuple(drop) + ("tic", "toc")
    skip = tuple(skip) + ("timer_", "timer_sweep_", "timer_init_", "timer_xsupdate_")
    ck.functions.add(f.n)
    a = vn.Interp(ck.prog, havoc=havoc, home=f, carried=carried, **kw).run(f, args=args)
    ra = {}
    ps = list(rf.p)
    if not f.static and f.cls:
        ra[ps[0]["n"]] = THIS
        ps = ps[1:]
    if len(ps) != len(f.p):
        raise AnalysisBroken("%s/%s: %s takes %d parameters, its reference %d" % (
            ck.pid, ck.cur, f.n, len(f.p), len(ps)))
    for p, q in zip(f.p, ps):
        ra[q["n"]] = a.params[p["n"]]
    b = vn.Interp(ck.prog, havoc=havoc, home=f, carried=carried, **kw).run(rf, args=ra, ctor=f if f.ctor else None)
    for e in a.eff:
        for g in e.stack:
            ck.functions.add(g.n)
    shape = {k: tuple(F(x) if isinstance(x, str) else x for x in (v if isinstance(v, tuple) else (v,)))
             for k, v in (shape or {}).items()}
    va, vb = View(a, skip, calls, drop, shape), View(b, skip, calls, drop, shape)
    if maker:
        made = [handed(v, maker) for v in (va, vb)]
        if all(m is not False for m in made):
            for v, m in zip((va, vb), made):
                v.st += m
        given = canon
        canon = lambda t: mk("app", t.a[0], t.a[1]) if t.op == "app" and t.a[0] == "ctor:" + maker and len(t.a) > 2 else \
            given and given(t)
    canon = extents(shape, canon)
    if ck.debug:
        ck.debug_pair = (a, b)
    bad, good, where = {}, {}, {}
    at = -1
    tested = {}
    pick = choices((a, b), canon, tested)
    Env.tested = tested
    goals = targets(va) + targets(vb)
    total = len(goals)
    trials = 150 if ck.tier == "quick" else 1500
    fa, fb = (refusals(v) for v in (va, vb))
    ka, kb = [r[:2] for r in fa], [r[:2] for r in fb]
    stop = {}
    for g in goals:
        if len(g) == 2:
            mine = [l for l in (ka, kb) if g in l]
            stop[id(g)] = [r for r in (mine[0] if mine else ka + kb) if r != g]
    if not throws:
        fa, fb = [], []
    sa, sb = [[] for _ in fa], [[] for _ in fb]
    more = min(150, 200000 // (weight(va) + weight(vb) + 1)) * (1 if ck.tier == "quick" else 10)
    for env in sampled(n if ck.tier == "quick" else 4 * n, canon, pick, exact, goals, trials, more, stop):
        at += 1
        x, sx = image(va, env)
        y, sy = image(vb, env)
        for k in dict.fromkeys((*x, *y)):
            if k[0] == "ret" and not ret:
                continue
            effs = sx.get(k, []) or sy.get(k, [])
            name = label(k, effs)
            if k[0] == "exit" and not partial:
                continue
            if only and k[0] not in ("throw", "ret") and not any(o in name for o in only):
                continue
            u, v = x.get(k), y.get(k)
            if k[0] == "span" and (u is None or v is None):
                continue
            if k[0] == "call" and isinstance(u, list) and isinstance(v, list):
                u, v = sorted(map(repr, u)), sorted(map(repr, v))
            if u != v:
                if name in bad:
                    bad[name][4].add(at)
                else:
                    bad[name] = (k, u, v, env.seed, {at})
                    w = [e for e in sx.get(k, [])]
                    where[name] = w[0].where() if w and w[0].where() != "specification" else f.where
            else:
                good.setdefault(name, set()).add(at)
        for fs, ss in ((fa, sa), (fb, sb)):
            for r, l in zip(fs, ss):
                l.append(times(env, r))
        if order:
            tx, ty = trace(va, env), trace(vb, env)
            for pr in order:
                m = "the order of %s differs from the specified one" % " and ".join(pr)
                if [t for t in tx if t[0] in pr] != [t for t in ty if t[0] in pr]:
                    bad.setdefault(m, (("order",), [t for t in tx if t[0] in pr], [t for t in ty if t[0] in pr], env.seed, set()))[4].add(at)
                elif any(t[0] in pr for t in ty):
                    good.setdefault(m, set()).add(at)
    common = set(map(tuple, sa)) & set(map(tuple, sb))
    for m in [m for m in bad if excused(bad[m][4], good.get(m, set()), common)]:
        del bad[m]
    if fa or fb:
        r = same_refusals(fa, fb, sa, sb)
        if r is None:
            good[DESC["throw"]] = set()
        else:
            bad[DESC["throw"]] = (("throw",), show(r[0][1]) if r[0] else None, show(r[1][1]) if r[1] else None, None)
            if r[0] and r[0][2].where() != "specification":
                where[DESC["throw"]] = r[0][2].where()
    ck.branches += total
    ck.reached += total - len(goals)
    if ck.debug:
        ck.unreached = goals
    for g in [g for g in good if g not in bad]:
        ck.seen(f.where)
    if not good and not bad:
        raise AnalysisBroken("%s/%s: nothing observable in %s" % (ck.pid, ck.cur, f.n))
    for m, info in bad.items():
        ck.ok(False, f.n, m, where.get(m, f.where))
        if ck.debug:
            print("   DIFF", f.n, m, "seed", info[3])
            _dump(info[1], info[2])
    ck.last = (a, b)
    return not bad


def _dump(u, v):
    if isinstance(u, dict) and isinstance(v, dict):
        for k in list(dict.fromkeys(list(u) + list(v)))[:400]:
            if u.get(k) != v.get(k):
                print("      ", k, "code", u.get(k), "spec", v.get(k))
                break
    else:
        print("       code", str(u)[:300])
        print("       spec", str(v)[:300])


def ref_fn(ck, name):
    fs = [f for f in ck.prog.funcs.values() if f.n == "ref::" + name or f.n.startswith("ref::" + name + "<")]
    if len(fs) != 1:
        raise AnalysisBroken("%s: %d reference definitions of %s" % (ck.pid, len(fs), name))
    return fs[0]


def specs(ck, *names):
    for name in names:
        model.load_spec(ck.prog, name)


def pair(ck, rid, text, pairs, **common):
    """One rule over a list of (function, reference, options)."""
    ck.rule(rid, text)
    for p in pairs:
        fn, rn = p[0], p[1]
        o = dict(common)
        if len(p) > 2:
            o.update(p[2])
        pick = o.pop("pick", None)
        if callable(fn):
            fs = [f for f in ck.prog.funcs.values() if f.body is not None and not f.n.startswith("ref::") and fn(f)]
            ck.need(len(fs), o.pop("least", 1), "definitions for " + rn)
            for f in fs:
                against(ck, f, rn, **o)
            continue
        against(ck, ck.f1(fn, pick), rn, **o)


def like(ck, rid, text, names, **common):
    """One rule over functions whose references carry their names: "Class::fn",
    "Class::fn@2" (that many parameters) or "fn", each optionally with its own
    options."""
    out = []
    for x in names:
        x, o = x if isinstance(x, tuple) else (x, {})
        n, _, k = x.partition("@")
        p = n.split("::")
        if len(p) == 1:
            r = "fn__" + n
        else:
            r = "%s__%s" % (p[-2], "ctor" if p[-1] == p[-2] else p[-1])
        o = dict(o)
        r = o.pop("ref", r)
        if k:
            also = o.get("pick") or (lambda f: True)
            o["pick"] = lambda f, k=int(k), also=also: len(f.p) == k and also(f)
        out.append((n, r, o))
    pair(ck, rid, text, out, **common)
