"""Shared machinery of the property rules: reporting, anchors, summaries and
comparison of effect footprints."""
import json
import os
import sys
import time

import model
import vn
from model import AnalysisBroken, walk, VERIF
from terms import *
from terms import T

sys.setrecursionlimit(20000)
THIS = mk("this")
PI = 3.141592653589793


class Violation:
    def __init__(self, rule, site, msg, where):
        self.rule, self.site, self.msg, self.where = rule, site, msg, where


class Check:
    """One run of one property's rules."""

    def __init__(self, pid, prog, seed, tier):
        self.pid, self.prog, self.seed, self.tier = pid, prog, seed, tier
        self.violations = []
        self.rules = {}        # rule -> {"text", "obligations", "sites"}
        self.functions = set()
        self.cur = None
        self.notes = []
        self.branches = self.reached = 0   # branches of the compared functions; those some interpretation took
        self.debug = bool(os.environ.get("VERIF_DEBUG"))

    # -- rules
    def rule(self, rid, text):
        self.cur = rid
        self.rules.setdefault(rid, {"rule": text, "obligations": 0, "failed": 0, "sites": []})

    def seen(self, where, n=1, rid=None):
        r = self.rules[rid or self.cur]
        r["obligations"] += n
        if where not in r["sites"] and len(r["sites"]) < 400:
            r["sites"].append(where)

    def bad(self, site, msg, where, rid=None):
        rid = rid or self.cur
        self.rules[rid]["failed"] += 1
        for v in self.violations:
            if v.rule == rid and v.site == site and v.msg == msg:
                return
        self.violations.append(Violation(rid, site, msg, where))

    def ok(self, cond, site, msg, where, rid=None):
        """One obligation."""
        self.seen(where, 1, rid)
        if not cond:
            self.bad(site, msg, where, rid)
        return bool(cond)

    def need(self, n, least, what):
        """An anchor the rule depends on: its absence is an error of the
        check, not a verdict."""
        if n < least:
            raise AnalysisBroken("%s/%s: expected at least %d %s, found %d" % (
                self.pid, self.cur, least, what, n))

    # -- program access
    def fn(self, name, least=1, only_body=True):
        fs = [f for f in self.prog.find(name) if f.body is not None]
        self.need(len(fs), least, "definition(s) of " + name)
        for f in fs:
            self.functions.add(f.n)
        return fs

    def f1(self, name, pick=None):
        fs = self.fn(name)
        if pick:
            fs = [f for f in fs if pick(f)]
            self.need(len(fs), 1, "definition of " + name)
        return fs[0]

    def enum(self, name):
        """{short enumerator name: value}"""
        e = self.prog.enum(name)
        return {c["n"].split("::")[-1]: c["v"] for c in e["c"]} if "c" in e else e

    def summ(self, f, args=None, **kw):
        self.functions.add(f.n)
        it = vn.Interp(self.prog, **kw)
        s = it.run(f, args=args)
        for e in s.eff:
            for g in e.stack:
                self.functions.add(g.n)
        return s


def F(*names):
    t = THIS
    for n in names:
        t = fld(t, n)
    return t


def S(name):
    return mk("sym", name)


def size(t):
    return mk("app", "size", t)


def loop(lo, hi=None, k=0):
    """Binder of a loop over [lo,hi) (or [0,lo))."""
    if hi is None:
        lo, hi = ZERO, lo
    if isinstance(lo, int):
        lo = const(lo)
    if isinstance(hi, int):
        hi = const(hi)
    return mk("bv", mk("rng", lo, hi), k)


def site(e):
    return "%s" % (e.func.n if e.func else "?")


def conj(ts):
    r = TRUE
    for t in ts:
        r = and_(r, t)
    return r


class Env(Ev):
    """Evaluation with extent equalities: `canon` maps a term to the term whose
    value it shares (e.g. the size of an array to the symbol it was sized
    with)."""

    def __init__(self, seed, canon=None, **kw):
        super().__init__(seed, **kw)
        self.canon = canon

    def ev(self, t):
        if self.canon is not None and t.op in ("app", "fld", "idx", "sym", "L", "tmp"):
            n = self.canon(t)
            if n is not None and n is not t:
                return self.ev(n)
        return super().ev(t)

    def fixed(self, t):
        if self.canon is not None and t.op in ("app", "fld", "idx", "sym", "L", "tmp"):
            n = self.canon(t)
            if n is not None and n is not t:
                return self.det(n)
        return super().fixed(t)


def instances(eff, env, loops=None):
    """Evaluate (guard, index values, value) of an effect at the sampled points
    of its loops."""
    loops = list(eff.loops) if loops is None else loops

    def go(i):
        if i == len(loops):
            if env.truth(env.ev(conj(eff.pc))):
                yield (key(eff.loc, env) if eff.loc is not None else (),
                       env.num(env.ev(eff.val)) if eff.val is not None else None)
            return
        b = loops[i].b if hasattr(loops[i], "b") else loops[i]
        for p in env.points(b):
            out = []

            def f():
                return list(go(i + 1))
            for r in env.bind(b, p, f):
                yield r
    return list(go(0))


def key(loc, env):
    """Identity of a location under an assignment."""
    b = loc
    while b.op in ("idx", "slice"):
        b = b.a[0]
    return (env.q(env.ev(b)),) + tuple(env.q(env.ev(x)) for x in vn.indices(loc))


class E0:
    """A specification effect."""

    def __init__(self, loc, op, val, loops=(), pc=(), src=None):
        self.loc, self.op, self.val, self.loops, self.pc = loc, op, val, tuple(loops), tuple(pc)
        self.kind, self.src = "store", src

    def where(self):
        return self.src.where() if self.src is not None else "specification"

    def __repr__(self):
        return "%s %s %s if %s for %s" % (show(self.loc), self.op, show(self.val), [show(x) for x in self.pc],
                                          [show(x) for x in self.loops])


_element = vn.element


def elementwise(eff):
    """An effect as a scalar store: array sections become loops over their
    elements, std::copy/std::fill become the stores they perform."""
    if eff.kind == "call" and eff.name == "std::copy" and len(eff.args) == 3:
        a, b, o = eff.args
        n = vn._delta(b, a) if hasattr(vn, "_delta") else None
        if n is None:
            n = sub(b, a)
        k = loop(n, k=("el", 0))
        return E0(pelem(o, k), "=", pelem(a, k), [l.b for l in eff.loops] + [k], eff.pc, eff)
    if eff.kind == "call" and eff.name == "std::fill" and len(eff.args) == 3:
        a, b, v = eff.args
        n = vn._delta(b, a)
        k = loop(n if n is not None else sub(b, a), k=("el", 0))
        return E0(pelem(a, k), "=", v, [l.b for l in eff.loops] + [k], eff.pc, eff)
    if eff.kind != "store":
        return eff
    loc = eff.loc
    if loc.op != "slice":
        return E0(loc, eff.op, eff.val, [l.b for l in eff.loops], eff.pc, eff)
    ks = []
    for n, x in enumerate(loc.a[1:]):
        if x.op == "range":
            ks.append(loop(add(sub(x.a[1], x.a[0]), ONE), k=("el", n)))
        elif x.op == "all":
            ks.append(loop(mk("app", "extent", loc.a[0], const(n)), k=("el", n)))
    return E0(idx(loc, *ks), eff.op, _element(eff.val, ks), [l.b for l in eff.loops] + ks, eff.pc, eff)


def pelem(p, k):
    """Element k past the pointer or iterator value p."""
    if p.op == "addr" and p.a[0].op == "idx":
        return elem(p.a[0], k)
    if p.op == "iter":
        return idx(p.a[0], add(p.a[1], k))
    return idx(deref(p), k)


def deref(p):
    """The storage a pointer or iterator value designates."""
    return p.a[0] if p.op == "addr" else p


def footprint(effs, env):
    """Net update of one array by a sequence of effects, at sampled points:
    index -> ('=' or '+', value)."""
    out = {}
    for e in effs:
        whole = not vn.indices(e.loc) or any(x.op in ("all", "range") for x in vn.indices(e.loc))
        for ix, v in instances(e, env):
            if whole:
                if e.op == "=":
                    out.clear()
                    out["*"] = ("=", v)
                else:
                    out["*" + e.op] = ("=", v)
                continue
            k, old = out.get(ix, ("+", 0))
            if e.op == "=":
                out[ix] = ("=", v)
            elif e.op == "+=":
                out[ix] = (k, old + v)
            elif e.op == "-=":
                out[ix] = (k, old - v)
            elif e.op == "*=":
                out[ix] = ("*", v) if ix not in out else (k, old * v)
            elif e.op == "/=":
                out[ix] = ("*", 1 / v if v else 0) if ix not in out else (k, old / v)
    return {k: (a, env.q(b)) for k, (a, b) in out.items()}


def same_footprint(effs, spec, n=12, canon=None, seed=0, **kw):
    for s in range(seed, seed + n):
        a = footprint(effs, Env(s, canon, **kw))
        b = footprint(spec, Env(s, canon, **kw))
        if a != b:
            return False
    return True


def eqv(a, b, n=40, canon=None, exact=True, assign=None, **kw):
    if a is b:
        return True
    if a is None or b is None:
        return False
    for s in range(n):
        asg = assign(s) if callable(assign) else assign
        e = Env(s, canon, exact=exact, assign=asg, **kw)
        x, y = e.ev(a), e.ev(b)
        if exact:
            if e.q(x) != e.q(y):
                return False
        else:
            x, y = float(e.num(x)), float(e.num(y))
            if not abs(x - y) <= 1e-7 * max(1.0, abs(x), abs(y)):
                return False
    return True


# -- running a check -----------------------------------------------------------
def load_known():
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.rstrip("\n")
            if line.startswith("known: "):
                # known: property=Cxx rule=<rule> site=<site> match=<text> :: description
                head, _, desc = line[len("known: "):].partition(" :: ")
                d = {}
                for part in head.split(" | "):
                    k, _, v = part.partition("=")
                    d[k.strip()] = v.strip()
                d["desc"] = desc
                out.append(d)
    return out


def run(pid, title, func, explanation):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "0") or 0)
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        prog = model.load()
        ck = Check(pid, prog, seed, tier)
        func(ck)
        for rid, r in ck.rules.items():
            if r["obligations"] == 0:
                raise AnalysisBroken("rule %s matched nothing" % rid)
    except AnalysisBroken as e:
        print("ERROR property=%s analysis could not be carried out: %s" % (pid, e))
        return 2
    known = [k for k in load_known() if k.get("property") == pid]
    left = []
    for v in ck.violations:
        hit = None
        for k in known:
            if k.get("rule") == v.rule and k.get("site") in (v.site, "*") and \
                    (not k.get("match") or k["match"] in v.msg):
                hit = k
                break
        if hit:
            print("KNOWN-FINDING: property=%s %s (%s)" % (pid, hit["desc"], v.where))
        else:
            left.append(v)
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "other",
        "coverage": {
            "explanation": explanation,
            "functions_analysed": len(ck.functions),
            "translation_units": len(prog.units),
            "obligations": sum(r["obligations"] for r in ck.rules.values()),
            "discharged": sum(r["obligations"] - r["failed"] for r in ck.rules.values()),
            "branches": ck.branches,
            "branches_exercised": ck.reached,
            "rules": [{"id": rid, "rule": r["rule"], "obligations": r["obligations"],
                       "failed": r["failed"], "sites": r["sites"][:60]}
                      for rid, r in ck.rules.items()],
        },
        "assumptions": ck.notes,
        "violations": len(left),
        "wall_s": round(time.time() - t0, 3),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    p = os.path.join(VERIF, "evidence", pid + ".json")
    with open(p + ".tmp", "w") as fh:
        json.dump(ev, fh, indent=1)
    os.replace(p + ".tmp", p)
    if left:
        rp = os.path.join(VERIF, "evidence", pid + ".violations.txt")
        with open(rp, "w") as fh:
            for v in left:
                fh.write("%s: rule %s (%s)\n  in %s\n  %s\n" % (
                    v.where, v.rule, ck.rules[v.rule]["rule"], v.site, v.msg))
        for v in left:
            print("%s: [%s] %s — %s" % (v.where, v.rule, v.site, v.msg))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    print("property %s held: %d obligations over %d functions (%d rules), %.1f s" % (
        pid, ev["coverage"]["obligations"], len(ck.functions), len(ck.rules), ev["wall_s"]))
    return 0
