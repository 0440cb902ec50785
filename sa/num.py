"""Folding of terms whose leaves are literals and constant tables."""
import math
from fractions import Fraction

from terms import *
from terms import T
from model import AnalysisBroken


class Outside(AnalysisBroken):
    """The code itself reads past the end of a table."""


class Fold:
    """Value of a term over the program's literals.

    tables: callback giving the (unmodified) initialiser of a named table as a
    list of numbers; given: {term: number} for the free quantities."""

    def __init__(self, tables=None, given=None):
        self.tables = tables
        self.given = given or {}
        self.memo = {}

    def __call__(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self.memo[t] = self.ev(t)
        return r

    def ev(self, t):
        if t in self.given:
            return self.given[t]
        o, a = t.op, t.a
        if o == "c":
            v = a[0]
            return v if isinstance(v, (int, bool)) else float(v)
        if o == "add":
            return self(a[0]) + self(a[1])
        if o == "sub":
            return self(a[0]) - self(a[1])
        if o == "mul":
            return self(a[0]) * self(a[1])
        if o == "div":
            return self(a[0]) / self(a[1])
        if o == "idiv":
            x, y = self(a[0]), self(a[1])
            return int(x / y)
        if o == "mod":
            x, y = self(a[0]), self(a[1])
            return int(math.fmod(x, y))
        if o == "neg":
            return -self(a[0])
        if o == "ite":
            return self(a[1]) if self(a[0]) else self(a[2])
        if o == "lt":
            return self(a[0]) < self(a[1])
        if o == "le":
            return self(a[0]) <= self(a[1])
        if o == "eq":
            return self(a[0]) == self(a[1])
        if o == "not":
            return not self(a[0])
        if o == "and":
            return bool(self(a[0])) and bool(self(a[1]))
        if o == "or":
            return bool(self(a[0])) or bool(self(a[1]))
        if o == "app":
            f = a[0].split("::")[-1]
            if f == "op|":
                return bool(self(a[1])) or bool(self(a[2]))
            if f == "op&":
                return bool(self(a[1])) and bool(self(a[2]))
            fn = {"sqrt": math.sqrt, "sin": math.sin, "cos": math.cos, "acos": math.acos, "asin": math.asin,
                  "abs": abs, "fabs": abs, "exp": math.exp, "log": math.log, "tan": math.tan}.get(f)
            if fn is not None and len(a) == 2:
                return fn(self(a[1]))
        if o == "ilist":
            return list(a)
        if o == "idx":
            b = a[0]
            k = [self(x) for x in a[1:]]
            if b.op == "idx":
                v = self.seq(b)
            else:
                v = self.seq(b)
            for i in k:
                if not isinstance(i, int) or not 0 <= i < len(v):
                    raise Outside("index %s outside a table of %d" % (i, len(v)))
                v = v[i]
            return v if isinstance(v, (int, float, bool, list)) else self(v)
        raise AnalysisBroken("cannot fold %s" % show(t)[:120])

    def seq(self, b):
        if b.op == "ilist":
            return list(b.a)
        if b.op == "idx":
            v = self(b)
            if isinstance(v, list):
                return v
        if b.op == "sym" and self.tables:
            v = self.tables(b.a[0])
            if v is not None:
                return v
        raise AnalysisBroken("cannot fold table %s" % show(b)[:80])


def table(prog, name):
    """Initialiser of a global table that nothing in the program assigns."""
    gs = [g for g in prog.globals.values() if g["n"] == name]
    if len(gs) != 1 or gs[0].get("init") is None:
        return None
    import vn
    v = vn.Interp(prog).rv(gs[0]["init"], vn.Frame(None, mk("this"), 0), vn.State())

    def conv(x):
        if x.op == "ilist":
            return [conv(y) for y in x.a]
        return Fold()(x)
    return conv(v)
