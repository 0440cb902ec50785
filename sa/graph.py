"""The call graph: who calls whom, virtual calls resolved to every overrider."""
import re

from model import walk

SKIPPED = ("ref::",)
MAKERS = ("std::make_shared", "std::make_unique")


def own(prog, f):
    """A function with a body in the repository's sources."""
    return f.body is not None and f.rel.startswith("src/") and not f.n.startswith(SKIPPED)


def made(prog, c):
    """Constructors that a function of the library making an object from the arguments may use."""
    m = re.match(r"[\w:]*_ptr<(.*)>$", c.get("t", "").strip())
    if m is None:
        return []
    t, deep = "", 0
    for ch in m.group(1):
        deep += (ch == "<") - (ch == ">")
        if ch == "," and deep == 0:
            break
        t += ch
    t, n = t.strip(), len(c.get("a", ()))
    memo = prog.__dict__.setdefault("_ctors", {})
    if not memo:
        for f in prog.funcs.values():
            if f.ctor and f.body is not None:
                memo.setdefault(f.cls, []).append(f)
    return [f for f in memo.get(t, []) if len(f.p) == n and not f.copy]


def targets(prog, c):
    """Definitions a call or construction may reach."""
    i = c.get("f")
    if i is None:
        return []
    if c.get("fn") in MAKERS:
        return made(prog, c)
    out, todo, seen = [], [i], set()
    while todo:
        j = todo.pop()
        if j in seen:
            continue
        seen.add(j)
        if j in prog.funcs:
            out.append(prog.funcs[j])
        if c.get("virt"):
            todo.extend(sorted(prog.overriders.get(j, ())))
    return out


def parts(f):
    """The statements and expressions of a function: initialisers and body."""
    for i in f.inits or []:
        for n in walk(i):
            yield n
    for n in walk(f.body):
        yield n


def calls(prog, f):
    """(call node, definition) of every call of f."""
    memo = prog.__dict__.setdefault("_graph", {})
    if f.id not in memo:
        r = []
        for n in parts(f):
            if n.get("k") in ("call", "ctor", "new", "delete"):
                for g in targets(prog, n):
                    r.append((n, g))
        memo[f.id] = r
    return memo[f.id]


def reach(prog, roots):
    """{id: (function, caller, line)} of everything the roots may call."""
    seen, todo = {}, []
    for f in roots:
        if f.id not in seen:
            seen[f.id] = (f, None, None)
            todo.append(f)
    while todo:
        f = todo.pop(0)
        for n, g in calls(prog, f):
            if g.id not in seen and not g.n.startswith(SKIPPED):
                seen[g.id] = (g, f, n.get("l"))
                todo.append(g)
    return seen


def path(seen, i):
    """Names along the discovered path to i."""
    out = []
    while i is not None:
        f, c, l = seen[i]
        out.append(f.n if l is None else "%s (called at %s:%s)" % (f.n, c.rel, l))
        i = c.id if c is not None else None
    return list(reversed(out))
