"""Which input nodes flow into which functions, and the attributes read from them.

A node is named by where a function gets it: (function id, parameter index or member name, child names below that).
Local copies, siblings and elements of a range of children are followed to the same name.
"""
import graph
from model import walk

NODE = "pugi::xml_node"


def strip(e):
    """The expression below copies, casts and parentheses."""
    while isinstance(e, dict):
        if e.get("k") == "cast":
            e = e["e"]
        elif e.get("k") == "ctor" and len(e.get("a", ())) >= 1 and (e.get("copy") or e.get("fn", "").startswith(NODE)):
            e = e["a"][0]
        elif e.get("k") == "call" and e.get("fn", "").startswith("std::move"):
            e = e["a"][0]
        else:
            return e
    return e


def words(prog, e):
    """The strings an expression is made of, through variables of the namespaces."""
    out = []
    for n in walk(e):
        if n.get("k") == "str":
            out.append(n["v"])
        elif n.get("k") == "var" and n.get("vk") == "global":
            g = prog.globals.get(n.get("u"))
            if g is not None and g.get("init") is not None:
                out.extend(words(prog, g["init"]))
    return out


class Flow:
    """Reads, hand-overs and checks of the nodes of every function."""

    def __init__(self, prog):
        self.prog = prog
        self.reads = {}     # atom -> [(attribute, line)]
        self.checks = {}    # atom -> [(names, line)]
        self.passes = {}    # atom -> [(function, parameter, line)]
        self.froms = {}     # (function id, parameter) -> [(caller, atom, line)]
        for f in prog.funcs.values():
            if graph.own(prog, f):
                self._function(f)

    def _function(self, f):
        params = {p["d"]: i for i, p in enumerate(f.p) if "xml_node" in p["t"]}
        held = {}
        for n in graph.parts(f):
            if n.get("k") == "decl":
                for v in n["v"]:
                    if v.get("init") is not None and v.get("d") is not None:
                        held[v["d"]] = v["init"]
            elif n.get("k") == "range" and isinstance(n.get("v"), dict):
                held[n["v"].get("d")] = n.get("r") or n.get("range")
        over = self._ranges(f)
        held.update(over)

        def atom(e, deep=0):
            e = strip(e)
            if not isinstance(e, dict) or deep > 12:
                return None
            k = e.get("k")
            if k == "var":
                if e.get("d") in params:
                    return (f.id, params[e["d"]], ())
                if e.get("d") in held:
                    return atom(held[e["d"]], deep + 1)
                return None
            if k == "mem" and "xml_" in str(e.get("t")):
                return (f.cls or f.id, e["n"], ())
            if k == "call" and e.get("fn") in (NODE + "::child", NODE + "::children", NODE + "::next_sibling"):
                o = atom(e.get("obj"), deep + 1)
                a = [x["v"] for x in walk(e.get("a", [])) if x.get("k") == "str"]
                if o is None or len(a) != 1:
                    return None
                if e["fn"].endswith("next_sibling"):
                    return (o[0], o[1], o[2][:-1] + (a[0],)) if o[2] else None
                return (o[0], o[1], o[2] + (a[0],))
            return None

        for n in graph.parts(f):
            k = n.get("k")
            if k == "call" and n.get("fn") == NODE + "::attribute":
                a = atom(n.get("obj"))
                s = [x["v"] for x in walk(n.get("a", [])) if x.get("k") == "str"]
                if a is not None and len(s) == 1:
                    self.reads.setdefault(a, []).append((s[0], f, n.get("l")))
            if k in ("call", "ctor"):
                if n.get("fn", "").endswith("::validate_input"):
                    a = atom(n["a"][0])
                    if a is not None:
                        self.checks.setdefault(a, []).append((words(self.prog, n["a"][1]), f, n.get("l")))
                    continue
                for g in graph.targets(self.prog, n):
                    if not graph.own(self.prog, g):
                        continue
                    for j, x in enumerate(n.get("a", [])):
                        if j < len(g.p) and "xml_node" in g.p[j]["t"]:
                            a = atom(x)
                            if a is not None:
                                self.passes.setdefault(a, []).append((g, j, n.get("l")))
                                self.froms.setdefault((g.id, j), []).append((f, a, n.get("l")))

    def _ranges(self, f):
        """Loop variables of ranges: the range they run over."""
        r = {}
        for n in graph.parts(f):
            if n.get("k") == "range":
                v = n.get("var") or n.get("v")
                for w in (v if isinstance(v, list) else [v]):
                    if isinstance(w, dict) and w.get("d") is not None:
                        r[w["d"]] = n.get("over") or n.get("r") or n.get("range") or n.get("e")
        return r

    def checked(self, a, seen=None):
        """Whether the node is checked by the function or one it is handed to."""
        seen = set() if seen is None else seen
        if a in seen:
            return False
        seen.add(a)
        return a in self.checks or any(self.checked((g.id, j, ()), seen) for g, j, _ in self.passes.get(a, []))

    def names(self, a, seen=None):
        """Attributes read by the function, or those it hands the node to that leave checking it to others."""
        seen = set() if seen is None else seen
        if a in seen:
            return []
        seen.add(a)
        out = list(self.reads.get(a, []))
        for g, j, _ in self.passes.get(a, []):
            b = (g.id, j, ())
            if not self.checked(b):
                out.extend(self.names(b, seen))
        return out

    def above(self, a, seen=None):
        """Attributes read of the same node on the way to the function; callers that check it themselves have their own list."""
        seen = set() if seen is None else seen
        if a in seen or a[2]:
            return []
        seen.add(a)
        out = []
        for f, b, _ in self.froms.get((a[0], a[1]), []):
            if b in self.checks:
                continue
            out.extend(self.names(b))
            out.extend(self.above(b, seen))
        return out

    def watched(self, a, seen=None):
        """Whether some function in the flow of the node checks it."""
        seen = set() if seen is None else seen
        if a in seen:
            return False
        seen.add(a)
        if self.checked(a):
            return True
        return not a[2] and any(self.watched(b, seen) for f, b, _ in self.froms.get((a[0], a[1]), []))

    def elements(self, a, seen=None):
        """Names of elements, from the outermost known, that the node may be."""
        seen = set() if seen is None else seen
        if a in seen:
            return set()
        seen.add(a)
        if isinstance(a[1], str):
            return {a[2]}
        out = set()
        for f, b, _ in self.froms.get((a[0], a[1]), []):
            out |= {p + a[2] for p in self.elements(b, seen)}
        return out
