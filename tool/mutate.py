#!/usr/bin/env python3
"""Development aid: change one construct of the loaded program at a time and see
which rule modules notice.  usage: mutate.py CNN [N] [function-substring]"""
import importlib
import multiprocessing
import os
import random
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(V, "sa"), os.path.join(V, "sa", "props")]
import core
import model

SWAP = {"+": "-", "-": "+", "*": "/", "/": "*", "<": "<=", ">": ">=", "<=": "<", ">=": ">", "==": "!=", "!=": "==",
        "&&": "||", "||": "&&", "%": "/"}
LOG = ("LogFile", "LogScreen", "cout", "cerr", "Warn")


def mentions_log(n):
    if isinstance(n, dict):
        if n.get("k") == "var" and n.get("n") in LOG or n.get("fn") in ("mocc::Warn", "__assert_fail"):
            return True
        return any(mentions_log(v) for v in n.values())
    if isinstance(n, list):
        return any(mentions_log(v) for v in n)
    return False


def sites(prog, f):
    """(description, apply) pairs; apply() returns its undo."""
    out = []
    locs = {}
    mems = {}
    meths = {}
    for g in prog.funcs.values():
        if g.cls and g.n.startswith("mocc::"):
            meths.setdefault((g.cls, tuple(p["t"] for p in g.p), g.rt), []).append(g)

    def setk(n, key, val, what):
        def ap():
            old = n.get(key)
            n[key] = val

            def undo():
                n[key] = old
            return undo
        out.append((what, ap))

    def sub(n, new, what):
        def ap():
            old = dict(n)
            n.clear()
            n.update(new)

            def undo():
                n.clear()
                n.update(old)
            return undo
        out.append((what, ap))

    def collect(n):
        if isinstance(n, dict):
            if n.get("k") == "var" and n.get("vk") in ("local", "param"):
                locs.setdefault(n.get("t"), {}).setdefault(n["d"], n)
            for v in n.values():
                collect(v)
        elif isinstance(n, list):
            for v in n:
                collect(v)
    collect(f.body)
    collect([i.get("e") for i in (f.inits or [])] if getattr(f, "inits", None) else [])

    def walk(n, lhs=False):
        if isinstance(n, list):
            for v in n:
                walk(v)
            return
        if not isinstance(n, dict):
            return
        k, l = n.get("k"), n.get("l")
        if k == "expr":
            if mentions_log(n):
                return
            if n["e"].get("k") in ("asg", "call"):
                sub(n, {"k": "nop", "l": l}, "%s: delete statement" % l)
        if k == "throw" or k == "str":
            return
        if k == "cond" and mentions_log(n):
            return
        if k == "bin" and n.get("op") in SWAP:
            setk(n, "op", SWAP[n["op"]], "%s: %s -> %s" % (l, n["op"], SWAP[n["op"]]))
        if k == "asg" and n.get("op") in ("+=", "-=", "*=", "/="):
            setk(n, "op", {"+=": "-=", "-=": "+=", "*=": "/=", "/=": "*="}[n["op"]], "%s: %s flipped" % (l, n["op"]))
            setk(n, "op", "=", "%s: %s -> =" % (l, n["op"]))
        if k == "int":
            setk(n, "v", str(int(n["v"]) + 1), "%s: %s + 1" % (l, n["v"]))
        if k == "flt":
            setk(n, "v", n["v"] + 1 if n["v"] == 0 else n["v"] * 2, "%s: float %s changed" % (l, n["v"]))
        if k == "bool":
            setk(n, "v", not n["v"], "%s: bool flipped" % l)
        if k == "enum":
            setk(n, "v", n["v"] + 1 if n["v"] % 2 == 0 else n["v"] - 1, "%s: enumerator %s changed" % (l, n.get("n")))
        if k == "var" and n.get("vk") in ("local", "param"):
            o = sorted(d for d in locs.get(n.get("t"), {}) if d != n["d"])
            if o:
                other = locs[n["t"]][random.choice(o)]
                sub(n, dict(other), "%s: %s -> %s" % (l, n["n"], other["n"]))
        if k == "mem" and n.get("qn"):
            cl = prog.classes.get(n["qn"].rsplit("::", 1)[0])
            o = [x["n"] for x in (cl or {"fields": []})["fields"] if x["t"] == n.get("t") and x["n"] != n["n"]]
            if o:
                m = random.choice(o)
                new = dict(n)
                new["n"], new["qn"] = m, n["qn"].rsplit("::", 1)[0] + "::" + m
                sub(n, new, "%s: .%s -> .%s" % (l, n["n"], m))
        if k == "call":
            g = prog.funcs.get(n.get("f"))
            if g is not None and g.cls:
                o = [x for x in meths.get((g.cls, tuple(p["t"] for p in g.p), g.rt), []) if x.n != g.n]
                if o:
                    h = random.choice(o)
                    new = dict(n)
                    new["f"], new["fn"] = h.id, h.n
                    sub(n, new, "%s: call %s -> %s" % (l, g.short, h.short))
            a = n.get("a") or []
            for i in range(len(a) - 1):
                if isinstance(a[i], dict) and isinstance(a[i + 1], dict) and a[i].get("t") and \
                        a[i].get("t") == a[i + 1].get("t") and a[i] != a[i + 1]:
                    b = list(a)
                    b[i], b[i + 1] = b[i + 1], b[i]
                    setk(n, "a", b, "%s: arguments %d,%d of %s swapped" % (l, i, i + 1, n.get("fn")))
        if k == "if" and n.get("c"):
            setk(n, "c", {"k": "un", "op": "!", "e": n["c"], "l": l, "t": "bool"}, "%s: if negated" % l)
            setk(n, "c", {"k": "bool", "v": False, "l": l, "t": "bool"}, "%s: if false" % l)
            setk(n, "c", {"k": "bool", "v": True, "l": l, "t": "bool"}, "%s: if true" % l)
        if k in ("break", "continue"):
            sub(n, {"k": "nop", "l": l}, "%s: %s removed" % (l, k))
        if k == "omp":
            walk(n.get("body"))
            return
        for kk, v in n.items():
            if isinstance(v, (dict, list)):
                walk(v)
    walk(f.body)
    for i in getattr(f, "inits", None) or []:
        walk(i.get("e") or i.get("init"))
    return out


def run(mod, pid, prog):
    ck = core.Check(pid, prog, 0, "quick")
    try:
        mod.check(ck)
    except core.AnalysisBroken as e:
        return "BROKEN", str(e)[:160]
    except RecursionError:
        return "ERROR", "recursion"
    except Exception as e:
        import traceback
        at = traceback.extract_tb(e.__traceback__)[-1]
        return "ERROR", "%s: %s (%s:%d)" % (type(e).__name__, str(e)[:160], at.filename.split("/")[-1], at.lineno)
    known = core.load_known()
    vs = [v for v in ck.violations if not core.is_known(v, pid, known)] if hasattr(core, "is_known") else ck.violations
    return ("killed", vs[0].msg) if vs else ("SURVIVED", "")


def work(arg):
    pid, name, k, seed = arg
    random.seed(seed)
    f = next(f for f in PROG.funcs.values() if f.id == name)
    what, ap = sites(PROG, f)[k]
    undo = ap()
    try:
        r = run(MOD, pid, PROG)
    finally:
        undo()
    return f.n, what, r


def main():
    global PROG, MOD
    pid = sys.argv[1]
    n = int(sys.argv[2]) if len(sys.argv) > 2 else 100
    pat = sys.argv[3] if len(sys.argv) > 3 else ""
    MOD = importlib.import_module(pid.lower())
    PROG = model.load()
    ck = core.Check(pid, PROG, 0, "quick")
    MOD.check(ck)
    names = sorted(x for x in ck.functions if not x.startswith("ref::") and pat in x)
    todo = []
    for f in sorted((f for f in PROG.funcs.values() if f.n in names and f.body is not None), key=lambda f: f.id):
        random.seed(1)
        for k in range(len(sites(PROG, f))):
            todo.append((pid, f.id, k, 1))
    random.seed(int(os.environ.get("SEED", "7")))
    random.shuffle(todo)
    todo = todo[:n]
    tot = {}
    with multiprocessing.get_context("fork").Pool(8) as p:
        for fn, what, (r, msg) in p.imap_unordered(work, todo):
            tot[r] = tot.get(r, 0) + 1
            if r != "killed":
                print(r, fn, what, msg)
    print(pid, tot)


if __name__ == "__main__":
    main()
