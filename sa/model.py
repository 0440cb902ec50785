"""Program model of the analysed tree.

`load()` parses every translation unit under <repo>/src with the clang-based
extractor and returns a Program: functions (with resolved callees, instantiated
template bodies, OpenMP directives), classes, enums and globals.  The result is
cached under /verif/build keyed by the content of every file that was parsed
and of the extractor itself, so an edited tree is always re-analysed.
"""
import glob
import hashlib
import json
import os
import pickle
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
TOOL = os.path.join(VERIF, "tool")
EXTRACT = os.path.join(BUILD, "extract")
FORMAT = 7


class AnalysisBroken(Exception):
    """The analysis could not be carried out (an error of the check)."""


def sources(repo):
    out = []
    for root, dirs, files in os.walk(os.path.join(repo, "src")):
        dirs[:] = sorted(d for d in dirs if d not in ("tests", "test"))
        for f in sorted(files):
            if f.endswith(".cpp") and f != "git_SHA1.cpp":
                out.append(os.path.join(root, f))
    return out


def _all_inputs(repo):
    out = []
    for root, dirs, files in os.walk(os.path.join(repo, "src")):
        dirs[:] = sorted(d for d in dirs if d not in ("tests", "test"))
        for f in sorted(files):
            if f.endswith((".cpp", ".hpp", ".h", ".in")) and f != "git_SHA1.cpp":
                out.append(os.path.join(root, f))
    return out


def _digest(repo):
    h = hashlib.sha256()
    h.update(("fmt%d" % FORMAT).encode())
    for f in [EXTRACT] + sorted(
        glob.glob(os.path.join(TOOL, "shim", "**", "*"), recursive=True)
    ) + [os.path.join(VERIF, "sa", "model.py")]:
        if os.path.isfile(f):
            h.update(f.encode())
            with open(f, "rb") as fh:
                h.update(hashlib.sha256(fh.read()).digest())
    for f in _all_inputs(repo):
        h.update(os.path.relpath(f, repo).encode())
        with open(f, "rb") as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    h.update(repo.encode())
    return h.hexdigest()


def _flags(repo, src, gen):
    s = os.path.join(repo, "src")
    return [
        "-resource-dir", "/usr/lib/llvm-18/lib/clang/18",
        "-w", "-std=c++14", "-fopenmp",
        "-isystem", os.path.join(TOOL, "shim"),
        "-I" + s, "-I" + os.path.join(s, "core"),
        "-I" + os.path.join(s, "sweepers"), "-I" + os.path.join(s, "solvers"),
        "-I" + os.path.dirname(src),
        "-isystem", gen,
        "-isystem", os.path.join(repo, "lib/pugixml/src"),
        "-isystem", "/usr/include/eigen3",
        "-isystem", "/usr/include/hdf5/serial",
        "-include", os.path.join(TOOL, "shim", "compat.hpp"),
    ]


def _generated(repo, tmp):
    """force_inline.hpp is generated by the project's configure step; make our
    own when the tree does not carry it."""
    gen = os.path.join(tmp, "gen")
    os.makedirs(os.path.join(gen, "util"), exist_ok=True)
    if not os.path.exists(os.path.join(repo, "src/util/force_inline.hpp")):
        with open(os.path.join(gen, "util/force_inline.hpp"), "w") as f:
            f.write("#pragma once\n#define MOCC_FORCE_INLINE inline\n")
    return gen


class Func:
    __slots__ = ("id", "n", "file", "l", "el", "rt", "p", "cls", "clsn", "static",
                 "cst", "virt", "over", "ctor", "copy", "inits", "dtor", "inst",
                 "targs", "local", "body", "acc", "user", "rel", "_calls")

    def __repr__(self):
        return "<%s %s:%d>" % (self.n, self.rel, self.l)

    @property
    def where(self):
        return "%s:%d" % (self.rel, self.l)

    @property
    def short(self):
        return self.n.split("::")[-1]


class Program:
    def __init__(self):
        self.funcs = {}      # id -> Func
        self.classes = {}    # type string -> dict
        self.enums = {}      # qualified name -> dict
        self.globals = {}    # usr -> dict
        self.decls = {}      # id -> dict of methods without body here
        self.units = []
        self.repo = REPO

    # -- lookups ---------------------------------------------------------
    def finish(self):
        self.by_name = {}
        for f in self.funcs.values():
            self.by_name.setdefault(f.n, []).append(f)
        self.class_by_name = {}
        for c in self.classes.values():
            self.class_by_name.setdefault(c["n"], []).append(c)
        self.subclasses = {}
        for t, c in self.classes.items():
            for b in c["bases"]:
                self.subclasses.setdefault(b, set()).add(t)
        self.overriders = {}
        for f in self.funcs.values():
            for o in f.over:
                self.overriders.setdefault(o, set()).add(f.id)
        for d in self.decls.values():
            for o in d["over"]:
                self.overriders.setdefault(o, set()).add(d["id"])
        self.global_by_name = {}
        for g in self.globals.values():
            self.global_by_name.setdefault(g["n"], []).append(g)
        return self

    def find(self, name):
        """Function definitions whose qualified name is `name` or ends with
        ::name."""
        out = list(self.by_name.get(name, []))
        if not out:
            suf = "::" + name
            out = [f for f in self.funcs.values() if f.n.endswith(suf)]
        if not name.startswith("ref::"):
            out = [f for f in out if not f.n.startswith("ref::")]
        return sorted(out, key=lambda f: (f.file, f.l, f.id))

    def cls(self, name):
        out = self.class_by_name.get(name)
        if not out:
            suf = "::" + name
            out = [c for c in self.classes.values() if c["n"].endswith(suf)]
        return out

    def all_bases(self, t):
        seen, todo = [], [t]
        while todo:
            x = todo.pop(0)
            if x in seen:
                continue
            seen.append(x)
            c = self.classes.get(x)
            if c:
                todo.extend(c["bases"])
        return seen

    def all_subs(self, t):
        seen, todo = [], [t]
        while todo:
            x = todo.pop(0)
            if x in seen:
                continue
            seen.append(x)
            todo.extend(sorted(self.subclasses.get(x, ())))
        return seen

    def fields(self, t):
        out = []
        for b in reversed(self.all_bases(t)):
            c = self.classes.get(b)
            if c:
                out.extend(c["fields"])
        return out

    def enum(self, name):
        e = self.enums.get(name)
        if e is None:
            for k, v in self.enums.items():
                if k.endswith("::" + name):
                    return v
        return e


def _retype(n, types):
    """Replace type indices by strings, in place."""
    stack = [n]
    while stack:
        x = stack.pop()
        if isinstance(x, dict):
            for k, v in x.items():
                if isinstance(v, int) and not isinstance(v, bool) and k in (
                        "t", "st", "rt", "cls", "ot", "ct", "base"):
                    x[k] = types[v]
                elif k in ("pt", "bases"):
                    x[k] = [types[i] if isinstance(i, int) else i for i in v]
                elif isinstance(v, (dict, list)):
                    stack.append(v)
        elif isinstance(x, list):
            for v in x:
                if isinstance(v, (dict, list)):
                    stack.append(v)


def _merge(prog, unit, js):
    types = js["types"]
    for f in js["funcs"]:
        if f["id"] in prog.funcs:
            continue
        _retype(f, types)
        o = Func()
        for k in Func.__slots__:
            setattr(o, k, f.get(k))
        o.rel = os.path.relpath(o.file, REPO)
        o.over = o.over or []
        o.inits = o.inits or []
        prog.funcs[o.id] = o
    for c in js["classes"]:
        _retype(c, types)
        for fl in c["fields"]:
            pass
        c["rel"] = os.path.relpath(c["file"], REPO)
        prog.classes.setdefault(c["t"], c)
    for e in js["enums"]:
        e["rel"] = os.path.relpath(e["file"], REPO)
        prog.enums.setdefault(e["n"], e)
    for g in js["globals"]:
        _retype(g, types)
        g["rel"] = os.path.relpath(g["file"], REPO)
        old = prog.globals.get(g["u"])
        if old is None or ("init" not in old and "init" in g):
            prog.globals[g["u"]] = g
    for d in js["decls"]:
        d["rel"] = os.path.relpath(d["file"], REPO)
        prog.decls.setdefault(d["id"], d)


SPEC = os.path.join(VERIF, "spec")


def load_spec(prog, name):
    """Adds the reference functions of spec/<name>.cpp, parsed against the
    analysed tree's own headers, to the program."""
    src = os.path.join(SPEC, name + ".cpp")
    h = hashlib.sha256(prog.digest.encode())
    for f in sorted(glob.glob(os.path.join(SPEC, "*.hpp"))) + [src]:
        with open(f, "rb") as fh:
            h.update(fh.read())
    cfile = os.path.join(BUILD, "cache", "%s.%s.spec" % (name, h.hexdigest()))
    js = None
    if os.path.exists(cfile):
        try:
            with open(cfile, "rb") as fh:
                js = pickle.load(fh)
        except Exception:
            js = None
    if js is None:
        tmp = os.path.join(BUILD, "tmp.%d" % os.getpid())
        os.makedirs(tmp, exist_ok=True)
        try:
            gen = _generated(prog.repo, tmp)
            out = os.path.join(tmp, "spec.json")
            r = subprocess.run(
                [EXTRACT, out, os.path.join(prog.repo, "src") + "/," + SPEC + "/", src, "--"]
                + _flags(prog.repo, src, gen) + ["-fno-access-control"], capture_output=True, text=True)
            if r.returncode or not os.path.exists(out):
                raise AnalysisBroken("the reference functions no longer fit the tree's declarations:\n" +
                                     r.stderr[-1500:])
            with open(out) as fh:
                js = json.load(fh)
        finally:
            subprocess.run(["rm", "-rf", tmp])
        for f in glob.glob(os.path.join(BUILD, "cache", name + ".*.spec")):
            if time.time() - os.path.getmtime(f) > 3600:
                os.unlink(f)
        t = cfile + ".%d" % os.getpid()
        with open(t, "wb") as fh:
            pickle.dump(js, fh, protocol=4)
        os.replace(t, cfile)
    _merge(prog, src, js)
    return prog.finish()


def load(repo=None, verbose=False):
    global REPO
    if repo:
        REPO = repo
    repo = REPO
    if not os.path.exists(EXTRACT):
        r = subprocess.run(["bash", os.path.join(TOOL, "build.sh")],
                           capture_output=True, text=True)
        if r.returncode:
            raise AnalysisBroken("cannot build the extractor:\n" + r.stderr[-2000:])
    key = _digest(repo)
    cdir = os.path.join(BUILD, "cache")
    os.makedirs(cdir, exist_ok=True)
    cfile = os.path.join(cdir, key + ".pickle")
    if os.path.exists(cfile):
        try:
            with open(cfile, "rb") as fh:
                p = pickle.load(fh)
            p.cached = True
            p.digest = key
            return p.finish()
        except Exception:
            pass
    srcs = sources(repo)
    if len(srcs) < 40:
        raise AnalysisBroken("only %d sources found under %s/src" % (len(srcs), repo))
    tmp = os.path.join(BUILD, "tmp.%d" % os.getpid())
    os.makedirs(tmp, exist_ok=True)
    try:
        gen = _generated(repo, tmp)

        def one(i_src):
            i, src = i_src
            out = os.path.join(tmp, "%d.json" % i)
            r = subprocess.run(
                [EXTRACT, out, os.path.join(repo, "src") + "/", src, "--"]
                + _flags(repo, src, gen),
                capture_output=True, text=True)
            if r.returncode or not os.path.exists(out):
                return src, None, r.stderr[-1500:]
            with open(out) as fh:
                js = json.load(fh)
            os.unlink(out)
            return src, js, None

        prog = Program()
        with ThreadPoolExecutor(max_workers=min(8, os.cpu_count() or 1)) as ex:
            for src, js, err in ex.map(one, list(enumerate(srcs))):
                if js is None:
                    raise AnalysisBroken("cannot parse %s:\n%s" % (src, err))
                _merge(prog, src, js)
                prog.units.append(os.path.relpath(src, repo))
    finally:
        subprocess.run(["rm", "-rf", tmp])
    sys.setrecursionlimit(20000)
    t = cfile + ".%d" % os.getpid()
    with open(t, "wb") as fh:
        pickle.dump(prog, fh, protocol=4)
    os.replace(t, cfile)
    # keep the cache small
    old = sorted(glob.glob(os.path.join(cdir, "*.pickle")), key=os.path.getmtime)
    for f in old[:-12]:
        try:
            os.unlink(f)
        except OSError:
            pass
    prog.cached = False
    prog.digest = key
    return prog.finish()


# -- generic walking -------------------------------------------------------
def walk(n):
    """All nodes of an AST fragment (dicts), pre-order, including lambda
    bodies."""
    stack = [n]
    while stack:
        x = stack.pop()
        if isinstance(x, dict):
            if "k" in x:
                yield x
            for k in reversed(list(x.keys())):
                v = x[k]
                if isinstance(v, (dict, list)):
                    stack.append(v)
        elif isinstance(x, list):
            for v in reversed(x):
                if isinstance(v, (dict, list)):
                    stack.append(v)


if __name__ == "__main__":
    import time
    t0 = time.time()
    p = load()
    print("units", len(p.units), "funcs", len(p.funcs), "classes", len(p.classes),
          "enums", len(p.enums), "globals", len(p.globals),
          "cached", p.cached, "%.1fs" % (time.time() - t0))
