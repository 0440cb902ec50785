"""C21: Monte Carlo reproducibility."""
from ref import *
import graph

TITLE = "Monte Carlo results do not depend on the thread count or schedule"
EXPLANATION = (
    "The generator, the stream each history starts from, the numbering of histories and the ordering and resizing of the fission bank "
    "are compared with reference definitions over all seeds, history counts and bank contents.  Stream offsets are formed in 64-bit "
    "arithmetic; the generator's constants satisfy the full-period conditions; generators drawn from within histories are "
    "thread-private.  That a history never draws more numbers than the stride between streams is assumed.")


def wide(t):
    t = t.replace("const ", "").strip()
    return t in ("unsigned long", "long", "unsigned long long", "long long", "uint64_t", "int64_t", "double")


def value(prog, name):
    for g in prog.globals.values():
        if g["n"].endswith(name) and g.get("init"):
            return num(g["init"])
    raise AnalysisBroken("no constant " + name)


def num(e):
    k = e["k"]
    if k == "int":
        return int(e["v"])
    if k == "flt":
        return float(e["v"])
    if k == "cast":
        v = num(e["e"])
        return float(v) if e["t"].endswith("double") else v
    if k == "un" and e["op"] == "~":
        return ~num(e["e"]) & (2**64 - 1)
    if k == "un" and e["op"] == "-":
        return -num(e["e"])
    if k == "paren":
        return num(e["e"])
    if k == "bin":
        a, b = num(e["a"]), num(e["b"])
        return {"<<": lambda: a << b, ">>": lambda: a >> b, "+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b,
                "/": lambda: a / b if isinstance(a, float) or isinstance(b, float) else a // b,
                "&": lambda: a & b, "|": lambda: a | b, "^": lambda: a ^ b, "%": lambda: a % b}[e["op"]]()
    raise AnalysisBroken("constant of kind " + k)


def check(ck):
    specs(ck, "c21", "c20", "c19")
    R = "RNG_LCG::"
    like(ck, "generator", "each draw advances the recurrence by one step and returns a number of [0,1) scaled to the range asked for",
         [(R + "operator()", {"ref": "RNG_LCG__next"}), (R + "random@0", {"ref": "RNG_LCG__random"}),
          (R + "random@1", {"ref": "RNG_LCG__random_to"}), (R + "random@2", {"ref": "RNG_LCG__random_in"}), R + "random_int",
          R + "set_seed", (R + "RNG_LCG", {"pick": lambda f: len(f.p) == 1 and "RNG" not in f.p[0]["t"]})])
    like(ck, "skip", "skipping ahead composes the recurrence with itself as often as asked for", [R + "jump_ahead"])
    draws = ("random", "random_int", "Isotropic")
    like(ck, "bank", "the bank keeps every site it is given and is brought to size by draws of the solver's generator",
         ["FissionBank::swap", "FissionBank::push_back", "FissionBank::resize", "FissionBank::FissionBank@5"], opaque=draws)
    like(ck, "order", "banked sites are ordered by the history that made them", [("Particle::operator<", {"ref": "Particle__less"})])
    acts = ("reset", "commit_realization", "simulate", "score", "add_weight", "commit_tallies", "reset_tallies", "step", "clear")
    like(ck, "numbering", "histories are numbered through all cycles, and a cycle's sites are ordered and renumbered before they are used",
         [("ParticlePusher::simulate@2", {"ref": "ParticlePusher__simulate_bank", "pick": lambda f: "FissionBank" in f.p[0]["t"]}),
          ("MonteCarloEigenvalueSolver::step", {"skip": ("dump_sites_",), "throws": False})],
         opaque=acts + ("get", "shannon_entropy", "swap", "resize", "stable_sort"),
         order=(("swap", "stable_sort", "resize"), ("clear", "simulate")))
    like(ck, "streams", "each history starts from the seed, skipped ahead by its own number of strides",
         [("ParticlePusher::simulate@2", {"pick": lambda f: "Particle" in f.p[0]["t"]})],
         opaque=("random", "sample_cdf", "set_seed", "jump_ahead", "get_location_info", "find_reg", "coarse_cell",
                 "distance_to_surface", "boundary_surface", "boundary_condition", "Direction::reflect", "Isotropic", "score",
                 "add_weight", "commit_tallies", "collide", "push_back"), order=(("set_seed", "jump_ahead"),))

    ck.rule("width", "the offset of a stream, and what it is formed from, is 64 bits wide")
    n = 0
    for f in ck.prog.funcs.values():
        if f.body is None or not f.file.startswith(ck.prog.repo + "/src"):
            continue
        for c in walk(f.body):
            if c.get("k") == "call" and c.get("fn") == "mocc::RNG_LCG::jump_ahead":
                ck.functions.add(f.n)
                n += 1
                local = {v["n"]: v.get("init") for d in walk(f.body) if d.get("k") == "decl" for v in d["v"]}
                todo, done = [c["a"][0]], set()
                while todo:
                    for x in walk(todo.pop()):
                        if x.get("k") == "bin" and x["op"] in ("*", "+", "-", "<<"):
                            ck.ok(wide(x["t"]), f.n, "stream offset formed in %s arithmetic" % x["t"], "%s:%d" % (f.file, x["l"]))
                        if x.get("k") == "cast" and not x.get("imp"):
                            ck.ok(wide(x["t"]), f.n, "stream offset passes through %s" % x["t"], "%s:%d" % (f.file, x["l"]))
                        if x.get("k") == "var" and x.get("vk") == "local" and x["n"] in local and x["n"] not in done:
                            done.add(x["n"])
                            ck.ok(wide(x["t"]), f.n, "stream offset held in %s" % x["t"], "%s:%d" % (f.file, x["l"]))
                            if local[x["n"]]:
                                todo.append(local[x["n"]])
                        if x.get("k") == "mem" and x["qn"].startswith("mocc::mc::ParticlePusher::"):
                            ck.ok(wide(x["t"]), f.n, "stream offset held in %s" % x["t"], "%s:%d" % (f.file, x["l"]))
    ck.need(n, 1, "skips of a generator")

    ck.rule("constants", "the recurrence has full period and its scale maps it onto [0,1]")
    m, b, mask, scale = (value(ck.prog, "RNG_LCG::" + x) for x in ("m_", "b_", "mask_", "float_scale_"))
    w = "src/util/rng_lcg.hpp"
    ck.ok(mask + 1 & mask == 0 and mask + 1 >= 2**31, "mocc::RNG_LCG", "the mask %#x does not keep a run of low bits" % mask, w)
    ck.ok(m % 4 == 1 and b % 2 == 1, "mocc::RNG_LCG", "multiplier %d and increment %d do not give the full period" % (m, b), w)
    ck.ok(scale * (mask + 1) == 1.0, "mocc::RNG_LCG", "scale %g does not map the recurrence onto [0,1]" % scale, w)

    ck.rule("private", "generators drawn from within a history belong to the thread running it")
    roots = [f for f in ck.fn("ParticlePusher::simulate") if len(f.p) == 2 and "FissionBank" not in f.p[0]["t"]]
    k = 0
    for f, _, _ in graph.reach(ck.prog, roots).values():
        if f.body is None:
            continue
        for c in walk(f.body):
            if c.get("k") == "call" and c.get("cls") == "mocc::RNG_LCG" and c.get("obj", {}).get("k") == "var" \
                    and c["obj"].get("vk") in ("global", "static"):
                k += 1
                ck.ok(c["obj"].get("tls"), f.n, "history draws from %s, which threads share" % c["obj"]["n"],
                      "%s:%d" % (f.file, c["l"]))
            elif c.get("k") == "call" and c.get("cls") == "mocc::RNG_LCG" and c.get("obj", {}).get("k") == "mem":
                ck.ok(False, f.n, "history draws from member %s, which threads share" % c["obj"]["n"], "%s:%d" % (f.file, c["l"]))
    ck.need(k, 3, "draws from a generator within a history")
