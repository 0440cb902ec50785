"""C04: angular quadratures."""
from ref import *
import num

TITLE = "Every angular quadrature is symmetric, normalised and self-consistent"
EXPLANATION = (
    "Effect summaries of the direction/angle constructors, the quadrature generators, the octant expansion, the "
    "weight update after modularisation, import and export are compared with reference definitions; reflection and "
    "reversal are folded over every (octant, axis) pair and compared with the sign pattern that the octant expansion "
    "assigns; the level-symmetric generator is folded for every supported order from the tables in the source and its "
    "sets are checked for symmetry under permutation of the axes, unit weight sum and the second-moment identity. The "
    "accuracy of the iterated Gauss-Legendre abscissae is not decided, only that the recurrence, the derivative, "
    "the weights and the mapping to angles are the specified ones.")
SIGNS = [(1, 1, 1), (-1, 1, 1), (-1, -1, 1), (1, -1, 1), (1, 1, -1), (-1, 1, -1), (-1, -1, -1), (1, -1, -1)]


def check(ck):
    specs(ck, "c04")
    own = dict(pick=lambda f: not f.n.startswith("ref::"))
    pair(ck, "direction", "cosines, angles, weight and inverse polar sine of a direction describe one unit vector; the "
         "eight octant images differ only in signs; invalid directions are refused", [
        ("Direction::Direction", "Direction__angles", dict(pick=lambda f: len(f.p) == 2)),
        ("Direction::Direction", "Direction__cosines", dict(pick=lambda f: len(f.p) == 3)),
        ("Direction::modify_alpha", "Direction__modify_alpha"),
        ("Direction::reflect", "Direction__reflect"),
        ("Direction::operator!=", "Direction__ne"),
        ("Direction::to_octant", "Direction__to_octant"),
        ("Angle::Angle", "Angle__angles", dict(pick=lambda f: len(f.p) == 3)),
        ("Angle::Angle", "Angle__cosines", dict(pick=lambda f: len(f.p) == 4)),
        ("Angle::Angle", "Angle__xml", dict(pick=lambda f: len(f.p) == 1 and "xml" in f.p[0]["t"])),
        ("Angle::operator==", "Angle__eq"),
        ("Angle::to_octant", "Angle__to_octant"),
    ])
    pair(ck, "generators", "the azimuthal, polar and product generators produce the specified angles and weights", [
        ("GenChebyshev", "GenChebyshev", own),
        ("GenGauss", "GenGauss", own),
        ("GenProduct", "GenProduct", own),
        ("GenUserQuadrature", "GenUserQuadrature", own),
    ])
    pair(ck, "quadrature", "a quadrature holds the angles of octant one followed by their images in the other seven, and "
         "modification, weight update, assignment, import and export keep that arrangement", [
        ("AngularQuadrature::AngularQuadrature", "AngularQuadrature__xml",
         dict(pick=lambda f: len(f.p) == 1 and "xml" in f.p[0]["t"],
              opaque=("GenSn", "GenProduct", "GenChebyshev", "GenGauss", "GenYamamoto", "GenUserQuadrature",
                      "to_octant"), drop=("validate_input",))),
        ("AngularQuadrature::AngularQuadrature", "AngularQuadrature__h5",
         dict(pick=lambda f: len(f.p) == 1 and "H5" in f.p[0]["t"])),
        ("AngularQuadrature::modify_angle", "AngularQuadrature__modify_angle"),
        ("AngularQuadrature::update_weights", "AngularQuadrature__update_weights",
         dict(opaque=("update_chebyshev_weights",))),
        ("AngularQuadrature::update_chebyshev_weights", "AngularQuadrature__update_chebyshev_weights",
         dict(opaque=("GenProduct", "GenGauss", "GenYamamoto", "to_octant"))),
        ("AngularQuadrature::operator=", "AngularQuadrature__assign"),
        ("AngularQuadrature::operator==", "AngularQuadrature__eq"),
        ("AngularQuadrature::output", "AngularQuadrature__output"),
    ])
    reflection(ck)
    level_symmetric(ck)


def reflection(ck):
    ck.rule("reflection", "reflecting an angle flips the sign of exactly the cosine along the normal; reversing it flips "
            "all cosines (2-D: both in-plane cosines, within the upper hemisphere)")
    nd = 3
    tab = lambda n: num.table(ck.prog, n)

    def folded(f, **given):
        s = ck.summ(f)
        g = {F("ndir_oct_"): nd}
        for k, v in given.items():
            ps = [q for q in f.p if q["n"] == k]
            g[s.params[f.p[int(k[1:])]["n"]]] = v
        try:
            return num.Fold(tab, g)(s.ret)
        except num.Outside as e:
            return str(e)
        except AnalysisBroken as e:
            raise AnalysisBroken("C04/reflection: %s: %s" % (f.n, e))

    norm = ck.enum("Normal")
    surf = ck.enum("Surface")
    axis = {norm["X_NORM"]: 0, norm["Y_NORM"]: 1, norm["Z_NORM"]: 2}
    saxis = {surf[n]: a for n, a in (("EAST", 0), ("WEST", 0), ("NORTH", 1), ("SOUTH", 1), ("TOP", 2), ("BOTTOM", 2))}
    fn = ck.f1("AngularQuadrature::reflect", lambda f: "Normal" in f.p[1]["t"])
    fs = ck.f1("AngularQuadrature::reflect", lambda f: "Surface" in f.p[1]["t"])
    fr = ck.f1("AngularQuadrature::reverse")
    for f, tabl in ((fn, axis), (fs, saxis)):
        for v, a in tabl.items():
            for i in range(8 * nd):
                j = folded(f, p0=i, p1=v)
                want = list(SIGNS[i // nd])
                want[a] = -want[a]
                ck.ok(j == SIGNS.index(tuple(want)) * nd + i % nd, f.n,
                      "angle %d of octant %d reflected about axis %s goes to index %s of %d" % (
                          i % nd, i // nd + 1, "xyz"[a], j, 8 * nd), f.where)
    for dim in (2, 3):
        for i in range((4 if dim == 2 else 8) * nd):
            j = folded(fr, p0=i, p1=dim)
            s = SIGNS[i // nd]
            want = (-s[0], -s[1], s[2] if dim == 2 else -s[2])
            ck.ok(j == SIGNS.index(want) * nd + i % nd, fr.n,
                  "angle %d of octant %d reversed in %d-D goes to index %s of %d" % (i % nd, i // nd + 1, dim, j, 8 * nd),
                  fr.where)


def level_symmetric(ck):
    ck.rule("level-symmetric", "each level-symmetric set lies on the unit sphere, is invariant under permutation of the "
            "axes, has weights summing to one and second moments of one third")
    f = ck.f1("GenSn")
    tab = lambda n: num.table(ck.prog, n)
    most = 0
    for order in range(2, 18, 2):
        s = ck.summ(f, args={f.p[0]["n"]: vn.const(order)}, unroll=40)
        fold = num.Fold(tab)
        app = [e for e in s.eff if e.kind == "append" and e.val is not None and e.val.op == "struct"]
        most = max(most, len(app))
        if not ck.ok(len(app) == order * (order + 2) // 8, f.n, "order %d yields %d angles per octant" % (order, len(app)), f.where):
            continue
        pts, w = [], []
        try:
            for e in app:
                d = dict(zip(e.val.a[1][::2], e.val.a[1][1::2]))
                pts.append(tuple(fold(d[k]) for k in ("ox", "oy", "oz")))
                w.append(fold(d["weight"]))
        except num.Outside as e:
            ck.bad(f.n, "order %d: %s" % (order, e), f.where)
            continue
        scale = [e for e in s.eff if e.kind == "store" and e.op == "/=" and "weight" in show(e.loc) and e.loops]
        if scale:
            n = fold(scale[-1].val)
            w = [x / n for x in w]
        tag = "order %d: " % order
        ck.ok(abs(sum(w) - 1) < 1e-9, f.n, tag + "weights sum to %.9f" % sum(w), f.where)
        ck.ok(all(x > 0 for x in w) and all(0 < c < 1 for p in pts for c in p), f.n, tag + "angles outside octant one", f.where)
        ck.ok(all(abs(sum(c * c for c in p) - 1) < 1e-4 for p in pts), f.n, tag + "an angle is not on the unit sphere", f.where)
        ck.ok(len({tuple(round(c, 6) for c in p) for p in pts}) == len(pts), f.n, tag + "an angle occurs twice", f.where)
        orb = {}
        for p, x in zip(pts, w):
            orb.setdefault(tuple(sorted(round(c, 6) for c in p)), set()).add(round(x, 9))
        ck.ok(all(len(v) == 1 for v in orb.values()), f.n, tag + "angles that are permutations of each other have different weights",
              f.where)
        for a in range(3):
            m = sum(x * p[a] ** 2 for p, x in zip(pts, w))
            ck.ok(abs(m - 1 / 3) < 2e-4, f.n, tag + "second moment along axis %s is %.6f" % ("xyz"[a], m), f.where)
    ck.need(most, 2, "angles built for some order")
    s = ck.summ(f, args={f.p[0]["n"]: vn.const(18)}, unroll=40)
    ck.ok(bool(s.throws()), f.n, "order 18 is not refused", f.where)
    y = ck.f1("GenYamamoto", lambda f: not f.n.startswith("ref::"))
    s = ck.summ(y, args={y.p[0]["n"]: vn.const(3)}, unroll=10)
    app = [e for e in s.eff if e.kind == "append"]
    ck.need(len(app), 3, "Yamamoto angles")
    got = sorted((round(__import__("math").sin(num.Fold()(e.val.a[1][1])), 6), num.Fold()(e.val.a[1][3])) for e in app)
    want = [(0.166648, 0.046233), (0.537707, 0.283619), (0.932954, 0.670148)]
    ck.ok(len(got) == 3 and all(abs(g[0] - v[0]) < 2e-6 and abs(g[1] - v[1]) < 1e-9 for g, v in zip(got, want)), y.n,
          "polar sines and weights differ from the published set: %s" % got, y.where)
    for n in (1, 2, 4):
        s = ck.summ(y, args={y.p[0]["n"]: vn.const(n)}, unroll=10)
        ck.ok(bool(s.throws()), y.n, "an unsupported number of polar angles is accepted", y.where)
