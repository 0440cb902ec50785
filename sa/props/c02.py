"""C02: conservation along characteristics segments."""
from core import *
from terms import T

TITLE = "The characteristics sweep conserves neutrons along every ray segment"
EXPLANATION = (
    "Value numbering of every instantiation of the characteristics kernel. The per-segment loss, "
    "the tally, the hand-over between segments, the boundary slots and the region balance are "
    "identities of value terms decided by random interpretation.")

OPAQUE = ("set_group", "set_plane", "set_angle", "post_ray", "post_angle", "post_sweep",
          "get_boundary", "reverse", "BoundaryCondition::update", "exp", "get_transport",
          "RayData::spacing")


def phis(t):
    """Loop-carried reads in a term (outermost)."""
    out = []

    def go(x):
        if not isinstance(x, T):
            return
        b = x
        while b.op == "idx":
            b = b.a[0]
        if b.op == "phi":
            out.append(x)
            return
        for y in x.a:
            if isinstance(y, T):
                go(y)
            elif isinstance(y, tuple):
                for z in y:
                    go(z)
    go(t)
    return list(dict.fromkeys(out))


def exps(t):
    return [x for x in subterms(t) if (x.op == "app" and x.a[0].split("::")[-1] == "exp")]


def check(ck):
    ck.notes.append("the tabulated exponential is an uninterpreted function; arithmetic is exact")
    fs = ck.fn("MoCSweeper::sweep1g")
    ck.rule("segment", "outgoing = incoming - (incoming - q_region)*(1 - exp(-xstr_region*len/sin(theta))) "
            "with the segment's own region, and each segment's outflow enters the next one")
    ck.need(len(fs), 3, "instantiations of the characteristics kernel")
    ck.rule("tally", "the loss of every segment, times weight*spacing*height*sin(theta)*pi, is added once to the "
            "segment's region in both directions")
    ck.rule("ends", "a traversal starts from the incoming flux of its direction at its own end of the ray and "
            "leaves its result at the other end")
    ck.rule("balance", "region flux = tallies/(xstr*volume) + 4*pi*q with one region's data")
    ck.rule("coverage", "every plane, angle, ray and segment is traversed once in each direction")
    for f in sorted(fs, key=lambda f: f.id):
        kernel(ck, f)


def kernel(ck, f):
    s = ck.summ(f, opaque=OPAQUE)
    name = f.n + "<" + str(f.targs or "").strip(";").split("::")[-1] + ">"
    group = S(f.p[0]["n"])
    st = [e for e in s.eff if e.kind == "store"]
    psi = [e for e in st if exps(e.val) and e.op == "=" and len(e.loops) >= 4 and phis(e.val)]
    # traversal steps: stores whose value depends on the value carried along the ray
    steps = []
    for e in psi:
        ph = [p for p in phis(e.val) if carries(p, e.loc)]
        if len(ph) == 1:
            steps.append((e, ph[0]))
    ck.cur = "coverage"
    up = [x for x in steps if not x[0].loops[-1].down]
    dn = [x for x in steps if x[0].loops[-1].down]
    if not ck.ok(len(up) == 1 and len(dn) == 1, name,
                 "expected one traversal along and one against every ray, found %d and %d" % (len(up), len(dn)), f.where):
        return
    tallied = [e for e in st if e.op == "+=" and exps(e.val) and len(e.loops) >= 4]
    for (e, ph), fwd in ((up[0], True), (dn[0], False)):
        traverse(ck, s, e, ph, fwd, name, group, tallied)
    ck.cur = "tally"
    ck.ok(len(tallied) == 2, name, "%d tallies of segment losses, expected one per direction" % len(tallied),
          tallied[0].where() if tallied else f.where)
    # per-angle boundary hand-over
    final(ck, s, name, f, tallied)


def carries(p, loc):
    b = p
    while b.op == "idx":
        b = b.a[0]
    if b.op != "phi":
        return False
    want = vn.base_loc(loc) if loc.op == "idx" else loc
    return any(x is want for x in b.a) or any(isinstance(x, T) and vn.base_loc(x) is want for x in b.a if isinstance(x, T))


def traverse(ck, s, e, ph, fwd, name, group, tallied):
    where = e.where()
    d = "forward" if fwd else "backward"
    bp, ba, br, bs = [l.b for l in e.loops[:4]]
    ids = F("macroplane_unique_ids_")
    plane = idx(F("rays_", "rays_"), idx(ids, bp))
    ray = idx(idx(plane, ba), br)
    ck.cur = "coverage"

    def full(b, n):
        return b.a[0].op == "rng" and len(b.a[0].a) == 2 and eqv(b.a[0].a[0], ZERO) and eqv(b.a[0].a[1], n)
    ck.ok(full(bp, size(ids)), name, "the %s traversal does not visit every macroplane" % d, where)
    ck.ok(full(ba, size(plane)), name, "the %s traversal does not visit every angle of the plane's rays" % d, where)
    ck.ok(full(br, size(idx(plane, ba))), name, "the %s traversal does not visit every ray of the angle" % d, where)
    ck.ok(full(bs, fld(ray, "nseg_")), name, "the %s traversal does not visit every segment of the ray" % d, where)
    ck.ok(not e.pc, name, "the %s traversal is conditional" % d, where)
    ck.cur = "segment"
    reg = add(idx(fld(ray, "seg_index_"), bs), idx(F("first_reg_macroplane_"), bp))
    ex = exps(e.val)
    arg = neg(mul(mul(idx(F("xstr_", "xstr_"), reg), idx(fld(ray, "seg_len_"), bs)),
                  fld(idx(F("ang_quad_", "angles_"), ba), "rsintheta")))
    if not ck.ok(len(ex) == 1 and eqv(ex[0].a[-1], arg), name,
                 "attenuation of a %s segment is not exp(-xstr*length/sin(theta)) of its own region and length" % d, where):
        return
    q = [t for t in subterms(e.val) if t.op == "idx" and any(
        u.op == "app" and u.a[0].endswith("get_transport") for u in [t.a[0]])]
    if not ck.ok(len(q) == 1 and eqv(q[0].a[-1], reg) and eqv(q[0].a[0].a[-1], ba), name,
                 "source of a %s segment is not that of its own region and angle" % d, where):
        return
    loss = mul(sub(ph, q[0]), sub(ONE, ex[0]))
    ck.ok(eqv(sub(ph, e.val), loss), name,
          "a %s segment does not lose (psi - q)*(1 - exp(-tau))" % d, where)
    # hand-over
    if e.loc.op == "idx" and ph.op == "idx":
        nxt = subst(ph.a[-1], {bs: add(bs, ONE) if fwd else sub(bs, ONE)})
        ck.ok(eqv(e.loc.a[-1], nxt), name, "the outflow of a %s segment is not the inflow of the next one" % d, where)
    # tally
    ck.cur = "tally"
    ang = idx(F("ang_quad_", "angles_"), ba)
    sp = [t for x in tallied for t in subterms(x.val) if t.op == "app" and t.a[0].endswith("::spacing")]
    spacing = sp[0] if sp else ZERO
    w2 = mul(mul(mul(fld(ang, "weight"), spacing),
                 mul(fld(idx(F("mesh_", "macroplanes_"), bp), "height"), div(ONE, fld(ang, "rsintheta")))), const(PI))
    mine = [x for x in tallied if x.loops == e.loops]
    ck.ok(len(mine) == 1 and not mine[0].pc, name, "the loss of a %s segment is tallied %d times" % (d, len(mine)), where)
    for x in mine:
        ck.ok(eqv(x.loc.a[-1], reg), name, "the loss of a %s segment is credited to another region" % d, x.where())
        sn = [t for t in subterms(x.val) if t.op == "app" and t.a[0] == "sin"]
        ww = w2
        if sn:
            ww = mul(mul(mul(fld(ang, "weight"), spacing),
                         mul(fld(idx(F("mesh_", "macroplanes_"), bp), "height"), sn[0])), const(PI))
            ck.ok(len(sn) == 1 and eqv(sn[0].a[1], fld(ang, "theta")), name, "weight uses another polar angle", x.where())
        ck.ok(spacing is not ZERO and eqv(spacing.a[-1], ba) and
              eqv(x.val, mul(loss, ww), exact=False, signed=False), name,
              "the %s tally is not the segment's loss times weight*spacing*height*sin(theta)*pi" % d, x.where())
    # ends
    ck.cur = "ends"
    k = s.eff.index(e)
    first = ZERO if fwd else sub(fld(ray, "nseg_"), ONE)
    last = sub(fld(ray, "nseg_"), ONE) if fwd else ZERO
    arr = vn.base_loc(e.loc)
    init = [x for x in s.eff[:k] if x.kind == "store" and vn.base_loc(x.loc) is arr and x.op == "=" and
            len(x.loops) == 3]
    slot = subst(ph.a[-1], {bs: first}) if ph.op == "idx" else None
    a_in = ba if fwd else mk("app", "mocc::AngularQuadrature::reverse")
    ok = False
    for x in init[-1:]:
        v = x.val
        if v.op == "idx" and v.a[0].op == "fld" and v.a[0].a[0].op == "app" and \
                v.a[0].a[0].a[0].endswith("get_boundary"):
            g = v.a[0].a[0]
            ok = (slot is None or eqv(x.loc.a[-1], slot)) and g.a[1] is idx(F("boundary_"), bp) and \
                eqv(g.a[2], group) and same_dir(g.a[3], ba, fwd) and \
                eqv(v.a[-1], idx(fld(ray, "bc_"), const(0 if fwd else 1))) and x.loops == e.loops[:3]
    ck.ok(ok, name, "the %s traversal does not start from the incoming boundary flux of its direction at its end of the ray" % d, where)
    outs = [x for x in s.eff[k:] if x.kind == "store" and x.op == "=" and x.loc.op == "idx" and
            x.loc.a[0].op == "fld" and x.loc.a[0].a[0].op == "app" and
            x.loc.a[0].a[0].a[0].endswith("get_boundary") and
            same_dir(x.loc.a[0].a[0].a[3], ba, fwd)]
    ok = len(outs) == 1
    for x in outs[:1]:
        g = x.loc.a[0].a[0]
        ok = ok and g.a[1] is idx(F("boundary_out_"), bp) and eqv(g.a[2], ZERO) and \
            eqv(x.loc.a[-1], idx(fld(ray, "bc_"), const(1 if fwd else 0))) and x.loops == e.loops[:3] and not x.pc
        v = x.val
        wslot = subst(e.loc.a[-1], {bs: last}) if e.loc.op == "idx" else None
        direct = eqv(v, subst(e.val, {bs: last}))
        viaarr = v.op == "idx" and wslot is not None and eqv(v.a[-1], wslot) and \
            any(t.op == "map" for t in subterms(v.a[0])) and contains(v.a[0], ex[0])
        carried = v.op == "fold" and tup(v.a[4])[v.a[1]] is e.val
        ok = ok and (direct or viaarr or carried)
    ck.ok(ok, name, "the result of the %s traversal is not left as the outgoing flux of its direction at the other end of the ray" % d, where)


def tup(x):
    return x if isinstance(x, (tuple, list)) else x.a


def same_dir(t, ba, fwd):
    if fwd:
        return eqv(t, ba)
    if t.op == "app" and t.a[0].endswith("AngularQuadrature::reverse"):
        return eqv(t.a[2], ba) and (len(t.a) < 4 or eqv(t.a[3], const(2)))
    return False


def final(ck, s, name, f, tallied):
    ck.cur = "balance"
    fl = [e for e in s.eff if e.kind == "store" and vn.root_name(e.loc) == "flux_1g_"]
    ck.need(len(fl), 2, "updates of the scalar flux in " + name)
    ck.ok(not fl[0].loops and fl[0].op == "=" and eqv(fl[0].val, ZERO) and not fl[0].omp, name,
          "the scalar flux does not start from zero", fl[0].where())
    loc = vn.base_loc(tallied[0].loc) if tallied else None
    if loc is not None and vn.root_name(loc) != "flux_1g_":
        red = [e for e in fl if e.op == "+="]
        ck.ok(len(red) == 1 and (not red[0].loops or eqv(red[0].loops[0].b.a[0].a[1], F("n_reg_"))), name,
              "thread tallies are not added exactly once for every region", fl[0].where())
        zero = [y for y in s.eff if y.kind == "store" and y.loc is loc and y.op == "="]
        ck.ok(zero and eqv(zero[0].val, ZERO) and not zero[0].loops, name, "a thread's tally does not start from zero", fl[0].where())
        if not red:
            return
        acc = red[0]
        if acc.loops:
            ck.ok(eqv(vn.indices(acc.loc)[-1], acc.loops[0].b) and acc.val.op == "idx" and
                  eqv(acc.val.a[-1], acc.loops[0].b), name, "a thread tally is added to another region", acc.where())
    fin = fl[-1]
    ok = len(fin.loops) == 1 and fin.op == "=" and eqv(fin.loops[0].b.a[0].a[1], F("n_reg_")) and \
        eqv(fin.loops[0].b.a[0].a[0], ZERO)
    if not ck.ok(ok, name, "the region balance is not applied to every region", fin.where()):
        return
    i = fin.loops[0].b
    ck.ok(eqv(vn.indices(fin.loc)[-1], i), name, "the region balance is stored in another region", fin.where())
    q = [t for t in subterms(fin.val) if t.op == "idx" and t.a[0].op == "app" and t.a[0].a[0].endswith("get_transport")
         and not any(u.op == "fold" for u in subterms(t))]
    xs = mul(idx(F("xstr_", "xstr_"), i), idx(F("vol_"), i))
    top = [t for t in q if eqv(t.a[-1], i)]
    if not ck.ok(len(top) >= 1, name, "the region's own source is not added back", fin.where()):
        return
    prior = strip_prior(fin.val)
    if not ck.ok(prior is not None, name, "the tallies do not enter the region flux", fin.where()):
        return
    want = add(div(prior, xs), mul(top[0], const(4 * PI)))
    ck.ok(eqv(fin.val, want, exact=False, signed=False), name,
          "region flux is not tallies/(xstr*volume) + 4*pi*q", fin.where())


def strip_prior(t):
    """The accumulated tally inside the final expression: the outermost fold/map
    element."""
    b = t
    best = None

    def go(x):
        nonlocal best
        if best is not None or not isinstance(x, T):
            return
        r = x
        while r.op == "idx":
            r = r.a[0]
        if r.op in ("fold", "map", "psum", "sum") or (r.op == "fld" and r.a[1] == "flux_1g_"):
            best = x
            return
        for y in x.a:
            go(y)
    go(b)
    return best
