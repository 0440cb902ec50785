"""C03: boundary conditions."""
from core import *
import c04

TITLE = "Boundary conditions return exactly the flux their type prescribes"
EXPLANATION = (
    "The net effect of every boundary update on the stored incoming flux, as a footprint of value "
    "terms guarded by the boundary type, is compared with what each type prescribes for the face's "
    "storage as designated by the accessors; call sites in every sweep are checked for the group, "
    "direction and outgoing data they pass.")

VAC, REF, PRE = 0, 1, 4


def face(ck, group, angle, norm, obj):
    f = ck.f1("BoundaryCondition::get_face", lambda f: f.cst)
    names = [p["n"] for p in f.p]
    it = vn.Interp(ck.prog)
    s = it.run(f, args=dict(zip(names, (group, angle, norm))), this=obj)
    ck.functions.add(f.n)
    return fld(s.ret, "first"), deref(fld(s.ret, "second"))


def check(ck):
    P = ck.prog
    en = ck.enum("Boundary")
    ck.rule("update", "for each normal: vacuum stores zero, reflecting stores the outgoing flux of the swept "
            "direction into its mirror direction on the same face, prescribed stores nothing, any other type is refused")
    ck.need(len(en), 5, "boundary types")
    ups = ck.fn("BoundaryCondition::update")
    one = [f for f in ups if len(f.p) == 3]
    allf = [f for f in ups if len(f.p) == 2]
    ck.need(len(one), 1, "per-direction boundary update")
    ck.need(len(allf), 1, "all-direction boundary update")
    f = one[0]
    s = ck.summ(f, opaque=("reflect", "upwind_surface"))
    g, a, o = [s.params[p["n"]] for p in f.p]
    refl = [e for e in s.calls("reflect")]
    ck.need(len(refl), 1, "reflection of the direction in the boundary update")
    spec = []
    nloop = loop(3)
    # the normal-to-mirror map is the quadrature's own reflect(); its meaning is C04
    R = mk("app", refl[0].name, F("ang_quad_"), a, nloop)
    up = mk("app", "mocc::Direction::upwind_surface", idx(F("ang_quad_", "angles_"), R), nloop)
    ty = idx(F("bc_"), up)
    n_in, dst = face(ck, g, R, nloop, THIS)
    n_out, src = face(ck, ZERO, a, nloop, o)
    size_ = idx(idx(F("size_"), a), nloop)
    k = loop(size_, k=("el", 0))
    some = not_(eq(size_, ZERO))
    spec.append(E0(elem(dst, k), "=", ZERO, [nloop, k], [some, eq(ty, const(en["VACUUM"]))]))
    spec.append(E0(elem(dst, k), "=", elem(src, k), [nloop, k], [some, eq(ty, const(en["REFLECT"]))]))
    got = [elementwise(e) for e in s.eff if e.kind == "store" and vn.root_name(e.loc) == "data_" or
           (e.kind == "call" and e.name in ("std::copy", "std::fill"))]
    got = [e for e in got if e.loc is not None and e.loc.op == "idx"]

    def only(ty_val):
        def asg(x):
            return x
        return asg

    def canon(t):
        return None
    ck.ok(same_footprint(got, spec, n=60), f.n,
          "the stored incoming flux after an update is not what the boundary type prescribes", f.where)
    ck.ok(all(not l.partial for e in s.eff for l in e.loops), f.n,
          "normals after the first skipped one are not updated", f.where)
    th = s.throws()
    bad = or_(or_(eq(ty, const(en["VACUUM"])), eq(ty, const(en["REFLECT"]))), eq(ty, const(en["PRESCRIBED"])))
    okt = bool(th)
    for sd in range(40):
        env = Env(sd)
        for n in range(3):
            def t():
                want = env.truth(env.ev(some)) and not env.truth(env.ev(bad))
                have = any(env.truth(env.ev(conj(e.pc))) for e in th)
                return want == have
            bl = th[0].loops[0].b if th and th[0].loops else nloop
            okt = okt and env.bind(bl, n, lambda: env.bind(nloop, n, t))
    ck.ok(okt, f.n, "an unsupported boundary type is not refused (or a supported one is)", f.where)

    ck.rule("update-all", "updating all directions updates each direction once with the same group and data")
    f = allf[0]
    s = ck.summ(f, opaque=("BoundaryCondition::update",))
    cs = s.calls("BoundaryCondition::update") or s.calls("update")
    g, o = [s.params[p["n"]] for p in f.p]
    ck.ok(len(cs) == 1 and len(cs[0].loops) == 1 and not cs[0].pc and cs[0].obj is THIS and
          eqv(cs[0].loops[0].b.a[0].a[0], ZERO) and eqv(cs[0].loops[0].b.a[0].a[1], F("n_angle_")) and
          eqv(cs[0].args[0], g) and eqv(cs[0].args[1], cs[0].loops[0].b) and cs[0].args[2] is o, f.n,
          "not every direction is updated once with the group and outgoing flux given", f.where)

    ck.rule("storage", "each (group, direction, face) has its own contiguous block and every accessor designates it")
    acc = ck.fn("BoundaryCondition::get_face")
    G, A, N = S("g"), S("a"), S("n")
    off = add(mul(F("bc_per_group_"), G), idx(F("offset_"), A, N))
    for f in acc:
        s = vn.Interp(P).run(f, args=dict(zip([p["n"] for p in f.p], (G, A, N))))
        ck.ok(eqv(fld(s.ret, "first"), idx(idx(F("size_"), A), N)) and
              fld(s.ret, "second").op == "addr" and eqv(fld(s.ret, "second").a[0].a[-1], off) and
              vn.root_name(fld(s.ret, "second").a[0]) == "data_", f.n, "face accessor designates another block", f.where)
    off0 = add(mul(F("bc_per_group_"), G), idx(F("offset_"), A, ZERO))
    for f in ck.fn("BoundaryCondition::get_boundary"):
        s = vn.Interp(P).run(f, args=dict(zip([p["n"] for p in f.p], (G, A))))
        tot = add(add(idx(idx(F("size_"), A), ZERO), idx(idx(F("size_"), A), ONE)), idx(idx(F("size_"), A), const(2)))
        ck.ok(eqv(fld(s.ret, "first"), tot) and fld(s.ret, "second").op == "addr" and
              eqv(fld(s.ret, "second").a[0].a[-1], off0) and vn.root_name(fld(s.ret, "second").a[0]) == "data_",
              f.n, "boundary accessor designates another block", f.where)
    f = ck.f1("BoundaryCondition::copy_face")
    s = ck.summ(f)
    got = [elementwise(e) for e in s.eff if e.kind in ("store", "call") and
           (e.kind == "store" or e.name in ("std::copy",))]
    p = [s.params[x["n"]] for x in f.p]
    n, st = face(ck, p[0], p[1], p[2], THIS)
    k = loop(n, k=("el", 0))
    got = [e for e in got if e.loc is not None]
    ck.ok(same_footprint(got, [E0(idx(deref(p[3]), k), "=", elem(st, k), [k])]), f.n,
          "copying a face does not copy exactly that face's block", f.where)
    # layout
    for f in ck.fn("BoundaryCondition::BoundaryCondition"):
        if len(f.p) != 5 or "vector" not in f.p[3]["t"]:
            continue
        s = ck.summ(f)
        nb = s.params[f.p[3]["n"]]
        i, j = loop(size(nb)), loop(3)
        tot = add(add(idx(idx(nb, i), ZERO), idx(idx(nb, i), ONE)), idx(idx(nb, i), const(2)))
        canon = lambda t: const(3) if t.op == "app" and t.a[0] == "size" and t is not size(nb) else None
        st = [e for e in s.stores("offset_") if e.loc.op == "idx"]
        ok = len(st) == 1 and len(st[0].loops) == 2
        if ok:
            bi, bj = st[0].loops[0].b, st[0].loops[1].b
            ok = eqv(bi.a[0].a[1], size(nb)) and eqv(bj.a[0].a[1], const(3), canon=canon) and \
                eqv(st[0].loc.a[1], bi) and eqv(st[0].loc.a[2], bj)
            inner = idx(idx(nb, bi), bj)
            ok = ok and offsets_ok(st[0].val, nb, bi, bj)
        ck.ok(ok, f.n, "face offsets are not the running total of the face sizes", f.where)
        pg = s.mem.get(F("bc_per_group_"))
        ck.ok(pg is not None and total_ok(pg, nb), f.n, "size per group is not the total of all faces of all directions", f.where)
        rs = [e for e in s.eff if e.kind == "resize" and e.loc is F("data_")]
        ck.ok(bool(rs) and pg is not None and eqv(rs[-1].args[0], mul(pg, s.params[f.p[0]["n"]])), f.n,
              "storage is not sized for every group", f.where)

    ck.rule("initial", "vacuum faces start at zero, prescribed faces hold the prescribed value independent of the "
            "initial guess, other faces start from the guess")
    f = ck.f1("BoundaryCondition::initialize_scalar")
    s = ck.summ(f, opaque=("upwind_surface", "get_face"))
    v = s.params[f.p[0]["n"]]
    st = [e for e in s.eff if e.kind == "store"]
    z = [e for e in st if vn.root_name(e.loc) == "data_" and e.loc.op == "fld"]
    ck.ok(bool(z) and eqv(z[0].val, ZERO) and not z[0].pc and z[0] is st[0], f.n, "storage is not cleared first", f.where)
    gl, al, nl = loop(F("n_group_")), loop(F("n_angle_")), loop(3)
    ty = idx(F("bc_"), mk("app", "mocc::Direction::upwind_surface", idx(F("ang_quad_", "angles_"), al), nl))
    fc = mk("app", "mocc::BoundaryCondition::get_face", THIS, gl, al, nl)
    k = loop(fld(fc, "first"))
    guess = or_(eq(ty, const(en["REFLECT"])), or_(eq(ty, const(en["PARALLEL"])), eq(ty, const(en["PERIODIC"]))))
    got = [elementwise(e) for e in st if e.loc.op == "idx"]
    same = True
    seenp = False
    for sd in range(40):
        env = Env(sd)
        for e in got:
            if contains(e.val, v):
                continue
        b = footprint(got, env)
    fg = [e for e in got if contains(e.val, v)]
    fp = [e for e in got if not contains(e.val, v)]
    ck.ok(same_footprint(fg, [E0(idx(fld(fc, "second"), k), "=", v, [gl, al, nl, k], [guess])], n=40), f.n,
          "the initial guess is not stored on exactly the reflecting, parallel and periodic faces of every group and direction", f.where)
    ok = len(fp) == 1
    if ok:
        ok = same_footprint(fp, [E0(idx(fld(fc, "second"), k), "=", subst(fp[0].val, {}), [gl, al, nl, k],
                                    [eq(ty, const(en["PRESCRIBED"]))])], n=40)
    ck.ok(ok, f.n, "the prescribed value is not stored on exactly the prescribed faces", f.where)

    ck.rule("surface", "the upwind surface of a direction is the face it enters through")
    f = ck.f1("Direction::upwind_surface")
    s = ck.summ(f)
    n = s.params[f.p[0]["n"]]
    su = {k: const(v) for k, v in ck.enum("Surface").items()}
    for k, (c, lo, hi) in enumerate((("ox", "WEST", "EAST"), ("oy", "SOUTH", "NORTH"), ("oz", "BOTTOM", "TOP"))):
        want = ite(lt(ZERO, F(c)), su[lo], su[hi])
        ck.ok(eqv(subst(s.ret, {n: const(k)}), want, signed=True), f.n,
              "wrong entry face for the %s axis" % "xyz"[k], f.where)
    sites(ck, P)
    core_bc(ck, P, en, su)
    c04.reflection(ck)


def offsets_ok(v, nb, bi, bj):
    """running total over directions then faces, at all small shapes"""
    return eqv(v, add(mk("psum", bi, add(add(idx(idx(nb, bi), ZERO), idx(idx(nb, bi), ONE)), idx(idx(nb, bi), const(2)))),
                               mk("psum", bj, idx(idx(nb, bi), bj))))


def total_ok(v, nb):
    b = loop(size(nb))
    return eqv(v, mk("sum", b, add(add(idx(idx(nb, b), ZERO), idx(idx(nb, b), ONE)), idx(idx(nb, b), const(2)))))


def sites(ck, P):
    ck.rule("sweep-update", "after the outgoing flux of a direction is complete, the incoming flux it determines is "
            "updated from it for the swept group, for every direction")
    fs = [f for f in P.funcs.values() if f.body is not None and
          (f.short in ("sweep_1g", "sweep_1g_2d") and "SnSweeperVariant<" in f.n or f.n.endswith("MoCSweeper::sweep1g"))]
    ck.need(len(fs), 17, "sweep functions")
    for f in sorted(fs, key=lambda f: f.id):
        s = ck.summ(f, opaque=("evaluate", "evaluate_2d", "current_work", "upwind_work", "set_octant", "set_group", "set_plane",
                               "set_angle", "post_ray", "post_angle", "post_sweep", "reverse", "exp", "get_transport",
                               "RayData::spacing", "BoundaryCondition::update", "copy_face", "get_face", "get_boundary"))
        group = S(f.p[0]["n"])
        cs = [e for e in s.calls("BoundaryCondition::update")]
        moc = f.short == "sweep1g"
        outs = [e for e in s.eff if e.kind == "call" and e.name.endswith("get_boundary" if moc else "get_face") and
                e.obj is not None and "out" in show(e.obj)]
        per = [e for e in cs if len(e.args) == 3]
        al = [e for e in cs if len(e.args) == 2]
        name = f.n if moc else "::".join(f.n.split("::")[-2:])
        ck.ok(len(al) == 1 and len(per) == (2 if moc else 1), name,
              "boundary fluxes are not updated once per mode", f.where)
        if not (al and per):
            continue
        # complementary guards
        ga, gp = conj(al[0].pc), conj(per[0].pc)
        ck.ok(eqv(ga, not_(gp)) and all(eqv(conj(e.pc), gp) for e in per), name,
              "some setting updates boundary fluxes twice or never", al[0].where())
        ck.ok(all(eqv(e.args[0], group) for e in cs), name, "a boundary update uses another group", cs[0].where())
        swept = {}
        for o in outs:
            swept.setdefault(o.args[1], o)
        for o in swept.values():
            m = [e for e in per if eqv(e.args[1], o.args[1]) and e.args[2] is o.obj]
            ck.ok(len(m) == 1 and m[0].obj is in_of(o.obj), name,
                  "the outgoing flux of a swept direction never reaches the incoming flux", o.where())
        ck.ok(all(e.args[1] is outs[0].obj or any(e.args[1] is o.obj for o in outs) for e in al) and
              al[0].obj is in_of(outs[0].obj), name, "the all-direction update uses other data", al[0].where())
        # placed after the rays/cells of the direction and in a serial or per-direction context
        last = max((i for i, e in enumerate(s.eff) if e.kind == "store" and (
            "get_boundary" in show(e.loc) or "get_face" in show(e.loc))), default=-1)
        ck.ok(last >= 0 and all(s.eff.index(e) > last for e in cs), name,
              "a boundary update precedes the completion of the outgoing flux", cs[0].where())
    ck.rule("faces", "the discrete-ordinates face blocks have the number of cells on the face")
    f = ck.f1("boundary_helper")
    s = ck.summ(f)
    m = s.params[f.p[0]["n"]]
    nx, ny, nz = fld(m, "nx_"), fld(m, "ny_"), fld(m, "nz_")
    for k, w in enumerate((mul(ny, nz), mul(nx, nz), mul(nx, ny))):
        got = idx(s.ret, const(k))
        r = s.ret
        while r.op == "ilist" and len(r.a) == 1 and r.a[0].op == "ilist":
            r = r.a[0]
        ck.ok(eqv(idx(r, const(k)), w), f.n, "wrong number of boundary values on %s faces" % "xyz"[k], f.where)


def in_of(o):
    m = {F("bc_out_"): F("bc_in_")}
    if o in m:
        return m[o]
    if o.op == "idx" and o.a[0] is F("boundary_out_"):
        return mk("idx", F("boundary_"), *o.a[1:])
    return None


def core_bc(ck, P, en, su):
    ck.rule("input", "each face gets the condition the input names for it")
    f = ck.f1("Core::Core", lambda f: len(f.p) == 2)
    s = ck.summ(f, opaque=("bc_parse", "explode_string", "Plane"), max_depth=2)
    st = [e for e in s.stores("bc_") if e.loc.op == "idx"]
    names = {"NORTH": "north", "SOUTH": "south", "EAST": "east", "WEST": "west", "TOP": "top", "BOTTOM": "bottom"}
    ck.need(len(st), 1, "stores of boundary types")
    for k, v in names.items():
        m = [e for e in st if eqv(e.loc.a[-1], su[k])]
        ck.ok(len(m) == 1 and m[0].val.op == "app" and m[0].val.a[0].endswith("bc_parse") and
              any(x.op == "s" and x.a[0] == v for x in m[0].val.a[1:] if isinstance(x, T)), f.n,
              "the %s face does not get the condition given for '%s'" % (v, v), (m[0].where() if m else f.where))
    f = ck.f1("bc_parse")
    s = ck.summ(f)
    for txt, k in (("vacuum", "VACUUM"), ("reflect", "REFLECT"), ("prescribed", "PRESCRIBED")):
        ok = False
        for t in subterms(s.ret):
            pass
        r = specialise(s.ret, txt)
        ck.ok(r is not None and eqv(r, const(en[k])), f.n, "'%s' is not read as that condition" % txt, f.where)
    r = specialise(s.ret, "no-such-word")
    ck.ok(r is not None and eqv(r, const(en["INVALID"])), f.n, "an unknown condition is not marked invalid", f.where)


def specialise(t, word):
    """Value of a keyword selection for one input word: every comparison of the
    input text with a literal is decided."""
    while t.op == "ite":
        c = keyword(t.a[0], word)
        if c is None:
            return None
        t = t.a[1] if c else t.a[2]
    return t


def keyword(c, word):
    if c.op == "eq":
        ls = [x for x in c.a if x.op == "s"]
        if len(ls) == 1:
            return ls[0].a[0] == word
    if c.op == "or":
        a, b = keyword(c.a[0], word), keyword(c.a[1], word)
        return None if a is None or b is None else a or b
    if c.op == "and":
        a, b = keyword(c.a[0], word), keyword(c.a[1], word)
        return None if a is None or b is None else a and b
    if c.op == "not":
        a = keyword(c.a[0], word)
        return None if a is None else not a
    return None
