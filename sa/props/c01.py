"""C01: discrete-ordinates cell balance and the sweep around it."""
from core import *

TITLE = "Every discrete-ordinates cell update conserves neutrons exactly"
EXPLANATION = (
    "Value numbering of every cell update and of every instantiated sweep loop nest. "
    "Balance, upwind order, face hand-over and weighting are identities of value terms, "
    "decided by random interpretation for all inputs; no code of the project is run.")


def balance(ck):
    ck.rule("cell-balance",
            "for every differencing class: sum over axes of t_a*(outflow_a - inflow_a) + "
            "xstr*psi == q, with t_x from the cell's own width and outflow_a what the update "
            "leaves in the face flux of axis a")
    fs = [f for f in ck.prog.funcs.values()
          if f.short in ("evaluate", "evaluate_2d") and f.body is not None and f.cls
          and "SnSweeperVariant" not in f.cls
          and any("SnSweeperVariant<" in b for b in ck.prog.all_bases(f.cls))]
    ck.need(len(fs), 12, "cell update functions")
    done = set()
    for f in sorted(fs, key=lambda f: f.n):
        three = f.short == "evaluate"
        n = 7 if three else 6
        ck.need(len(f.p), n, "parameters of " + f.n)
        # inherited evaluate_2d of a class template is analysed per instance
        s = ck.summ(f, opaque=("CorrectionData::alpha", "CorrectionData::beta", "Exponential::exp"))
        P = [s.params[p["n"]] for p in f.p]
        faces = P[:3] if three else P[:2]
        q, xstr, i, ts = P[3:7] if three else P[2:6]
        tx = div(fld(ts, "ox"), idx(F("mesh_", "dx_vec_"), mod(i, F("mesh_", "nx_"))))
        t = [tx, fld(ts, "ty"), fld(ts, "tz")]
        if s.ret is None:
            ck.bad(f.n, "returns no cell flux", f.where)
            continue
        lhs = mul(xstr, s.ret)
        for a, fc in enumerate(faces):
            out = s.mem.get(fc)
            if not ck.ok(out is not None, f.n, "the %s face flux is never replaced by the cell's outflow" % "xyz"[a], f.where):
                out = fc
            lhs = add(lhs, mul(t[a], sub(out, fc)))
        ck.ok(eqv(lhs, q), f.n,
              "net streaming plus removal differs from the source for some inputs", f.where)
        done.add(f.n)


def sweeps(ck):
    P = ck.prog
    fs = [f for f in P.funcs.values() if f.body is not None and
          f.short in ("sweep_1g", "sweep_1g_2d") and "SnSweeperVariant<" in f.n]
    ck.rule("sweep", "each cell is updated with its own source and cross section, upwind values from "
            "the face slots of its own row/column, and hands its outflow to the same slots")
    ck.need(len(fs), 16, "instantiated sweep functions")
    ck.rule("upwind-order", "cells are visited along the direction of flight on every axis")
    ck.rule("scalar-flux", "each direction adds psi times its weight times 4*pi/(number of octants) to the cell")
    ck.rule("start", "before a direction is swept its face slots hold the incoming boundary values of that "
            "group, direction and axis")
    for f in sorted(fs, key=lambda f: f.id):
        one_sweep(ck, f)


def one_sweep(ck, f):
    three = f.short == "sweep_1g"
    group = S(f.p[0]["n"])
    s = ck.summ(f, opaque=("evaluate", "evaluate_2d", "current_work", "upwind_work", "set_octant",
                           "BoundaryCondition::update", "copy_face", "get_face"))
    name = f.n.split("::")[-2] + "::" + f.short
    ev = s.calls("evaluate" if three else "evaluate_2d")
    ck.cur = "sweep"
    ck.need(len(ev), 1, "cell update call in " + f.n)
    for e in ev:
        cell(ck, f, s, e, three, name, group)


def cell(ck, f, s, e, three, name, group):
    where = e.where()
    A = list(e.ins)
    nf = 3 if three else 2
    q, xstr, i, ts = A[nf:nf + 4]
    loops = e.loops
    ck.cur = "sweep"
    mesh = F("mesh_")
    ang = F("ang_quad_", "angles_")
    # the angle loop is the work-shared one: the outermost
    ck.need(len(loops), nf + 1, "nested loops around the cell update of " + name)
    ba = loops[0].b
    nd = size(ang)
    full = nd if three else idiv(nd, const(2))
    ck.ok(ba.a[0].op == "rng" and eqv(ba.a[0].a[0], ZERO) and eqv(ba.a[0].a[1], full), name,
          "the sweep does not cover exactly the %s of the quadrature" % (
              "directions" if three else "directions of the upper half"), where)
    angle = idx(ang, ba)
    comp = {"x": fld(angle, "ox"), "y": fld(angle, "oy"), "z": fld(angle, "oz")}
    # identify the loop of each axis from the direction component its bounds depend on
    n_of = {"x": F("mesh_", "nx_"), "y": F("mesh_", "ny_"), "z": F("mesh_", "nz_")}
    pos = {}
    ck.cur = "upwind-order"
    for l in loops[1:]:
        dom = l.b.a[0]
        for a in ("x", "y", "z"):
            if dom.op == "rng" and contains(dom, n_of[a]):
                pos[a] = l
    axes = ("x", "y", "z") if three else ("x", "y")
    for a in axes:
        if not ck.ok(a in pos, name, "no loop over the %s extent of the mesh encloses the cell update" % a, where):
            return
        dom = pos[a].b.a[0]
        lo, hi = dom.a[0], dom.a[1]
        step = dom.a[2] if len(dom.a) > 2 else ONE
        if pos[a].down:
            lo, hi, step = sub(hi, ONE), sub(lo, ONE), neg(step)
        negd = lt(comp[a], ZERO)
        want = (ite(negd, sub(n_of[a], ONE), ZERO), ite(negd, const(-1), n_of[a]),
                ite(negd, const(-1), ONE))
        ck.ok(eqv(lo, want[0]) and eqv(hi, want[1]) and eqv(step, want[2]), name,
              "cells are not swept from the upwind to the downwind %s side for both signs of the direction" % a,
              where)
    ck.cur = "sweep"
    ix = pos["x"].b
    iy = pos["y"].b
    iz = pos["z"].b if three else ZERO
    nx, ny = n_of["x"], n_of["y"]
    cellt = add(add(mul(mul(nx, ny), iz), mul(nx, iy)), ix)
    ck.ok(eqv(i, cellt), name, "the cell updated is not the cell at the loop position", where)
    ck.ok(eqv(xstr, idx(F("xstr_", "xstr_"), i)), name,
          "the cell update does not use the transport cross section of its own cell", where)
    src = [c for c in s.calls("get_transport")]
    good = False
    if q.op == "idx" and vn.indices(q) and eqv(vn.indices(q)[-1], i):
        b = q.a[0]
        if b.op == "app" and b.a[0].endswith("get_transport"):
            good = eqv(b.a[-1], ba)
        else:
            good = contains(b, F("source_"))
    ck.ok(good, name, "the source of the cell update is not the direction's source in the same cell", where)
    # state passed along
    ab = lambda t: ite(lt(t, ZERO), neg(t), t)
    ck.ok(eqv(fld(ts, "ox"), ab(comp["x"])), name, "x direction cosine passed to the cell update is not |omega_x|", where)
    ck.ok(eqv(fld(ts, "ty"), div(ab(comp["y"]), idx(F("mesh_", "dy_vec_"), iy))), name,
          "y streaming coefficient is not |omega_y| over the row's width", where)
    if three:
        ck.ok(eqv(fld(ts, "tz"), div(ab(comp["z"]), idx(F("mesh_", "dz_vec_"), iz))), name,
              "z streaming coefficient is not |omega_z| over the plane's height", where)
        ck.ok(eqv(fld(ts, "macroplane"), idx(F("macroplanes_"), iz)), name,
              "macroplane passed to the cell update is not that of the plane", where)
        ck.ok(eqv(fld(ts, "oz"), ab(comp["z"])), name, "z direction cosine passed to the cell update is not |omega_z|", where)
    ck.ok(eqv(fld(ts, "iang_2d"), mod(ba, idiv(nd, const(2)))), name,
          "the direction index into the upper half is wrong", where)
    ck.ok(eqv(fld(ts, "iang"), ba), name, "the direction index passed to the cell update is wrong", where)
    # faces
    want = [add(mul(ny, iz), iy), add(mul(nx, iz), ix), add(mul(nx, iy), ix)]
    after = False
    later = []
    for x in s.eff:
        if x is e:
            after = True
        elif after:
            later.append(x)
    for a in range(nf):
        v = A[a]
        ok = v.op == "idx"
        ptr = None
        if ok:
            ptr = v.a[0]
            while ptr.op in ("phi", "map"):
                ptr = ptr.a[1] if ptr.op == "phi" else ptr.a[0]
        # loop carried: a phi of the slot itself
        if v.op == "phi":
            ptr = v.a[1].a[0]
            ok = v.a[1].op == "idx"
            slot = v.a[1].a[-1]
        elif ok:
            slot = v.a[-1]
        if not ck.ok(ok and eqv(slot, want[a]), name,
                     "upwind %s flux is not read from the face slot of the cell's own position" % "xyz"[a], where):
            continue
        while ptr.op in ("phi", "map"):
            ptr = ptr.a[1] if ptr.op == "phi" else ptr.a[0]
        # the pointer must be the face of the outgoing boundary for this direction and axis
        okp = ptr.op == "fld" and ptr.a[1] == "second" and ptr.a[0].op == "app" and \
            ptr.a[0].a[0].endswith("get_face") and eqv(ptr.a[0].a[-2], ba) and eqv(ptr.a[0].a[-1], const(a))
        ck.ok(okp, name, "the %s upwind array is not the boundary face of this direction and axis" % "xyz"[a], where)
        wr = [x for x in later if x.kind == "store" and x.loc.op == "idx" and
              base_ptr(x.loc) is ptr and x.op == "="]
        ck.ok(any(eqv(vn.indices(x.loc)[-1], want[a]) and x.val.op == "app" and
                  x.val.a[0].startswith("out%d:" % a) for x in wr) and
              all(x.val.op == "app" and x.val.a[0].startswith("out%d:" % a) for x in wr), name,
              "the outflow on the %s face is not what is handed to the next cell" % "xyz"[a], where)
        ck.cur = "start"
        before = s.eff[:s.eff.index(e)]
        cp = [x for x in before if x.kind == "call" and x.name.endswith("copy_face") and
              contains(x.args[-1], ptr)]
        ck.ok(any(eqv(x.args[0], group) and eqv(x.args[1], ba) and eqv(x.args[2], const(a)) and
                  x.obj is F("bc_in_") and not x.pc for x in cp), name,
              "incoming boundary values of this group, direction and axis are not loaded before the sweep", where)
        ck.cur = "sweep"
    # scalar flux
    ck.cur = "scalar-flux"
    psi_name = e.name
    acc = [x for x in later if x.kind == "store" and x.op == "+=" and
           any(t.op == "app" and t.a[0] == psi_name for t in subterms(x.val)) and x.loc.op == "idx"]
    ck.ok(len(acc) == 1, name, "the cell flux is added %d times to the scalar flux" % len(acc), where)
    for x in acc:
        psi = [t for t in subterms(x.val) if t.op == "app" and t.a[0] == psi_name][0]
        w = mul(mul(psi, fld(angle, "weight")), const(4 * PI / (8 if three else 4)))
        ck.ok(eqv(x.val, w, exact=False, signed=False), name,
              "contribution to the scalar flux is not psi * weight * 4pi/%d" % (8 if three else 4), x.where())
        ck.ok(eqv(vn.indices(x.loc)[-1], i), name, "the cell flux is added to another cell", x.where())
        ck.ok(x.loops == e.loops and x.pc == e.pc, name, "the cell flux is not added once per cell update", x.where())
        loc = vn.base_loc(x.loc)
        if loc is not F("flux_1g_"):
            red = [y for y in later if y.kind == "store" and root(y.loc) == "flux_1g_" and y.op == "+="]
            ck.ok(len(red) == 1 and not red[0].loops, name,
                  "thread contributions are not added exactly once to the scalar flux", x.where())
            zero = [y for y in s.eff[:s.eff.index(e)] if y.kind == "store" and y.loc is loc and y.op == "="]
            ck.ok(zero and eqv(zero[-1].val, ZERO) and not zero[-1].loops, name,
                  "the thread's contribution does not start from zero", x.where())
        z = [y for y in s.eff[:s.eff.index(e)] if y.kind == "store" and root(y.loc) == "flux_1g_" and y.op == "="]
        ck.ok(z and eqv(z[-1].val, ZERO) and not any(o["dir"] == "parallel" for o in z[-1].omp), name,
              "the scalar flux does not start from zero", x.where())


def root(loc):
    return vn.root_name(loc)


def base_ptr(loc):
    b = loc
    while b.op in ("idx", "phi", "map"):
        b = b.a[1] if b.op == "phi" else b.a[0]
    return b


def check(ck):
    ck.notes.append("exp and the correction factors are uninterpreted functions; arithmetic is exact (no rounding)")
    balance(ck)
    sweeps(ck)
