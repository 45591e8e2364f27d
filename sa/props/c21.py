"""Every hole goes to the shape around it.

Obligations: the numbers that tell outer contours from holes, the edges each contour contributes (those with the
body above them), their order, one step of the sweep from any state (what is put on the sweep line before a hole is
looked up, how it is looked up, whose hole it becomes), and what is done with the answer.  The order on the sweep
line itself is decided by C15."""
from .lib import *
from .c05 import Stepper, sub_range
from .c15 import order3, lex
from .c19 import seq_at, UNIT
from .c20 import IDS, VJOIN, one, round_of
import models
import scev
import seqs

J = "<std::vec::Vec<std::vec::Vec<std::vec::Vec<i_float::int::point::IntPoint>>> as i_overlay::bind::solver::JoinHoles>::"
VJ = VJOIN[:-len("join")]
CI = "ContourIndex"


def run(ctx):
    for nm, fn in (("numbers", numbers), ("edges", edges), ("order", order), ("ties", ties), ("sweep", sweep), ("line", line),
                   ("leftmost", leftmost), ("shapes", shapes), ("vectors", vectors)):
        with ctx.case(nm):
            fn(ctx)
    ctx.floor(60)


def fn_named(ctx, n):
    fs = [f for f in ctx.prog.fns if f["n"] == n]
    if len(fs) != 1:
        raise Bad(f"function {n} not found")
    return fs[0]


def seg_of(ctx, I, v):
    """(contour, first end, second end) of a listed edge"""
    s = get(ctx, I, v, IDS, "v_segment")
    return get(ctx, I, v, IDS, "contour_index"), P2(I, I.expand(get(ctx, I, s, "VSegment", "a"))), P2(I, I.expand(get(ctx, I, s, "VSegment", "b")))


def new_index(ctx, I, kind, i):
    return call(ctx, ctx.prog.method(CI, kind), [i], interp=I).ret


def numbers(ctx):
    """a contour number says which contour it is and whether it is a hole"""
    p = ctx.prog
    I = Interp(p)
    i = ivar("i", "usize")
    for kind, hole in (("new_hole", True), ("new_shape", False)):
        v = new_index(ctx, I, kind, i)
        R = call(ctx, p.method(CI, "is_hole"), [v], interp=I)
        ctx.eq(f"numbers/{kind}/kind", R.ret, V.const(hole), loc=R.loc)
        R = call(ctx, p.method(CI, "index"), [v], interp=I)
        ctx.eq(f"numbers/{kind}/number", R.ret, i, loc=R.loc)


# ------------------------------------------------------------------------------------------ edges
def edges(ctx):
    p = ctx.prog
    fs = [f for f in p.fns if f["m"] == "append_id_segments" and p.bodies.get(f["id"]) is not None]
    kinds = {}
    for f in fs:
        kinds["points" if "IntPoint" in f["n"] else "vectors"] = f
    if set(kinds) != {"points", "vectors"} or len(fs) != 2:
        raise Bad(f"edges are listed by {[f['n'] for f in fs]}")
    for kind, f in kinds.items():
        for cw in (True, False):
            listed(ctx, f"edges/{kind}/{'clockwise' if cw else 'counterclockwise'}", f, kind, cw)


def listed(ctx, key, f, kind, cw):
    """every edge of the contour with the body above it and x range meeting [x_min, x_max] is added once, nothing else is"""
    p = ctx.prog
    I = Interp(p)
    elem = POINT if kind == "points" else ty_of(ctx, "VectorEdge")
    path = mk("v", ("path",), ("slice", elem))
    buf = mk("v", ("listed",), ("slice", ty_of(ctx, IDS)))
    x0, x1 = ivar("x_min"), ivar("x_max")
    idv = I.expand(I.var("id", ty_of(ctx, CI)))
    R = call(ctx, f, [path, buf, idv, x0, x1, V.const(cw)], interp=I)
    loc = R.loc
    n = I.seq_len(path)
    some = V.ge(n, V.num(2))
    forms = scev.closed(I, R.loops)
    if kind == "points":
        at = lambda i: P2(I, I.expand(I.seq_get(path, i)))
        pick = lambda c, a, b: type("P", (), {"x": V.ite(c, a.x, b.x), "y": V.ite(c, a.y, b.y)})
        ends = lambda j, wrap: (at(j), pick(wrap, at(V.ZERO), at(V.add(j, V.ONE))))
    else:
        e = lambda j: I.expand(I.seq_get(path, j))
        ends = lambda j, wrap: (P2(I, get(ctx, I, e(j), "VectorEdge", "a")), P2(I, get(ctx, I, e(j), "VectorEdge", "b")))
    last = V.sub(n, V.ONE)

    def check(k, x, c, j, wrap, care, why=None):
        """the element x, added when c, is edge j; j is the last edge when wrap"""
        s, t = ends(j, wrap)
        a, b = (t, s) if cw else (s, t)
        who, u, w = seg_of(ctx, I, I.expand(x))
        below = V.lt(a.x, b.x)
        need = conj(below, V.lt(x0, b.x), V.le(a.x, x1))
        obs = []
        for nm, g, m in (("a.x", u.x, a.x), ("a.y", u.y, a.y), ("b.x", w.x, b.x), ("b.y", w.y, b.y)):
            obs.append((nm, compare.difference(g, m, conj(care, c), axioms=[(n, "ge")])))
        obs.append(("contour", compare.difference(I.expand(who), idv, conj(care, c))))
        obs.append(("none-missing", compare.implies(conj(care, need), c, [(n, "ge")])))
        obs.append(("body-above", compare.implies(conj(care, c), below, [(n, "ge")])))
        if why is None:
            for nm, d in obs:
                ctx.true(f"{k}/{nm}", d is None, f"an edge is listed otherwise: {d}", loc)
        return all(d is None for _, d in obs)
    # the loop that lists, and what is listed after it
    fam = []
    for l in R.loops:
        for k, (ph, init) in l.phis.items():
            if I.is_seq(ph) and ph.ty[-1] == ty_of(ctx, IDS) and k in l.nexts:
                fam.append((l, k, ph, init))
    if len(fam) != 1:
        raise Bad(f"the edges are listed in {len(fam)} loops", loc)
    l, k, ph, init = fam[0]
    before = []
    for c, x in seqs.leaves(init):
        q = seqs.pushes(x, buf)
        if q is None or len(q) > 1:
            raise Bad(f"the list starts as {V.show(x)[:200]}", loc)
        before += [(c, y) for y in q]
    c_ = forms[l.id]
    if c_.trip is None:
        raise Bad("the loop over the edges has no closed number of rounds", loc)
    S = scev.Subst(I, c_.form)
    rounds = []
    for c, x in seqs.leaves(V.restrict(l.nexts[k], l.cont)):
        q = seqs.pushes(x, ph)
        if q is None or len(q) > 1:
            raise Bad(f"a round makes the list {V.show(x)[:200]}", loc)
        rounds += [(c, y) for y in q]
    if len(rounds) != 1:
        raise Bad(f"edges are listed in {len(rounds)} ways in one round", loc)
    (c, x), = rounds
    K = c_.K
    trip = S_trip = c_.trip
    live = conj(some, V.lt(K, trip))
    c, x = V.restrict(S(c), live), S(x)
    x = I.expand(x)
    at_end = scev.Subst(I, c_.at(trip))
    after = []
    for cc, v in seqs.leaves(R.out[1]):
        q = seqs.pushes(v, ph)
        if q is None or len(q) > 1:
            raise Bad(f"the list becomes {V.show(v)[:200]}", loc)
        after += [(V.restrict(at_end(cc), some), at_end(y)) for y in q]
    extra = before + after
    K1 = V.add(K, V.ONE)
    ways = [  # (edge of round K, whether it is the closing one, number of rounds, closing edge apart)
        (K, V.F, last, True), (V.sub(V.sub(n, V.num(2)), K), V.F, last, True),
        (K, V.eq(K, last), n, False), (V.sub(last, K), V.eq(K, V.ZERO), n, False),
        (V.ite(V.eq(K, V.ZERO), last, V.sub(K, V.ONE)), V.eq(K, V.ZERO), n, False)]
    parts = [("first", scev.Subst(I, {c_.kterm.id: V.ZERO}), V.T), ("later", lambda v: v, V.gt(K, V.ZERO))]
    for j, wrap, num, apart in ways:
        if compare.difference(trip, num, some) is not None or apart != bool(extra):
            continue
        if kind == "vectors" and apart:
            continue
        if all(check("", Z(x), Z(c), Z(j), Z(wrap), Z(conj(live, cc)), why=True) for _, Z, cc in parts):
            break
    else:
        j, wrap, num, apart = next((w for w in ways if compare.difference(trip, w[2], some) is None and w[3] == bool(extra)), ways[2])
        ctx.true(f"{key}/rounds", compare.difference(trip, num, some) is None, f"there are {V.show(trip)[:200]} rounds", loc)
    for nm, Z, cc in parts:
        check(f"{key}/{nm}", Z(x), Z(c), Z(j), Z(wrap), Z(conj(live, cc)))
    if extra:
        ctx.true(f"{key}/closing/once", len(extra) == 1, f"{len(extra)} edges are listed apart", loc)
        for cc, y in extra:
            check(f"{key}/closing", y, cc, last, V.T, some)


# ------------------------------------------------------------------------------------------ order
def by_angle(ctx, I, x, y):
    """order of two listed edges: by first end, then counterclockwise by angle"""
    _, a, b = seg_of(ctx, I, x)
    _, c, d = seg_of(ctx, I, y)
    first = lex(I, [(a.x, c.x), (a.y, c.y)])
    turn = cross3(a, b, d)
    return V.ite(V.eq(first, V.ZERO), order3(I, turn), I.ordering(first)), V.eq(first, V.ZERO)


def order(ctx):
    p = ctx.prog
    I = Interp(p)
    ety = ty_of(ctx, IDS)
    keys = []

    def on_sort(I, f, args, tys, dty, st, line):
        s = seq_at(I, st, args[0])
        keys.append((s, models.cmp_key(I, st, args[-1], ety, "sort_by")))
        return UNIT, V.T, st
    for nm in ("smart_bin_sort_by", "sort_by", "sort_unstable_by"):
        I.hooks[nm] = on_sort
    Q = mk("v", ("edges",), ("slice", ety))
    R = call(ctx, only(ctx, "sort_by_a_then_by_angle"), [Q], interp=I)
    ctx.true("order/sorted", len(keys) == 1 and keys[0][0] is Q, f"the edges are sorted {len(keys)} times", R.loc)
    x, y = I.expand(I.var("#x", ety)), I.expand(I.var("#y", ety))
    want, same = by_angle(ctx, I, x, y)
    # equal first ends: the angle is only asked for then
    merge = tie_subst(ctx, I, x, y)
    for s, k in keys:
        ctx.eq("order/by-first-end", k, want, V.b_not(same), R.loc)
        ctx.eq("order/by-angle", merge(k), merge(want), loc=R.loc)
    # bins
    r = call(ctx, only(ctx, "bin_key", "IdSegment"), [x], interp=I)
    _, a, b = seg_of(ctx, I, x)
    ctx.eq("order/key", r.ret, a.x, loc=r.loc)
    f = only(ctx, "bin_index", "IdSegment")
    lty = p.ty(p.bodies[f["id"]]["locals"][2])[1]
    K = Interp(p)
    r = call(ctx, f, [x, K.var("layout", lty)], interp=K)
    from .c15 import only_term
    t = only_term(r.ret) if r.ret.k == "p" else r.ret
    ok = t is not None and t.k == "app" and t.a[0] == "ret" and "BinLayout" in str(t.a[1])
    ctx.true("order/bin", ok, f"the bin is not the layout's bin of a key: {V.show(r.ret)[:200]}", r.loc)
    if ok:
        ctx.eq("order/bin-of-key", V.as_poly(t.a[3]), a.x, loc=r.loc)


def only(ctx, m, owner=None):
    fs = [f for f in ctx.prog.fns if f["m"] == m and (owner is None or owner in f["n"]) and ctx.prog.bodies.get(f["id"]) is not None]
    if len(fs) != 1:
        raise Bad(f"expected one function {m}, found {[f['n'] for f in fs]}")
    return fs[0]


def tie_subst(ctx, I, x, y):
    """the second edge starts where the first one does"""
    _, a, _ = seg_of(ctx, I, x)
    _, c, _ = seg_of(ctx, I, y)
    return scev.Subst(I, {scev.phi_term(c.x).id: a.x, scev.phi_term(c.y).id: a.y})


def ties(ctx):
    """edges with the same first end are brought in the order of their angles, group by group"""
    p = ctx.prog
    I = Interp(p)
    ety = ty_of(ctx, IDS)

    def on_sort(I, f, args, tys, dty, st, line):
        q, lo, hi = sub_range(args[0], I, st)
        st = st.copy()
        I.event("sorted", (q, lo, hi, models.cmp_key(I, st, args[-1], ety, "sort_by")), line)
        return UNIT, V.T, st
    for nm in ("sort_by", "sort_unstable_by"):
        I.hooks[nm] = on_sort
    Q = mk("v", ("anchors",), ("slice", ety))
    R = call(ctx, only(ctx, "add_sort_by_angle"), [Q], interp=I)
    loc = R.loc
    n = I.seq_len(Q)
    e = one(ctx, R, "sorted")
    q, lo, hi, key = e.data
    x, y = I.expand(I.var("#x", ety)), I.expand(I.var("#y", ety))
    want, same = by_angle(ctx, I, x, y)
    merge = tie_subst(ctx, I, x, y)
    ctx.true("ties/list", q is Q, "something else is sorted", loc)
    ctx.eq("ties/by-angle", merge(key), merge(want), loc=loc)
    outer = [l for l in R.loops if l.parent is None]
    inner = [l for l in R.loops if l.parent is not None]
    if len(outer) != 1 or len(inner) != 1 or inner[0].parent is not outer[0]:
        raise Bad("the groups are not found by one loop in another", loc)
    W, G = outer[0], inner[0]
    so, si = Stepper(I, W), Stepper(I, G)
    if scev.phi_term(lo) is None or scev.phi_term(lo).id not in so.nx or scev.phi_term(hi) is None or scev.phi_term(hi).id not in si.nx:
        raise Bad(f"the group sorted is {V.show(lo)[:80]} .. {V.show(hi)[:80]}", loc)
    a = lambda i: seg_of(ctx, I, I.expand(I.seq_get(Q, i)))[1]
    ax = [(lo, "ge"), (V.sub(V.sub(hi, lo), V.ONE), "ge")]
    ctx.eq("ties/first-group", so.start(lo), V.ZERO, loc=loc)
    ctx.eq("ties/until-end", disj(*[pc for _, pc, _ in W.exits]), V.ge(lo, n), loc=loc, axioms=ax)
    ctx.eq("ties/next-group", V.restrict(so.next(lo, W.cont), W.cont), hi, V.lt(lo, n), loc)
    ctx.eq("ties/group-from", si.start(hi), V.add(lo, V.ONE), loc=loc)
    eq = conj(V.eq(a(hi).x, a(lo).x), V.eq(a(hi).y, a(lo).y))
    got = G.cont
    # remembered first end of the group
    m = {}
    for k, (ph, i) in list(G.phis.items()) + list(W.phis.items()):
        t = scev.phi_term(ph)
        if t is not None and t.ty and t.ty == ("int", "i32"):
            raise Bad("a remembered point changes while a group is found", loc)
    live = V.lt(lo, n)
    ctx.eq("ties/group-while", got, conj(V.lt(hi, n), eq), live, loc, axioms=ax)
    ctx.eq("ties/group-next", si.next(hi, G.cont), V.add(hi, V.ONE), conj(G.cont, live), loc)
    done = conj(live, V.b_or(V.ge(hi, n), V.b_not(eq)))
    w = compare.implies(conj(done, V.gt(V.sub(hi, lo), V.ONE)), e.pc, ax)
    ctx.true("ties/sorted", w is None, f"a group is left as it is when {w}", loc)


# ------------------------------------------------------------------------------------------ the sweep
def sweep(ctx):
    p = ctx.prog
    I = Interp(p)
    ety, cty = ty_of(ctx, IDS), ty_of(ctx, CI)

    def val(I, st, a):
        return I.expand(seq_at(I, st, a))

    def insert(I, f, args, tys, dty, st, line):
        I.event("insert", tuple(val(I, st, a) for a in args[1:]), line)
        return UNIT, V.T, st

    def less(I, f, args, tys, dty, st, line):
        I.event("less", tuple(val(I, st, a) for a in args[1:]), line)
        return I.expand(mk("app", ("found", val(I, st, args[3])), dty)), V.T, st
    num = lambda c: V.pvar(mk("app", ("number", I.expand(c)), ("int", "usize")))
    hole = lambda c: V.wrap(mk("app", ("hole", I.expand(c)), ("bool",)))
    I.hooks.update({"insert": insert, "first_less": less,
                    "ContourIndex::index": lambda I, f, args, tys, dty, st, line: (num(val(I, st, args[0])), V.T, st),
                    "ContourIndex::is_hole": lambda I, f, args, tys, dty, st, line: (hole(val(I, st, args[0])), V.T, st)})
    A, Sg = mk("v", ("holes",), ("slice", ety)), mk("v", ("edges",), ("slice", ety))
    m = ivar("shape_count", "usize")
    R = call(ctx, p.method("ShapeBinder", "private_solve"), [None, m, A, Sg], interp=I)
    loc = R.loc
    W = [l for l in R.loops if l.parent is None]
    if len(W) != 1:
        raise Bad(f"expected one loop over the holes, found {len(W)}", loc)
    W, = W
    N = [l for l in R.loops if l.parent is W]
    if len(N) != 1:
        raise Bad(f"expected one loop that fills the sweep line, found {len(N)}", loc)
    N, = N
    n, na = I.seq_len(Sg), I.seq_len(A)
    forms = scev.closed(I, R.loops)
    cW = forms[W.id]
    if cW.trip is None:
        raise Bad("the loop over the holes has no closed number of rounds", loc)
    ctx.eq("sweep/every-hole", cW.trip, na, loc=loc)
    S = scev.Subst(I, cW.form)
    hk = I.expand(I.seq_get(A, cW.K))
    who, pa, pb = seg_of(ctx, I, hk)
    hs = I.expand(get(ctx, I, hk, IDS, "v_segment"))
    # filling the line
    ins, les = one(ctx, R, "insert"), one(ctx, R, "less")
    si = Stepper(I, N)
    pos = [V.pvar(V.node(t)) for t in si.nx if V.node(t).ty == ("int", "usize")]
    if len(pos) != 1:
        raise Bad("the edges are not taken in order by one position", loc)
    j, = pos
    so = Stepper(I, W)
    j0 = si.start(j)
    ctx.true("sweep/goes-on", scev.phi_term(j0) is not None and scev.phi_term(j0).id in so.nx, f"every hole starts with the edges from {V.show(j0)[:100]}", loc)
    ctx.eq("sweep/from-first", so.start(j0), V.ZERO, loc=loc)
    ctx.eq("sweep/stays", so.next(j0, W.cont), j, loc=loc)
    sj = I.expand(I.seq_get(Sg, j))
    sid, sa, sb = seg_of(ctx, I, sj)
    first = lex(I, [(sa.x, pa.x), (sa.y, pa.y)])
    same = V.eq(first, V.ZERO)
    tie = scev.Subst(I, {scev.phi_term(only_t(sa.x)).id: pa.x, scev.phi_term(only_t(sa.y)).id: pa.y})
    turn = cross3(pa, sb, pb)         # positive: the hole's edge is above
    live = V.lt(j, n)
    cont = S(N.cont)
    ctx.eq("sweep/while-left", cont, V.F, V.b_not(live), loc)
    ctx.eq("sweep/while-before", cont, V.lt(first, V.ZERO), conj(live, V.b_not(same)), loc)
    ctx.eq("sweep/while-below", tie(cont), V.ge(turn, V.ZERO), live, loc)
    ctx.eq("sweep/one-by-one", S(si.next(j, N.cont)), V.add(j, V.ONE), cont, loc)
    ctx.eq("sweep/put", S(ins.pc), V.gt(sb.x, pa.x), cont, loc)
    for nm, g, w in (("edge", ins.data[0], I.expand(get(ctx, I, sj, IDS, "v_segment"))), ("contour", ins.data[1], I.expand(sid)), ("time", ins.data[2], pa.x)):
        ctx.eq(f"sweep/put/{nm}", S(g), w, loc=loc)
    # the lookup
    g = [S(x) for x in les.data]
    stop = disj(*[S(pc) for _, pc, _ in N.exits])
    ctx.eq("sweep/asked/always", S(les.pc), conj(V.lt(cW.K, na), stop), V.lt(cW.K, na), loc=loc)
    ctx.eq("sweep/asked/time", g[0], pa.x, loc=loc)
    ctx.eq("sweep/asked/edge", g[2], hs, loc=loc)
    F = I.expand(mk("app", ("found", les.data[2]), cty))
    seqs_ = {}
    for k, (ph, i) in W.phis.items():
        if I.is_seq(ph) and k in W.nexts:
            seqs_[k] = (ph, i)
    out = R.ret
    par, cnt = get(ctx, I, out, "BindSolution", "parent_for_child"), get(ctx, I, out, "BindSolution", "children_count_for_parent")
    kp = [k for k, (ph, i) in seqs_.items() if ph is par]
    kc = [k for k, (ph, i) in seqs_.items() if ph is cnt]
    if len(kp) != 1 or len(kc) != 1 or kp == kc:
        raise Bad("the answer is not what the loop over the holes makes", loc)
    ctx.eq("sweep/answers/size", I.seq_len(W.phis[kp[0]][1]), na, loc=loc)
    c0 = W.phis[kc[0]][1]
    ctx.eq("sweep/counts/size", I.seq_len(c0), m, loc=loc)
    ctx.eq("sweep/counts/zero", I.seq_get(c0, ivar("#k", "usize")), V.ZERO, conj(V.ge(ivar("#k", "usize"), V.ZERO), V.lt(ivar("#k", "usize"), m)), loc)
    me = num(get(ctx, I, I.expand(I.seq_get(A, V.pvar(scev.phi_term(at_pos(W, cW, I))))), IDS, "contour_index"))
    parent = V.ite(hole(F), I.seq_get(par, num(F)), num(F))
    for c, l in seqs.leaves(round_of(W, kp[0])):
        if compare.possible(conj(c, W.cont)) is None:
            continue
        ok = l.k == "app" and l.a[0] == "store" and l.a[1] is par and l.a[2] is me
        if ctx.true("sweep/answer/of-this-hole", ok, f"the answers become {V.show(l)[:300]}", loc):
            ctx.eq("sweep/answer", l.a[3], parent, conj(c, W.cont), loc)
    for c, l in seqs.leaves(round_of(W, kc[0])):
        c = conj(c, W.cont)
        if compare.possible(c) is None:
            continue
        ok = l.k == "app" and l.a[0] == "store" and l.a[1] is cnt
        if ctx.true("sweep/count/one", ok, f"the counts become {V.show(l)[:300]}", loc):
            for c2, at in seqs.leaves(V.restrict(parent, c)):
                cc = conj(c, c2)
                if compare.possible(cc) is None:
                    continue
                ctx.eq("sweep/count/of-parent", l.a[2], at, cc, loc)
                ctx.eq("sweep/count/plus-one", l.a[3], V.add(I.seq_get(cnt, l.a[2]), V.ONE), cc, loc)


def only_t(v):
    if scev.phi_term(v) is None:
        raise Bad(f"not a plain coordinate: {V.show(v)[:100]}")
    return v


def at_pos(W, c, I):
    """the loop variable that is the round number"""
    for k, (ph, i) in W.phis.items():
        t = scev.phi_term(ph)
        if t is not None and t.id in c.form and c.form[t.id] is c.K:
            return ph
    raise Bad("the holes are not taken one by one")


def line(ctx):
    """both kinds of sweep lines get the same work"""
    p = ctx.prog
    I = Interp(p)

    def solve(I, f, args, tys, dty, st, line):
        I.event("solve", tuple(args[1:]), line)
        return I.expand(mk("app", ("solved",) + tuple(args[1:]), dty)), V.T, st
    I.hooks["private_solve"] = solve
    ety = ty_of(ctx, IDS)
    A, Sg, m = mk("v", ("holes",), ("slice", ety)), mk("v", ("edges",), ("slice", ety)), ivar("shape_count", "usize")
    R = call(ctx, p.method("ShapeBinder", "bind"), [m, A, Sg], interp=I)
    es = [e for e in R.events if e.kind == "solve"]
    want = I.expand(mk("app", ("solved", m, A, Sg), ty_of(ctx, "BindSolution")))
    ctx.true("line/some", bool(es), "nothing is solved", R.loc)
    for e in es:
        ctx.true("line/all-edges", e.data[1] is A and e.data[2] is Sg, "other holes or edges are handed on", R.loc)
        ctx.eq("line/shapes", e.data[0], m, loc=R.loc)
    for c, l in seqs.leaves(I.field(R.ret, 0)):
        ctx.true("line/answer", l is I.field(want, 0) or compare.possible(c) is None, f"the answer is {V.show(l)[:200]}", R.loc)
    ctx.true("line/answers", I.expand(R.ret) is want, f"the answer is {V.show(R.ret)[:200]}", R.loc)


def leftmost(ctx):
    """the lower of the two edges at the least point"""
    p = ctx.prog
    I = Interp(p)
    path = mk("v", ("path",), ("slice", POINT))
    R = call(ctx, only(ctx, "left_bottom_segment"), [path], interp=I)
    loc = R.loc
    n = I.seq_len(path)
    at = lambda i: P2(I, I.expand(I.seq_get(path, i)))
    W = [l for l in R.loops]
    if len(W) != 1:
        raise Bad(f"expected one loop over the points, found {len(W)}", loc)
    W, = W
    c = scev.closed(I, R.loops)[W.id]
    if c.trip is None:
        raise Bad("the loop over the points has no closed number of rounds", loc)
    st = Stepper(I, W)
    some = V.ge(n, V.ONE)
    ix = [V.pvar(V.node(t)) for t in st.nx if V.node(t).ty == ("int", "usize") and t not in c.form]
    if len(ix) != 1:
        raise Bad("the place of the least point is not kept", loc)
    b, = ix
    ctx.eq("leftmost/from", st.start(b), V.ZERO, loc=loc)
    mem = {}
    for t in st.nx:
        v = V.node(t)
        if v.ty != ("int", "i32"):
            continue
        v = V.pvar(v)
        for axis in "xy":
            if compare.difference(st.start(v), getattr(at(V.ZERO), axis), some) is None:
                mem[t] = (axis, v)
    known = scev.Subst(I, {t: getattr(at(b), ax) for t, (ax, v) in mem.items()})
    fold = scev.Subst(I, c.form)
    f2 = lambda v: known(fold(known(v)))
    # which point a round looks at: all but the first, or all
    for off, num in ((V.ONE, V.sub(n, V.ONE)), (V.ZERO, n)):
        if compare.difference(c.trip, num, some) is None:
            break
    else:
        raise Bad(f"there are {V.show(c.trip)[:200]} rounds", loc)
    i = V.add(c.K, off)
    live = conj(some, V.lt(c.K, c.trip))
    q, m = at(i), at(b)
    less = disj(V.lt(q.x, m.x), conj(V.eq(q.x, m.x), V.lt(q.y, m.y)))
    eq = conj(V.eq(q.x, m.x), V.eq(q.y, m.y))
    nb = V.restrict(f2(st.next(b, W.cont)), live)
    ctx.eq("leftmost/least", nb, V.ite(less, i, b), conj(live, V.b_not(eq)), loc)
    for t, (ax, v) in mem.items():
        got = V.restrict(f2(st.next(v, W.cont)), live)
        ctx.eq(f"leftmost/kept.{ax}", got, V.ite(less, getattr(q, ax), getattr(m, ax)), conj(live, V.b_not(eq)), loc)
    # the answer
    seg = R.ret
    a, o = P2(I, I.expand(get(ctx, I, seg, "VSegment", "a"))), P2(I, I.expand(get(ctx, I, seg, "VSegment", "b")))
    inside = conj(some, V.lt(b, n), V.ge(n, V.num(3)))
    ax = [(b, "ge"), (V.sub(V.sub(n, b), V.ONE), "ge"), (V.sub(n, V.num(3)), "ge")]
    for lo, hi, care in ((V.sub(n, V.ONE), V.ONE, V.eq(b, V.ZERO)), (V.sub(n, V.num(2)), V.ZERO, V.eq(b, V.sub(n, V.ONE))),
                         (V.sub(b, V.ONE), V.add(b, V.ONE), conj(V.gt(b, V.ZERO), V.lt(b, V.sub(n, V.ONE))))):
        key = "leftmost/" + ("first" if hi is V.ONE else "last" if hi is V.ZERO else "between")
        place = scev.Subst(I, {scev.phi_term(b).id: V.ZERO if hi is V.ONE else V.sub(n, V.ONE) if hi is V.ZERO else b})

        def fix(v):
            """the value in this case, with positions modulo the number of points worked out"""
            v, sub = place(known(v)), {}
            for t in terms_of(v):
                if t.k == "app" and t.a[0] in ("rem", "idiv") and t.a[2].id == n.id:
                    for q in (0, 1):
                        d = V.sub(t.a[1], V.mul(V.num(q), n))
                        if compare.implies(conj(inside, care), conj(V.ge(d, V.ZERO), V.lt(d, n)), axioms=ax) is None:
                            sub[t.id] = V.num(q) if t.a[0] == "idiv" else d
            return scev.Subst(I, sub)(v)
        lo, hi = place(lo), place(hi)
        p0, p1, m = at(hi), at(lo), at(place(b))
        here = place(conj(inside, care))
        low = V.gt(cross3(m, p0, p1), V.ZERO)
        for axis in "xy":
            ctx.eq(f"{key}/a.{axis}", fix(getattr(a, axis)), getattr(m, axis), here, loc, axioms=ax)
            ctx.eq(f"{key}/b.{axis}", fix(getattr(o, axis)), V.ite(low, getattr(p0, axis), getattr(p1, axis)), conj(here, V.ne(cross3(m, p0, p1), V.ZERO)), loc, axioms=ax)


# ------------------------------------------------------------------------------------------ joining
def hook_join(ctx, I, scan=None):
    ety = ty_of(ctx, IDS)

    def app(I, f, args, tys, dty, st, line):
        st = st.copy()
        b = seq_at(I, st, args[1])
        I.event("list", (seq_at(I, st, args[0]), I.expand(args[2]), args[3], args[4], args[5]), line)
        I.write(st, args[1], mk("app", ("listed", b), b.ty))
        return UNIT, V.T, st

    def sort(nm):
        def h(I, f, args, tys, dty, st, line):
            st = st.copy()
            s = seq_at(I, st, args[0])
            I.write(st, args[0], mk("app", (nm, s), s.ty))
            return UNIT, V.T, st
        return h

    def bind(I, f, args, tys, dty, st, line):
        I.event("bind", tuple(args), line)
        return I.expand(mk("v", ("solution",), dty)), V.T, st

    def left(I, f, args, tys, dty, st, line):
        return I.expand(mk("app", ("leftmost", seq_at(I, st, args[0])), dty)), V.T, st
    I.hooks.update({"append_id_segments": app, "sort_by_a_then_by_angle": sort("ordered"), "add_sort_by_angle": sort("angles"), "bind": bind, "left_bottom_segment": left})
    if scan:
        def sc(I, f, args, tys, dty, st, line):
            I.event("scan", tuple(seq_at(I, st, a) for a in args), line)
            return UNIT, V.T, st
        I.hooks[scan] = sc


def shapes(ctx):
    p = ctx.prog
    sty = ("slice", ("slice", ("slice", POINT)))
    for nm in ("join_unsorted_holes", "join_sorted_holes"):
        I = Interp(p)
        hook_join(ctx, I, J + "scan_join")
        joined(ctx, f"shapes/{nm}", I, fn_named(ctx, J + nm), nm == "join_unsorted_holes")
    I = Interp(p)
    hook_join(ctx, I)
    scanned(ctx, "shapes/scan", I, fn_named(ctx, J + "scan_join"), None)


def vectors(ctx):
    p = ctx.prog
    I = Interp(p)
    hook_join(ctx, I, VJ + "scan_join")
    joined(ctx, "vectors/join", I, fn_named(ctx, VJ + "join"), None)
    I = Interp(p)
    hook_join(ctx, I)
    scanned(ctx, "vectors/scan", I, fn_named(ctx, VJ + "scan_join"), True)


def inputs(ctx, I, f):
    """the parameters by type: shapes, solver, holes, anchors, direction"""
    p = ctx.prog
    b = p.bodies[f["id"]]
    return [p.ty(b["locals"][i]) for i in range(1, b["argc"] + 1)]


def joined(ctx, key, I, f, unsorted):
    """nothing without shapes or holes; a single shape gets all holes; else the sweep decides"""
    R = call(ctx, f, interp=I)
    loc = R.loc
    self_ = base_of(R, I, 0)
    holes = seq_at(I, R.st, R.args[2])
    ns, nh = I.seq_len(self_), I.seq_len(holes)
    some = conj(V.gt(ns, V.ZERO), V.gt(nh, V.ZERO))
    many = conj(some, V.gt(ns, V.ONE))
    out = R.out[0]
    for c, l in seqs.leaves(out):
        if l is self_:
            w = compare.implies(c, V.b_or(V.b_not(some), V.gt(ns, V.ONE)))
            ctx.true(f"{key}/unchanged-when-nothing", w is None, f"the holes are lost when {w}", loc)
            continue
        ok = l.k == "app" and l.a[0] == "store" and l.a[1] is self_ and V.pconst(l.a[2]) == 0 and l.a[3].k == "app" and l.a[3].a[0] == "cat" and l.a[3].a[2] is holes
        ctx.true(f"{key}/single", ok, f"the shapes become {V.show(l)[:200]}", loc)
        if ok:
            ctx.true(f"{key}/single/kept", l.a[3].a[1] is I.seq_get(self_, V.ZERO), f"the shape becomes {V.show(l.a[3])[:200]}", loc)
        w = compare.implies(conj(c, V.gt(nh, V.ZERO)), V.eq(ns, V.ONE))
        ctx.true(f"{key}/single/only", w is None, f"all holes go to the first shape when {w}", loc)
    e = one(ctx, R, "scan")
    pc, forms = e.pc, scev.closed(I, R.loops)
    for l in R.loops:
        if l not in e.loops and forms[l.id].trip is not None:
            pc = scev.Subst(I, forms[l.id].at(forms[l.id].trip))(pc)
    w = compare.implies(many, pc)
    ctx.true(f"{key}/sweep/always", w is None, f"no sweep when {w}", loc)
    ctx.true(f"{key}/sweep/shapes", e.data[0] is self_, "the sweep is over other shapes", loc)
    ctx.true(f"{key}/sweep/holes", e.data[2] is holes, "the sweep is over other holes", loc)
    ctx.eq(f"{key}/sweep/turn", e.data[-1], bvar("clockwise"), loc=loc)
    if unsorted is None:
        return
    a = e.data[3]
    if not unsorted:
        given = seq_at(I, R.st, R.args[3])
        ok = a.k == "app" and a.a[0] in ("angles", "ordered") and a.a[1].k == "v" and a.a[1].ty == a.ty
        ctx.true(f"{key}/anchors", ok, f"the anchors are {V.show(a)[:200]}", loc)
        return
    ok = a.k == "app" and a.a[0] == "ordered"
    ctx.true(f"{key}/anchors/ordered", ok, f"the anchors are {V.show(a)[:200]}", loc)
    if ok:
        anchors_of(ctx, key, I, R, a.a[1], holes, lambda h: I.expand(mk("app", ("leftmost", h), ty_of(ctx, "VSegment"))), conj(many))


def base_of(R, I, i):
    """the value a reference parameter had at the start"""
    ty = None
    for c, l in seqs.leaves(R.out[i]):
        x = l
        while x.k == "app" and x.a[0] == "store":
            x = x.a[1]
        for lp in R.loops:
            for k, (ph, init) in lp.phis.items():
                if ph is x:
                    x = init
        while x.k == "app" and x.a[0] == "store":
            x = x.a[1]
        return x


def anchors_of(ctx, key, I, R, seq, holes, edge, care):
    """one anchor per hole, with the number of the hole"""
    B = seqs.built(I, scev.closed(I, R.loops), seq)
    ctx.eq(f"{key}/anchors/one-each", B.trip, I.seq_len(holes), care, loc=R.loc)
    ctx.true(f"{key}/anchors/one", len(B.items) == 1, f"{len(B.items)} anchors per hole", R.loc)
    live = V.lt(B.K, I.seq_len(holes))
    for c, v in B.items:
        w = compare.implies(conj(care, live), c)
        ctx.true(f"{key}/anchors/always", w is None, f"no anchor when {w}", R.loc)
        who, a, b = seg_of(ctx, I, I.expand(v))
        ctx.eq(f"{key}/anchors/number", I.expand(who), I.expand(new_index(ctx, I, "new_hole", B.K)), conj(live, care), loc=R.loc)
        want = edge(I.seq_get(holes, B.K))
        wc = V.T
        if isinstance(want, tuple):
            want, wc = want
        u, w = P2(I, I.expand(get(ctx, I, want, "VSegment", "a"))), P2(I, I.expand(get(ctx, I, want, "VSegment", "b")))
        for nm, g, m in (("a.x", a.x, u.x), ("a.y", a.y, u.y), ("b.x", b.x, w.x), ("b.y", b.y, w.y)):
            ctx.eq(f"{key}/anchors/{nm}", g, m, conj(live, wc), R.loc)


def scanned(ctx, key, I, f, vec):
    p = ctx.prog
    R = call(ctx, f, interp=I)
    loc = R.loc
    forms = scev.closed(I, R.loops)
    self_ = base_of(R, I, 0)
    holes = seq_at(I, R.st, R.args[2])
    b = one(ctx, R, "bind")
    count, H, Sg = b.data
    ctx.eq(f"{key}/bind/shapes", count, I.seq_len(self_), loc=loc)
    if vec:
        ok = H.k == "app" and H.a[0] in ("angles", "ordered")
        ctx.true(f"{key}/anchors/ordered", ok, f"the anchors are {V.show(H)[:200]}", loc)
        if ok:
            def edge(h):
                v = I.expand(I.seq_get(h, V.ONE))
                s, t = get(ctx, I, v, "VectorEdge", "a"), get(ctx, I, v, "VectorEdge", "b")
                a, c = P2(I, s), P2(I, t)
                return mkstruct(ctx, "VSegment", a=s, b=t), V.b_or(V.lt(a.x, c.x), V.b_and(V.eq(a.x, c.x), V.lt(a.y, c.y)))
            anchors_of(ctx, key, I, R, H.a[1], holes, edge, V.T)
        Hs = [H, H.a[1]] if ok else [H]
    else:
        ctx.true(f"{key}/anchors/given", H.k == "v" and H.ty == ("slice", ty_of(ctx, IDS)), f"the anchors are {V.show(H)[:200]}", loc)
        Hs = [H]
    # the edges
    ctx.true(f"{key}/edges/ordered", Sg.k == "app" and Sg.a[0] == "ordered", f"the edges are {V.show(Sg)[:200]}", loc)
    if Sg.k != "app":
        return
    x, seen = Sg.a[1], []
    while True:
        hit = [(l, k, ph, i) for l in R.loops for k, (ph, i) in l.phis.items() if ph is x]
        if not hit:
            break
        l, k, ph, i = hit[0]
        for c, y in seqs.leaves(round_of(l, k)):
            if compare.possible(conj(c, l.cont)) is None:
                continue
            ctx.true(f"{key}/edges/added", y.k == "app" and y.a[0] == "listed" and y.a[1] is ph, f"a round makes the edges {V.show(y)[:200]}", loc)
        seen.append(l.id)
        x = i
    lens = I.seq_len(x)
    es = [e for e in R.events if e.kind == "list"]
    if not seen:
        # the buffer is only written through the hook
        raise Bad(f"the edges are {V.show(Sg)[:200]}", loc)
    ctx.eq(f"{key}/edges/fresh", lens, V.ZERO, loc=loc)
    ctx.true(f"{key}/edges/all-listed", sorted(seen) == sorted(e.loops[0].id for e in es if e.loops) and all(len(e.loops) == 1 for e in es), "edges are listed elsewhere", loc)
    got = {}
    for e in es:
        c = forms[e.loops[0].id]
        S = scev.Subst(I, c.form)
        path = S(e.data[0])
        for nm, src, of in (("shape", self_, lambda k: I.seq_get(I.seq_get(self_, k), V.ZERO)), ("hole", holes, lambda k: I.seq_get(holes, k))):
            if path is of(c.K):
                got[nm] = e
                ctx.true(f"{key}/{nm}/counted", c.trip is not None, "no closed number of rounds", loc)
                ctx.eq(f"{key}/{nm}/every", c.trip, I.seq_len(src), loc=loc)
                w = compare.implies(V.lt(c.K, I.seq_len(src)), S(e.pc))
                ctx.true(f"{key}/{nm}/always", w is None, f"no edges when {w}", loc)
                ctx.eq(f"{key}/{nm}/number", I.expand(S(e.data[1])), I.expand(new_index(ctx, I, "new_" + nm, c.K)), loc=loc)
                xa = lambda h, i: seg_of(ctx, I, I.expand(I.seq_get(h, i)))[1].x
                for k, (g, i) in {"from": (e.data[2], lambda h: V.ZERO), "to": (e.data[3], lambda h: V.sub(I.seq_len(h), V.ONE))}.items():
                    ok = any(compare.difference(g, xa(h, i(h2))) is None for h in Hs for h2 in Hs)
                    ctx.true(f"{key}/{nm}/{k}", ok, f"the edges are listed {k} {V.show(g)[:200]}", loc)
                ctx.eq(f"{key}/{nm}/turn", e.data[4], bvar("clockwise"), loc=loc)
    ctx.true(f"{key}/both-listed", set(got) == {"shape", "hole"}, f"edges are listed of {sorted(got)} only", loc)
    # what becomes of the holes
    sol = I.expand(mk("v", ("solution",), ty_of(ctx, "BindSolution")))
    par = get(ctx, I, sol, "BindSolution", "parent_for_child")
    for c, l in seqs.leaves(R.out[0]):
        hit = [(lp, k, i) for lp in R.loops for k, (ph, i) in lp.phis.items() if ph is l]
        if not hit:
            ctx.true(f"{key}/given", False, f"the shapes become {V.show(l)[:200]}", loc)
            continue
        lp, k, i = hit[0]
        cf = forms[lp.id]
        ctx.true(f"{key}/given/all-shapes", i is self_, f"the shapes start as {V.show(i)[:200]}", loc)
        ctx.true(f"{key}/given/counted", cf.trip is not None, "no closed number of rounds", loc)
        ctx.eq(f"{key}/given/every", cf.trip, I.seq_len(holes), loc=loc, axioms=[(V.sub(I.seq_len(par), I.seq_len(holes)), "eq")])
        S = scev.Subst(I, cf.form)
        for c2, y in seqs.leaves(round_of(lp, k)):
            if compare.possible(conj(c2, lp.cont)) is None:
                continue
            y = S(y)
            at = I.seq_get(par, cf.K)
            ok = y.k == "app" and y.a[0] == "store" and y.a[1] is l and y.a[2] is at and y.a[3].k == "app" and y.a[3].a[0] == "push" and y.a[3].a[1] is I.seq_get(l, at) and y.a[3].a[2] is I.seq_get(holes, cf.K)
            ctx.true(f"{key}/given/to-parent", ok, f"a round makes the shapes {V.show(y)[:300]}", loc)
