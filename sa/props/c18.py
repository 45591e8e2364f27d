"""The sweep that hands winding counts from edge to edge.

Obligations over one round of the sweep (loop invariants on the interpreted MIR): the edges of a point are
gathered completely, ordered by their angle about it, the count below the point is asked of the live edges
with the exact below-relation before any edge of the point is added, counts are passed on from edge to edge,
every edge gets its own code, and every edge that is not vertical is kept with the count above it."""
from .lib import *
from .c05 import Stepper, local, under
from .c15 import order3
import models
import scev
import seqs

LEVEL = "other"
UNIT = mk("struct", ("()",), ("tuple", ()))


def run(ctx):
    for nm, fn in (("sweep", sweep), ("lists", lists)):
        with ctx.case(nm):
            fn(ctx)
    ctx.floor(15)


def lists(ctx):
    """both live-edge lists run the same sweep over the same edges"""
    f = local(ctx, "fill", "FillSolver")
    I = Interp(ctx.prog, hooks={})
    seen = []

    def solve(I, f, args, tys, dty, st, line):
        v = args[0]
        while v.k == "ref":
            v = I.read(st, v)
        seen.append((f, v))
        s = args[1]
        while s.k == "ref":
            s = I.read(st, s)
        return mk("app", ("swept", s), dty), V.T, st
    I.hooks["FillSolver::solve"] = solve
    S = mk("v", ("segments",), ("slice", ty_of(ctx, "Segment", ("param", "C"))))
    R = call(ctx, f, [None, S], interp=I)
    for _, l in seqs.leaves(R.ret):
        ctx.true("lists/swept", l.k == "app" and l.a[0] == "swept" and l.a[1] is S, f"the result is {V.show(l)[:200]}", R.loc)
    for f_, v in seen:
        ok = v.k == "app" and v.a[0] == "ret" and str(v.a[1]).split("::")[-1] == "new" and "i_tree" in str(v.a[1])
        ctx.true("lists/empty", ok, f"the sweep starts with {V.show(v)[:200]}, expected a new list", R.loc)
    kinds = {tuple(str(I.p.ty_str(I.p.ty(a))) for a in ((f_["inst"] or f_)["a"] or f_["a"])) for f_, *_ in seen}
    ctx.true("lists/kinds", len(kinds) >= 1, "no sweep at all", R.loc)


def sweep(ctx):
    p = ctx.prog
    f = local(ctx, "solve", "FillSolver")
    cty = ("param", "C")
    sty = ty_of(ctx, "Segment", cty)
    vty, ety = ty_of(ctx, "VSegment"), ty_of(ctx, "End")
    I = Interp(p, hooks={})
    probe = I.expand(I.var("live", vty))
    order = []

    def new(I, f, args, tys, dty, st, line):
        return mk("app", ("count", V.as_poly(args[0]), V.as_poly(args[1])), dty), V.T, st

    def below(I, f, args, tys, dty, st, line):
        st = st.copy()
        S = I.read(st, args[0])
        st["$live"] = probe
        r = models.call_fn(I, args[3], [probe if by_value(I, args[3]) else ref_to(I, st, probe)], ("adt", "core::cmp::Ordering", ()), st)
        if r is None:
            raise Bad("the relation that finds the edge below is not understood", I.line if hasattr(I, "line") else "")
        I.event("below", (S, args[1], args[2], r[0]), line)
        return mk("app", ("below", S, V.as_poly(args[1])), dty), V.T, st

    def insert(I, f, args, tys, dty, st, line):
        st = st.copy()
        S = I.read(st, args[0])
        I.event("insert", (S, I.expand(args[1]), args[2], args[3]), line)
        I.write(st, args[0], mk("app", ("with", S, I.expand(args[1]), args[2], V.as_poly(args[3])), S.ty))
        return UNIT, V.T, st

    def add(I, f, args, tys, dty, st, line):
        return mk("struct", (dty, mk("app", ("over", args[0], args[1]), cty), V.pvar(mk("app", ("code", args[0], args[1]), ("int", "u8")))), dty), V.T, st
    I.hooks.update({"WindingCount::new": new, "first_less_or_equal_by": below, "KeyExpCollection::insert": insert, "add_and_fill": add})

    def on_sort(I, f, args, tys, dty, st, line):
        st = st.copy()
        s = I.read(st, args[0])
        k = models.cmp_key(I, st, args[1], ety, "sort_by")
        I.event("sorted", (s, k), line)
        I.write(st, args[0], mk("app", ("ordered", s), s.ty))
        return UNIT, V.T, st
    for nm in ("sort_by", "sort_unstable_by"):
        I.hooks[nm] = on_sort
    segs = mk("v", ("segments",), ("slice", sty))
    scan = mk("v", ("scan",), ("param", "S"))
    R = call(ctx, f, [scan, segs], interp=I)
    loc = R.loc
    n = I.seq_len(segs)
    xs = lambda i, e: I.expand(I.field(get(ctx, I, I.seq_get(segs, i), "Segment", "x_segment"), e))
    a = lambda i: P2(I, xs(i, 0))
    b = lambda i: P2(I, xs(i, 1))
    cnt = lambda i: get(ctx, I, I.seq_get(segs, i), "Segment", "count")
    same_a = lambda i, j: conj(V.eq(a(i).x, a(j).x), V.eq(a(i).y, a(j).y))
    top = [l for l in R.loops if l.parent is None]
    if len(top) != 1:
        raise Bad(f"expected one sweep over the edges, found {len(top)} loops", loc)
    lp = top[0]
    st = Stepper(I, lp)
    ints = [(t, V.pvar(V.node(t))) for t in st.nx if V.node(t).ty and V.node(t).ty[0] == "int" and V.pconst(st.init[t]) == 0]
    ints = [(t, v) for t, v in ints if compare.implies(lp.cont, V.lt(v, n)) is None]
    if len(ints) != 1:
        raise Bad("the first edge of a point is not recognised", loc)
    lo = ints[0][1]
    live = V.lt(lo, n)
    inner = [l for l in R.loops if l.parent is lp]
    # the result: one code per edge
    res = [(k, ph, i) for k, (ph, i) in lp.phis.items() if ph is R.ret]
    if len(res) != 1:
        raise Bad(f"the result is {V.show(R.ret)[:150]}, expected the codes filled in by the sweep", loc)
    rkey, result, r0 = res[0]
    ctx.eq("result/size", I.seq_len(r0), n, loc=loc)
    # gathering the edges that start at a point
    gather = None
    for l in inner:
        for key, (ph, init) in l.phis.items():
            if ph.k != "p" or key not in l.nexts:
                continue
            h0 = [q for q in (V.add(lo, V.ONE), lo) if compare.difference(init, q, live) is None]
            if not h0 or compare.difference(V.restrict(l.nexts[key], l.cont), V.add(ph, V.ONE), l.cont) is not None:
                continue
            ax = [(V.sub(ph, h0[0]), "ge"), (lo, "ge")]
            more = conj(V.lt(ph, n), same_a(ph, lo))
            if compare.difference(l.cont, more, conj(live, V.ge(ph, h0[0]), V.gt(ph, lo)), axioms=ax) is None:
                gather = (l, ph, h0[0])
    if gather is None:
        raise Bad("the edges that start at one point are not gathered up to the first one that starts elsewhere", loc)
    gl, hi, h0 = gather
    hi_ax = [(V.sub(hi, V.add(lo, V.ONE)), "ge"), (lo, "ge"), (V.sub(n, hi), "ge")]
    ctx.eq("gather/next-point", st.next(lo), hi, live, loc, axioms=hi_ax)
    # what is gathered: in the same loop, or in one that runs over what was found
    qs = [(l, k, ph, i) for l in inner for k, (ph, i) in l.phis.items() if I.is_seq(ph) and k in l.nexts and ph.ty and ph.ty[-1] == ety]
    qs = [q for q in qs if any(seqs.pushes(x, q[2]) for _, x in seqs.leaves(V.restrict(q[0].nexts[q[1]], q[0].cont)))]
    if len(qs) != 1:
        raise Bad("the gathered edges are not one list", loc)
    ql, k, Q, q0 = qs[0]
    fi, fp = field_ix(ctx, "End", "index"), field_ix(ctx, "End", "point")
    forms = scev.closed(I, R.loops)
    qc = forms[ql.id]
    at = lambda v: v
    len0 = I.seq_len(q0)
    which, inq, many_ = hi, ql.cont, hi_ax
    if ql is not gl:
        at = scev.Subst(I, qc.form)
        which, inq, many_ = V.add(V.add(lo, len0), qc.K), conj(live, V.lt(qc.K, qc.trip) if qc.trip is not None else V.T), hi_ax + [(qc.K, "ge")]
        ctx.true("gather/all-found", qc.trip is not None and compare.difference(V.add(qc.trip, len0), V.sub(hi, lo), live, axioms=hi_ax) is None,
                 f"{V.show(qc.trip)[:150] if qc.trip is not None else 'an unknown number of'} edges are gathered", loc)

    def entry(e, i, care, what):
        ctx.eq(f"gather/{what}/index", I.field(e, fi), i, care, loc, axioms=many_)
        q = P2(I, I.field(e, fp))
        ctx.eq(f"gather/{what}/x", q.x, b(i).x, care, loc, axioms=many_)
        ctx.eq(f"gather/{what}/y", q.y, b(i).y, care, loc, axioms=many_)
    if ql is gl:
        ctx.eq("gather/start-size", len0, V.sub(h0, lo), live, loc)
    if compare.difference(len0, V.ZERO, live) is not None:
        entry(I.expand(I.seq_get(q0, V.ZERO)), lo, live, "first")
    for cc, l in seqs.leaves(V.restrict(ql.nexts[k], ql.cont)):
        if compare.possible(conj(cc, ql.cont), hi_ax) is None:
            continue
        ps = seqs.pushes(l, Q)
        if ps is None or len(ps) != 1:
            ctx.true("gather/each", False, f"the list becomes {V.show(l)[:200]}", loc)
            continue
        entry(at(I.expand(ps[0])), which, at(conj(cc, inq)), "each")
    # visiting them
    visit = [l for l in inner if l is not gl and l is not ql and any(ph_init[0] is not None and as_seq(ph_init[0]) and ph_init[1] is result for ph_init in l.phis.values())]
    if len(visit) != 1:
        raise Bad(f"expected one loop over the edges of a point that writes the codes, found {len(visit)}", loc)
    vl = visit[0]
    vc = forms[vl.id]
    vs = Stepper(I, vl)
    size = I.seq_len(Q)
    some = V.sub(hi, lo)
    sizes = [(V.sub(size, some), "eq")] + hi_ax
    trip = None if vc.trip is None else vc.trip
    ctx.true("visit/every", trip is not None and compare.difference(trip, size, live, axioms=sizes) is None, f"{V.show(trip)[:100] if trip is not None else 'unknown'} edges of a point are visited", loc)
    # order
    ev = [e for e in R.events if e.kind == "sorted"]
    if len(ev) != 1:
        raise Bad(f"the edges of a point are ordered {len(ev)} times", loc)
    s_, key_ = ev[0].data
    ctx.true("order/of", s_ is Q, "something else is ordered", loc)
    done = gl_done(gl, hi, n, same_a, lo)
    if ql is not gl:
        done = conj(done, V.b_not(ql.cont))
    w = compare.implies(conj(live, V.gt(size, V.ONE), done), ev[0].pc, sizes)
    ctx.true("order/always", w is None, f"the edges of a point stay unordered when {w}", loc)
    x, y = I.expand(I.var("#x", ety)), I.expand(I.var("#y", ety))
    px, py = P2(I, I.field(x, fp)), P2(I, I.field(y, fp))
    want = order3(I, cross3(a(lo), px, py))
    ctx.eq("order/by-angle", key_, want, loc=loc)
    # the count below the point
    be = [e for e in R.events if e.kind == "below"]
    if len(be) != 1:
        raise Bad(f"the edge below a point is looked up {len(be)} times", loc)
    S0, when, none, rel = be[0].data
    sk = [(kk, ph, i) for kk, (ph, i) in lp.phis.items() if ph is S0]
    ctx.true("below/live-edges", len(sk) == 1, f"looked up among {V.show(S0)[:150]}, expected the live edges before this point", loc)
    ctx.eq("below/at", when, a(lo).x, live, loc)
    ctx.true("below/nothing", none.k == "app" and none.a[0] == "count" and V.pconst(none.a[1]) == 0 and V.pconst(none.a[2]) == 0, f"below everything the count is {V.show(none)[:100]}", loc)
    la, lb = P2(I, I.field(probe, 0)), P2(I, I.field(probe, 1))
    pt = a(lo)
    care = conj(V.le(la.x, pt.x), V.le(pt.x, lb.x), V.b_not(conj(V.eq(la.x, pt.x), V.eq(la.y, pt.y))), V.b_not(conj(V.eq(lb.x, pt.x), V.eq(lb.y, pt.y))))
    ctx.eq("below/relation", rel, order3(I, cross3(la, lb, pt)), care, loc)
    # passing the count on
    sums = [(kk, ph, i) for kk, (ph, i) in vl.phis.items() if ph.ty == cty]
    if len(sums) != 1:
        raise Bad("the count is not passed on from edge to edge", loc)
    kk, sm, s0 = sums[0]
    ok = s0.k == "app" and s0.a[0] == "below"
    ctx.true("visit/starts-below", ok, f"starts with {V.show(s0)[:150]}, expected the count below the point", loc)
    many = V.gt(size, V.ONE)
    K = vc.K
    fold = scev.Subst(I, vc.form)
    inside = conj(live, V.lt(K, size))
    ax = sizes + [(K, "ge")]
    rr = [(q, ph) for q, (ph, i) in vl.phis.items() if as_seq(ph) and i is result]
    rk, rph = rr[0]
    sc = [(q, ph, i) for q, (ph, i) in vl.phis.items() if i.k == "app" and i.a[0] in ("with", "out") or (sk and i is S0)]
    alone = conj(live, V.eq(size, V.ONE))
    one = mk("app", ("ordered", Q), Q.ty) if compare.implies(conj(alone, done), ev[0].pc, sizes) is None else Q
    for nm, cs, X in (("several", conj(inside, many), mk("app", ("ordered", Q), Q.ty)), ("single", conj(inside, V.eq(size, V.ONE)), one)):
        e = I.seq_get(X, K)
        i = I.field(e, fi)
        nsum = fold(vs_next(vl, kk))
        ctx.eq(f"visit/{nm}/count", nsum, mk("app", ("over", cnt(i), sm), cty), cs, loc, axioms=ax)
        for cc, l in seqs.leaves(fold(vs_next(vl, rk))):
            cc = conj(cc, cs)
            if compare.possible(cc, ax) is None:
                continue
            ok = l.k == "app" and l.a[0] == "store" and l.a[1] is rph
            ctx.true(f"visit/{nm}/one-code", ok, f"the codes become {V.show(l)[:200]}", loc)
            if ok:
                ctx.eq(f"visit/{nm}/own-code", l.a[2], i, cc, loc, axioms=ax)
                ctx.eq(f"visit/{nm}/code", l.a[3], V.pvar(mk("app", ("code", cnt(i), sm), ("int", "u8"))), cc, loc, axioms=ax)
        upright = V.eq(a(i).x, b(i).x)
        live_ = [(q, ph) for q, (ph, init) in vl.phis.items() if ph.ty == scan.ty and q in vl.nexts]
        if len(live_) != 1:
            raise Bad("the live edges are not kept in one place", loc)
        q, sph = live_[0]
        ctx.true("visit/live-edges", vl.phis[q][1] is S0, "the edges of a point are added to something else", loc)
        for cc, l in seqs.leaves(fold(vs_next(vl, q))):
            cc = conj(cc, cs)
            if compare.possible(cc, ax) is None:
                continue
            if l is sph:
                w = compare.implies(cc, upright, ax)
                ctx.true(f"visit/{nm}/kept", w is None, f"an edge is not kept when {w}", loc)
                continue
            ok = l.k == "app" and l.a[0] == "with" and l.a[1] is sph
            ctx.true(f"visit/{nm}/adds", ok, f"the live edges become {V.show(l)[:200]}", loc)
            if not ok:
                continue
            w = compare.implies(cc, V.b_not(upright), ax)
            ctx.true(f"visit/{nm}/no-vertical", w is None, f"a vertical edge is kept when {w}", loc)
            E, C_, at = l.a[2], l.a[3], l.a[4]
            ea, eb = P2(I, get(ctx, I, E, "VSegment", "a")), P2(I, get(ctx, I, E, "VSegment", "b"))
            for k2, u, v in (("ax", ea.x, a(i).x), ("ay", ea.y, a(i).y), ("bx", eb.x, b(i).x), ("by", eb.y, b(i).y)):
                ctx.eq(f"visit/{nm}/edge.{k2}", u, v, cc, loc, axioms=ax)
            ctx.eq(f"visit/{nm}/count-above", C_, mk("app", ("over", cnt(i), sm), cty), cc, loc, axioms=ax)
            ctx.eq(f"visit/{nm}/time", at, a(lo).x, cc, loc, axioms=ax)
    # the next point starts afresh
    for kx, (ph, init) in lp.phis.items():
        if as_seq(ph) and ph.ty[-1] == ety:
            ctx.true("gather/fresh", False, "edges of one point are visited again at the next", loc)
    nr = st_next(lp, rkey)
    ctx.true("sweep/keeps-codes", all(l is rph or l is result for _, l in seqs.leaves(nr)), f"the codes become {V.show(nr)[:150]}", loc)
    nsc = st_next(lp, sk[0][0]) if sk else None
    ctx.true("sweep/keeps-live", nsc is not None and all(l is sph for _, l in seqs.leaves(nsc)), "the live edges are dropped between points", loc)


def as_seq(v):
    return v.k == "v" and v.ty is not None and v.ty[0] == "slice"


def st_next(lp, key):
    return V.restrict(lp.nexts[key], lp.cont)


vs_next = st_next


def gl_done(gl, hi, n, same_a, lo):
    return disj(V.eq(hi, n), V.b_not(same_a(hi, lo)))


def by_value(I, f):
    """a relation given as a closure or function that takes the edge itself rather than a reference to it"""
    while f.k == "ref":
        return False
    if f.k == "struct" and isinstance(f.a[0], tuple) and f.a[0][0] == "closure":
        return I.p.ty(I.p.bodies[f.a[0][2]]["locals"][2])[0] != "ref"
    return True


def ref_to(I, st, v):
    I.nheap += 1
    root = ("H", I.nheap, "live")
    st[root] = v
    return mk("ref", (root, ()))
