"""Segment order relations.  Every comparison of segments and points used by the sweep is interpreted
abstractly into a decision diagram over orientation signs and coordinate comparisons, and compared, for
all inputs at once, with the relation it stands for: below / above from the exact orientation
determinant, the lexicographic order, the counterclockwise angle order, disjointness of y ranges."""
from .lib import *


def order3(I, x):
    """Less when x > 0, Greater when x < 0"""
    return I.ordering(V.signum(V.neg(x)))


def lex(I, pairs):
    r = V.ZERO
    for a, b in reversed(pairs):
        d = V.sub(a, b)
        s = V.signum(d)
        r = V.ite(V.eq(d, V.ZERO), r, s)
    return r


def run(ctx):
    p = ctx.prog
    I = Interp(p)

    def seg(ty, n):
        ax, ay, bx, by = (ivar(n + k) for k in ("ax", "ay", "bx", "by"))
        pt = lambda x, y: mk("struct", (POINT[1], x, y))
        return mkstruct(ctx, ty, a=pt(ax, ay), b=pt(bx, by)), P2(I, pt(ax, ay)), P2(I, pt(bx, by))

    s, sa, sb = seg("VSegment", "s.")
    o, oa, ob = seg("VSegment", "o.")
    q = I.var("p", POINT)
    pq = P2(I, q)
    with ctx.case("point-order"):
        r = call(ctx, p.method("VSegment", "is_under_point_order"), [s, q], interp=I)
        care = conj(V.ge(pq.x, sa.x), V.le(pq.x, sb.x), V.b_not(V.b_and(V.eq(pq.x, sa.x), V.eq(pq.y, sa.y))), V.b_not(V.b_and(V.eq(pq.x, sb.x), V.eq(pq.y, sb.y))))
        ctx.eq("under-point-order", r.ret, order3(I, cross3(sa, sb, pq)), care, r.loc)
    first = lex(I, [(sa.x, oa.x), (sa.y, oa.y)])
    L, E = V.lt(first, V.ZERO), V.eq(first, V.ZERO)
    # under: positive when o is above s
    above = V.ite(L, cross3(sa, sb, oa), V.ite(E, cross3(sa, sb, ob), V.neg(cross3(oa, ob, sa))))
    with ctx.case("segment-order"):
        r = call(ctx, p.method("VSegment", "is_under_segment"), [s, o], interp=I)
        ctx.eq("under-segment", r.ret, V.gt(above, V.ZERO), loc=r.loc)
        r = call(ctx, p.method("VSegment", "cmp", "Ord"), [s, o], interp=I)
        ctx.eq("sweep-order", r.ret, order3(I, above), loc=r.loc)
        back = call(ctx, p.method("VSegment", "cmp", "Ord"), [o, s], interp=I)
        care = V.b_not(E)
        ctx.eq("sweep-order-antisymmetric", r.ret.a[1], V.sub(V.num(2), back.ret.a[1]), care, r.loc)
        r = call(ctx, p.method("VSegment", "partial_cmp", "PartialOrd"), [s, o], interp=I)
        ctx.eq("sweep-order-partial", r.ret, I.some(order3(I, above)), loc=r.loc)
    with ctx.case("angle"):
        o2 = mkstruct(ctx, "VSegment", a=sa.v, b=ob.v)
        r = call(ctx, p.method("VSegment", "cmp_by_angle"), [s, o2], interp=I)
        ctx.eq("angle-order", r.ret, order3(I, cross3(sa, sb, ob)), loc=r.loc)
    with ctx.case("conversion"):
        x, _, _ = seg("XSegment", "s.")
        fs = [f for f in p.fns if f["m"] == "from" and f["self"] is not None and p.ty_str(p.ty(f["self"])) in ("VSegment", "XSegment") and p.ty_str(p.ty(p.bodies[f["id"]]["locals"][1])) in ("VSegment", "XSegment")]
        ctx.true("conversions-found", len(fs) == 2, f"{[f['n'] for f in fs]}")
        for f in fs:
            to = p.ty_str(p.ty(f["self"]))
            src = {"VSegment": x, "XSegment": s}[to]
            r = call(ctx, f, [src], interp=I)
            for k, w in (("a", sa), ("b", sb)):
                ctx.eq(f"convert-to-{to}/{k}", get(ctx, I, r.ret, to, k), w.v, loc=r.loc)
        ctx.eq("expires-at-right-end", call(ctx, p.method("VSegment", "expiration"), [s], interp=I).ret, sb.x)
    xs, a, b = seg("XSegment", "s.")
    xo, c, d = seg("XSegment", "o.")
    with ctx.case("lexicographic"):
        l4 = I.ordering(lex(I, [(a.x, c.x), (a.y, c.y), (b.x, d.x), (b.y, d.y)]))
        r = call(ctx, p.method("XSegment", "cmp", "Ord"), [xs, xo], interp=I)
        ctx.eq("segment-lexicographic", r.ret, l4, loc=r.loc)
        r = call(ctx, p.method("XSegment", "partial_cmp", "PartialOrd"), [xs, xo], interp=I)
        ctx.eq("segment-lexicographic-partial", r.ret, I.some(l4), loc=r.loc)
        r = call(ctx, p.method("XSegment", "eq", "PartialEq"), [xs, xo], interp=I)
        ctx.eq("segment-equality", r.ret, conj(V.eq(a.x, c.x), V.eq(a.y, c.y), V.eq(b.x, d.x), V.eq(b.y, d.y)), loc=r.loc)
    lo, hi = V.vmin(a.y, b.y), V.vmax(a.y, b.y)
    with ctx.case("y-range"):
        r = call(ctx, p.method("XSegment", "y_range"), [xs], interp=I)
        ctx.eq("y-range/min", get(ctx, I, r.ret, "LineRange", "min"), lo, loc=r.loc)
        ctx.eq("y-range/max", get(ctx, I, r.ret, "LineRange", "max"), hi, loc=r.loc)
        r = call(ctx, p.method("XSegment", "is_not_vertical"), [xs], interp=I)
        ctx.eq("not-vertical", r.ret, V.ne(a.x, b.x), loc=r.loc)
        m, w = ivar("range_min"), nat("range_len")
        rg = mkstruct(ctx, "LineRange", min=m, max=V.add(m, w))
        r = call(ctx, p.method("XSegment", "is_not_intersect_y_range"), [xs, rg], interp=I)
        ctx.eq("disjoint-from-y-range", r.ret, V.b_or(V.gt(m, hi), V.lt(V.add(m, w), lo)), loc=r.loc)
    # sort keys: the bin a value falls into is the bin of its key, and the key is its x (its index for marks)
    for ty, val, want in (("XSegment", xs, a.x), ("End", mkstruct(ctx, "End", index=ivar("index", "usize"), point=q), pq.x),
                          ("IdPoint", mkstruct(ctx, "IdPoint", id=ivar("index", "usize"), point=q), pq.x),
                          ("LineMark", mkstruct(ctx, "LineMark", index=ivar("index", "usize"), point=q), ivar("index", "usize"))):
        with ctx.case(f"sort-key/{ty}"):
            r = call(ctx, p.method(ty, "bin_key"), [val], interp=I)
            ctx.eq(f"sort-key/{ty}", r.ret, want, loc=r.loc)
            f = p.method(ty, "bin_index")
            lty = p.ty(p.bodies[f["id"]]["locals"][2])[1]
            J = Interp(p)
            lay = J.var("layout", lty)
            r = call(ctx, f, [val, lay], interp=J)
            t = r.ret
            if t.k == "p":
                t = only_term(t)
            ok = t is not None and t.k == "app" and t.a[0] == "ret" and "BinLayout" in str(t.a[1])
            ctx.true(f"sort-bin/{ty}", ok, f"the bin is not the layout's bin of a key: {V.show(r.ret)[:200]}", r.loc)
            if ok:
                ctx.eq(f"sort-bin-of-key/{ty}", V.as_poly(t.a[3]), want, loc=r.loc)
    with ctx.case("fragment"):
        r = call(ctx, p.method("Fragment", "with_index_and_segment"), [ivar("index", "usize"), xs], interp=I)
        rect = get(ctx, I, r.ret, "Fragment", "rect")
        names = [x[0] for x in p.adt_fields(("adt", "i_float::int::rect::IntRect", ()))]
        for n, w in (("min_x", a.x), ("max_x", b.x), ("min_y", lo), ("max_y", hi)):
            ctx.eq(f"fragment-box/{n}", I.field(rect, names.index(n)), w, V.le(a.x, b.x), r.loc)
        ctx.eq("fragment/segment", get(ctx, I, r.ret, "Fragment", "x_segment"), xs, loc=r.loc)
        ctx.eq("fragment/index", get(ctx, I, r.ret, "Fragment", "index"), ivar("index", "usize"), loc=r.loc)
    ctx.floor(25)


def only_term(v):
    if len(v.a) == 1:
        (m, c), = v.a
        if c == 1 and len(m) == 1:
            return V.node(m[0])
