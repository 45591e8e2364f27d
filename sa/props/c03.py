"""Algebra of edge counts.  The count operations of the three count types are interpreted with arbitrary
operands and compared with the group they stand for: subject (and clip) counts are integers under
addition, polyline marks are two bits under union, turning an edge around negates the integers and swaps
the bits.  Edge constructors are compared with: ends in lexicographic order, count of the given direction
when the given order is the stored one and of the opposite direction otherwise."""
from .lib import *

SWAP = {0: 0, 1: 2, 2: 1, 3: 3}


def run(ctx):
    p = ctx.prog
    for t in ("ShapeCountBoolean", "ShapeCountString", "OffsetCountBoolean"):
        algebra(ctx, t)
    I = Interp(p)
    a, b = I.var("a", POINT), I.var("b", POINT)
    A, B = P2(I, a), P2(I, b)
    same = conj(V.eq(A.x, B.x), V.eq(A.y, B.y))
    fwd = disj(V.lt(A.x, B.x), conj(V.eq(A.x, B.x), V.lt(A.y, B.y)))
    for m in ("with_ab", "create_and_validate"):
        with ctx.case(m):
            fs = [f for f in p.fns if f["m"] == m and f["id"] in p.bodies]
            ctx.true(m + "/found", len(fs) == 1, f"{[f['n'] for f in fs]}")
            inv = []

            def on_invert(I, f, args, tys, dty, st, line):
                inv.append(args)
                return mk("v", ("inverted",), ("param", "C")), V.T, st
            J = Interp(p, hooks={"WindingCount::invert": on_invert})
            d, i = mk("v", ("direct",), ("param", "C")), mk("v", ("opposite",), ("param", "C"))
            vals = [a, b, d, i] if m == "with_ab" else [a, b, d]
            r = call(ctx, fs[0], vals, interp=J)
            other = i if m == "with_ab" else mk("v", ("inverted",), ("param", "C"))
            if m != "with_ab":
                ctx.true(m + "/inverts-given-count", all(x[0].id == d.id for x in inv) and inv, "another count is inverted", r.loc)
            care = V.b_not(same)
            segment(ctx, J, r.ret, m, fwd, a, b, d, other, care, r.loc)
    for m, bold in (("weak_subject_ab", False), ("bold_subject_ab", True)):
        with ctx.case(m):
            fs = [f for f in p.fns if f["m"] == m]
            ctx.true(m + "/found", len(fs) == 1, f"{[f['n'] for f in fs]}")
            J = Interp(p)
            r = call(ctx, fs[0], [a, b], interp=J)
            c = lambda s: mkstruct(ctx, "OffsetCountBoolean", subj=V.num(s), bold=V.const(bold))
            segment(ctx, J, r.ret, m, fwd, a, b, c(1), c(-1), V.b_not(same), r.loc)
    ctx.floor(60)


def segment(ctx, I, seg, key, fwd, a, b, direct, other, care, loc):
    xs = get(ctx, I, seg, "Segment", "x_segment")
    ctx.eq(key + "/first-end", get(ctx, I, xs, "XSegment", "a"), V.ite(fwd, a, b), care, loc)
    ctx.eq(key + "/second-end", get(ctx, I, xs, "XSegment", "b"), V.ite(fwd, b, a), care, loc)
    ctx.eq(key + "/count", get(ctx, I, seg, "Segment", "count"), V.ite(fwd, direct, other), care, loc)


def algebra(ctx, t):
    p = ctx.prog
    second = {"ShapeCountBoolean": "clip", "ShapeCountString": "clip", "OffsetCountBoolean": "bold"}[t]

    def cases():
        if t == "ShapeCountBoolean":
            I = Interp(p)
            return [("*", ivar("k1"), ivar("k2"))]
        if t == "ShapeCountString":
            return [(f"{x}{y}", V.num(x), V.num(y)) for x in range(4) for y in range(4)]
        return [(f"{x}{y}", V.const(bool(x)), V.const(bool(y))) for x in range(2) for y in range(2)]

    def plus(x, y):
        if t == "ShapeCountBoolean":
            return V.add(x, y)
        if t == "ShapeCountString":
            return V.num(V.pconst(x) | V.pconst(y))
        return disj(x, y)

    def neg(x):
        if t == "ShapeCountBoolean":
            return V.neg(x)
        if t == "ShapeCountString":
            return V.num(SWAP[V.pconst(x)])
        return x

    s1, s2 = ivar("s1"), ivar("s2")
    made = lambda s, x: mkstruct(ctx, t, **{"subj": s, second: x})
    for tag, x, y in cases():
        with ctx.case(f"{t}/{tag}"):
            I = Interp(p)
            g = lambda v, n: get(ctx, I, v, t, n)
            r = call(ctx, p.method(t, "add"), [made(s1, x), made(s2, y)], interp=I)
            ctx.eq(f"{t}/add/subj/{tag}", g(r.ret, "subj"), V.add(s1, s2), loc=r.loc)
            ctx.eq(f"{t}/add/{second}/{tag}", g(r.ret, second), plus(x, y), loc=r.loc)
            r = call(ctx, p.method(t, "apply"), [made(s1, x), made(s2, y)], interp=I)
            o = r.out[0]
            ctx.eq(f"{t}/apply/subj/{tag}", g(o, "subj"), V.add(s1, s2), loc=r.loc)
            ctx.eq(f"{t}/apply/{second}/{tag}", g(o, second), plus(x, y), loc=r.loc)
            r = call(ctx, p.method(t, "invert"), [made(s1, x)], interp=I)
            ctx.eq(f"{t}/turn/subj/{tag}", g(r.ret, "subj"), V.neg(s1), loc=r.loc)
            ctx.eq(f"{t}/turn/{second}/{tag}", g(r.ret, second), neg(x), loc=r.loc)
            r = call(ctx, p.method(t, "is_not_empty"), [made(s1, x)], interp=I)
            empty = V.eq(s1, V.ZERO)
            if second == "clip":
                empty = conj(empty, V.eq(x, V.ZERO))
            ctx.eq(f"{t}/empty/{tag}", r.ret, V.b_not(empty), loc=r.loc)
    with ctx.case(f"{t}/zero"):
        I = Interp(p)
        r = call(ctx, p.method(t, "new"), [V.ZERO, V.ZERO], interp=I)
        ctx.eq(f"{t}/zero/subj", get(ctx, I, r.ret, t, "subj"), V.ZERO, loc=r.loc)
        if second == "clip":
            ctx.eq(f"{t}/zero/clip", get(ctx, I, r.ret, t, "clip"), V.ZERO, loc=r.loc)
    for st in ("Subject", "Clip"):
        if t == "OffsetCountBoolean" and st == "Clip":
            continue
        with ctx.case(f"{t}/{st}"):
            I = Interp(p)
            r = call(ctx, p.method(t, "with_shape_type"), [enum_of(ctx, I, "ShapeType", st)], interp=I)
            d, v = I.field(r.ret, 0), I.field(r.ret, 1)
            g = lambda w, n: get(ctx, I, w, t, n)
            unit = V.ONE if st == "Subject" else V.ZERO
            ctx.eq(f"{t}/{st}/direct/subj", g(d, "subj"), unit, loc=r.loc)
            ctx.eq(f"{t}/{st}/opposite/subj", g(v, "subj"), V.neg(unit), loc=r.loc)
            if t == "OffsetCountBoolean":
                ctx.eq(f"{t}/{st}/direct/bold", g(d, second), V.T, loc=r.loc)
                ctx.eq(f"{t}/{st}/opposite/bold", g(v, second), V.T, loc=r.loc)
            elif t == "ShapeCountBoolean" or st == "Subject":
                unit = V.sub(V.ONE, unit)
                ctx.eq(f"{t}/{st}/direct/clip", g(d, second), unit, loc=r.loc)
                ctx.eq(f"{t}/{st}/opposite/clip", g(v, second), V.neg(unit), loc=r.loc)
            else:
                cd, cv = V.pconst(g(d, second)), V.pconst(g(v, second))
                ctx.true(f"{t}/{st}/marks", cd in (1, 2) and cv == SWAP[cd], f"marks {cd} and {cv}", r.loc)
