"""Polylines: which pieces a clip rule keeps, and how the direction marks are written and consumed.  The
link builder is interpreted with arbitrary segments and fill codes and its decision compared with
'is a polyline piece, and lies in the area the rule selects' for all 16 codes and four rules.  The mark
handling (adding lines, consuming a mark while walking, choosing the next piece; the side walk of a
slice) is compared with its definition in terms of the direction of travel."""
from .links import *
from .c01 import arrange

RIGHT, LEFT = 1, 2          # marks of a polyline running left to right / right to left (written by add_string_line)


def inside(code, boundary):
    n = (code & 1) + (code >> 1 & 1)
    return n == 2 or (n == 1 and boundary)


def run(ctx):
    p = ctx.prog
    for invert in (False, True):
        for boundary in (False, True):
            key = f"clip/{'outside' if invert else 'inside'}/{'with' if boundary else 'without'}-boundary"
            with ctx.case(key):
                P = Passes(ctx, "ShapeCountString")
                I = Interp(p, hooks=P.hooks)
                f = p.method("OverlayLinkBuilder", "build_string_with_clip_rule")
                rule = mkstruct(ctx, "ClipRule", invert=V.const(invert), boundary_included=V.const(boundary))
                R = call(ctx, f, arrange(ctx, f, {"ClipRule": rule}), interp=I)
                check_all(ctx, I, R, P, key, lambda c: bool(c & 12) and inside(c, boundary) != invert)
    with ctx.case("slice/all"):
        P = Passes(ctx, "ShapeCountString")
        I = Interp(p, hooks=P.hooks)
        f = p.method("OverlayLinkBuilder", "build_string_all")
        check_all(ctx, I, call(ctx, f, interp=I), P, "slice/all", lambda c: True)
    lines(ctx)
    marks(ctx)
    sides(ctx)
    ctx.floor(5 * 16 + 60)


def lines(ctx):
    p = ctx.prog
    f = p.method("StringOverlay", "add_string_line")
    with ctx.case("line"):
        I = Interp(p)
        a, b = I.var("from", POINT), I.var("to", POINT)
        A, B = P2(I, a), P2(I, b)
        line = I.lit([a, b], POINT)
        r = call(ctx, f, [None, line], interp=I)
        fwd = disj(V.lt(A.x, B.x), conj(V.eq(A.x, B.x), V.lt(A.y, B.y)))
        back = disj(V.lt(B.x, A.x), conj(V.eq(A.x, B.x), V.lt(B.y, A.y)))
        before = get(ctx, I, I.var("self", ty_of(ctx, "StringOverlay")), "StringOverlay", "segments")
        after = get(ctx, I, r.out[0], "StringOverlay", "segments")
        n = V.sub(I.seq_len(after), I.seq_len(before))
        ctx.eq("line/adds-one-unless-empty", n, V.ite(disj(fwd, back), V.ONE, V.ZERO), loc=r.loc)
        for tag, cond, first, second, mark in (("right", fwd, a, b, RIGHT), ("left", back, b, a, LEFT)):
            seg = I.seq_get(after, I.seq_len(before))
            xs = get(ctx, I, seg, "Segment", "x_segment")
            ctx.eq(f"line/{tag}/first", get(ctx, I, xs, "XSegment", "a"), first, cond, r.loc)
            ctx.eq(f"line/{tag}/second", get(ctx, I, xs, "XSegment", "b"), second, cond, r.loc)
            c = get(ctx, I, seg, "Segment", "count")
            ctx.eq(f"line/{tag}/mark", get(ctx, I, c, "ShapeCountString", "clip"), V.num(mark), cond, r.loc)
            ctx.eq(f"line/{tag}/no-winding", get(ctx, I, c, "ShapeCountString", "subj"), V.ZERO, cond, r.loc)
    # a path adds the lines between neighbours, a contour also the one from its last to its first point
    for m, closed in (("add_string_path", False), ("add_string_contour", True)):
        with ctx.case(m):
            def on_line(I, f, args, tys, dty, st, line):
                I.event("line", (args[1],), line)
                return mk("struct", ("()",)) , V.T, st
            I = Interp(p, hooks={"StringOverlay::add_string_line": on_line})
            f = p.method("StringOverlay", m)
            pts = mk("v", ("points",), ("slice", POINT))
            r = call(ctx, f, [None, pts], interp=I)
            forms = scev.closed(I, r.loops)
            n = I.seq_len(pts)
            evs = [e for e in r.events if e.kind == "line"]
            ctx.true(m + "/one-call-site", len(evs) == 1, f"{len(evs)} calls add lines", r.loc)
            e = evs[0]
            S = at_event(I, forms, e)
            lps = [forms[l.id] for l in e.loops if l.id in forms]
            if len(lps) != 1 or lps[0].trip is None:
                raise Bad("the loop that adds the lines is not understood", r.loc)
            c = lps[0]
            K = c.K
            enough = V.ge(n, V.num(2))
            entered = S(e.pc)
            if closed:
                want_trip = n
                frm = V.ite(V.eq(K, V.ZERO), I.seq_get(pts, V.sub(n, V.ONE)), I.seq_get(pts, V.sub(K, V.ONE)))
                to = I.seq_get(pts, K)
            else:
                want_trip = V.sub(n, V.ONE)
                frm, to = I.seq_get(pts, K), I.seq_get(pts, V.add(K, V.ONE))
            ctx.eq(m + "/one-per-side", c.trip, want_trip, enough, r.loc)
            care = conj(enough, V.ge(K, V.ZERO), V.lt(K, want_trip))
            ln = S(e.data[0])
            split_eq(ctx, I, m + "/from", I.seq_get(ln, V.ZERO), frm, c, care, r.loc)
            split_eq(ctx, I, m + "/to", I.seq_get(ln, V.ONE), to, c, care, r.loc)
            split_eq(ctx, I, m + "/always", entered, V.T, c, care, r.loc)


def split_eq(ctx, I, key, got, want, c, care, loc):
    """compare in the first and in every later iteration"""
    for tag, k in (("first", V.ZERO), ("later", V.add(c.K, V.ONE))):
        S = scev.Subst(I, {c.kterm.id: k})
        ctx.eq(f"{key}/{tag}", S(got), S(want), S(care), loc)


def marks(ctx):
    p = ctx.prog
    L = "OverlayLink"
    fill = lambda I, v: get(ctx, I, v, L, "fill")
    I0 = Interp(p)
    base = I0.var("link", ty_of(ctx, L))
    n, fs = fields_of(ctx, L)
    with_fill = lambda c: mkstruct(ctx, L, **{x: (V.num(c) if x == "fill" else get(ctx, I0, base, L, x)) for x in fs})
    for c in range(16):
        with ctx.case(f"consume/{c:04b}"):
            for fwd, bit in ((False, RIGHT << 2), (True, LEFT << 2)):
                I = Interp(p)
                r = call(ctx, p.method(L, "visit_if_possible"), [with_fill(c), V.const(fwd)], interp=I)
                ctx.eq(f"consume/{c:04b}/{fwd}/possible", r.ret, V.const(bool(c & bit)), loc=r.loc)
                ctx.eq(f"consume/{c:04b}/{fwd}/left", fill(I, r.out[0]), V.num(c & ~bit), loc=r.loc)
            if c & 12:
                I = Interp(p)
                r = call(ctx, p.method(L, "visit"), [with_fill(c)], interp=I)
                right = bool(c & RIGHT << 2)
                ctx.eq(f"start/{c:04b}/runs-right", r.ret, V.const(right), loc=r.loc)
                rest = c & 12 & ~((RIGHT if right else LEFT) << 2)
                ctx.eq(f"start/{c:04b}/left", I.bitop("and", ("int", "u8"), fill(I, r.out[0]), V.num(12)), V.num(rest), loc=r.loc)
    with ctx.case("walk"):
        def on_visit(I, f, args, tys, dty, st, line):
            I.event("visit", (args[0], I.contents(st, args[0]), args[1]), line)
            return bvar("possible"), V.T, st
        I = Interp(p, hooks={"visit_if_possible": on_visit})
        fs_ = [f for f in p.fns if f["m"] == "find_next_point"]
        ctx.true("walk/found", len(fs_) == 1, f"{[f['n'] for f in fs_]}")
        r = call(ctx, fs_[0], interp=I)
        evs = [e for e in r.events if e.kind == "visit"]
        ctx.true("walk/one-visit", len(evs) == 1, f"{len(evs)} visit sites", r.loc)
        a = I.var("a", ty_of(ctx, "IdPoint"))
        ap, aid = get(ctx, I, a, "IdPoint", "point"), get(ctx, I, a, "IdPoint", "id")
        out = bvar("is_out_node")
        e = evs[0]
        lk = strip(e.data[1])
        end = lambda x: get(ctx, I, lk, L, x)
        at_a = V.eq(get(ctx, I, end("a"), "IdPoint", "id"), aid)
        q = V.ite(at_a, get(ctx, I, end("b"), "IdPoint", "point"), get(ctx, I, end("a"), "IdPoint", "point"))
        A, Q = P2(I, ap), P2(I, q)
        apart = V.b_not(conj(V.eq(A.x, Q.x), V.eq(A.y, Q.y)))
        moves_right = disj(V.lt(A.x, Q.x), conj(V.eq(A.x, Q.x), V.lt(A.y, Q.y)))
        runs_right = sameb(out, moves_right)
        ctx.eq("walk/consumes-mark-of-its-direction", e.data[2], V.b_not(runs_right), V.b_and(e.pc, apart), r.loc)


def sides(ctx):
    """slice walk: leaving a node along an edge uses up the side on its left (clockwise) or right"""
    p = ctx.prog
    L = "OverlayLink"
    I = Interp(p)
    lk = I.var("link", ty_of(ctx, L))
    end = lambda x, y: get(ctx, I, get(ctx, I, lk, L, x), "IdPoint", y)
    A, B = P2(I, end("a", "point")), P2(I, end("b", "point"))
    node = ivar("node", "usize")
    direct = disj(V.lt(A.x, B.x), conj(V.eq(A.x, B.x), V.lt(A.y, B.y)))
    from_a = V.eq(end("a", "id"), node)
    cw = bvar("clockwise")
    top = sameb(sameb(from_a, direct), cw)
    for c in range(4):
        with ctx.case(f"sides/{c:02b}"):
            r = call(ctx, p.method(L, "visit_fill"), [lk, V.num(c), node, cw], interp=I)
            ctx.eq(f"sides/visit/{c:02b}", r.ret, V.ite(top, V.num(c & ~1), V.num(c & ~2)),
                   V.ite(top, V.const(bool(c & 1)), V.const(bool(c & 2))), r.loc)
            r = call(ctx, p.method(L, "is_move_possible"), [lk, V.num(c), node, cw], interp=I)
            ctx.eq(f"sides/possible/{c:02b}", r.ret, V.ite(top, V.const(bool(c & 1)), V.const(bool(c & 2))), loc=r.loc)
