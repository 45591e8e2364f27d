"""Small data carriers of the graph: side marks of vector edges and node kinds.  Rules: turning a mark
around swaps left and right of both polygons for all 16 codes (and twice is the identity); an edge keeps
its ends and takes the marks as given or turned, depending on the exact order of its ends; a vector path
becomes the path of its start points; a node built from an index list denotes exactly that list."""
from .lib import *
import scev
import seqs

L, R_, CL, CR = 1, 2, 4, 8


def turned(c):
    return (2 if c & 1 else 0) | (1 if c & 2 else 0) | (8 if c & 4 else 0) | (4 if c & 8 else 0)


def run(ctx):
    p = ctx.prog
    I = Interp(p)
    f = p.method("VectorEdge", "new")
    a, b = I.var("a", POINT), I.var("b", POINT)
    A, B = P2(I, a), P2(I, b)
    fwd = disj(V.lt(A.x, B.x), conj(V.eq(A.x, B.x), V.lt(A.y, B.y)))
    with ctx.case("marks"):
        rev = [g for g in p.fns if g["m"] == "reverse" and g["self"] is not None and p.ty(g["self"]) == ("int", "u8")]
        ctx.true("turn-found", len(rev) == 1, f"{[g['n'] for g in rev]}")
        for c in range(16):
            r = call(ctx, rev[0], [V.num(c)], interp=I)
            ctx.eq(f"turn/{c:04b}", r.ret, V.num(turned(c)), loc=r.loc)
    for c in range(16):
        with ctx.case(f"edge/{c:04b}"):
            r = call(ctx, f, [V.num(c), a, b], interp=I, names=["fill", "a", "b"])
            g = lambda n: get(ctx, I, r.ret, "VectorEdge", n)
            ctx.eq(f"edge/start/{c:04b}", g("a"), a, loc=r.loc)
            ctx.eq(f"edge/end/{c:04b}", g("b"), b, loc=r.loc)
            ctx.eq(f"edge/marks/{c:04b}", g("fill"), V.ite(fwd, V.num(c), V.num(turned(c))),
                   V.b_not(conj(V.eq(A.x, B.x), V.eq(A.y, B.y))), r.loc)
    with ctx.case("path"):
        fs = [g for g in p.fns if g["m"] == "to_path"]
        ctx.true("path/found", len(fs) == 1, f"{[g['n'] for g in fs]}")
        edges = mk("v", ("edges",), ("slice", ty_of(ctx, "VectorEdge")))
        J = Interp(p)
        r = call(ctx, fs[0], [edges], interp=J)
        whole(ctx, J, r, r.ret, edges, lambda e: get(ctx, J, e, "VectorEdge", "a"), "path")
    with ctx.case("node"):
        J = Interp(p)
        ix = mk("v", ("indices",), ("slice", ("int", "usize")))
        n = J.seq_len(ix)
        r = call(ctx, p.method("OverlayNode", "new"), [ix], interp=J)
        names = p.variants(adt(ctx, "OverlayNode"))
        k = names.index("Bridge")
        ctx.eq("node/bridge-iff-two", r.ret.a[1], V.ite(V.eq(n, V.num(2)), V.num(k), V.num(1 - k)), loc=r.loc)
        two = V.eq(n, V.num(2))
        pair = r.ret.a[2 + k][0]
        for i in (0, 1):
            ctx.eq(f"node/bridge/{i}", J.seq_get(pair, V.num(i)), J.seq_get(ix, V.num(i)), two, r.loc)
        lst = r.ret.a[2 + 1 - k][0]
        q = ivar("q", "usize")
        care = conj(V.b_not(two), V.ge(q, V.ZERO), V.lt(q, n))
        whole(ctx, J, r, lst, ix, lambda e: e, "node/cross", V.b_not(two))
    ctx.floor(16 * 4 + 5)


def whole(ctx, I, r, got, src, conv, key, care=V.T):
    """got is src mapped by conv, element by element, for all lengths"""
    forms = scev.closed(I, r.loops)
    n = I.seq_len(src)
    tot = V.F
    for cond, leaf in seqs.leaves(got):
        live = V.b_and(care, cond)
        try:
            B = seqs.built(I, forms, leaf)
        except seqs.Unknown:
            B = None
        if B is None:
            q = ivar("q", "usize")
            ctx.eq(key + "/length", I.seq_len(leaf), n, live, r.loc)
            ctx.eq(key + "/elements", I.seq_get(leaf, q), conv(I.seq_get(src, q)), conj(live, V.ge(q, V.ZERO), V.lt(q, n)), r.loc)
            continue
        ctx.eq(key + "/one-per-item", B.trip, n, live, r.loc)
        ctx.eq(key + "/starts-empty", I.seq_len(B.base), V.ZERO, live, r.loc)
        t = V.ZERO
        for c, e in B.items:
            t = V.add(t, V.ite(c, V.ONE, V.ZERO))
            ctx.eq(key + "/elements", e, conv(I.seq_get(src, B.K)), conj(live, c, V.lt(B.K, n)), r.loc)
        ctx.eq(key + "/each-once", t, V.ONE, conj(live, V.lt(B.K, n)), r.loc)
