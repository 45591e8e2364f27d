"""Shared by the edge-selection properties: interpret a link builder with the splitting and the filling
passes replaced by their results (arbitrary segments, arbitrary fill codes)."""
from .lib import *
import scev
import seqs

SIDES = dict(SUBJ_TOP=1, SUBJ_BOTTOM=2, CLIP_TOP=4, CLIP_BOTTOM=8)
RULES = {
    "Subject": lambda s, c: s,
    "Clip": lambda s, c: c,
    "Intersect": lambda s, c: s and c,
    "Union": lambda s, c: s or c,
    "Difference": lambda s, c: s and not c,
    "InverseDifference": lambda s, c: c and not s,
    "Xor": lambda s, c: s != c,
}


def top_in(rule, fill):
    return bool(RULES[rule](bool(fill & 1), bool(fill & 4)))


def bottom_in(rule, fill):
    return bool(RULES[rule](bool(fill & 2), bool(fill & 8)))


class Passes:
    """stand-ins for splitting and filling: their results are free inputs"""

    def __init__(self, ctx, count):
        self.ctx = ctx
        self.calls = []
        self.split_args = []
        seg = ("adt", adt(ctx, "Segment"), (("adt", adt(ctx, count), ()),))
        self.split = mk("v", ("split_segments",), ("slice", seg))
        self.fills = mk("v", ("fill_codes",), ("slice", ("int", "u8")))
        self.hooks = {"split_segments": self.on_split, "FillSolver::fill": self.on_fill}

    def on_split(self, I, f, args, tys, dty, st, line):
        self.split_args.append(I.contents(st, args[0]))
        return self.split, V.T, st

    def on_fill(self, I, f, args, tys, dty, st, line):
        a = (f["inst"] or f)["a"] or f["a"]
        self.calls.append((f, [I.p.ty(x) for x in f["a"]], I.contents(st, args[1])))
        return self.fills, V.T, st

    def axioms(self, I):
        return [(V.sub(I.seq_len(self.fills), I.seq_len(self.split)), "eq")]


def built_links(ctx, I, R, P, key):
    """-> Built description of the produced links; checks the early returns"""
    forms = scev.closed(I, R.loops)
    found = None
    ax = P.axioms(I)
    for cond, leaf in seqs.leaves(R.ret):
        if leaf.k == "app" and leaf.a == ("seq",):
            n = I.seq_len(P.split)
            live = V.b_and(cond, V.gt(n, V.ZERO))
            for a in P.split_args:
                live = V.b_and(live, V.gt(I.seq_len(strip(a)), V.ZERO))
            w = compare.possible(live, axioms=ax)
            ctx.true(key + "/empty-only-for-empty", w is None, f"no edges are produced although there are segments, when {w}", R.loc)
            continue
        if found is not None:
            raise Bad("the links are produced in two different ways", R.loc)
        try:
            found = seqs.built(I, forms, leaf, ax)
        except seqs.Unknown as e:
            raise Bad(f"the sequence of links is not understood: {e}", R.loc)
    if found is None:
        raise Bad("no links are ever produced", R.loc)
    return found


def strip(v):
    return v.a[1] if v.k == "app" and v.a[0] == "&" else v


def check_all(ctx, I, R, P, key, want):
    """want(fill code) -> must an edge with this code be kept"""
    B = built_links(ctx, I, R, P, key)
    n = I.seq_len(P.split)
    ax = P.axioms(I)
    ctx.true(key + "/given-segments-split", len({strip(a).id for a in P.split_args}) == 1 and strip(P.split_args[0]).k == "v",
             f"what is split is {[V.show(strip(a))[:100] for a in P.split_args]}", R.loc)
    ctx.eq(key + "/every-segment-considered", B.trip, n, V.gt(n, V.ZERO), R.loc, ax)
    ctx.true(key + "/starts-empty", V.pconst(I.seq_len(B.base)) == 0, "links are prefilled", R.loc)
    fk = I.seq_get(P.fills, B.K)
    sk = I.seq_get(P.split, B.K)
    care = V.b_and(V.lt(B.K, n), V.gt(n, V.ZERO))
    for code in range(16):
        S = scev.Subst(I, {pterm(fk): V.num(code)})
        total = V.ZERO
        for cond, elem in B.items:
            total = V.add(total, V.ite(S(cond), V.ONE, V.ZERO))
        ctx.eq(f"{key}/keeps/{code:04b}", total, V.ONE if want(code) else V.ZERO, care, R.loc, ax)
    for cond, elem in B.items:
        keep = V.b_and(care, cond)
        xs = get(ctx, I, sk, "Segment", "x_segment")
        for end in "ab":
            e = get(ctx, I, get(ctx, I, elem, "OverlayLink", end), "IdPoint", "point")
            ctx.eq(f"{key}/end-{end}", e, get(ctx, I, xs, "XSegment", end), keep, R.loc, ax)
        ctx.eq(f"{key}/fill-code", get(ctx, I, elem, "OverlayLink", "fill"), fk, keep, R.loc, ax)
    return B


def pterm(v):
    (m, c), = v.a
    return m[0]
