"""Edge selection for boolean rules.  The builders of the filtered graph, the mask of the full graph and
the top-side test are interpreted with an arbitrary segment list and arbitrary fill codes.  The loop that
emits edges is put into closed form (iteration -> kept?, edge), and its decision is compared with the
set-algebraic definition for all 16 fill codes and all 7 rules: an edge bounds the result exactly when
the result region lies on one side of it only, and 'filled on top' means the region is on that side."""
from .links import *


def run(ctx):
    p = ctx.prog
    for rule in RULES:
        want = lambda c, r=rule: top_in(r, c) != bottom_in(r, c)
        with ctx.case(f"graph/{rule}"):
            P = Passes(ctx, "ShapeCountBoolean")
            I = Interp(p, hooks=P.hooks)
            f = p.method("OverlayLinkBuilder", "build_with_overlay_filter")
            args = arrange(ctx, f, {"OverlayRule": enum_of(ctx, I, "OverlayRule", rule)})
            R = call(ctx, f, args, interp=I)
            check_all(ctx, I, R, P, f"graph/{rule}", want)
        with ctx.case(f"mask/{rule}"):
            mask(ctx, rule, want)
        with ctx.case(f"top/{rule}"):
            I = Interp(p)
            f = p.method("OverlayRule", "is_fill_top")
            for code in range(16):
                if want(code):
                    R = call(ctx, f, [enum_of(ctx, I, "OverlayRule", rule), V.num(code)], interp=I)
                    ctx.eq(f"top/{rule}/{code:04b}", R.ret, V.const(top_in(rule, code)), loc=R.loc)
    with ctx.case("filler"):
        P = Passes(ctx, "ShapeCountBoolean")
        I = Interp(p, hooks=P.hooks)
        f = p.method("OverlayLinkBuilder", "build_with_filler_filter")
        R = call(ctx, f, interp=I)
        # drops exactly the edges no rule can ever select
        check_all(ctx, I, R, P, "prefilter", lambda c: any(top_in(r, c) != bottom_in(r, c) for r in RULES))
    with ctx.case("unfiltered"):
        P = Passes(ctx, "ShapeCountBoolean")
        I = Interp(p, hooks=P.hooks)
        f = p.method("OverlayLinkBuilder", "build_without_filter")
        R = call(ctx, f, interp=I)
        check_all(ctx, I, R, P, "unfiltered", lambda c: True)
    ctx.floor(7 * 16 * 2)


def arrange(ctx, f, by_type):
    """argument list with the given values at the parameters of the given types"""
    p = ctx.prog
    b = p.bodies[f["id"]]
    out = []
    for i in range(1, b["argc"] + 1):
        out.append(by_type.get(p.ty_str(p.ty(b["locals"][i]))))
    return out


def mask(ctx, rule, want):
    p = ctx.prog
    I = Interp(p)
    fs = [f for f in p.fns if f["m"] == "filter_by_rule" and f["self"] is not None]
    if len(fs) != 1:
        raise Bad(f"expected one mask builder, found {[f['n'] for f in fs]}")
    links = mk("v", ("links",), ("slice", ("adt", adt(ctx, "OverlayLink"), ())))
    R = call(ctx, fs[0], [links, enum_of(ctx, I, "OverlayRule", rule)], interp=I)
    forms = scev.closed(I, R.loops)
    ls = seqs.leaves(R.ret)
    if len(ls) != 1:
        raise Bad("the mask is not one sequence", R.loc)
    try:
        B = seqs.built(I, forms, ls[0][1])
    except seqs.Unknown as e:
        raise Bad(f"the mask is not understood: {e}", R.loc)
    n = I.seq_len(links)
    key = f"mask/{rule}"
    ctx.eq(key + "/one-entry-per-edge", B.trip, n, loc=R.loc)
    ctx.true(key + "/starts-empty", V.pconst(I.seq_len(B.base)) == 0, "mask is prefilled", R.loc)
    care = V.lt(B.K, n)
    lk = I.seq_get(links, B.K)
    fk = pterm(get(ctx, I, lk, "OverlayLink", "fill"))
    tot = V.ZERO
    for cond, e in B.items:
        tot = V.add(tot, V.ite(cond, V.ONE, V.ZERO))
    ctx.eq(key + "/one-each", tot, V.ONE, care, R.loc)
    for code in range(16):
        S = scev.Subst(I, {fk: V.num(code)})
        for cond, e in B.items:
            ctx.eq(f"{key}/hides/{code:04b}", S(e), V.const(not want(code)), V.b_and(care, S(cond)), R.loc)
