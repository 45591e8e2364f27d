"""Contours of strokes and outlines.

The walks over the edges of a stroked path or an offset contour are those of C20, with two differences: every edge that
bounds the filled area takes part, and a contour is kept only if one of its edges is bold (is part of the offset
boundary and not a chord across a corner).  Obligations: the graph is built from all split edges, the edges walked are
the ones with the body on one side, one round of each loop from any state, and the bold flag is the union over the
links of the walk."""
from .links import *
from . import c20
from .c20 import one, seq_at
import scev

G = "OverlayGraph"


def run(ctx):
    for cw in (False, True):
        with ctx.case(f"contours/{'clockwise' if cw else 'counterclockwise'}"):
            c20.shapes(ctx, cw, offset=True)
    with ctx.case("walk"):
        c20.walk_points(ctx, "get_fill_path", bold=bvar("bold before"))
    with ctx.case("entry"):
        entry(ctx)
    with ctx.case("graph"):
        graph(ctx)
    ctx.floor(60)


def entry(ctx):
    """the edges with the body on one side, and the caller's direction and area"""
    p = ctx.prog
    I = Interp(p)
    sel = mk("v", ("selected",), ("slice", ("bool",)))

    def filt(I, f, args, tys, dty, st, line):
        I.event("filter", (seq_at(I, st, args[0]), I.expand(args[1])), line)
        return sel, V.T, st

    def shapes(I, f, args, tys, dty, st, line):
        I.event("shapes", (args[0], seq_at(I, st, args[1]), I.expand(args[2]), args[3]), line)
        return mk("v", ("shapes",), dty), V.T, st
    I.hooks.update({"filter_by_rule": filt, "extract_offset_shapes": shapes})
    d = I.var("main_direction", ty_of(ctx, "ContourDirection"))
    R = call(ctx, p.method(G, "extract_offset"), [None, d], interp=I)
    s = one(ctx, R, "shapes")
    e = one(ctx, R, "filter")
    ctx.true("entry/links", e.data[0] is get(ctx, I, I.var("self", ty_of(ctx, G)), G, "links"), "other links are selected", R.loc)
    ctx.eq("entry/subject", e.data[1], enum_of(ctx, I, "OverlayRule", "Subject"), loc=R.loc)
    ctx.true("entry/selected", s.data[1] is sel, "the walks do not start from the selected links", R.loc)
    ctx.eq("entry/direction", s.data[2], I.expand(d), loc=R.loc)
    ctx.eq("entry/area", s.data[3], ivar("min_area", "usize"), loc=R.loc)
    ctx.eq("entry/always", s.pc, V.T, loc=R.loc)
    ctx.true("entry/result", R.ret.k == "v" and R.ret.a[0] == "shapes", f"the result is {V.show(R.ret)[:150]}", R.loc)


def graph(ctx):
    """every split edge becomes a link of the graph"""
    p = ctx.prog
    P = Passes(ctx, "OffsetCountBoolean")
    I = Interp(p, hooks=P.hooks)

    def new(I, f, args, tys, dty, st, line):
        I.event("new", (I.expand(args[0]), seq_at(I, st, args[1])), line)
        return mk("v", ("graph", len(I.events) - 1), dty), V.T, st
    I.hooks["OverlayGraph::new"] = new
    sv = I.var("solver", ty_of(ctx, "Solver"))
    R = call(ctx, p.method(G, "offset_graph_with_solver"), [None, sv], interp=I)
    links = None
    for c, l in seqs.leaves(R.ret):
        if l.k != "v" or l.a[0] != "graph":
            raise Bad(f"the result is {V.show(l)[:150]}", R.loc)
        e = R.events[l.a[1]]
        ctx.eq("graph/solver", e.data[0], I.expand(sv), c, R.loc)
        links = e.data[1] if links is None else V.ite(c, e.data[1], links)
    R.ret = links
    check_all(ctx, I, R, P, "graph", lambda c: True)
