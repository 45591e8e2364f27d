"""Nearest-vector selection.  The constructor and the update are interpreted abstractly; every scalar
becomes a decision diagram over orientation signs.  Rule 1: offering point p to a selector built from
(c, a, b) leaves a selector indistinguishable from one built from (c, a, winner), for all inputs and both
directions (so the claim extends by induction to any number of offers).  Rule 2: the winner is the one met
first when rotating from a about c in the requested direction.  Rule 3: the reported id is the winner's."""
from .lib import *

ANCHOR = "core/nearest_vector.rs"


def run(ctx):
    p = ctx.prog
    new = p.method("NearestVector", "new")
    add = p.method("NearestVector", "add")
    I = Interp(p)
    pt = lambda n: I.var(n, ("adt", "i_float::int::point::IntPoint", ()))
    c, a, b, q = pt("c"), pt("a"), pt("b"), pt("p")
    i, j = ivar("id_b", "usize"), ivar("id_p", "usize")
    for cw in (True, False):
        d = "clockwise" if cw else "counterclockwise"
        with ctx.case(f"offer/{d}"):
            r0 = call(ctx, new, [c, a, b, i, V.const(cw)], interp=I)
            r1 = call(ctx, add, [r0.ret, q, j], interp=I)
            got = r1.out[0]

            X = lambda u, v: V.sub(V.mul(sub_(I, u, c, 0), sub_(I, v, c, 1)), V.mul(sub_(I, u, c, 1), sub_(I, v, c, 0)))
            # signed so that "positive = to be reached by turning further than half a turn"
            sgn = (lambda x: x) if cw else V.neg
            far_b = V.ge(sgn(X(a, b)), V.ZERO)
            far_p = V.ge(sgn(X(a, q)), V.ZERO)
            before = V.lt(sgn(X(q, b)), V.ZERO)          # p is met before b when both lie in the same half turn
            win = V.ite(V.b_or(V.b_and(far_b, far_p), V.b_and(V.b_not(far_b), V.b_not(far_p))), before, far_b)
            ctx.eq(f"winner-id/{d}", get(ctx, I, got, "NearestVector", "best_id"), V.ite(win, j, i), loc=r1.loc)
            r2 = call(ctx, new, [c, a, V.ite(win, q, b), V.ite(win, j, i), V.const(cw)], interp=I)
            ctx.eq(f"state-is-canonical/{d}", got, r2.ret, loc=r1.loc)
            ctx.eq(f"initial-id/{d}", get(ctx, I, r0.ret, "NearestVector", "best_id"), i, loc=r0.loc)
            ctx.eq(f"always-returns/{d}", r1.pc, V.T, loc=r1.loc)
    ctx.floor(8)


def sub_(I, u, c, k):
    return V.sub(I.field(u, k), I.field(c, k))
