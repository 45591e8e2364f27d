"""Vector helpers of the buffering code, interpreted into rational expressions over the coordinates and
compared with what they stand for: rotation by an angle or by a unit vector, unit normal, scaled
orthogonal, and the mitred corner of two offset edges (kind and position, with the grid rounding kept
abstract).  Floating point is treated as exact; rounding error is out of scope."""
from .lib import *

ASSUMPTIONS = ["floating-point operations are treated as exact real operations (no rounding, NaN or infinity)"]
PT = ("param", "P")


def vec(ctx, n):
    return mk("struct", ("P", fvar(n + ".x"), fvar(n + ".y")))


def fvar(n):
    return V.pvar(V.var(n, ("param", "T")))


def xy(ctx, v):
    return v.a[1], v.a[2]


def point(I, x, y):
    return I.point(x, y)


def same_point(ctx, key, got, x, y, care=V.T, loc=""):
    I = Interp(ctx.prog)
    a = I.point(x, y)
    ctx.eq(key, got, a, care, loc)


def run(ctx):
    p = ctx.prog
    I = Interp(p)
    rot = p.method("Rotator", "rotate")
    v = I.point(fvar("v.x"), fvar("v.y"))
    vx, vy = fvar("v.x"), fvar("v.y")
    cs, sn, ang = fvar("cs"), fvar("sn"), V.pvar(V.var("angle", ("float", "f64")))
    u = I.point(fvar("u.x"), fvar("u.y"))
    f64 = ("float", "f64")
    for key, mt, args, c, s in (("matrix", "new", [cs, sn], cs, sn),
                                ("angle", "with_angle", [ang], V.lapp("cos", ang, ty=f64), V.lapp("sin", ang, ty=f64)),
                                ("unit-vector", "with_vector", [u], fvar("u.x"), fvar("u.y"))):
        with ctx.case(f"rotate/{key}"):
            r = call(ctx, p.method("Rotator", mt), args, interp=I)
            q = call(ctx, rot, [r.ret, v], interp=I)
            same_point(ctx, f"rotate/{key}", q.ret, V.sub(V.mul(c, vx), V.mul(s, vy)), V.add(V.mul(s, vx), V.mul(c, vy)), loc=q.loc)
    with ctx.case("normal"):
        a, b = I.point(fvar("a.x"), fvar("a.y")), I.point(fvar("b.x"), fvar("b.y"))
        r = call(ctx, p.method("Math", "normal"), [a, b], interp=I)
        dx, dy = V.sub(fvar("a.x"), fvar("b.x")), V.sub(fvar("a.y"), fvar("b.y"))
        k = I.inv(V.lapp("sqrt", V.add(V.mul(dx, dx), V.mul(dy, dy)), ty=("param", "T")))
        same_point(ctx, "normal", r.ret, V.mul(dx, k), V.mul(dy, k), loc=r.loc)
    with ctx.case("orthogonal"):
        s = fvar("s")
        r = call(ctx, p.method("Math", "ortho_and_scale"), [v, s], interp=I)
        same_point(ctx, "orthogonal", r.ret, V.neg(V.mul(vy, s)), V.mul(vx, s), loc=r.loc)
    with ctx.case("miter"):
        miter(ctx)
    ctx.floor(14)


def miter(ctx):
    p = ctx.prog
    I = Interp(p)
    i32 = ("int", "i32")
    grid = lambda x, y: mk("struct", (POINT[1], V.lapp("grid_x", x, ty=i32), V.lapp("grid_y", y, ty=i32)))

    def to_int(I, fn, args, tys, dty, st, line):
        q = I.contents(st, args[1])
        q = q.a[1] if q.k == "app" and q.a[0] == "&" else q
        return grid(q.a[1], q.a[2]), V.T, st
    I.hooks["FloatPointAdapter::<P, T>::float_to_int"] = to_int
    I.hooks["float_to_int"] = to_int
    names = ("pa", "pb", "va", "vb")
    pts = [I.point(fvar(n + ".x"), fvar(n + ".y")) for n in names]
    f = p.method("Miter", "sharp")
    r = call(ctx, f, pts, names=names, interp=I)
    c = {n: (fvar(n + ".x"), fvar(n + ".y")) for n in names}
    xx, yy = V.add(c["va"][0], c["vb"][0]), V.add(c["va"][1], c["vb"][1])
    kx = V.mul(V.sub(c["pb"][0], c["pa"][0]), I.inv(xx))
    ky = V.mul(V.sub(c["pb"][1], c["pa"][1]), I.inv(yy))
    ax, ay = V.absv(xx), V.absv(yy)
    k = V.ite(V.gt(ax, ay), kx, ky)
    # the quotient with the larger divisor; at a tie either is the same number
    care = V.ne(ax, ay)
    ia, ib = grid(*c["pa"]), grid(*c["pb"])
    ic = grid(V.add(c["pa"][0], V.mul(k, c["va"][0])), V.add(c["pa"][1], V.mul(k, c["va"][1])))
    eqp = lambda a, b: conj(*[V.eq(x, y) for x, y in zip(a.a[1:], b.a[1:])])
    flat = eqp(ia, ib)
    on_end = disj(eqp(ia, ic), eqp(ib, ic))
    vs = p.variants(adt(ctx, "SharpMiter"))
    ix = {n: vs.index(n) for n in ("Degenerate", "AB", "AcB")}
    want = choose(V.num(ix["AcB"]), (flat, V.num(ix["Degenerate"])), (on_end, V.num(ix["AB"])))
    ctx.eq("miter/kind", r.ret.a[1], want, care, r.loc)
    ab = conj(care, V.b_not(flat), on_end)
    acb = conj(care, V.b_not(flat), V.b_not(on_end))
    for n, i, w, cr in (("AB", 0, ia, ab), ("AB", 1, ib, ab), ("AcB", 0, ia, acb), ("AcB", 1, ic, acb), ("AcB", 2, ib, acb)):
        got = r.ret.a[2 + ix[n]][i]
        for j, t in ((1, "x"), (2, "y")):
            ctx.eq(f"miter/{n}/{i}/{t}", I.field(got, j - 1), w.a[j], cr, r.loc)
