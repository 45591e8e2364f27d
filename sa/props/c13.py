"""Style builders.  Every builder is interpreted on an arbitrary style and an arbitrary argument; the
resulting style is compared, setting by setting, with the same style in which only the setting in question
is replaced by the argument moved into its permitted range.  Defaults and constructors are compared with
their documented values."""
from .lib import *
from fractions import Fraction

ASSUMPTIONS = ["floating-point operations are treated as exact real operations; a product of two constants is rounded to f64"]
T = ("param", "T")
PI = 3.141592653589793


def fvar(n):
    return V.pvar(V.var(n, T))


def run(ctx):
    p = ctx.prog
    num_ = lambda x: V.as_poly(V.num(V._norm(Fraction(x))))
    LC, LJ = adt(ctx, "LineCap"), adt(ctx, "LineJoin")
    cv, jv = p.variants(LC), p.variants(LJ)
    I = Interp(p)

    def cap(kind, val=None):
        pay = {"Round": (val,), "Custom": (mk("v", ("custom_points",), ("adt", "alloc::vec::Vec", (("param", "P"),))),)}
        return mk("enum", (LC, V.num(cv.index(kind))) + tuple(pay.get(n, ()) if n == kind else () for n in cv))

    def join(kind, val=None):
        return mk("enum", (LJ, V.num(jv.index(kind))) + tuple((val,) if n == kind and n != "Bevel" else () for n in jv))

    def clamp(x, lo, hi):
        return V.vmin(V.vmax(x, lo), hi)

    rnd = lambda x: clamp(x, num_(0.01 * PI), num_(0.25 * PI))
    mit = lambda x: clamp(x, num_(0.01 * PI), num_(0.99 * PI))
    stroke = ("width", "start_cap", "end_cap", "join")
    outline = ("outer_offset", "inner_offset", "join")

    def base(name):
        return I.var("style", ("adt", adt(ctx, name), (("param", "P"), T) if name == "StrokeStyle" else (T,)))

    def same_setting(key, got, want, care, loc):
        """settings may be enums with a payload"""
        if want.k == "enum":
            ctx.eq(key + "/kind", got.a[1] if got.k == "enum" else I.discr(got), want.a[1], care, loc)
            vs = cv if want.a[0] == LC else jv
            k = V.pconst(want.a[1])
            if k is not None and want.a[2 + k]:
                x, w = got.a[2 + k][0], want.a[2 + k][0]
                if key.startswith("outline/join"):
                    x, w = ((mit if vs[k] == "Miter" else rnd)(y) for y in (x, w))
                ctx.eq(key + "/value", x, w, care, loc)
        else:
            ctx.eq(key, got, want, care, loc)

    def check(key, name, fields, method, arg, changes, care=V.T):
        with ctx.case(key):
            s = base(name)
            f = p.method(name, method)
            r = call(ctx, f, [s, arg], interp=I)
            for n in fields:
                got = get(ctx, I, r.ret, name, n)
                if n in changes:
                    same_setting(f"{key}/{n}", got, changes[n], care, r.loc)
                else:
                    ctx.eq(f"{key}/keeps-{n}", got, get(ctx, I, s, name, n), care, r.loc)
    w = fvar("width")
    check("stroke/width", "StrokeStyle", stroke, "width", w, {"width": V.vmax(w, V.ZERO)})
    a = fvar("angle")
    for side in ("start_cap", "end_cap"):
        for kind in ("Butt", "Square", "Custom"):
            check(f"stroke/{side}/{kind}", "StrokeStyle", stroke, side, cap(kind), {side: cap(kind)})
        check(f"stroke/{side}/Round", "StrokeStyle", stroke, side, cap("Round", a), {side: cap("Round", rnd(a))})
    check("stroke/join/Bevel", "StrokeStyle", stroke, "line_join", join("Bevel"), {"join": join("Bevel")})
    check("stroke/join/Miter", "StrokeStyle", stroke, "line_join", join("Miter", a), {"join": join("Miter", mit(a))})
    check("stroke/join/Round", "StrokeStyle", stroke, "line_join", join("Round", a), {"join": join("Round", rnd(a))})
    o = fvar("offset")
    check("outline/offset", "OutlineStyle", outline, "offset", o, {"outer_offset": o, "inner_offset": o})
    check("outline/outer", "OutlineStyle", outline, "outer_offset", o, {"outer_offset": o})
    check("outline/inner", "OutlineStyle", outline, "inner_offset", o, {"inner_offset": o})
    for kind in jv:
        # the offset clamps what it is given, so a setting may be stored clamped or as given
        check(f"outline/join/{kind}", "OutlineStyle", outline, "line_join", join(kind, a), {"join": join(kind, a)})
    for ty, kinds, mkv, lims in (("LineCap", cv, cap, {"Round": rnd}), ("LineJoin", jv, join, {"Round": rnd, "Miter": mit})):
        for kind in kinds:
            with ctx.case(f"clamp/{ty}/{kind}"):
                r = call(ctx, p.method(ty, "normalize"), [mkv(kind, a)], interp=I)
                same_setting(f"clamp/{ty}/{kind}", r.ret, mkv(kind, lims[kind](a) if kind in lims else a), V.T, r.loc)
    with ctx.case("defaults"):
        for name, fields, want in (("StrokeStyle", stroke, dict(width=V.ONE, start_cap=cap("Butt"), end_cap=cap("Butt"), join=join("Bevel"))),
                                   ("OutlineStyle", outline, dict(outer_offset=V.ONE, inner_offset=V.ONE, join=join("Bevel")))):
            r = call(ctx, p.method(name, "default", "Default"), [], interp=I)
            for n in fields:
                same_setting(f"default/{name}/{n}", get(ctx, I, r.ret, name, n), want[n], V.T, r.loc)
            x = fvar("given")
            r = call(ctx, p.method(name, "new"), [x], interp=I)
            # a constructor sets the size (a negative width is outside the documented range) and keeps the defaults
            over = {"width": x} if name == "StrokeStyle" else {"outer_offset": x, "inner_offset": x}
            for n in fields:
                same_setting(f"new/{name}/{n}", get(ctx, I, r.ret, name, n), over.get(n, want[n]), V.ge(x, V.ZERO) if n == "width" else V.T, r.loc)
    ctx.floor(60)
