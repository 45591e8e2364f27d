"""Fill rules.  The strategy a rule selects is read off the call of the fill pass made by the builders
(interpreted with the splitting and filling passes as stand-ins); its step is then interpreted with
arbitrary counts and compared with the definition of the rule: which sides are filled, and that the count
passed upwards is the count below plus the edge's own."""
from .links import *
from .c01 import arrange


RULE = {
    "NonZero": lambda w: V.b_not(V.eq(w, V.ZERO)),
    "Positive": lambda w: V.gt(w, V.ZERO),
    "Negative": lambda w: V.lt(w, V.ZERO),
}


def run(ctx):
    p = ctx.prog
    seen = {}
    rules = p.variants(adt(ctx, "FillRule"))
    ctx.true("rules", sorted(rules) == ["EvenOdd", "Negative", "NonZero", "Positive"], f"fill rules are {rules}")
    builders = [("build_without_filter", "ShapeCountBoolean"), ("build_with_filler_filter", "ShapeCountBoolean"),
                ("build_with_overlay_filter", "ShapeCountBoolean"),
                ("build_string_all", "ShapeCountString"), ("build_string_with_clip_rule", "ShapeCountString")]
    for b, count in builders:
        for rule in rules:
            with ctx.case(f"{b}/{rule}"):
                for orule in RULES if b == "build_with_overlay_filter" else [None]:
                    e = {"FillRule": rule}
                    if orule:
                        e["OverlayRule"] = orule
                    s = strategy(ctx, "OverlayLinkBuilder", b, count, e, f"{b}/{rule}/{orule}")
                    seen.setdefault((count, rule), {})[s["id"]] = s
    with ctx.case("offset"):
        s = strategy(ctx, "OverlayGraph", "offset_graph_with_solver", "OffsetCountBoolean", {}, "offset")
        seen[("OffsetCountBoolean", "Positive")] = {s["id"]: s}
    for (count, rule), fs in sorted(seen.items()):
        for f in fs.values():
            with ctx.case(f"{count}/{rule}"):
                step(ctx, count, rule, f)
    ctx.floor(60)


def strategy(ctx, ty, fn, count, enums, key):
    p = ctx.prog
    P = Passes(ctx, count)
    I = Interp(p, hooks=P.hooks)
    f = p.method(ty, fn)
    R = call(ctx, f, arrange(ctx, f, {k: enum_of(ctx, I, k, v) for k, v in enums.items()}), interp=I)
    ctx.true(key + "/one-fill-pass", len(P.calls) == 1, f"{len(P.calls)} calls of the fill pass", R.loc)
    ctx.true(key + "/all-segments", strip(P.calls[0][2]).id == P.split.id, "the fill pass does not see the split segments", R.loc)
    tys = [t for t in P.calls[0][1] if t[0] == "adt" and t[1].split("::")[-1] != count]
    hits = [g for g in p.fns if g["m"] == "add_and_fill" and g["self"] is not None and p.ty(g["self"]) in tys and g["id"] in p.bodies
            and count in p.ty_str(p.ty(p.bodies[g["id"]]["locals"][1]))]
    if len(hits) != 1:
        raise Bad(f"cannot tell the strategy of {fn}: {[g['n'] for g in hits]}", R.loc)
    return hits[0]


def step(ctx, count, rule, f):
    p = ctx.prog
    I = Interp(p)
    s, t = ivar("this_subj"), ivar("bot_subj")
    if rule == "EvenOdd":
        full = lambda w: V.b_not(V.eq(I.bitop("and", ("int", "i32"), w, V.ONE), V.ZERO))
    else:
        full = RULE[rule]
    bit = lambda c, k: V.ite(c, V.num(k), V.ZERO)
    key = f"{count}/{rule}"
    subj = V.add(bit(full(V.add(s, t)), 1), bit(full(t), 2))
    if count == "ShapeCountBoolean":
        u, v = ivar("this_clip"), ivar("bot_clip")
        r = call(ctx, f, [mkstruct(ctx, count, subj=s, clip=u), mkstruct(ctx, count, subj=t, clip=v)], interp=I)
        top, fill = I.field(r.ret, 0), I.field(r.ret, 1)
        want = V.add(subj, V.add(bit(full(V.add(u, v)), 4), bit(full(v), 8)))
        ctx.eq(key + "/sides", fill, want, loc=r.loc)
        ctx.eq(key + "/subject-above", get(ctx, I, top, count, "subj"), V.add(s, t), loc=r.loc)
        ctx.eq(key + "/clip-above", get(ctx, I, top, count, "clip"), V.add(u, v), loc=r.loc)
        return
    if count == "ShapeCountString":
        vals = [(c, d, V.num(c), V.num(d), 4 * c) for c in range(4) for d in range(4)]
        second = "clip"
    else:
        vals = [(c, d, V.const(bool(c)), V.const(bool(d)), 4 * c) for c in range(2) for d in range(2)]
        second = "bold"
    for c, d, x, y, code in vals:
        r = call(ctx, f, [mkstruct(ctx, count, **{"subj": s, second: x}), mkstruct(ctx, count, **{"subj": t, second: y})], interp=I)
        top, fill = I.field(r.ret, 0), I.field(r.ret, 1)
        ctx.eq(f"{key}/sides/{c}{d}", fill, V.add(subj, V.num(code)), loc=r.loc)
        ctx.eq(f"{key}/subject-above/{c}{d}", get(ctx, I, top, count, "subj"), V.add(s, t), loc=r.loc)
