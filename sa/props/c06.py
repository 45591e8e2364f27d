"""Pairwise segment intersection.  The intersection routine is interpreted abstractly into decision
diagrams over the four orientation signs (and, for proper crossings, squared distances of the rounded
point), and compared gate by gate with the geometric definition; no segment pair is ever executed.
Rules: which of {nothing, overlap, touch at which end, proper crossing} is reported; which point and
whose end; whether the answer counts as rounded; the collinear-overlap mask; the crossing-point
formula including sign handling; the rounded 128/64 division, decided by a loop invariant."""
from .lib import *


def orient(P, s0, s1):
    return (cross3(s0.a, s0.b, s1.a), cross3(s0.a, s0.b, s1.b), cross3(s1.a, s1.b, s0.a), cross3(s1.a, s1.b, s0.b))


class Seg:
    def __init__(self, I, v):
        self.v = v
        self.a, self.b = P2(I, I.field(v, 0)), P2(I, I.field(v, 1))


def segs(ctx, I):
    ty = ty_of(ctx, "XSegment")
    return I.var("first", ty), I.var("second", ty)


def classification(ctx):
    p = ctx.prog
    I = Interp(p)
    f = p.method("CrossSolver", "cross")
    t, o = segs(ctx, I)
    T_, O_ = Seg(I, t), Seg(I, o)
    radius = ivar("radius", "i64")
    cuts = by_sig(ctx, "split::cross_solver", ["&XSegment", "&XSegment"], "IntPoint")
    if len(cuts) != 1:
        raise Bad(f"the crossing-point routine was not identified: {[c['n'] for c in cuts]}")
    hits = []

    def crosspt(I, fn, args, tys, dty, st, line):
        a, b = (I.contents(st, x) for x in args)
        hits.append((a, b))
        return I.opq(POINT, "crossing", a, b), V.T, st
    I.hooks[cuts[0]["n"]] = crosspt
    R = call(ctx, f, [t, o, radius], interp=I)
    ret = R.ret
    ctx.true("crossing-point/arguments", hits and all(h == (mk("app", ("&", t)), mk("app", ("&", o))) for h in hits),
             f"crossing point is computed from {[(V.show(a), V.show(b)) for a, b in hits][:2]}, expected (first, second)", R.loc)
    Pv = I.opq(POINT, "crossing", mk("app", ("&", t)), mk("app", ("&", o)))
    X = P2(I, Pv)
    d = orient(None, T_, O_)
    z = [V.eq(x, V.ZERO) for x in d]
    sg = [V.signum(x) for x in d]
    nz = V.ZERO
    for c in z:
        nz = V.add(nz, V.ite(c, V.ONE, V.ZERO))
    overlay = conj(*z)
    # one segment lies strictly on one side of the other's line, or they share an end
    apart = disj(V.gt(nz, V.ONE), V.eq(sg[0], sg[1]), V.eq(sg[2], sg[3]))
    touch = V.eq(nz, V.ONE)
    on_o = disj(z[0], z[1])
    # proper crossing: snapping
    exact = conj(V.eq(cross3(T_.a, T_.b, X), V.ZERO), V.eq(cross3(O_.a, O_.b, X), V.ZERO))
    ra0, rb0, ra1, rb1 = dist2(T_.a, X), dist2(T_.b, X), dist2(O_.a, X), dist2(O_.b, X)
    near = disj(*[V.le(r, radius) for r in (ra0, rb0, ra1, rb1)])
    r0, r1 = V.vmin(ra0, rb0), V.vmin(ra1, rb1)
    t_first = V.le(r0, r1)
    t_a, o_a = V.lt(ra0, rb0), V.lt(ra1, rb1)
    te = lambda s: s
    off_o = V.ite(t_a, V.ne(cross3(O_.a, O_.b, T_.a), V.ZERO), V.ne(cross3(O_.a, O_.b, T_.b), V.ZERO))
    off_t = V.ite(o_a, V.ne(cross3(T_.a, T_.b, O_.a), V.ZERO), V.ne(cross3(T_.a, T_.b, O_.b), V.ZERO))
    snap_t = conj(V.b_not(exact), near, t_first, off_o)
    snap_o = conj(V.b_not(exact), near, V.b_not(t_first), off_t)

    names = ctx.prog.variants(adt(ctx, "CrossType"))
    k = {n: V.num(names.index(n)) for n in ("Pure", "TargetEnd", "OtherEnd", "Overlay")}
    mid_kind = choose(k["Pure"], (snap_t, k["TargetEnd"]), (snap_o, k["OtherEnd"]))
    kind = choose(mid_kind, (overlay, k["Overlay"]), (conj(touch, on_o), k["OtherEnd"]), (touch, k["TargetEnd"]))

    some = choose(V.T, (overlay, V.T), (apart, V.F))

    def coord(i):
        g = lambda q: q.x if i == 0 else q.y
        mid = choose(g(X), (snap_t, V.ite(t_a, g(T_.a), g(T_.b))), (snap_o, V.ite(o_a, g(O_.a), g(O_.b))))
        return choose(mid, (z[0], g(O_.a)), (z[1], g(O_.b)), (z[2], g(T_.a)), (z[3], g(T_.b)))
    ctx.eq("reports-a-crossing", I.field(ret, 0, None) if False else ret.a[1], V.ite(some, V.ONE, V.ZERO), loc=R.loc)
    pay = ret.a[3][0]
    got_kind = get(ctx, I, pay, "CrossResult", "cross_type")
    got_pt = P2(I, get(ctx, I, pay, "CrossResult", "point"))
    got_round = get(ctx, I, pay, "CrossResult", "is_round")
    for case, care in (("overlap", conj(some, overlay)), ("touch", conj(some, touch)), ("proper", conj(some, V.eq(nz, V.ZERO)))):
        ctx.eq(f"kind/{case}", got_kind.a[1], kind, care, R.loc)
        if case != "overlap":
            ctx.eq(f"point-x/{case}", got_pt.x, coord(0), care, R.loc)
            ctx.eq(f"point-y/{case}", got_pt.y, coord(1), care, R.loc)
        rounded = V.F if case != "proper" else V.b_not(exact)
        ctx.eq(f"rounded/{case}", got_round, rounded, care, R.loc)
    ctx.eq("always-returns", R.pc, V.T, loc=R.loc)


def mask(ctx):
    p = ctx.prog
    I = Interp(p)
    f = p.method("CrossSolver", "collinear")
    t, o = segs(ctx, I)
    T_, O_ = Seg(I, t), Seg(I, o)
    R = call(ctx, f, [t, o], interp=I)
    # parameters along the direction of the second segment
    dx, dy = V.sub(O_.b.x, O_.a.x), V.sub(O_.b.y, O_.a.y)
    pos = lambda q, r: V.signum(V.add(V.mul(V.sub(q.x, r.x), dx), V.mul(V.sub(q.y, r.y), dy)))
    # assumption: both lie on one line and no segment is empty (established by the classification)
    aa, ab, ba, bb = pos(T_.a, O_.a), pos(T_.a, O_.b), pos(T_.b, O_.a), pos(T_.b, O_.b)
    opp = lambda u, v: conj(V.ne(u, V.ZERO), V.eq(V.add(u, v), V.ZERO))
    inside = {"is_target_a": opp(aa, ab), "is_target_b": opp(ba, bb), "is_other_a": opp(aa, ba), "is_other_b": opp(ab, bb)}
    for nm, want in inside.items():
        q = p.find(r"EndMask>::%s$" % nm)
        if len(q) != 1:
            raise Bad(f"accessor {nm} not found")
        r = call(ctx, q[0], [R.ret], interp=I)
        ctx.eq(f"mask/{nm}", r.ret, want, loc=R.loc)
    none = V.b_not(disj(*inside.values()))
    ctx.eq("mask/empty-is-zero", V.eq(R.ret, V.ZERO), none, loc=R.loc)


def formula(ctx):
    p = ctx.prog
    I = Interp(p)
    f = by_sig(ctx, "split::cross_solver", ["&XSegment", "&XSegment"], "IntPoint", 1)[0]
    divs = by_sig(ctx, "split::cross_solver", ["&UInt128", "u64"], "u64")
    if len(divs) != 1:
        raise Bad(f"the rounding division was not identified: {[d['n'] for d in divs]}")
    U64 = ("int", "u64")

    def quot(I, fn, args, tys, dty, st, line):
        return V.pvar(mk("app", ("rounded_div", I.contents(st, args[0]), args[1]), U64)) if args[1].k != "ite" else \
            V.lapp("rounded_div", I.contents(st, args[0]), args[1], ty=U64), V.T, st
    # the operands stay symbolic: product(|u|, |v|)

    def prod(I, fn, args, tys, dty, st, line):
        return V.lapp("wide_product", args[0], args[1], ty=None), V.T, st
    I.hooks[divs[0]["n"]] = lambda I, fn, a, tys, dty, st, line: (V.lapp("rounded_div", deref(I, st, a[0]), a[1], ty=U64), V.T, st)
    I.hooks["i_float::u128::UInt128::multiply"] = lambda I, fn, a, tys, dty, st, line: (V.lapp("wide_product", *sorted_pair(a[0], a[1]), ty=("other", "wide")), V.T, st)
    t, o = segs(ctx, I)
    T_, O_ = Seg(I, t), Seg(I, o)
    R = call(ctx, f, [t, o], interp=I)
    ax, ay = V.sub(T_.b.x, T_.a.x), V.sub(T_.b.y, T_.a.y)
    b0x, b0y = V.sub(O_.a.x, T_.a.x), V.sub(O_.a.y, T_.a.y)
    b1x, b1y = V.sub(O_.b.x, T_.a.x), V.sub(O_.b.y, T_.a.y)
    ddx, ddy = V.sub(b0x, b1x), V.sub(b0y, b1y)
    xy = V.sub(V.mul(b0x, b1y), V.mul(b0y, b1x))
    div = V.sub(V.mul(ay, ddx), V.mul(ax, ddy))
    s = V.mul(V.signum(div), V.signum(xy))
    W = lambda u: V.lapp("wide_product", *sorted_pair(V.absv(u), V.absv(xy)), ty=("other", "wide"))
    q = lambda u: V.mul(V.mul(V.signum(u), s), V.lapp("rounded_div", W(u), V.absv(div), ty=U64))
    vert, hor = V.eq(ax, V.ZERO), V.eq(ay, V.ZERO)
    got = P2(I, R.ret)
    both = conj(V.ne(div, V.ZERO))
    rx, ry = V.sub(got.x, T_.a.x), V.sub(got.y, T_.a.y)
    skew = conj(V.b_not(vert), V.b_not(hor), both)
    ctx.eq("formula/x/skew", rx, q(ax), skew, R.loc)
    ctx.eq("formula/y/skew", ry, q(ay), skew, R.loc)
    # vertical / horizontal first segment: one coordinate exact, the other an integer quotient (error below one unit)
    I64 = ("int", "i64")
    ctx.eq("formula/x/vertical", rx, V.ZERO, conj(vert, both), R.loc)
    quotient_of(ctx, "formula/y/vertical", ry, conj(vert, both), xy, ddx, I, R)
    ctx.eq("formula/y/horizontal", ry, V.ZERO, conj(hor, V.b_not(vert), both), R.loc)
    quotient_of(ctx, "formula/x/horizontal", rx, conj(hor, V.b_not(vert), both), V.neg(xy), ddy, I, R)
    return I, R, dict(vert=vert, hor=hor, both=both, rx=rx, ry=ry, xy=xy, ddx=ddx, ddy=ddy)


N64 = 1 << 64


def exact64(I, v, no_top=()):
    """rewrite wrapping 64-bit idioms of a value into exact integer polynomials"""
    memo = {}

    def top_(x):
        return V.ZERO if x in no_top else V.pvar(mk("app", ("bounded", x, 0, 1), ("int", "u64")))

    def term(t):
        if t.k == "app":
            op, a = t.a[0], [x for x in t.a[1:]]
            if op == "shl" and V.pconst(a[1]) == 1:
                x = go(a[0])
                return V.sub(V.mul(x, V.num(2)), V.mul(V.num(N64), V.apply("top", top_, x)))
            if op == "shr" and V.pconst(a[1]) == 63:
                return V.apply("top", top_, go(a[0]))
            if op == "and" and V.num(1 << 63) in a:
                x = a[1] if a[0] is V.num(1 << 63) else a[0]
                return V.mul(V.num(1 << 63), V.apply("top", top_, go(x)))
            if op == "or" and len(a) == 2:
                for x, y in ((a[0], a[1]), (a[1], a[0])):
                    tx = as_term(x)
                    ty = as_term(y)
                    low_bit = V.pconst(y) in (0, 1) or (ty is not None and ty.k == "app" and ty.a[0] == "shr" and V.pconst(ty.a[2]) == 63)
                    if tx is not None and tx.k == "app" and tx.a[0] == "shl" and V.pconst(tx.a[2]) == 1 and low_bit:
                        return V.add(go(x), go(y))
            if op == "wrapping_sub":
                x, y = go(a[0]), go(a[1])
                return V.add(V.sub(x, y), V.ite(V.lt(x, y), V.num(N64), V.ZERO))
            if op == "wrapping_add":
                x, y = go(a[0]), go(a[1])
                s = V.add(x, y)
                return V.sub(s, V.ite(V.ge(s, V.num(N64)), V.num(N64), V.ZERO))
        return V.pvar(t)

    def go(n):
        r = memo.get(n.id)
        if r is not None:
            return r
        if n.k == "ite":
            at = n.a[0]
            kids = [go(k) for k in n.a[1:]]
            if at.key[0] == "sgn":
                p = go(V.node(at.key[1]))
                sg = V.signum(p)
                r = V.ite(V.lt(p, V.ZERO), kids[0], V.ite(V.eq(p, V.ZERO), kids[1], kids[2]))
            else:
                r = V.build(at, kids)
        elif n.k == "p":
            r = V.ZERO
            for m, c in n.a:
                x = V.num(c)
                for i in m:
                    x = V.mul(x, term(V.node(i)))
                r = V.add(r, x)
        else:
            r = n
        memo[n.id] = r
        return r
    return go(v)


def as_term(p):
    if p.k == "p" and len(p.a) == 1:
        (m, c), = p.a
        if c == 1 and len(m) == 1:
            return V.node(m[0])
    return None


def rounded_division(ctx):
    p = ctx.prog
    f = by_sig(ctx, "split::cross_solver", ["&UInt128", "u64"], "u64", 1)[0]
    I = Interp(p)
    I.exact_shl = True
    d = ivar("divisor", "u64")
    U = ("adt", "i_float::u128::UInt128", ())
    n = I.var("dividend", U)
    fs = [x[0] for x in p.adt_fields(U)]
    high, low = I.field(n, fs.index("high")), I.field(n, fs.index("low"))
    R = call(ctx, f, [n, d], interp=I)
    small = V.eq(high, V.ZERO)
    pos = (V.sub(d, V.ONE), "ge")
    # --- dividend below 2^64: nearest integer, halves up
    q = I.div(low, d, ("int", "u64"))
    want = V.ite(V.ge(V.mul(V.num(2), V.sub(low, V.mul(q, d))), d), V.add(q, V.ONE), q)
    ctx.eq("division/narrow-is-nearest", R.ret, want, small, R.loc, axioms=[pos] + facts(R.ret, want))
    # --- wide dividend: quotient of restoring long division
    wide = V.b_not(small)
    if not R.loops:
        X = [V.lapp("or", *sorted((I.bitop("shl", ("int", "u128"), high, V.num(64)), low), key=lambda t: t.id), ty=("int", "u128")),
             V.add(V.mul(high, V.num(N64)), low)]
        X += [V.add(I.bitop("shl", ("int", "u128"), high, V.num(64)), low)]
        ok = [I.div(x, d, ("int", "u128")) for x in X]
        ok += [V.add(o, V.ONE) for o in ok]
        bad = [l for l in V.leafset(V.restrict(R.ret, wide)) if l not in ok]
        ctx.true("division/wide-quotient", not bad, f"quotient has the form {[V.show(b) for b in bad][:2]}", R.loc)
        return
    lps = [l for l in R.loops if l.parent is None]
    if len(lps) != 1:
        raise Bad(f"expected one division loop, found {len(lps)}", R.loc)
    lp = lps[0]
    dn = V.lapp("leading_zeros:64", d, ty=None)
    dn = None
    # roles of the loop variables
    inits = {k: (ph, init, lp.nexts[k]) for k, (ph, init) in lp.phis.items()}
    U64 = ("int", "u64")
    lz = find_term(R, lambda t: t.k == "app" and str(t.a[0]).startswith("leading_zeros") and t.a[1] is d)
    if lz is None:
        raise Bad("the divisor is not normalised by its leading zeros", R.loc)
    lz = V.pvar(lz)
    dd = I.bitop("shl", U64, d, lz)
    h0 = I.bitop("or", U64, I.bitop("shl", U64, high, lz), I.bitop("shr", U64, low, V.sub(V.num(64), lz)))
    l0 = I.bitop("shl", U64, low, lz)

    def role(name, init):
        k = [k for k, x in inits.items() if x[1] is init]
        if not k:
            raise Bad(f"no loop variable starts as the {name}", R.loc)
        return k
    H, L = role("high half of the normalised dividend", h0)[0], role("low half of the normalised dividend", l0)[0]
    zeros = [k for k, x in inits.items() if V.pconst(x[1]) == 0]
    step1 = lambda k: V.restrict(inits[k][2], lp.cont) is V.add(inits[k][0], V.ONE)
    counters = [k for k in zeros if step1(k)]
    quots = [k for k in zeros if k not in counters]
    if len(counters) != 1 or len(quots) != 1:
        raise Bad("counter and quotient of the division loop were not identified", R.loc)
    c, Q = counters[0], quots[0]
    ctx.eq("division/64-steps", lp.cont, V.lt(inits[c][0], V.num(64)), V.le(inits[c][0], V.num(64)), R.loc)
    vH, vL, vQ = inits[H][0], inits[L][0], inits[Q][0]
    nH, nL, nQ = (exact64(I, V.restrict(inits[k][2], lp.cont), (vQ,)) for k in (H, L, Q))
    top_ = lambda x: V.pvar(mk("app", ("bounded", x, 0, 1), U64))
    D = V.add(V.mul(vH, V.num(N64)), vL)
    nD = V.add(V.mul(nH, V.num(N64)), nL)
    bit = V.sub(nQ, V.mul(V.num(2), vQ))
    ax = [(V.sub(V.sub(dd, vH), V.ONE), "ge"), (vH, "ge"), (vL, "ge"), (V.sub(V.num(N64 - 1), vL), "ge"), (V.sub(V.num(N64 - 1), dd), "ge"),
          (V.sub(dd, V.num(1 << 63)), "ge")]
    # (Q < 2^k <= 2^63 before step k, so its top bit is clear: exact64 drops it)
    for v in (vH, vL):
        # top bit: v >= 2^63 exactly when set
        t = top_(v)
        ax += [(V.sub(v, V.mul(V.num(1 << 63), t)), "ge"), (V.sub(V.add(V.num((1 << 63) - 1), V.mul(V.num(1 << 63), t)), v), "ge")]
    ctx.eq("division/step-keeps-value", V.sub(V.mul(V.num(2), D), V.mul(bit, V.mul(dd, V.num(N64)))), nD, lp.cont, R.loc, axioms=ax)
    r = compare.possible(V.b_and(lp.cont, disj(V.ge(nH, dd), V.lt(nH, V.ZERO))), axioms=ax)
    # the top bit is an integer: the two rational ends are decided one at a time
    if r:
        r = None
        for a in (0, 1):
            for b in (0, 1):
                more = [(V.sub(top_(vH), V.num(a)), "eq"), (V.sub(top_(vL), V.num(b)), "eq")]
                r = r or compare.possible(V.b_and(lp.cont, disj(V.ge(nH, dd), V.lt(nH, V.ZERO))), axioms=ax + more)
    ctx.true("division/remainder-stays-below-divisor", r is None, r, R.loc)
    ctx.eq("division/bit", disj(V.eq(bit, V.ZERO), V.eq(bit, V.ONE)), V.T, lp.cont, R.loc, axioms=ax)
    bad = [V.show(l)[:200] for l in V.leafset(V.restrict(R.ret, wide)) if l is not vQ and l is not V.add(vQ, V.ONE)]
    ctx.true("division/result-is-quotient-or-next", not bad, f"result {bad[:2]}", R.loc)


def find_term(R, pred):
    seen, st, out = set(), [R.ret], []
    for lp in R.loops:
        for k, (a, b) in lp.phis.items():
            st += [a, b, lp.nexts.get(k, V.ZERO)]
    while st:
        n = st.pop()
        if not isinstance(n, V.N) or n.id in seen:
            continue
        seen.add(n.id)
        if pred(n):
            return n
        if n.k == "p":
            st += [V.node(i) for m, _ in n.a for i in m]
        elif n.k == "ite":
            if n.a[0].key[0] in ("sgn", "b", "d"):
                st.append(V.node(n.a[0].key[1]))
            st += list(n.a[1:])
        else:
            st += [x for x in n.a if isinstance(x, V.N)]
    return None


def quotient_of(ctx, key, got, care, num_, den, I, R):
    """got is num/den rounded to an integer less than one unit away"""
    t = I.div(num_, den, ("int", "i64"))
    s = V.mul(V.signum(num_), V.signum(den))
    forms = [t, V.mul(s, I.div(V.absv(num_), V.absv(den), ("int", "u64"))), V.mul(s, I.div(V.absv(num_), V.absv(den), ("int", "i64")))]
    r = [compare.difference(got, f, care) for f in forms]
    ctx.true(key, any(x is None for x in r), r[0], R.loc)


def sorted_pair(a, b):
    return (a, b) if a.id <= b.id else (b, a)


def deref(I, st, v):
    return I.read(st, v) if v.k == "ref" else v


def run(ctx):
    with ctx.case("classification"):
        classification(ctx)
    with ctx.case("mask"):
        mask(ctx)
    with ctx.case("formula"):
        formula(ctx)
    with ctx.case("division"):
        rounded_division(ctx)
    ctx.floor(15)
