"""No overflow for coordinates below 2^30.

Every integer addition, subtraction, multiplication, shift, negation and narrowing met while the geometry
routines (and the i_float routines they call) are interpreted is an obligation: its exact result lies in the
range of its type.  Intervals are propagated along the computation; where they do not suffice, the exact
linear value is refuted against the path condition and the shape of the inputs."""
from .lib import *
import ranges
import scev

LEVEL = "other"
C = (1 << 30) - 1


def watch(ctx, hooks=None):
    I = Interp(ctx.prog, hooks=hooks or {})
    I.ranges = ranges.Ranges(C)
    return I


def settle(ctx, I, R, nm, axioms=(), skip=lambda e: False, at_least=1, more=None):
    forms = scev.closed(I, R.loops)
    count, proved, found = 0, [], {}
    extra = more(forms) if more else []
    for e in I.events:
        if e.kind != "op":
            continue
        op, t, x, r, a, b = e.data
        lo, hi = ranges.type_range(t)
        if t == "usize" and op in ("Add", "Sub", "Mul") or skip(e):
            continue
        count += 1
        key = f"{nm}/{(e.fn or '').split('::')[-1]}:{op}-{t}"
        if lo <= x[0] and x[1] <= hi:
            ctx.record(key, True)
            continue
        S = at_event(I, forms, e)
        v, pc = S(r if op != "cast" else a), S(e.full_pc())
        ax = list(axioms) + extra + turns(forms, e)
        x = ranges.meet(x, quotient(I, S, pc, ax, a, b)) if op == "Mul" else x
        x = ranges.meet(x, capped(I, S, v, ax, R, proved, pc))
        if op == "Mul":
            p, q = (ranges.meet(extent(I, S, pc, ax, z), capped(I, S, S(z), ax, R, proved, pc)) for z in (a, b))
            x = ranges.meet(x, ranges.times(p, q))
            found[r] = x
        if op in ("Add", "Sub"):
            p, q = (found[z] if z in found else extent(I, S, pc, ax, z) for z in (a, b))
            y = (p[0] + q[0], p[1] + q[1]) if op == "Add" else (p[0] - q[1], p[1] - q[0])
            x = found[r] = ranges.meet(x, y)
        ax += proved
        if lo <= x[0] and x[1] <= hi:
            ctx.record(key, True)
            continue
        ok = conj(V.ge(v, V.num(lo)) if x[0] < lo else V.T, V.le(v, V.num(hi)) if x[1] > hi else V.T)
        w = compare.implies(pc, ok, ax + facts(v, pc))
        ctx.true(key, w is None, f"{V.show(v)[:160]} may leave {t} (up to 2^{max(abs(x[0]), abs(x[1])).bit_length()}) when {w}", f"{e.fn}:{e.line}")
    ctx.true(f"{nm}/looked-at", count >= at_least, f"{count} operations", R.loc)


def turns(forms, e):
    """iteration k of n: n - 1 - k is not negative, nor is any power of two times it"""
    out = []
    for l in e.loops:
        c = forms.get(l.id)
        if c is None or c.trip is None or c.trip.k != "p":
            continue
        z = V.sub(V.sub(c.trip, V.ONE), c.K)
        out.append((z, "ge"))
        for t in terms_of(c.trip, *[x for x in c.form.values() if isinstance(x, V.N)]):
            if t.k == "app" and t.a[0] == "pow2":
                out.append((V.mul(V.pvar(t), z), "ge"))
                out.append((V.mul(V.sub(V.pvar(t), V.ONE), c.K), "ge"))
    return out


def extent(I, S, pc, ax, z):
    """the interval of an operand, narrowed to that of a coordinate difference when that can be shown"""
    x = I.ranges.of(z)
    if x[1] > 2 * C or x[0] < -2 * C:
        v = S(z)
        for lo, hi in ((0, 2 * C), (-2 * C, 2 * C)):
            if compare.implies(pc, conj(V.ge(v, V.num(lo)), V.le(v, V.num(hi))), ax + facts(v, pc)) is None:
                return ranges.meet(x, (lo, hi))
    return x


def single(v, op):
    """the term of a value that is just that term"""
    if v.k == "p" and len(v.a) == 1:
        (m, c), = v.a
        if c == 1 and len(m) == 1:
            t = V.node(m[0])
            if t.k == "app" and t.a[0] == op:
                return t
    return None


def quotient(I, S, pc, ax, a, b):
    """w * (n / d) does not exceed n when 0 <= w <= d"""
    big = (-(1 << 200), 1 << 200)
    for x, y in ((a, b), (b, a)):
        t = single(y, "idiv")
        if t is None or I.ranges.of(t.a[1])[0] < 0:
            continue
        d = S(t.a[2])
        if compare.implies(pc, conj(V.le(S(x), d), V.ge(S(x), V.ZERO)), ax) is None:
            n = I.ranges.of(t.a[1])
            I.ranges.under.setdefault(S(V.mul(x, y)), []).append(t.a[1])
            return (0, n[1])
    return big


def rescaled(I, S, v):
    """(m >> e) does not exceed y when m <= y * 2^e: such a y"""
    if v.k == "ite":
        ys = {rescaled(I, S, l) for l in V.leafset(v) if l.k != "undef"}
        return ys.pop() if len(ys) == 1 else None
    t = single(v, "shr")
    if t is not None:
        for n in I.ranges.under.get(t.a[1], []):
            for y, z in I.ranges.products.get(n, ()):
                if isinstance(z, tuple) and z[0] == "pow2" and S(z[1]) is t.a[2]:
                    return y
    return None


def divided(I, pc, ax, t):
    """y * w / d, rounded down or up, does not exceed y when 0 <= w <= d: such a y"""
    n, d = t.a[1], t.a[2]
    for slack in (V.ZERO, V.sub(d, V.ONE)):
        q = V.sub(n, slack)
        if q.k != "p" or not q.a:
            continue
        for i in sorted(set.intersection(*[set(m) for m, _ in q.a])):
            y = V.pvar(V.node(i))
            if I.ranges.of(y)[0] < 0:
                continue
            w = {}
            for m, c in q.a:
                rest = list(m)
                rest.remove(i)
                w[tuple(rest)] = c
            w = V.poly(w)
            if compare.implies(pc, conj(V.ge(w, V.ZERO), V.le(w, d)), ax) is None:
                return y
    return None


def capped(I, S, v, ax, R, proved, pc=V.T):
    """terms of v that are bounded by another value: scaled quotients, and counters that stop at it"""
    out = (-(1 << 200), 1 << 200)
    for t in terms_of(v):
        tv = V.pvar(t) if t.k != "p" and t.k != "ite" else None
        if tv is None:
            continue
        y = rescaled(I, S, tv)
        if y is None and t.k == "app" and t.a[0] == "idiv":
            y = divided(I, pc, ax, t)
        if y is None:
            for l in R.loops:
                for k, (ph, init) in l.phis.items():
                    if ph is tv and k in l.nexts:
                        y = rescaled(I, S, S(init))
                        t0 = single(S(init), "idiv")
                        y = divided(I, pc, ax, t0) if y is None and t0 is not None else y
                        if y is None or compare.difference(l.nexts[k], V.add(ph, V.ONE), l.cont) is not None:
                            y = None
                            continue
                        stop = scev.Subst(I, {t.id: y})(S(l.cont))
                        more = [(V.mul(y, z), s) for z, s in ax if len(z.a) < 6]
                        if compare.possible(stop, ax + more) is not None:
                            y = None
        if y is not None and I.ranges.of(y)[0] >= 0:
            proved.append((V.sub(y, tv), "ge"))
            proved.append((tv, "ge"))
            if tv is v:
                out = (0, I.ranges.of(y)[1])
    y = rescaled(I, S, v) if v.k == "ite" else None
    return out if y is None or I.ranges.of(y)[0] < 0 else ranges.meet(out, (0, I.ranges.of(y)[1]))


def run(ctx):
    p = ctx.prog
    for ty, m, tr in (("VSegment", "is_under_point_order", None), ("VSegment", "is_under_segment", None), ("VSegment", "cmp", "Ord"), ("VSegment", "cmp_by_angle", None), ("CrossSolver", "collinear", None)):
        with ctx.case(f"{ty}.{m}"):
            f = p.method(ty, m, tr) if tr else p.method(ty, m)
            I = watch(ctx)
            R = call(ctx, f, interp=I)
            settle(ctx, I, R, m)
    with ctx.case("turning"):
        I = watch(ctx)
        R = call(ctx, p.method("NearestVector", "new"), interp=I)
        R = call(ctx, p.method("NearestVector", "add"), [R.ret, I.var("offer", POINT), None], interp=I)
        settle(ctx, I, R, "turning")
    with ctx.case("cross"):
        cross(ctx)
    with ctx.case("crossing-point"):
        crossing(ctx)
    with ctx.case("columns"):
        columns(ctx)
    for kind in ("rising", "falling", "horizontal", "vertical"):
        with ctx.case(f"fragments/{kind}"):
            fragments(ctx, kind)
    ctx.floor(60)


def cross(ctx):
    f = ctx.prog.method("CrossSolver", "cross")
    cut = by_sig(ctx, "split::cross_solver", ["&XSegment", "&XSegment"], "IntPoint", 1)[0]
    I = watch(ctx, {cut["n"]: lambda I, fn, a, tys, dty, st, line: (I.opq(POINT, "crossing"), V.T, st)})
    R = call(ctx, f, interp=I)
    settle(ctx, I, R, "cross")


def crossing(ctx):
    f = by_sig(ctx, "split::cross_solver", ["&XSegment", "&XSegment"], "IntPoint", 1)[0]
    div = by_sig(ctx, "split::cross_solver", ["&UInt128", "u64"], "u64", 1)[0]
    # the quotient does not exceed the extent of the first segment, and the point lies on it (C06)
    I = watch(ctx, {div["n"]: lambda I, fn, a, tys, dty, st, line: (V.lapp("rounded_div", I.contents(st, a[0]), a[1], ty=("int", "u64")), V.T, st),
                    "UInt128::multiply": lambda I, fn, a, tys, dty, st, line: (V.lapp("wide_product", a[0], a[1], ty=("other", "wide")), V.T, st)})
    R = call(ctx, f, interp=I)
    q = P2(I, R.ret)
    settle(ctx, I, R, "crossing-point", skip=lambda e: e.data[0] == "cast" and e.data[1] == "i32" and (e.data[3] is q.x or e.data[3] is q.y))


def columns(ctx):
    p = ctx.prog
    mx, Mx, pw, x = ivar("min_x"), ivar("max_x"), nat("power", 0, 30, "u32"), ivar("x")
    lay = mkstruct(ctx, "GridLayout", min_x=mx, max_x=Mx, power=pw)
    far = [V.sub(V.num(C), Mx), V.add(mx, V.num(C)), V.sub(x, mx), V.sub(Mx, x)]
    I = watch(ctx)
    I.ranges.fact(V.sub(x, mx), 0, 2 * C)
    R = call(ctx, p.method("GridLayout", "index"), [lay, x], interp=I)
    settle(ctx, I, R, "column-of", [(z, "ge") for z in far])
    I = watch(ctx)
    j = nat("column", 0, None, "usize")
    R = call(ctx, p.method("GridLayout", "pos"), [lay, j], interp=I)
    settle(ctx, I, R, "border", [(z, "ge") for z in far[:2]] + [(V.sub(V.sub(Mx, mx), V.mul(pow2(I, pw), j)), "ge"), (V.mul(V.sub(pow2(I, pw), V.ONE), j), "ge")])
    I = watch(ctx)
    lo, hi = ivar("lo"), ivar("hi")
    R = call(ctx, p.method("GridLayout", "with_min_max"), [lo, hi, nat("max_power", 0, 31, "u32")], interp=I)
    settle(ctx, I, R, "layout", [(V.sub(hi, lo), "ge")])


def fragments(ctx, kind):
    from .c09 import grid, point
    p = ctx.prog
    I = watch(ctx)
    mx, pw, buf = grid(ctx, I)
    P = pow2(I, pw)
    i0 = nat("first_column", 0, None, "usize")
    H, y0, sid = nat("height", 1), ivar("y"), ivar("id", "usize")
    if kind == "vertical":
        r = nat("left_part")
        A, W, below = V.add(V.mul(P, i0), r), V.ZERO, [r]
        base = [V.sub(V.sub(P, V.ONE), r)]
    else:
        d, r, q = nat("more_columns", 0, None, "usize"), nat("left_margin"), nat("right_part")
        A = V.sub(V.sub(V.add(V.mul(P, i0), P), V.ONE), r)
        W = V.add(V.add(V.add(V.mul(P, d), q), r), V.num(2))
        below = [V.sub(V.sub(P, V.ONE), r), q, r]
        base = [V.sub(V.sub(P, V.ONE), r), V.sub(V.sub(P, V.ONE), q)]
    I.below_pow2 = [(pw, x) for x in below]
    dy = {"rising": H, "falling": V.neg(H), "horizontal": V.ZERO, "vertical": H}[kind]
    ax, ay = V.add(mx, A), y0
    bx, by = V.add(ax, W), V.add(y0, dy)
    base += [V.sub(V.num(C), bx), V.add(mx, V.num(C)), V.sub(V.num(C), y0), V.add(y0, V.num(C)), V.sub(V.num(C), by), V.add(by, V.num(C))]
    for v in (ax, bx, by):
        I.ranges.fact(v, -C, C)
    I.ranges.fact(W, 0 if kind == "vertical" else 2, 2 * C)
    I.ranges.fact(H, 1, 2 * C)
    I.ranges.fact(i0, 0, 2 * C)
    if kind != "vertical":
        I.ranges.fact(d, 0, 2 * C - 1)
    s = mkstruct(ctx, "XSegment", a=point(ctx, ax, ay), b=point(ctx, bx, by))
    R = call(ctx, p.method("FragmentBuffer", "add_segment"), [buf, sid, s], interp=I)
    settle(ctx, I, R, f"fragments/{kind}", [(z, "ge") for z in base + [V.sub(V.num(1 << 30), P)] + [V.mul(V.sub(P, V.ONE), z) for z in ([i0] if kind == "vertical" else [i0, d])]])
