"""Grid fragmentation of long segments.  The routine that spreads a segment over grid columns is
interpreted with a symbolic grid and a symbolic segment; loops are solved in closed form (scalar
evolution), so every insertion becomes (column, rectangle) as a function of the iteration number.
Rules: the columns receiving a fragment are exactly those the segment meets, each once; each rectangle
contains the exact part of the segment in its column (linear facts about the integer divisions);
fragments keep the segment's id and geometry; verticals on a column's left border are registered once."""
from .lib import *
import scev
import seqs
import itertools


def grid(ctx, I):
    """symbolic grid and buffer; columns have width 2^power"""
    mx, Mx, pw = ivar("min_x"), ivar("max_x"), nat("power", 0, 30, "u32")
    lay = mkstruct(ctx, "GridLayout", min_x=mx, max_x=Mx, power=pw)
    ty = ctx.prog.adt_fields(ty_of(ctx, "FragmentBuffer"))
    tys = dict(ty)
    buf = mkstruct(ctx, "FragmentBuffer", layout=lay, groups=I.var("groups", tys["groups"]), on_border=I.var("on_border", tys["on_border"]))
    return mx, pw, buf


def point(ctx, x, y):
    return mk("struct", (POINT[1], x, y))


CASES = ("rising", "falling", "horizontal", "vertical")


def layout_fn(ctx, name):
    return ctx.prog.method("GridLayout", name)


def add_segment(ctx, kind, multi):
    """multi: the segment reaches into at least one further column"""
    p = ctx.prog
    I = Interp(p)
    mx, pw, buf = grid(ctx, I)
    P = pow2(I, pw)
    i0 = nat("first_column", 0, None, "usize")
    H, y0, sid = nat("height", 1), ivar("y"), ivar("id", "usize")
    # a.x = min_x + A with A = P*i0 + (rest below P);  b.x - 1 = min_x + A + W - 1 likewise in column i1
    if multi:
        d, r, q = nat("more_columns", 0, None, "usize"), nat("left_margin"), nat("right_part")
        D = V.add(d, V.ONE)
        A = V.sub(V.sub(V.add(V.mul(P, i0), P), V.ONE), r)
        W = V.add(V.add(V.add(V.mul(P, d), q), r), V.num(2))
        below = [V.sub(V.sub(P, V.ONE), r), q, r]
        base = [(V.sub(V.sub(P, V.ONE), r), "ge"), (V.sub(V.sub(P, V.ONE), q), "ge")]
    else:
        r, w = nat("left_part"), nat("width_minus_1")
        D = V.ZERO
        A = V.add(V.mul(P, i0), r)
        W = V.ONE if kind == "vertical" else V.add(w, V.ONE)
        below = [r] if kind == "vertical" else [r, V.add(r, w)]
        base = [(V.sub(V.sub(P, V.ONE), x), "ge") for x in below]
    i1 = V.add(i0, D)
    I.below_pow2 = [(pw, x) for x in below]
    dx = V.ZERO if kind == "vertical" else W
    dy = {"rising": H, "falling": V.neg(H), "horizontal": V.ZERO, "vertical": H}[kind]
    ax = V.add(mx, A)
    s = mkstruct(ctx, "XSegment", a=point(ctx, ax, y0), b=point(ctx, V.add(ax, dx), V.add(y0, dy)))
    f = p.method("FragmentBuffer", "add_segment")
    R = call(ctx, f, [buf, sid, s], interp=I)
    loc = R.loc
    forms = scev.closed(I, R.loops)
    key = f"{kind}/{'many' if multi else 'one'}/"
    gfield = field_ix(ctx, "FragmentBuffer", "groups")
    evs = []
    for e in R.events:
        if e.kind not in ("push", "extend", "insert"):
            continue
        v = e.data[1]
        if v.k == "struct" and str(v.a[0]).endswith("Fragment"):
            if e.kind != "push":
                raise Bad(f"fragments are added by {e.kind}, not understood", loc)
            evs.append(e)
    ctx.true(key + "inserts-fragments", len(evs) > 0, "no fragment is ever inserted", loc)
    spans = []
    for n, e in enumerate(evs):
        S0 = at_event(I, forms, e)
        c = None
        if e.loops:
            if len(e.loops) != 1:
                raise Bad("fragment insertion in a nested loop is not understood", loc)
            c = forms[e.loops[0].id]
            if c.trip is None:
                raise Bad("the column loop has no closed trip count", loc)
        ref = e.data[0]
        path = ref.a[1] if ref.k == "ref" else ()
        idx = [x for x in path if x[0] == "i"]
        if ref.k != "ref" or ref.a[0] != R.args[0].a[0] or ("f", gfield) not in path or len(idx) != 1:
            raise Bad(f"a fragment is inserted outside the column groups: {V.show(ref)}", loc)
        J0 = S0(idx[0][1])
        pc0 = S0(e.full_pc())
        en = V.T
        if c is not None:
            for x in e.loops[0].entry_ctx:
                en = V.b_and(en, x)
            en = scev.Subst(I, scev.mapping(I, forms, ()))(en)
            if compare.possible(en, axioms=base) is None:
                continue
            if not multi:
                if compare.possible(V.b_and(en, V.gt(c.trip, V.ZERO)), axioms=base) is None:
                    continue
                raise Bad("a column loop runs although the segment stays in one column", loc)
            stepJ = V.sub(scev.Subst(I, {c.kterm.id: V.add(c.K, V.ONE)})(J0), J0)
            ctx.eq(key + "columns-consecutive", stepJ, V.ONE, V.T, loc, base)
            first = scev.Subst(I, {c.kterm.id: V.ZERO})(J0)
            spans.append((en, first, V.add(first, c.trip)))
            m = nat("columns_left", 0, None, "usize")
            k1 = nat("iteration_minus_1", 0, None, "usize")
            did = pterm(d)
            # the first iteration / a later one, of as many as the trip count allows
            variants = [("first-step", {c.kterm.id: V.ZERO}), ("later-step", {c.kterm.id: V.add(k1, V.ONE), did: V.add(V.add(k1, V.ONE), m)})]
        else:
            if compare.possible(pc0, axioms=base) is None:
                continue
            spans.append((pc0, J0, V.add(J0, V.ONE)))
            variants = [("last-step", {})]
        for vn, mp in variants:
            S = lambda v, S0=S0, mp=mp: scev.Subst(I, mp)(S0(v))
            k = key + vn + "/"
            J, pc, v = S(J0), S(pc0), S(e.data[1])
            W_, A_, i1_ = S(W), S(A), S(i1)
            g = lambda nm: get(ctx, I, v, "Fragment", nm)
            rect = g("rect")
            r_ = {kk: I.field(rect, i) for i, kk in enumerate(x[0] for x in p.adt_fields(("adt", "i_float::int::rect::IntRect", ())))}
            ax_ = base + facts(J, pc, *r_.values()) + nested_floor_facts(I, J, pc, *r_.values(), pc=pc, axioms=base)
            if c is not None:
                inside = V.b_and(S(en), V.b_not(S(drop_inner(I, forms, e, pc0))))
                w_ = compare.possible(inside, axioms=ax_)
                ctx.true(k + "always-inserts", w_ is None, f"an iteration inserts nothing when {w_}", loc)
            ctx.eq(k + "fragment-id", g("index"), sid, pc, loc, ax_)
            ctx.eq(k + "fragment-geometry", g("x_segment"), S(s), pc, loc, ax_)
            left, right = V.mul(P, J), V.mul(P, V.add(J, V.ONE))
            xs = A_ if (vn == "first-step" or not multi) else left
            xe = V.add(A_, dx if kind == "vertical" else W_) if vn == "last-step" else right
            off = lambda z: V.sub(z, mx)
            ctx.eq(k + "rect-left", off(r_["min_x"]), xs, pc, loc, ax_)
            ctx.eq(k + "rect-right", off(r_["max_x"]), xe, pc, loc, ax_)
            if kind in ("rising", "falling"):
                for nm, x in (("start", xs), ("end", xe)):
                    yx = V.mul(dy, V.sub(x, A_))
                    lo = V.sub(yx, V.mul(W_, V.sub(r_["min_y"], y0)))
                    hi = V.sub(V.mul(W_, V.sub(r_["max_y"], y0)), yx)
                    for side, z in (("bottom", lo), ("top", hi)):
                        w_ = compare.possible(V.b_and(pc, V.lt(z, V.ZERO)), axioms=ax_)
                        ctx.true(k + f"rect-covers/{side}-at-{nm}", w_ is None, f"the rectangle of some column does not contain the segment's {nm} there when {w_}", loc)
            else:
                lo, hi = (y0, V.add(y0, H)) if kind == "vertical" else (y0, y0)
                ctx.eq(k + "rect-bottom", r_["min_y"], lo, pc, loc, ax_)
                ctx.eq(k + "rect-top", r_["max_y"], hi, pc, loc, ax_)
    cover = V.F
    idxs = range(len(spans))
    last = V.add(i1, V.ONE)
    for k in range(1, len(spans) + 1):
        for perm in itertools.permutations(idxs, k):
            c = V.T
            pos = i0
            for j in idxs:
                en, a, b = spans[j]
                c = V.b_and(c, en if j in perm else V.b_not(en))
            if c is V.F:
                continue
            for j in perm:
                en, a, b = spans[j]
                c = V.b_and(c, V.eq(a, pos))
                pos = b
            c = V.b_and(c, V.eq(pos, last))
            cover = V.b_or(cover, c)
    w = compare.possible(V.b_not(cover), axioms=base)
    ctx.true(key + "columns-covered-exactly-once", w is None, f"the columns receiving a fragment are not exactly those between the first and the last one met, when {w}", loc)
    S = scev.Subst(I, scev.mapping(I, forms, ()))
    # border registration
    reg = V.F
    for e in R.events:
        v = None
        if e.kind == "push" and e.data[1].k == "struct" and str(e.data[1].a[0]).endswith("BorderVSegment"):
            v, keyok = e.data[1], None
        elif e.kind == "map-insert" and any(t.k == "struct" and str(t.a[0]).endswith("BorderVSegment") for t in terms_of(e.data[3])):
            x = I.seq_get(e.data[3], V.ZERO)
            v = x
            ctx.eq(key + "border-key", e.data[2], i0, e.full_pc(), loc)
            ctx.eq(key + "border-single", I.seq_len(e.data[3]), V.ONE, e.full_pc(), loc)
        if v is None:
            continue
        pc = at_event(I, forms, e)(e.full_pc())
        reg2 = V.b_and(reg, pc)
        ctx.true(key + "border-once", compare.possible(reg2, axioms=base) is None, "registered twice", loc)
        reg = V.b_or(reg, pc)
        ctx.eq(key + "border-id", get(ctx, I, v, "BorderVSegment", "id"), sid, pc, loc)
        yr = get(ctx, I, v, "BorderVSegment", "y_range")
        ctx.eq(key + "border-range", yr, mkstruct(ctx, "LineRange", min=y0, max=V.add(y0, dy)), pc, loc)
    want = V.F
    if kind == "vertical":
        want = V.b_and(V.gt(i0, V.ZERO), V.eq(r, V.ZERO))
    ctx.eq(key + "border-registration", reg, want, V.T, loc, base)


def pterm(v):
    (m, c), = v.a
    return m[0]


def drop_inner(I, forms, e, pc):
    """condition of an insertion with the exits of finished inner loops assumed"""
    inner = V.T
    for c in forms.values():
        if c.lp.parent is not None and c.lp.parent.id == e.loops[0].id:
            S = at_event(I, forms, e)
            inner = V.b_and(inner, S(c.exit_cond()))
    return V.b_or(pc, V.b_not(inner))


def layout(ctx):
    p = ctx.prog
    I = Interp(p)
    mx, Mx, pw = ivar("min_x"), ivar("max_x"), nat("power", 0, 30, "u32")
    lay = mkstruct(ctx, "GridLayout", min_x=mx, max_x=Mx, power=pw)
    P = pow2(I, pw)
    ix, ps = layout_fn(ctx, "index"), layout_fn(ctx, "pos")
    off = nat("offset")
    r = call(ctx, ix, [lay, V.add(mx, off)], interp=I)
    # floor: pos(index(x)) <= x < pos(index(x) + 1)
    a = call(ctx, ps, [lay, r.ret], interp=I).ret
    b = call(ctx, ps, [lay, V.add(r.ret, V.ONE)], interp=I).ret
    x = V.add(mx, off)
    fs = facts(r.ret, a, b)
    ctx.true("layout/column-start", compare.possible(V.lt(x, a), axioms=fs) is None, "a column starts after the points it holds", r.loc)
    ctx.true("layout/column-end", compare.possible(V.ge(x, b), axioms=fs) is None, "a column ends before the points it holds", r.loc)
    j = nat("j", 0, None, "usize")
    c0 = call(ctx, ps, [lay, j], interp=I).ret
    c1 = call(ctx, ps, [lay, V.add(j, V.ONE)], interp=I).ret
    ctx.eq("layout/column-width", V.sub(c1, c0), P, loc=r.loc)
    ctx.eq("layout/first-column", call(ctx, ps, [lay, V.ZERO], interp=I).ret, mx, loc=r.loc)
    # the buffer has a group for every column up to the right end
    new = p.method("FragmentBuffer", "new")
    R = call(ctx, new, [lay], interp=I)
    g = get(ctx, I, R.ret, "FragmentBuffer", "groups")
    last = call(ctx, ix, [lay, Mx], interp=I).ret
    n = I.seq_len(g)
    ctx.true("buffer/has-last-column", compare.possible(V.le(n, last)) is None, f"{V.show(n)} groups, last column {V.show(last)}", R.loc)
    ctx.eq("buffer/layout", get(ctx, I, R.ret, "FragmentBuffer", "layout"), lay, loc=R.loc)
    # with_min_max: refuses tiny ranges, otherwise keeps the range
    w = p.method("GridLayout", "with_min_max")
    lo, D, mp = ivar("lo"), nat("span", 0), nat("max_power", 0, None, "u32")
    R = call(ctx, w, [lo, V.add(lo, D), mp], interp=I)
    tag = R.ret.a[1]
    care = V.eq(tag, V.ONE)
    ctx.true("layout/refuses-empty-range", compare.possible(V.b_and(care, V.eq(D, V.ZERO))) is None, "a grid over an empty range", R.loc)
    ctx.true("layout/accepts-some", compare.possible(care) is not None, "no grid is ever built", R.loc)
    pay = R.ret.a[3][0]
    ctx.eq("layout/min", get(ctx, I, pay, "GridLayout", "min_x"), lo, care, R.loc)
    ctx.eq("layout/max", get(ctx, I, pay, "GridLayout", "max_x"), V.add(lo, D), care, R.loc)
    pw = get(ctx, I, pay, "GridLayout", "power")
    ctx.true("layout/power-at-least-1", compare.possible(V.b_and(care, V.lt(pw, V.ONE))) is None, f"power {V.show(pw)}", R.loc)


def extent(ctx):
    """the grid built for a set of segments (sorted by their first ends) spans all of them"""
    p = ctx.prog
    I = Interp(p)
    f = p.method("GridLayout", "new")
    R = call(ctx, f, interp=I)
    ok = V.eq(R.ret.a[1], V.ONE)
    lay = R.ret.a[3][0]
    lo, hi = get(ctx, I, lay, "GridLayout", "min_x"), get(ctx, I, lay, "GridLayout", "max_x")
    src = {t.id: t for t in terms_of(R.ret.a[1], lo, hi, *[x for l in R.loops for x in l.nexts.values()]) if t.k == "app" and t.a[0] == "items"}
    if len(src) != 1:
        raise Bad(f"expected one source of segments, found {len(src)}", R.loc)
    items, = src.values()
    n = I.seq_len(items)
    end = lambda k, e: I.field(get(ctx, I, I.seq_get(items, k), "XSegment", e), 0)
    care = conj(ok, V.ge(n, V.ONE))
    ctx.true("extent/some-segments", compare.possible(conj(ok, V.lt(n, V.ONE))) is None, "a grid for no segments", R.loc)
    bound(ctx, I, R, "extent/right", hi, care, n, lambda k: end(k, "b"), V.ge)
    first = end(V.ZERO, "a")
    if compare.difference(lo, first, care) is None:
        ctx.record("extent/left", True)      # the segments are sorted
    else:
        bound(ctx, I, R, "extent/left", lo, care, n, lambda k: end(k, "a"), V.le)


def bound(ctx, I, R, key, M, care, n, elem, rel):
    """M bounds elem(k) for every k < n: an accumulator of a loop over all k"""
    for c, leaf in seqs.leaves(M):
        if compare.possible(conj(c, care)) is None:
            continue
        hit = None
        for l in R.loops:
            for k, (ph, init) in l.phis.items():
                for x in leaf_parts(ph, l.nexts[k], init):
                    if x[0] is leaf:
                        hit = (l,) + x
        if hit is None:
            raise Bad(f"the bound is not accumulated over the segments: {V.show(leaf)[:160]}", R.loc)
        l, ph, nx, init = hit
        if l.parent is not None:
            raise Bad("nested loop", R.loc)
        pos = []
        for k, (p_, i_) in l.phis.items():
            if p_.k == "p" and compare.difference(l.nexts[k], V.add(p_, V.ONE), l.cont) is None:
                for z in (V.ZERO, V.ONE):
                    if compare.difference(i_, z, l.entry_pc) is None:
                        pos.append((p_, z, None))
        done = False
        why = "the loop does not visit the segments one by one"
        for p_, i_, _ in pos:
            ex = disj(*[pc for _, pc, _ in l.exits])
            if compare.possible(conj(ex, V.lt(p_, n))) is not None:
                continue
            why = None
            if compare.possible(conj(l.cont, V.b_not(rel(nx, ph)))) is not None and V.pconst(i_) == 1:
                why = "the bound can shrink"
            start = conj(l.cont, V.eq(p_, V.ZERO)) if V.pconst(i_) == 0 else V.F
            later = conj(l.cont, V.gt(p_, V.ZERO))
            if compare.possible(conj(later, V.b_not(rel(nx, ph)))) is not None:
                why = "the bound can shrink: " + str(compare.possible(conj(later, V.b_not(rel(nx, ph)))))
            if compare.possible(conj(l.cont, V.b_not(rel(nx, elem(p_))))) is not None:
                why = "a segment may reach beyond the bound: " + str(compare.possible(conj(l.cont, V.b_not(rel(nx, elem(p_))))))
            if V.pconst(i_) == 1 and compare.possible(conj(l.entry_pc, V.b_not(rel(init, elem(V.ZERO))))) is not None:
                why = "the first segment is left out"
            done = True
            break
        ctx.true(key, done and why is None, why, R.loc)


def leaf_parts(ph, nx, init):
    yield ph, nx, init
    if nx.k == "enum" and nx.a[0].endswith("Option") and nx.a[3]:
        pass


def clear(ctx):
    p = ctx.prog
    I = Interp(p)
    mx, pw, buf = grid(ctx, I)
    f = p.method("FragmentBuffer", "clear")
    R = call(ctx, f, [buf], interp=I)
    ob = get(ctx, I, R.out[0], "FragmentBuffer", "on_border")
    ctx.true("clear/borders", ob.k == "app" and ob.a == ("map0",), "border registrations survive a clear", R.loc)
    g = get(ctx, I, R.out[0], "FragmentBuffer", "groups")
    forms = scev.closed(I, R.loops)
    each = [e for e in R.events if e.kind in ("clear", "truncate") and any(l.id for l in e.loops)]
    whole = I.seq_len(g)
    ok = False
    for e in each:
        c = forms[e.loops[-1].id]
        S = at_event(I, forms, e)
        ref = e.data[0]
        idx = [x for x in ref.a[1] if x[0] == "i"] if ref.k == "ref" else []
        n = I.seq_len(get(ctx, I, buf, "FragmentBuffer", "groups"))
        if idx and S(idx[0][1]) is c.K and c.trip is not None and compare.difference(c.trip, n) is None and S(e.pc) is not V.F:
            if compare.possible(V.b_and(V.lt(c.K, n), V.b_not(S(e.full_pc())))) is None:
                ok = True
    ctx.true("clear/groups", ok, "not every column group is emptied", R.loc)


def run(ctx):
    for k in CASES:
        for multi in (False, True):
            if multi and k == "vertical":
                continue
            with ctx.case(f"{k}/{'many' if multi else 'one'}"):
                add_segment(ctx, k, multi)
    with ctx.case("layout"):
        layout(ctx)
    with ctx.case("extent"):
        extent(ctx)
    with ctx.case("clear"):
        clear(ctx)
    ctx.floor(50)
