"""Decomposing a contour at its repeated points.

The points are numbered and sorted, so that equal points form runs; the points of runs of two or more are the
anchors, taken in order of their number.  Between two neighbouring anchors no point is repeated.  The open paths Q
are kept so that together they run through the points since the first anchor, each starting at the anchor it
stands for.  One step with anchor a must be

  the last open path gets the points between it and a;
  Q[s] stands for a's point:  Q[s..] joined is a finished contour, Q := Q[..s] + (path starting at a)
  no open path does:          Q := Q + (path starting at a)

At the end the open paths, the points behind the last and those before the first anchor form the last contour.
By induction the edges of the contours are those of the original and no contour repeats a point."""
from .lib import *
from .c10 import pieces, same_pieces, show
from .c17 import whole
import scev
import seqs


def run(ctx):
    p = ctx.prog
    fs = [f for f in p.fns if f["m"] == "decompose_contours" and p.bodies.get(f["id"]) is not None]
    ctx.true("found", len(fs) == 1, "decompose_contours of a contour")
    with ctx.case("decompose"):
        decompose(ctx, fs[0])
    ctx.floor(30)


def decompose(ctx, f):
    p = ctx.prog
    I = Interp(p)
    I.fresh_sorts = {}
    src = mk("v", ("points",), ("slice", POINT))
    n = I.seq_len(src)
    r = call(ctx, f, [src], interp=I)
    forms = scev.closed(I, r.loops)
    if len(I.fresh_sorts) != 2:
        raise Bad(f"expected one sort by point and one by number, found {len(I.fresh_sorts)} sorts", r.loc)
    (S, (s_in, s_cmp, s_kind, _)), (A, (a_in, a_cmp, a_kind, _)) = I.fresh_sorts.items()
    idp = adt(ctx, "IdPoint")
    pt = lambda v: get(ctx, I, v, "IdPoint", "point")
    num = lambda v: get(ctx, I, v, "IdPoint", "id")
    xy = lambda v: (get(ctx, I, v, "IntPoint", "x"), get(ctx, I, v, "IntPoint", "y"))
    same = lambda a, b: V.b_and(V.eq(xy(a)[0], xy(b)[0]), V.eq(xy(a)[1], xy(b)[1]))
    big = V.ge(n, V.num(3))
    # 1. numbering and sorting
    whole_numbered(ctx, I, r, s_in, src, n, pt, num, xy, big)
    by_point(ctx, I, r, s_cmp, s_kind, pt, xy, ty_of(ctx, "IdPoint"))
    by_number(ctx, I, r, a_cmp, a_kind, num, ty_of(ctx, "IdPoint"))
    lens = [(V.sub(I.seq_len(S), n), "eq")]
    # 2. runs
    runs(ctx, I, r, forms, S, a_in, n, pt, xy, same, big, lens)
    # 3. nothing to do
    none = V.b_not(V.eq(r.ret.a[1], V.ONE))
    empty = V.eq(I.seq_len(a_in), V.ZERO)
    ctx.eq("none-iff-simple", none, empty, big, loc=r.loc, axioms=lens)
    # 4. open paths
    loops = [l for l in r.loops if l.parent is None]
    el = lambda ph: I.norm_seq(ph.ty)
    hit = []
    for l in loops:
        sq = [(k, ph, i) for k, (ph, i) in l.phis.items() if I.is_seq(ph) and el(ph) is not None]
        c = [x for x in sq if I.norm_seq(el(x[1])) == POINT]
        q = [x for x in sq if I.norm_seq(el(x[1])) is None and el(x[1])[0] == "adt" and el(x[1])[1].split("::")[-1] not in ("IdPoint", "IntPoint")]
        if q and c:
            hit.append((l, q, c))
    if len(hit) != 1 or len(hit[0][1]) != 1 or len(hit[0][2]) != 1:
        raise Bad(f"expected one loop over the anchors with open paths and contours, found {len(hit)}", r.loc)
    lp, ((qk, Q, q0),), ((ck, C, c0),) = hit[0]
    sub = el(Q)
    names = {}
    sym = I.var("#sub", sub)
    for fn in fields_of(ctx, sub[1])[1]:
        v = get(ctx, I, sym, sub[1], fn)
        names.setdefault(kind_of(I, v), []).append(fn)
    if any(len(names.get(k, ())) != 1 for k in ("int", "point", "path")):
        raise Bad(f"an open path is not a position, a point and points: {names}", r.loc)
    F_ = {k: v[0] for k, v in names.items()}
    part = lambda v, k: get(ctx, I, v, sub[1], F_[k])
    ctx.eq("open/starts-empty", I.seq_len(q0), V.ZERO, loc=r.loc)
    ctx.eq("contours/starts-empty", I.seq_len(c0), V.ZERO, loc=r.loc)
    c = forms[lp.id]
    if c.trip is None:
        raise Bad("the loop over the anchors has no closed number of iterations", r.loc)
    ctx.eq("every-anchor-once", c.trip, I.seq_len(A), loc=r.loc)
    K = c.K
    live = V.b_and(V.ge(K, V.ZERO), V.lt(K, I.seq_len(A)))
    a = I.expand(I.seq_get(A, K))
    here = scev.Subst(I, scev.mapping(I, forms, [lp]))
    nQ = here(V.restrict(lp.nexts[qk], lp.cont))
    nC = here(V.restrict(lp.nexts[ck], lp.cont))
    # the search
    inner = [l for l in r.loops if l.parent is lp and forms[l.id].trip is None]
    srch = []
    for l in inner:
        m = scev.Subst(I, scev.mapping(I, forms, [lp, l]))
        k = forms[l.id].K
        go = m(l.cont)
        q = I.seq_len(Q)
        care = V.b_and(live, V.ge(k, V.ZERO))
        # the open paths stand for distinct points, so they may be tried in either direction, before or after
        # the last one has been continued
        tip = part(I.expand(I.seq_get(Q, V.sub(q, V.ONE))), "point")
        shapes = []
        for p in (k, V.sub(V.sub(q, V.ONE), k)):
            at = part(I.expand(I.seq_get(Q, p)), "point")
            isl = V.eq(p, V.sub(q, V.ONE))
            shapes.append((p, V.b_and(V.lt(k, q), V.b_not(same(at, pt(a))))))
            shapes.append((p, V.b_and(V.lt(k, q), V.b_not(V.ite(isl, same(tip, pt(a)), same(at, pt(a)))))))
        d, exp = next((x for x in shapes if compare.difference(go, x[1], care, axioms=[(q, "ge")]) is None), shapes[0])
        srch.append((l, k, d, go, exp, care, q))
    if not srch:
        raise Bad("no search for an open path that stands for the anchor's point", r.loc)
    if len(srch) != 1:
        raise Bad(f"expected one search per anchor, found {len(srch)}", r.loc)
    l, k, d, go, exp, care, q = srch[0]
    ctx.eq("search/first-open-path-at-the-point", go, exp, care, r.loc, axioms=[(q, "ge")])
    inside = scev.Subst(I, scev.mapping(I, forms, [lp, l]))
    nQ, nC = inside(nQ), inside(nC)
    pos = d
    ax = [(q, "ge"), (k, "ge"), (V.sub(q, k), "ge"), (V.sub(q, pos), "ge"), (V.sub(n, num(a)), "ge"), (num(a), "ge")]
    found = V.lt(k, q)
    lastq = V.sub(q, V.ONE)
    tip = I.expand(I.seq_get(Q, lastq))

    def joined(v, care):
        """v is Q with the points up to the anchor added to its last path"""
        if v is Q:
            return compare.possible(conj(care, V.gt(q, V.ZERO)), ax) is None
        if v.k != "app" or v.a[0] != "store" or v.a[1] is not Q:
            return False
        if compare.difference(v.a[2], lastq, care, axioms=ax) is not None:
            return False
        x = v.a[3]
        want = [("s", part(tip, "path"), V.ZERO, I.seq_len(part(tip, "path"))), ("s", src, part(tip, "int"), num(a))]
        x_, y_ = xy(part(x, "point")), xy(part(tip, "point"))
        paths = [(conj(care, c2), l) for c2, l in seqs.leaves(part(x, "path"))]
        return all(same_pieces(pieces(I, l), want, c2, ax) for c2, l in paths if compare.possible(c2, ax) is not None) and all(compare.difference(s, t, care, axioms=ax) is None for s, t in zip(x_, y_))

    def fresh(v, care):
        if compare.difference(part(v, "int"), V.add(num(a), V.ONE), care, axioms=ax) is not None:
            return f"continues at {V.show(part(v, 'int'))[:100]}"
        if any(compare.difference(s, t, care, axioms=ax) is not None for s, t in zip(xy(part(v, "point")), xy(pt(a)))):
            return f"stands for {V.show(part(v, 'point'))[:100]}"
        ps = pieces(I, part(v, "path"))
        if len(ps) != 1 or ps[0][0] != "e" or any(compare.difference(s, t, care, axioms=ax) is not None for s, t in zip(xy(ps[0][1]), xy(pt(a)))):
            return f"starts with {show(ps)[:200]}"
        return None

    for cc, v in seqs.leaves(nQ):
        cr = conj(cc, live)
        if compare.possible(cr, ax) is None:
            continue
        ps = pieces(I, v)
        ok = len(ps) == 2 and ps[0][0] == "s" and ps[1][0] == "e"
        ctx.true("step/open-path-for-the-anchor", ok, f"the open paths become {show(ps)[:400]}", r.loc)
        if not ok:
            continue
        bad = fresh(ps[1][1], cr)
        ctx.true("step/new-path", bad is None, f"the path opened at the anchor {bad}", r.loc)
        _, base, lo, hi = ps[0]
        for what, cond in (("found", found), ("not-found", V.b_not(found))):
            cw = conj(cr, cond)
            if compare.possible(cw, ax) is None:
                continue
            ctx.eq(f"step/{what}/kept-from", lo, V.ZERO, cw, r.loc, axioms=ax)
            ctx.eq(f"step/{what}/kept-to", hi, pos if what == "found" else q, cw, r.loc, axioms=ax)
            if what == "found":
                ctx.true("step/found/kept", base is Q or joined(base, cw), f"keeps paths of {V.show(base)[:300]}", r.loc)
            else:
                ctx.true("step/not-found/joined", joined(base, cw), f"keeps {V.show(base)[:400]}, expected the last path to continue to the anchor", r.loc)
    taken = V.F
    for cc, v in seqs.leaves(nC):
        cr = conj(cc, live)
        if v is C or compare.possible(cr, ax) is None:
            continue
        ps = seqs.pushes(v, C)
        ok = ps is not None and len(ps) == 1
        ctx.true("step/contour", ok, f"the contours become {V.show(v)[:300]}", r.loc)
        if not ok:
            continue
        taken = V.b_or(taken, cc)
        seq, lo, cnt = flat(ctx, I, r, forms, ps[0], lambda x: part(x, "path"), [lp, l])
        for c2, s in seqs.leaves(I.named.get(seq, seq)):
            s = inside(s)
            cs = conj(cr, inside(c2), found)
            if compare.possible(cs, ax) is None:
                continue
            q_ = pieces(I, s)
            ok = len(q_) == 1 and q_[0][0] == "s"
            ctx.true("step/contour-of", ok, f"joins {show(q_)[:300]}", r.loc)
            if not ok:
                continue
            ctx.eq("step/contour-from", V.add(q_[0][2], inside(lo)), pos, cs, r.loc, axioms=ax)
            ctx.eq("step/contour-all", inside(cnt), V.sub(q, pos), cs, r.loc, axioms=ax)
            ctx.true("step/contour-joined", joined(q_[0][1], cs), f"joins paths of {V.show(q_[0][1])[:400]}, expected the last to continue to the anchor", r.loc)
    ctx.eq("step/contour-iff-found", taken, found, live, r.loc, axioms=ax)
    # 5. the last contour
    fin = r.ret.a[3][0]
    some = V.b_not(none)
    first, tl = I.seq_get(A, V.ZERO), part(tip, "int")
    ax = [(q, "ge"), (V.sub(q, V.ONE), "ge"), (num(first), "ge"), (V.sub(n, tl), "ge"), (V.sub(n, num(first)), "ge"), (n, "ge")] + lens
    for cc, v in seqs.leaves(fin):
        cr = conj(cc, some)
        if compare.possible(cr, ax) is None:
            continue
        ps = seqs.pushes(v, C)
        ok = ps is not None and len(ps) == 1
        ctx.true("end/contour", ok, f"the contours become {V.show(v)[:300]}", r.loc)
        if not ok:
            continue
        for c2, s in seqs.leaves(ps[0]):
            cs = conj(cr, c2)
            if compare.possible(cs, ax) is None:
                continue
            q_ = pieces(I, s)
            q_ = [x for x in q_ if not (x[0] == "s" and compare.difference(x[2], x[3], cs, axioms=ax) is None)]
            if not q_ or q_[0][0] != "s":
                ctx.true("end/open-paths", False, f"the last contour is {show(q_)[:300]}", r.loc)
                continue
            seq, lo, cnt = flat(ctx, I, r, forms, q_[0][1], lambda x: part(x, "path"), [])
            ctx.true("end/open-paths", seq is Q, f"joins {V.show(seq)[:200]}, expected the open paths", r.loc)
            ctx.eq("end/from-first", lo, V.ZERO, cs, r.loc, axioms=ax)
            ctx.eq("end/all", cnt, q, cs, r.loc, axioms=ax)
            want = [("s", src, tl, n), ("s", src, V.ZERO, num(first))]
            want = [x for x in want if compare.difference(x[2], x[3], cs, axioms=ax) is not None]
            rest = q_[1:]
            ctx.true("end/rest", same_pieces(rest, want, cs, ax), f"the last contour ends with {show(rest)[:300]}, expected {show(want)}", r.loc)


def kind_of(I, v):
    if I.is_seq(v):
        return "path"
    if v.k == "struct":
        return "point"
    return "int" if v.k == "p" else "other"


def flat(ctx, I, r, forms, v, path, outer):
    """v is the concatenation of path(x) for the elements x of a sequence: -> (sequence, first index, count)"""
    hit = seqs.loop_of(I, forms, v)
    if hit is None:
        raise Bad(f"not a concatenation of paths: {V.show(v)[:200]}", r.loc)
    d, key, init = hit
    if d.trip is None:
        raise Bad("paths are concatenated by a loop without a closed number of iterations", r.loc)
    ctx.eq("concatenation/starts-empty", I.seq_len(init), V.ZERO, loc=r.loc)
    nx = scev.Subst(I, d.form)(V.restrict(d.lp.nexts[key], d.lp.cont))
    if nx.k != "app" or nx.a[0] != "cat" or nx.a[1] is not v:
        raise Bad(f"an iteration does not append a path: {V.show(nx)[:200]}", r.loc)
    x = nx.a[2]
    els = [t for t in terms_of(x) if t.k == "app" and t.a[0] == "sel"]
    for t in els:
        if path(I.expand(I.seq_get(t.a[1], t.a[2]))) is x:
            lo = V.sub(t.a[2], d.K)
            if lo.k == "p" and not any(V.node(i) is d.kterm for m, _ in lo.a for i in m):
                return t.a[1], lo, d.trip
    raise Bad(f"an iteration appends {V.show(x)[:200]}, expected the next path", r.loc)


def whole_numbered(ctx, I, r, got, src, n, pt, num, xy, care):
    """element k of the sorted input is (k, src[k])"""
    forms = scev.closed(I, r.loops)
    B = seqs.built(I, forms, got)
    ctx.eq("numbered/one-per-point", B.trip, n, care, r.loc)
    ctx.eq("numbered/starts-empty", I.seq_len(B.base), V.ZERO, care, r.loc)
    t = V.ZERO
    for c, e in B.items:
        t = V.add(t, V.ite(c, V.ONE, V.ZERO))
        cr = conj(care, c, V.lt(B.K, n))
        ctx.eq("numbered/number", num(e), B.K, cr, r.loc)
        for i in (0, 1):
            ctx.eq(f"numbered/{'xy'[i]}", xy(pt(e))[i], xy(I.seq_get(src, B.K))[i], cr, r.loc)
    ctx.eq("numbered/each-once", t, V.ONE, conj(care, V.lt(B.K, n)), r.loc)


def two(I, ty):
    return I.expand(I.var("#x", ty)), I.expand(I.var("#y", ty))


def order(I, key, kind, ty):
    """less/equal/greater (as -1, 0, 1) of two elements under a comparator or a key"""
    if kind == "sort_by":
        if key.k != "enum":
            raise Bad(f"the comparison is not understood: {V.show(key)[:200]}")
        return V.sub(key.a[1], V.ONE)
    return None


def lex(pairs):
    out = V.ZERO
    for a, b in reversed(pairs):
        out = V.ite(V.lt(a, b), V.num(-1), V.ite(V.eq(a, b), out, V.ONE))
    return out


def by_point(ctx, I, r, key, kind, pt, xy, ty):
    """differing points are ordered lexicographically, in one of the eight ways"""
    x, y = two(I, ty)
    (ax, ay), (bx, by) = xy(pt(x)), xy(pt(y))
    o = order(I, key, kind, ty)
    if o is None:
        parts = key_parts(I, key, xy)
        ok = {id(z) for z in parts[:2]} == {id(ax), id(ay)}
        ctx.true("sorted/by-point", ok, f"sorted by {V.show(key)[:200]}, expected the point", r.loc)
        return
    diff = V.b_not(V.b_and(V.eq(ax, bx), V.eq(ay, by)))
    pairs = [(ax, bx), (ay, by)]
    for ps in (pairs, pairs[::-1]):
        for sx in (0, 1):
            for sy in (0, 1):
                q = [p[::-1] if s else p for p, s in zip(ps, (sx, sy))]
                if compare.difference(o, lex(q), diff) is None:
                    ctx.true("sorted/by-point", True, "")
                    return
    ctx.true("sorted/by-point", False, f"the order {V.show(o)[:300]} of differing points is not lexicographic: equal points need not be neighbours", r.loc)


def key_parts(I, key, xy):
    out = []
    st = [key]
    while st:
        k = st.pop(0)
        if k.k == "struct" and len(k.a) > 1:
            st = list(k.a[1:]) + st
        else:
            out.append(k)
    return out


def by_number(ctx, I, r, key, kind, num, ty):
    x, y = two(I, ty)
    o = order(I, key, kind, ty)
    if o is None:
        ctx.true("anchors/by-number", key_parts(I, key, None)[0] is num(x), f"sorted by {V.show(key)[:200]}, expected the number of the point", r.loc)
        return
    a, b = num(x), num(y)
    ctx.eq("anchors/by-number", o, lex([(a, b)]), V.b_not(V.eq(a, b)), r.loc)


def runs(ctx, I, r, forms, S, a_in, n, pt, xy, same, big, lens):
    """a_in is the concatenation of the runs of two or more equal points of S"""
    ls = I.seq_len(S)
    lfs = seqs.leaves(a_in)
    phis = {}
    for l in r.loops:
        if l.parent is None:
            for k, (ph, i) in l.phis.items():
                phis[ph.id] = (l, k, ph, i)
    base = None
    for cc, v in lfs:
        for x in pieces(I, v):
            if x[0] == "s" and x[1].id in phis:
                base = phis[x[1].id]
    if base is None:
        raise Bad(f"the anchors are not collected by a loop: {V.show(a_in)[:200]}", r.loc)
    lp, ak, A, a0 = base
    c = forms[lp.id]
    if c.trip is None:
        raise Bad("the loop over the sorted points has no closed number of iterations", r.loc)
    K = c.K
    m = dict(scev.mapping(I, forms, [lp]))
    ctx.eq("runs/starts-empty", I.seq_len(a0), V.ZERO, loc=r.loc)
    fold = scev.Subst(I, m)
    live = conj(V.ge(K, V.ZERO), V.lt(K, c.trip), big)
    # the current sorted point
    cand = {}
    for t in terms_of(fold(lp.nexts[ak]), *path_atoms(fold(lp.nexts[ak]))):
        if t.k == "app" and t.a[0] == "sel" and t.a[1] is S:
            d = V.sub(t.a[2], K)
            if V.pconst(d) is not None:
                cand[V.pconst(d)] = t.a[2]
    if not cand:
        raise Bad("the loop does not look at the sorted points", r.loc)
    off = max(cand)
    i = V.add(K, V.num(off))
    ctx.eq("runs/from-the-second", V.num(off), V.ONE, loc=r.loc)
    ctx.eq("runs/every-point", V.add(c.trip, V.ONE), ls, big, r.loc, axioms=lens)
    cur, prev = I.expand(I.seq_get(S, i)), I.expand(I.seq_get(S, V.sub(i, V.ONE)))
    # remembered point = the previous one
    mem = {}
    for key, (ph, init) in lp.phis.items():
        t = scev.phi_term(ph)
        if t is None or t.id in m:
            continue
        for ax_ in (0, 1):
            if compare.difference(fold(init), xy(pt(I.expand(I.seq_get(S, V.ZERO))))[ax_], V.T) is None:
                mem.setdefault(key, []).append((t, ax_, ph))
    good = {}
    for key, cs in mem.items():
        for t, ax_, ph in cs:
            good[key] = (t, ax_, ph)
    changed = True
    while changed:
        changed = False
        sub = dict(m)
        for t, ax_, ph in good.values():
            sub[t.id] = xy(pt(prev))[ax_]
        F2 = scev.Subst(I, sub)
        for key in list(good):
            t, ax_, ph = good[key]
            nx = F2(V.restrict(lp.nexts[key], lp.cont))
            if compare.difference(nx, xy(pt(cur))[ax_], live) is not None:
                del good[key]
                changed = True
    F2 = scev.Subst(I, sub)
    eqn = same(pt(cur), pt(prev))
    nA = F2(V.restrict(lp.nexts[ak], lp.cont))
    # where the current run starts
    starts = {}
    for cc, v in seqs.leaves(nA):
        if v is A or compare.possible(conj(cc, live)) is None:
            continue
        ps = pieces(I, v)
        ok = len(ps) == 2 and ps[0][0] == "s" and ps[0][1] is A and ps[1][0] == "s" and ps[1][1] is S
        ctx.true("runs/adds-a-run", ok, f"the anchors become {show(ps)[:300]}", r.loc)
        if not ok:
            raise Bad("an iteration does not add a run of sorted points", r.loc)
        starts[ps[1][2].id] = ps[1][2]
        ctx.eq("runs/run-end", ps[1][3], i, conj(cc, live), r.loc)
    if len(starts) != 1:
        raise Bad(f"expected one place where runs are added, found {len(starts)}", r.loc)
    lo = list(starts.values())[0]
    # lo as a function of the loop variables: first value, and how it changes
    init, nxt = {}, {}
    for key, (ph, i0) in lp.phis.items():
        t = scev.phi_term(ph)
        if t is None or t.id in m:
            continue
        init[t.id] = i0
        nxt[t.id] = F2(V.restrict(lp.nexts[key], lp.cont))
    init[c.kterm.id] = V.ZERO
    nxt[c.kterm.id] = V.add(K, V.ONE)
    lo1 = scev.Subst(I, nxt)(lo)
    ctx.eq("runs/first-start", scev.Subst(I, init)(lo), V.ZERO, loc=r.loc)
    inv = [(lo, "ge"), (V.sub(V.sub(i, V.ONE), lo), "ge")]
    nats = [(V.pvar(t), "ge") for t in terms_of(lo) if t.k == "v"]
    ctx.eq("runs/start-kept", lo1, lo, conj(live, eqn), r.loc, axioms=inv + nats)
    ctx.eq("runs/start-moved", lo1, i, conj(live, V.b_not(eqn)), r.loc, axioms=inv + nats)
    long = V.ge(V.sub(i, lo), V.num(2))
    taken = V.F
    for cc, v in seqs.leaves(nA):
        if v is not A:
            taken = V.b_or(taken, cc)
    ctx.eq("runs/added-iff-repeated", taken, V.b_and(V.b_not(eqn), long), live, r.loc, axioms=inv + nats)
    # the last run
    fin2 = lambda v: scev.Subst(I, {c.kterm.id: V.sub(ls, V.ONE)})(F2(v))
    end = fin2(lo)
    inv2 = [(end, "ge"), (V.sub(V.sub(ls, V.ONE), end), "ge")] + nats + lens
    taken = V.F
    for cc, v in seqs.leaves(a_in):
        cc = fin2(cc)
        if v is A or compare.possible(conj(cc, big), inv2) is None:
            continue
        ps = pieces(I, v)
        ok = len(ps) == 2 and ps[0][0] == "s" and ps[0][1] is A and ps[1][0] == "s" and ps[1][1] is S
        ctx.true("runs/last-run", ok, f"the anchors become {show(ps)[:300]}", r.loc)
        if not ok:
            continue
        ctx.eq("runs/last-start", fin2(ps[1][2]), end, conj(cc, big), r.loc, axioms=inv2)
        ctx.eq("runs/last-end", fin2(ps[1][3]), ls, conj(cc, big), r.loc, axioms=inv2)
        taken = V.b_or(taken, cc)
    ctx.eq("runs/last-iff-repeated", taken, V.ge(V.sub(ls, end), V.num(2)), big, r.loc, axioms=inv2)


def path_atoms(v):
    from .c10 import path_atoms as pa
    return pa(v)
