"""Splitting a polyline into loops.  The loop over the points is analysed for an arbitrary state: the open
path P (no point twice), the map M from each point of P to its place, the finished pieces R.  One step with
the next point X must be one of

  X not in M:  P := P + X,  M := M + (X -> place),  R unchanged
  X in M:      P := P up to and including X,  M := M without the points cut off,
               R := R + (cut points + X) iff these are at least three points with enough area

(the piece may start or end with X).  Both steps keep the invariant; every point is looked at once, in order;
at the end P is a piece iff it has at least three points and enough area.  By induction no piece contains a
point twice, every piece is a run of remaining points, and nothing else is dropped."""
from .lib import *
import scev
import seqs

AREA = "unsafe_area"


def pieces(I, v):
    """a sequence as a list of ('s', base, lo, hi) and ('e', element)"""
    if v.k == "app" and v.a[0] == "push":
        return pieces(I, v.a[1]) + [("e", v.a[2])]
    if v.k == "app" and v.a[0] == "cat":
        return pieces(I, v.a[1]) + pieces(I, v.a[2])
    if v.k == "app" and v.a[0] == "sub" and len(v.a) == 4:
        b = v.a[1]
        if b.k == "app" and b.a[0] in ("push", "cat", "sub"):
            return [("s", b, v.a[2], v.a[3])]
        return [("s", b, v.a[2], v.a[3])]
    if v.k == "app" and v.a[0] == "seq":
        return [("e", x) for x in v.a[1:]]
    if v.k == "seq":
        return [("e", x) for x in v.a]
    n = I.seq_len(v)
    if V.pconst(n) == 0:
        return []
    return [("s", v, V.ZERO, n)]


def same_pieces(a, b, care, axioms=()):
    a = [x for x in a if not (x[0] == "s" and compare.difference(x[2], x[3], care, axioms=axioms) is None)]
    b = [x for x in b if not (x[0] == "s" and compare.difference(x[2], x[3], care, axioms=axioms) is None)]
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if x[0] != y[0]:
            return False
        if x[0] == "e":
            if compare.difference(x[1], y[1], care, axioms=axioms) is not None:
                return False
        elif x[1] is not y[1] or any(compare.difference(p, q, care, axioms=axioms) is not None for p, q in zip(x[2:], y[2:])):
            return False
    return True


def show(ps):
    return " ++ ".join(V.show(x[1])[:80] if x[0] == "e" else f"{V.show(x[1])[:60]}[{V.show(x[2])[:60]}..{V.show(x[3])[:60]}]" for x in ps)


def areas(v):
    return [t for t in terms_of(v) if t.k == "app" and t.a[0] == "ret" and str(t.a[1]).endswith(AREA)]


def area_arg(t):
    x = t.a[2]
    while x.k == "app" and x.a[0] == "&":
        x = x.a[1]
    return x


def big_enough(I, t, lim):
    """half the absolute value of the doubled area reaches the limit"""
    a = V.pvar(t)
    m = V.ite(V.lt(a, V.ZERO), V.neg(a), a)
    return V.ge(m, V.mul(V.num(2), lim))


def run(ctx):
    p = ctx.prog
    fs = [f for f in p.fns if f["m"] == "split_loops" and p.bodies.get(f["id"]) is not None]
    ctx.true("found", len(fs) == 1, "split_loops of a path")
    with ctx.case("split"):
        I = Interp(p, opaque=(AREA,))
        I.hooks = I.hooks
        lim = nat("min_area", ty="usize")
        src = mk("v", ("points",), ("slice", POINT))
        r = call(ctx, fs[0], [src, lim], interp=I)
        forms = scev.closed(I, r.loops)
        loops = [l for l in r.loops if l.parent is None and l.fn == fs[0]["n"]] or [l for l in r.loops if l.parent is None]
        outer = [l for l in loops if any(isinstance(i, V.N) and i.k == "app" and i.a[0] == "map0" for ph, i in l.phis.values())]
        if len(outer) != 1:
            raise Bad(f"expected one loop over the points with a map of places, found {len(outer)}", r.loc)
        lp = outer[0]
        c = forms[lp.id]
        role = {}
        for key, (ph, init) in lp.phis.items():
            if init.k == "app" and init.a[0] == "map0":
                role["M"] = (key, ph, init)
            elif I.is_seq(ph):
                e = I.norm_seq(ph.ty)
                role["P" if e == POINT else "R"] = (key, ph, init)
        if set(role) != {"M", "P", "R"}:
            raise Bad(f"loop state is not path, map and result: {sorted(role)}", r.loc)
        M, P, R = (role[k][1] for k in "MPR")
        nM, nP, nR = (V.restrict(lp.nexts[role[k][0]], lp.cont) for k in "MPR")
        for k in "PR":
            ctx.eq(f"start/{k}-empty", I.seq_len(role[k][2]), V.ZERO, loc=r.loc)
        if c.trip is None:
            raise Bad("the loop over the points has no closed number of iterations", r.loc)
        n = I.seq_len(src)
        ctx.eq("every-point-once", c.trip, n, loc=r.loc)
        S = scev.Subst(I, c.form)
        X = I.expand(I.seq_get(src, c.K))
        fold = lambda v: S(v)
        nM, nP, nR = fold(nM), fold(nP), fold(nR)
        nR_ = scev.Subst(I, {})(nR)
        key = I.contents(r.st, X)
        has = V.F
        # the lookup
        looked = [t for t in terms_of(nP, *path_atoms(nP)) if t.k == "app" and t.a[0] == "has"]
        looked = {t.id: t for t in looked}
        if len(looked) != 1:
            raise Bad(f"expected one lookup of the point per step, found {len(looked)}", r.loc)
        t = list(looked.values())[0]
        H = V.wrap(t)
        ctx.true("lookup/map", t.a[1] is M, f"looks in {V.show(t.a[1])[:100]}", r.loc)
        ctx.eq("lookup/point", t.a[2], X, V.lt(c.K, n), r.loc)
        slots = {x.id: x for x in terms_of(nP, nR, *path_atoms(nP), *path_atoms(nR)) if x.k == "app" and x.a[0] == "deref" and x.a[1].k == "app" and x.a[1].a[0] == "slot"}
        ins = [l for cc, l in seqs.leaves(nM) if compare.possible(conj(cc, V.b_not(H))) is not None]
        if len(ins) != 1 or ins[0].k != "app" or ins[0].a[0] != "minsert":
            raise Bad(f"a new point is not entered into the map: {[V.show(x)[:120] for x in ins]}", r.loc)
        ins = ins[0]
        L = I.seq_len(P)
        base = V.sub(ins.a[3], L)
        ctx.true("new/place", ins.a[1] is M and V.pconst(base) is not None, f"enters {V.show(ins.a[3])[:150]} for the point at place {V.show(L)[:60]}", r.loc)
        ctx.eq("new/point", ins.a[2], X, conj(V.b_not(H), V.lt(c.K, n)), r.loc)
        live = V.lt(c.K, n)
        new = conj(live, V.b_not(H))
        for cc, l in seqs.leaves(nP):
            if compare.possible(conj(cc, new)) is not None:
                ctx.true("new/path", same_pieces(pieces(I, l), [("s", P, V.ZERO, L), ("e", X)], conj(cc, new)), f"the open path becomes {show(pieces(I, l))[:300]}", r.loc)
        for cc, l in seqs.leaves(nR):
            if compare.possible(conj(cc, new)) is not None:
                ctx.true("new/result", l is R, f"the result becomes {V.show(l)[:200]}", r.loc)
        # a known point
        if len(slots) != 1:
            raise Bad(f"expected one place looked up, found {len(slots)}", r.loc)
        w = list(slots.values())[0]
        ctx.true("known/place", w.a[1].a[1] is M, "the place comes from another map", r.loc)
        ctx.eq("known/place-of", w.a[1].a[2], X, V.lt(c.K, n), r.loc)
        at = V.sub(V.pvar(w), base)                     # index of X in P, by the invariant
        ax = [(at, "ge"), (V.sub(V.sub(L, at), V.ONE), "ge"), (L, "ge")]
        keep = V.add(at, V.ONE)
        old = conj(live, H)
        for cc, l in seqs.leaves(nP):
            if compare.possible(conj(cc, old), ax) is None:
                continue
            ps = pieces(I, l)
            ok = same_pieces(ps, [("s", P, V.ZERO, keep)], conj(cc, old), ax) or same_pieces(ps, [("s", P, V.ZERO, at), ("e", X)], conj(cc, old), ax)
            ctx.true("known/path", ok, f"the open path becomes {show(ps)[:400]}, expected to end with the repeated point", r.loc)
        for cc, l in seqs.leaves(nM):
            if compare.possible(conj(cc, old), ax) is None:
                continue
            removed(ctx, I, r, forms, l, M, P, X, at, base, conj(cc, old), ax)
        cut = V.sub(L, keep)
        tails = [[("s", P, keep, L), ("e", X)], [("e", X), ("s", P, keep, L)], [("s", P, at, L)]]
        taken = V.F
        for cc, l in seqs.leaves(nR):
            if compare.possible(conj(cc, old), ax) is None:
                continue
            if l is R:
                continue
            ps = seqs.pushes(l, R)
            ok = ps is not None and len(ps) == 1 and any(same_pieces(pieces(I, ps[0]), q, conj(cc, old), ax) for q in tails)
            ctx.true("known/piece", ok, f"the result becomes {V.show(l)[:300]}, expected the cut points and the repeated one", r.loc)
            taken = V.b_or(taken, cc)
        enough = V.ge(cut, V.num(2))
        size(ctx, I, r, "known", taken, enough, lim, conj(old), ax, tails)
        # the end
        fin, st = r.ret, None
        taken = V.F
        for cc, l in seqs.leaves(fin):
            if l is R:
                continue
            ps = seqs.pushes(l, R)
            ok = ps is not None and len(ps) == 1 and same_pieces(pieces(I, ps[0]), [("s", P, V.ZERO, L)], cc)
            ctx.true("end/piece", ok, f"the result becomes {V.show(l)[:300]}, expected the open path at the end", r.loc)
            taken = V.b_or(taken, cc)
        size(ctx, I, r, "end", taken, V.ge(L, V.num(3)), lim, V.T, [(L, "ge")], [[("s", P, V.ZERO, L)]])
    ctx.floor(18)


def path_atoms(v):
    """values tested by the gates of a diagram"""
    out, seen, st = [], set(), [v]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.k == "ite":
            if x.a[0].key[0] in ("sgn", "b", "d"):
                out.append(V.node(x.a[0].key[1]))
            st += list(x.a[1:])
    return out


def size(ctx, I, r, key, taken, enough, lim, care, ax, tails):
    """a piece is taken iff it has three points and enough area"""
    ts = areas(taken)
    for t in path_atoms(taken):
        ts += areas(t)
    ts = list({t.id: t for t in ts}.values())
    if not ts:
        raise Bad(f"{key}: the area of a piece is not compared with the limit", r.loc)
    for t in ts:
        ps = pieces(I, area_arg(t))
        ctx.true(f"{key}/area-of", any(same_pieces(ps, q, conj(care, enough), ax) for q in tails), f"the area of {show(ps)[:300]} is tested", r.loc)
    t0 = ts[0]
    m = {t.id: V.pvar(t0) for t in ts[1:]}
    taken = scev.Subst(I, m)(taken)
    exp = conj(enough, V.b_or(V.eq(lim, V.ZERO), big_enough(I, t0, lim)))
    axs = list(ax) + facts(taken) + [f for x in path_atoms(taken) for f in facts(x)]
    ctx.eq(f"{key}/kept-iff-large", taken, exp, care, r.loc, axioms=axs)


def removed(ctx, I, r, forms, l, M, P, X, at, base, care, ax):
    """M without the points of P behind X"""
    L = I.seq_len(P)
    lo = V.add(at, V.ONE)
    if l.k == "app" and l.a[0] == "minsert":
        ctx.eq("known/map-again", l.a[3], V.add(at, base), care, r.loc, axioms=ax)
        ctx.eq("known/map-again-point", l.a[2], X, care, r.loc, axioms=ax)
        l, lo = l.a[1], at
    hit = seqs.loop_of(I, forms, l)
    if hit is None:
        if compare.possible(conj(care, V.lt(lo, L)), ax) is None and l is M:
            return
        raise Bad(f"the points cut off are not taken out of the map: {V.show(l)[:200]}", r.loc)
    d, key, init = hit
    ctx.true("known/map-base", init is M, f"removal starts from {V.show(init)[:100]}", r.loc)
    nx = V.restrict(d.lp.nexts[key], d.lp.cont)
    if nx.k != "app" or nx.a[0] != "mremove" or nx.a[1] is not l:
        raise Bad(f"an iteration does not simply remove one point: {V.show(nx)[:200]}", r.loc)
    S = scev.Subst(I, scev.mapping(I, forms, seqs.ancestors(d)))
    trip = d.trip
    if trip is None:
        raise Bad("removal loop without a closed number of iterations", r.loc)
    trip = S(trip)
    el = S(scev.Subst(I, d.form)(nx.a[2]))
    ctx.eq("known/map-all", trip, V.sub(L, lo), care, r.loc, axioms=ax)
    c2 = conj(care, V.lt(d.K, V.sub(L, lo)))
    up = I.expand(I.seq_get(P, V.add(lo, d.K)))
    down = I.expand(I.seq_get(P, V.sub(V.sub(L, V.ONE), d.K)))
    ok = compare.difference(el, up, c2, axioms=ax) is None or compare.difference(el, down, c2, axioms=ax) is None
    ctx.true("known/map-points", ok, f"removes {V.show(el)[:300]}, expected the points behind the repeated one", r.loc)
