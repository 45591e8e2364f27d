"""Every pair of segments that may meet is looked at, in every round, by every split strategy."""
from .lib import *
from .c05 import local, deref_, Stepper, edge_order
import models
import scev
import seqs

LEVEL = "other"
CNT = ("param", "C")


def run(ctx):
    for nm, fn in (("list", by_list), ("tree", by_tree), ("column", by_column), ("columns", by_columns), ("threads", by_threads), ("border", by_border), ("fragments", by_fragments), ("clear", clearing), ("process", either), ("range", tree_range), ("dispatch", dispatch)):
        with ctx.case(nm):
            fn(ctx)
    ctx.floor(10)


UNIT_ = mk("struct", ("()",), ("tuple", ()))


class Round:
    """stand-ins for the steps of a round: a pair looked at, marks applied, another strategy taking over"""

    def __init__(self, ctx):
        self.ctx = ctx
        self.I = I = Interp(ctx.prog, hooks={})
        self.mt, self.sty = ty_of(ctx, "LineMark"), ty_of(ctx, "Segment", CNT)
        self.S = mk("v", ("segments",), ("slice", self.sty))
        self.rounded = {}
        I.hooks = {"SplitSolver::cross": self.pair, "SplitSolver::apply": self.apply, "SplitSolver>::tree_split": self.other, "SplitSolver>::list_split": self.other}

    def pair(self, I, f, args, tys, dty, st, line):
        vals = tuple(deref_(I, st, a) for a in args[:4]) + (args[5],)
        st = st.copy()
        old = I.read(st, args[4])
        I.write(st, args[4], mk("app", ("marked", old), old.ty))
        r = V.wrap(mk("v", (("rounded", len(self.rounded)),), ("bool",)))
        I.event("pair", vals + (args[4], r), line)
        self.rounded[r.id] = r
        return r, V.T, st

    def apply(self, I, f, args, tys, dty, st, line):
        st = st.copy()
        m = I.read(st, args[1])
        I.event("apply", (m, args[2], args[3], args[1]), line)
        I.write(st, args[1], mk("app", ("used", m), m.ty))
        return mk("app", ("applied", m, args[2]), args[2].ty), V.T, st

    def other(self, I, f, args, tys, dty, st, line):
        I.event("other", tuple(args), line)
        return mk("app", ("other", args[2]), args[2].ty), V.T, st


def one(R, kind):
    es = [e for e in R.events if e.kind == kind]
    if not es:
        raise Bad(f"no {kind} step", R.loc)
    return es


def rounds(ctx, key, RD, R, W, marks_end, flag_end, first):
    """One round of the outer loop W: the marks are applied to the segments they were found in, and another
    round follows iff one was asked for.  first: marks before the round's first pair"""
    I = RD.I
    st = Stepper(I, W)
    aps = one(R, "apply")
    ctx.true(f"{key}/applied-once", len(aps) == 1, f"marks are applied {len(aps)} times", R.loc)
    m, s, fl, _ = aps[0].data
    ctx.true(f"{key}/applied-marks", m is marks_end, f"applied are {V.show(m)[:200]}", R.loc)
    seq = [(k, ph, i) for k, (ph, i) in W.phis.items() if ph is s]
    if len(seq) != 1:
        raise Bad(f"{key}: the marks are applied to {V.show(s)[:200]}, not to the segments of the round", R.loc)
    S = seq[0][1]
    ctx.true(f"{key}/first-segments", seq[0][2] is RD.S, "the first round works on other segments", R.loc)
    nx = V.restrict(W.nexts[seq[0][0]], W.cont)
    want = mk("app", ("applied", m, S), S.ty)
    ctx.true(f"{key}/next-segments", nx is want, f"the next round works on {V.show(nx)[:200]}", R.loc)
    # no old marks
    if first.k == "app" and first.a[0] == "seq" and len(first.a) == 1:
        pass
    else:
        ok = False
        for k, (ph, i) in W.phis.items():
            if ph is first:
                n2 = V.restrict(W.nexts[k], W.cont)
                ok = empty(i) and empty(n2)
        ctx.true(f"{key}/no-old-marks", ok, f"a round starts with the marks {V.show(first)[:200]}", R.loc)
    # another round
    n = I.seq_len(S)
    none = V.eq(I.seq_len(marks_end), V.ZERO)
    return S, n, none


def due(W):
    """another round has been asked for"""
    out = V.T
    for ph, i in W.phis.values():
        if models.is_boolv(ph) and compare.implies(V.T, i) is None:
            out = V.b_and(out, ph)
    return out


def empty(v):
    return all(l.k == "app" and l.a[0] == "seq" and len(l.a) == 1 for _, l in seqs.leaves(v))


def seg_of(ctx, I, S, i):
    return get(ctx, I, I.expand(I.seq_get(S, i)), "Segment", "x_segment")


def apart(ctx, I, s, t):
    """the y-ranges of two segments are disjoint, or t starts beyond the end of s"""
    A, B, C, D = (P2(I, I.field(x, k)) for x in (s, t) for k in (0, 1))
    return disj(V.lt(V.vmax(A.y, B.y), V.vmin(C.y, D.y)), V.lt(V.vmax(C.y, D.y), V.vmin(A.y, B.y)), V.lt(B.x, C.x))


def asked(ctx, key, I, R, lp, flag_key, evs):
    """the flag of the loop is kept, and raised when a pair was rounded"""
    ph, _ = lp.phis[flag_key]
    nx = V.restrict(lp.nexts[flag_key], lp.cont)
    w = compare.implies(conj(lp.cont, ph), nx)
    ctx.true(f"{key}/kept", w is None, f"the request for another round is dropped when {w}", R.loc)
    for e in evs:
        w = compare.implies(conj(lp.cont, e.pc, e.data[-1]), nx)
        ctx.true(f"{key}/raised", w is None, f"no other round is asked for when {w}", R.loc)


def same_seg(x, y, care=V.T):
    return compare.difference(x, y, care) is None


def by_list(ctx):
    RD = Round(ctx)
    I = RD.I
    f = local(ctx, "list_split")
    R = call(ctx, f, [None, None, RD.S], interp=I)
    evs = one(R, "pair")
    forms = scev.closed(I, R.loops)
    loops = evs[0].loops
    if any([l.id for l in e.loops] != [l.id for l in loops] for e in evs) or len(loops) != 3:
        raise Bad("the pairs are not gone through by two loops inside the rounds", R.loc)
    W, A, B = loops
    S = None
    for k, (ph, i) in W.phis.items():
        if i is RD.S:
            S = ph
    if S is None:
        raise Bad("the rounds do not work on the segments", R.loc)
    n = I.seq_len(S)
    ca, cb = forms[A.id], forms[B.id]
    inside = scev.mapping(I, {x.lp.id: x for x in (ca, cb)}, [A, B])
    M = scev.Subst(I, inside)
    i = ca.K
    j = V.add(V.add(ca.K, cb.K), V.ONE)
    si, sj = seg_of(ctx, I, S, i), seg_of(ctx, I, S, j)
    two = V.ge(n, V.num(2))
    if ca.trip is None:
        raise Bad("the loop over the first segment of a pair has no closed number of rounds", R.loc)
    # the last segment has no partner: n-1 or n rounds
    w = compare.implies(conj(two, due(W)), A.entry_pc)
    ctx.true("list/entered", w is None, f"no pair is looked at when {w}", R.loc)
    w = compare.implies(conj(two, V.lt(i, V.sub(n, V.ONE))), M(B.entry_pc), [(ca.K, "ge")])
    ctx.true("list/partners-entered", w is None, f"no partner is looked for when {w}", R.loc)
    w = compare.implies(two, disj(V.eq(ca.trip, V.sub(n, V.ONE)), V.eq(ca.trip, n)))
    ctx.true("list/first-of-pair", w is None, f"the loop over the first segment is cut short: {w}", R.loc)
    live = conj(V.lt(i, V.sub(n, V.ONE)), V.lt(j, n))
    ax = [(ca.K, "ge"), (cb.K, "ge")]
    far = V.lt(P2(I, I.field(si, 1)).x, P2(I, I.field(sj, 0)).x)
    go = M(B.cont)
    w = compare.implies(conj(live, V.b_not(far)), go, ax)
    ctx.true("list/partners", w is None, f"the search for partners ends early when {w}", R.loc)
    met = V.F
    for e in evs:
        a, b, ea, eb, rad, mref, _ = e.data
        pc = M(e.pc)
        met = V.b_or(met, pc)
        fwd = compare.difference(M(a), i, conj(pc, live), axioms=ax) is None
        (x, y, sx, sy) = (i, j, si, sj) if fwd else (j, i, sj, si)
        ctx.eq("list/pair.first", M(a), x, conj(pc, live), R.loc, axioms=ax)
        ctx.eq("list/pair.second", M(b), y, conj(pc, live), R.loc, axioms=ax)
        ctx.eq("list/pair.first-segment", M(ea), sx, conj(pc, live), R.loc, axioms=ax)
        ctx.eq("list/pair.second-segment", M(eb), sy, conj(pc, live), R.loc, axioms=ax)
    w = compare.implies(conj(live, go, V.b_not(met)), apart(ctx, I, si, sj), ax)
    ctx.true("list/every-pair", w is None, f"a pair is passed over when {w}", R.loc)
    tail(ctx, "list", RD, R, W, [A, B], evs, S, n)


def tail(ctx, key, RD, R, W, inner, evs, S, n):
    """marks and the request for another round flow through the loops of a round"""
    I = RD.I
    mk_ = [e.data[5] for e in evs]
    root = mk_[0].a[0]
    ctx.true(f"{key}/marks-kept", all(m.k == "ref" and m.a == (root, ()) for m in mk_), "the marks of pairs go to different places", R.loc)
    mkey = (root, ())
    # marks
    end = None
    for d, lp in enumerate(inner):
        if mkey not in lp.phis:
            raise Bad(f"{key}: the marks do not accumulate", R.loc)
        ph, init = lp.phis[mkey]
        nx = V.restrict(lp.nexts[mkey], lp.cont)
        if d == 0:
            first, end = init, ph
        else:
            ctx.true(f"{key}/marks-from", init is inner[d - 1].phis[mkey][0], f"marks start as {V.show(init)[:100]}", R.loc)
        if d + 1 < len(inner):
            ctx.true(f"{key}/marks-on", nx is inner[d + 1].phis[mkey][0], f"marks go on as {V.show(nx)[:100]}", R.loc)
        else:
            for c, l in seqs.leaves(nx):
                x = l
                while x.k == "app" and x.a[0] == "marked":
                    x = x.a[1]
                ctx.true(f"{key}/marks-added", x is ph, f"marks become {V.show(l)[:100]}", R.loc)
    # the flag: a boolean of the innermost loop that depends on the answer
    fl = [k for k in inner[-1].phis if k in inner[-1].nexts and any(scev.mentions(inner[-1].nexts[k], {V.node(r.a[0].key[1]).id}) for r in RD.rounded.values())]
    fl = [k for k in fl if all(k in l.phis for l in [W] + inner)]
    if len(fl) != 1:
        raise Bad(f"{key}: the request for another round is not carried through the loops", R.loc)
    k = fl[0]
    asked(ctx, f"{key}/again", I, R, inner[-1], k, evs)
    for d, lp in enumerate(inner):
        ph, init = lp.phis[k]
        if d:
            ctx.eq(f"{key}/again-from", init, inner[d - 1].phis[k][0], loc=R.loc)
        if d + 1 < len(inner):
            nx = V.restrict(lp.nexts[k], lp.cont)
            ctx.eq(f"{key}/again-on", nx, inner[d + 1].phis[k][0], lp.cont, R.loc)
    flag = inner[0].phis[k][0]
    _, _, none = rounds(ctx, key, RD, R, W, end, flag, first)
    # leaving the rounds
    again(ctx, key, RD, R, W, k, flag, none, S, n, end)


def again(ctx, key, RD, R, W, k, flag, none, S, n, end):
    I = RD.I
    hdr = W.phis[k][0]
    w = compare.implies(V.T, W.phis[k][1])
    ctx.true(f"{key}/first-round", w is None, "the first round may be left out", R.loc)
    nx = V.restrict(W.nexts[k], W.cont)
    w = compare.implies(conj(W.cont, flag), nx)
    ctx.true(f"{key}/next-round", w is None, f"the request for another round is dropped when {w}", R.loc)
    small = V.le(n, V.ONE)
    # what comes out: per exit the segments at that point
    r = R.ret
    for c, l in seqs.leaves(r):
        if l is S:
            w = compare.implies(conj(c, R.pc), disj(V.b_not(hdr), small, none))
            ctx.true(f"{key}/last-round", w is None, f"the rounds end although {w}", R.loc)
            continue
        if l.k == "app" and l.a[0] == "applied" and l.a[1] is end and l.a[2] is S:
            w = compare.implies(c, V.b_not(flag))
            ctx.true(f"{key}/result", w is None, f"the pieces are returned although {w}", R.loc)
            continue
        ok = l.k == "app" and l.a[0] == "other" and (l.a[1] is RD.S or l.a[1].k == "app" and l.a[1].a[0] == "applied" and l.a[1].a[1] is end and l.a[1].a[2] is S)
        ctx.true(f"{key}/result", ok, f"the result is {V.show(l)[:200]}", R.loc)



def outer_seq(RD, W):
    for k, (ph, i) in W.phis.items():
        if i is RD.S:
            return ph
    raise Bad("the rounds do not work on the segments")


class Tree:
    """the interval tree (i_tree): a collection queried by a range of y and a time"""

    def __init__(self, RD):
        self.RD = RD
        I = RD.I
        I.hooks["SegExpTree::<R, E, V>::new"] = self.new
        I.hooks["SegExpCollection<R, E, V>>::iter_by_range"] = self.query
        I.hooks["SegExpCollection<R, E, V>>::insert_by_range"] = self.insert
        I.hooks["SegExpCollection<R, E, V>>::clear"] = self.clear
        I.hooks["SegExpTreeIterator<'_, R, E, V> as std::iter::Iterator>::next"] = self.step

    def step(self, I, f, args, tys, dty, st, line):
        it = I.read(st, args[0])
        r = models.next_(I, st, it, dty=dty)
        if r is None:
            raise Bad(f"the hits are not gone through one by one: {V.show(it)[:100]}")
        o, ni, st = r
        st = st.copy()
        I.write(st, args[0], ni)
        return o, V.T, st

    def new(self, I, f, args, tys, dty, st, line):
        I.event("tree", (I.expand(args[0]),), line)
        tty = dty[2][0]
        self.made = V.wrap(mk("v", ("tree fits",), ("bool",)))
        return I.opt(self.made, mk("app", ("tree",), tty)), V.T, st

    def query(self, I, f, args, tys, dty, st, line):
        t = I.read(st, args[0])
        I.event("query", (t, I.expand(args[1]), args[2]), line)
        s = mk("app", ("hits", t, I.expand(args[1]), args[2]), ("slice", planted_ty(self.RD.ctx)))
        return models.it_vec(s, V.ZERO, I.seq_len(s)), V.T, st

    def insert(self, I, f, args, tys, dty, st, line):
        st = st.copy()
        t = I.read(st, args[0])
        I.event("insert", (t, I.expand(args[1]), I.expand(args[2])), line)
        I.write(st, args[0], mk("app", ("planted", t), t.ty))
        return UNIT_, V.T, st

    def clear(self, I, f, args, tys, dty, st, line):
        st = st.copy()
        I.write(st, args[0], mk("app", ("tree",), I.read(st, args[0]).ty))
        return UNIT_, V.T, st


def rng(I, v):
    return I.field(v, 0), I.field(v, 1)


def by_tree(ctx):
    RD = Round(ctx)
    I = RD.I
    TR = Tree(RD)
    f = local(ctx, "tree_split")
    R = call(ctx, f, [None, None, RD.S], interp=I)
    evs = one(R, "pair")
    forms = scev.closed(I, R.loops)
    loops = evs[0].loops
    if any([l.id for l in e.loops] != [l.id for l in loops] for e in evs) or len(loops) != 3:
        raise Bad("the pairs are not gone through by two loops inside the rounds", R.loc)
    W, A, B = loops
    S = outer_seq(RD, W)
    n = I.seq_len(S)
    ca, cb = forms[A.id], forms[B.id]
    if ca.trip is None or cb.trip is None:
        raise Bad("a loop over pairs has no closed number of rounds", R.loc)
    ctx.eq("tree/every-segment", ca.trip, n, loc=R.loc)
    w = compare.implies(conj(V.ge(n, V.num(2)), due(W)), A.entry_pc)
    ctx.true("tree/entered", w is None, f"no segment is looked at when {w}", R.loc)
    M = scev.Subst(I, scev.mapping(I, {x.lp.id: x for x in (ca, cb)}, [A, B]))
    i = ca.K
    si = seg_of(ctx, I, S, i)
    a, b = P2(I, I.field(si, 0)), P2(I, I.field(si, 1))
    live = conj(V.lt(i, n))
    qs = one(R, "query")
    if len(qs) != 1 or qs[0].loops[-1] is not A:
        raise Bad("the tree is not asked once per segment", R.loc)
    tree, q, t = qs[0].data
    pc = M(qs[0].pc)
    w = compare.implies(live, M(B.entry_pc))
    ctx.true("tree/hits-entered", w is None, f"the segments found are not looked at when {w}", R.loc)
    w = compare.implies(live, pc)
    ctx.true("tree/asked", w is None, f"the tree is not asked when {w}", R.loc)
    lo, hi = rng(I, M(q))
    w = compare.implies(live, conj(V.le(lo, V.vmin(a.y, b.y)), V.ge(hi, V.vmax(a.y, b.y))))
    ctx.true("tree/asked-range", w is None, f"the range asked does not cover the segment: {w}", R.loc)
    w = compare.implies(live, V.le(M(t), a.x))
    ctx.true("tree/asked-time", w is None, f"segments that still reach this one have expired: {w}", R.loc)
    # every hit is a pair
    met = V.F
    item = None
    ity = planted_ty(ctx)
    IDS = ity[1]
    for e in evs:
        pa, pb, ea, eb, rad, mref, _ = e.data
        pc = M(e.pc)
        met = V.b_or(met, pc)
        inside = conj(pc, live)
        # which of the two is the own segment may depend on their order
        own_first, raw = V.F, None
        for c, l in seqs.leaves(pa):
            if compare.difference(M(l), i, live) is None:
                own_first, raw = V.b_or(own_first, c), l
        for c, l in seqs.leaves(pb):
            if compare.difference(M(l), i, live) is None:
                raw = l
        hs = [h for h in (hit_of(l) for v in (pa, pb) for _, l in seqs.leaves(v)) if h is not None and h.a[1].k == "app" and h.a[1].a[:2] == ("hits", tree)]
        ctx.true("tree/pair.other", bool(hs) and raw is not None and all(h is hs[0] for h in hs), f"the pair is {V.show(pa)[:200]}, {V.show(pb)[:200]}, expected the segment and one found in the tree", R.loc)
        if not hs or raw is None:
            continue
        h = hs[0]
        item = I.expand(I.seq_get(h.a[1], h.a[2]))
        hid, hseg = get(ctx, I, item, IDS, "id"), get(ctx, I, item, IDS, "x_segment")
        own_first, hid, hseg, sraw = M(own_first), M(hid), M(hseg), si
        ctx.eq("tree/pair.first", M(pa), V.ite(own_first, i, hid), inside, R.loc)
        ctx.eq("tree/pair.second", M(pb), V.ite(own_first, hid, i), inside, R.loc)
        for nm, v, x, y in (("first", ea, sraw, hseg), ("second", eb, hseg, sraw)):
            for g, (p_, q_) in enumerate(((0, 0), (0, 1), (1, 0), (1, 1))):
                at = lambda z: I.field(I.field(z, p_), q_)
                ctx.eq(f"tree/pair.{nm}-segment.{g}", M(at(v)), V.ite(own_first, at(x), at(y)), inside, R.loc)
        ctx.eq("tree/pair.other-place", M(V.wrap(h.a[2]) if h.a[2].k == "app" else h.a[2]), cb.K, inside, R.loc)
        ctx.eq("tree/every-hit", M(cb.trip), M(I.seq_len(h.a[1])), loc=R.loc)
        oth = hseg
    if item is not None:
        w = compare.implies(conj(live, M(B.cont), V.b_not(met)), apart2(ctx, I, si, oth))
        ctx.true("tree/every-pair", w is None, f"a found segment is passed over when {w}", R.loc)
    # the segment itself is planted, for the later ones
    ins = one(R, "insert")
    ctx.true("tree/planted", len(ins) == 1 and ins[0].loops[-1] is A, "a segment is planted more than once", R.loc)
    e = ins[0]
    w = compare.implies(live, M(e.pc))
    # behind the inner loop: reached when it ends
    ctx.true("tree/planted-always", w is None or after_inner(e, A, B, M, live), f"a segment is not planted when {w}", R.loc)
    lo, hi = rng(I, M(e.data[1]))
    w = compare.implies(live, conj(V.le(lo, V.vmin(a.y, b.y)), V.ge(hi, V.vmax(a.y, b.y))))
    ctx.true("tree/planted-range", w is None, f"the planted range does not cover the segment: {w}", R.loc)
    it = M(e.data[2])
    ctx.eq("tree/planted-index", get(ctx, I, it, IDS, "id"), i, live, R.loc)
    ctx.eq("tree/planted-segment", get(ctx, I, it, IDS, "x_segment"), si, live, R.loc)
    # the tree of a round starts empty and keeps what is planted
    tk = [(k, ph, x) for k, (ph, x) in A.phis.items() if ph is tree]
    ctx.true("tree/grows", len(tk) == 1 and V.restrict(A.nexts[tk[0][0]], A.cont).k == "app" and V.restrict(A.nexts[tk[0][0]], A.cont).a == ("planted", tree), "the tree changes in a round other than by planting", R.loc)
    if len(tk) == 1:
        ctx.true("tree/empty", fresh(W, tk[0][2]), f"a round starts with the tree {V.show(tk[0][2])[:150]}", R.loc)
    tail(ctx, "tree", RD, R, W, [A, B], evs, S, n)
    expiry(ctx)


def fresh(W, v):
    if v.k == "app" and v.a == ("tree",):
        return True
    for k, (ph, x) in W.phis.items():
        if ph is v:
            nx = V.restrict(W.nexts[k], W.cont)
            return fresh(W, x) and nx.k == "app" and nx.a == ("tree",)
    return False


def hit_of(v):
    """the element of a sequence whose part this is"""
    t = scev.phi_term(v)
    while t is not None and t.k == "app" and t.a[0] == "f":
        t = t.a[1]
    return t if t is not None and t.k == "app" and t.a[0] == "sel" else None


def apart2(ctx, I, s, t):
    A, B, C, D = (P2(I, I.field(x, k)) for x in (s, t) for k in (0, 1))
    return disj(V.lt(V.vmax(A.y, B.y), V.vmin(C.y, D.y)), V.lt(V.vmax(C.y, D.y), V.vmin(A.y, B.y)), V.lt(D.x, A.x), V.lt(B.x, C.x))


def after_inner(e, A, B, M, live):
    return compare.implies(conj(live, V.b_not(M(B.cont))), M(e.pc)) is None


def expiration_of(ctx):
    fs = [f for f in ctx.prog.fns if f["m"] == "expiration" and "split::" in f["n"] and ctx.prog.bodies.get(f["id"]) is not None]
    if len(fs) != 1:
        raise Bad(f"expected one expiration of planted segments, found {len(fs)}")
    return fs[0]


def planted_ty(ctx):
    f = expiration_of(ctx)
    return ctx.prog.ty(ctx.prog.bodies[f["id"]]["locals"][1])[1]


def expiry(ctx):
    """a planted segment expires behind its last point"""
    I = Interp(ctx.prog)
    ty = planted_ty(ctx)
    v = I.expand(I.var("s", ty))
    R = call(ctx, expiration_of(ctx), [v], interp=I)
    b = P2(I, I.field(get(ctx, I, v, ty[1], "x_segment"), 1))
    w = compare.implies(V.T, V.ge(R.ret, b.x))
    ctx.true("tree/expiry", w is None, f"a segment expires before its end: {w}", R.loc)


# ------------------------------------------------------------------------------------- fragments
class Cut:
    """stand-in for looking at a pair of fragments"""

    def __init__(self, ctx):
        self.ctx = ctx
        self.I = I = Interp(ctx.prog, hooks={})
        self.rounded = {}
        I.hooks = {"SplitSolver>::cross_fragments": self.pair}

    def pair(self, I, f, args, tys, dty, st, line):
        vals = tuple(deref_(I, st, a) for a in args[:2])
        st = st.copy()
        old = I.read(st, args[2])
        I.write(st, args[2], mk("app", ("marked", old), old.ty))
        r = V.wrap(mk("v", (("rounded", len(self.rounded)),), ("bool",)))
        I.event("pair", vals + (args[3], args[2], r), line)
        self.rounded[r.id] = r
        return r, V.T, st


def box(ctx, I, fr):
    r = get(ctx, I, fr, "Fragment", "rect")
    g = lambda k: get(ctx, I, r, "IntRect", k)
    return g("min_x"), g("max_x"), g("min_y"), g("max_y")


def boxes_apart(ctx, I, s, t):
    a, b = box(ctx, I, s), box(ctx, I, t)
    return disj(V.lt(a[1], b[0]), V.lt(b[1], a[0]), V.lt(a[3], b[2]), V.lt(b[3], a[2]))


def monotone(I, key, kind, ty, val):
    """a sort order that never puts a smaller value behind a larger one"""
    x, y = I.expand(I.var("#x", ty)), I.expand(I.var("#y", ty))
    if kind != "sort_by":
        one = key.a[0] if key.k == "struct" and len(key.a) == 1 else key
        return compare.difference(V.as_poly(one), V.as_poly(val(x))) is None
    if key.k != "enum":
        return False
    o = V.sub(key.a[1], V.ONE)
    return compare.implies(V.lt(val(x), val(y)), V.lt(o, V.ZERO)) is None and compare.implies(V.lt(val(y), val(x)), V.gt(o, V.ZERO)) is None


def by_column(ctx):
    """the fragments of one column, pair by pair"""
    RD = Cut(ctx)
    I = RD.I
    f = local(ctx, "bin_split")
    fty = ty_of(ctx, "Fragment")
    L = mk("v", ("fragments",), ("slice", fty))
    m0 = mk("v", ("marks found before",), ("slice", ty_of(ctx, "LineMark")))
    R = call(ctx, f, [None, L, m0], interp=I)
    evs = one(R, "pair")
    forms = scev.closed(I, R.loops)
    loops = evs[0].loops
    if any([l.id for l in e.loops] != [l.id for l in loops] for e in evs) or len(loops) != 2:
        raise Bad("the pairs are not gone through by two loops", R.loc)
    A, B = loops
    S = None
    for e in evs:
        for v in e.data[:2]:
            for _, l in seqs.leaves(I.field(v, 0)):
                h = hit_of(l)
                if h is not None:
                    S = h.a[1]
    if S is None:
        raise Bad("the pairs are not fragments of the column", R.loc)
    ok = S.k == "app" and S.a[0] == "sort" and S.a[1] is L
    ctx.true("column/fragments", ok, f"the pairs are taken from {V.show(S)[:200]}, expected the sorted fragments of the column", R.loc)
    if not ok:
        return
    ctx.true("column/sorted", monotone(I, S.a[2], S.a[3], fty, lambda v: box(ctx, I, v)[2]), f"the fragments are not sorted by their lower ends: {V.show(S.a[2])[:200]}", R.loc)
    n = I.seq_len(S)
    at = lambda k: I.expand(I.seq_get(S, k))
    far = lambda a, b: V.lt(box(ctx, I, a)[3], box(ctx, I, b)[2])
    key = lambda v: I.field(v, field_ix(ctx, "Fragment", "index"))
    pairs(ctx, "column", I, R, forms, A, B, evs, n, at, far, lambda a, b: boxes_apart(ctx, I, a, b))
    # marks of the caller, the request for another round
    root = evs[0].data[3].a
    ctx.true("column/marks", all(e.data[3].k == "ref" and e.data[3].a == (R.roots[2], ()) for e in evs), "the marks of pairs go elsewhere", R.loc)
    fl = [k for k in B.phis if k in A.phis and k in B.nexts and any(scev.mentions(B.nexts[k], {V.node(r.a[0].key[1]).id}) for r in RD.rounded.values())]
    if len(fl) != 1:
        raise Bad("column: the request for another round is not carried through the loops", R.loc)
    k = fl[0]
    asked(ctx, "column/again", I, R, B, k, evs)
    ctx.eq("column/again-from", B.phis[k][1], A.phis[k][0], loc=R.loc)
    ctx.eq("column/again-on", V.restrict(A.nexts[k], A.cont), B.phis[k][0], A.cont, R.loc)
    w = compare.implies(conj(V.ge(n, V.num(2)), A.phis[k][0]), R.ret)
    ctx.true("column/again-result", w is None, f"the request for another round is dropped when {w}", R.loc)
    mkey = (R.roots[2], ())
    kept = mkey in A.phis and mkey in B.phis and A.phis[mkey][1] is m0 and B.phis[mkey][1] is A.phis[mkey][0] and V.restrict(A.nexts[mkey], A.cont) is B.phis[mkey][0]
    ctx.true("column/marks-kept", kept, "the marks found before are not kept", R.loc)
    if kept:
        for c, l in seqs.leaves(V.restrict(B.nexts[mkey], B.cont)):
            while l.k == "app" and l.a[0] == "marked":
                l = l.a[1]
            ctx.true("column/marks-added", l is B.phis[mkey][0], f"the marks become {V.show(l)[:100]}", R.loc)
        for c, l in seqs.leaves(R.out[2]):
            ctx.true("column/marks-result", l is A.phis[mkey][0] or l is m0 and compare.possible(conj(c, V.ge(n, V.num(2)))) is None, f"the marks are {V.show(l)[:100]}", R.loc)


def pairs(ctx, key, I, R, forms, A, B, evs, n, at, far, apart):
    """all pairs i < j are looked at, unless j and all after it are out of reach"""
    ca, cb = forms[A.id], forms[B.id]
    M = scev.Subst(I, scev.mapping(I, {x.lp.id: x for x in (ca, cb)}, [A, B]))
    i = ca.K
    j = V.add(V.add(ca.K, cb.K), V.ONE)
    si, sj = at(i), at(j)
    if ca.trip is None:
        raise Bad("the loop over the first of a pair has no closed number of rounds", R.loc)
    two = V.ge(n, V.num(2))
    w = compare.implies(two, disj(V.eq(ca.trip, V.sub(n, V.ONE)), V.eq(ca.trip, n)))
    ctx.true(f"{key}/first-of-pair", w is None, f"the loop over the first of a pair is cut short: {w}", R.loc)
    w = compare.implies(two, A.entry_pc)
    ctx.true(f"{key}/entered", w is None, f"no pair is looked at when {w}", R.loc)
    w = compare.implies(conj(two, V.lt(i, V.sub(n, V.ONE))), M(B.entry_pc), [(ca.K, "ge")])
    ctx.true(f"{key}/partners-entered", w is None, f"no partner is looked for when {w}", R.loc)
    live = conj(V.lt(i, V.sub(n, V.ONE)), V.lt(j, n), two)
    ax = [(ca.K, "ge"), (cb.K, "ge")]
    go = M(B.cont)
    w = compare.implies(conj(live, V.b_not(far(si, sj))), go, ax)
    ctx.true(f"{key}/partners", w is None, f"the search for partners ends early when {w}", R.loc)
    met = V.F
    for m, e in enumerate(evs):
        a, b = M(e.data[0]), M(e.data[1])
        pc = M(e.pc)
        met = V.b_or(met, pc)
        care = conj(pc, live)
        # which of the two comes first may depend on their order
        own = V.F
        for c, l in seqs.leaves(I.field(a, 0)):
            if compare.difference(l, I.field(si, 0), conj(care, c), axioms=ax) is None:
                own = V.b_or(own, c)
        x, y = either_of(I, own, si, sj), either_of(I, own, sj, si)
        w = diff_parts(I, a, x, care, ax)
        ctx.true(f"{key}/pair.first", w is None, f"the pair is not of the two looked at: {w}", R.loc)
        w = diff_parts(I, b, y, care, ax)
        ctx.true(f"{key}/pair.second", w is None, f"the pair is not of the two looked at: {w}", R.loc)
    w = compare.implies(conj(live, go, V.b_not(met)), apart(si, sj), ax)
    ctx.true(f"{key}/every-pair", w is None, f"a pair is passed over when {w}", R.loc)


def either_of(I, c, a, b):
    a, b = I.expand(a), I.expand(b)
    if a.k == "struct" and b.k == "struct" and len(a.a) == len(b.a):
        return mk("struct", (a.a[0],) + tuple(either_of(I, c, p, q) for p, q in zip(a.a[1:], b.a[1:])))
    return V.ite(c, a, b)


def diff_parts(I, a, b, care, ax):
    a, b = I.expand(a), I.expand(b)
    if a.k == "struct" and b.k == "struct" and len(a.a) == len(b.a):
        for k in range(len(a.a) - 1):
            w = diff_parts(I, I.field(a, k), I.field(b, k), care, ax)
            if w is not None:
                return w
        return None
    return compare.difference(a, b, care, axioms=ax)


def stub(name, marks=None, buf=None, flag=None):
    """stand-in for a step: an event, effects on marks and buffer as a term, an unknown answer"""
    def h(I, f, args, tys, dty, st, line):
        st = st.copy()
        seen = []
        for k in (marks, buf):
            if k is not None:
                old = I.read(st, args[k])
                seen.append(old)
                I.write(st, args[k], mk("app", (name, old), old.ty))
        r = UNIT_
        if flag is not None:
            flag.append(V.wrap(mk("v", ((name, len(flag)),), ("bool",))))
            r = flag[-1]
        I.event(name, (tuple(args), tuple(seen), r, tuple(deref_(I, st, a) if a.k == "ref" else a for a in args)), line)
        return r, V.T, st
    return h


def buffer_(ctx, I):
    fs = dict(ctx.prog.adt_fields(ty_of(ctx, "FragmentBuffer")))
    return mkstruct(ctx, "FragmentBuffer", layout=I.expand(I.var("layout", fs["layout"])), groups=mk("v", ("groups",), ("slice", fs["groups"][2][0] if fs["groups"][0] == "adt" else fs["groups"][1])), on_border=I.var("on_border", fs["on_border"]))


def by_columns(ctx):
    """every column is gone through, one after another"""
    flags = []
    I = Interp(ctx.prog, hooks={"SplitSolver>::bin_split": stub("column", marks=2, flag=flags)})
    f = local(ctx, "serial_split")
    B = buffer_(ctx, I)
    m0 = mk("v", ("marks found before",), ("slice", ty_of(ctx, "LineMark")))
    R = call(ctx, f, [None, B, m0], interp=I)
    es = one(R, "column")
    forms = scev.closed(I, R.loops)
    G = get(ctx, I, B, "FragmentBuffer", "groups")
    gf = field_ix(ctx, "FragmentBuffer", "groups")
    if len(es) != 1 or len(es[0].loops) != 1:
        raise Bad("the columns are not gone through by one loop", R.loc)
    e, L = es[0], es[0].loops[0]
    c = forms[L.id]
    if c.trip is None:
        raise Bad("the loop over the columns has no closed number of rounds", R.loc)
    M = scev.Subst(I, scev.mapping(I, forms, [L]))
    ctx.eq("columns/all", c.trip, I.seq_len(G), loc=R.loc)
    ctx.true("columns/entered", compare.implies(V.gt(I.seq_len(G), V.ZERO), L.entry_pc) is None, "the columns are passed over", R.loc)
    k = index_of(e.data[0][1], R.roots[1], gf)
    ctx.eq("columns/own", M(k), c.K, M(e.pc), R.loc)
    many = V.ge(I.seq_len(I.seq_get(G, c.K)), V.num(2))
    w = compare.implies(conj(V.lt(c.K, c.trip), many), M(e.pc), [(c.K, "ge")])
    ctx.true("columns/every", w is None, f"a column is passed over when {w}", R.loc)
    mkey = (R.roots[2], ())
    ph, init = L.phis.get(mkey, (None, None))
    ctx.true("columns/marks", init is m0 and e.data[1][0] is ph, "the marks found before are not kept", R.loc)
    for cnd, l in seqs.leaves(V.restrict(L.nexts[mkey], L.cont)) if ph is not None else ():
        while l.k == "app" and l.a[0] == "column":
            l = l.a[1]
        ctx.true("columns/marks-added", l is ph, f"the marks become {V.show(l)[:100]}", R.loc)
    for cnd, l in seqs.leaves(R.out[2]):
        ctx.true("columns/marks-result", l is ph, f"the marks are {V.show(l)[:100]}", R.loc)
    fl = [q for q in L.phis if q in L.nexts and scev.mentions(L.nexts[q], {V.node(x.a[0].key[1]).id for x in flags}) and models.is_boolv(L.phis[q][0])]
    if len(fl) != 1:
        raise Bad("columns: the request for another round is not carried through the loop", R.loc)
    asked(ctx, "columns/again", I, R, L, fl[0], [AsPair(e)])
    w = compare.implies(L.phis[fl[0]][0], R.ret)
    ctx.true("columns/again-result", w is None, f"the request for another round is dropped when {w}", R.loc)
    keep = lambda v: get(ctx, I, v, "FragmentBuffer", "on_border")
    ctx.true("columns/border-kept", keep(R.out[1]) is keep(B), "the verticals on borders are changed", R.loc)


class AsPair:
    def __init__(self, e):
        self.pc, self.data = e.pc, (e.data[2],)


def index_of(ref, root, field):
    """the index of an element of a sequence field"""
    if ref.k == "ref" and ref.a[0] == root:
        p = ref.a[1]
        if len(p) == 2 and p[0] == ("f", field) and p[1][0] == "i":
            return p[1][1]
    raise Bad(f"not a column of the buffer: {V.show(ref)[:200]}")


def by_threads(ctx):
    """the columns in parallel: the same routine for each, all marks and requests gathered"""
    fs = [f for f in ctx.prog.fns if f["m"] == "parallel_split" and ctx.prog.bodies.get(f["id"]) is not None]
    if not fs:
        return      # built without threads
    flags = []
    I = Interp(ctx.prog, hooks={"SplitSolver>::bin_split": stub("column", marks=2, flag=flags)})
    B = buffer_(ctx, I)
    m0 = mk("v", ("marks found before",), ("slice", ty_of(ctx, "LineMark")))
    R = call(ctx, fs[0], [None, B, m0], interp=I)
    es = one(R, "column")
    forms = scev.closed(I, R.loops)
    G = get(ctx, I, B, "FragmentBuffer", "groups")
    gf = field_ix(ctx, "FragmentBuffer", "groups")
    if len(es) != 1 or len(es[0].loops) != 1:
        raise Bad("the columns are not gone through by one pass", R.loc)
    e, L = es[0], es[0].loops[0]
    c = forms[L.id]
    M = scev.Subst(I, scev.mapping(I, forms, [L]))
    if c.trip is None:
        raise Bad("the pass over the columns has no closed number of rounds", R.loc)
    ctx.eq("threads/all", c.trip, I.seq_len(G), loc=R.loc)
    k = index_of(e.data[0][1], R.roots[1], gf)
    ctx.eq("threads/own", M(k), c.K, M(e.pc), R.loc)
    many = V.ge(I.seq_len(I.seq_get(G, c.K)), V.num(2))
    w = compare.implies(conj(V.lt(c.K, c.trip), many), M(e.pc), [(c.K, "ge")])
    ctx.true("threads/every", w is None, f"a column is passed over when {w}", R.loc)
    # one result per column: its marks and its request
    acc = [(q, ph) for q, (ph, i) in L.phis.items() if empty(i)]
    if len(acc) != 1:
        raise Bad("threads: the results are not gathered in one sequence", R.loc)
    nx = V.restrict(L.nexts[acc[0][0]], L.cont)
    A = acc[0][1]
    ok = nx.k == "app" and nx.a[0] == "push" and nx.a[1] is A and nx.a[2].k == "struct"
    ctx.true("threads/gathered", ok, f"gathered is {V.show(nx)[:200]}", R.loc)
    if not ok:
        return
    parts = nx.a[2].a[1:]
    ff = [n for n, x in enumerate(parts) if x is e.data[2]]
    fm = [n for n, x in enumerate(parts) if x.k == "app" and x.a[0] == "column" and empty(x.a[1])]
    ctx.true("threads/result", len(ff) == 1 and len(fm) == 1, f"a result is {V.show(nx.a[2])[:200]}, expected the marks of the column and its request", R.loc)
    if len(ff) != 1 or len(fm) != 1:
        return
    gather(ctx, I, R, forms, L, A, ff[0], fm[0], m0)


def gather(ctx, I, R, forms, L, A, ff, fm, m0):
    flag = size = marks = None
    for lp in R.loops:
        c = forms.get(lp.id)
        if lp is L or c is None or c.trip is None or compare.difference(c.trip, I.seq_len(A), V.T) is not None:
            continue
        M = scev.Subst(I, scev.mapping(I, forms, [lp]))
        item = I.seq_get(A, c.K)
        care = V.lt(c.K, c.trip)
        for q, (ph, init) in lp.phis.items():
            nx = V.restrict(lp.nexts[q], lp.cont)
            if models.is_boolv(ph):
                if compare.difference(M(nx), V.b_or(M(ph), I.field(item, ff)), conj(care, M(lp.cont))) is None and compare.difference(init, V.F, V.T) is None:
                    flag = ph
            elif init is m0:
                for _, l in seqs.leaves(nx):
                    good = l.k == "app" and l.a[0] == "cat" and l.a[1] is ph and M(l.a[2]) is I.field(item, fm)
                    if good:
                        marks = (lp, ph)
            elif init is V.ZERO:
                own = I.seq_len(I.field(at_phi(I, lp, forms, A), fm))
                if compare.difference(nx, V.add(ph, own), V.T) is None:
                    size = ph
    ctx.true("threads/again", flag is not None, "the requests for another round are not joined over all columns", R.loc)
    ctx.true("threads/marks", marks is not None, "the marks of all columns are not added to the marks found before", R.loc)
    some = V.gt(size, V.ZERO) if size is not None else V.T
    if flag is not None:
        w = compare.implies(conj(flag, some), R.ret, [(size, "ge")] if size is not None else ())
        ctx.true("threads/again-result", w is None, f"the request for another round is dropped when {w}", R.loc)
    if marks is not None:
        for cnd, l in seqs.leaves(R.out[2]):
            ok = l is marks[1] or l is m0 and compare.possible(conj(cnd, some), axioms=[(size, "ge")] if size is not None else ()) is None
            ctx.true("threads/marks-result", ok, f"the marks are {V.show(l)[:200]}", R.loc)


def at_phi(I, lp, forms, A):
    """the element looked at in an iteration, written with the loop's own counter"""
    c = forms[lp.id]
    for q, (ph, i) in lp.phis.items():
        if i is V.ZERO and compare.difference(V.restrict(lp.nexts[q], lp.cont), V.add(ph, V.ONE)) is None:
            return I.seq_get(A, ph)
    return I.seq_get(A, c.K)


def by_border(ctx):
    """verticals on a column border, cut where segments of the column before end at them"""
    I = Interp(ctx.prog)
    f = local(ctx, "on_border_split")
    fty, vty, mty = ty_of(ctx, "Fragment"), ty_of(ctx, "BorderVSegment"), ty_of(ctx, "LineMark")
    L = mk("v", ("fragments",), ("slice", fty))
    VS = mk("v", ("verticals",), ("slice", vty))
    m0 = mk("v", ("marks found before",), ("slice", mty))
    X = ivar("border")
    R = call(ctx, f, [X, L, VS, m0], interp=I)
    forms = scev.closed(I, R.loops)
    es = [e for e in R.events if e.kind == "push" and len(e.data) > 1 and e.data[0].k == "ref" and e.data[0].a[0] == R.roots[3]]
    if len(es) != 1 or len(es[0].loops) != 2:
        raise Bad("the marks are not added by two loops", R.loc)
    e = es[0]
    A, J = e.loops
    ca, cj = forms[A.id], forms[J.id]
    if ca.trip is None:
        raise Bad("the loop over the verticals has no closed number of rounds", R.loc)
    MJ = scev.Subst(I, scev.mapping(I, forms, [A, J]))
    # which vertical, which point
    mark = I.expand(e.data[1])
    s = hit_of(get(ctx, I, mark, "LineMark", "index"))
    p = get(ctx, I, mark, "LineMark", "point")
    h = hit_of(I.field(p, 0))
    if s is None or h is None:
        raise Bad(f"the marks are {V.show(mark)[:200]}, expected a point on a vertical", R.loc)
    SV, PS = s.a[1], h.a[1]
    ymin = lambda v: get(ctx, I, get(ctx, I, v, "BorderVSegment", "y_range"), "LineRange", "min")
    ymax = lambda v: get(ctx, I, get(ctx, I, v, "BorderVSegment", "y_range"), "LineRange", "max")
    srt = SV.k == "app" and SV.a[0] == "sort" and SV.a[1] is VS and monotone(I, SV.a[2], SV.a[3], vty, ymin)
    ctx.true("border/verticals", SV is VS or SV.k == "app" and SV.a[0] == "sort" and SV.a[1] is VS, f"marked are {V.show(SV)[:200]}", R.loc)
    n = I.seq_len(VS)
    ctx.eq("border/every-vertical", ca.trip, n, loc=R.loc)
    # the points: the right ends on the border, from low to high
    ok = PS.k == "app" and PS.a[0] == "sort" and monotone(I, PS.a[2], PS.a[3], PS.ty[1], lambda q: I.field(q, 1))
    ctx.true("border/points-sorted", ok, f"the points are {V.show(PS)[:200]}, expected in order of y", R.loc)
    if not ok:
        return
    ends_on_border(ctx, I, R, forms, L, PS.a[1], X)
    np_ = I.seq_len(PS)
    # one vertical
    ax = [(ca.K, "ge"), (cj.K, "ge")]
    ver = I.expand(I.seq_get(SV, ca.K))
    jx = MJ(index_in(h))
    pj = I.seq_get(PS, jx)
    y = I.field(pj, 1)
    care = conj(V.lt(ca.K, n), V.lt(jx, np_), V.ge(jx, V.ZERO))
    pc, go = MJ(e.pc), MJ(J.cont)
    ctx.eq("border/own-vertical", MJ(get(ctx, I, mark, "LineMark", "index")), get(ctx, I, ver, "BorderVSegment", "id"), conj(pc, care), R.loc, axioms=ax)
    for q in (0, 1):
        ctx.eq(f"border/own-point.{q}", MJ(I.field(p, q)), I.field(pj, q), conj(pc, care), R.loc, axioms=ax)
    w = compare.implies(conj(care, pc), V.lt(y, ymax(ver)), ax)
    ctx.true("border/below-top", w is None, f"a mark is set above the vertical: {w}", R.loc)
    w = compare.implies(conj(care, V.lt(y, ymax(ver)), V.gt(y, ymin(ver))), conj(go, pc), ax)
    ctx.true("border/every-point", w is None, f"a point inside a vertical is passed over when {w}", R.loc)
    # the first point looked at
    first = scev.Subst(I, {cj.kterm.id: V.ZERO})(jx)
    ctx.eq("border/next-point", V.sub(jx, first), cj.K, loc=R.loc)
    first_point(ctx, I, R, forms, A, J, ca, PS, SV, ver, np_, ymin, srt, h, first, conj(care, pc), y)
    # marks
    mkey = (R.roots[3], ())
    ok = mkey in A.phis and mkey in J.phis and A.phis[mkey][1] is m0 and J.phis[mkey][1] is A.phis[mkey][0] and V.restrict(A.nexts[mkey], A.cont) is J.phis[mkey][0]
    ctx.true("border/marks-kept", ok, "the marks found before are not kept", R.loc)
    some = V.gt(np_, V.ZERO)
    for c, l in seqs.leaves(R.out[3]):
        good = ok and l is A.phis[mkey][0] or l is m0 and compare.possible(conj(c, V.gt(n, V.ZERO), some)) is None
        ctx.true("border/marks-result", good, f"the marks are {V.show(l)[:200]}", R.loc)


def index_in(h):
    return V.wrap(h.a[2]) if h.a[2].k != "p" else h.a[2]


def ends_on_border(ctx, I, R, forms, L, P, X):
    """P holds the right ends of all fragments that end at x = X"""
    hit = seqs.loop_of(I, forms, P)
    if hit is None:
        raise Bad(f"the points are {V.show(P)[:200]}, not gathered by one loop", R.loc)
    c = hit[0]
    lp = c.lp
    key = [q for q, (ph, i) in lp.phis.items() if ph is P]
    ok = len(key) == 1 and c.trip is not None and empty(lp.phis[key[0]][1])
    ctx.true("border/points", ok, "the points are not gathered from all fragments", R.loc)
    if not ok:
        return
    ctx.eq("border/all-fragments", c.trip, I.seq_len(L), loc=R.loc)
    M = scev.Subst(I, scev.mapping(I, forms, [lp]))
    b = I.field(get(ctx, I, I.expand(I.seq_get(L, c.K)), "Fragment", "x_segment"), 1)
    care = conj(V.lt(c.K, c.trip), M(lp.cont))
    at = V.eq(I.field(b, 0), X)
    for cnd, l in seqs.leaves(V.restrict(lp.nexts[key[0]], lp.cont)):
        cnd = M(cnd)
        if l is P:
            w = compare.implies(conj(care, cnd), V.b_not(at))
            ctx.true("border/kept-ends", w is None, f"an end on the border is left out when {w}", R.loc)
            continue
        good = l.k == "app" and l.a[0] == "push" and l.a[1] is P
        ctx.true("border/gathered", good, f"the points become {V.show(l)[:200]}", R.loc)
        if good:
            w = compare.implies(conj(care, cnd), at)
            ctx.true("border/only-ends", w is None, f"a point off the border is taken when {w}", R.loc)
            for q in (0, 1):
                ctx.eq(f"border/end.{q}", M(I.field(l.a[2], q)), I.field(b, q), conj(care, cnd), R.loc)


def first_point(ctx, I, R, forms, A, J, ca, PS, SV, ver, np_, ymin, srt, h, first, care, y):
    """all points before the first one looked at lie at or below the vertical, it and those behind lie above"""
    raw = J.phis[key_of(J, index_in(h))][1] if key_of(J, index_in(h)) is not None else None
    above = compare.implies(care, V.gt(y, ymin(ver))) is None
    if raw is V.ZERO:
        ctx.true("border/first-point", above, "a point at or below a vertical may be marked on it", R.loc)
        return
    # found by a loop that skips points
    sk = [lp for lp in R.loops if lp.parent is A and lp is not J and any(ph is raw for ph, _ in lp.phis.values())]
    if len(sk) != 1:
        raise Bad(f"the first point looked at is {V.show(raw)[:200]}, not understood", R.loc)
    lp = sk[0]
    q = [k for k, (ph, _) in lp.phis.items() if ph is raw][0]
    start = lp.phis[q][1]
    sk_nx = V.restrict(lp.nexts[q], lp.cont)
    ctx.eq("border/skip-one", sk_nx, V.add(raw, V.ONE), lp.cont, R.loc)
    M = scev.Subst(I, {k: v for k, v in scev.mapping(I, forms, [A]).items()})
    yi = I.field(I.seq_get(PS, raw), 1)
    low = V.le(yi, ymin(ver))
    inside = conj(V.lt(raw, np_), V.ge(raw, V.ZERO))
    cont = M(lp.cont)
    w = compare.implies(conj(cont, inside), low)
    ctx.true("border/skipped", w is None, f"a point above the lower end of a vertical is skipped when {w}", R.loc)
    w = compare.implies(conj(inside, low), cont)
    ctx.true("border/skip-all", above or w is None, f"a point at or below a vertical may be marked on it: {w}", R.loc)
    # where the skipping starts
    if start is V.ZERO:
        return
    k = [k for k, (ph, i) in A.phis.items() if ph is start and i is V.ZERO]
    ok = len(k) == 1 and V.restrict(A.nexts[k[0]], A.cont) is raw
    ctx.true("border/skip-start", ok and srt, "points skipped for one vertical are not passed over for the next: the verticals are not in order of their lower ends", R.loc)


def key_of(lp, v):
    for k, (ph, _) in lp.phis.items():
        if ph is v:
            return k
    return None


def by_fragments(ctx):
    """a round of the fragment strategy: all segments are placed, all columns and borders gone through"""
    RD = Round(ctx)
    I = RD.I
    flags = []
    I.hooks.update({"FragmentBuffer::add_segment": stub("placed", buf=0), "FragmentBuffer::init_fragment_buffer": stub("reserve"), "FragmentBuffer::clear": stub("cleared", buf=0), "SplitSolver>::process": stub("process", marks=3, flag=flags), "SplitSolver>::on_border_split": stub("border", marks=3)})
    f = local(ctx, "fragment_split")
    R = call(ctx, f, [None, None, RD.S], interp=I)
    forms = scev.closed(I, R.loops)
    ps, pr = one(R, "placed"), one(R, "process")
    if len(ps) != 1 or len(pr) != 1 or len(ps[0].loops) != 2 or len(pr[0].loops) != 1:
        raise Bad("the segments are not placed by one loop inside the rounds", R.loc)
    W, P = ps[0].loops
    if pr[0].loops[0] is not W:
        raise Bad("the columns are not gone through once a round", R.loc)
    S = outer_seq(RD, W)
    n = I.seq_len(S)
    run = conj(due(W), V.ge(n, V.num(2)))
    # every segment is placed
    c = forms[P.id]
    if c.trip is None:
        raise Bad("the loop that places segments has no closed number of rounds", R.loc)
    M = scev.Subst(I, scev.mapping(I, forms, [P]))
    e = ps[0]
    ctx.eq("fragments/every-segment", c.trip, n, loc=R.loc)
    ctx.true("fragments/entered", compare.implies(run, P.entry_pc) is None, "no segment is placed", R.loc)
    live = V.lt(c.K, n)
    w = compare.implies(live, M(e.pc), [(c.K, "ge")])
    ctx.true("fragments/placed", w is None, f"a segment is not placed when {w}", R.loc)
    ctx.eq("fragments/index", M(e.data[0][1]), c.K, live, R.loc)
    seg = seg_of(ctx, I, S, c.K)
    for a in (0, 1):
        for b in (0, 1):
            ctx.eq(f"fragments/segment.{a}{b}", M(I.field(I.field(I.expand(e.data[0][2]), a), b)), I.field(I.field(seg, a), b), live, R.loc)
    # into an empty buffer
    bref = e.data[0][0]
    bk = [k for k in P.phis if bref.k == "ref" and k == (bref.a[0], bref.a[1])]
    if len(bk) != 1 or bk[0] not in W.phis:
        raise Bad("the buffer the segments are placed in is not understood", R.loc)
    bk = bk[0]
    placed = P.phis[bk][0]
    ctx.true("fragments/one-buffer", same(I, P.phis[bk][1], W.phis[bk][0]), "the segments of a round are placed in another buffer", R.loc)
    nx = V.restrict(P.nexts[bk], P.cont)
    ctx.true("fragments/buffer-grows", nx.k == "app" and nx.a[0] == "placed" and same(I, nx.a[1], placed), f"the buffer becomes {V.show(nx)[:150]}", R.loc)
    nx = V.restrict(W.nexts[bk], W.cont)
    ctx.true("fragments/cleared", nx.k == "app" and nx.a[0] == "cleared", f"the next round starts with the buffer {V.show(nx)[:150]}", R.loc)
    b0 = W.phis[bk][1]
    g0, o0 = get(ctx, I, b0, "FragmentBuffer", "groups"), get(ctx, I, b0, "FragmentBuffer", "on_border")
    ok = g0.k == "app" and g0.a[0] == "rep" and empty(g0.a[1]) and o0.k == "app" and o0.a[0] == "map0"
    ctx.true("fragments/empty", ok, f"the first round starts with the columns {V.show(g0)[:150]}", R.loc)
    # all columns
    e = pr[0]
    w = compare.implies(conj(run, after(P)), e.pc)
    ctx.true("fragments/columns", w is None, f"the columns are not gone through when {w}", R.loc)
    ctx.true("fragments/own-columns", same(I, e.data[3][2], placed), f"gone through are {V.show(e.data[3][2])[:150]}", R.loc)
    first = e.data[1][0]
    processed = mk("app", ("process", first), first.ty)
    flag = e.data[2]
    # all borders
    bs = one(R, "border")
    if len(bs) != 1 or len(bs[0].loops) != 2 or bs[0].loops[0] is not W:
        raise Bad("the borders are not gone through by one loop inside the rounds", R.loc)
    e, D = bs[0], bs[0].loops[1]
    c = forms[D.id]
    if c.trip is None:
        raise Bad("the loop over the borders has no closed number of rounds", R.loc)
    ob = get(ctx, I, placed, "FragmentBuffer", "on_border")
    gs = get(ctx, I, placed, "FragmentBuffer", "groups")
    es = entries(I, R, D, ob)
    ne = I.seq_len(es)
    ctx.eq("fragments/every-border", c.trip, ne, loc=R.loc)
    w = compare.implies(conj(run, V.gt(ne, V.ZERO), after(P)), D.entry_pc)
    ctx.true("fragments/borders-entered", w is None, f"the borders are passed over when {w}", R.loc)
    M = scev.Subst(I, scev.mapping(I, forms, [D]))
    ent = I.seq_get(es, c.K)
    st = State()
    ix = I.read(st, I.field(ent, 0))
    live = conj(V.lt(c.K, ne), V.ge(ix, V.ONE), V.le(ix, I.seq_len(gs)))
    w = compare.implies(live, M(e.pc), [(c.K, "ge")])
    ctx.true("fragments/borders", w is None, f"a border is passed over when {w}", R.loc)
    lay = get(ctx, I, placed, "FragmentBuffer", "layout")
    pos = call(ctx, ctx.prog.method("GridLayout", "pos"), [lay, ix], interp=I)
    ctx.eq("fragments/border-place", M(e.data[0][0]), pos.ret, live, R.loc)
    gref = e.data[0][1]
    gi = [x for x in gref.a[1] if x[0] == "i"] if gref.k == "ref" else []
    ok = gref.k == "ref" and gref.a[0] == bk[0] and ("f", field_ix(ctx, "FragmentBuffer", "groups")) in gref.a[1] and len(gi) == 1
    ctx.true("fragments/border-column", ok, f"the ends are taken from {V.show(gref)[:150]}", R.loc)
    if ok:
        ctx.eq("fragments/border-before", M(gi[0][1]), V.sub(ix, V.ONE), conj(live, M(e.pc)), R.loc)
    vs = e.data[3][2]
    ctx.true("fragments/border-verticals", M(vs) is I.read(st, I.field(ent, 1)), f"cut are {V.show(vs)[:150]}", R.loc)
    # marks of the round
    mk_ = [k for k, (ph, i) in D.phis.items() if i is processed]
    ok = len(mk_) == 1 and e.data[1][0] is D.phis[mk_[0]][0]
    ctx.true("fragments/marks", ok, "the marks of the columns are not kept for the borders", R.loc)
    if not ok:
        return
    bm = D.phis[mk_[0]][0]
    for cnd, l in seqs.leaves(V.restrict(D.nexts[mk_[0]], D.cont)):
        while l.k == "app" and l.a[0] == "border":
            l = l.a[1]
        ctx.true("fragments/marks-added", l is bm, f"the marks become {V.show(l)[:150]}", R.loc)
    ap = one(R, "apply")
    m = ap[0].data[0]
    for cnd, l in seqs.leaves(m):
        good = l is bm or l is processed and compare.possible(conj(cnd, V.gt(ne, V.ZERO))) is None
        ctx.true("fragments/marks-used", good, f"applied are {V.show(l)[:150]}", R.loc)
    _, _, none = rounds(ctx, "fragments", RD, R, W, m, flag, first)
    ks = [k for k, (ph, i) in W.phis.items() if models.is_boolv(ph) and compare.implies(V.T, i) is None and scev.mentions(W.nexts[k], {V.node(x.a[0].key[1]).id for x in flags})]
    if len(ks) != 1:
        raise Bad("the request for another round is not carried on", R.loc)
    again(ctx, "fragments", RD, R, W, ks[0], flag, none, S, n, m)


def same(I, a, b):
    return I.expand(a) is I.expand(b)


def after(lp):
    return V.b_not(lp.cont)


def entries(I, R, D, ob):
    return mk("app", ("entries", ob), ("slice", ("tuple", (("ref", ob.ty[2][0]), ("ref", ob.ty[2][1])))))


def clearing(ctx):
    """clearing the buffer empties every column and forgets the borders"""
    I = Interp(ctx.prog)
    B = buffer_(ctx, I)
    R = call(ctx, ctx.prog.method("FragmentBuffer", "clear"), [B], interp=I)
    forms = scev.closed(I, R.loops)
    out = R.out[0]
    G, g = get(ctx, I, B, "FragmentBuffer", "groups"), get(ctx, I, out, "FragmentBuffer", "groups")
    hit = seqs.loop_of(I, forms, g)
    if hit is None:
        raise Bad(f"the columns become {V.show(g)[:200]}, not understood", R.loc)
    c, key, init = hit
    lp = c.lp
    ok = init is G and c.trip is not None
    ctx.true("clear/columns", ok, "not all columns are emptied", R.loc)
    if ok:
        ctx.eq("clear/every", c.trip, I.seq_len(G), loc=R.loc)
        M = scev.Subst(I, scev.mapping(I, forms, [lp]))
        nx = V.restrict(lp.nexts[key], lp.cont)
        good = nx.k == "app" and nx.a[0] == "store" and nx.a[1] is g and empty(nx.a[3])
        ctx.true("clear/emptied", good, f"the columns become {V.show(nx)[:200]}", R.loc)
        if good:
            ctx.eq("clear/own", M(nx.a[2]), c.K, loc=R.loc)
        ctx.true("clear/entered", compare.implies(V.gt(I.seq_len(G), V.ZERO), lp.entry_pc) is None, "the columns are not emptied", R.loc)
    ob = get(ctx, I, out, "FragmentBuffer", "on_border")
    ctx.true("clear/borders", ob.k == "app" and ob.a[0] == "map0", f"the borders become {V.show(ob)[:200]}", R.loc)
    for n in ("min_x", "max_x", "power"):
        f = lambda b: get(ctx, I, get(ctx, I, b, "FragmentBuffer", "layout"), "GridLayout", n)
        ctx.eq(f"clear/layout.{n}", f(out), f(B), loc=R.loc)


def either(ctx):
    """one of the two passes over the columns is made, with the marks and the columns given"""
    flags = []
    I = Interp(ctx.prog, hooks={"SplitSolver>::serial_split": stub("pass", marks=2, flag=flags), "SplitSolver>::parallel_split": stub("pass", marks=2, flag=flags)})
    f = local(ctx, "process")
    B = buffer_(ctx, I)
    m0 = mk("v", ("marks found before",), ("slice", ty_of(ctx, "LineMark")))
    R = call(ctx, f, [None, None, B, m0], interp=I)
    es = one(R, "pass")
    some = V.F
    for e in es:
        some = V.b_or(some, e.pc)
        ctx.true("process/columns", same(I, e.data[3][1], B), "other columns are gone through", R.loc)
        ctx.true("process/marks", e.data[1][0] is m0, "the marks found before are dropped", R.loc)
        w = compare.implies(conj(e.pc, e.data[2]), R.ret)
        ctx.true("process/again", w is None, f"the request for another round is dropped when {w}", R.loc)
    w = compare.implies(V.T, some)
    ctx.true("process/always", w is None, f"no column is gone through when {w}", R.loc)
    for c, l in seqs.leaves(R.out[3]):
        ctx.true("process/marks-result", l.k == "app" and l.a[0] == "pass" and l.a[1] is m0, f"the marks are {V.show(l)[:200]}", R.loc)


def tree_range(ctx):
    """the tree of planted segments spans all of them"""
    RD = Round(ctx)
    I = RD.I
    TR = Tree(RD)
    f = local(ctx, "tree_split")
    R = call(ctx, f, [None, None, RD.S], interp=I)
    ts = one(R, "tree")
    ctx.true("range/once", len(ts) == 1, "the tree is built more than once", R.loc)
    forms = scev.closed(I, R.loops)
    lo, hi = rng(I, ts[0].data[0])
    for nm, v, rel in (("low", lo, V.le), ("high", hi, V.ge)):
        hit = [(c, q) for c in forms.values() for q, (ph, _) in c.lp.phis.items() if ph is v]
        if len(hit) != 1 or hit[0][0].trip is None:
            raise Bad(f"the range of the tree is {V.show(v)[:200]}, not found by going through the segments", R.loc)
        c, q = hit[0]
        lp = c.lp
        # 0 <= k < n rounds, over n or all but the first segment
        n = I.seq_len(RD.S)
        ph, init = lp.phis[q]
        nx = V.restrict(lp.nexts[q], lp.cont)
        w = compare.implies(lp.cont, rel(nx, ph))
        ctx.true(f"range/{nm}-kept", w is None, f"the range shrinks when {w}", R.loc)
        ks = [(k, p, i) for k, (p, i) in lp.phis.items() if k != q and compare.difference(V.restrict(lp.nexts[k], lp.cont), V.add(p, V.ONE)) is None and V.pconst(i) is not None]
        done = []
        for k, p, i in ks:
            s = seg_of(ctx, I, RD.S, p)
            ys = [P2(I, I.field(s, a)).y for a in (0, 1)]
            if all(compare.implies(lp.cont, rel(nx, y)) is None for y in ys) and compare.difference(V.add(c.trip, i), n, V.gt(n, V.ZERO)) is None:
                done.append(V.pconst(i))
        first = V.T
        if done and min(done) == 1:
            s = seg_of(ctx, I, RD.S, V.ZERO)
            first = conj(*[rel(init, P2(I, I.field(s, a)).y) for a in (0, 1)])
        ok = bool(done) and min(done) <= 1 and compare.implies(V.T, first) is None
        ctx.true(f"range/{nm}", ok, "the range of the tree does not cover all segments", R.loc)


def dispatch(ctx):
    """the edges are sorted and merged, then one strategy takes all of them"""
    I = Interp(ctx.prog)
    sty = ty_of(ctx, "Segment", CNT)
    S = mk("v", ("segments",), ("slice", sty))
    taken = []

    def strategy(I, f, args, tys, dty, st, line):
        r = mk("app", ("split", args[2]), args[2].ty)
        return r, V.T, st
    I.hooks = {"SplitSolver>::" + n: strategy for n in ("tree_split", "list_split", "fragment_split")}
    R = call(ctx, local(ctx, "split", "SplitSolver"), [None, S], interp=I)
    for c, l in seqs.leaves(R.ret):
        ctx.true("dispatch/all-edges", l.k == "app" and l.a[0] == "split" and l.a[1] is S, f"the result is {V.show(l)[:200]}", R.loc)
    J = Interp(ctx.prog)

    def sort(I, f, args, tys, dty, st, line):
        s = I.read(st, args[0])
        st = st.copy()
        k = models.cmp_key(I, st, args[2], sty, "sort_by")
        I.write(st, args[0], mk("app", ("sort", s, k, "sort_by", False), s.ty))
        return UNIT_, V.T, st

    def merge(I, f, args, tys, dty, st, line):
        s = I.read(st, args[0])
        st = st.copy()
        I.write(st, args[0], mk("app", ("merged", s), s.ty))
        return V.wrap(mk("v", ("merging",), ("bool",))), V.T, st

    def split(I, f, args, tys, dty, st, line):
        return mk("app", ("split", args[1]), args[1].ty), V.T, st
    J.hooks = {"smart_bin_sort_by": sort, "merge_if_needed": merge, "SplitSolver::split": split}
    R = call(ctx, local(ctx, "split_segments", "Vec"), [S], interp=J)
    for c, l in seqs.leaves(R.ret):
        m = l
        whole = m.k == "app" and m.a[0] == "split"
        if whole:
            m = m.a[1]
        ok = m.k == "app" and m.a[0] == "merged" and m.a[1].k == "app" and m.a[1].a[0] == "sort" and m.a[1].a[1] is S
        ctx.true("dispatch/sorted-merged", ok, f"split are {V.show(l)[:200]}, expected the sorted and merged edges", R.loc)
        if not ok:
            continue
        ctx.true("dispatch/order", edge_order(ctx, J, m.a[1].a[2], CNT), "the edges are not sorted by their ends", R.loc)
        if not whole:
            w = compare.implies(c, V.le(J.seq_len(m), V.ONE))
            ctx.true("dispatch/split", w is None, f"the edges are left unsplit when {w}", R.loc)
