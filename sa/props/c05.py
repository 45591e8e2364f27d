"""Splitting edges at their crossings and merging equal ones."""
from .lib import *
import models
import scev
import seqs

LEVEL = "other"


def run(ctx):
    for nm, fn in (("cross", marks_list), ("fragments", marks_fragments), ("merge", merging), ("when", merge_when), ("marks", marks_sorted), ("group", marks_in_group), ("sort", sorting_routine), ("cut", cut_edges), ("binned", binned)):
        with ctx.case(nm):
            fn(ctx)
    ctx.floor(10)


def local(ctx, name, owner=""):
    fs = [f for f in ctx.prog.fns if f["m"] == name and owner in f["n"] and ctx.prog.bodies.get(f["id"]) is not None]
    if len(fs) != 1:
        raise Bad(f"expected one function {owner}::{name}, found {len(fs)}")
    return fs[0]


def cond(c, I, v, ty, k):
    return V.eq(I.discr_of(v, ty), V.num(k))


class Crossing:
    """the answer of the pairwise routine, as an unknown"""

    def __init__(self, ctx, I):
        self.ctx, self.I, self.calls = ctx, I, []
        I.hooks["CrossSolver::cross"] = self.on
        new = ctx.prog.find(r"EndMask>::new$")
        self.mask = None
        if len(new) == 1:
            # the overlap routine is judged elsewhere (C06): here its answer is four unknowns
            I.hooks["CrossSolver::collinear"] = self.on_collinear
            self.ends = [I.var(f"end{n}", ("bool",)) for n in range(4)]
            self.new = new[0]
            self.with_ = []

    def on(self, I, f, args, tys, dty, st, line):
        self.calls.append(tuple(deref_(I, st, a) for a in args))
        self.X = I.var("X", dty)
        self.ty = dty
        return self.X, V.T, st

    def on_collinear(self, I, f, args, tys, dty, st, line):
        self.with_.append(tuple(deref_(I, st, a) for a in args))
        r = call(self.ctx, self.new, list(self.ends), interp=I)
        return r.ret, V.T, st

    def ends_inside(self, I, t, o):
        if getattr(self, "with_", None):
            return self.ends
        return inside_conds(I, t, o)

    def parts(self):
        ctx, I, p = self.ctx, self.I, self.ctx.prog
        some = V.eq(I.discr_of(self.X, self.ty), V.num(p.variants(self.ty[1]).index("Some")))
        c = I.field(self.X, 0, p.variants(self.ty[1]).index("Some"))
        kt = ty_of(ctx, "CrossType")
        k = I.discr_of(get(ctx, I, c, "CrossResult", "cross_type"), kt)
        vs = p.variants(kt[1])
        is_ = {n: V.b_and(some, V.eq(k, V.num(vs.index(n)))) for n in ("Pure", "TargetEnd", "OtherEnd", "Overlay")}
        return some, is_, get(ctx, I, c, "CrossResult", "point"), get(ctx, I, c, "CrossResult", "is_round")


def deref_(I, st, a):
    return I.expand(models.deref_all(I, st, a))


def inside_conds(I, t, o):
    """which ends of two collinear segments lie strictly inside the other one"""
    dx, dy = V.sub(o.b.x, o.a.x), V.sub(o.b.y, o.a.y)
    pos = lambda q, r: V.signum(V.add(V.mul(V.sub(q.x, r.x), dx), V.mul(V.sub(q.y, r.y), dy)))
    opp = lambda u, v: conj(V.ne(u, V.ZERO), V.eq(V.add(u, v), V.ZERO))
    aa, ab, ba, bb = pos(t.a, o.a), pos(t.a, o.b), pos(t.b, o.a), pos(t.b, o.b)
    return opp(aa, ab), opp(ba, bb), opp(aa, ba), opp(ab, bb)


class Seg_:
    def __init__(self, I, v):
        self.v, self.a, self.b = v, P2(I, I.field(v, 0)), P2(I, I.field(v, 1))


def judge(ctx, key, I, R, X, marks, i, j, ei, ej, radius, guard):
    """guard(point, of): None, or condition under which the pair is responsible for a mark"""
    p = ctx.prog
    if not X.calls:
        raise Bad("two segments are never intersected", R.loc)
    t, o, ti, oi = ei, ej, i, j
    first = X.calls[0]
    if compare.difference(first[0], ej) is None:
        t, o, ti, oi = ej, ei, j, i
    for c in X.calls:
        ctx.eq(f"{key}/target", c[0], t, loc=R.loc)
        ctx.eq(f"{key}/other", c[1], o, loc=R.loc)
        ctx.eq(f"{key}/radius", c[2], radius, loc=R.loc)
    T_, O_ = Seg_(I, t), Seg_(I, o)
    some, is_, pt, rnd = X.parts()
    ta, tb, oa, ob = X.ends_inside(I, T_, O_)
    for c in getattr(X, "with_", ()):
        ctx.eq(f"{key}/overlap-of", c[0], t, loc=R.loc)
        ctx.eq(f"{key}/overlap-with", c[1], o, loc=R.loc)
    g = guard(P2(I, pt), None)
    spec = [
        ("crossing of the first", ti, P2(I, pt), disj(is_["Pure"], is_["OtherEnd"]), g),
        ("crossing of the second", oi, P2(I, pt), disj(is_["Pure"], is_["TargetEnd"]), g),
        ("start of the first", oi, T_.a, conj(is_["Overlay"], ta), guard(T_.a, ti)),
        ("end of the first", oi, T_.b, conj(is_["Overlay"], tb), guard(T_.b, ti)),
        ("start of the second", ti, O_.a, conj(is_["Overlay"], oa), guard(O_.a, oi)),
        ("end of the second", ti, O_.b, conj(is_["Overlay"], ob), guard(O_.b, oi)),
    ]
    got = [V.F] * len(spec)
    fi, fp = field_ix(ctx, "LineMark", "index"), field_ix(ctx, "LineMark", "point")
    for cc, l in seqs.leaves(marks):
        ps = seqs.pushes(l, R.base)
        if ps is None:
            ctx.true(f"{key}/only-adds-marks", False, f"marks become {V.show(l)[:300]}", R.loc)
            continue
        for x in ps:
            ok = False
            q = P2(I, I.field(x, fp))
            for n, (nm, idx, pnt, c, gg) in enumerate(spec):
                if compare.difference(I.field(x, fi), idx, cc) is None and compare.difference(q.x, pnt.x, cc) is None and compare.difference(q.y, pnt.y, cc) is None:
                    got[n] = V.b_or(got[n], cc)
                    ok = True
            ctx.true(f"{key}/mark-known", ok, f"marks segment {V.show(I.field(x, fi))[:60]} at {V.show(I.field(x, fp))[:200]}", R.loc)
    for (nm, idx, pnt, c, gg), h in zip(spec, got):
        w = compare.implies(h, c)
        ctx.true(f"{key}/{nm}/only-inside", w is None, f"marked although {w}", R.loc)
        w = compare.implies(conj(c, gg), h)
        ctx.true(f"{key}/{nm}/marked", w is None, f"not marked when {w}", R.loc)
    r = R.ret
    isr = V.ite(rnd, V.T, V.F) if rnd.k != "ite" else rnd
    w = compare.implies(r, conj(some, rnd))
    ctx.true(f"{key}/again-only-if-rounded", w is None, f"asks for another round when {w}", R.loc)
    w = compare.implies(conj(some, V.b_not(is_["Overlay"]), rnd, g), r)
    ctx.true(f"{key}/again-if-rounded", w is None, f"no further round when {w}", R.loc)


def marks_list(ctx):
    p = ctx.prog
    f = local(ctx, "cross", "SplitSolver")
    I = Interp(p, hooks={})
    X = Crossing(ctx, I)
    xs = ty_of(ctx, "XSegment")
    ei, ej = I.expand(I.var("ei", xs)), I.expand(I.var("ej", xs))
    i, j, r = ivar("i", "usize"), ivar("j", "usize"), ivar("radius", "i64")
    base = mk("v", ("marks",), ("slice", ty_of(ctx, "LineMark")))
    R = call(ctx, f, [i, j, ei, ej, base, r], interp=I)
    R.base = base
    judge(ctx, "cross", I, R, X, R.out[4], i, j, ei, ej, r, lambda q, of: V.T)


def marks_fragments(ctx):
    p = ctx.prog
    f = local(ctx, "cross_fragments", "SplitSolver")
    I = Interp(p, hooks={})
    X = Crossing(ctx, I)
    ft = ty_of(ctx, "Fragment")
    fi, fj = I.expand(I.var("fi", ft)), I.expand(I.var("fj", ft))
    rad = nat("radius", 0, 1 << 30, "i64")
    base = mk("v", ("marks",), ("slice", ty_of(ctx, "LineMark")))
    R = call(ctx, f, [fi, fj, base, rad], interp=I)
    R.base = base
    g = lambda v, n: get(ctx, I, v, "Fragment", n)
    rc = {id(fi): g(fi, "rect"), id(fj): g(fj, "rect")}

    def has(rect, q):
        e = lambda n: get(ctx, I, rect, "IntRect", n)
        return conj(V.le(V.sub(e("min_x"), rad), q.x), V.le(q.x, V.add(e("max_x"), rad)), V.le(V.sub(e("min_y"), rad), q.y), V.le(q.y, V.add(e("max_y"), rad)))
    i, j = g(fi, "index"), g(fj, "index")

    def guard(q, of):
        # an end lies in a fragment of its own segment; there, and only there, the mark is due
        if of is None:
            return conj(has(g(fi, "rect"), q), has(g(fj, "rect"), q))
        return conj(has(g(fi, "rect"), q), has(g(fj, "rect"), q))
    judge(ctx, "fragments", I, R, X, R.out[2], i, j, g(fi, "x_segment"), g(fj, "x_segment"), rad, guard)


# ---------------------------------------------------------------- merging equal edges
class Stepper:
    """loop variables of one loop: their values before, after one round, and at the start"""

    def __init__(self, I, lp):
        self.I, self.lp = I, lp
        self.nx, self.init = {}, {}
        for key, (ph, init) in lp.phis.items():
            t = scev.phi_term(ph)
            if t is None and ph.k == "p":
                continue
            if t is None and ph.k == "ite" and ph.a[0].key[0] == "b" and ph.a[1] is V.T and ph.a[2] is V.F:
                t = V.node(ph.a[0].key[1])
            if t is None:
                t = ph if ph.k in ("v", "app") else None
            if t is None:
                continue
            self.init[t.id] = init
            if key in lp.nexts:
                self.nx[t.id] = V.restrict(lp.nexts[key], lp.cont)

    def next(self, v, care=V.T):
        m = {i: V.restrict(x, care) if x.k == "ite" else x for i, x in self.nx.items()}
        return scev.Subst(self.I, m)(v)

    def start(self, v):
        return scev.Subst(self.I, self.init)(v)


def merging(ctx):
    p = ctx.prog
    f = local(ctx, "merge", "segm::merge")
    I = Interp(p)
    cty = ("param", "C")
    S = mk("v", ("segments",), ("slice", ty_of(ctx, "Segment", cty)))
    after = nat("after", 1, ty="usize")

    def apply_(I, f, args, tys, dty, st, line):
        st = st.copy()
        a, b = I.read(st, args[0]), args[1]
        I.write(st, args[0], mk("app", ("plus", a, b), cty))
        return I.unit() if hasattr(I, "unit") else mk("struct", ("()",), ("tuple", ())), V.T, st

    def some_(I, f, args, tys, dty, st, line):
        return V.wrap(mk("app", ("nonzero", I.read(st, args[0])), ("bool",))), V.T, st
    I.hooks = {"WindingCount::apply": apply_, "WindingCount::is_not_empty": some_}
    R = call(ctx, f, [S, after], interp=I)
    top = [l for l in R.loops if l.parent is None]
    if len(top) != 1:
        raise Bad(f"expected one merging loop, found {len(top)}", R.loc)
    lp = top[0]
    st = Stepper(I, lp)
    seq = [(k, ph, i) for k, (ph, i) in lp.phis.items() if I.is_seq(ph)]
    if len(seq) != 1:
        raise Bad("the merging loop does not work in place", R.loc)
    key, Q, q0 = seq[0]
    # the flush at the end names the pending edge and its place
    fin = R.out[0]
    sts = [(c, l) for c, l in seqs.leaves(fin) if l is not Q]
    if len(sts) != 1 or sts[0][1].k != "app" or sts[0][1].a[0] != "store" or sts[0][1].a[1] is not Q:
        raise Bad(f"the pending edge is not written at the end: {V.show(fin)[:300]}", R.loc)
    cond_, l = sts[0]
    J, P = l.a[2], I.expand(l.a[3])
    g = lambda v, n: get(ctx, I, v, "Segment", n)
    full = V.wrap(mk("app", ("nonzero", g(P, "count")), ("bool",)))
    ctx.eq("merge/end-kept", cond_, full, loc=R.loc)
    ctx.eq("merge/end-length", R.ret, V.ite(full, V.add(J, V.ONE), J), loc=R.loc)
    # where the next edge is read
    forms = scev.closed(I, R.loops)
    c = forms[lp.id]
    if c.trip is None:
        raise Bad("the merging loop has no closed number of rounds", R.loc)
    n = I.seq_len(S)
    ctx.eq("merge/rounds", c.trip, V.vmax(V.sub(n, after), V.ZERO), loc=R.loc)
    i = V.add(after, c.K)
    ctx.eq("merge/start-place", st.start(J), V.sub(after, V.ONE), loc=R.loc)
    ctx.eq("merge/start-edge", st.start(P), I.expand(I.seq_get(S, V.sub(after, V.ONE))), loc=R.loc)
    ctx.true("merge/start-seq", q0 is S, "the loop works on another sequence", R.loc)
    fold = scev.Subst(I, c.form)
    live = V.lt(c.K, V.sub(n, after))
    behind = [(V.sub(V.sub(i, J), V.ONE), "ge"), (J, "ge")]
    nQ, nJ, nP = fold(st.next(Q)), fold(st.next(J)), fold(I.expand(st.next(P)))
    E = I.expand(I.seq_get(Q, i))
    xs = lambda v: [I.field(I.field(g(v, "x_segment"), a), b) for a in (0, 1) for b in (0, 1)]
    same = conj(*[V.eq(a, b) for a, b in zip(xs(P), xs(E))])
    cases = [
        ("equal", conj(live, same), Q, J, [mk("app", ("plus", g(P, "count"), g(E, "count")), cty)], P),
        ("flush", conj(live, V.b_not(same), full), mk("app", ("store", Q, J, P), Q.ty), V.add(J, V.ONE), [g(E, "count")], E),
        ("drop", conj(live, V.b_not(same), V.b_not(full)), Q, J, [g(E, "count")], E),
    ]
    for nm, care, wQ, wJ, wC, wX in cases:
        for cc, l in seqs.leaves(nQ):
            if compare.possible(conj(cc, care), behind) is None:
                continue
            if nm == "flush":
                ok = l.k == "app" and l.a[0] == "store" and l.a[1] is Q and compare.difference(l.a[2], J, conj(cc, care), axioms=behind) is None and compare.difference(I.expand(l.a[3]), P, conj(cc, care), axioms=behind) is None
            else:
                ok = l is Q
            ctx.true(f"merge/{nm}/edges", ok, f"the edges become {V.show(l)[:300]}", R.loc)
        ctx.eq(f"merge/{nm}/place", nJ, wJ, care, R.loc, axioms=behind)
        cnt = g(nP, "count")
        ok = all(any(compare.difference(l, w, conj(cc, care), axioms=behind) is None for w in (wC + ([mk("app", ("plus", g(E, "count"), g(P, "count")), cty)] if nm == "equal" else []))) for cc, l in seqs.leaves(cnt) if compare.possible(conj(cc, care), behind) is not None)
        ctx.true(f"merge/{nm}/count", ok, f"the pending count becomes {V.show(cnt)[:400]}", R.loc)
        for k, (a, b) in enumerate(zip(xs(nP), xs(wX))):
            ctx.eq(f"merge/{nm}/ends.{k}", a, b, care, R.loc, axioms=behind)


def merge_when(ctx):
    """merging starts at the first edge that equals its neighbour"""
    p = ctx.prog
    f = local(ctx, "merge_if_needed")
    I = Interp(p)
    cty = ("param", "C")
    S = mk("v", ("segments",), ("slice", ty_of(ctx, "Segment", cty)))
    done = []
    new = mk("v", ("merged",), S.ty)
    size = ivar("merged_len", "usize")

    def on(I, f, args, tys, dty, st, line):
        st = st.copy()
        done.append((I.read(st, args[0]), args[1], I.pc))
        I.write(st, args[0], new)
        return size, V.T, st
    I.hooks = {"segm::merge::merge": on}
    R = call(ctx, f, [S], interp=I)
    if len(done) != 1:
        raise Bad(f"expected one call of the merging loop, found {len(done)}", R.loc)
    forms = scev.closed(I, R.loops)
    top = [l for l in R.loops if l.parent is None]
    if len(top) != 1:
        raise Bad(f"expected one search loop, found {len(top)}", R.loc)
    lp = top[0]
    c = forms[lp.id]
    n = I.seq_len(S)
    arg, at, pc = done[0]
    ctx.true("when/of", arg is S, "another sequence is merged", R.loc)
    fold = scev.Subst(I, c.form)
    at = fold(at)
    xs = lambda v: [I.field(I.field(get(ctx, I, v, "Segment", "x_segment"), a), b) for a in (0, 1) for b in (0, 1)]
    A, B = I.seq_get(S, V.sub(at, V.ONE)), I.seq_get(S, at)
    same = conj(*[V.eq(a, b) for a, b in zip(xs(A), xs(B))])
    ctx.eq("when/consecutive", at, V.add(c.K, V.ONE), loc=R.loc)
    has = conj(V.lt(at, n))
    ax = [(c.K, "ge")]
    cont = fold(lp.cont)
    w = compare.implies(conj(has, V.ge(n, V.num(2)), V.b_not(same)), cont, ax)
    ctx.true("when/goes-on", w is None, f"the search stops early when {w}", R.loc)
    w = compare.implies(cont, conj(has, V.b_not(same)), ax)
    ctx.true("when/stops", w is None, f"the search passes an equal pair when {w}", R.loc)
    # result
    for cc, l in seqs.leaves(R.out[0]):
        cc = fold(cc)
        if l is S:
            w = compare.implies(cc, disj(V.lt(n, V.num(2)), V.b_not(has), V.b_not(same)), ax)
            ctx.true("when/unchanged", w is None, f"equal edges stay apart when {w}", R.loc)
        else:
            cut = l.k == "app" and l.a[0] == "sub" and l.a[1] is new and V.pconst(l.a[2]) == 0 and l.a[3] is size
            ctx.true("when/cut", cut or (l is new and compare.implies(cc, V.le(I.seq_len(new), size), ax) is None), f"the result is {V.show(l)[:200]}, expected the merged part", R.loc)


# ---------------------------------------------------------------- order of the marks
def sub_range(a, I, st):
    """(root value, low, high) of a reference to a part of a sequence"""
    if a.k != "ref":
        raise Bad(f"a part of the marks is expected, got {V.show(a)[:100]}")
    path = a.a[1]
    whole = mk("ref", (a.a[0], ()))
    if not path:
        v = I.read(st, whole)
        return v, V.ZERO, I.seq_len(v)
    if len(path) != 1 or path[0][0] != "sl":
        raise Bad(f"a part of the marks is expected, got {V.show(a)[:100]}")
    return I.read(st, whole), path[0][1], path[0][2]


def as_term(v):
    t = scev.phi_term(v)
    return t if t is not None else None


def runs(ctx, key, I, R, what, key_of):
    """The calls `what`(part) are made for every maximal run (of more than one element) of equal keys.

    Loop state: start of the open run, place looked at, key of the open run; the invariant 'the key is that
    of the first element of the open run' is checked at the start and over one round."""
    evs = [e for e in R.events if e.kind == what]
    inn = [e for e in evs if e.loops]
    fin = [e for e in evs if not e.loops]
    if len(inn) != 1 or len(fin) != 1:
        raise Bad(f"{key}: runs are expected to be handed over in the loop and at the end, found {len(inn)}/{len(fin)} calls", R.loc)
    inn, fin = inn[0], fin[0]
    if len(inn.loops) != 1:
        raise Bad(f"{key}: nested loops", R.loc)
    lp = [l for l in R.loops if l.id == inn.loops[0].id][0] if hasattr(inn.loops[0], "id") else inn.loops[0]
    Q, lo, hi = inn.data[0], inn.data[1], inn.data[2]
    st = Stepper(I, lp)
    forms = scev.closed(I, R.loops)
    c = forms[lp.id]
    if as_term(lo) is None:
        raise Bad(f"{key}: the run does not start at a remembered place: {V.show(lo)[:100]}", R.loc)
    n = I.seq_len(Q)
    fold = scev.Subst(I, c.form)
    i = fold(hi)
    ctx.eq(f"{key}/one-by-one", i, V.add(c.K, V.ONE), loc=R.loc)
    if c.trip is None:
        raise Bad(f"{key}: the loop has no closed number of rounds", R.loc)
    ctx.eq(f"{key}/all", c.trip, V.vmax(V.sub(n, V.ONE), V.ZERO), V.ge(n, V.ONE), R.loc)
    K0 = key_of(Q, lo)
    Ki = key_of(Q, i)
    m = {}
    for t in st.nx:
        if t in c.form or t == as_term(lo).id:
            continue
        v = V.pvar(V.node(t)) if V.node(t).ty and V.node(t).ty[0] == "int" else None
        if v is None:
            continue
        # the remembered key
        ok0 = compare.difference(st.start(v), st.start(K0)) is None
        ctx.true(f"{key}/key-start", ok0, f"the remembered key starts as {V.show(st.start(v))[:200]}", R.loc)
        m[t] = K0
    S = scev.Subst(I, m)
    fold2 = lambda x: S(fold(S(fold(x))))
    for t in m:
        v = V.pvar(V.node(t))
        ctx.eq(f"{key}/key-kept", fold2(st.next(v)), fold2(key_of(Q, st.next(lo))), V.lt(i, n), R.loc)
    ctx.eq(f"{key}/start", st.start(lo), V.ZERO, loc=R.loc)
    new = V.ne(Ki, K0)
    live = V.lt(i, n)
    inv = [(V.sub(V.sub(i, lo), V.ONE), "ge"), (lo, "ge")]
    ctx.eq(f"{key}/next-run", fold2(st.next(lo)), V.ite(new, i, lo), live, R.loc, axioms=inv)
    got = fold2(inn.pc)
    w = compare.implies(conj(live, new, V.gt(V.sub(i, lo), V.ONE)), got, inv)
    ctx.true(f"{key}/handed-over", w is None, f"a run is left out when {w}", R.loc)
    w = compare.implies(conj(got, live), new, inv)
    ctx.true(f"{key}/whole-run", w is None, f"a run is cut when {w}", R.loc)
    # the end: hi is the place after the last element
    Qf, lof, hif = fin.data[0], fin.data[1], fin.data[2]
    ctx.true(f"{key}/end-start", lof is lo, f"the last run starts at {V.show(lof)[:100]}", R.loc)
    at = scev.Subst(I, c.at(c.trip))
    ctx.eq(f"{key}/end-all", at(hif), n, V.ge(n, V.ONE), R.loc)
    w = compare.implies(V.gt(V.sub(n, lo), V.ONE), at(S(fin.pc)), [(V.sub(V.sub(n, lo), V.ONE), "ge"), (lo, "ge"), (V.sub(n, V.ONE), "ge")])
    ctx.true(f"{key}/end-handed-over", w is None, f"the last run is left out when {w}", R.loc)
    return lp, c, inn, fin, fold2, at, i


def marks_sorted(ctx):
    p = ctx.prog
    mt = ty_of(ctx, "LineMark")
    f = local(ctx, "sort_and_filter_marks")
    I = Interp(p)
    I.fresh_sorts = None
    cty = ("param", "C")
    sorts = []

    def on_sort(I, f, args, tys, dty, st, line):
        import models
        st = st.copy()
        k = models.cmp_key(I, st, args[2], mt, "sort_by")
        s = I.read(st, args[0])
        sorts.append((s, k))
        I.write(st, args[0], mk("app", ("sort", s, k, "sort_by", False), s.ty))
        return mk("struct", ("()",), ("tuple", ())), V.T, st

    def on_sub(I, f, args, tys, dty, st, line):
        q, lo, hi = sub_range(args[0], I, st)
        I.event("run", (q, lo, hi, deref_(I, st, args[1]) if args[1].k == "ref" else args[1]), line)
        return mk("struct", ("()",), ("tuple", ())), V.T, st
    I.hooks = {"smart_bin_sort_by": on_sort, "sort_sub_marks": on_sub}
    M = mk("v", ("marks",), ("slice", mt))
    S = mk("v", ("segments",), ("slice", ty_of(ctx, "Segment", cty)))
    R = call(ctx, f, [None, M, S], interp=I)
    ctx.true("order/sorted", len(sorts) == 1 and sorts[0][0] is M, "the marks are sorted once", R.loc)
    # by segment, then by point
    x, y = I.expand(I.var("#x", mt)), I.expand(I.var("#y", mt))
    fi, fp = field_ix(ctx, "LineMark", "index"), field_ix(ctx, "LineMark", "point")
    ks = lambda v: (I.field(v, fi), P2(I, I.field(v, fp)).x, P2(I, I.field(v, fp)).y)
    want = V.ZERO
    for a, b in reversed(list(zip(ks(x), ks(y)))):
        want = V.ite(V.lt(a, b), V.num(-1), V.ite(V.gt(a, b), V.ONE, want))
    k = sorts[0][1]
    if k.k != "enum":
        raise Bad(f"the order of the marks is not understood: {V.show(k)[:200]}", R.loc)
    got = V.sub(k.a[1], V.ONE)
    ctx.eq("order/by-segment-then-point", got, want, loc=R.loc)
    key_of = lambda q, i: I.field(I.seq_get(q, i), fi)
    lp, c, inn, fin, *_ = runs(ctx, "groups", I, R, "run", key_of)
    Q = inn.data[0]
    ctx.true("order/without-duplicates", Q.k == "app" and Q.a[0] == "dedup" and Q.a[1].k == "app" and Q.a[1].a[0] == "sort", f"grouped are {V.show(Q)[:150]}, expected the sorted marks without duplicates", R.loc)
    ctx.true("order/result", R.out[1] is Q, f"the marks become {V.show(R.out[1])[:150]}", R.loc)
    for e in (inn, fin):
        ctx.true("groups/segments", e.data[3] is S, "the edges handed over are others", R.loc)


def marks_in_group(ctx):
    """marks of one edge with equal x: ascending y, or descending where the edge goes down there"""
    p = ctx.prog
    mt = ty_of(ctx, "LineMark")
    f = local(ctx, "sort_sub_marks")
    I = Interp(p)
    cty = ("param", "C")

    def on_y(I, f, args, tys, dty, st, line):
        q, lo, hi = sub_range(args[2], I, st)
        I.event("column", (q, lo, hi, args[0], args[1]), line)
        return mk("struct", ("()",), ("tuple", ())), V.T, st
    I.hooks = {"sort_sub_marks_by_y": on_y}
    M = mk("v", ("marks",), ("slice", mt))
    S = mk("v", ("segments",), ("slice", ty_of(ctx, "Segment", cty)))
    R = call(ctx, f, [M, S], interp=I)
    fi, fp = field_ix(ctx, "LineMark", "index"), field_ix(ctx, "LineMark", "point")
    pt = lambda i: P2(I, I.field(I.seq_get(M, i), fp))
    lp, c, inn, fin, fold, at, i = runs(ctx, "columns", I, R, "column", lambda q, i: P2(I, I.field(I.seq_get(q, i), fp)).x)
    n = I.seq_len(M)
    s = get(ctx, I, I.seq_get(S, I.field(I.seq_get(M, V.ZERO), fi)), "Segment", "x_segment")
    a, b = P2(I, I.field(s, 0)), P2(I, I.field(s, 1))
    for nm, e, sub_ in (("columns/in", inn, fold), ("columns/end", fin, at)):
        q, lo, hi, y0, y1 = e.data
        ctx.true(f"{nm}/marks", q is M, "other marks", R.loc)
        pc = sub_(e.pc)
        hi = under(sub_(hi), V.ge(n, V.ONE), [])
        ax = [(lo, "ge"), (V.sub(V.sub(hi, lo), V.ONE), "ge"), (V.sub(n, hi), "ge")]
        ctx.eq(f"{nm}/from", sub_(y0), V.ite(V.eq(lo, V.ZERO), a.y, pt(V.sub(lo, V.ONE)).y), pc, R.loc, axioms=ax)
        ctx.eq(f"{nm}/to", sub_(y1), V.ite(V.eq(hi, n), b.y, pt(hi).y), pc, R.loc, axioms=ax)
    f = local(ctx, "sort_sub_marks_by_y")
    I = Interp(p)
    y0, y1 = ivar("y0"), ivar("y1")
    R = call(ctx, f, [y0, y1, M], interp=I)
    out = R.out[2]
    rev = V.F
    for cc, l in seqs.leaves(out):
        if l is M:
            continue
        ctx.true("columns/reversed", l.k == "app" and l.a[0] == "rev" and l.a[1] is M, f"the column becomes {V.show(l)[:150]}", R.loc)
        rev = V.b_or(rev, cc)
    w = compare.implies(V.gt(y0, y1), rev)
    ctx.true("columns/down", w is None, f"not reversed when {w}", R.loc)
    w = compare.implies(rev, V.ge(y0, y1))
    ctx.true("columns/up", w is None, f"reversed when {w}", R.loc)


def sorting_routine(ctx):
    """the sorting helper sorts all it is given by the order it is given"""
    p = ctx.prog
    f = [x for x in p.fns if x["m"] == "smart_bin_sort_by" and p.bodies.get(x["id"]) is not None]
    if len(f) != 1:
        raise Bad(f"expected one sorting helper, found {len(f)}")
    I = Interp(p)
    R = call(ctx, f[0], interp=I)
    evs = [e for e in R.events if e.kind in ("call", "sort")]
    all_ = V.F
    for e in evs:
        if e.kind == "call":
            ctx.true("sort/routine", str(e.data[0]).split("::")[-1].split(">")[-1] in ("sort_with_bins", "par_sort_unstable_by", "par_sort_by", "sort_unstable_by", "sort_by"), f"calls {e.data[0]}", R.loc)
            a = e.data[1]
            ctx.true("sort/self", a[0].k == "ref" and a[0].a[0] == R.roots[0] and not a[0].a[1], "sorts something else", R.loc)
            ctx.true("sort/order", a[1] is R.args[2], "another order is used", R.loc)
        else:
            ctx.true("sort/self", e.data[0].k == "ref" and e.data[0].a[0] == R.roots[0] and not e.data[0].a[1], "sorts something else", R.loc)
        all_ = V.b_or(all_, e.pc)
    w = compare.implies(V.T, all_)
    ctx.true("sort/always", w is None, f"not sorted when {w}", R.loc)


# ---------------------------------------------------------------- cutting an edge at its marks
class Piece:
    """the constructor of an edge, kept as a term over both ends and the count (C03 judges the constructor)"""

    def __init__(self, ctx, I, cty):
        self.I, self.ty = I, ty_of(ctx, "Segment", cty)
        I.hooks["create_and_validate"] = self.on

    def term(self, a, b, c):
        return mk("app", ("piece", self.I.expand(a), self.I.expand(b), c), self.ty)

    def on(self, I, f, args, tys, dty, st, line):
        return self.I.expand(self.term(*args)), V.T, st

    def of(self, v):
        """(from, to, count) of a constructed edge, else None"""
        x = v
        while x.k == "struct":
            x = x.a[1]
        if x.k == "p":
            x = scev.phi_term(x)
        while x is not None and x.k == "app" and x.a[0] == "f":
            x = x.a[1]
        if x is None or x.k != "app" or x.a[0] != "piece" or self.I.expand(x) is not self.I.expand(v):
            return None
        return x.a[1:4]


def cut_edges(ctx):
    p = ctx.prog
    f = local(ctx, "one_bin_merge")
    cty = ("param", "C")
    mt, sty = ty_of(ctx, "LineMark"), ty_of(ctx, "Segment", cty)
    I = Interp(p, hooks={})
    pc_ = Piece(ctx, I, cty)
    merged = []

    def on_merge(I, f, args, tys, dty, st, line):
        merged.append(I.read(st, args[0]))
        st = st.copy()
        I.write(st, args[0], mk("app", ("merged", I.read(st, args[0])), ("slice", sty)))
        return mk("struct", ("()",), ("tuple", ())), V.T, st
    I.hooks["merge_if_needed"] = on_merge
    M, S = mk("v", ("marks",), ("slice", mt)), mk("v", ("segments",), ("slice", sty))
    R = call(ctx, f, [M, S, None], interp=I)
    fi, fp = field_ix(ctx, "LineMark", "index"), field_ix(ctx, "LineMark", "point")
    n = I.seq_len(M)
    idx = lambda i: I.field(I.seq_get(M, i), fi)
    pt = lambda i: I.expand(I.field(I.seq_get(M, i), fp))
    top = [l for l in R.loops if l.parent is None]
    if len(top) != 1:
        raise Bad(f"expected one loop over the groups of marks, found {len(top)}", R.loc)
    lp = top[0]
    st = Stepper(I, lp)
    sk = [(k, ph, i) for k, (ph, i) in lp.phis.items() if I.is_seq(ph)]
    if len(sk) != 1:
        raise Bad("the loop over the groups does not change one sequence of edges", R.loc)
    Q, q0 = sk[0][1], sk[0][2]
    ctx.true("cut/of", q0 is S, "other edges are cut", R.loc)
    # the end: sorted, merged
    r = R.ret
    ok = r.k == "app" and r.a[0] == "merged" and r.a[1].k == "app" and r.a[1].a[0] == "sort" and r.a[1].a[1] is Q
    ctx.true("cut/result", ok, f"the result is {V.show(r)[:200]}, expected the merged, sorted pieces", R.loc)
    if ok:
        ctx.true("cut/order", edge_order(ctx, I, r.a[1].a[2], cty), "the pieces are not sorted by their ends", R.loc)
    # where a group starts, and where the next one does
    forms = scev.closed(I, R.loops)
    place = [(t, V.pvar(V.node(t))) for t in st.nx if V.node(t).ty and V.node(t).ty[0] == "int" and V.pconst(st.init[t]) == 0]
    place = [(t, v) for t, v in place if compare.implies(lp.cont, V.lt(v, n)) is None]
    if len(place) != 1:
        raise Bad("the start of a group is not recognised", R.loc)
    lo = place[0][1]
    ex = V.b_not(lp.cont)
    live = V.lt(lo, n)
    # the scan to the end of the group
    scan = None
    for l in R.loops:
        if l.parent is not lp:
            continue
        for key, (ph, init) in l.phis.items():
            if ph.k == "p" and compare.difference(init, V.add(lo, V.ONE)) is None and key in l.nexts and compare.difference(V.restrict(l.nexts[key], l.cont), V.add(ph, V.ONE), l.cont) is None:
                more = conj(V.lt(ph, n), V.eq(idx(ph), idx(lo)))
                if compare.difference(l.cont, more, V.lt(lo, ph), axioms=[(V.sub(V.sub(ph, lo), V.ONE), "ge")]) is None:
                    scan = (l, ph)
    if scan is None:
        raise Bad("the marks of one edge are not gathered up to the first mark of another edge", R.loc)
    hi = scan[1]
    ax = [(V.sub(V.sub(hi, lo), V.ONE), "ge"), (V.sub(n, hi), "ge"), (lo, "ge")]
    ctx.eq("cut/next-group", st.next(lo), hi, live, R.loc, axioms=ax)
    E = I.expand(I.seq_get(Q, idx(lo)))
    x = get(ctx, I, E, "Segment", "x_segment")
    a, b, cnt = I.expand(I.field(x, 0)), I.expand(I.field(x, 1)), get(ctx, I, E, "Segment", "count")
    nQ = st.next(Q)
    many = V.gt(V.sub(hi, lo), V.ONE)
    done = V.F
    for cc, l in seqs.leaves(nQ):
        cc = conj(cc, live)
        if compare.possible(cc, ax) is None:
            continue
        chain(ctx, I, R, forms, pc_, l, Q, cc, ax, lo, hi, idx, pt, a, b, cnt)
        done = V.b_or(done, cc)
    w = compare.implies(live, done, ax)
    ctx.true("cut/every-group", w is None, f"no pieces when {w}", R.loc)


def under(v, care, ax):
    """the only value possible there, else the value as it is"""
    ls = [l for c, l in seqs.leaves(v) if compare.possible(conj(c, care), ax) is not None]
    return ls[0] if len(ls) == 1 else v


def edge_order(ctx, I, key, cty):
    """a comparison of edges that separates different end points and brings equal edges together"""
    if key.k != "enum":
        return False
    sty = ty_of(ctx, "Segment", cty)
    x, y = I.expand(I.var("#x", sty)), I.expand(I.var("#y", sty))
    xs = lambda v: [I.field(I.field(get(ctx, I, v, "Segment", "x_segment"), a), b) for a in (0, 1) for b in (0, 1)]
    want = V.ZERO
    for p, q in reversed(list(zip(xs(x), xs(y)))):
        want = V.ite(V.lt(p, q), V.num(-1), V.ite(V.gt(p, q), V.ONE, want))
    return compare.difference(V.sub(key.a[1], V.ONE), want) is None


def chain(ctx, I, R, forms, pc_, l, Q, care, ax, lo, hi, idx, pt, a, b, cnt):
    """the edges after one group: the cut edge replaced by its first piece, the others added, in any order"""
    out = []
    fs = {}
    x = l
    while x is not Q:
        if x.k == "app" and x.a[0] == "push":
            out.append(("add", x.a[2], None))
            x = x.a[1]
            continue
        if x.k == "app" and x.a[0] == "store":
            out.append(("put", x.a[3], x.a[2]))
            x = x.a[1]
            continue
        hit = seqs.loop_of(I, forms, x)
        if hit is None:
            raise Bad(f"the edges become {V.show(x)[:200]}", R.loc)
        c, key, init = hit
        out.append(("loop", c, key, x))
        x = init
    out.reverse()
    puts = [o for o in out if o[0] == "put"]
    ctx.true("chain/replaces-the-edge", len(puts) == 1, f"the cut edge is replaced {len(puts)} times", R.loc)
    for o in puts:
        ctx.eq("chain/which", o[2], idx(lo), care, R.loc, axioms=ax)
    items, ended = [], {}
    for o in out:
        if o[0] != "loop":
            v = pc_.of(scev.Subst(I, ended)(o[1]))
            if v is None:
                ctx.true("chain/pieces", False, f"an edge {V.show(o[1])[:200]} is added that is no piece", R.loc)
                return
            items.append((v[0], v[1], v[2], None, None))
            continue
        c, key, ph = o[1], o[2], o[3]
        trip = None if c.trip is None else under(c.trip, care, ax)
        if trip is None or trip.k != "p":
            raise Bad("a loop over the marks of an edge has no closed number of rounds", R.loc)
        S = scev.Subst(I, c.form)
        nx = V.restrict(c.lp.nexts[key], c.lp.cont)
        inside = conj(care, V.lt(c.K, trip))
        ax2 = ax + [(c.K, "ge"), (V.sub(V.sub(trip, c.K), V.ONE), "ge")]
        got = [y for cc, y in seqs.leaves(nx) if compare.possible(conj(S(cc), inside), ax2) is not None]
        ps = seqs.pushes(got[0], ph) if len(got) == 1 else None
        if ps is None or len(ps) != 1 or pc_.of(ps[0]) is None:
            ctx.true("chain/pieces", False, f"a round adds {V.show(nx)[:200]}", R.loc)
            return
        u, v, w = pc_.of(S(ps[0]))
        items.append((u, v, w, c, trip))
        ended.update(c.at(trip))
    # follow the chain from the first end of the edge; k: marks passed
    pen, k = a, lo
    left = list(items)
    while left:
        pick_ = None
        for it in left:
            u = it[0] if it[3] is None else scev.Subst(I, {it[3].kterm.id: V.ZERO})(it[0])
            c2 = care if it[3] is None else conj(care, V.gt(it[4], V.ZERO))
            if compare.difference(u, pen, c2, axioms=ax) is None:
                pick_ = it
                break
        if pick_ is None:
            ctx.true("chain/connected", False, f"no piece starts at {V.show(pen)[:200]}", R.loc)
            return
        left.remove(pick_)
        u, v, w, c, trip = pick_
        if c is None:
            ctx.eq("chain/count", w, cnt, care, R.loc, axioms=ax)
            pen = v
            if left:
                ctx.eq("chain/mark", pen, pt(k), care, R.loc, axioms=ax)
                k = V.add(k, V.ONE)
            continue
        inside = conj(care, V.lt(c.K, trip))
        ax2 = ax + [(c.K, "ge"), (V.sub(V.sub(trip, c.K), V.ONE), "ge")]
        at = V.add(k, c.K)
        first = scev.Subst(I, {c.kterm.id: V.ZERO})
        for z, cz, az in ((first, conj(first(inside), V.gt(trip, V.ZERO)), ax), (lambda q: q, conj(inside, V.gt(c.K, V.ZERO)), ax2)):
            ctx.eq("chain/connected", z(u), z(pt(V.sub(at, V.ONE))), cz, R.loc, axioms=az)
            ctx.eq("chain/mark", z(v), z(pt(at)), cz, R.loc, axioms=az)
            ctx.eq("chain/count", z(w), z(cnt), cz, R.loc, axioms=az)
        k = V.add(k, trip)
        pen = pt(V.sub(k, V.ONE))
    ctx.eq("chain/end", pen, b, care, R.loc, axioms=ax)
    ctx.eq("chain/all-marks", k, hi, care, R.loc, axioms=ax)


# ---------------------------------------------------------------- cutting many edges: pieces go straight to their bin
class Binned:
    """`apply` beyond a handful of pieces: count the pieces of every bin, give every bin its part of the
    result, write every piece to the next free place of its bin, sort the bins"""

    def __init__(self, ctx):
        self.ctx = ctx
        p = ctx.prog
        f = local(ctx, "apply", "SplitSolver")
        self.cty = cty = ("param", "C")
        self.mt, self.sty = mt, sty = ty_of(ctx, "LineMark"), ty_of(ctx, "Segment", cty)
        self.I = I = Interp(p, hooks={})
        self.piece = Piece(ctx, I, cty)
        self.layouts = []
        UN = mk("struct", ("()",), ("tuple", ()))

        def prepared(I, f, args, tys, dty, st, line):
            self.prepared.append((I.read(st, args[1]), deref_(I, st, args[2])))
            return UN, V.T, st

        def small(I, f, args, tys, dty, st, line):
            return mk("app", ("onebin", deref_(I, st, args[0]), deref_(I, st, args[1])), ("slice", sty)), V.T, st

        def layout(I, f, args, tys, dty, st, line):
            lo, hi = I.field(args[0], 0), I.field(args[0], 1)
            self.layouts.append((lo, hi, I.pc))
            r = mk("v", (("layout", len(self.layouts)),), dty)
            self.none = V.eq(I.discr_of(r, dty), V.num(p.variants(dty[1]).index("None")))
            return r, V.T, st

        def index(I, f, args, tys, dty, st, line):
            return self.bin(args[1]), V.T, st

        def merged(I, f, args, tys, dty, st, line):
            st = st.copy()
            I.write(st, args[0], mk("app", ("merged", I.read(st, args[0])), ("slice", sty)))
            return UN, V.T, st
        self.prepared = []
        I.hooks.update({"sort_and_filter_marks": prepared, "one_bin_merge": small, "BinLayout::<T>::new": layout, "BinLayout::<T>::index": index, "BinLayout::new": layout, "BinLayout::index": index, "merge_if_needed": merged})
        self.M, self.S = mk("v", ("marks",), ("slice", mt)), mk("v", ("segments",), ("slice", sty))
        self.R = call(ctx, f, [None, self.M, self.S, None], interp=I)
        self.loc = self.R.loc
        fi, fp = field_ix(ctx, "LineMark", "index"), field_ix(ctx, "LineMark", "point")
        self.n, self.size = I.seq_len(self.M), I.seq_len(self.S)
        self.idx = lambda i: I.field(I.seq_get(self.M, i), fi)
        self.pt = lambda i: I.expand(I.field(I.seq_get(self.M, i), fp))
        self.comps = lambda i: [self.idx(i), P2(I, self.pt(i)).x, P2(I, self.pt(i)).y]
        self.forms = scev.closed(I, self.R.loops)

    def bin(self, x):
        return V.pvar(mk("app", ("bin", x), ("int", "usize")))

    def run(self):
        ctx, I, R = self.ctx, self.I, self.R
        ctx.true("binned/prepared", [x for x in self.prepared if x[0] is self.M and x[1] is self.S] == self.prepared and len(self.prepared) == 1, "the marks are not sorted first", self.loc)
        # the result
        small, sorted_ = V.F, []
        for cc, l in seqs.leaves(R.ret):
            if l.k == "app" and l.a[0] == "onebin":
                ctx.true("binned/small/marks", l.a[1] is self.M and l.a[2] is self.S, "other marks or edges are cut", self.loc)
                small = V.b_or(small, cc)
            elif l.k == "app" and l.a[0] == "merged":
                sorted_.append(l.a[1])
            else:
                ctx.true("binned/result", False, f"the result is {V.show(l)[:200]}, expected the merged pieces", self.loc)
        if not sorted_:
            return
        if len(set(x.id for x in sorted_)) != 1 or len(self.layouts) != 1:
            raise Bad(f"the pieces of many edges have no single origin ({len(set(sorted_))}, {len(self.layouts)})", self.loc)
        Q = self.bins_sorted(sorted_[0])
        placing, pk, b0 = self.placed(Q)
        counting, ck, c0 = self.offsets(b0)
        # the span of the bins
        lo, hi, pc = self.layouts[0]
        self.span(lo, hi, c0)
        self.rounds("place", placing, pk, Q)
        self.rounds("count", counting, ck, None)

    def loop_with(self, q, what):
        hit = seqs.loop_of(self.I, self.forms, q)
        if hit is None:
            raise Bad(f"{what}: {V.show(q)[:200]} is no result of a loop", self.loc)
        return hit

    def bins_sorted(self, q):
        """every bin's part of the result is sorted; gives the sequence before"""
        ctx, I = self.ctx, self.I
        c, key, init = self.loop_with(q, "sorted bins")
        lp = c.lp
        ev = [e for e in self.R.events if e.kind == "sort" and [x for x in e.loops if x.id == lp.id]]
        if len(ev) != 1:
            raise Bad(f"expected one sort per bin, found {len(ev)}", self.loc)
        r, order = ev[0].data[0], ev[0].data[1]
        ok = r.k == "ref" and len(r.a[1]) == 1 and r.a[1][0][0] == "sl"
        ctx.true("binned/sort/part", ok, f"sorts {V.show(r)[:200]}", self.loc)
        ctx.true("binned/sort/order", edge_order(ctx, I, order, self.cty), "the pieces of a bin are not sorted by their ends", self.loc)
        if not ok:
            return init
        a, b = r.a[1][0][1], r.a[1][0][2]
        t = (as_term(a), as_term(b))
        bins = None
        for x, nm in zip(t, ("offset", "data")):
            if x is not None and x.k == "app" and x.a[0] == "f" and x.a[1].k == "app" and x.a[1].a[0] == "sel":
                e = x.a[1]
                ctx.eq(f"binned/sort/{nm}", V.pvar(x), I.field(e, self.bf(e, nm)), loc=self.loc)
                bins = bins or e.a[1]
                ctx.true("binned/sort/bins", bins is e.a[1], "different bins", self.loc)
                S = scev.Subst(I, c.form)
                ctx.eq("binned/sort/which", S(e.a[2]), c.K, loc=self.loc)
            else:
                ctx.true(f"binned/sort/{nm}", False, f"the part of a bin is bounded by {V.show(a if nm == 'offset' else b)[:100]}", self.loc)
                return init
        self.bins = bins
        ctx.true("binned/sort/bounded", c.trip is not None and compare.difference(c.trip, I.seq_len(bins), axioms=[(I.seq_len(bins), "ge")]) is None, "not every bin is visited", self.loc)
        w = compare.implies(conj(V.lt(c.K, I.seq_len(bins)), V.gt(V.sub(b, a), V.ONE)), scev.Subst(I, c.form)(V.restrict(ev[0].pc, lp.cont)), [(c.K, "ge")])
        S = scev.Subst(I, c.form)
        w = compare.implies(conj(V.lt(c.K, I.seq_len(bins)), S(V.gt(V.sub(b, a), V.ONE))), S(ev[0].pc), [(c.K, "ge")])
        ctx.true("binned/sort/every", w is None, f"a bin stays unsorted when {w}", self.loc)
        return init

    def bf(self, e, name):
        if e.ty is None and e.k == "struct":
            return fields_of(self.ctx, "Bin")[1].index(name)
        for n, f in enumerate(fields_of(self.ctx, e.ty[1])[1]):
            if f == name:
                return n
        raise Bad(f"a bin without {name}", self.loc)

    def placed(self, Q):
        ctx, I = self.ctx, self.I
        c, key, init = self.loop_with(Q, "pieces")
        ctx.eq("binned/room", I.seq_len(init), V.add(self.n, self.size), loc=self.loc)
        hit = self.loop_with(self.bins, "bins")
        if hit[0] is not c:
            raise Bad("the bins and the pieces are filled by different loops", self.loc)
        return c, hit[1], hit[2]

    def offsets(self, b0):
        """places of the bins: one after another, as many as counted"""
        ctx, I = self.ctx, self.I
        c, key, init = self.loop_with(b0, "places of the bins")
        lp = c.lp
        ph = lp.phis[key][0]
        st = Stepper(I, lp)
        S = scev.Subst(I, c.form)
        size = I.seq_len(init)
        ctx.true("binned/offsets/every", c.trip is not None and compare.difference(c.trip, size, axioms=[(size, "ge")]) is None, "not every bin gets a place", self.loc)
        nx = S(V.restrict(lp.nexts[key], lp.cont))
        live = V.lt(c.K, size)
        ax = [(c.K, "ge")]
        B = I.seq_get(ph, c.K)
        o, d = self.bf(B, "offset"), self.bf(B, "data")
        run_ = [(t, V.pvar(V.node(t))) for t in st.nx if t not in c.form and V.node(t).ty and V.node(t).ty[0] == "int"]
        run_ = [(t, v) for t, v in run_ if V.pconst(st.init[t]) == 0 and compare.difference(S(st.next(v)), V.add(v, I.field(B, d)), live, axioms=ax) is None]
        if len(run_) != 1:
            ctx.true("binned/offsets/sum", False, "no running sum of the counted pieces", self.loc)
        else:
            v = run_[0][1]
            for cc, l in seqs.leaves(nx):
                if compare.possible(conj(cc, live), ax) is None:
                    continue
                e = I.seq_get(l, c.K) if l.k == "app" and l.a[0] == "store" and l.a[1] is ph else None
                ok = e is not None and compare.difference(l.a[2], c.K, conj(cc, live), axioms=ax) is None
                ctx.true("binned/offsets/own", ok, f"the bins become {V.show(l)[:200]}", self.loc)
                if ok:
                    E = l.a[3]
                    ctx.eq("binned/offsets/start", I.field(E, o), v, conj(cc, live), self.loc, axioms=ax)
                    ctx.eq("binned/offsets/next", I.field(E, d), v, conj(cc, live), self.loc, axioms=ax)
        c2, k2, i2 = self.loop_with(init, "counted bins")
        return c2, k2, i2

    def span(self, lo, hi, c0):
        """the bins reach from the first edge to the last end"""
        ctx, I = self.ctx, self.I
        x = lambda i, e: P2(I, I.field(get(ctx, I, I.seq_get(self.S, i), "Segment", "x_segment"), e)).x
        ctx.eq("binned/span/from", lo, x(V.ZERO, 0), loc=self.loc)
        ctx.eq("binned/span/bins", I.seq_len(c0), V.add(self.bin(hi), V.ONE), loc=self.loc)
        e0 = I.seq_get(c0, V.ZERO)
        if c0.k == "app" and c0.a[0] == "rep":
            ctx.eq("binned/span/empty", I.field(c0.a[1], self.bf(c0.a[1], "data")), V.ZERO, loc=self.loc)
        else:
            ctx.true("binned/span/empty", False, f"the bins start as {V.show(c0)[:200]}", self.loc)
        # maxima: a loop variable that is at least every visited value and what it was before
        seen, v = set(), hi
        while True:
            t = as_term(v)
            if t is None:
                break
            hit = [(l, k) for l in self.R.loops for k, (ph, i) in l.phis.items() if ph.k == "p" and as_term(ph) is t]
            if not hit:
                break
            l, k = hit[0]
            c = self.forms[l.id]
            S = scev.Subst(I, c.form)
            ph, init = l.phis[k]
            nx = S(V.restrict(l.nexts[k], l.cont))
            for nm, seq, val in (("marks", self.M, lambda i: P2(I, self.pt(i)).x), ("edges", self.S, lambda i: x(i, 1))):
                for start in (V.ZERO, V.ONE):
                    at = V.add(c.K, start)
                    live = V.lt(at, I.seq_len(seq))
                    ax = [(c.K, "ge")]
                    if compare.implies(live, V.ge(nx, val(at)), ax) is None and c.trip is not None and compare.difference(c.trip, V.vmax(V.sub(I.seq_len(seq), start), V.ZERO), axioms=[(I.seq_len(seq), "ge")]) is None:
                        if start is V.ONE:
                            self.first_seen = nm
                        seen.add((nm, V.pconst(start)))
            w = compare.implies(V.lt(c.K, c.trip) if c.trip is not None else V.T, V.ge(nx, ph), [(c.K, "ge")])
            ctx.true("binned/span/grows", w is None, f"the end of the bins falls back when {w}", self.loc)
            v = init
        ctx.true("binned/span/marks", ("marks", 0) in seen, "marks may lie beyond the bins", self.loc)
        ok = ("edges", 0) in seen or (("edges", 1) in seen and compare.difference(v, x(V.ZERO, 1)) is None)
        ctx.true("binned/span/edges", ok, "edges may end beyond the bins", self.loc)

    def ops(self, l, Q):
        out, x = [], l
        while x is not Q:
            if x.k == "app" and x.a[0] == "store":
                out.append(("put", x.a[2], x.a[3], x.a[1]))
                x = x.a[1]
                continue
            c, key, init = self.loop_with(x, "a round")
            out.append(("loop", c, key, x))
            x = init
        out.reverse()
        return out

    def rounds(self, key, c, bkey, Q):
        """one round over the edges: its marks come next, the pieces between them are all written (counted)"""
        ctx, I, n = self.ctx, self.I, self.n
        lp = c.lp
        st = Stepper(I, lp)
        key = "binned/" + key
        B = lp.phis[bkey][0]
        ctx.true(f"{key}/every-edge", c.trip is not None and compare.difference(c.trip, self.size, axioms=[(self.size, "ge")]) is None, "not every edge is visited", self.loc)
        ints = [(t, V.pvar(V.node(t))) for t in st.nx if V.node(t).ty and V.node(t).ty[0] == "int" and t not in c.form]
        first = self.comps(V.ZERO)
        js = [(t, v) for t, v in ints if V.pconst(st.init[t]) == 0]
        if len(js) != 1:
            raise Bad(f"{key}: the next mark is not recognised among {[V.show(v)[:60] for t, v in ints]}", self.loc)
        j = js[0][1]
        last = [ivar(f"past{k}", "i64" if k == 0 else "i32") for k in range(3)]
        state, remembered = dict(c.form), []
        for t, v in ints:
            if v is j:
                continue
            k = [k for k in range(3) if compare.difference(st.init[t], first[k]) is None]
            if len(k) != 1:
                raise Bad(f"{key}: a loop variable starts as {V.show(st.init[t])[:100]}", self.loc)
            k = k[0]
            state[t] = V.ite(V.lt(j, n), self.comps(j)[k], last[k])
            remembered.append((v, k))
        i = c.K
        live = V.lt(i, self.size)
        some = conj(V.lt(j, n), V.eq(self.idx(j), i))
        ax = [(j, "ge"), (V.sub(n, j), "ge"), (i, "ge"), (V.sub(V.sub(i, last[0]), V.ONE), "ge"), (V.sub(self.idx(j), i), "ge")]
        S1 = scev.Subst(I, state)
        # the loop over the marks of the edge
        inner = [l for l in self.R.loops if l.parent is lp]
        h, self.h = j, None
        M2 = dict(state)
        ax_some = list(ax)
        if len(inner) > 1:
            raise Bad(f"{key}: several loops over the marks of an edge", self.loc)
        for l in inner:
            s2 = Stepper(I, l)
            cand = [(t, V.pvar(V.node(t))) for t in s2.nx if V.node(t).ty and V.node(t).ty[0] == "int"]
            hh = [(t, v) for t, v in cand if compare.difference(s2.next(v), V.add(v, V.ONE)) is None and any(compare.difference(S1(s2.init[t]), q, live) is None for q in (j, V.add(j, V.ONE)))]
            if len(hh) != 1:
                raise Bad(f"{key}: the loop over the marks of an edge is not recognised", self.loc)
            h = hh[0][1]
            h0 = S1(s2.init[hh[0][0]])
            ax_some += [(V.sub(h, h0), "ge"), (V.sub(n, h), "ge"), (V.sub(self.idx(h), i), "ge")]
            prev = self.comps(V.sub(h, V.ONE))
            start = {}
            todo = []
            for t, v in cand:
                if t == hh[0][0]:
                    continue
                nx = s2.nx[t]
                k = [k for k in range(3) if compare.difference(nx, self.comps(h)[k], l.cont) is None]
                if len(k) != 1:
                    raise Bad(f"{key}: a variable of the loop over the marks becomes {V.show(nx)[:100]}", self.loc)
                if k[0] == 0:
                    # the marks passed belong to the edge
                    w = compare.difference(S1(s2.init[t]), i, conj(live, some), axioms=ax)
                    ctx.true(f"{key}/own-marks", w is None, f"the loop over the marks of an edge starts with {V.show(s2.init[t])[:100]}", self.loc)
                    M2[t] = i
                    continue
                M2[t] = V.ite(V.eq(h, h0), S1(s2.init[t]), prev[k[0]])
            self.h = hh[0][0], h
            T = scev.Subst(I, M2)
            more = conj(V.lt(h, n), V.eq(self.idx(h), i))
            ctx.eq(f"{key}/all-marks", T(l.cont), more, conj(live, some), self.loc, axioms=ax_some)
            self.h0 = h0
            M2ax = ax_some
        T_ = scev.Subst(I, M2)
        T = lambda v: T_(T_(v))
        # after the loop, the next mark belongs to another edge
        out_ = disj(V.eq(h, n), V.ne(self.idx(h), i)) if inner else V.T
        x = get(ctx, I, I.seq_get(self.S, i), "Segment", "x_segment")
        a, b = I.expand(I.field(x, 0)), I.expand(I.field(x, 1))
        cnt = get(ctx, I, I.seq_get(self.S, i), "Segment", "count")
        # the ends of an edge are ordered (C03)
        ordered = (V.sub(P2(I, b).x, P2(I, a).x), "ge")
        ax, ax_some = ax + [ordered], ax_some + [ordered]
        E = lambda t: self.pick_pt(V.eq(t, j), a, self.pt(V.sub(t, V.ONE)))
        # a loop that starts at the next mark passes none that belongs to another edge
        idle = V.eq(h, self.h0) if inner and compare.difference(self.h0, j) is None else V.T
        for nm, care, axs, end in (("whole", conj(live, V.b_not(some), idle), ax, j), ("cut", conj(live, some, out_), ax_some, h)):
            # the next edge finds its marks
            ctx.eq(f"{key}/{nm}/next-mark", T(st.next(j)), end, care, self.loc, axioms=axs)
            for v, k in remembered:
                nx = T(st.next(v))
                ctx.eq(f"{key}/{nm}/remembered", nx, self.comps(end)[k], conj(care, V.lt(end, n)), self.loc, axioms=axs)
                if k == 0:
                    w = compare.implies(conj(care, V.eq(end, n)), V.le(nx, i), axs)
                    ctx.true(f"{key}/{nm}/exhausted", w is None, f"past marks look like marks of a later edge when {w}", self.loc)
            # the pieces
            bl = [(T(cc), l) for cc, l in seqs.leaves(st.next(B))]
            bl = [(cc, l) for cc, l in bl if compare.possible(conj(cc, care), axs) is not None]
            if Q is None:
                pairs = [(cc, l, None) for cc, l in bl]
            else:
                pairs = []
                for c1, q in seqs.leaves(st.next(Q)):
                    c1 = T(c1)
                    pairs += [(conj(c1, cc), l, q) for cc, l in bl if compare.possible(conj(c1, cc, care), axs) is not None]
            done = V.F
            for cc, l, q in pairs:
                self.pieces(f"{key}/{nm}", T, conj(cc, care), axs, B, Q, l, q, j, end, a, b, cnt, E, i)
                done = V.b_or(done, cc)
            w = compare.implies(care, done, axs)
            ctx.true(f"{key}/{nm}/always", w is None, f"nothing happens when {w}", self.loc)

    def pick_pt(self, c, p, q):
        I = self.I
        p, q = I.expand(p), I.expand(q)
        return p if c is V.T else q if c is V.F else I.expand(mk("struct", p.a[:1] + tuple(V.ite(c, x, y) for x, y in zip(p.a[1:], q.a[1:])), p.ty))

    def eq(self, key, x, y, care, ax):
        """also where the loop over the marks of an edge has not moved yet"""
        if self.h is None:
            self.ctx.eq(key, x, y, care, self.loc, axioms=ax)
            return
        t, h = self.h
        S = scev.Subst(self.I, {t: self.h0})
        self.ctx.eq(key, x, y, conj(care, V.ne(h, self.h0)), self.loc, axioms=ax)
        self.ctx.eq(key, S(x), S(y), conj(S(care), S(V.eq(h, self.h0))), self.loc, axioms=[(S(a), r) for a, r in ax if S(a).k == "p" and V.pconst(S(a)) is None])

    def pieces(self, key, T, care, ax, B, Q, bl, ql, j, end, a, b, cnt, E, i):
        ctx, I = self.ctx, self.I
        bo = self.ops(bl, B)
        qo = self.ops(ql, Q) if Q is not None else [None] * len(bo)
        if len(bo) != len(qo) or any(q is not None and x[0] != q[0] for x, q in zip(bo, qo)):
            ctx.true(f"{key}/places", False, "a piece is written without taking its place in the bin, or the other way round", self.loc)
            return
        at, closed_ = j, False
        for x, q in zip(bo, qo):
            if x[0] == "loop":
                self.eq(f"{key}/loop-start", self.h0, at, care, ax)
                lp = x[1].lp
                ph, qph = lp.phis[x[2]][0], (lp.phis[q[2]][0] if q is not None else None)
                if key.endswith("/whole"):
                    at = end
                    continue
                inside = conj(V.lt(end, self.n), V.eq(self.idx(end), i))
                axs = [z for z in ax]
                lb = [(T(cc), l) for cc, l in seqs.leaves(V.restrict(lp.nexts[x[2]], lp.cont))]
                lq = [(T(cc), l) for cc, l in seqs.leaves(V.restrict(lp.nexts[q[2]], lp.cont))] if q is not None else [(V.T, None)]
                for c1, l1 in lb:
                    for c2, l2 in lq:
                        cc = conj(c1, c2, inside, V.lt(i, self.size), V.lt(j, self.n), V.eq(self.idx(j), i))
                        if compare.possible(cc, axs) is None:
                            continue
                        o1 = self.ops(l1, ph)
                        o2 = self.ops(l2, qph) if l2 is not None else [None]
                        if len(o1) != 1 or len(o2) != 1:
                            ctx.true(f"{key}/per-mark", False, f"{len(o1)} pieces per mark", self.loc)
                            continue
                        self.one(f"{key}/between", T, cc, axs, o1[0], o2[0], E(end), self.pt(end), cnt)
                at = end
                continue
            # a single piece: to the next mark, or from the last one to the end
            if closed_:
                ctx.true(f"{key}/extra", False, "more pieces than marks", self.loc)
                continue
            rest = conj(care, V.lt(at, end))
            is_last = compare.possible(rest, ax) is None
            if not is_last and compare.possible(conj(care, V.ge(at, end)), ax) is not None:
                ctx.true(f"{key}/marks", False, "a piece is written whether or not a mark is left", self.loc)
                return
            self.one(f"{key}/last" if is_last else f"{key}/first", T, care, ax, x, q, E(at), b if is_last else self.pt(at), cnt, i if is_last else None)
            if is_last:
                closed_ = True
            else:
                at = V.add(at, V.ONE)
        ctx.true(f"{key}/closed", closed_, "the last piece is missing", self.loc)
        self.eq(f"{key}/passed", at, end, care, ax)

    def one(self, key, T, care, ax, x, q, u, v, cnt, whole=None):
        """piece u-v: one place more in the bin of its smaller x"""
        ctx, I = self.ctx, self.I
        k, before = x[1], x[3]
        e = I.seq_get(before, k)
        d, o = self.bf(e, "data"), self.bf(e, "offset")
        self.eq(f"{key}/one-more", T(I.field(x[2], d)), T(V.add(I.field(e, d), V.ONE)), care, ax)
        self.eq(f"{key}/keeps-offset", T(I.field(x[2], o)), T(I.field(e, o)), care, ax)
        ux, vx = P2(I, u).x, P2(I, v).x
        if q is None:
            k = T(k)
            for nm, c, want in (("left", V.lt(ux, vx), ux), ("right", V.gt(ux, vx), vx), ("upright", V.eq(ux, vx), ux)):
                for c3, k3 in seqs.leaves(k):
                    cc = conj(care, c, c3)
                    if compare.possible(cc, ax) is None:
                        continue
                    t = as_term(k3)
                    ok = t is not None and t.k == "app" and t.a[0] == "bin"
                    ctx.true(f"{key}/bin/known", ok, f"counted in bin {V.show(k3)[:150]}", self.loc)
                    if ok:
                        self.eq(f"{key}/bin/{nm}", T(t.a[1]), want, cc, ax)
            return
        E_ = T(q[2])
        self.eq(f"{key}/place", T(q[1]), T(I.field(e, d)), care, ax)
        g = I.field(I.field(get(ctx, I, q[2], "Segment", "x_segment"), 0), 0)
        self.eq(f"{key}/bin", T(k), T(self.bin(g)), care, ax)
        got = self.piece.of(E_)
        if got is None:
            ok = whole is not None and compare.difference(I.expand(E_), I.expand(I.seq_get(self.S, whole)), care, axioms=ax) is None
            ctx.true(f"{key}/piece", ok, f"{V.show(E_)[:200]} is written", self.loc)
            return
        self.eq(f"{key}/from", got[0], u, care, ax)
        self.eq(f"{key}/to", got[1], v, care, ax)
        self.eq(f"{key}/count", got[2], cnt, care, ax)


def binned(ctx):
    Binned(ctx).run()
