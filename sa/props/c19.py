"""The graph joins every link at both of its ends.

Obligations over one round of the merge of the two sorted lists (links by first end, ends by second end), from
any state that satisfies the loop invariant: the round takes exactly the links whose first end and exactly
those whose second end is the least point not done yet, writes the number of the new node at that end of each
of them and nothing else, and builds the node from exactly their numbers.  The invariant is shown to hold at
the start and after every round.  Used: links come sorted by first end (C05, C16), first end before second (C03)."""
from .lib import *
from .c05 import Stepper
from .c15 import order3
import models
import scev
import seqs

def seq_at(I, st, v):
    while v.k == "ref":
        v = I.read(st, v)
    return v


UNIT = mk("struct", ("()",), ("tuple", ()))


def run(ctx):
    for nm, fn in (("join", join), ("whole", whole)):
        with ctx.case(nm):
            fn(ctx)
    ctx.floor(30)


def whole(ctx):
    """the graph keeps the links the nodes refer to"""
    p = ctx.prog
    I = Interp(p)
    lty = ty_of(ctx, "OverlayLink")
    L = mk("v", ("links",), ("slice", lty))
    seen = []

    def build(I, f, args, tys, dty, st, line):
        st = st.copy()
        s = seq_at(I, st, args[1])
        seen.append(s)
        r = args[1]
        I.write(st, r, mk("app", ("joined", s), s.ty))
        return mk("app", ("nodes", s), ("slice", ty_of(ctx, "OverlayNode"))), V.T, st
    I.hooks["build_nodes_and_connect_links"] = build
    R = call(ctx, p.method("OverlayGraph", "new"), [None, L], interp=I)
    ctx.true("whole/built-once", len(seen) == 1 and seen[0] is L, f"{len(seen)} times", R.loc)
    ok = R.ret.k == "struct"
    ctx.true("whole/graph", ok, V.show(R.ret)[:200], R.loc)
    l, n = get(ctx, I, R.ret, "OverlayGraph", "links"), get(ctx, I, R.ret, "OverlayGraph", "nodes")
    ctx.true("whole/links", l.k == "app" and l.a[0] == "joined" and l.a[1] is L, f"the links kept are {V.show(l)[:200]}", R.loc)
    ctx.true("whole/nodes", n.k == "app" and n.a[0] == "nodes" and n.a[1] is L, f"the nodes kept are {V.show(n)[:200]}", R.loc)


class Points:
    """first and second end of link i, second-end list entry j; whatever ids have been written"""

    def __init__(self, ctx, I, links, ends):
        self.ctx, self.I, self.links, self.ends = ctx, I, links, ends

    def of(self, i, side):
        I = self.I
        return P2(I, I.expand(get(self.ctx, I, get(self.ctx, I, I.seq_get(self.links, i), "OverlayLink", side), "IdPoint", "point")))

    def a(self, i):
        return self.of(i, "a")

    def e(self, j):
        I = self.I
        return P2(I, I.expand(get(self.ctx, I, I.seq_get(self.ends, j), "End", "point")))

    def ix(self, j):
        return get(self.ctx, self.I, self.I.seq_get(self.ends, j), "End", "index")


def same(p, q):
    return conj(V.eq(p.x, q.x), V.eq(p.y, q.y))


def before(p, q):
    return disj(V.lt(p.x, q.x), conj(V.eq(p.x, q.x), V.lt(p.y, q.y)))


def join(ctx):
    p = ctx.prog
    I = Interp(p, hooks={})
    f = p.method("OverlayGraph", "build_nodes_and_connect_links")
    lty, ety = ty_of(ctx, "OverlayLink"), ty_of(ctx, "End")
    L = mk("v", ("links",), ("slice", lty))

    def on_sort(I, f, args, tys, dty, st, line):
        st = st.copy()
        s = I.read(st, args[0])
        k = models.cmp_key(I, st, args[-1], ety, "sort_by")
        I.event("sorted", (s, k), line)
        I.write(st, args[0], mk("app", ("ordered", s), s.ty))
        return UNIT, V.T, st

    def node(I, f, args, tys, dty, st, line):
        return mk("app", ("node", seq_at(I, st, args[0])), dty), V.T, st
    for nm in ("smart_bin_sort_by", "sort_by", "sort_unstable_by"):
        I.hooks[nm] = on_sort
    I.hooks["OverlayNode::new"] = node
    R = call(ctx, f, [None, L], interp=I)
    loc = R.loc
    n = I.seq_len(L)
    forms = scev.closed(I, R.loops)
    # second ends
    ev = [e for e in R.events if e.kind == "sorted"]
    if len(ev) != 1:
        raise Bad(f"the second ends are ordered {len(ev)} times", loc)
    es, key = ev[0].data
    B = seqs.built(I, forms, es)
    some = V.gt(n, V.ZERO)
    ctx.eq("ends/count", B.trip, n, some, loc)
    ctx.eq("ends/fresh", I.seq_len(B.base), V.ZERO, some, loc)
    ctx.true("ends/one-each", len(B.items) == 1, f"{len(B.items)} entries per link", loc)
    raw = Points(ctx, I, L, es)
    for c, x in B.items:
        live = conj(V.lt(B.K, n))
        w = compare.implies(live, c, [(B.K, "ge")])
        ctx.true("ends/always", w is None, f"a link has no entry when {w}", loc)
        x = I.expand(x)
        q = P2(I, get(ctx, I, x, "End", "point"))
        ctx.eq("ends/index", get(ctx, I, x, "End", "index"), B.K, c, loc)
        b = raw.of(B.K, "b")
        ctx.eq("ends/x", q.x, b.x, c, loc)
        ctx.eq("ends/y", q.y, b.y, c, loc)
    x, y = I.expand(I.var("#x", ety)), I.expand(I.var("#y", ety))
    px, py = (P2(I, get(ctx, I, v, "End", "point")) for v in (x, y))
    ctx.eq("ends/order", key, V.ite(V.eq(px.x, py.x), order3(I, V.sub(py.y, px.y)), order3(I, V.sub(py.x, px.x))), loc=loc)
    E = mk("app", ("ordered", es), es.ty)
    # the merge
    top = [l for l in R.loops if l.parent is None]
    tops = [l for l in top if any(c.parent is l for c in R.loops)]
    if len(tops) != 1:
        raise Bad(f"expected one merge of the two lists, found {len(tops)} loops", loc)
    W = tops[0]
    inner = [l for l in R.loops if l.parent is W]
    links = [(k, ph, i) for k, (ph, i) in W.phis.items() if I.is_seq(ph) and ph.ty[-1] == lty]
    if len(links) != 1 or links[0][2] is not L:
        raise Bad("the links are not joined in place", loc)
    lkey, LW, _ = links[0]
    # every version of the links has the same points: reads of them go to the original (shown below: stores keep them)
    versions = {LW.id: L}
    for l in inner:
        for k, (ph, i) in l.phis.items():
            if I.is_seq(ph) and ph.ty[-1] == lty:
                versions[ph.id] = L
    ver = scev.Subst(I, versions)
    pts = Points(ctx, I, L, E)
    nodes = [(k, ph, i) for k, (ph, i) in W.phis.items() if I.is_seq(ph) and ph.ty[-1] == ty_of(ctx, "OverlayNode")]
    if len(nodes) != 1:
        raise Bad("the nodes are not collected in one list", loc)
    nkey, N, n0 = nodes[0]
    nid = I.seq_len(N)
    ctx.eq("nodes/fresh", I.seq_len(n0), V.ZERO, some, loc)
    for c, l in seqs.leaves(R.ret):
        if compare.possible(conj(c, some)) is not None:
            ctx.true("nodes/returned", l is N, f"the result is {V.show(l)[:150]}", loc)
        if compare.possible(conj(c, V.eq(n, V.ZERO))) is not None:
            ctx.eq("nodes/none", I.seq_len(l), V.ZERO, conj(c, V.eq(n, V.ZERO)), loc)
    # the two writing loops
    writers = {}
    for l in inner:
        for k, (ph, i) in l.phis.items():
            if not I.is_seq(ph) or ph.ty[-1] != lty or k not in l.nexts:
                continue
            for c, x in seqs.leaves(V.restrict(l.nexts[k], l.cont)):
                if compare.possible(conj(c, l.cont)) is None:
                    continue
                if x.k != "app" or x.a[0] != "store" or x.a[1] is not ph:
                    raise Bad(f"a round makes the links {V.show(x)[:200]}", loc)
                S = scev.Subst(I, forms[l.id].form)
                at, v = S(x.a[2]), I.expand(x.a[3])
                old = I.expand(I.seq_get(ph, x.a[2]))
                g = lambda v, s, t: get(ctx, I, get(ctx, I, v, "OverlayLink", s), "IdPoint", t)
                side = [s for s in "ab" if g(v, s, "id") is not g(old, s, "id")]
                if len(side) != 1 or side[0] in writers:
                    raise Bad(f"the node numbers written are those of sides {side}", loc)
                s, = side
                o = "b" if s == "a" else "a"
                writers[s] = (l, at)
                ctx.eq(f"write/{s}/node", g(v, s, "id"), nid, l.cont, loc)
                for s2 in "ab":
                    u, w = P2(I, g(v, s2, "point")), P2(I, g(old, s2, "point"))
                    ctx.eq(f"write/{s}/keeps-{s2}.x", u.x, w.x, l.cont, loc)
                    ctx.eq(f"write/{s}/keeps-{s2}.y", u.y, w.y, l.cont, loc)
                ctx.eq(f"write/{s}/keeps-fill", get(ctx, I, v, "OverlayLink", "fill"), get(ctx, I, old, "OverlayLink", "fill"), l.cont, loc)
    if set(writers) != {"a", "b"}:
        raise Bad(f"node numbers are written at sides {sorted(writers)} only", loc)
    # which links: the a side runs over links from a position of W, the b side over entries of the sorted list
    pos, cnt, cand = {}, {}, {}
    for s, (l, at) in writers.items():
        c = forms[l.id]
        if c.trip is None:
            raise Bad(f"the links joined by their {'first' if s == 'a' else 'second'} end cannot be counted", loc)
        trip = ver(c.trip)
        for t in W.phis.values():
            tt = scev.phi_term(t[0])
            if tt is None or V.pconst(t[1]) != 0:
                continue
            here = V.add(t[0], c.K)
            want = here if s == "a" else pts.ix(here)
            if compare.difference(ver(at), want) is None:
                pos[s] = t[0]
        if s not in pos:
            raise Bad(f"the links joined by their {'first' if s == 'a' else 'second'} end are not consecutive ones of their list: {V.show(at)[:200]}", loc)
        cnt[s] = trip
        ls = {x.id: x for _, x in seqs.leaves(trip) if V.pconst(x) != 0}
        if len(ls) == 2 and s in pos:       # at most what is left: the invariants below make it the number itself
            ls = {k: x for k, x in ls.items() if scev.phi_term(x) is not None or compare.difference(x, V.sub(n, pos[s]), axioms=[(V.sub(I.seq_len(es), n), "eq")]) is not None}
        if len(ls) != 1 or scev.phi_term(list(ls.values())[0]) is None:
            raise Bad(f"the number of links joined by one side is {V.show(trip)[:200]}", loc)
        cand[s], = ls.values()
    A, Bp, NA, NB = pos["a"], pos["b"], cand["a"], cand["b"]
    roles = {scev.phi_term(v).id for v in (A, Bp, NA, NB)}
    # the points remembered for the two positions
    rest = [(k, ph, i) for k, (ph, i) in W.phis.items() if ph.k == "p" and scev.phi_term(ph) is not None and scev.phi_term(ph).id not in roles]
    st = Stepper(I, W)
    done = {}
    for s in "ab":
        done.update(forms[writers[s][0].id].at(cnt[s]))
    fin = lambda v: ver(scev.Subst(I, done)(ver(scev.Subst(I, done)(v))))
    size = [(V.sub(I.seq_len(es), n), "eq")]
    base = size + [(NA, "ge"), (NB, "ge"), (A, "ge"), (Bp, "ge"), (V.sub(n, V.add(A, NA)), "ge"), (V.sub(n, V.add(Bp, NB)), "ge")]
    more = disj(V.gt(NA, V.ZERO), V.gt(NB, V.ZERO))
    left = V.b_or(V.eq(NA, V.ZERO), V.gt(NB, V.ZERO))          # a link that waits by its first end waits by its second too
    live = conj(more, left)
    # remembered points
    memo = {}
    for s, q, num, pt in (("a", A, NA, pts.a), ("b", Bp, NB, pts.e)):
        for ax in ("x", "y"):
            for k, ph, i in rest:
                if k in W.nexts and compare.difference(i, getattr(pt(V.ZERO), ax), some) is None:
                    memo[scev.phi_term(ph).id] = (s, ax, k, ph)
    known = scev.Subst(I, {t: getattr((pts.a if s == "a" else pts.e)(A if s == "a" else Bp), ax) for t, (s, ax, k, ph) in memo.items()})
    pa, pb = pts.a(A), pts.e(Bp)
    take = {
        "a": V.ite(conj(V.gt(NA, V.ZERO), disj(V.eq(NB, V.ZERO), before(pa, pb), same(pa, pb))), NA, V.ZERO),
        "b": V.ite(conj(V.gt(NB, V.ZERO), disj(V.eq(NA, V.ZERO), before(pb, pa), same(pa, pb))), NB, V.ZERO),
    }
    both = conj(V.gt(NA, V.ZERO), V.gt(NB, V.ZERO))
    for s in "ab":
        nm = "first" if s == "a" else "second"
        ctx.eq(f"take/{nm}/both-left", known(cnt[s]), take[s], conj(live, both), loc, axioms=base)
        ctx.eq(f"take/{nm}/one-left", cnt[s], take[s], conj(live, V.b_not(both)), loc, axioms=base)
    ends_ = disj(*[pc for _, pc, _ in W.exits])
    w = compare.implies(ends_, V.b_not(more), base)
    ctx.true("merge/until-done", w is None, f"the merge stops when {w}", loc)
    # the node
    ps = []
    for c, l in seqs.leaves(V.restrict(W.nexts[nkey], W.cont)):
        if compare.possible(conj(c, W.cont)) is None:
            continue
        x = seqs.pushes(l, N)
        ctx.true("node/one", x is not None and len(x) == 1, f"a round makes the nodes {V.show(l)[:200]}", loc)
        ps += [(c, y) for y in x or []]
    for c, y in ps:
        if y.k != "app" or y.a[0] != "node":
            raise Bad(f"the node is {V.show(y)[:200]}", loc)
        listed(ctx, I, forms, writers, pts, ver, y.a[1], conj(c, W.cont, left), A, Bp, cnt, base, loc)
    # the invariant
    care = conj(W.cont, live)
    after = {}
    for s, q, num in (("a", A, NA), ("b", Bp, NB)):
        nm = "first" if s == "a" else "second"
        q2, num2 = fin(st.next(q, W.cont)), fin(st.next(num, W.cont))
        q1 = V.add(q, cnt[s])
        cc = fin(care)
        ctx.eq(f"next/{nm}/position", q2, q1, cc, loc, axioms=base)
        counted(ctx, f"next/{nm}/count", num2, num, q1, cnt[s], R, forms, fin, pts.a if s == "a" else pts.e, cc, n, base, loc)
        for t, (s2, ax, k, ph) in memo.items():
            if s2 != s:
                continue
            v = fin(V.restrict(W.nexts[k], W.cont))
            want = V.ite(V.gt(cnt[s], V.ZERO), getattr((pts.a if s == "a" else pts.e)(q1), ax), ph)
            ctx.eq(f"next/{nm}/point.{ax}", v, want, conj(cc, V.lt(q1, n)), loc, axioms=base)
        i0 = [i for k, (ph, i) in W.phis.items() if ph is num][0]
        counted(ctx, f"start/{nm}/count", i0, V.ZERO, V.ZERO, V.ONE, R, forms, ver, pts.a if s == "a" else pts.e, some, n, size, loc)


def cond_free(c, fc):
    """a condition without what it says about the variables of one loop"""
    ids = {scev.phi_term(ph).id for ph, _ in fc.lp.phis.values() if scev.phi_term(ph) is not None}
    def go(n):
        if n.k != "ite":
            return n
        key = n.a[0].key
        if key[0] in ("sgn", "b", "d") and scev.mentions(V.node(key[1]), ids):
            r = V.F
            for x in n.a[1:]:
                r = V.b_or(r, go(x))
            return r
        return V.ite_node(n.a[0], [go(x) for x in n.a[1:]])
    return go(c)


def counted(ctx, key, got, old, pos, taken, R, forms, fin, pt, care, n, base, loc):
    """got is the length of the run of equal points at pos where something was taken and entries are left, 0 at the end, else unchanged"""
    ctx.eq(key + "/kept", got, old, conj(care, V.le(taken, V.ZERO)), loc, axioms=base)
    ctx.eq(key + "/none-left", got, V.ZERO, conj(care, V.gt(taken, V.ZERO), V.ge(pos, n)), loc, axioms=base)
    cc = conj(care, V.gt(taken, V.ZERO), V.lt(pos, n))
    for c, leaf, pos in [(conj(c, c2), x, q) for c, x in seqs.leaves(V.restrict(got, cc)) for c2, q in seqs.leaves(V.restrict(pos, cc))]:
        if compare.possible(conj(c, cc), base) is None:
            continue
        why = "it is " + V.show(leaf)[:200]
        for l in R.loops:
            fc = forms[l.id]
            if not any(scev.phi_term(ph) is not None and scev.mentions(leaf, {scev.phi_term(ph).id}) for ph, _ in l.phis.values()):
                continue
            S = lambda v: fin(scev.Subst(fc.I, fc.form)(v))
            curs = {x.id: x for c3, x in seqs.leaves(V.restrict(S(leaf), conj(c, cc))) if compare.possible(conj(c, cc, c3), base) is not None}
            if len(curs) != 1:
                continue
            cur, = curs.values()
            k0 = scev.Subst(fc.I, {fc.kterm.id: V.ZERO})
            k1 = scev.Subst(fc.I, {fc.kterm.id: V.add(fc.K, V.ONE)})
            here = conj(c, cc)
            if compare.difference(k1(cur), V.add(cur, V.ONE), axioms=base) is not None:
                continue
            first = [z for z in (V.ONE, V.ZERO) if compare.difference(k0(cur), z, cond_free(here, fc), axioms=base) is None]
            i = V.add(pos, cur)
            ax = base + [(cur, "ge"), (fc.K, "ge")]
            want = conj(V.lt(i, n), same(pt(i), pt(pos)))
            here = cond_free(here, fc)
            d = compare.difference(S(l.cont), want, conj(here, V.gt(cur, V.ZERO)), axioms=ax)
            why = None if first and d is None else f"the count goes on otherwise: {d}"
            if first and first[0] is V.ZERO and why is None:
                why = None if compare.implies(conj(here, V.eq(cur, V.ZERO)), S(l.cont), ax) is None else "the first one is not counted"
            break
        ctx.true(key + "/run", why is None, f"not the number of entries with the same point: {why}", loc)


def listed(ctx, I, forms, writers, pts, ver, seq, care, A, Bp, cnt, base, loc):
    """the numbers a node is built from: those of the links taken by the first end, then those taken by the second"""
    by = {}
    for s, (l, at) in writers.items():
        for k, (ph, i) in l.phis.items():
            if I.is_seq(ph) and ph.ty[-1] == ("int", "usize"):
                if s in by:
                    raise Bad("two lists of numbers", loc)
                by[s] = (l, k, ph, i)
    if set(by) != {"a", "b"}:
        raise Bad(f"the numbers of the links are listed for sides {sorted(by)}", loc)
    for s, (l, k, ph, i) in by.items():
        c = forms[l.id]
        S = scev.Subst(I, c.form)
        for cc, x in seqs.leaves(V.restrict(l.nexts[k], l.cont)):
            if compare.possible(conj(cc, l.cont)) is None:
                continue
            q = seqs.pushes(x, ph)
            ctx.true(f"node/{s}/one-number", q is not None and len(q) == 1, f"the list becomes {V.show(x)[:200]}", loc)
            for y in q or []:
                want = V.add(A, c.K) if s == "a" else pts.ix(V.add(Bp, c.K))
                ctx.eq(f"node/{s}/number", ver(S(y)), want, loc=loc)
    # nothing, then the one loop's, then the other's
    (l1, k1, p1, i1), (l2, k2, p2, i2) = sorted(by.values(), key=lambda t: t[0].id)
    c1 = cnt["a" if by["a"][0] is l1 else "b"]
    c2 = cnt["a" if by["a"][0] is l2 else "b"]
    took = lambda c: V.gt(c, V.ZERO)

    def source(v, care, wants, key):
        for c, x in seqs.leaves(v):
            c = conj(c, care)
            if compare.possible(c, base) is None:
                continue
            ok = False
            for cond, w in wants:
                if compare.implies(c, cond, base) is None:
                    ok = x is w if w is not None else compare.difference(I.seq_len(x), V.ZERO, c, axioms=base) is None
                    if ok:
                        break
            ctx.true(key, ok, f"the list is {V.show(x)[:150]} when {compare.possible(c, base)}", loc)
    T_ = V.T
    source(i1, conj(care, took(c1)), [(T_, None)], "node/list/starts-empty")
    source(i2, conj(care, took(c2)), [(took(c1), p1), (V.b_not(took(c1)), None), (V.b_not(took(c1)), p1)], "node/list/goes-on")
    source(seq, care, [(took(c2), p2), (conj(V.b_not(took(c2)), took(c1)), p1), (V.b_not(took(c2)), p2)], "node/list/used")
