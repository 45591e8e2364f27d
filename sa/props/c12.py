"""Float sources.  For every type that can be used as a source, the iterator's start state and its step are
interpreted on an arbitrary source of any size.  The step is compared with the step of an ideal cursor
(position k, or group i and position j inside it): what it yields, which state it leaves, and that after
the end it stays at the end.  A search loop inside the step is compared through its recurrence.  By
induction over the number of calls this gives the complete ordered enumeration for every source."""
from .lib import *
import itertools


def run(ctx):
    p = ctx.prog
    starts = [f for f in p.fns if f["m"] == "iter_paths" and p.bodies.get(f["id"]) is not None and f["self"] is not None]
    ctx.true("sources-found", len(starts) >= 11, f"sources: {[p.ty_str(p.ty(f['self'])) for f in starts]}")
    iters = {}
    for f in starts:
        ty = p.ty(f["self"])
        nm = p.ty_str(ty)
        depth = groups(ty)
        with ctx.case(f"start/{nm}"):
            I = Interp(p)
            r = call(ctx, f, interp=I)
            src = I.root_ty
            it = p.ty(r.body["locals"][0])
            ctx.true(f"start/depth/{nm}", it[0] == "adt" and depth in (0, 1, 2), f"iterator {p.ty_str(it)}", r.loc)
            s = parts(I, r.ret)
            whole = I.contents(r.st, s.src)
            arg = I.contents(r.st, r.args[0])
            while whole.k == "app" and whole.a[0] == "&":
                whole = whole.a[1]
            while arg.k == "app" and arg.a[0] == "&":
                arg = arg.a[1]
            ctx.true(f"start/whole-source/{nm}", whole is arg, f"iterates {V.show(whole)[:200]} instead of the source", r.loc)
            iters.setdefault((it[1], depth), []).append((nm, s, r.loc))
    for (it, depth), uses in iters.items():
        s0 = uses[0][1]
        for nm, s, loc in uses:
            ctx.true(f"start/state/{nm}", s.fixed() == s0.fixed(), f"starts at {s.show()}, other sources start at {s0.show()}", loc)
        with ctx.case(f"step/{it.split('::')[-1]}"):
            step(ctx, it, depth, s0)
    ctx.floor(35)


def groups(ty):
    """0: one contour, 1: list of contours, 2: list of shapes"""
    d = -1
    while True:
        if ty[0] == "ref":
            ty = ty[1]
        elif ty[0] in ("slice", "array"):
            d, ty = d + 1, ty[1]
        elif ty[0] == "adt" and ty[1].endswith("::Vec"):
            d, ty = d + 1, ty[2][0]
        else:
            return d


class parts:
    def __init__(self, I, v):
        if v.k != "struct":
            raise Bad(f"the iterator state is not a plain structure: {V.show(v)[:200]}")
        self.v, self.fields = v, list(v.a[1:])
        refs = [i for i, x in enumerate(self.fields) if x.k == "ref"]
        if len(refs) != 1:
            raise Bad(f"expected one reference to the source in the iterator: {V.show(v)[:200]}")
        self.isrc = refs[0]
        self.src = self.fields[refs[0]]
        self.cur = [i for i, x in enumerate(self.fields) if i != self.isrc]

    def fixed(self):
        return tuple(x for i, x in enumerate(self.fields) if i != self.isrc)

    def show(self):
        return [V.show(x) for x in self.fixed()]

    def with_(self, **kw):
        pass


def step(ctx, it, depth, s0):
    p = ctx.prog
    f = [g for g in p.fns if g["m"] == "next" and g["self"] is not None and p.ty(g["self"])[1] == it]
    if len(f) != 1:
        raise Bad(f"no unique step for {it}")
    f = f[0]
    key = f"step/{it.split('::')[-1]}"
    I = Interp(p)
    base = I.expand(I.var("self", p.ty(f["self"])))

    def state(cur):
        fs = list(base.a[1:])
        for i, v in zip(s0.cur, cur):
            fs[i] = v
        return mk("struct", (base.a[0],) + tuple(fs))

    def run_(cur):
        r = call(ctx, f, [state(cur)], interp=I)
        o = r.out[0]
        ctx.eq(f"{key}/keeps-source", unwrap(I.contents(r.st, I.field(o, s0.isrc))), unwrap(I.contents(r.st, base.a[1 + s0.isrc])), loc=r.loc)
        return r, [I.field(o, i) for i in s0.cur]

    def item(r):
        return unwrap(I.contents(r.st, r.ret.a[3][0]))
    src = unwrap(I.contents(State(), base.a[1 + s0.isrc]))
    start = [s0.fields[i] for i in s0.cur]
    yes = lambda r: V.eq(r.ret.a[1], V.ONE)
    if depth == 0:
        r, s1 = run_(start)
        ctx.eq(f"{key}/first", r.ret.a[1], V.ONE, loc=r.loc)
        ctx.true(f"{key}/yields-contour", item(r) is src, f"yields {V.show(item(r))[:200]}", r.loc)
        r2, s2 = run_(s1)
        ctx.eq(f"{key}/then-ends", r2.ret.a[1], V.ZERO, loc=r.loc)
        r3, s3 = run_(s2)
        ctx.eq(f"{key}/stays-ended", r3.ret.a[1], V.ZERO, loc=r.loc)
        ctx.true(f"{key}/end-is-final", s3 == s2, "the state still changes after the end", r.loc)
        return
    n = I.seq_len(src)
    if depth == 1:
        if len(start) != 1:
            raise Bad("expected one position in the iterator state")
        k = nat("k", ty="usize")
        r, s = run_([k])
        if r.loops:
            raise Bad("the step contains a loop that is not understood", r.loc)
        ctx.eq(f"{key}/start", start[0], V.ZERO, loc=r.loc)
        more = V.lt(k, n)
        ctx.eq(f"{key}/yields-iff-more", r.ret.a[1], V.ite(more, V.ONE, V.ZERO), loc=r.loc)
        ctx.eq(f"{key}/item", item(r), I.seq_get(src, k), more, r.loc)
        ctx.eq(f"{key}/advances", s[0], V.add(k, V.ONE), more, r.loc)
        ctx.eq(f"{key}/stays-ended", V.ge(s[0], n), V.T, V.b_not(more), r.loc)
        return
    best = None
    for perm in itertools.permutations(range(len(start))):
        if len(perm) != 2:
            raise Bad("expected a group and a position in the iterator state")
        obl = triple(ctx, I, key, run_, item, src, n, start, perm)
        if best is None or sum(1 for o in obl if not o[1]()) == 0:
            pass
        bad = evaluate(ctx, obl)
        if best is None or len(bad) < len(best[1]):
            best = (obl, bad)
        if not bad:
            break
    for o in best[0]:
        ctx.eq(*o[0])


def evaluate(ctx, obl):
    bad = []
    for (key, got, want, care, loc), _ in obl:
        if compare.difference(got, want, care, "", ()) is not None:
            bad.append(key)
    return bad


def triple(ctx, I, key, run_, item, src, n, start, perm):
    ci, cj = perm
    i, j = nat("i", ty="usize"), nat("j", ty="usize")
    cur = [None, None]
    cur[ci], cur[cj] = i, j
    r, s = run_(cur)
    out = []

    def eq(k, got, want, care=V.T):
        out.append(((f"{key}/{k}", got, want, care, r.loc), lambda: True))
    eq("start-group", start[ci], V.ZERO)
    eq("start-position", start[cj], V.ZERO)
    if not r.loops:
        raise Bad("the step does not search for the next group", r.loc)
    if len(r.loops) != 1:
        raise Bad("the step searches with several loops", r.loc)
    l = r.loops[0]
    # positions at the head of the search
    ph = {}
    for (root, path), (phi, init) in l.phis.items():
        if init is i:
            ph["i"] = (root, path, phi)
        elif init is j:
            ph["j"] = (root, path, phi)
    if set(ph) != {"i", "j"}:
        raise Bad("the search does not run over the group and the position only", r.loc)
    pi, pj = V.as_poly(ph["i"][2]), V.as_poly(ph["j"][2])
    ni, nj = (l.nexts[ph[x][:2]] for x in "ij")
    lens = I.seq_len(I.seq_get(src, pi))
    E = l.entry_pc
    nonneg = conj(E, V.ge(pi, V.ZERO), V.ge(pj, V.ZERO))
    inside, here = V.lt(pi, n), V.lt(pj, lens)
    # answers given without searching
    skip, in0 = V.b_not(E), V.lt(i, n)
    eq("direct/only-when-decided", disj(V.b_not(in0), V.lt(j, I.seq_len(I.seq_get(src, i)))), V.T, skip)
    eq("direct/yields-iff-found", r.ret.a[1], V.ite(in0, V.ONE, V.ZERO), skip)
    eq("direct/item", item(r), I.seq_get(I.seq_get(src, i), j), conj(skip, in0))
    eq("direct/same-group", s[ci], i, conj(skip, in0))
    eq("direct/advances", s[cj], V.add(j, V.ONE), conj(skip, in0))
    eq("direct/stays-ended", V.ge(s[ci], n), V.T, conj(skip, V.b_not(in0)))
    go = conj(inside, V.b_not(here))
    eq("search-goes-on-past-empty", l.cont, go, nonneg)
    eq("search-next-group", ni, V.add(pi, V.ONE), conj(nonneg, go))
    eq("search-from-its-start", nj, V.ZERO, conj(nonneg, go))
    stop = conj(nonneg, V.b_not(go))
    eq("yields-iff-found", r.ret.a[1], V.ite(inside, V.ONE, V.ZERO), stop)
    eq("item", item(r), I.seq_get(I.seq_get(src, pi), pj), conj(stop, inside))
    eq("same-group", s[ci], pi, conj(stop, inside))
    eq("advances", s[cj], V.add(pj, V.ONE), conj(stop, inside))
    eq("stays-ended", V.ge(s[ci], n), V.T, conj(stop, V.b_not(inside)))
    return out


def unwrap(v):
    while v.k == "app" and v.a[0] == "&":
        v = v.a[1]
    return v
