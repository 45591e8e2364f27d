"""Accesses by index stay inside, subtractions of sizes stay above zero, and `unwrap` finds something.

Every such place met while a function is interpreted is an obligation: the condition it is reached under implies that
it succeeds.  Loop variables are bounded by those of the bounds `0 <= i`, `i < len`, `i <= len` that hold when their
loop is entered and are kept by a round of it; `usize::MAX` may stand for no index."""
import vals as V
import compare
import scev
from props.lib import terms_of, at_event


NONE = V.num((1 << 64) - 1)


def above(lp):
    out = set()
    while lp.parent is not None:
        lp = lp.parent
        out.add(lp)
    return out


def end(lp):
    """if it was entered, it has come to its end"""
    return V.b_or(V.b_not(conj(lp.entry_pc, *lp.entry_ctx)), V.b_not(lp.cont))


def left(R, inside):
    """where the loops `inside` are running, those next to and in them have come to their end"""
    inside = set(inside)
    return conj(*(end(lp) for lp in R.loops if lp not in inside and above(lp) <= inside))


def counts(at):
    """an atom about indices and counts"""
    if at.key[0] != "sgn":
        return True
    return any(x.ty == ("int", "usize") for m, _ in V.node(at.key[1]).a for x in (V.node(i) for i in m)) if V.node(at.key[1]).k == "p" else True


def forget(c, keep=counts):
    """the condition without what it says about anything but indices and counts: holds whenever `c` does"""
    memo = {}

    def go(n):
        if n.k == "undef":
            return V.F
        if n.k != "ite":
            return n
        r = memo.get(n.id)
        if r is None:
            ks = [go(k) for k in n.a[1:]]
            if keep(n.a[0]):
                r = V.ite_node(n.a[0], tuple(ks))
            else:
                r = V.F
                for k in ks:
                    r = V.b_or(r, k)
            memo[n.id] = r
        return r
    return go(c)


def possible(c):
    """None if not; looks at indices and counts first, at everything only if that does not do"""
    if compare.possible(forget(c)) is None:
        return None
    return compare.possible(c)


class Both(tuple):
    """two loop variables at once"""


def conj(*cs):
    r = V.T
    for c in cs:
        r = V.b_and(r, c)
    return r


def sites(R):
    out = []
    for e in R.events:
        if e.kind == "assert" and e.data[0] == "bounds":
            out.append((e, e.data[0], e.data[1]))
        elif e.kind == "assert" and e.data[0] in ("overflow:Sub",) and len(e.data) > 3 and e.data[3] and e.data[3][0] == ("int", "usize"):
            out.append((e, "below zero", e.data[1]))
        elif e.kind == "index":
            i, n, checked, _ = e.data
            out.append((e, "index" if checked else "unchecked index", conj(V.ge(i, V.ZERO), V.lt(i, n))))
        elif e.kind == "slice-index":
            lo, hi, n, checked, _ = e.data
            out.append((e, "range" if checked else "unchecked range", conj(V.ge(lo, V.ZERO), V.le(lo, hi), V.le(hi, n))))
        elif e.kind == "unwrap":
            out.append((e, "unwrap", e.data[0]))
    return out


def carried(e, v, j, f):
    """what variant `v` carries, if that is what it is"""
    if e.k != "enum":
        return V.F
    xs = e.a[2 + v] if 2 + v < len(e.a) else None
    other = V.b_not(V.eq(e.a[1], V.num(v)))
    return V.b_or(other, f(xs[j])) if xs and j < len(xs) else other


def invariants(I, R, more=V.T, sizes=None, lists=False):
    """conditions over loop variables that hold in every round and after the last one"""
    sizes = list(sizes or [])
    cand, pair = [], []
    for lp in R.loops:
        if lists:
            # the length of a list: that of another, or the number of rounds
            for key, (ph, init) in lp.phis.items():
                if key in lp.nexts and I.is_seq(ph):
                    for n in sizes:
                        cand.append((lp, key, init, lambda v, n=n: V.eq(I.seq_len(v), n)))
        for key, (ph, init) in lp.phis.items():
            if lists and ph.k == "p" and key in lp.nexts:
                for k2, (p2, i2) in lp.phis.items():
                    if k2 in lp.nexts and I.is_seq(p2):
                        pair.append((lp, (key, k2), (init, i2), lambda v: V.eq(I.seq_len(v[1]), v[0])))
            if lists and ph.k == "enum" and key in lp.nexts:
                for v, xs in enumerate(ph.a[2:]):
                    for j, x in enumerate(xs or ()):
                        if x.k == "p":
                            for n in sizes:
                                cand.append((lp, key, init, lambda e, v=v, j=j, n=n: carried(e, v, j, lambda y: V.lt(y, n))))
                            cand.append((lp, key, init, lambda e, v=v, j=j: carried(e, v, j, lambda y: V.ge(y, V.ZERO))))
            if ph.k != "p" or key not in lp.nexts:
                continue
            for n in sizes:
                if n is ph:
                    continue
                cand.append((lp, key, init, lambda v, n=n: V.lt(v, n)))
                cand.append((lp, key, init, lambda v, n=n: V.le(v, n)))
                # an index or the mark for none
                cand.append((lp, key, init, lambda v, n=n: V.b_or(V.eq(v, NONE), V.lt(v, n))))
            cand.append((lp, key, init, lambda v: V.ge(v, V.ZERO)))
    def at(lp, key, of):
        return tuple(of(k) for k in key[0]) if isinstance(key, Both) else of(key)

    cand += [(lp, Both((k,)), init, f) for lp, k, init, f in pair]

    up = {lp: above(lp) for lp in R.loops}
    order = {lp: n for n, lp in enumerate(R.loops)}     # inner loops and loops done before come first

    def known(live, when):
        return conj(*(f(at(lp, key, lambda k: lp.phis[k][0])) for lp, key, init, f in live if when(lp)))

    def ok(c, before, during):
        lp, key, init, f = c
        ph = at(lp, key, lambda k: lp.phis[k][0])
        try:
            if possible(conj(before, more, lp.entry_pc, *lp.entry_ctx, V.b_not(f(init)))) is not None:
                return False
            nx = at(lp, key, lambda k: V.restrict(lp.nexts[k], lp.cont))
            return possible(conj(during, more, f(ph), lp.cont, V.b_not(f(nx)))) is None
        except compare.Budget:
            return False
    live = cand
    # loops done before this one, and all around or in a round of it
    ended = {lp: (conj(*(end(x) for x in R.loops if order[x] < order[lp] and lp not in up[x] and up[x] <= up[lp])),
                  conj(*(end(x) for x in R.loops if order[x] < order[lp] and up[x] <= up[lp] | {lp}))) for lp in R.loops} if lists else {lp: (V.T, V.T) for lp in R.loops}
    while True:
        held = {}
        for lp in R.loops:
            # on the way in: what is known of the loops around and of those done before; in a round: of those inside, too
            held[lp] = (
                  conj(known(live, lambda x: x in up[lp] or (order[x] < order[lp] and lp not in up[x])), ended[lp][0]),
                  conj(known(live, lambda x: x in up[lp] or order[x] <= order[lp]), ended[lp][1]))
        keep = [c for c in live if ok(c, *held[c[0]])]
        if len(keep) == len(live):
            return known(live, lambda x: True)
        live = keep


def remainders(*vals_):
    """0 <= x - n (x / n) < n"""
    r = V.T
    for x in terms_of(*vals_):
        if x.k == "app" and x.a[0] == "idiv" and len(x.a) == 3:
            a, n = x.a[1], x.a[2]
            m = V.sub(a, V.mul(n, V.pvar(x)))
            r = V.b_and(r, V.b_or(V.b_or(V.lt(a, V.ZERO), V.le(n, V.ZERO)), conj(V.ge(m, V.ZERO), V.lt(m, n))))
    return r


def settle(ctx, key, I, R, facts=lambda xs: V.T, at_least=1):
    ss = sites(R)
    sizes = []
    for e, what, ok in ss:
        for x in terms_of(ok):
            if x.k == "app" and x.a[0] == "len":
                v = V.pvar(x)
                if v not in sizes:
                    sizes.append(v)
    every = [x for l in R.loops for x in (l.cont, l.entry_pc) + tuple(l.nexts.values()) + tuple(i for _, i in l.phis.values())] + [e.full_pc() for e, _, _ in ss] + [ok for _, _, ok in ss]
    more = facts(every)
    inv = invariants(I, R, more, sizes)
    n = 0
    for e, what, ok in ss:
        n += 1
        w = possible(conj(e.full_pc(), inv, more, V.b_not(ok)))
        ctx.true(f"{key}/{what}", w is None, f"line {e.line}: {what} may fail: when {w}", f"{e.fn}:{e.line}")
    ctx.true(f"{key}/sites", n >= at_least, f"{n} places looked at", R.loc)
    return n
