"""Sequences built by loops, recognised up to how the loop is written.

A sequence produced by pushing, by `collect`, or by filling a preallocated buffer through a running
index is described the same way: iterations 0 <= K < trip, and what each iteration appends."""
import vals as V
from vals import mk
import scev
import compare


class Unknown(Exception):
    pass


class Built:
    """trip: number of iterations; K: iteration number (value); items: [(cond, elem)] appended, in order;
    base: the sequence before the loop"""


def terms_of(*vals_):
    from props.lib import terms_of as f
    return f(*vals_)


def leaves(v):
    """[(condition, leaf)] of a gated value"""
    return [(V.apply(("leafis", l.id), lambda x, l=l: V.T if x is l else V.F, v), l) for l in V.leafset(v)]


def cases(v, f):
    """gated value -> condition under which f(leaf)"""
    return V.apply(("cases", f), lambda x: V.T if f(x) else V.F, v)


def pushes(leaf, stop):
    """elements pushed on top of stop, outermost last; None if leaf is not stop plus pushes"""
    out = []
    while leaf is not stop:
        if leaf.k != "app" or leaf.a[0] != "push":
            return None
        out.append(leaf.a[2])
        leaf = leaf.a[1]
    return out[::-1]


def loop_of(I, forms, leaf):
    for c in forms.values():
        for key, (ph, init) in c.lp.phis.items():
            if ph is leaf:
                return c, key, init
    return None


def built(I, forms, leaf, axioms=()):
    """describe a loop-built sequence; leaf is the loop's final value of it"""
    hit = loop_of(I, forms, leaf)
    if hit is None:
        raise Unknown(f"not built by a loop: {V.show(leaf)[:200]}")
    c, key, init = hit
    if c.trip is None:
        raise Unknown("loop without a closed number of iterations")
    S = scev.Subst(I, scev.mapping(I, forms, ancestors(c)))
    nx = V.restrict(c.lp.nexts[key], c.lp.cont)
    B = Built()
    B.trip, B.K, B.kterm, B.closed, B.base, B.lp = S0(I, forms, c)(c.trip), c.K, c.kterm, c, init, c.lp
    B.items = []
    ls = leaves(nx)
    stores = [l for _, l in ls if l.k == "app" and l.a[0] == "store"]
    if not stores:
        for cond, l in ls:
            ps = pushes(l, leaf)
            if ps is None:
                raise Unknown(f"an iteration replaces the sequence by {V.show(l)[:200]}")
            for x in ps:
                B.items.append((S(cond), S(x)))
        return B
    # preallocated buffer: store at a running index that starts at 0
    conds = V.F
    elem = V.UNDEF
    idx = None
    for cond, l in ls:
        if l is leaf:
            continue
        if l.k != "app" or l.a[0] != "store" or l.a[1] is not leaf:
            raise Unknown(f"an iteration replaces the sequence by {V.show(l)[:200]}")
        if idx is not None and idx is not l.a[2]:
            raise Unknown("two different store positions")
        idx = l.a[2]
        conds = V.b_or(conds, cond)
        elem = V.ite(cond, l.a[3], elem)
    size = I.seq_len(init)
    total = None
    t = scev.phi_term(idx)
    if t is not None and t.id in c.form:
        if c.form[t.id] is not c.K:
            raise Unknown("store position is not the iteration number")
        if compare.possible(V.b_and(c.lp.cont, V.b_not(conds))) is not None:
            raise Unknown("gaps in a buffer filled by position")
        total = B.trip
    elif idx.k == "p" and S(idx) is c.K:
        if compare.possible(V.b_and(c.lp.cont, V.b_not(conds))) is not None:
            raise Unknown("gaps in a buffer filled by position")
        total = B.trip
    else:
        if counter(c, idx) is None or compare.difference(counter(c, idx), conds, c.lp.cont) is not None:
            raise Unknown("store position does not count the stores")
        # buffer size: the number of matching elements, counted by another loop
        st = scev.phi_term(size)
        other = None
        for d in forms.values():
            for k2, (ph, i2) in d.lp.phis.items():
                if ph is size:
                    other = (d, ph)
        if other is None:
            raise Unknown(f"buffer size {V.show(size)[:120]} is not a count")
        d, ph = other
        cc = counter(d, ph)
        if cc is None or d.trip is None:
            raise Unknown("buffer size is not a count of elements")
        S2 = scev.Subst(I, scev.mapping(I, forms, ancestors(d)))
        a = scev.Subst(I, {d.kterm.id: c.K})(S2(cc))
        if compare.difference(a, S(conds), V.b_and(V.ge(c.K, V.ZERO), V.lt(c.K, B.trip)), axioms=axioms) is not None:
            raise Unknown("the counted elements are not the stored ones")
        if compare.difference(S0(I, forms, d)(d.trip), B.trip, axioms=axioms) is not None:
            raise Unknown("the counting loop and the storing loop differ in length")
        total = size
    if total is not size and compare.difference(size, total, axioms=axioms) is not None:
        raise Unknown("the buffer is not filled completely")
    B.base = I.lit([], I.norm_seq(init.ty) if init.ty else None)
    B.items.append((S(conds), S(elem)))
    return B


def S0(I, forms, c):
    return scev.Subst(I, scev.mapping(I, forms, ancestors(c)[:-1]))


def ancestors(c):
    out = []
    l = c.lp
    while l is not None:
        out.append(l)
        l = l.parent
    return out[::-1]


def counter(c, ph):
    """condition under which the loop variable ph is incremented by one; None if it is not such a counter"""
    for key, (p, init) in c.lp.phis.items():
        if p is ph:
            if V.pconst(init) != 0:
                return None
            d = V.sub(V.restrict(c.lp.nexts[key], c.lp.cont), ph)
            cond = V.F
            for cc, l in leaves(d):
                k = V.pconst(l)
                if k == 1:
                    cond = V.b_or(cond, cc)
                elif k != 0:
                    return None
            return cond
    return None


def copied(I, c, key):
    """(src, lo, result) when every iteration of the loop appends src[lo + K] to a sequence, or to a sequence held in
    one element of a sequence, and does nothing else; result(appended stretch) is then the value after the loop"""
    ph, init = c.lp.phis[key]
    if key not in c.lp.nexts or not I.is_seq(ph):
        return None
    S = scev.Subst(I, c.form)
    nx = S(V.restrict(c.lp.nexts[key], c.lp.cont))
    ps = pushes(nx, ph)
    if ps is not None:
        into = lambda run: I.seq_cat(init, run)
    elif nx.k == "app" and nx.a[0] == "store" and nx.a[1] is ph and nx.a[3].k == "struct":
        ix, x = nx.a[2], nx.a[3]
        old, new = I.expand(I.seq_get(ph, ix)), I.expand(I.seq_get(init, ix))
        if scev.mentions(ix, c.ids) or any(o.k != "struct" or len(o.a) != len(x.a) for o in (old, new)):
            return None
        other = [j for j in range(1, len(x.a)) if S(old.a[j]) is not x.a[j]]
        if len(other) != 1:
            return None
        j, = other
        ps = pushes(x.a[j], old.a[j])
        into = lambda run: I.seq_store(init, ix, mk("struct", new.a[:j] + (I.seq_cat(new.a[j], run),) + new.a[j + 1:]))
    if ps is None or len(ps) != 1:
        return None
    for t in terms_of(ps[0]):
        if t.k != "app" or t.a[0] != "sel":
            continue
        lo = V.sub(t.a[2], c.K)
        if lo.k == "p" and not any(V.node(i) is c.kterm for m, _ in lo.a for i in m) and I.expand(I.seq_get(t.a[1], t.a[2])) is I.expand(ps[0]):
            return t.a[1], lo, into
    return None
