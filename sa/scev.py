"""Closed forms of loop variables (scalar evolution) and substitution on gated values.

A loop variable whose change per iteration is loop-invariant becomes init + K*step, one that only
depends on other solved variables becomes (K==0 ? init : next(K-1)), where K is the iteration number.
Rewriting a loop (range, iterator, while, running sum instead of recomputation) leaves these forms,
and so everything computed from them, unchanged."""
import vals as V
from vals import mk

USIZE = ("int", "usize")


class Subst:
    def __init__(self, I, m):
        self.I, self.m = I, m          # term id -> value
        self.memo = {}

    def __call__(self, n):
        if n is None:
            return None
        if not self.m:
            return n
        r = self.memo.get(n.id)
        if r is None:
            r = self.go(n)
            self.memo[n.id] = r
        return r

    def go(self, n):
        k = n.k
        if k == "p":
            r = V.ZERO
            dirty = False
            for m, c in n.a:
                for i in m:
                    t = V.node(i)
                    if self.term(t) is not None:
                        dirty = True
            if not dirty:
                return n
            for m, c in n.a:
                x = V.num(c)
                for i in m:
                    t = V.node(i)
                    y = self.term(t)
                    x = V.mul(x, V.pvar(t) if y is None else y)
                r = V.add(r, x)
            return r
        if k == "ite":
            at = n.a[0]
            c = at.key
            kids = [self(x) for x in n.a[1:]]
            if c[0] == "sgn":
                p = V.node(c[1])
                q = self(p)
                if q is p:
                    return V.build(at, kids)
                return pick(V.lt(q, V.ZERO), kids[0], pick(V.eq(q, V.ZERO), kids[1], kids[2]))
            if c[0] == "b":
                t = V.node(c[1])
                y = self.term(t)
                if y is None:
                    return V.build(at, kids)
                y = y if y.k in ("ite", "c") else V.wrap(y)
                return pick(y, kids[0], kids[1])
            if c[0] == "d":
                t = V.node(c[1])
                y = self.term(t)
                if y is None:
                    return V.build(at, kids)
                if y.k == "enum":
                    tag = y.a[1]
                    r = kids[-1]
                    for i in range(len(kids) - 1):
                        r = pick(V.eq(tag, V.num(i)), kids[i], r)
                    return r
                return V.build(V.atom(("d", y.id), at.arity), kids)
            return V.build(at, kids)
        if k == "struct":
            return mk("struct", (n.a[0],) + tuple(self(x) if isinstance(x, V.N) else x for x in n.a[1:]), n.ty)
        if k == "enum":
            return mk("enum", (n.a[0], self(n.a[1])) + tuple(None if x is None else tuple(self(y) for y in x) for x in n.a[2:]), n.ty)
        if k in ("v", "app"):
            y = self.term(n)
            return n if y is None else y
        if k == "ref":
            path = tuple(("i", self(e[1])) if e[0] == "i" else e for e in n.a[1])
            root = n.a[0]
            if root[0] == "D":
                y = self.term(V.node(root[1]))
                if y is not None and y.k == "ref":
                    return mk("ref", (y.a[0], y.a[1] + path), n.ty)
                if y is not None:
                    root = ("D", y.id)
            return mk("ref", (root, path), n.ty)
        return n

    def term(self, t):
        """replacement of an opaque term, None if unchanged"""
        key = ("t", t.id)
        if key in self.memo:
            return self.memo[key]
        r = self._term(t)
        self.memo[key] = r
        return r

    def _term(self, t):
        if t.id in self.m:
            return self.m[t.id]
        if t.k != "app":
            return None
        args = [self(x) if isinstance(x, V.N) else x for x in t.a[1:]]
        if all(a is b for a, b in zip(args, t.a[1:])):
            return None
        return rebuild(self.I, t, args)


def pick(c, a, b):
    return V.ite(c, a, b)


def rebuild(I, t, args):
    op, ty = t.a[0], t.ty
    if op == "idiv":
        return I.div(args[0], args[1], ty)
    if op == "rem":
        return I.rem(args[0], args[1], ty)
    if op in ("shl", "shr", "and", "or", "xor"):
        return I.bitop(op, ty, *args)
    if op == "inv":
        return I.inv(args[0])
    if op == "sel":
        return I.seq_get(args[0], args[1])
    if op == "len":
        return I.seq_len(args[0])
    if op == "push":
        return I.seq_push(args[0], args[1])
    if op == "store":
        return I.seq_store(args[0], args[1], args[2])
    if op == "sub":
        return I.seq_sub(*args)
    if op == "cat":
        return I.seq_cat(*args)
    if op == "deref" and args[0].k == "ref" and args[0].a[0][0] == "D":
        return I.read({}, args[0])
    if op in ("x", "y") and len(args) == 1 and args[0].k == "struct" and args[0].a[0] == "P":
        return args[0].a[1 if op == "x" else 2]
    if op in ("f", "vf"):
        bty = t.a[1].ty
        if bty is not None and bty[0] == "adt":
            var = I.p.variants(bty[1]).index(t.a[2]) if op == "vf" else None
            fs = [x[0] for x in I.p.adt_fields(bty, var or 0)]
            return I.field(args[0], fs.index(t.a[-1]), var)
        if bty is not None and op == "f":
            return I.field(args[0], t.a[-1])
    if op.startswith("count_ones") and V.pconst(args[0]) is not None:
        return V.num(bin(V.pconst(args[0]) & ((1 << int(op.split(":")[1])) - 1)).count("1"))
    if ty is not None and ty[0] == "bool":
        return V.lapp(op, *args, ty=ty)
    if all(isinstance(a, V.N) for a in args) and ty is not None:
        return V.lapp(op, *args, ty=ty)
    return mk("app", (op,) + tuple(args), ty)


def phi_term(v):
    """the term of a scalar loop variable"""
    if v.k == "p" and len(v.a) == 1:
        (m, c), = v.a
        if c == 1 and len(m) == 1:
            return V.node(m[0])
    if v.k == "v":
        return v
    return None


def mentions(v, ids, seen=None):
    st, seen = [v], set()
    while st:
        n = st.pop()
        if not isinstance(n, V.N) or n.id in seen:
            continue
        seen.add(n.id)
        if n.id in ids:
            return True
        if n.k == "p":
            st += [V.node(i) for m, _ in n.a for i in m]
        elif n.k == "ite":
            if n.a[0].key[0] in ("sgn", "b", "d"):
                st.append(V.node(n.a[0].key[1]))
            st += list(n.a[1:])
        elif n.k == "enum":
            st.append(n.a[1])
            for x in n.a[2:]:
                if x:
                    st += list(x)
        elif n.k == "ref":
            st += [e[1] for e in n.a[1] if e[0] == "i"]
        else:
            st += [x for x in n.a if isinstance(x, V.N)]
    return False


class Closed:
    """closed forms of one loop in its iteration number"""

    def __init__(self, I, lp, inner=()):
        self.I, self.lp, self.inner = I, lp, inner
        self.kterm = mk("app", ("bounded", mk("v", (("iteration", lp.id),), USIZE), 0, None), USIZE)
        self.K = V.pvar(self.kterm)
        self.form = {}                 # phi term id -> value in K
        self.by_key = {}
        self.trip = None
        self.solve()

    def exit_cond(self):
        """condition, relative to the header, of leaving the loop"""
        E = V.F
        for t, pc, st in self.lp.exits:
            E = V.b_or(E, pc)
        return E

    def solve(self):
        lp, I = self.lp, self.I
        todo = {}
        ids = set()
        # what loops inside leave behind: their closed forms, else a value of this round only
        own, done = set(), {}
        for c in self.inner:
            own |= c.ids
            if c.trip is not None:
                done.update(c.at(c.trip))
        left_by = Subst(I, done) if done else lambda v: v
        for key, (ph, init) in lp.phis.items():
            t = phi_term(ph)
            if t is None:
                for x in V.leafset(ph):
                    t2 = phi_term(x)
                    if t2 is not None:
                        ids.add(t2.id)
                continue
            ids.add(t.id)
            if key in lp.nexts and ph.k == "p":
                todo[key] = (t, ph, init, left_by(left_by(V.restrict(lp.nexts[key], lp.cont))))
        self.ids = ids | own
        progress = True
        while todo and progress:
            progress = False
            for key in list(todo):
                t, ph, init, nx = todo[key]
                d = V.sub(nx, ph)
                left = ids - set(self.form)
                if mentions(nx, own):
                    continue
                if not mentions(d, ids):
                    self.put(key, t, V.add(init, V.mul(self.K, d)))
                elif not mentions(nx, left):
                    n = Subst(I, self.form)(nx)
                    prev = Subst(I, {self.kterm.id: V.sub(self.K, V.ONE)})(n)
                    self.put(key, t, self.lag(init, prev))
                else:
                    continue
                del todo[key]
                progress = True
        self.unsolved = {k: v for k, v in todo.items()}
        for key, (ph, init) in lp.phis.items():
            self.reference(key, ph, init, ids)
        for key, (ph, init) in lp.phis.items():
            # a sequence whose elements are only replaced keeps its length
            if ph.k == "v" and key in lp.nexts and I.is_seq(ph):
                def kept(x):
                    while x is not ph and x.k == "app" and x.a[0] in ("store", "sorted"):
                        x = x.a[1]
                    return x is ph
                if all(kept(x) for x in V.leafset(V.restrict(lp.nexts[key], lp.cont))):
                    t = phi_term(I.seq_len(ph))
                    if t is not None:
                        self.form[t.id] = I.seq_len(init)
        E = Subst(I, self.form)(self.exit_cond())
        self.exit = E
        self.trip = self.count(E)

    def lag(self, init, prev):
        """the value of the iteration before, or init"""
        if Subst(self.I, {self.kterm.id: V.ZERO})(prev) is init:
            return prev
        return V.ite(V.eq(self.K, V.ZERO), init, prev)

    def reference(self, key, ph, init, ids):
        """a reference that moves through a value which the loop leaves alone"""
        lp, I = self.lp, self.I
        if ph.k != "ref" or ph.a[0][0] != "D" or ph.a[1] or key not in lp.nexts:
            return
        nx = V.restrict(lp.nexts[key], lp.cont)
        for r in (init, nx):
            if r.k != "ref" or r.a[0][0] == "D" or any(k[0] == r.a[0] for k in lp.phis):
                return
        nx = Subst(I, self.form)(nx)
        if any(e[0] == "i" and mentions(e[1], ids) for e in nx.a[1]):
            return
        cell = V.node(ph.a[0][1])
        if cell.ty is None or cell.ty[0] not in ("ref", "ptr"):
            return
        t = mk("app", ("deref", cell), cell.ty[1])
        a, b = I.read(lp.hdr, init), I.read(lp.hdr, Subst(I, {self.kterm.id: V.sub(self.K, V.ONE)})(nx))
        f = self.lag(a, b)
        if f is not None:
            self.form[t.id] = f

    def put(self, key, t, v):
        self.form[t.id] = v
        self.by_key[key] = v

    def count(self, E):
        """number of completed iterations, from the exit condition in K"""
        if E is V.F:
            return None
        if E.k != "ite":
            return V.ZERO if E is V.T else None
        at = E.a[0]
        if at.key[0] != "sgn":
            return None
        q = V.node(at.key[1])
        c = 0
        rest = {}
        for m, k in q.a:
            if self.kterm.id in m:
                if m != (self.kterm.id,) or k not in (1, -1):
                    return None
                c = k
            else:
                rest[m] = k
        kids = list(E.a[1:])
        if c == 0:
            # a condition that does not change
            if mentions(q, {self.kterm.id}):
                return None
            ns = [self.count(x) for x in kids]
            if any(n is None for n in ns):
                return None
            return pick(V.lt(q, V.ZERO), ns[0], pick(V.eq(q, V.ZERO), ns[1], ns[2]))
        r = V.poly(rest)
        if c == -1:
            kids.reverse()
            r = V.neg(r)
        # kids: what happens while K < -r, at K == -r, beyond
        lo, eq_, hi = kids
        n = V.neg(r)
        if eq_ is V.T:
            stop, bare = n, hi is not V.T
        elif hi is V.T and eq_ is lo:
            stop, bare = V.add(n, V.ONE), False
        else:
            return None
        stop = stop if bare and lo is V.F else V.vmax(stop, V.ZERO)
        if lo is V.F:
            return stop
        early = self.count(lo)
        return None if early is None else V.vmin(stop, early)

    def at(self, k):
        """phi term id -> value at iteration k"""
        s = Subst(self.I, {self.kterm.id: k})
        return {i: s(v) for i, v in self.form.items()}


def closed(I, loops):
    forms = {}

    def depth(lp):
        n = 0
        while lp.parent is not None:
            lp, n = lp.parent, n + 1
        return n

    def within(l, lp):
        while l is not None:
            if l is lp:
                return True
            l = l.parent
        return False
    for lp in sorted(loops, key=lambda l: -depth(l)):
        forms[lp.id] = Closed(I, lp, [c for c in forms.values() if c.lp is not lp and within(c.lp, lp)])
    return {lp.id: forms[lp.id] for lp in loops}


def mapping(I, forms, loops):
    """substitution that expresses a value seen inside `loops` (outermost first) by iteration numbers,
    and finished loops by their trip counts; loops without a trip count stay as they are"""
    inside = {l.id for l in loops}
    m = {}
    order = sorted(forms.values(), key=lambda c: c.lp.id)
    for c in order:
        if c.lp.id in inside:
            m.update(c.form)
        elif c.trip is not None:
            m.update(c.at(c.trip))
    # forms may mention variables of other loops
    for _ in range(4):
        s = Subst(I, m)
        m2 = {k: s(v) for k, v in m.items()}
        if m2 == m:
            break
        m = m2
    return m
