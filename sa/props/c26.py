"""Walks over a graph stay inside of it.

Every function that is given a graph (or its links or nodes) is interpreted once; a call from one of them to another is
cut at a contract over plain facts: a number is less than the count of links / of nodes, a list of marks is as long as
the list of links, every number in a list is less than the count of links, a path is not empty.  All such facts are assumed for every argument and result,
and dropped as soon as one call site (one return) does not establish them from the facts that are left, until nothing
changes.  What is left is an inductive invariant of all walks; with it every index, range and `unwrap` met has to succeed.
Used: the graph is as C19 leaves it (numbers in its nodes are numbers of links, `id`s are numbers of nodes)."""
from .lib import *
import bounds
import models
import check

UNIT = mk("struct", ("()",), ("tuple", ()))
U = ("int", "usize")
LINK = "i_overlay::core::link::OverlayLink"
NODE = "i_overlay::core::node::OverlayNode"
IDP = "i_overlay::geom::id_point::IdPoint"
GRAPHS = ("i_overlay::core::graph::OverlayGraph", "i_overlay::string::graph::StringGraph")
LN = V.pvar(mk("v", ("number of links",), U))
NN = V.pvar(mk("v", ("number of nodes",), U))


def peel(ty):
    while ty[0] == "ref":
        ty = ty[1]
    return ty


def is_adt(ty, *names):
    return ty[0] == "adt" and ty[1] in names


class Walks:
    def __init__(self, ctx):
        self.ctx, self.p = ctx, ctx.prog
        self.runs = {}
        self.pre, self.post = set(), set()   # (function, place, fact) in force
        self.fresh = {}          # fresh result -> facts about it: (callee, leaf index)
        self.count = 0
        self.why = {}
        self.paths = {}          # term of bool -> path that is long if it is true

    # ---- which functions
    def seq(self, ty):
        return Interp(self.p).norm_seq(ty)

    def of_graph(self, ty):
        ty = peel(ty)
        if is_adt(ty, *GRAPHS):
            return True
        e = self.seq(ty)
        if e is None:
            return False
        e2 = self.seq(e)
        return is_adt(e, LINK, NODE) or (e2 is not None and e2 == U)

    def params(self, b):
        return [self.p.ty(b["locals"][i]) for i in range(1, b["argc"] + 1)]

    def cut(self, b):
        """calls to this function are cut at its contract"""
        ts = self.params(b)
        ret = self.p.ty(b["locals"][0])
        if ret[0] == "ref" or any(x[0] in ("param", "alias") for x in ts):
            return False
        e = self.seq(ret)
        if e in (("bool",), ("int", "u8")) and any(self.of_graph(t) for t in ts):
            return True
        # lists of links on their own are what builders work on
        return any(is_adt(peel(t), *GRAPHS) for t in ts) or (any(self.of_graph(t) for t in ts) and any(self.nodes_of(t) for t in ts))

    def nodes_of(self, t):
        e = self.seq(peel(t))
        return e is not None and (is_adt(e, NODE) or self.seq(e) == U)

    # ---- the facts a value can carry
    def kinds(self, ty):
        if ty == U:
            return ("links", "nodes")
        e = self.seq(ty)
        if e is None:
            return ()
        if e in (("bool",), ("int", "u8")) or is_adt(e, LINK):
            return ("per link",)
        if is_adt(e, NODE) or self.seq(e) == U:
            return ("per node",)
        if e == U:
            return ("of links",)
        return ("some",)

    def leaves(self, I, st, v, ty, at=(), depth=0):
        while ty[0] == "ref":
            while v is not None and v.k == "ref":
                v = I.read(st, v)
            ty = ty[1]
        if is_adt(ty, *GRAPHS):
            return
        ks = self.kinds(ty)
        if ks:
            for k in ks:
                yield at, k, v
            return
        if depth < 3 and ty[0] == "adt" and ty[1].startswith("i_overlay::") and not self.p.is_enum(ty) and not is_adt(ty, IDP, LINK):
            for i, (n, t) in enumerate(self.p.adt_fields(ty)):
                yield from self.leaves(I, st, I.field(v, i) if v is not None else None, t, at + (i,), depth + 1)

    def holds(self, I, k, v):
        if k == "links":
            return conj(V.ge(v, V.ZERO), V.lt(v, LN))
        if k == "nodes":
            return conj(V.ge(v, V.ZERO), V.lt(v, NN))
        if k == "per link":
            return V.eq(I.seq_len(v), LN)
        if k == "per node":
            return V.eq(I.seq_len(v), NN)
        if k == "some":
            return V.gt(I.seq_len(v), V.ZERO)
        return None

    # ---- interpretation
    def hooks(self, me):
        h = {}
        for f in self.p.fns:
            b = self.p.bodies.get(f["id"])
            if b is None or "::tests::" in f["n"] or not self.cut(b):
                continue
            h[f["n"]] = self.make(me, f, b)
        for m in ("validate",):
            h[m] = self.validate
        for m in ("join_sorted_holes", "join_unsorted_holes", "join"):
            h[m] = self.nothing
        h["split_loops"] = h["is_clockwise_ordered"] = h["is_fill_top"] = self.opaque
        h["left_bottom_segment"] = self.leftmost
        return h

    def nothing(self, I, f, args, tys, dty, st, line):
        return UNIT, V.T, st

    def opaque(self, I, f, args, tys, dty, st, line):
        self.count += 1
        return I.var(f"{f['n'].split('::')[-1]}#{self.count}", dty), V.T, st

    def leftmost(self, I, f, args, tys, dty, st, line):
        v = args[0]
        while v.k == "ref":
            v = I.read(st, v)
        I.event("needs", ("a point", V.gt(I.seq_len(v), V.ZERO)), line)
        return self.opaque(I, f, args, tys, dty, st, line)

    def validate(self, I, f, args, tys, dty, st, line):
        if len(args) != 3:
            return NotImplemented
        self.count += 1
        st = st.copy()
        ok = I.var(f"valid#{self.count}", ("bool",))
        s = mk("v", (f"path#{self.count}",), ("slice", self.seq(peel(tys[0]))))
        I.write(st, args[0], s)
        self.paths[self.count] = (ok, s)
        return mk("struct", ("tuple", ok, I.var(f"modified#{self.count}", ("bool",))), dty), V.T, st

    def make(self, me, f, b):
        ts = self.params(b)
        ret = self.p.ty(b["locals"][0])

        def hook(I, g, args, tys, dty, st, line):
            vals = []
            for i, (a, t) in enumerate(zip(args, ts)):
                for at, k, v in self.leaves(I, st, a, t, (i,)):
                    vals.append((at, k, v))
            I.event("walk", (b["id"], vals), line)
            st = st.copy()
            self.count += 1
            for i, (a, t) in enumerate(zip(args, ts)):
                if t[0] == "ref" and t[2]:
                    old = I.read(st, a)
                    x = I.var(f"after#{self.count}.{i}", t[1])
                    I.write(st, a, x)
                    if t[1][0] in ("slice", "array"):
                        self.same.append((x, old))
            r = I.var(f"{f['n'].split('::')[-1]}#{self.count}", ret)
            for at, k, v in self.leaves(I, st, r, ret):
                self.fresh.setdefault(me, []).append((b["id"], at, k, v))
            return r, V.T, st
        return hook

    def interpret(self, bid, inner=True):
        b = self.p.bodies[bid]
        f = next(f for f in self.p.fns if f["id"] == bid)
        self.same, self.paths = [], {}
        h = self.hooks(bid)
        for nm in (f["n"], f["n"].split("::")[-1]):
            h.pop(nm, None)
        # a caller from outside: only what it does itself matters
        far = () if inner else (lambda n: n.startswith(("i_", "<i_")) and "::{closure" not in n,)
        I = Interp(self.p, hooks=h, opaque=far)
        ts = self.params(b)
        argn = {x[2]: x[0] for x in b["names"] if x[2] is not None}
        vals = [I.var(argn.get(i + 1) or f"a{i}", peel(t)) for i, t in enumerate(ts)]
        R = call(self.ctx, f, vals=[None if t[0] == "ref" and t[1][0] == "ref" else v for v, t in zip(vals, ts)], interp=I, must_return=False)
        R.f, R.bid, R.same, R.paths = f, bid, self.same, list(self.paths.values())
        R.entry = [x for i, (v, t) in enumerate(zip(vals, ts)) for x in self.leaves(I, None, v, peel(t), (i,))]
        R.vals, R.ts = vals, ts
        ret = self.p.ty(b["locals"][0])
        R.exit = list(self.leaves(I, R.st, R.ret, ret)) if R.ret is not None else []
        R.calls = [e for e in R.events if e.kind == "walk"]
        R.fresh = self.fresh.get(bid, [])
        R.every = [x for l in R.loops for x in (l.cont, l.entry_pc) + tuple(l.nexts.values()) + tuple(i for _, i in l.phis.values())]
        ss = self.places(R)
        R.every += [x for e, _, ok in ss for x in (e.full_pc(), ok)]
        R.every += [x for e in R.calls for _, _, x in e.data[1]] + [e.full_pc() for e in R.calls] + [x for _, _, x in R.exit]
        if R.ret is not None:
            R.every.append(R.pc)
        R.terms = terms_of(*R.every)
        return I, R

    def places(self, R):
        return bounds.sites(R) + [(e, e.data[0], e.data[1]) for e in R.events if e.kind == "needs"]

    # ---- facts in force
    def listed(self, I, R, v):
        """every number in the list is the number of a link"""
        out = []

        def go(x):
            if x.k == "ite":
                for y in x.a[1:]:
                    go(y)
            else:
                out.append(x)
        go(v)
        mine = {x for at, k, x in R.entry if k == "of links" and (R.bid, at, k) in self.pre}
        for x in out:
            if x.k == "undef" or x in mine:
                continue
            if x.k == "app" and x.a[0] == "vf" and is_adt(x.a[1].ty or ("?",), NODE):
                continue
            if x.k == "app" and x.a[0] == "sel" and self.seq(x.a[1].ty) is not None and x.ty == ("slice", U):
                continue
            return False
        return True

    def facts(self, I, R):
        c = [V.ge(LN, V.ZERO), V.ge(NN, V.ZERO)]
        own = set()
        for at, k, v in R.entry:
            own.add(v)
            if k != "of links" and (R.bid, at, k) in self.pre:
                c.append(self.holds(I, k, v))
        for bid, at, k, v in R.fresh:
            own.add(v)
            if k != "of links" and (bid, at, k) in self.post:
                c.append(self.holds(I, k, v))
        for x, old in R.same:
            c.append(V.eq(I.seq_len(x), I.seq_len(old)))
        for ok, s in R.paths:
            c.append(disj(V.b_not(ok), V.ge(I.seq_len(s), V.num(3))))
        for x in R.terms:
            if x.k != "app" or x.ty is None:
                continue
            if x.ty == U:
                v = V.pvar(x)
                if v in own or x in own:
                    continue
                if x.a[0] == "f" and is_adt(x.a[1].ty or ("?",), IDP):
                    c.append(self.holds(I, "nodes", v))
                elif x.a[0] == "sel" and self.listed(I, R, x.a[1]):
                    c.append(self.holds(I, "links", v))
            elif x.a[0] == "f" and is_adt(x.a[1].ty or ("?",), *GRAPHS):
                e = self.seq(x.ty)
                if e is not None and is_adt(e, LINK):
                    c.append(self.holds(I, "per link", x))
                elif e is not None and (is_adt(e, NODE) or self.seq(e) == U):
                    c.append(self.holds(I, "per node", x))
        r = V.T
        for x in dict.fromkeys(c):
            r = V.b_and(r, x)
        return r

    # ---- all of them together
    def settle(self):
        ctx, p = self.ctx, self.p
        named = {f["id"]: f for f in p.fns if f["id"] in p.bodies and "::tests::" not in f["n"]}
        cut = [i for i, f in named.items() if self.cut(p.bodies[i])]
        callers = {}
        for i, f in named.items():
            for _, _, g, _, _ in p.callees(p.bodies[i]):
                j = g and g["inst"] and g["inst"]["b"]
                if j in cut:
                    callers.setdefault(j, set()).add(i)
        todo = list(cut)
        done = set()
        for i in cut:
            for c in callers.get(i, ()):
                if c not in todo and any(k in ("per link", "per node", "of links") for _, k, _ in self.shape(i)):
                    todo.append(c)
        for i in todo:
            I, R = self.interpret(i, i in cut)
            self.runs[i] = (I, R)
            for at, k, v in R.exit:
                self.post.add((i, at, k))
            if i not in cut or self.open(i) or callers.get(i, set()) - set(todo):
                continue
            for at, k, v in R.entry:
                self.pre.add((i, at, k))
        while True:
            lost = False
            for i in self.runs:
                if i in done:
                    continue
                done.add(i)
                a, b = self.check(i)
                if a:
                    lost = True
                    self.pre -= a
                    done -= {x[0] for x in a}
                if b:
                    lost = True
                    self.post -= b
                    for j in {x[0] for x in b}:
                        done -= {c for c, (_, R) in self.runs.items() if any(e.data[0] == j for e in R.calls)}
            if not lost:
                break
        return todo

    def open(self, i):
        """anyone may call it"""
        return next(f for f in self.p.fns if f["id"] == i)["pub"]

    def shape(self, i):
        b = self.p.bodies[i]
        I = Interp(self.p)
        return [x for n, t in enumerate(self.params(b)) for x in self.leaves(I, None, I.var(f"a{n}", peel(t)), peel(t), (n,))]

    def known(self, i):
        I, R = self.runs[i]
        more = self.facts(I, R)
        inv = bounds.invariants(I, R, more, [LN, NN], lists=True)
        return conj(more, inv)

    def never(self, c):
        try:
            return bounds.possible(c) is None
        except compare.Budget:
            return False

    def check(self, i):
        """facts assumed of others that function i does not establish"""
        I, R = self.runs[i]
        held = self.known(i)
        pre, post = set(), set()
        for e in R.calls:
            j, vals = e.data
            for at, k, v in vals:
                if (j, at, k) not in self.pre or (j, at, k) in pre:
                    continue
                if k == "of links":
                    ok = self.listed(I, R, v)
                else:
                    ok = self.never(conj(e.full_pc(), bounds.left(R, e.loops), held, V.b_not(self.holds(I, k, v))))
                if not ok:
                    pre.add((j, at, k))
                    self.why[(j, at, k)] = f"{R.f['n'].split('::')[-1]}:{e.line}"
        for at, k, v in R.exit:
            if (i, at, k) in self.post:
                ok = self.listed(I, R, v) if k == "of links" else self.never(conj(R.pc, bounds.left(R, ()), held, V.b_not(self.holds(I, k, v))))
                if not ok:
                    post.add((i, at, k))
        return pre, post


def run(ctx):
    W = Walks(ctx)
    for nm, fn in (("walks", walks), ("valid", valid), ("leftmost", leftmost), ("string-graph", string_graph)):
        with ctx.case(nm):
            fn(ctx, W)
    ctx.floor(70)


def walks(ctx, W):
    todo = W.settle()
    n = 0
    for i in todo:
        I, R = W.runs[i]
        held = W.known(i)
        nm = R.f["n"].split("::")[-1]
        lost = ", ".join(sorted({f"{k} of argument {at[0]} not given by {w}" for (j, at, k), w in W.why.items() if j == i}))
        for e, what, ok in W.places(R):
            n += 1
            w = bounds.possible(conj(e.full_pc(), bounds.left(R, e.loops), held, V.b_not(ok)))
            ctx.true(f"{nm}/{what}", w is None, f"line {e.line}: {what} may fail{' (' + lost + ')' if lost else ''}: when {w}", f"{e.fn}:{e.line}")
        same_ids(ctx, W, I, R, nm)
    ctx.true("places", n >= 40, f"{n} places looked at", "")
    # the marks every walk starts from are of the right number
    for i in todo:
        I, R = W.runs[i]
        for e in R.calls:
            j, vals = e.data
            for at, k, v in vals:
                if k in ("per link", "per node"):
                    ctx.true(f"{R.f['n'].split('::')[-1]}/{k}", (j, at, k) in W.pre or W.open(j), f"line {e.line}: the list handed over may be of another length ({W.why.get((j, at, k))})", f"{e.fn}:{e.line}")


def same_ids(ctx, W, I, R, nm):
    """links may be changed on the way, not what they join"""
    every = [x for l in R.loops for x in l.nexts.values()]
    if R.st is not None:
        every += [R.st[x] for x in R.roots.values() if x in R.st]
    for x in terms_of(*every):
        if x.k == "app" and x.a[0] == "store" and is_adt(W.seq(x.ty) or ("?",), LINK):
            old = I.expand(I.seq_get(x.a[1], x.a[2]))
            for end in ("a", "b"):
                g = lambda v: get(ctx, I, get(ctx, I, v, "OverlayLink", end), "IdPoint", "id")
                ctx.eq(f"{nm}/same-{end}", g(x.a[3]), g(old), V.T, R.loc)


def valid(ctx, W):
    """a contour found valid has three points"""
    for f in ctx.prog.fns:
        if f["n"].split("::")[-1] != "validate" or f["id"] not in ctx.prog.bodies or "::tests::" in f["n"] or len(W.params(ctx.prog.bodies[f["id"]])) != 3:
            continue
        I = Interp(ctx.prog, opaque=(r"simplify_contour", r"dedup_contour", r"unsafe_area"))
        R = call(ctx, f, interp=I)
        ok = I.field(R.ret, 0)
        out = R.out[0]
        w = bounds.possible(conj(R.pc, ok, V.lt(I.seq_len(out), V.num(3))))
        ctx.true("valid/three-points", w is None, f"a contour of fewer than three points is valid when {w}", R.loc)


def leftmost(ctx, W):
    """the lowest of the leftmost segments of a path that has a point is found inside of it"""
    for f in ctx.prog.fns:
        if f["n"].split("::")[-1] != "left_bottom_segment" or f["id"] not in ctx.prog.bodies or "::tests::" in f["n"]:
            continue
        I = Interp(ctx.prog)
        R = call(ctx, f, interp=I)
        s = next(iter(R.out.values()))
        n = I.seq_len(s)
        more = conj(V.gt(n, V.ZERO), bounds.remainders(*(x for e, _, ok in bounds.sites(R) for x in (e.full_pc(), ok))))
        inv = bounds.invariants(I, R, more, [n], lists=True)
        for e, what, ok in bounds.sites(R):
            w = bounds.possible(conj(e.full_pc(), bounds.left(R, e.loops), more, inv, V.b_not(ok)))
            ctx.true(f"leftmost/{what}", w is None, f"line {e.line}: {what} may fail: when {w}", f"{e.fn}:{e.line}")


def string_graph(ctx, W):
    """the graph of a string overlay has the nodes that were built, each with the links that meet there"""
    import scev
    import seqs
    p = ctx.prog
    I = Interp(p)
    nty = ty_of(ctx, "OverlayNode")
    N = mk("v", ("nodes",), ("slice", nty))
    L = mk("v", ("links",), ("slice", ty_of(ctx, "OverlayLink")))
    made = []

    def build(I, f, args, tys, dty, st, line):
        st = st.copy()
        r = args[-1]
        made.append(I.read(st, r))
        I.write(st, r, mk("app", ("joined", made[-1]), made[-1].ty))
        return N, V.T, st
    I.hooks["build_nodes_and_connect_links"] = build
    f = p.method("StringGraph", "new")
    R = call(ctx, f, [None, L], interp=I)
    ctx.true("string-graph/once", made == [L], f"{len(made)} times", R.loc)
    l, n = get(ctx, I, R.ret, "StringGraph", "links"), get(ctx, I, R.ret, "StringGraph", "nodes")
    ctx.true("string-graph/links", l.k == "app" and l.a[0] == "joined" and l.a[1] is L, f"the links kept are {V.show(l)[:200]}", R.loc)
    forms = scev.closed(I, R.loops)
    B = seqs.built(I, forms, n)
    ctx.eq("string-graph/count", B.trip, I.seq_len(N), V.T, R.loc)
    ctx.eq("string-graph/fresh", I.seq_len(B.base), V.ZERO, V.T, R.loc)
    ctx.true("string-graph/one-each", len(B.items) == 1, f"{len(B.items)} entries per node", R.loc)
    for c, x in B.items:
        node = I.expand(I.seq_get(N, B.K))
        two, many = V.eq(node.a[1], V.ZERO), V.eq(node.a[1], V.ONE)
        pair, rest = node.a[2][0], node.a[3][0]
        y = V.restrict(x, two)
        ctx.eq("string-graph/pair", I.seq_len(y), V.num(2), conj(c, two), R.loc)
        for j in (V.ZERO, V.ONE):
            ctx.eq("string-graph/pair", I.seq_get(y, j), I.seq_get(pair, j), conj(c, two), R.loc)
        ctx.eq("string-graph/cross", V.restrict(x, many), rest, conj(c, many), R.loc)
