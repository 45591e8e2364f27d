"""Contours enter as closed chains.  The function that adds a contour is interpreted with an arbitrary
iterator.  For each of its loops an invariant 'edges pushed so far + these pending edges = the polyline
of the points consumed so far, up to flat triangles' is found among the values alive at the loop head and
proved inductive; after the loops the pushed edges must equal the pending ones plus the closing edge.
Edges are formal pairs of points, so a lost, added or reversed edge leaves an open end or a triangle."""
from .lib import *
import scev
import seqs
import chains
import models
from chains import Facts, paths


def run(ctx):
    p = ctx.prog
    fs = [f for f in p.fns if f["m"] == "append_path_iter" and f["id"] in p.bodies]
    ctx.true("found", len(fs) >= 1, "no implementation of append_path_iter")
    for f in fs:
        with ctx.case("contour"):
            contour(ctx, f)
    adders(ctx)
    ctx.floor(90)


class Edges:
    """oriented end points of pushed segments"""

    def __init__(self, ctx, I, shape):
        self.ctx, self.I = ctx, I

    def role(self, leaf):
        """+1: the count of the given direction, -1: the opposite one"""
        if leaf.k == "undef":
            return 1
        if leaf.k == "app" and leaf.a[0] == "f" and is_pair(leaf.a[1]):
            return 1 if leaf.a[2] in (0, "0") else -1
        if leaf.k == "app" and leaf.a[0] == "ret" and str(leaf.a[1]).endswith("::invert"):
            x = leaf.a[2]
            if x.k == "app" and x.a[0] == "f" and is_pair(x.a[1]):
                return -1 if x.a[2] in (0, "0") else 1
        raise Bad(f"an edge carries the count {V.show(leaf)[:120]}, which is neither the one of its direction nor the opposite")

    def of(self, seg):
        ctx, I = self.ctx, self.I
        xs = get(ctx, I, seg, "Segment", "x_segment")
        a, b = get(ctx, I, xs, "XSegment", "a"), get(ctx, I, xs, "XSegment", "b")
        direct = V.apply(("role", id(ctx)), lambda x: V.const(self.role(x) > 0), get(ctx, I, seg, "Segment", "count"))
        A, B = P2(I, a), P2(I, b)
        return ((V.ite(direct, A.x, B.x), V.ite(direct, A.y, B.y)), (V.ite(direct, B.x, A.x), V.ite(direct, B.y, A.y)))


def is_pair(v):
    return v.k == "app" and v.a[0] == "ret" and str(v.a[1]).endswith("::with_shape_type")


def contour(ctx, f):
    p = ctx.prog
    I = Interp(p)
    r = call(ctx, f, interp=I)
    E = Edges(ctx, I, None)
    tops = [l for l in sorted(r.loops, key=lambda l: l.id)]
    if any(l.parent is not None for l in tops):
        raise Bad("nested loops", r.loc)
    its = {}
    for e in r.events:
        for t in terms_of(*[x for x in (e.pc,) + tuple(e.data) if isinstance(x, V.N)]):
            if t.k == "app" and t.a[0] == "items":
                its[t.id] = t
    if len(its) != 1:
        raise Bad(f"expected one source of points, found {len(its)}", r.loc)
    items, = its.values()
    n = I.seq_len(items)
    at = lambda k: tuple(I.field(I.seq_get(items, k), c) for c in (0, 1))
    first = at(V.ZERO)
    pushes = [e for e in r.events if e.kind == "push"]
    inside = {l.id: [] for l in tops}
    after = []
    for e in pushes:
        if e.loops:
            if after:
                raise Bad("edges are added between two loops", r.loc)
            inside[e.loops[0].id].append(e)
        else:
            after.append(e)
    ctx.true("some-edges", bool(after) or any(inside.values()), "no edge is ever added", r.loc)

    prev = None
    for l in tops:
        L = Head(ctx, I, l, items)
        cand = candidates(L)
        lasts = [v for v in cand if last_ok(I, L, v, at, prev, first)]
        if not lasts:
            raise Bad(f"no value keeps the last point read in the loop at line {l.line}", r.loc)
        L.last = lasts[0]
        why = []
        for extra in [None] + cand:
            for x in cand:
                phi = [(x, L.last)] + ([(first, extra)] if extra is not None else [])
                w = holds(I, E, L, phi, at, prev, first, inside[l.id])
                if w is None:
                    L.phi = phi
                    break
                why.append(w)
            if L.phi:
                break
        if not L.phi:
            best = max(why, key=lambda w: w[0])
            ctx.record(f"loop-{l.id}/keeps-the-chain", False, best[1], f"{r.loc.split(':')[0]}:{l.line}")
            return
        ctx.record(f"loop-{l.id}/keeps-the-chain", True)
        L.grows = conj(V.ge(L.idx, L.idx0), prev.grows if prev else V.T)
        prev = L
    # nothing is left unread
    if prev is None:
        raise Bad("the points are not read in a loop", r.loc)
    early = disj(*[V.b_and(pc, V.lt(prev.idx, n)) for _, pc, _ in prev.lp.exits])
    ctx.true("reads-every-point", compare.possible(early) is None, "the last loop can end with points left", r.loc)
    # the end
    care = conj(prev.lp.entry_pc, prev.grows, disj(*[pc for _, pc, _ in prev.lp.exits]))
    edges, guards = [], []
    for e in after:
        u, v = E.of(e.data[1])
        edges.append((e.pc, u, v))
    bad = check_sum(I, edges, prev.phi + [(prev.last, first)], conj(care, V.ge(n, V.num(2))), distinct=True)
    ctx.true("closed", bad is None, bad, r.loc)
    short = disj(*[e.pc for e in after]) if after else V.F
    ctx.true("nothing-for-short-contours", compare.possible(conj(short, V.lt(n, V.num(2)))) is None, "edges are added for fewer than two points", r.loc)
    for l in tops:
        bad = None
        es = [(e.pc,) + E.of(e.data[1]) for e in inside[l.id]]
        for c, u, v in es:
            w = never_empty(I, c, u, v)
            bad = bad or w
        ctx.true(f"loop-{l.id}/edges-have-two-ends", bad is None, bad, r.loc)


class Head:
    """a loop head: values alive there and how an iteration changes them"""

    def __init__(self, ctx, I, lp, items):
        self.lp, self.I = lp, I
        self.phi = self.last = None
        self.init, self.next = {}, {}
        idx = []
        for key, (ph, init) in lp.phis.items():
            if ph.k == "p":
                t = pt(ph)
                self.init[t], self.next[t] = init, lp.nexts[key]
                d = V.sub(lp.nexts[key], ph)
                if all(V.pconst(x) in (0, 1) for x in V.leafset(d) if x.k != "undef"):
                    idx.append((key, ph, init, lp.nexts[key]))
            else:
                self.init[ph.id], self.next[ph.id] = init, lp.nexts[key]
        idx = [k for k in idx if uses(lp, items, k[1])]
        if len(idx) != 1:
            raise Bad(f"the position in the point list is not recognised in the loop at line {lp.line}")
        _, self.idx, self.idx0, self.idx1 = idx[0]
        self.S0, self.S1 = scev.Subst(I, self.init), scev.Subst(I, self.next)
        self.at0 = lambda pt_: tuple(self.S0(c) for c in pt_)
        self.at1 = lambda pt_: tuple(self.S1(c) for c in pt_)


def uses(lp, items, ph):
    vals_ = [lp.cont] + list(lp.nexts.values()) + [pc for _, pc, _ in lp.exits]
    for t in terms_of(*vals_):
        if t.k == "app" and t.a[0] == "sel" and t.a[1].id == items.id and t.a[2].id == ph.id:
            return True
        if t.k == "p":
            continue
    n = V.pvar(mk("app", ("len", items), ("int", "usize")))
    for v in vals_:
        for g in gates(v):
            if g.key[0] == "sgn" and pt(ph) in [i for m, _ in V._nodes[g.key[1]].a for i in m]:
                return True
    return False


def gates(v):
    seen, st, out = set(), [v], []
    while st:
        x = st.pop()
        if x.id in seen or x.k != "ite":
            continue
        seen.add(x.id)
        out.append(x.a[0])
        st += x.a[1:]
    return out


def pt(ph):
    (m, c), = ph.a
    return m[0]


def candidates(L):
    """points alive at the loop head"""
    out = []
    I = L.I
    for _, pc, st in L.lp.exits:
        for root in list(st):
            if root[0] not in ("L", "P"):
                continue
            v = st[root]
            if not isinstance(v, V.N) or v.k == "undef":
                continue
            if v.k == "struct" and str(v.a[0]).endswith("IntPoint") or v.ty == POINT:
                xy = tuple(I.field(v, c) for c in (0, 1))
                if not any(x.k == "undef" or any(y.k == "undef" for y in V.leafset(x)) for x in xy):
                    out.append(xy)
        groups = {}
    for key, (ph, init) in L.lp.phis.items():
        root, path = key
        if path and path[-1] in (("f", 0), ("f", 1)):
            L_ = L.lp.phis
            k0, k1 = (root, path[:-1] + (("f", 0),)), (root, path[:-1] + (("f", 1),))
            if k0 in L_ and k1 in L_ and path[-1] == ("f", 0):
                out.append((L_[k0][0], L_[k1][0]))
    return list(dict.fromkeys(out))


def agree(p, q, care):
    return all(compare.difference(a, b, care) is None for a, b in zip(p, q))


def last_ok(I, L, v, at, prev, first):
    one = V.num(1)
    if not agree(L.at0(v), at(V.sub(L.idx0, one)), L.lp.entry_pc) and not agree_prev(L, v, at, prev):
        return False
    moved = V.eq(L.idx1, V.add(L.idx, one))
    return agree(L.at1(v), at(L.idx), V.b_and(L.lp.cont, moved)) and agree(L.at1(v), v, V.b_and(L.lp.cont, V.eq(L.idx1, L.idx)))


def agree_prev(L, v, at, prev):
    """the last point read, knowing that prev.last was it at the previous loop head"""
    if prev is None:
        return False
    stay = V.eq(L.idx0, prev.idx)
    step = V.eq(L.idx0, V.add(prev.idx, V.ONE))
    e = L.lp.entry_pc
    if compare.possible(conj(e, V.b_not(disj(stay, step)))) is not None:
        return False
    return agree(L.at0(v), prev.last, conj(e, stay)) and agree(L.at0(v), at(prev.idx), conj(e, step))


def holds(I, E, L, phi, at, prev, first, pushes):
    """None, or (progress, reason)"""
    # entry
    if prev is None:
        for k in (0, 1, 2, 3):
            read = [(at(V.num(i)), at(V.num(i + 1))) for i in range(k - 1)]
            w = check_sum(I, [(V.T, L.at0(u), L.at0(v)) for u, v in phi], read, conj(L.lp.entry_pc, V.eq(L.idx0, V.num(k))))
            if w:
                return 0, "at its start: " + w
        if compare.possible(conj(L.lp.entry_pc, V.gt(L.idx0, V.num(3)))):
            return 0, "too many points are read before the loop"
    else:
        for k, read in ((V.ZERO, []), (V.ONE, [(prev.last, at(prev.idx))])):
            w = check_sum(I, [(V.T, L.at0(u), L.at0(v)) for u, v in phi], prev.phi + read, conj(L.lp.entry_pc, V.eq(V.sub(L.idx0, prev.idx), k)))
            if w:
                return 0, "at its start: " + w
    edges = [(e.pc,) + E.of(e.data[1]) for e in pushes]
    for k, read in ((V.ZERO, []), (V.ONE, [(L.last, at(L.idx))])):
        w = check_sum(I, edges + [(V.T, L.at1(u), L.at1(v)) for u, v in phi], phi + read, conj(L.lp.cont, V.eq(V.sub(L.idx1, L.idx), k)))
        if w:
            return 1, "in an iteration: " + w
    # an iteration that leaves the loop has not added an edge
    for _, pc, _ in L.lp.exits:
        for e in pushes:
            if compare.possible(conj(pc, e.pc)):
                return 1, "an edge is added and the loop left"
    return None


def check_sum(I, got, want, care, distinct=False):
    """got: [(condition, u, v)], want: [(u, v)]; None if equal up to flat triangles wherever care holds"""
    if care is V.F:
        return None
    nodes = []
    for c, u, v in got:
        nodes += [(V.T, c), (c, u[0]), (c, u[1]), (c, v[0]), (c, v[1])]
    for u, v in want:
        nodes += [(V.T, x) for x in u + v]
    try:
        for lits, lin, ns in paths(nodes, care):
            if not lin.feasible():
                continue
            vs = [x for _, x in ns]
            es = []
            for k in range(len(got)):
                c, a, b, d, e = vs[5 * k:5 * k + 5]
                if c is V.T:
                    es.append(((a, b), (d, e), 1))
            rest = vs[5 * len(got):]
            ws = [((rest[4 * k], rest[4 * k + 1]), (rest[4 * k + 2], rest[4 * k + 3]), -1) for k in range(len(want))]
            if any(y.k != "p" for u, v, _ in es + ws for y in u + v):
                return "a coordinate is not known: when " + compare.show_path(lits)
            F = Facts([x for u, v, _ in es + ws for x in (u, v)], lits, lin)
            if F.contradiction:
                continue
            w = F.vanishes(es + ws)
            if w:
                return w + "; when " + compare.show_path(lits)
            if distinct:
                for u, v, _ in es:
                    if not F.distinct(u, v):
                        return f"an edge without length may be added; when {compare.show_path(lits)}"
    except chains.Stuck as e:
        return str(e)
    return None


def never_empty(I, c, u, v):
    nodes = [(V.T, c), (c, u[0]), (c, u[1]), (c, v[0]), (c, v[1])]
    for lits, lin, ns in paths(nodes, c):
        a, b, d, e = [x for _, x in ns[1:]]
        # corners of a turn are distinct
        pts = [(a, b), (d, e)] + third(lits, (a, b), (d, e))
        F = Facts(pts, lits, lin)
        if not F.contradiction and not F.distinct((a, b), (d, e)):
            return "an edge without length may be added; when " + compare.show_path(lits)
    return None


def third(lits, p, q):
    """points r for which an orientation gate of p, q, r has been passed"""
    out = []
    terms = set()
    for at, i in lits:
        if at.key[0] == "sgn":
            for m, _ in V._nodes[at.key[1]].a:
                terms |= set(m)
    xs = [V.pvar(V.node(t)) for t in terms]
    ok = []
    for at, i in lits:
        if at.key[0] != "sgn":
            continue
        g = V._nodes[at.key[1]]
        for x in xs:
            for y in xs:
                c = chains.cross(p, q, (x, y))
                if c.id == g.id or V.neg(c).id == g.id:
                    ok.append((x, y))
    return ok


# (type, method, [(what the argument holds, role)]); depth 0: a contour, 1: contours, 2: shapes
SUBJ, CLIP = "Subject", "Clip"
ROUTES = [
    ("Overlay", "add_path_iter", [("it", None)]),
    ("Overlay", "add_contour", [(0, None)]),
    ("Overlay", "add_contours", [(1, None)]),
    ("Overlay", "add_shape", [(1, None)]),
    ("Overlay", "add_shapes", [(2, None)]),
    ("Overlay", "with_contour", [(0, SUBJ), (0, CLIP)]),
    ("Overlay", "with_contours", [(1, SUBJ), (1, CLIP)]),
    ("Overlay", "with_shapes", [(2, SUBJ), (2, CLIP)]),
    ("StringOverlay", "add_shape_contour_iter", [("it", SUBJ)]),
    ("StringOverlay", "add_shape_contour", [(0, SUBJ)]),
    ("StringOverlay", "add_shape_contours", [(1, SUBJ)]),
    ("StringOverlay", "add_shapes", [(2, SUBJ)]),
    ("StringOverlay", "with_shape_contour", [(0, SUBJ)]),
    ("StringOverlay", "with_shape_contours", [(1, SUBJ)]),
    ("StringOverlay", "with_shape", [(1, SUBJ)]),
    ("StringOverlay", "with_shapes", [(2, SUBJ)]),
]


def adders(ctx):
    p = ctx.prog
    for ty, m, want in ROUTES:
        with ctx.case(f"{ty}.{m}"):
            route(ctx, p.method(ty, m), f"{ty}.{m}", want)


def route(ctx, f, tag, want):
    p = ctx.prog

    k_ = nat("k", 0, None, "usize")

    def on_path(I, f_, args, tys, dty, st, line):
        # the points handed over: how many, and the k-th
        n, x = None, None
        if args[1].k != "v":
            n = models.length(I, st, args[1])
            d = models.advance(I, args[1], k_)
            o = models.next_(I, st, d) if n is not None and d is not None else None
            x = models.payload(o[0]) if o is not None else None
        I.event("path", (args[1], args[2], n if n is not None else V.UNDEF, x if x is not None else V.UNDEF), line)
        return mk("struct", ("()",)), V.T, st
    I = Interp(p, hooks={"append_path_iter": on_path})
    b = p.bodies[f["id"]]
    names = {}
    vals_ = []
    ins = []
    for i in range(1, b["argc"] + 1):
        ty = p.ty(b["locals"][i])
        while ty[0] == "ref":
            ty = ty[1]
        v = None
        if is_list(p, ty):
            v = mk("v", (f"in{len(ins)}",), ty)
            ins.append(v)
        elif ty[0] == "param":
            v = mk("v", (f"in{len(ins)}",), ty)
            ins.append(v)
        vals_.append(v)
    r = call(ctx, f, vals_, interp=I)
    role = None
    for i in range(b["argc"]):
        ty = p.ty(b["locals"][i + 1])
        if ty[0] == "adt" and ty[1].endswith("ShapeType"):
            role = r.args[i]
    if len(ins) != len(want):
        raise Bad(f"{len(ins)} inputs, expected {len(want)}", r.loc)
    forms = scev.closed(I, r.loops)
    evs = [e for e in r.events if e.kind == "path"]
    ctx.true(tag + "/one-each", len(evs) == len(want), f"{len(evs)} calls add a path", r.loc)
    for k, ((depth, shape), e, src) in enumerate(zip(want, evs, ins)):
        S = at_event(I, forms, e)
        loops = [forms[l.id] for l in e.loops if l.id in forms]
        d = 0 if depth == "it" else depth
        if len(loops) != d or any(c.trip is None for c in loops):
            raise Bad(f"expected {d} loop(s) around the call that adds a path", r.loc)
        cur = src
        care = V.T
        for c in loops:
            n = I.seq_len(cur)
            ctx.eq(f"{tag}/{k}/every-one", S(c.trip), n, care, r.loc)
            care = conj(care, V.ge(c.K, V.ZERO), V.lt(c.K, n))
            cur = I.seq_get(cur, c.K)
        ctx.eq(f"{tag}/{k}/always", S(e.pc), V.T, care, r.loc)
        ctx.eq(f"{tag}/{k}/role", S(e.data[1]), enum_of(ctx, I, "ShapeType", shape) if shape else role, care, r.loc)
        if depth == "it":
            ctx.true(f"{tag}/{k}/points", e.data[0] is cur, f"passes {V.show(e.data[0])[:200]}", r.loc)
        else:
            n = I.seq_len(cur)
            ctx.eq(f"{tag}/{k}/number-of-points", S(e.data[2]), n, care, r.loc)
            ctx.eq(f"{tag}/{k}/points", S(e.data[3]), I.seq_get(cur, k_), conj(care, V.lt(k_, n)), r.loc)


def is_list(p, ty):
    return ty[0] in ("slice", "array") or ty[0] == "adt" and ty[1].endswith("vec::Vec") and not p.ty_str(ty).endswith("Segment")
