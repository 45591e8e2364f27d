"""Offset edges form closed rings along the paths.

Every building block of strokes and outlines (sections, joins, caps) is interpreted with arbitrary sections and with
rounding to the grid as an uninterpreted function.  The edges it adds are summed as formal pairs of points: whatever the
turn, the sum has to run between the corners the block is responsible for, through the corner points its style asks for,
and no edge may be without length.  Loops are covered by an invariant: the chain so far ends at the point carried along."""
from .lib import *
import scev
import bounds
import seqs
import chains
from . import c24

from fractions import Fraction

HALF = Fraction(1, 2)
I32 = ("int", "i32")
TT = ("param", "T")
F64 = ("float", "f64")
SIDES = ("a_top", "b_top", "a_bot", "b_bot")


def fvar(n):
    return V.pvar(V.var(n, TT))


def run(ctx):
    for mod in ("stroke", "outline"):
        G = Geo(ctx, mod)
        with ctx.case(f"{mod}/section"):
            G.section_new()
        with ctx.case(f"{mod}/section-edges"):
            G.section_edges()
        G.made()
        G.rooms()
        with ctx.case(f"{mod}/capacity"):
            G.capacities()
        for join in ("Bevel", "Miter", "Round"):
            with ctx.case(f"{mod}/{join}"):
                getattr(G, join.lower())()
    G = Geo(ctx, "stroke")
    for end in ("start", "end"):
        with ctx.case(f"cap/{end}"):
            G.cap(end)
    G.cap_points()
    with ctx.case("stroke/dispatch"):
        G.dispatch()
    with ctx.case("stroke/open"):
        G.open_path()
    with ctx.case("stroke/closed"):
        G.closed_path("closed_segments")
    with ctx.case("stroke/next-unique"):
        G.next_unique()
    G = Geo(ctx, "outline")
    with ctx.case("outline/closed"):
        G.closed_path("build", "OutlineBuild")
    with ctx.case("outline/next-unique"):
        G.next_unique()
    with ctx.case("StrokeOffset"):
        whole_stroke(ctx)
    with ctx.case("OutlineOffset"):
        whole_outline(ctx)
    for trait, m in (("StrokeOffset", "stroke"), ("OutlineOffset", "outline")):
        with ctx.case(f"{trait}.{m}"):
            short(ctx, trait, m)
    ctx.floor(150)


def grid(x, y):
    return mk("struct", (POINT[1], V.lapp("grid_x", x, y, ty=I32), V.lapp("grid_y", x, y, ty=I32)))


def add(a, b):
    return (V.add(a[0], b[0]), V.add(a[1], b[1]))


def sub(a, b):
    return (V.sub(a[0], b[0]), V.sub(a[1], b[1]))


def scale(a, k):
    return (V.mul(a[0], k), V.mul(a[1], k))


def rot(a, c, s):
    return (V.sub(V.mul(c, a[0]), V.mul(s, a[1])), V.add(V.mul(s, a[0]), V.mul(c, a[1])))


def dotp(a, b):
    return V.add(V.mul(a[0], b[0]), V.mul(a[1], b[1]))


def crossp(a, b):
    return V.sub(V.mul(a[0], b[1]), V.mul(a[1], b[0]))


def G2(q):
    """the grid point of a pair of coordinates, as a pair"""
    g = grid(*q)
    return (g.a[1], g.a[2])


def eqp(p, q):
    return conj(V.eq(p[0], q[0]), V.eq(p[1], q[1]))


def implied(care, nodes):
    """care together with what it implies about the tests in nodes"""
    ats, seen = {}, set()

    def go(n):
        if n.k == "ite" and n.id not in seen:
            seen.add(n.id)
            ats[n.a[0].ord] = n.a[0]
            for k in n.a[1:]:
                go(k)
    for n in nodes:
        go(n)
    for o in sorted(ats):
        for i in range(ats[o].arity):
            g = V.ite_node(ats[o], [V.const(j == i) for j in range(ats[o].arity)])
            if conj(care, g) is not V.F and compare.possible(conj(care, g)) is None:
                care = conj(care, V.b_not(g))
    return care


def total(got, want, care, exact):
    """got: [(condition, u, v)] added edges; want: [(u, v)].  exact: equal as chains up to flat triangles, otherwise only the
    open ends have to agree"""
    if care is V.F:
        return None
    care = implied(care, [x for c, u, v in got for x in (c,) + u + v])
    for c, u, v in got:
        c = V.restrict(c, care)
        x = compare.possible(conj(c, care, eqp(u, v)))
        if x is not None:
            return f"an edge without length may be added: {V.show(u[0])[:80]} to {V.show(v[0])[:80]}"
    # whether an edge between equal points is added makes no difference to the sum
    got = [(V.restrict(c, V.b_not(eqp(u, v))), u, v) for c, u, v in got if conj(c, care) is not V.F]
    cut = lambda q: tuple(V.restrict(x, care) for x in q)
    got = [(V.restrict(c, care), cut(u), cut(v)) for c, u, v in got]
    want = [(cut(u), cut(v)) for u, v in want]
    nodes = []
    for c, u, v in got:
        nodes += [(V.T, c), (c, u[0]), (c, u[1]), (c, v[0]), (c, v[1])]
    for u, v in want:
        nodes += [(V.T, x) for x in u + v]
    try:
        for lits, lin, ns in chains.paths(nodes, care):
            if not lin.feasible():
                continue
            vs = [x for _, x in ns]
            es = []
            for k in range(len(got)):
                c, a, b, d, e = vs[5 * k:5 * k + 5]
                if c is V.T:
                    es.append(((a, b), (d, e), 1))
            rest = vs[5 * len(got):]
            ws = [((rest[4 * k], rest[4 * k + 1]), (rest[4 * k + 2], rest[4 * k + 3]), -1) for k in range(len(want))]
            if any(y.k != "p" for u, v, _ in es + ws for y in u + v):
                return "a coordinate is not known: when " + compare.show_path(lits)
            F = chains.Facts([x for u, v, _ in es + ws for x in (u, v)], lits, lin)
            if F.contradiction:
                continue
            if exact:
                w = F.vanishes(es + ws)
            else:
                bd = {}
                for (i, j), k in F.net(es + ws).items():
                    bd[j] = bd.get(j, 0) + k
                    bd[i] = bd.get(i, 0) - k
                w = "the chain is open at " + ", ".join(F.show(i) for i, k in bd.items() if k) if any(bd.values()) else None
            if w:
                return w + "; when " + compare.show_path(lits)
    except chains.Stuck as e:
        return str(e)
    return None


class Geo:
    def __init__(self, ctx, mod):
        self.ctx, self.mod, self.p = ctx, mod, ctx.prog
        self.r = fvar("radius")

    def fn(self, ty, m, trait=None):
        p = self.p
        out = [f for f in p.fns if f["m"] == m and f["id"] in p.bodies and f["self"] is not None and f"::mesh::{self.mod}::" in f["n"]
               and (p.ty_is(p.ty(f["self"]), ty) or ty == "Vec" and p.ty_str(p.ty(f["self"])).startswith("Vec<"))
               and (trait is None or (f["trait"] or "").split("::")[-1].split("<")[0] == trait)]
        if len(out) != 1:
            raise Bad(f"{ty}::{m} of {self.mod}: found {[f['n'] for f in out]}")
        return out[0]

    def adt(self, name):
        hits = [k for k in self.p.adts if k.split("::")[-1] == name and f"::mesh::{self.mod}::" in k]
        if len(hits) != 1:
            raise Bad(f"type {name} of {self.mod}: found {hits}")
        return hits[0]

    def interp(self):
        def to_int(I, fn, args, tys, dty, st, line):
            q = I.contents(st, args[1])
            q = q.a[1] if q.k == "app" and q.a[0] == "&" else q
            return grid(*self.xy(I, q)), V.T, st
        return Interp(self.p, hooks={"float_to_int": to_int})

    def xy(self, I, q):
        if q.k != "struct":
            q = I.expand(q)
        if q.k == "struct":
            return (q.a[1], q.a[2])
        return (I.field(q, 0), I.field(q, 1))

    def section(self, I, name):
        """an arbitrary section: (value, {field: coordinates})"""
        n, fs = fields_of(self.ctx, self.adt("Section"))
        c = {f: (fvar(f"{name}.{f}.x"), fvar(f"{name}.{f}.y")) for f in fs if f != "_phantom"}
        return mk("struct", (n,) + tuple(I.point(*c[f]) if f in c else mk("struct", ("()",)) for f in fs)), c

    # ---- the edges a block adds
    def edges(self, R, segs_root):
        """[(event, condition, from, to)], after checking that nothing else happens to the list"""
        I = self.I = R.I
        by = {ph.id: (l, key, init) for l in R.loops for key, (ph, init) in l.phis.items()}
        seen = set()

        def plain(v):
            if v.id in seen:
                return
            seen.add(v.id)
            for l in V.leafset(v):
                if l.k == "app" and l.a[0] == "push":
                    plain(l.a[1])
                elif l.id in by:
                    lp, key, init = by[l.id]
                    plain(init)
                    if key in lp.nexts:
                        plain(lp.nexts[key])
                elif l.k != "undef" and not (l.k == "v" and l.a[0] == "segments"):
                    raise Bad(f"the list of edges becomes {V.show(l)[:200]}", R.loc)
        plain(R.st[segs_root])
        out = []
        for e in R.events:
            if e.kind == "push" and e.data[0].k == "ref" and e.data[0].a[0] == segs_root:
                into = [c for l in e.loops for c in (l.entry_pc,) + tuple(l.entry_ctx)]
                out.append((e, conj(e.pc, *into)) + self.ends(e.data[1]))
            elif e.kind in ("extend", "drain", "remove", "truncate", "clear") and e.data and e.data[0].k == "ref" and e.data[0].a[0] == segs_root:
                raise Bad(f"the list of edges is changed by {e.kind}", R.loc)
        return out

    def ends(self, seg):
        ctx, I = self.ctx, self.I
        xs = get(ctx, I, seg, "Segment", "x_segment")
        a, b = P2(I, get(ctx, I, xs, "XSegment", "a")), P2(I, get(ctx, I, xs, "XSegment", "b"))
        n = get(ctx, I, get(ctx, I, seg, "Segment", "count"), "OffsetCountBoolean", "subj")

        def role(x):
            k = V.pconst(x) if x.k == "p" else None
            if k not in (1, -1):
                raise Bad(f"an edge counts {V.show(x)[:80]} times")
            return V.const(k == 1)
        d = V.apply(("offset role", id(self)), role, n)
        return (V.ite(d, a.x, b.x), V.ite(d, a.y, b.y)), (V.ite(d, b.x, a.x), V.ite(d, b.y, a.y))

    def bold(self, e):
        return get(self.ctx, self.I, get(self.ctx, self.I, e.data[1], "Segment", "count"), "OffsetCountBoolean", "bold")

    def block(self, f, given):
        """interpret f with values by type name: {"Section": [..], self: ..}; returns (run, edges)"""
        ctx, p = self.ctx, self.p
        I = given["I"]
        b = p.bodies[f["id"]]
        vals, names = [], []
        secs = list(given.get("sections", ()))
        root = None
        for i in range(1, b["argc"] + 1):
            t = p.ty(b["locals"][i])
            while t[0] == "ref":
                t = t[1]
            s = p.ty_str(t)
            if t[0] == "adt" and t[1].split("::")[-1] == "Section":
                vals.append(secs.pop(0))
            elif s.startswith("Vec<Segment") or s.startswith("[Segment"):
                vals.append(mk("v", ("segments",), t))
                root = i - 1
            elif s.startswith("FloatPointAdapter"):
                vals.append(None)
            else:
                vals.append(given.get("self"))
            names.append(None)
        if root is None or secs:
            raise Bad(f"{f['n']} does not take the list of edges and the sections")
        R = call(ctx, f, vals, interp=I)
        return R, self.edges(R, R.roots[root])

    # ---- sections
    def section_new(self):
        ctx = self.ctx
        I = self.interp()
        a, b = (fvar("a.x"), fvar("a.y")), (fvar("b.x"), fvar("b.y"))
        f = self.fn("Section", "new")
        body = self.p.bodies[f["id"]]
        n_ref = [i for i in range(1, body["argc"] + 1) if self.p.ty(body["locals"][i])[0] == "ref"]
        vals = [self.r] * body["argc"]
        for i, v in zip(n_ref, (a, b)):
            vals[i - 1] = I.point(*v)
        R = call(ctx, f, vals, interp=I)
        d = sub(b, a)
        k = I.inv(V.lapp("sqrt", dotp(d, d), ty=TT))
        d = scale(d, k)
        t = scale((V.neg(d[1]), d[0]), self.r)
        want = {"a": a, "b": b, "dir": d, "a_top": add(a, t), "b_top": add(b, t), "a_bot": sub(a, t), "b_bot": sub(b, t)}
        n, fs = fields_of(ctx, self.adt("Section"))
        for x in fs:
            if x in want:
                ctx.eq(f"{self.mod}/section/{x}", self.I_point(I, I.field(R.ret, fs.index(x))), I.point(*want[x]), loc=R.loc)

    def I_point(self, I, q):
        return I.point(*self.xy(I, q))

    def section_edges(self):
        ctx, I = self.ctx, self.interp()
        s, c = self.section(I, "s")
        R, es = self.block(self.fn("Vec", "add_section"), {"I": I, "sections": [s]})
        g = {k: G2(v) for k, v in c.items()}
        want = [(g["b_top"], g["a_top"]), (g["a_bot"], g["b_bot"])] if self.mod == "stroke" else [(g["a_top"], g["b_top"])]
        self.straight(f"{self.mod}/section-edges", R, es, want)
        for e, pc, *_ in es:
            ctx.eq(f"{self.mod}/section-edges/bold", self.bold(e), V.T, pc, R.loc)

    def straight(self, key, R, es, want, care=V.T, exact=True):
        if any(e.loops for e, *_ in es):
            raise Bad("edges are added in a loop", R.loc)
        w = total([(c, u, v) for _, c, u, v in es], want, care, exact)
        self.ctx.true(key + "/" + ("chain" if exact else "ends"), w is None, w or "", R.loc)

    # ---- joins
    def corners(self, I):
        s0, c0 = self.section(I, "s0")
        s1, c1 = self.section(I, "s1")
        g0, g1 = {k: G2(v) for k, v in c0.items()}, {k: G2(v) for k, v in c1.items()}
        if self.mod == "stroke":
            ends = {"top": (g1["a_top"], g0["b_top"]), "bot": (g0["b_bot"], g1["a_bot"])}
        else:
            ends = {"top": (g0["b_top"], g1["a_top"])}
        return s0, c0, s1, c1, ends

    def builder(self, I, name, *args):
        f = self.fn(name, "new")
        return I.expand(call(self.ctx, f, list(args), interp=I).ret)

    def bevel(self):
        I = self.interp()
        s0, c0, s1, c1, ends = self.corners(I)
        R, es = self.block(self.fn("BevelJoinBuilder", "add_join"), {"I": I, "sections": [s0, s1]})
        self.straight(f"{self.mod}/bevel", R, es, list(ends.values()))

    def turns(self, c0, c1):
        """[(name, condition, outer side, its corners and directions from s0 to s1)], away from going straight on"""
        cr = crossp(c0["dir"], c1["dir"])
        if self.mod == "stroke":
            return cr, [("left", V.gt(cr, V.ZERO), "bot", "top"), ("right", V.lt(cr, V.ZERO), "top", "bot")]
        # the side of an outline is the one its radius points to
        return cr, [(f"{side}-{way}", conj(f(cr, V.ZERO), g(self.r, V.ZERO)), outer, inner)
                    for side, way, f, g, outer, inner in (("outer", "left", V.gt, V.lt, "top", None), ("outer", "right", V.lt, V.gt, "top", None),
                                                          ("inner", "left", V.gt, V.gt, None, "top"), ("inner", "right", V.lt, V.lt, None, "top"))]

    def miter(self):
        ctx, I = self.ctx, self.interp()
        s0, c0, s1, c1, ends = self.corners(I)
        angle = fvar("angle")
        key = f"{self.mod}/miter"
        f = self.fn("MiterJoinBuilder", "add_join")
        R, es = self.block(f, {"I": I, "sections": [s0, s1]})
        self.straight(key, R, es, list(ends.values()), exact=False)
        me = self.builder(I, "MiterJoinBuilder", angle, self.r)
        R, es = self.block(f, {"I": I, "sections": [s0, s1], "self": me})
        cr, turns = self.turns(c0, c1)
        far = conj(V.gt(V.mul(V.num(100), V.absv(cr)), V.ONE), V.gt(angle, V.ONE), V.gt(self.r, V.ZERO) if self.mod == "stroke" else V.T)
        limited = V.lt(dotp(c0["dir"], c1["dir"]), V.neg(V.lapp("cos", angle, ty=F64)))
        length = V.mul(V.absv(self.r), I.inv(V.lapp("tan", V.mul(V.num(HALF), angle), ty=F64)))
        for name, cond, outer, inner in turns:
            fixed = [ends[inner]] if inner else []
            if outer is None:
                self.straight(f"{key}/{name}", R, es, fixed, conj(far, cond))
                continue
            p0, p1 = c0["b_" + outer], c1["a_" + outer]
            d0, d1 = c0["dir"], c1["dir"]
            back = self.mod == "stroke" and outer == "top"
            q0, q1 = add(p0, scale(d0, length)), sub(p1, scale(d1, length))
            dx = sub(G2(p0), G2(p1))
            apart = conj(V.ge(dotp(dx, dx), V.num(4)), V.b_not(eqp(G2(p0), G2(p1))))
            care = conj(far, cond, apart)
            self.straight(f"{key}/{name}/cut", R, es, fixed + line(back, p0, q0, q1, p1), conj(care, limited))
            w = None
            xx, yy = add(d0, d1)
            k = V.ite(V.gt(V.absv(xx), V.absv(yy)), V.mul(V.sub(p1[0], p0[0]), I.inv(xx)), V.mul(V.sub(p1[1], p0[1]), I.inv(yy)))
            care = conj(care, V.b_not(limited), V.ne(V.absv(xx), V.absv(yy)))
            for c in (add(p0, scale(d0, k)), sub(p1, scale(d1, k))):
                w = total([x[1:] for x in es], fixed + line(back, p0, c, p1), care, True)
                if w is None:
                    break
            ctx.true(f"{key}/{name}/corner", w is None, w or "", R.loc)
        self.bold_outside(key, R, es, turns, far)

    def bold_outside(self, key, R, es, turns, care):
        for n, (e, pc, *_) in enumerate(es):
            if self.mod == "stroke":
                self.ctx.eq(f"{key}/bold-{n}", self.bold(e), V.T, conj(pc, care), R.loc)
            else:
                for name, cond, outer, inner in turns:
                    if inner:
                        self.ctx.eq(f"{key}/{name}/weak-{n}", self.bold(e), V.F, conj(pc, care, cond), R.loc)

    # ---- blocks with a loop
    def looped(self, key, R, es, want, care=V.T):
        """the sum over a loop is the chain between the first and the last value of a point carried along; returns
        (loop, carried point before, after)"""
        ctx = self.ctx
        ls = {l.id: l for e, *_ in es for l in e.loops}
        if len(ls) != 1:
            raise Bad(f"{len(ls)} loops add edges, expected one", R.loc)
        lp = list(ls.values())[0]
        inside = [x for x in es if x[0].loops]
        for e, *_ in inside:
            if compare.possible(conj(e.pc, V.b_not(lp.cont))) is not None:
                raise Bad("an edge is added in a round that leaves the loop", R.loc)
        groups = {}
        for (root, path), (ph, init) in lp.phis.items():
            if ph.k == "p" and path:
                groups.setdefault((root, path[:-1]), {})[path[-1]] = (ph, V.restrict(lp.nexts[(root, path)], lp.cont), init)
        why = []
        for g in groups.values():
            if len(g) != 2:
                continue
            (x, nx, ix), (y, ny, iy) = [g[k] for k in sorted(g)]
            a, b, i = (x, y), (nx, ny), (ix, iy)
            for fwd in (True, False):
                w = total([z[1:] for z in inside], [(a, b) if fwd else (b, a)], conj(lp.cont, lp.entry_pc, *lp.entry_ctx, care), True)
                if w is None:
                    ctx.true(f"{key}/round", True, "", R.loc)
                    ran = conj(lp.entry_pc, *lp.entry_ctx)
                    at = tuple(V.ite(ran, p, q) for p, q in zip(a, i))
                    care = conj(care, V.ite(ran, V.b_not(lp.cont), V.T))
                    rest = [z[1:] for z in es if not z[0].loops]
                    w = total(rest, want + [(at, i) if fwd else (i, at)], care, False)
                    ctx.true(f"{key}/ends", w is None, w or "", R.loc)
                    return lp, a, b
                why.append(w)
        raise Bad(f"the edges of one round are no chain from one carried point to the next: {why[:2]}", R.loc)

    def round(self):
        ctx, I = self.ctx, self.interp()
        s0, c0, s1, c1, ends = self.corners(I)
        ratio = fvar("ratio")
        me = self.builder(I, "RoundJoinBuilder", ratio, self.r)
        R, es = self.block(self.fn("RoundJoinBuilder", "add_join"), {"I": I, "sections": [s0, s1], "self": me})
        key = f"{self.mod}/round"
        dot = dotp(c0["dir"], c1["dir"])
        small = conj(V.gt(ratio, V.ZERO), V.lt(V.mul(V.num(4), ratio), V.num(3)))        # ratio < 0.75 < pi / 4
        if self.mod == "stroke":
            small = conj(small, V.gt(self.r, V.ZERO))
        nearly = V.gt(dot, V.lapp("cos", ratio, ty=F64))
        self.straight(f"{key}/nearly-straight", R, [x for x in es if compare.possible(conj(x[1], small, nearly)) is not None], list(ends.values()), conj(small, nearly))
        lp, a, b = self.looped(key, R, es, list(ends.values()))
        cr, turns = self.turns(c0, c1)
        # points of the arc
        forms = scev.closed(I, R.loops)
        c = forms[lp.id]
        ang = V.lapp("acos", dot, ty=F64)
        n = V.lapp("round", V.mul(ang, I.inv(ratio)), ty=F64)
        step = V.mul(ang, I.inv(n))
        care = conj(lp.cont, lp.entry_pc, *lp.entry_ctx, small, V.b_not(nearly))
        if c.trip is None:
            raise Bad("the number of points of the arc is not known", R.loc)
        cnt = V.lapp("trunc", n, ty=("int", "usize"))
        want = V.ite(V.gt(cnt, V.ONE), V.sub(cnt, V.ONE), V.ZERO)
        ctx.eq(f"{key}/number-of-points", c.trip, want, conj(*lp.entry_ctx, lp.entry_pc, small, V.b_not(nearly)), R.loc)
        groups = {}
        for (root, path), (ph, init) in lp.phis.items():
            if ph.k == "p" and path and ph is not a[0] and ph is not a[1]:
                groups.setdefault((root, path[:-1]), {})[path[-1]] = (ph, V.restrict(lp.nexts[(root, path)], lp.cont), init)
        for name, cond, outer, inner in turns:
            if outer is None:
                loose = [x for x in es if compare.possible(conj(x[1], small, cond)) is not None]
                self.straight(f"{key}/{name}", R, loose, [ends[inner]], conj(small, cond))
                continue
            # on the left turn of a stroke the arc may be walked from either end
            d0, d1 = c0["dir"], c1["dir"]
            up = (lambda d: (V.neg(d[1]), d[0])) if outer == "top" else (lambda d: (d[1], V.neg(d[0])))
            turn = V.ite(V.gt(cr, V.ZERO), V.ONE, V.num(-1))
            bad = []
            ok = False
            for first, sign in ((d0, turn), (d1, V.neg(turn))):
                t = V.mul(sign, step)
                cs, sn = V.lapp("cos", t, ty=F64), V.lapp("sin", t, ty=F64)
                for g in groups.values():
                    if len(g) != 2:
                        continue
                    (x, nx, ix), (y, ny, iy) = [g[k] for k in sorted(g)]
                    e = rot((x, y), cs, sn)
                    p = G2(add(c0["b"], scale((nx, ny), self.r)))
                    u = up(first)
                    cr_ = conj(care, cond)
                    d = [compare.difference(*q, cr_) for q in ((nx, e[0]), (ny, e[1]), (b[0], p[0]), (b[1], p[1]))] + \
                        [compare.difference(*q, conj(small, V.b_not(nearly), cond)) for q in ((ix, u[0]), (iy, u[1]))]
                    if not any(d):
                        ok = True
                    else:
                        bad.append([k for k, z in enumerate(d) if z] + [next(z for z in d if z)])
            ctx.true(f"{key}/{name}/arc", ok, f"the points of the arc are not the corner's radius turned in equal steps: {bad[:4]}", R.loc)
        self.bold_outside(key, R, es, turns, small)

    # ---- caps
    def cap(self, end):
        ctx, I = self.ctx, self.interp()
        s, c = self.section(I, "s")
        R, es = self.block(self.fn("CapBuilder", "add_to_" + end), {"I": I, "sections": [s]})
        g = {k: G2(v) for k, v in c.items()}
        want = [(g["a_top"], g["a_bot"])] if end == "start" else [(g["b_bot"], g["b_top"])]
        lp, a, b = self.looped(f"cap/{end}", R, es, want)
        forms = scev.closed(I, R.loops)
        K = forms[lp.id]
        me = R.st[R.roots[0]]
        opt = get(ctx, I, me, self.adt("CapBuilder"), "points")
        pts = I.field(opt, 0, 1)
        S = scev.Subst(I, scev.mapping(I, forms, [lp]))
        some = V.eq(I.discr_of(opt, opt.ty), V.ONE)
        ctx.eq(f"cap/{end}/every-point", S(K.trip), I.seq_len(pts), some, R.loc)
        p = self.xy(I, I.seq_get(pts, K.K))
        d = c["dir"]
        at, o = ((V.neg(d[0]), V.neg(d[1])), c["a"]) if end == "start" else (d, c["b"])
        q = G2(add(o, rot(p, at[0], at[1])))
        care = conj(S(lp.cont), V.ge(K.K, V.ZERO), V.lt(K.K, I.seq_len(pts)), some)
        for i, t in enumerate("xy"):
            ctx.eq(f"cap/{end}/point/{t}", S(b[i]), q[i], care, R.loc)
        for n, (e, pc, *_) in enumerate(es):
            ctx.eq(f"cap/{end}/bold-{n}", self.bold(e), V.T, pc, R.loc)
        # no points: one edge across
        self.straight(f"cap/{end}/butt", R, [x for x in es if not x[0].loops], want, V.b_not(some))

    def cap_points(self):
        ctx, p = self.ctx, self.p
        f = self.fn("CapBuilder", "new")
        capn = [k for k in p.adts if k.endswith("::style::LineCap")]
        if len(capn) != 1:
            raise Bad(f"type LineCap: {capn}")
        names = p.variants(capn[0])
        I = self.interp()
        ty = p.ty(p.bodies[f["id"]]["locals"][1])
        for name in ("Butt", "Round", "Square", "Custom"):
            with ctx.case(f"cap/points/{name}"):
                i = names.index(name)
                x = V.var("x", TT)
                fields = {"Butt": (), "Square": (), "Round": (V.pvar(x),), "Custom": (mk("v", ("shape",), ("adt", "std::vec::Vec", (("param", "P"),))),)}[name]
                cap = I.variant_value(capn[0], i, fields)
                R = call(ctx, f, [cap, self.r], interp=I)
                opt = get(ctx, I, R.ret, self.adt("CapBuilder"), "points")
                some = V.eq(I.discr_of(opt, opt.ty), V.ONE)
                if name == "Butt":
                    ctx.eq(f"cap/points/{name}/none", some, V.F, loc=R.loc)
                    continue
                ctx.eq(f"cap/points/{name}/some", some, V.T, loc=R.loc)
                pts = I.field(opt, 0, 1)
                if name == "Square":
                    ctx.eq(f"cap/points/{name}/number", I.seq_len(pts), V.num(2), loc=R.loc)
                    for k, y in ((0, V.neg(self.r)), (1, self.r)):
                        ctx.eq(f"cap/points/{name}/{k}", self.I_point(I, I.seq_get(pts, V.num(k))), I.point(self.r, y), loc=R.loc)
                elif name == "Custom":
                    s = fields[0]
                    self.scaled(R, I, s, pts)
                else:
                    self.arc(R, I, pts, V.pvar(x))

    def scaled(self, R, I, s, pts):
        """every point of the cap's own shape is scaled"""
        ctx = self.ctx
        forms = scev.closed(I, R.loops)
        n = I.seq_len(s)
        leaf = [x for x in V.leafset(pts) if seqs.loop_of(I, forms, x)]
        if len(leaf) != 1:
            raise Bad("no single loop over the points of the cap", R.loc)
        B = seqs.built(I, forms, leaf[0])
        ctx.true("cap/points/Custom/starts-empty", V.pconst(I.seq_len(B.base)) == 0, V.show(B.base)[:200], R.loc)
        ctx.eq("cap/points/Custom/every-point", B.trip, n, loc=R.loc)
        if len(B.items) != 1:
            raise Bad("the points of the cap are not made one by one", R.loc)
        cond, el = B.items[0]
        inside = conj(V.ge(B.K, V.ZERO), V.lt(B.K, n))
        ctx.eq("cap/points/Custom/each", cond, V.T, inside, R.loc)
        # a place that is written in its own round still holds the point of the shape
        S = scev.Subst(I, B.closed.form)
        src = [I.seq_get(s, B.K)] + [S(I.seq_get(ph, B.K)) for ph, init in B.lp.phis.values() if init is s]
        got = self.I_point(I, el)
        ok = [x for x in src if compare.difference(got, I.point(*scale(self.xy(I, x), self.r)), inside) is None]
        ctx.true("cap/points/Custom/scaled", bool(ok), f"a point of the cap is {V.show(got)[:300]}", R.loc)

    def arc(self, R, I, pts, x):
        """n - 1 points on a half circle, in equal steps from (0, -1)"""
        ctx = self.ctx
        ls = [e for e in R.events if e.kind == "push" and e.loops]
        if len(ls) != 1:
            raise Bad("no single place where points of the cap are added", R.loc)
        e = ls[0]
        lp = e.loops[-1]
        c = scev.closed(I, R.loops)[lp.id]
        ctx.eq("cap/points/Round/each-round", e.pc, lp.cont, loc=R.loc)
        if c.trip is None:
            raise Bad("the number of points is not known", R.loc)
        pi = V.num(Fraction(3.141592653589793))
        q = V.lapp("trunc", V.mul(pi, I.inv(x)), ty=("int", "usize"))
        lim = V.ite(V.lt(q, V.num(2)), V.num(2), V.ite(V.gt(q, V.num(1024)), V.num(1024), q))
        n = V.ite(V.gt(x, V.ZERO), lim, V.num(1024))
        ctx.eq("cap/points/Round/number", c.trip, V.sub(n, V.ONE), loc=R.loc)
        a = V.mul(pi, I.inv(n))
        cs, sn = V.lapp("cos", a, ty=F64), V.lapp("sin", a, ty=F64)
        groups = {}
        for (root, path), (ph, init) in lp.phis.items():
            if ph.k == "p" and path:
                groups.setdefault((root, path[:-1]), {})[path[-1]] = (ph, V.restrict(lp.nexts[(root, path)], lp.cont), init)
        ok, bad = False, []
        px = self.xy(I, e.data[1])
        for g in groups.values():
            if len(g) != 2:
                continue
            (u, nu, iu), (v, nv, iv) = [g[k] for k in sorted(g)]
            w = rot((u, v), cs, sn)
            d = [compare.difference(*z, lp.cont) for z in ((nu, w[0]), (nv, w[1]))] + [compare.difference(*z) for z in ((iu, V.ZERO), (iv, V.num(-1)))]
            to = scale((nu, nv), self.r)
            d += [compare.difference(*z, e.pc) for z in zip(px, to)]
            ok = ok or not any(d)
            bad.append([z for z in d if z][:1])
        ctx.true("cap/points/Round/steps", ok, f"the points of a round cap are not equal steps of a half circle: {bad[:2]}", R.loc)

    # ---- whole paths
    def walk(self, meth, nup=False, trait=None):
        ctx = self.ctx
        I = self.interp()

        def ev(name):
            def h(I, f, args, tys, dty, st, line):
                I.event(name, tuple(I.contents(st, a) for a in args[:-2] if a.k == "ref") if name != "add_section" else (I.contents(st, args[-2]),), line)
                return mk("struct", ("()",)), V.T, st
            return h
        for n in ("add_join", "add_section", "add_to_start", "add_to_end"):
            I.hooks[n] = ev(n)
        # the trait's method takes the list first
        def sec(I, f, args, tys, dty, st, line):
            I.event("add_section", (I.contents(st, args[1]),), line)
            return mk("struct", ("()",)), V.T, st
        I.hooks["add_section"] = sec
        if nup:
            def h(I, f, args, tys, dty, st, line):
                return V.lapp("next_unique", args[0], args[1], ty=("int", "usize")), V.T, st
            I.hooks["next_unique_point"] = h
        f = self.fn("Builder", meth, trait)
        b = self.p.bodies[f["id"]]
        R = call(ctx, f, [None] * b["argc"], interp=I)
        self.I = I
        argn = {x[2]: x[0] for x in b["names"] if x[2] is not None}
        path = [R.st[r] for i, r in R.roots.items() if I.is_seq(R.st[r]) and "Segment" not in self.p.ty_str(self.p.ty(b["locals"][i + 1]))]
        if len(path) != 1:
            raise Bad("the path of points is not a parameter", R.loc)
        me = R.st[R.roots[0]]
        rad = get(ctx, I, me, self.adt("Builder"), "radius")
        return I, R, path[0], rad

    def sec_of(self, v):
        v = v.a[1] if v.k == "app" and v.a[0] == "&" else v
        n, fs = fields_of(self.ctx, self.adt("Section"))
        return {f: self.xy(self.I, self.I.field(v, i)) for i, f in enumerate(fs) if f != "_phantom"}

    def new(self, rad, a, b):
        d = sub(b, a)
        d = scale(d, self.I.inv(V.lapp("sqrt", dotp(d, d), ty=TT)))
        t = scale((V.neg(d[1]), d[0]), rad)
        out = {"a": a, "b": b, "dir": d, "a_top": add(a, t), "b_top": add(b, t)}
        if self.mod == "stroke":
            out.update({"a_bot": sub(a, t), "b_bot": sub(b, t)})
        return out

    def same(self, key, s, t, care, S, loc, what):
        bad = None
        for f in s:
            for x, y in zip(s[f], t[f]):
                d = compare.difference(S(x), S(y), care)
                if d and not bad:
                    bad = f"{f}: {d}"
        self.ctx.true(key, bad is None, f"{what}: {bad}", loc)

    def rounds(self, I, R, nup):
        """the loop that handles one more corner per round, and how values are read outside of search loops"""
        js = [e for e in R.events if e.kind == "add_join"]
        inl = [e for e in js if e.loops]
        if len(inl) != 1:
            raise Bad(f"{len(inl)} places in a loop join two sections, expected one", R.loc)
        lp = inl[0].loops[-1]
        m = {}
        forms = scev.closed(I, R.loops)
        search = [c for c in forms.values() if c.lp is not lp]
        for c in search:
            m.update(c.form)
        for _ in range(4):
            s = scev.Subst(I, m)
            m = {k: s(v) for k, v in m.items()}
        S = scev.Subst(I, m)
        return lp, inl[0], [e for e in js if not e.loops], search, S

    def carried(self, R, lp, s):
        """init and next of a section carried by the loop"""
        by = {ph: key for key, (ph, init) in lp.phis.items() if ph.k == "p"}
        init, nxt = {}, {}
        for f, (x, y) in s.items():
            if x not in by or y not in by:
                # a part that stays the same in every round
                raise Bad(f"{f} of the section joined is not carried along", R.loc)
            init[f] = tuple(lp.phis[by[z]][1] for z in (x, y))
            nxt[f] = tuple(V.restrict(lp.nexts[by[z]], lp.cont) for z in (x, y))
        return init, nxt

    def path_common(self, key, I, R, lp, join, S, rad, event):
        ctx = self.ctx
        secs = [e for e in R.events if e.kind == "add_section"]
        inside, first = [e for e in secs if e.loops], [e for e in secs if not e.loops]
        if len(inside) != 1 or len(first) != 1:
            raise Bad(f"{len(inside)} and {len(first)} places add sections, expected one and one", R.loc)
        inside, first = inside[0], first[0]
        d = [x for x in join.data]
        carried, new = self.sec_of(d[-2]), self.sec_of(d[-1])
        ctx.eq(f"{key}/joined-when-added", S(inside.pc), S(join.pc), loc=R.loc)
        self.same(f"{key}/joined-is-added", self.sec_of(inside.data[0]), new, S(join.pc), S, R.loc, "the section joined is not the one added")
        self.same(f"{key}/starts-where-last-ended", new, self.new(rad, carried["b"], new["b"]), S(join.pc), S, R.loc, "the section joined does not start where the last one ended")
        init, nxt = self.carried(R, lp, carried)
        E0 = self.sec_of(first.data[0])
        self.same(f"{key}/first-carried", init, E0, S(first.pc), S, R.loc, "the section carried is not the first one added")
        self.same(f"{key}/next-carried", nxt, new, S(conj(lp.cont, join.pc)), S, R.loc, "the section added is not the next to be joined")
        self.same(f"{key}/else-carried", nxt, carried, S(conj(lp.cont, V.b_not(join.pc))), S, R.loc, "a section that was not added is carried along")
        w = compare.possible(S(conj(join.pc, V.b_not(lp.cont))))
        ctx.true(f"{key}/rounds-end", w is None, f"a section is added in a round that leaves the loop: {w}", R.loc)
        ctx.eq(f"{key}/entered", S(conj(lp.entry_pc, *lp.entry_ctx)), S(first.pc), loc=R.loc) if event is None else None
        return carried, new, E0, first

    def open_path(self):
        ctx = self.ctx
        I, R, path, rad = self.walk("open_segments")
        key = "stroke/open"
        self.inside(key, I, R, path)
        lp, join, last, search, S = self.rounds(I, R, False)
        if last:
            raise Bad("sections are joined behind the last round", R.loc)
        carried, new, E0, first = self.path_common(key, I, R, lp, join, S, rad, True)
        n = I.seq_len(path)
        care0 = S(first.pc)
        el = lambda k: self.xy(I, I.seq_get(path, k))
        self.same(f"{key}/first-section", E0, self.new(rad, el(V.ZERO), E0["b"]), care0, S, R.loc, "the first section does not start at the first point")
        ctx.true(f"{key}/first-length", compare.possible(conj(care0, eqp(G2(tuple(map(S, E0["a"]))), G2(tuple(map(S, E0["b"])))))) is None, "the first section may be without length", R.loc)
        caps = {k: [e for e in R.events if e.kind == k] for k in ("add_to_start", "add_to_end")}
        for k, v in caps.items():
            if len(v) != 1 or v[0].loops:
                raise Bad(f"{len(v)} places add the {k[7:]} cap, expected one outside of loops", R.loc)
        me = R.st[R.roots[0]]
        start, end = caps["add_to_start"][0], caps["add_to_end"][0]
        strip = lambda v: v.a[1] if v.k == "app" and v.a[0] == "&" else v
        for e, nm in ((start, "start_cap_builder"), (end, "end_cap_builder")):
            want = get(ctx, I, me, self.adt("Builder"), nm)
            a, b = (I.field(strip(x), 0) for x in (e.data[0], want))
            ctx.eq(f"{key}/{nm}", a, b, loc=R.loc)
        ctx.eq(f"{key}/start-cap/when", S(start.pc), care0, loc=R.loc)
        self.same(f"{key}/start-cap", self.sec_of(start.data[-1]), E0, care0, S, R.loc, "the start cap is not put on the first section")
        self.same(f"{key}/end-cap", self.sec_of(end.data[-1]), carried, S(end.pc), S, R.loc, "the end cap is not put on the last section")
        outer = [c for c in search if c.lp.parent is not lp]
        inner = [c for c in search if c.lp.parent is lp]
        # searches have come to their end
        over = lambda cs: conj(*(V.ite(S(c.lp.entry_pc), V.b_not(S(c.lp.cont)), V.T) for c in cs), *(V.ge(c.K, V.ZERO) for c in cs))
        done = conj(care0, over(inner), V.ite(S(lp.entry_pc), V.b_not(S(lp.cont)), V.T))
        w = compare.possible(conj(S(end.pc), V.b_not(care0))) or compare.possible(conj(done, V.b_not(S(end.pc))))
        ctx.true(f"{key}/both-caps", w is None, f"a path gets one cap only: {w}", R.loc)
        # every point is used or lies where the last one used lies
        refs = self.same_grid(R, lp, carried, S)
        ctx.true(f"{key}/last-point-known", refs is not None, "the grid point of the last point used is not carried along", R.loc)
        T = scev.Subst(I, refs or {})
        inv = lambda v: T(S(v))
        at = G2(carried["b"])
        w = compare.possible(conj(inv(join.pc), eqp(at, G2(tuple(map(inv, new["b"]))))))
        ctx.true(f"{key}/section-length", w is None, f"a section may be without length: {w}", R.loc)
        for c in outer:
            i = V.add(V.ONE, c.K)
            ref = G2(el(V.ZERO))
            care = conj(inv(c.lp.cont), V.ge(c.K, V.ZERO))
            d = [compare.difference(*q, care) for q in zip(ref, G2(el(i)))]
            ctx.true(f"{key}/skipped-first", not any(d), f"a point is skipped though it lies elsewhere than the first one: {d}", R.loc)
        K0 = outer[0].K if outer else V.ZERO
        j0 = V.add(V.ONE, K0)
        for t, a, b in zip("xy", map(S, E0["b"]), el(j0)):
            ctx.eq(f"{key}/first-section-to/{t}", a, b, care0, R.loc)
        none = conj(V.ge(n, V.num(2)), V.b_not(care0), over(outer))
        w = compare.possible(conj(none, V.b_not(conj(V.ge(V.add(j0, V.ONE), n), eqp(G2(el(V.ZERO)), G2(el(j0)))))))
        ctx.true(f"{key}/nothing-added", w is None, f"nothing is added though a point lies elsewhere than the first one: {w}", R.loc)
        # the index the rounds start from, and the index of the point used
        counts = [(key_, ph, init) for key_, (ph, init) in lp.phis.items() if ph.k == "p"]
        idx = [x for x in counts if compare.difference(S(x[2]), V.add(j0, V.ONE), care0) is None]
        idx = idx or [x for x in counts if compare.difference(S(x[2]), j0, care0) is None]
        if len(idx) != 1:
            raise Bad("the index of the next point is not carried along from the first section on", R.loc)
        kx, i, _ = idx[0]
        used = V.add(i, inner[0].K) if inner else i
        if len(inner) > 1:
            raise Bad("more than one search inside of a round", R.loc)
        for t, a, b in zip("xy", map(inv, new["b"]), el(used)):
            ctx.eq(f"{key}/section-to/{t}", a, b, inv(join.pc), R.loc)
        nx = inv(V.restrict(lp.nexts[kx], lp.cont))
        care = inv(conj(lp.cont, join.pc))
        w = compare.possible(conj(care, V.ne(nx, used), V.ne(nx, V.add(used, V.ONE))))
        ctx.true(f"{key}/next-index", w is None, f"the next index is not behind the point used: {w}", R.loc)
        rest = inv(conj(lp.cont, V.b_not(join.pc)))
        w = compare.possible(conj(rest, V.b_not(conj(V.eq(nx, V.add(i, V.ONE)), eqp(at, G2(el(i)))))))
        ctx.true(f"{key}/skipped", w is None, f"a point is skipped though it lies elsewhere than the last one used: {w}", R.loc)
        for c in inner:
            care = conj(inv(c.lp.cont), V.ge(c.K, V.ZERO))
            w = compare.possible(conj(care, V.b_not(eqp(at, G2(el(used))))))
            ctx.true(f"{key}/skipped-inside", w is None, f"a point is skipped though it lies elsewhere than the last one used: {w}", R.loc)
        ends = conj(inv(V.b_not(lp.cont)), T(over(inner)), V.lt(i, n))
        if inner:
            w = compare.possible(conj(ends, V.ge(inner[0].K, V.ZERO), V.b_not(conj(V.ge(V.add(used, V.ONE), n), eqp(at, G2(el(used)))))))
        else:
            w = compare.possible(ends)
        ctx.true(f"{key}/to-the-end", w is None, f"the path is left before its last point: {w}", R.loc)

    def inside(self, key, I, R, path):
        """points are taken from inside of the path only"""
        n, MAX = I.seq_len(path), V.num((1 << 64) - 1)

        def found(xs):
            r = V.T
            for t in terms_of(*xs):
                if t.k == "app" and t.a[0] == "next_unique":
                    v = V.pvar(t)
                    r = conj(r, V.b_or(V.eq(v, MAX), V.lt(v, n)))
            return r
        bounds.settle(self.ctx, key + "/inside", I, R, found)

    def capacities(self):
        """the memory asked for beforehand is not less than nothing, however short the path"""
        for f in self.p.fns:
            if f["m"] == "capacity" and f["id"] in self.p.bodies and f"::mesh::{self.mod}::" in f["n"]:
                R = call(self.ctx, f, must_return=False)
                bounds.settle(self.ctx, f"{self.mod}/capacity", R.I, R, at_least=0)

    # ---- what builders are made of
    def made(self):
        ctx, p = self.ctx, self.p
        name = {"stroke": "StrokeBuilder", "outline": "OutlineBuilder"}[self.mod]
        joinn = [k for k in p.adts if k.endswith("::style::LineJoin")][0]
        a = fvar("angle")

        def on_new(I, f, args, tys, dty, st, line):
            n = f["n"]
            if "::CapBuilder::" not in n and "JoinBuilder::" not in n:
                return NotImplemented
            kind = [x for x in n.split("::") if x.endswith("Builder")][-1]
            return mk("app", ("made", kind) + tuple(strip(I.contents(st, x)) for x in args), dty), V.T, st

        def normal(I, f, args, tys, dty, st, line):
            v = I.contents(st, args[0])
            if v.k == "enum" and str(v.a[0]).split("::")[-1] == "LineJoin":
                return I.variant_value(v.a[0], int(V.pconst(v.a[1])), [V.lapp("normal", x, ty=TT) for x in v.a[2 + int(V.pconst(v.a[1]))]]), V.T, st
            return mk("app", ("normal", v), dty), V.T, st
        for kind in ("Bevel", "Miter", "Round"):
            key = f"{self.mod}/made/{kind}"
            with ctx.case(key):
                I = Interp(p, hooks={"new": on_new, "normalize": normal})
                join = I.variant_value(joinn, p.variants(joinn).index(kind), () if kind == "Bevel" else (a,))
                f = self.fn(name, "new")
                if self.mod == "stroke":
                    n, fs = fields_of(ctx, "StrokeStyle")
                    style = I.expand(I.var("style", ("adt", n, (("param", "P"), TT))))
                    style = mk("struct", (style.a[0],) + tuple(join if x == "join" else y for x, y in zip(fs, style.a[1:])))
                    vals = [style]
                    w = get(ctx, I, style, "StrokeStyle", "width")
                    r = V.mul(V.num(HALF), V.ite(V.gt(w, V.ZERO), w, V.ZERO))
                    ang = V.lapp("normal", a, ty=TT)
                else:
                    vals, r, ang = [self.r, join], self.r, a
                R = call(ctx, f, vals, interp=I)
                b = I.read(R.st, I.field(R.ret, 0))
                ctx.eq(key + "/radius", get(ctx, I, b, self.adt("Builder"), "radius"), r, loc=R.loc)
                j = get(ctx, I, b, self.adt("Builder"), "join_builder")
                if kind == "Bevel":
                    ctx.true(key + "/join", j.k == "struct" and str(j.a[0]).endswith("BevelJoinBuilder"), V.show(j)[:200], R.loc)
                else:
                    ok = j.k == "app" and j.a[0] == "made" and j.a[1] == kind + "JoinBuilder"
                    ctx.true(key + "/join", ok, V.show(j)[:200], R.loc)
                    if ok:
                        ctx.eq(key + "/angle", j.a[2], ang, loc=R.loc)
                        ctx.eq(key + "/join-radius", j.a[3], r, loc=R.loc)
                if self.mod == "stroke":
                    for c in ("start", "end"):
                        x = get(ctx, I, b, self.adt("Builder"), c + "_cap_builder")
                        cap = get(ctx, I, style, "StrokeStyle", c + "_cap")
                        ok = x.k == "app" and x.a[:2] == ("made", "CapBuilder") and strip(x.a[2]).k == "app" and strip(x.a[2]).a[0] == "normal" and strip(x.a[2]).a[1] is cap
                        ctx.true(f"{key}/{c}-cap", ok, f"the {c} cap is made of {V.show(x)[:300]}", R.loc)
                        if ok:
                            ctx.eq(f"{key}/{c}-cap-radius", x.a[3], r, loc=R.loc)

    def dispatch(self):
        """a closed path is built as a ring, an open one with caps"""
        ctx = self.ctx

        def ev(name):
            def h(I, f, args, tys, dty, st, line):
                I.event("walk", (name,) + tuple(args), line)
                return mk("struct", ("()",)), V.T, st
            return h
        I = Interp(self.p, hooks={"open_segments": ev("open"), "closed_segments": ev("closed")})
        f = self.fn("Builder", "build", "StrokeBuild")
        closed = bvar("closed")
        b = self.p.bodies[f["id"]]
        vals = [closed if self.p.ty(b["locals"][i]) == ("bool",) else None for i in range(1, b["argc"] + 1)]
        R = call(ctx, f, vals, interp=I)
        es = [e for e in R.events if e.kind == "walk"]
        for name, care in (("open", V.b_not(closed)), ("closed", closed)):
            got = V.b_or(V.F, *[e.pc for e in es if e.data[0] == name]) if es else V.F
            ctx.eq(f"stroke/dispatch/{name}", got, care, loc=R.loc)
        for e in es:
            ctx.true("stroke/dispatch/whole-path", e.data[2].k == "ref" and not e.data[2].a[1], "part of the path is built", R.loc)

    def rooms(self):
        """the room asked for is enough for every corner the blocks may add"""
        ctx, p = self.ctx, self.p
        a = fvar("angle")
        for kind in ("Bevel", "Miter", "Round"):
            key = f"{self.mod}/room/{kind}"
            with ctx.case(key):
                I = Interp(p)
                f = self.fn(kind + "JoinBuilder", "additional_offset")
                me = None if kind == "Bevel" else self.builder(I, kind + "JoinBuilder", a, self.r)
                R = call(ctx, f, [me, self.r], interp=I)
                need = V.absv(self.r)
                care = V.T
                if kind == "Miter":
                    # the cut corner lies r aside of the path and l ahead of its point
                    t = V.lapp("tan", V.mul(V.num(HALF), a), ty=F64)
                    l2 = V.mul(V.mul(self.r, I.inv(t)), V.mul(self.r, I.inv(t)))
                    need = V.lapp("sqrt", V.add(V.mul(self.r, self.r), l2), ty=F64)
                    care = conj(V.gt(a, V.ONE), V.ge(need, V.ZERO), V.ne(self.r, V.ZERO))
                w = compare.possible(conj(care, V.lt(V.absv(R.ret), need)))
                ctx.true(key, w is None, f"the room asked for is {V.show(R.ret)[:200]}: {w}", R.loc)
        if self.mod == "outline":
            return
        with ctx.case("stroke/room/all"):
            parts = {}

            def part(name):
                def h(I, f, args, tys, dty, st, line):
                    if "CapBuilder" in f["n"]:
                        x = V.show(strip(I.contents(st, args[0])))
                        v = fvar("room of " + ("start" if "start_cap" in x else "end" if "end_cap" in x else x[:60]))
                    elif "JoinBuilder" in f["n"]:
                        v = fvar("room of join")
                        parts["radius"] = args[1]
                    else:
                        return NotImplemented
                    parts[v] = 1
                    return v, V.T, st
                return h
            I = Interp(p, hooks={"additional_offset": part("")})
            R = call(ctx, self.fn("Builder", "additional_offset"), [None, self.r], interp=I)
            for x in ("start", "end", "join"):
                w = compare.possible(V.lt(R.ret, fvar("room of " + x)))
                ctx.true(f"stroke/room/all/{x}", w is None, f"the room of the {x} may be missing: {w}", R.loc)
            ctx.eq("stroke/room/all/radius", parts.get("radius", V.num(-1)), self.r, loc=R.loc)
        with ctx.case("stroke/room/cap"):
            I = Interp(p)
            f = self.fn("CapBuilder", "additional_offset")
            R = call(ctx, f, interp=I)
            me = R.st[R.roots[0]]
            opt = get(ctx, I, me, self.adt("CapBuilder"), "points")
            pts = I.field(opt, 0, 1)
            some = V.eq(I.discr_of(opt, opt.ty), V.ONE)
            ls = [(l, k, ph, init) for l in R.loops for k, (ph, init) in l.phis.items() if ph.k == "p" and k in l.nexts and scev.mentions(R.ret, {scev.phi_term(ph).id})]
            if len(ls) != 1:
                raise Bad("the room of the cap is not found in one pass over its points", R.loc)
            lp, k, ph, init = ls[0]
            c = scev.closed(I, R.loops)[lp.id]
            S = scev.Subst(I, c.form)
            if c.trip is None:
                raise Bad("the number of points looked at is not known", R.loc)
            ctx.eq("stroke/room/cap/every-point", S(c.trip), I.seq_len(pts), some, R.loc)
            nx = S(V.restrict(lp.nexts[k], lp.cont))
            x, y = self.xy(I, I.seq_get(pts, c.K))
            care = conj(V.ge(c.K, V.ZERO), V.lt(c.K, I.seq_len(pts)), some, S(lp.cont))
            w = compare.possible(conj(care, V.lt(nx, ph)))
            ctx.true("stroke/room/cap/grows", w is None, f"the room shrinks: {w}", R.loc)
            # no less than the distance of the point: the sum of its coordinates' sizes, or their length
            ways = [V.add(V.absv(x), V.absv(y)), V.lapp("sqrt", V.add(V.mul(x, x), V.mul(y, y)), ty=TT)]
            ws = [compare.possible(conj(care, V.lt(nx, z))) for z in ways]
            ctx.true("stroke/room/cap/point", not all(ws), f"a point of the cap may lie outside: {ws[0]}", R.loc)
            w = compare.possible(conj(some, V.ge(ph, V.ZERO), V.lt(R.ret, ph)))
            ctx.true("stroke/room/cap/used", w is None, f"the room found is not asked for: {w}", R.loc)
            w = compare.possible(V.lt(init, V.ZERO))
            ctx.true("stroke/room/cap/starts", w is None, f"the room may be negative: {w}", R.loc)

    def same_grid(self, R, lp, carried, S):
        """loop variables that always are the grid point of the end of the carried section: term id -> value"""
        by = {ph: key for key, (ph, init) in lp.phis.items() if ph.k == "p"}
        want = G2(carried["b"])
        i0 = G2(tuple(S(lp.phis[by[z]][1]) for z in carried["b"]))
        nx = G2(tuple(S(V.restrict(lp.nexts[by[z]], lp.cont)) for z in carried["b"]))
        entry = S(conj(lp.entry_pc, *lp.entry_ctx))
        out = {}
        for key, (ph, init) in lp.phis.items():
            t = scev.phi_term(ph) if ph.k == "p" and key in lp.nexts else None
            for k in (0, 1):
                if t is not None and t.id not in out and compare.difference(S(init), i0[k], entry) is None:
                    out[t.id] = (key, k)
        # those that stay so when all of them are so
        while out:
            T = scev.Subst(self.I, {t: want[k] for t, (_, k) in out.items()})
            bad = [t for t, (key, k) in out.items() if compare.difference(T(S(V.restrict(lp.nexts[key], lp.cont))), T(nx[k]), T(S(lp.cont))) is not None]
            if not bad:
                break
            for t in bad:
                del out[t]
        out = {t: want[k] for t, (_, k) in out.items()}
        return out or None

    def closed_path(self, meth, trait=None):
        ctx = self.ctx
        I, R, path, rad = self.walk(meth, True, trait)
        key = f"{self.mod}/closed"
        self.inside(key, I, R, path)
        lp, join, last, search, S = self.rounds(I, R, True)
        if search:
            raise Bad("the next point is looked for in another loop", R.loc)
        if len(last) != 1:
            raise Bad(f"{len(last)} places join the last section to the first, expected one", R.loc)
        carried, new, E0, first = self.path_common(key, I, R, lp, join, S, rad, None)
        n = I.seq_len(path)
        usize = ("int", "usize")
        el = lambda k: self.xy(I, I.seq_get(path, k))
        nu = lambda a, b: V.lapp("next_unique", a, b, ty=usize)
        MAX = V.num((1 << 64) - 1)
        i0 = V.sub(n, V.ONE)
        i1 = nu(i0, V.ZERO)
        when = conj(V.ge(n, V.num(2)), V.ne(i1, MAX))
        ctx.eq(f"{key}/when", first.pc, when, loc=R.loc)
        self.same(f"{key}/first-section", E0, self.new(rad, el(i0), el(i1)), when, S, R.loc, "the first section does not lead from the last point to the first one that lies elsewhere")
        idx = [(k, ph) for k, (ph, init) in lp.phis.items() if ph.k == "p" and not k[1] and compare.difference(init, nu(i1, V.add(i1, V.ONE)), when) is None]
        if len(idx) != 1:
            raise Bad("the index of the next point is not carried along from the first section on", R.loc)
        k, i = idx[0]
        ctx.eq(f"{key}/rounds", lp.cont, V.ne(i, MAX), loc=R.loc)
        ctx.eq(f"{key}/every-round", join.pc, lp.cont, loc=R.loc)
        self.same(f"{key}/section", new, self.new(rad, carried["b"], el(i)), lp.cont, S, R.loc, "a section does not lead to the next point")
        ctx.eq(f"{key}/next-index", V.restrict(lp.nexts[k], lp.cont), nu(i, V.add(i, V.ONE)), lp.cont, R.loc)
        j = last[0]
        w = compare.possible(conj(j.pc, V.b_not(when))) or compare.possible(conj(when, V.b_not(lp.cont), V.b_not(j.pc)))
        ctx.true(f"{key}/last-join/when", w is None, f"the ring is not closed, or joined without sections: {w}", R.loc)
        self.same(f"{key}/last-join/from", self.sec_of(j.data[-2]), carried, j.pc, S, R.loc, "the last join does not start at the last section")
        self.same(f"{key}/last-join/to", self.sec_of(j.data[-1]), E0, j.pc, S, R.loc, "the last join does not lead to the first section")

    def next_unique(self):
        """the first index from a given one on whose point lies elsewhere, else usize::MAX"""
        ctx = self.ctx
        I = self.interp()
        f = self.fn("Builder", "next_unique_point")
        b = self.p.bodies[f["id"]]
        start, index = V.pvar(V.var("start", ("int", "usize"))), V.pvar(V.var("index", ("int", "usize")))
        ints = [i for i in range(1, b["argc"] + 1) if self.p.ty(b["locals"][i]) == ("int", "usize")]
        vals = [None] * b["argc"]
        for i, v in zip(ints, (start, index)):
            vals[i - 1] = v
        R = call(ctx, f, vals, interp=I)
        path = [R.st[r] for r in R.roots.values() if I.is_seq(R.st[r])][0]
        n = I.seq_len(path)
        key = f"{self.mod}/next-unique"
        ls = [l for l in R.loops]
        if len(ls) != 1:
            raise Bad(f"{len(ls)} loops look for the next point, expected one", R.loc)
        lp = ls[0]
        c = scev.closed(I, R.loops)[lp.id]
        S = scev.Subst(I, c.form)
        at = V.add(index, c.K)
        el = lambda k: self.xy(I, I.seq_get(path, k))
        here = eqp(G2(el(start)), G2(el(at)))
        ok = conj(V.ge(c.K, V.ZERO), V.ge(index, V.ZERO), V.le(index, n))
        w = compare.possible(conj(ok, S(lp.cont), V.b_not(conj(here, V.lt(at, n)))))
        ctx.true(f"{key}/goes-on", w is None, f"the search goes on behind a point that lies elsewhere: {w}", R.loc)
        w = compare.possible(conj(ok, V.b_not(S(lp.cont)), here, V.lt(at, n)))
        ctx.true(f"{key}/ends", w is None, f"the search ends at a point that lies where the last one lies: {w}", R.loc)
        ret = S(R.ret)
        ctx.eq(f"{key}/found", ret, at, conj(ok, S(lp.entry_pc), V.b_not(S(lp.cont)), V.lt(at, n), V.b_not(here)), R.loc)
        ctx.eq(f"{key}/none", ret, V.num((1 << 64) - 1), conj(ok, V.b_not(S(lp.cont)), V.ge(at, n)), R.loc)


# ------------------------------------------------------------------------------------------------ from paths to shapes
class Offsets(c24.Base):
    """stand-ins for the blocks above and for the layers below"""

    def __init__(self, ctx):
        super().__init__(ctx)
        h = self.I.hooks
        area, any_shapes = ("int", "i64"), ("slice", ("slice", ("slice", POINT)))
        self.types.update(room=TT, len_int=("int", "i32"), area=area, offset_graph=ty_of(ctx, "OverlayGraph"), offset_shapes=any_shapes, of_overlay=any_shapes, normal=ty_of(ctx, "LineJoin"))
        for n in ("with_iter", "FloatPointAdapter::with_iter"):
            h.pop(n)
        h.update({"new": self.on_new, "additional_offset": self.plain_of("room", "Builder"), "capacity": self.any_size_of, "with_iter": self.on_box, "add_offset": self.on_grow,
                  "len_float_to_int": self.plain("len_int"), "build": self.on_build, "offset_graph_with_solver": self.plain("offset_graph"),
                  "extract_offset": self.plain("offset_shapes"), "unsafe_int_area": self.plain("area"),
                  "add_shapes": self.on_shapes, "normalize": self.plain("normal"), "overlay_custom": self.plain("of_overlay")})

    def norm(self, v):
        if v.k == "app" and v.a[0] in ("builder", "adapter", "offset_graph", "grown") or v.k == "v" and v.a[0] == "box":
            return v
        return super().norm(v)

    def plain_of(self, name, owner):
        def h(I, f, args, tys, dty, st, line):
            if owner not in f["n"]:
                return NotImplemented
            return self.term(name, *[self.val(st, a) for a in args]), V.T, st
        return h

    def any_size_of(self, I, f, args, tys, dty, st, line):
        if "Builder" not in f["n"]:
            return NotImplemented
        return nat("capacity", 0, None, "usize"), V.T, st

    def on_new(self, I, f, args, tys, dty, st, line):
        n = f["n"]
        if "::StrokeBuilder::" in n or "::OutlineBuilder::" in n:
            return mk("app", ("builder",) + tuple(self.val(st, a) for a in args), dty), V.T, st
        if "::FloatPointAdapter::" in n:
            return mk("app", ("adapter", self.val(st, args[0])), dty), V.T, st
        return NotImplemented

    def on_box(self, I, f, args, tys, dty, st, line):
        if "::FloatRect::" not in f["n"]:
            return NotImplemented
        box = mk("v", ("box",), dty)
        I.event("fit", (args[0], box), line)
        return box, V.T, st

    def on_grow(self, I, f, args, tys, dty, st, line):
        old = I.read(st, args[0])
        st = st.copy()
        I.write(st, args[0], mk("app", ("grown", old, self.val(st, args[1])), old.ty))
        return c24.UNITV, V.T, st

    def on_build(self, I, f, args, tys, dty, st, line):
        if "Builder" not in f["n"]:
            return NotImplemented
        l = strip(I.contents(st, args[1]))
        role = [self.val(st, args[0])] + [self.val(st, a) for a in args[2:-1]]
        I.event("add", ("contour", I.seq_len(l), I.seq_get(l, self.k), mk("struct", ("role",) + tuple(role))), line)
        return self.grow(st, args[-1], I)

    def on_shapes(self, I, f, args, tys, dty, st, line):
        v = self.I.contents(st, args[1])
        I.event("shapes", (v, self.val(st, args[2])), line)
        ref = args[0]
        return self.grow(st, mk("ref", (ref.a[0], tuple(ref.a[1]) + (("f", field_ix(self.ctx, "Overlay", "segments")),))), I)


def strip(v):
    return c24.strip(v)


def apps(v, name):
    return [t for t in c24.terms_of(v) if t.k == "app" and t.a[0] == name]


def one(xs, what, loc):
    xs = list({x.id: x for x in xs}.values())
    if len(xs) != 1:
        raise Bad(f"{len(xs)} {what}, expected one", loc)
    return xs[0]


class Whole:
    """stroke_custom or outline_custom with the blocks and the layers below left open"""

    def __init__(self, ctx, trait, m):
        self.ctx, self.key = ctx, trait
        E = self.E = c24.Entry(ctx, trait, c24.trait_fn(ctx, trait, m, lambda p, t: True), base=Offsets)
        I = self.I = E.I
        self.S = scev.Subst(I, scev.mapping(I, E.forms, []))
        self.ret = self.S(E.R.ret)
        self.paths = c24.paths_of(E.args[0])
        self.n = I.seq_len(self.paths)
        self.adds = [e for e in E.R.events if e.kind == "add"]
        if not self.adds:
            raise Bad("no path is built", E.loc)
        self.ad = one([e.data[3].a[-1] for e in self.adds], "adapters", E.loc)
        self.loc = E.loc

    def term(self, name, *args):
        return self.E.B.term(name, *args)

    def adapter(self, room):
        """the adapter's box is the box of every point, grown by the room the builders ask for"""
        ctx, E, I = self.ctx, self.E, self.I
        es = [e for e in E.R.events if e.kind == "fit"]
        if len(es) != 1:
            raise Bad(f"{len(es)} boxes are fitted", E.loc)
        ok = self.ad.k == "app" and self.ad.a[0] == "adapter" and self.ad.a[1].k == "app" and self.ad.a[1].a[0] == "grown"
        ctx.true(self.key + "/adapter/grown", ok, f"the adapter is made for {V.show(self.ad)[:200]}", E.loc)
        if not ok:
            return
        box, got = self.ad.a[1].a[1:]
        ctx.eq(self.key + "/adapter/room", got, room, loc=E.loc)
        src = []
        for t in c24.terms_of(E.I.contents(E.R.st, es[0].data[0])):
            if t.k == "app" and t.a[0] == "paths":
                src.append(t)
        ctx.true(self.key + "/adapter/every-point", len(src) == 1 and src[0] is self.paths, "the box is not that of the points given", E.loc)
        b = es[0].data[1]
        some = V.eq(I.discr_of(b, b.ty), V.ONE)
        x = I.field(b, 0, 1)
        for i, f in enumerate(box.a[1:] if box.k == "struct" else ()):
            ctx.eq(f"{self.key}/adapter/box-{i}", f, I.field(x, i), some, E.loc)
        ctx.true(self.key + "/adapter/box", box.k == "struct", V.show(box)[:200], E.loc)

    def check_add(self, key, e, builder, path, care, more=(), back=False):
        """a path is given to the builder, whole and in order (or backwards)"""
        ctx, E, I = self.ctx, self.E, self.I
        kind, x, y, role = E.seen(e)
        n = I.seq_len(path)
        k = E.B.k
        at = V.sub(V.sub(n, V.ONE), k) if back else k
        ctx.eq(f"{key}/number-of-points", x, n, care, self.loc)
        ctx.eq(f"{key}/points", y, I.seq_get(path, at), conj(care, V.ge(k, V.ZERO), V.lt(k, n)), self.loc)
        ctx.true(f"{key}/builder", e.data[3].a[1] is builder, f"built by {V.show(e.data[3].a[1])[:300]}, expected {V.show(builder)[:300]}", self.loc)
        for i, (a, b) in enumerate(zip(e.data[3].a[2:], more)):
            ctx.eq(f"{key}/argument-{i}", a, b, care, self.loc)


def short(ctx, trait, m):
    """the short form is the long one with counterclockwise contours and the default filter"""
    p = ctx.prog
    f = c24.trait_fn(ctx, trait, m, lambda p, t: True)
    long = c24.trait_fn(ctx, trait, m + "_custom", lambda p, t: True)
    I = Interp(p)

    def given(I, g, args, tys, dty, st, line):
        I.event("long", tuple(strip(I.contents(st, a)) for a in args), line)
        return mk("app", ("made",), ("slice", ("param", "P"))), V.T, st
    I.hooks = {m + "_custom": given}
    b = p.bodies[f["id"]]
    R = call(ctx, f, None, interp=I)
    es = [e for e in R.events if e.kind == "long"]
    if len(es) != 1:
        raise Bad(f"the long form is used {len(es)} times", R.loc)
    ctx.true(f"{trait}/short/always", es[0].pc is V.T, "the long form is not always used", R.loc)
    ctx.true(f"{trait}/short/result", R.ret.k == "app" and R.ret.a[0] == "made", "the result is not that of the long form", R.loc)
    lb = p.bodies[long["id"]]
    tys = [p.ty_str(p.ty(lb["locals"][i])).split("<")[0].split("::")[-1] for i in range(1, lb["argc"] + 1)]
    own = [p.ty_str(p.ty(b["locals"][i])).split("<")[0].split("::")[-1] for i in range(1, b["argc"] + 1)]
    mine = {}
    for i, t in enumerate(own):
        mine[t] = strip(I.contents(R.st, R.args[i]))
    fl = I.expand(call(ctx, p.method("ContourFilter", "default", "Default"), [], interp=Interp(p)).ret)
    for t, v in zip(tys, es[0].data):
        want = {"ContourDirection": lambda: I.expand(enum_of(ctx, I, "ContourDirection", "CounterClockwise")), "ContourFilter": lambda: fl}.get(t, lambda: mine[t])()
        ctx.eq(f"{trait}/short/{t}", I.expand(v), I.expand(want), loc=R.loc)


def whole_stroke(ctx):
    W = Whole(ctx, "StrokeOffset", "stroke_custom")
    E, I, key = W.E, W.I, W.key
    style, fl, d = E.byty["StrokeStyle"][0], E.one("ContourFilter"), E.one("ContourDirection")
    closed = one([v for v in E.args if v.ty == ("bool",) or v.k == "ite" and v.a[1] in (V.T, V.F)], "flags", E.loc)
    width = get(ctx, I, style, "StrokeStyle", "width")
    r = V.mul(V.num(HALF), width)
    b = one([e.data[3].a[1] for e in W.adds], "builders", E.loc)
    ctx.eq(key + "/style", b.a[1], E.B.norm(style), loc=E.loc)
    W.adapter(W.term("room", b, r))
    e = W.adds[0]
    if len(W.adds) != 1 or len(e.loops) != 1:
        raise Bad(f"{len(W.adds)} places build a path, expected one in a loop", E.loc)
    c = E.forms[e.loops[0].id]
    if c.trip is None:
        raise Bad("the number of paths built is not known", E.loc)
    ctx.eq(key + "/every-path", c.trip, W.n, loc=E.loc)
    care = conj(V.ge(c.K, V.ZERO), V.lt(c.K, W.n))
    S = scev.Subst(I, scev.mapping(I, E.forms, list(e.loops)))
    ctx.eq(key + "/always", S(e.pc), V.T, care, E.loc)
    W.check_add(key + "/path", e, b, c24.item(I, I.seq_get(W.paths, c.K)), care, (closed,))
    g = one(apps(W.ret, "offset_graph"), "graphs", E.loc)
    segs = g.a[1]
    base, evs = E.spine(segs)
    ctx.true(key + "/all-edges", I.is_seq(base) and V.pconst(I.seq_len(base)) == 0 and evs == [E.R.I.events.index(e)], "the graph is not made of what was built", E.loc)
    ctx.eq(key + "/solver", g.a[2], c24.default_solver(ctx), loc=E.loc)
    shapes = W.term("offset_shapes", g, d, c24.smallest(E, W.ad, fl))
    want = c24.back(E, shapes, W.ad, fl)
    small = W.term("len_int", W.ad, r)
    care = conj(V.ge(W.n, V.ONE), V.b_or(V.gt(small, V.ONE), V.lt(small, V.num(-1))))
    ctx.eq(key + "/result", W.ret, want, care, E.loc)
    for c_, x in seqs.leaves(W.ret):
        if compare.possible(conj(c_, V.b_not(care))) is not None:
            x = x.a[1] if x.k == "app" and x.a[0] in ("clean", "to_float") else x
            x = x.a[1] if x.k == "app" and x.a[0] in ("clean", "to_float") else x
            ok = I.is_seq(x) and V.pconst(I.seq_len(x)) == 0 or apps(x, "offset_shapes")
            ctx.true(key + "/nothing-else", ok, f"it returns {V.show(x)[:200]}", E.loc)


def whole_outline(ctx):
    W = Whole(ctx, "OutlineOffset", "outline_custom")
    E, I, key = W.E, W.I, W.key
    style, fl, d = E.byty["OutlineStyle"][0], E.one("ContourFilter"), E.one("ContourDirection")
    outer, inner = (get(ctx, I, style, "OutlineStyle", f) for f in ("outer_offset", "inner_offset"))
    join = E.B.term("normal", get(ctx, I, style, "OutlineStyle", "join"))
    ob = mk("app", ("builder", V.neg(outer), E.B.norm(join)), None)
    ib = mk("app", ("builder", inner, E.B.norm(join)), None)
    bs = {e.data[3].a[1].id: e.data[3].a[1] for e in W.adds}
    OB, IB = ([b for b in bs.values() if b.a == w.a] for w in (ob, ib))
    ctx.true(key + "/outer-builder", len(OB) == 1, f"no path is built with the outer offset, towards the outside: {[V.show(b)[:200] for b in bs.values()]}", E.loc)
    ctx.true(key + "/inner-builder", len(IB) == 1, f"no path is built with the inner offset: {[V.show(b)[:200] for b in bs.values()]}", E.loc)
    if len(OB) != 1 or len(IB) != 1:
        return
    ob, ib = OB[0], IB[0]
    W.adapter(V.add(V.absv(W.term("room", ob, outer)), V.absv(W.term("room", ib, inner))))
    square = c24.smallest(E, W.ad, fl)
    smallest = V.ite(V.lt(square, V.ONE), V.ONE, square)
    solver = c24.default_solver(ctx)
    ccw = E.enum("ContourDirection", "CounterClockwise")
    single = [e for e in W.adds if not e.loops]
    multi = [e for e in W.adds if e.loops]
    if len(single) != 1 or len(multi) != 2:
        raise Bad(f"{len(single)} places build a single path and {len(multi)} one of many, expected one and two", E.loc)

    def fresh(e, pool):
        """the graph made of what one call has built and nothing else"""
        ix = E.R.I.events.index(e)
        hits = [t for t in pool for t in apps(t, "offset_graph") if any(x.k == "app" and x.a[0] == "added" and V.pconst(x.a[2]) == ix for x in [t.a[1]])]
        g = one(hits, "graphs of one path", E.loc)
        ctx.true(f"{key}/own-edges-{ix}", I.is_seq(g.a[1].a[1]) and V.pconst(I.seq_len(g.a[1].a[1])) == 0, "edges of other paths are mixed in", E.loc)
        ctx.eq(f"{key}/own-solver-{ix}", g.a[2], solver, loc=E.loc)
        return g
    # one path
    e = single[0]
    p0 = c24.item(I, I.seq_get(W.paths, V.ZERO))
    area0 = W.term("area", p0, W.ad)
    is1 = V.eq(W.n, V.ONE)
    W.check_add(key + "/single", e, ob, p0, is1)
    g = fresh(e, [W.ret])
    shapes = W.term("offset_shapes", g, d, smallest)
    ctx.eq(key + "/single/result", W.ret, c24.back(E, shapes, W.ad, fl), conj(is1, V.lt(area0, V.num(-1))), E.loc)
    for name, care in (("none", V.eq(W.n, V.ZERO)), ("other-way-round", conj(is1, V.ge(area0, V.num(-1))))):
        left = [x for c_, x in seqs.leaves(W.ret) if compare.possible(conj(c_, care)) is not None]
        bare = [x.a[1] if x.k == "app" and x.a[0] in ("clean", "to_float") else x for x in left]
        bare = [x.a[1] if x.k == "app" and x.a[0] in ("clean", "to_float") else x for x in bare]
        ctx.true(f"{key}/single/{name}", bool(bare) and all(I.is_seq(x) and V.pconst(I.seq_len(x)) == 0 for x in bare), f"it returns {[V.show(x)[:100] for x in bare]}", E.loc)
    # many paths
    many = V.ge(W.n, V.num(2))
    ov = one([x.a[1] for x in apps(W.ret, "of_overlay")], "overlays", E.loc)
    segs = get(ctx, I, ov, "Overlay", "segments")
    t = W.term("of_overlay", ov, E.enum("OverlayRule", "Subject"), E.enum("FillRule", "Positive"), d, V.T, smallest, solver)
    ctx.eq(key + "/many/result", W.ret, c24.back(E, t, W.ad, fl), many, E.loc)
    lp = multi[0].loops[0]
    c = E.forms[lp.id]
    if any(x.loops != (lp,) for x in multi) or c.trip is None:
        raise Bad("the paths are not built in one loop over all of them", E.loc)
    ctx.eq(key + "/many/every-path", c.trip, W.n, many, E.loc)
    pk = c24.item(I, I.seq_get(W.paths, c.K))
    area = W.term("area", pk, W.ad)
    inside = conj(V.ge(c.K, V.ZERO), V.lt(c.K, W.n))
    S = scev.Subst(I, scev.mapping(I, E.forms, [lp]))
    # what is put together, round by round
    by = [(k, ph, init) for k, (ph, init) in lp.phis.items() if ph is segs]
    if len(by) != 1:
        raise Bad("the offset paths are not collected round by round", E.loc)
    k, ph, init = by[0]
    ctx.true(key + "/many/starts-empty", V.pconst(I.seq_len(init)) == 0, V.show(init)[:200], E.loc)
    nx = S(V.restrict(lp.nexts[k], lp.cont))
    evs = E.R.I.events
    want = {"outer": conj(inside, V.lt(area, V.num(-1))), "inner": conj(inside, V.gt(area, V.ONE))}
    seen = {}
    for c_, x in seqs.leaves(nx):
        if compare.possible(conj(c_, inside)) is None:
            continue
        if x is ph:
            w = compare.possible(conj(c_, inside, V.b_or(V.lt(area, V.num(-1)), V.gt(area, V.ONE))))
            ctx.true(key + "/many/kept", w is None, f"a path is left out: {w}", E.loc)
            continue
        ok = x.k == "app" and x.a[0] == "added" and x.a[1] is ph
        if not ok:
            raise Bad(f"the offset paths become {V.show(x)[:200]}", E.loc)
        ev = evs[V.pconst(x.a[2])]
        which = [n for n, w in want.items() if compare.possible(conj(c_, w)) is not None]
        for n in which:
            seen.setdefault(n, []).append(ev)
        w = compare.possible(conj(c_, inside, V.b_not(V.b_or(*want.values()))))
        ctx.true(key + "/many/no-other", w is None, f"a degenerate path is added: {w}", E.loc)
    for n, builder, back in (("outer", ob, False), ("inner", ib, True)):
        ev = (seen.get(n) or [None])[0]
        if ev is None or len({id(x) for x in seen[n]}) != 1:
            raise Bad(f"{len(seen.get(n, []))} places add {n} paths, expected one", E.loc)
        shapes, role = strip(ev.data[0]), ev.data[1]
        ctx.eq(f"{key}/many/{n}/role", role, E.enum("ShapeType", "Subject"), loc=E.loc)
        if back:
            shapes = every_path_turned(W, key, shapes, want[n], S)
        e = [x for x in multi if any(t.k == "app" and t.a[0] == "added" and V.pconst(t.a[2]) == evs.index(x) for t in c24.terms_of(shapes))]
        if len(e) != 1:
            raise Bad(f"{len(e)} places build {n} paths", E.loc)
        W.check_add(f"{key}/many/{n}", e[0], builder, pk, want[n], back=back)
        g = fresh(e[0], [shapes])
        ctx.eq(f"{key}/many/{n}/shapes", shapes, W.term("offset_shapes", g, ccw, V.ZERO), loc=E.loc)


def every_path_turned(W, key, v, care, S):
    """v is a list of shapes all whose contours have been reversed: the list before"""
    ctx, E, I = W.ctx, W.E, W.I
    # a path may be turned round before it is handed over: that is seen in the points handed over
    rs = [e for e in E.R.events if e.kind == "reverse" and len(e.loops) > 1]
    if len(rs) != 1 or len(rs[0].loops) != 3:
        raise Bad(f"{len(rs)} places turn contours round, expected one inside a loop over shapes and one over their contours", E.loc)
    e = rs[0]
    a, b = e.loops[1:]
    ca, cb = E.forms[a.id], E.forms[b.id]
    if v.k != "v" or not any(ph is v for ph, _ in a.phis.values()):
        raise Bad(f"what is added is not what was turned round: {V.show(v)[:200]}", E.loc)
    init = [i for ph, i in a.phis.values() if ph is v][0]
    T = scev.Subst(I, {**ca.form, **cb.form})
    root, path = e.data[0].a
    ix = [T(x[1]) for x in path if x[0] == "i"]
    ctx.true(key + "/turned/which", len(ix) == 2 and ix[0] is ca.K and ix[1] is cb.K, "not the contours one after the other are turned round", E.loc)
    if ca.trip is None or cb.trip is None:
        raise Bad("the number of contours turned round is not known", E.loc)
    ctx.eq(key + "/turned/every-shape", T(ca.trip), I.seq_len(init), care, E.loc)
    ctx.eq(key + "/turned/every-contour", T(cb.trip), T(I.seq_len(I.seq_get(v, ca.K))), conj(care, V.ge(ca.K, V.ZERO), V.lt(ca.K, I.seq_len(init))), E.loc)
    ctx.eq(key + "/turned/always", T(e.pc), V.T, conj(V.ge(cb.K, V.ZERO), V.lt(cb.K, T(cb.trip))), E.loc)
    return init


def line(back, *pts):
    g = [G2(p) for p in pts]
    return [(v, u) if back else (u, v) for u, v in zip(g, g[1:])]
