"""Entry points pass on exactly what the caller gave.

Every public way in (integer and float overlays, simplify, clip, slice, single-call and shorthand forms) is interpreted
with the layer below replaced by uninterpreted functions: adding a closed contour, adding a polyline, choosing edges,
building the graph, extracting, rounding a point, fitting the adapter, converting back.  What the entry point returns is
then a term over those functions, and is compared with the term the caller asked for; what was added is compared contour by
contour and point by point with the sources, whatever their number.  The layers below have their own properties."""
from .lib import *
import scev
import seqs
import models
import compare

MADE = ("graph", "string_graph", "links_overlay", "links_filler", "links_all", "links_clip", "links_string", "added")
UNITV = mk("struct", ("()",))
MAIN = ("CounterClockwise", True, V.ZERO)          # direction, simplify, smallest area of the short forms


class Base:
    """stand-ins for the layer below"""

    def __init__(self, ctx):
        self.ctx = ctx
        self.I = Interp(ctx.prog, hooks={
            "append_path_iter": self.on_contour,
            "StringOverlay::add_string_line": self.on_line,
            "StringOverlay::add_string_path": self.on_path,
            "StringOverlay::add_string_contour": self.on_ring,
            "FloatPointAdapter::with_iter": self.on_fit,
            "with_iter": self.on_fit,
            "iter_paths": self.on_paths,
            "float_to_int": self.on_round,
            "sqr_float_to_int": self.plain("square"),
            "to_float": self.plain("to_float"),
            "simplify_contour": self.on_clean,
            "build_with_overlay_filter": self.links("overlay", 4),
            "build_with_filler_filter": self.links("filler", 3),
            "build_without_filter": self.links("all", 3),
            "build_string_with_clip_rule": self.links("clip", 4),
            "build_string_all": self.links("string", 3),
            "OverlayGraph::new": self.plain("graph"),
            "StringGraph::new": self.plain("string_graph"),
            "filter_by_rule": self.plain("selected"),
            "extract": self.on_extract,
            "extract_shape_vectors": self.plain("shape_vectors"),
            "extract_separate_vectors": self.plain("vectors"),
            "extract_shapes_custom": self.on_string_extract,
            "into_clip_string_lines": self.plain("clip_paths"),
            "points_count": self.any_size,
        })
        link = ("slice", ty_of(ctx, "OverlayLink"))
        shapes = ("slice", ("slice", ("slice", POINT)))
        self.types = dict(graph=ty_of(ctx, "OverlayGraph"), string_graph=ty_of(ctx, "StringGraph"), selected=("slice", ("bool",)), shapes=shapes, shapes_of=shapes,
                          string_shapes=shapes, clip_paths=("slice", ("slice", POINT)), square=("int", "usize"), points_count=("int", "usize"),
                          shape_vectors=("slice", ("param", "V")), vectors=("slice", ("param", "V")), to_float=("slice", ("param", "F")), clean=("slice", ("param", "F")),
                          **{"links_" + k: link for k in ("overlay", "filler", "all", "clip", "string")})
        self.k = nat("k", 0, None, "usize")

    # ---- plain functions of their arguments
    def val(self, st, x):
        return self.norm(strip(self.I.contents(st, x)))

    def norm(self, v):
        """one form for each value: plain data field by field, what the layer below made as it is"""
        if v.k == "app" and v.a[0] in MADE or v.k == "v" and (v.ty is None or v.ty[0] != "adt" or v.ty[1].split("::")[-1] not in ("FloatPointAdapter", "Solver")):
            return v
        if v.k == "struct":
            return V.apply_r("plain", plain_data, v)
        return V.apply_r("plain", plain_data, self.I.expand(v))

    def term(self, name, *args):
        return V.lapp(name, *[self.norm(a) for a in args], ty=self.types[name])

    def plain(self, name):
        def h(I, f, args, tys, dty, st, line):
            return self.term(name, *[self.val(st, a) for a in args]), V.T, st
        return h

    def any_size(self, I, f, args, tys, dty, st, line):
        return self.term("points_count", self.val(st, args[0])), V.T, st

    def links(self, kind, n):
        def h(I, f, args, tys, dty, st, line):
            vs = [self.val(st, a) for a in args]
            if len(vs) != n:
                raise Bad(f"the edges are chosen with {len(vs)} arguments, expected {n}")
            segs = [self.I.contents(st, a) for a, t in zip(args, tys) if "Segment" in I.p.ty_str(t)]
            rest = sorted(((I.p.ty_str(t), v) for t, v in zip(tys, vs) if "Segment" not in I.p.ty_str(t)), key=lambda x: x[0].split("::")[-1])
            I.event("links", (kind, strip(segs[0])), line)
            return self.term("links_" + kind, strip(segs[0]), *[v for _, v in rest]), V.T, st
        return h

    # ---- what is added
    def grow(self, st, ref, I):
        old = I.read(st, ref)
        st = st.copy()
        I.write(st, ref, mk("app", ("added", old, V.num(len(I.events) - 1)), old.ty or ("slice", ("param", "S"))))
        return UNITV, V.T, st

    def sequence(self, I, st, it):
        """(number of items, k-th item) of an iterator"""
        n = models.length(I, st, it)
        d = models.advance(I, it, self.k)
        o = models.next_(I, st, d) if n is not None and d is not None else None
        if o is None:
            raise Bad(f"the points handed over are not understood: {V.show(it)[:200]}")
        return n, I.contents(o[2], models.payload(o[0]))

    def on_paths(self, I, f, args, tys, dty, st, line):
        s = paths_of(strip(I.contents(st, args[0])))
        return mk("struct", ("it.vec", s, V.ZERO, I.seq_len(s))), V.T, st

    def segments(self, I, ref):
        return mk("ref", (ref.a[0], tuple(ref.a[1]) + (("f", field_ix(self.ctx, "StringOverlay", "segments")),)))

    def on_contour(self, I, f, args, tys, dty, st, line):
        n, x = self.sequence(I, st, args[1])
        I.event("add", ("contour", n, x, I.expand(args[2])), line)
        return self.grow(st, args[0], I)

    def on_line(self, I, f, args, tys, dty, st, line):
        l = I.contents(st, args[1])
        I.event("add", ("line", I.seq_get(l, V.ZERO), I.seq_get(l, V.ONE), None), line)
        return self.grow(st, self.segments(I, args[0]), I)

    def on_ring(self, *a):
        return self.on_path(*a, kind="ring")

    def on_path(self, I, f, args, tys, dty, st, line, kind="path"):
        l = strip(I.contents(st, args[1]))
        I.event("add", (kind, I.seq_len(l), I.seq_get(l, self.k), None), line)
        return self.grow(st, self.segments(I, args[0]), I)

    # ---- float side
    def on_fit(self, I, f, args, tys, dty, st, line):
        ad = mk("v", ("adapter",), dty)
        I.event("fit", (args[0], ad), line)
        return ad, V.T, st

    def on_round(self, I, f, args, tys, dty, st, line):
        return self.rounded(self.val(st, args[0]), self.val(st, args[1])), V.T, st

    def rounded(self, ad, q):
        ad, q = self.norm(strip(ad)), self.norm(strip(q))
        return self.I.point(V.lapp("round_x", ad, q, ty=("int", "i32")), V.lapp("round_y", ad, q, ty=("int", "i32")))

    def on_clean(self, I, f, args, tys, dty, st, line):
        old = I.read(st, args[0])
        st = st.copy()
        I.write(st, args[0], self.term("clean", old, *[self.val(st, a) for a in args[1:]]))
        return bvar("cleaned"), V.T, st

    # ---- extraction
    def on_extract(self, I, f, args, tys, dty, st, line):
        g, sel = self.val(st, args[0]), args[1]
        rest = [self.val(st, a) for a in args[2:]]
        return self.extract(g, self.selection(I, st, g, sel, rest[0]), rest), V.T, st

    def on_string_extract(self, I, f, args, tys, dty, st, line):
        if "StringGraph" not in I.p.ty_str(tys[0]) or "Float" in I.p.ty_str(tys[0]):
            return NotImplemented
        return self.term("string_shapes", *[self.val(st, a) for a in args]), V.T, st

    def selection(self, I, st, g, sel, rule):
        """the rule whose edges are walked, whichever way they were chosen"""
        own = get(self.ctx, I, g, "OverlayGraph", "links")
        given = g.a[2] if g.k == "app" and g.a[0] == "graph" else None
        sel = I.contents(st, sel)
        if sel.k == "app" and sel.a[0] == "selected":
            if I.expand(own) is not I.expand(sel.a[1]):
                raise Bad(f"edges of something else are selected: {V.show(sel)[:200]}")
            if given is not None and given.a[0] == "links_overlay":
                raise Bad("edges are selected twice")
            return sel.a[2]
        n, x = I.seq_len(sel), I.seq_get(sel, self.k)
        if given is None or given.a[0] != "links_overlay":
            raise Bad("a graph of unselected edges is walked without selecting")
        if not any(n is I.seq_len(l) for l in (own, given)):
            raise Bad(f"the marks of the walk are {V.show(n)[:150]} in number, not one per edge")
        if x is not V.F:
            raise Bad(f"an edge is marked as used before the walk: {V.show(x)[:150]}")
        return rule_of(given)

    def extract(self, g, rule, rest):
        if g.k == "app" and g.a[0] == "graph":
            # how the graph was made: segments, fill rule, solver of the splitting, solver of the graph
            l = g.a[2]
            return self.term("shapes", l.a[1], fill_of(l), solver_of(l), g.a[1], rule, *rest)
        return self.term("shapes_of", g, rule, *rest)


def strip(v):
    while v.k == "app" and v.a[0] == "&":
        v = v.a[1]
    return v


def arg_of(l, name):
    for x in l.a[2:]:
        if x.k in ("enum", "struct") and str(x.a[0]).split("::")[-1] == name:
            return x
    raise Bad(f"the edges are chosen without {name}: {V.show(l)[:200]}")


def fill_of(l):
    return arg_of(l, "FillRule")


def rule_of(l):
    return arg_of(l, "OverlayRule")


def solver_of(l):
    return arg_of(l, "Solver")


def plain_data(v):
    """structures and enums without the marks of where they come from"""
    if v.k == "struct":
        return mk("struct", (v.a[0],) + tuple(V.apply_r("plain", plain_data, x) if isinstance(x, V.N) else x for x in v.a[1:]))
    if v.k == "enum":
        return mk("enum", (v.a[0], v.a[1]) + tuple(tuple(V.apply_r("plain", plain_data, y) for y in x) if x else () for x in v.a[2:]))
    return v


class Src:
    """an input: a contour (0), contours (1), shapes (2), or a float source"""

    def __init__(self, arg, depth, role=None, kind="contour"):
        self.arg, self.depth, self.role, self.kind = arg, depth, role, kind


def run(ctx):
    integer(ctx)
    strings(ctx)
    floats(ctx)
    ctx.floor(300)


# ------------------------------------------------------------------------------------------------ one entry point
class Entry:
    def __init__(self, ctx, tag, f, given=None, base=None):
        self.ctx, self.tag, self.f = ctx, tag, f
        self.B = (base or Base)(ctx)
        I = self.I = self.B.I
        p = ctx.prog
        b = p.bodies[f["id"]]
        self.byty = {}
        self.vals, self.args = [], []
        for i in range(1, b["argc"] + 1):
            ty = p.ty(b["locals"][i])
            base = ty
            while base[0] == "ref":
                base = base[1]
            v = (given or {}).get(p.ty_str(base).split("::")[-1].split("<")[0])
            if v is None:
                v = self.fresh(i, base)
            self.args.append(v)
            self.byty.setdefault(p.ty_str(base).split("::")[-1].split("<")[0], []).append(v)
            self.vals.append(v)
        self.R = call(ctx, f, self.vals, interp=I)
        self.forms = scev.closed(I, self.R.loops)
        self.loc = self.R.loc

    def fresh(self, i, ty):
        if ty[0] in ("slice", "array", "param") or ty[0] == "adt" and ty[1].split("::")[-1] in ("Vec", "FloatPointAdapter", "OverlayGraph", "StringGraph", "FloatOverlayGraph", "FloatStringGraph"):
            return mk("v", (f"in{i}",), ty)
        return self.I.var(f"in{i}", ty)

    def one(self, name):
        vs = self.byty.get(name, [])
        if len(vs) != 1:
            raise Bad(f"{len(vs)} arguments of type {name}", self.loc)
        return self.I.expand(vs[0])

    def enum(self, ty, variant):
        return self.I.expand(enum_of(self.ctx, self.I, ty, variant))

    def solver(self):
        return default_solver(self.ctx)

    def given_to(self):
        """what the edges were chosen from: the segments handed to the link builder, and how"""
        es = [e for e in self.R.events if e.kind == "links"]
        if len(es) != 1:
            raise Bad(f"edges are chosen {len(es)} times", self.loc)
        return es[0].data[1]

    def returns(self, want):
        self.ctx.eq(self.tag + "/result", self.R.ret, want, loc=self.loc)

    # ---- what was added, from the last back to the first
    def spine(self, segs):
        out = []
        self.missing = {}
        by = {}
        for l in self.R.loops:
            for key, (ph, init) in l.phis.items():
                by[ph.id] = (l, key, init)
        inside = []

        def back(v, stop):
            n = 0
            while v is not stop:
                n += 1
                if n > 200:
                    raise Bad("the additions are not understood", self.loc)
                if v.k == "app" and v.a[0] == "added":
                    out.append(V.pconst(v.a[2]))
                    v = v.a[1]
                elif v.k == "ite":
                    # different pasts: one of them has all there is, the others lack some of it
                    keep, ends, all_ = list(out), [], []
                    for c, l in seqs.leaves(v):
                        out[:] = []
                        ends.append(back(l, stop))
                        all_.append((c, list(out)))
                    if any(e is not ends[0] for e in ends):
                        raise Bad(f"the additions are not understood: they start from {[V.show(e)[:100] for e in ends]}", self.loc)
                    most = max((o for _, o in all_), key=len)
                    for c, o in all_:
                        for e in most:
                            if e not in o:
                                self.missing.setdefault(e, []).append(c)
                        if any(e not in most for e in o):
                            raise Bad("different things are added in different cases", self.loc)
                    out[:] = keep + most
                    return ends[0]
                elif v.id in by:
                    l, key, init = by[v.id]
                    if key not in l.nexts:
                        raise Bad("a loop that adds is left in an unusual way", self.loc)
                    back(V.restrict(l.nexts[key], l.cont), v)
                    v = init
                else:
                    return v
            return v
        base = back(segs, None)
        return base, out[::-1]

    def added(self, segs, base, sources, adapter=None):
        """segs is base with every contour of every source added once, and nothing else"""
        ctx, I, tag = self.ctx, self.I, self.tag
        b, evs = self.spine(segs)
        if base is None:
            ctx.true(tag + "/starts-empty", I.is_seq(b) and V.pconst(I.seq_len(b)) == 0, f"it starts from {V.show(b)[:150]}", self.loc)
        else:
            ctx.true(tag + "/keeps-what-was-there", b is base, f"it continues {V.show(b)[:150]}", self.loc)
        events = self.R.I.events
        ctx.true(tag + "/one-each", len(evs) == len(sources) and len([e for e in self.R.events if e.kind == "add"]) == len(evs),
                 f"{len(evs)} places add something, expected {len(sources)}", self.loc)
        left = [events[i] for i in evs]
        for j, s in enumerate(sources):
            src = self.args[s.arg]
            hit = [e for e in left if any(scev.mentions(x, {src.id}) for x in self.seen(e) if isinstance(x, V.N))]
            if len(hit) != 1:
                raise Bad(f"{len(hit)} places add from argument {s.arg + 1}: {[[V.show(x)[:300] for x in e.data if isinstance(x, V.N)] for e in left]}", self.loc)
            left.remove(hit[0])
            self.add(f"{tag}/{s.kind}-{j}", hit[0], s, src, adapter)

    def seen(self, e):
        """what was handed over, as a function of the arguments and of how often each loop has run"""
        I, k = self.I, self.B.k
        S = at_event(I, self.forms, e)
        out = []
        for x in e.data:
            if isinstance(x, V.N):
                m = {}
                for c in self.forms.values():
                    for key, (ph, init) in c.lp.phis.items():
                        if not scev.mentions(x, {ph.id}) or any(l.id == c.lp.id for l in e.loops):
                            continue
                        try:
                            b = seqs.built(I, self.forms, ph)
                        except seqs.Unknown:
                            continue
                        if len(b.items) != 1 or V.pconst(I.seq_len(b.base)) != 0 \
                                or compare.possible(conj(V.ge(b.K, V.ZERO), V.lt(b.K, b.trip), V.b_not(b.items[0][0]))) is not None:
                            continue
                        m[scev.phi_term(I.seq_len(ph)).id] = b.trip
                        sel = I.seq_get(ph, k)
                        for t in terms_of(sel):
                            if t.k == "app" and t.a[0] == "sel" and t.a[1] is ph:
                                m[t.id] = scev.Subst(I, {b.kterm.id: k})(b.items[0][1])
                x = S(scev.Subst(I, m)(x))
            out.append(x)
        return out

    def add(self, key, e, s, src, adapter):
        ctx, I, B = self.ctx, self.I, self.B
        S = at_event(I, self.forms, e)
        loops = [self.forms[l.id] for l in e.loops if l.id in self.forms]
        cur = src
        depth = s.depth
        if depth == "source":
            cur, depth = paths_of(src), 1
        kind, x, y, role = self.seen(e)
        if s.kind == "segment" and kind == "path":
            s = Src(s.arg, s.depth, s.role, "path")
        want_loops = depth + (1 if s.kind == "segment" else 0)
        if len(loops) != want_loops or any(c.trip is None for c in loops):
            raise Bad(f"expected {want_loops} loop(s) around the place that adds a {s.kind}, found {len(loops)}", self.loc)
        care = V.T
        for i, c in enumerate(loops):
            n = I.seq_len(cur)
            if i >= depth:
                n = V.ite(V.ge(n, V.ONE), V.sub(n, V.ONE), V.ZERO)
            ctx.eq(f"{key}/every-one-{i}", S(c.trip), n, care, self.loc)
            care = conj(care, V.ge(c.K, V.ZERO), V.lt(c.K, n))
            if i < depth:
                cur = item(I, I.seq_get(cur, c.K))
        ctx.eq(f"{key}/always", S(e.pc), V.T, care, self.loc)
        for c in self.missing.get(self.R.I.events.index(e), []):
            ctx.eq(f"{key}/kept", S(c), V.F, care, self.loc)
        conv = (lambda q: B.rounded(adapter, q)) if adapter is not None else (lambda q: q)
        n = I.seq_len(cur)
        if s.kind == "contour":
            if kind != "contour":
                raise Bad(f"added as a {kind}", self.loc)
            ctx.eq(f"{key}/role", role, s.role, care, self.loc)
            ctx.eq(f"{key}/number-of-points", x, n, care, self.loc)
            ctx.eq(f"{key}/points", y, conv(I.seq_get(cur, B.k)), conj(care, V.lt(B.k, n)), self.loc)
        elif s.kind in ("path", "ring"):
            if kind != s.kind:
                raise Bad(f"added as a {kind}", self.loc)
            ctx.eq(f"{key}/number-of-points", x, n, care, self.loc)
            ctx.eq(f"{key}/points", y, conv(I.seq_get(cur, B.k)), conj(care, V.lt(B.k, n)), self.loc)
        elif s.kind == "line":
            if kind != "line":
                raise Bad(f"added as a {kind}", self.loc)
            ctx.eq(f"{key}/from", x, I.seq_get(cur, V.ZERO), care, self.loc)
            ctx.eq(f"{key}/to", y, I.seq_get(cur, V.ONE), care, self.loc)
        elif s.kind == "segment":
            K = loops[-1].K
            if kind != "line":
                raise Bad(f"added as a {kind}", self.loc)
            ctx.eq(f"{key}/from", x, conv(I.seq_get(cur, K)), care, self.loc)
            ctx.eq(f"{key}/to", y, conv(I.seq_get(cur, V.add(K, V.ONE))), care, self.loc)


def item(I, v):
    """an element, seen through the reference to it"""
    return strip(I.read(State(), v)) if v.k == "ref" or v.ty is not None and v.ty[0] == "ref" else strip(v)


def default_solver(ctx):
    I = Interp(ctx.prog)
    return I.expand(call(ctx, ctx.prog.method("Solver", "default", "Default"), [], interp=I).ret)


def paths_of(src):
    """the paths of a float source (see the property on float sources)"""
    return mk("app", ("paths", src), ("slice", ("ref", ("slice", ("param", "P")))))


# ------------------------------------------------------------------------------------------------ integer overlays
def segs_of(ctx, I, v, ty):
    return get(ctx, I, v, ty, "segments")


def trait_fn(ctx, trait, name, self_ty):
    p = ctx.prog
    out = [f for f in p.fns if f["m"] == name and f["id"] in p.bodies and (f["trait"] or "").split("::")[-1].split("<")[0] == trait
           and f["self"] is not None and self_ty(p, p.ty(f["self"]))]
    if len(out) != 1:
        raise Bad(f"{len(out)} implementations of {trait}::{name}: {[f['n'] for f in out]}")
    return out[0]


def list_depth(p, ty):
    d = -1
    while ty[0] in ("slice", "array") or ty[0] == "adt" and ty[1].endswith("vec::Vec"):
        d, ty = d + 1, ty[1] if ty[0] != "adt" else ty[2][0]
    return d


def is_vec(ty):
    return ty[0] == "adt"


def region(E, segs, fill, rule, solver, direction, simplify, area):
    return E.B.term("shapes", segs, fill, solver, solver, rule, rule, direction, simplify, area)


def integer(ctx):
    p = ctx.prog
    O = "Overlay"
    for m in ("overlay", "overlay_custom"):
        with ctx.case(f"Overlay.{m}"):
            E = Entry(ctx, f"Overlay.{m}", p.method(O, m))
            segs = segs_of(ctx, E.I, E.args[0], O)
            ctx.true(E.tag + "/all-edges", E.given_to() is segs, "edges are chosen from something else than what was added", E.loc)
            long = m == "overlay_custom"
            E.returns(region(E, segs, E.one("FillRule"), E.one("OverlayRule"), E.one("Solver") if long else E.solver(),
                             E.one("ContourDirection") if long else E.enum("ContourDirection", MAIN[0]),
                             E.one("bool") if long else V.const(MAIN[1]), E.one("usize") if long else MAIN[2]))
    for m, want in (("into_graph", "filler"), ("into_graph_with_solver", "filler"), ("into_shape_vectors", "overlay"), ("into_separate_vectors", "all")):
        with ctx.case(f"Overlay.{m}"):
            E = Entry(ctx, f"Overlay.{m}", p.method(O, m))
            segs = segs_of(ctx, E.I, E.args[0], O)
            sv = E.one("Solver") if m != "into_graph" else E.solver()
            g = graph_of(E, "graph", want, segs, sv, [E.one("OverlayRule")] if want == "overlay" else [])
            w = {"filler": g, "overlay": None, "all": None}[want]
            if want == "overlay":
                w = E.B.term("shape_vectors", g, E.one("OverlayRule"))
            elif want == "all":
                w = E.B.term("vectors", g)
            E.returns(w)
    with ctx.case("OverlayGraph.extract"):
        for m in ("extract_shapes", "extract_shapes_custom"):
            E = Entry(ctx, f"OverlayGraph.{m}", p.method("OverlayGraph", m))
            long = m == "extract_shapes_custom"
            E.returns(E.B.term("shapes_of", E.args[0], E.one("OverlayRule"), E.one("OverlayRule"),
                               E.one("ContourDirection") if long else E.enum("ContourDirection", MAIN[0]),
                               E.one("bool") if long else V.const(MAIN[1]), E.one("usize") if long else MAIN[2]))
    # simplify: the shape alone, with the rule that keeps the subject
    for name, ok, depth in (("contour", lambda p, t: is_vec(t) and list_depth(p, t) == 0, 0), ("contours", lambda p, t: not is_vec(t) and list_depth(p, t) == 1, 1),
                            ("shape", lambda p, t: is_vec(t) and list_depth(p, t) == 1, 1), ("shapes", lambda p, t: not is_vec(t) and list_depth(p, t) == 2, 2)):
        with ctx.case(f"simplify/{name}"):
            fs = [f for f in p.fns if f["m"] == "simplify" and f["id"] in p.bodies and f["self"] is not None and (f["trait"] or "").split("::")[-1] == "Simplify"
                  and "i_overlay" in f["n"] + str(f["trait"]) and ok(p, p.ty(f["self"]))]
            ctx.true(f"simplify/{name}/found", len(fs) == 1, f"{[f['n'] for f in fs]}")
            E = Entry(ctx, f"simplify/{name}", fs[0])
            segs = E.given_to()
            E.added(segs, None, [Src(0, depth, E.enum("ShapeType", "Subject"))])
            E.returns(region(E, segs, E.one("FillRule"), E.enum("OverlayRule", "Subject"), E.solver(), E.one("ContourDirection"), E.one("bool"), E.one("usize")))


def graph_of(E, name, kind, segs, solver, more=()):
    """the graph of the edges chosen from segs; more: what else they were chosen by"""
    ctx = E.ctx
    fill = E.one("FillRule")
    rest = sorted([fill, solver] + list(more), key=lambda v: str(v.a[0]).split("::")[-1])
    es = [e for e in E.R.events if e.kind == "links"]
    ctx.true(E.tag + "/all-edges", len(es) == 1 and es[0].data[1] is segs, "edges are chosen from something else than what was added", E.loc)
    ls = E.B.term("links_" + kind, segs, *rest)
    return E.B.term(name, solver, ls)


# ------------------------------------------------------------------------------------------------ polylines
BODY = (("IntShapes", lambda p, t: is_vec(t) and list_depth(p, t) == 2, 2), ("IntShape", lambda p, t: is_vec(t) and list_depth(p, t) == 1, 1),
        ("contour", lambda p, t: not is_vec(t) and list_depth(p, t) == 0, 0))
LINES = (("line", 0, "line"), ("lines", 1, "line"), ("path", 0, "path"), ("paths", 1, "path"))


def strings(ctx):
    p = ctx.prog
    SO, SG = "StringOverlay", "StringGraph"
    for m in ("clip_string_lines", "clip_string_lines_with_solver"):
        with ctx.case(f"StringOverlay.{m}"):
            E = Entry(ctx, f"StringOverlay.{m}", p.method(SO, m))
            sv = E.solver() if m == "clip_string_lines" else E.one("Solver")
            E.returns(clipped(E, segs_of(ctx, E.I, E.args[0], SO), sv))
    for m in ("into_graph", "into_graph_with_solver"):
        with ctx.case(f"StringOverlay.{m}"):
            E = Entry(ctx, f"StringOverlay.{m}", p.method(SO, m))
            sv = E.solver() if m == "into_graph" else E.one("Solver")
            E.returns(graph_of(E, "string_graph", "string", segs_of(ctx, E.I, E.args[0], SO), sv))
    with ctx.case("StringGraph.extract_shapes"):
        E = Entry(ctx, "StringGraph.extract_shapes", p.method(SG, "extract_shapes"))
        E.returns(E.B.term("string_shapes", E.args[0], E.one("StringRule"), E.enum("ContourDirection", MAIN[0]), MAIN[2]))
    for m, kind in (("add_string_lines", "line"), ("add_string_paths", "path"), ("add_string_contours", "ring")):
        with ctx.case(f"StringOverlay.{m}"):
            E = Entry(ctx, f"StringOverlay.{m}", p.method(SO, m))
            E.added(segs_of(ctx, E.I, E.R.out[0], SO), segs_of(ctx, E.I, E.args[0], SO), [Src(1, 1, None, kind)])
    for body, ok, depth in BODY:
        for what, d2, kind in LINES:
            for trait, pre in (("IntClip", "clip_"), ("IntSlice", "slice_by_")):
                tag = f"{body}.{pre}{what}"
                with ctx.case(tag):
                    E = Entry(ctx, tag, trait_fn(ctx, trait, pre + what, ok))
                    segs = E.given_to()
                    E.added(segs, None, [Src(0, depth, E.enum("ShapeType", "Subject")), Src(1, d2, None, kind)])
                    E.returns(clipped(E, segs, E.solver()) if trait == "IntClip" else sliced(E, segs, E.solver()))


def clipped(E, segs, sv):
    g = graph_of(E, "string_graph", "clip", segs, sv, [E.one("ClipRule")])
    return E.B.term("clip_paths", g)


def sliced(E, segs, sv):
    g = graph_of(E, "string_graph", "string", segs, sv)
    return E.B.term("string_shapes", g, E.enum("StringRule", "Slice"), E.enum("ContourDirection", MAIN[0]), MAIN[2])


# ------------------------------------------------------------------------------------------------ floats
FO, FG, FSO, FSG = "FloatOverlay", "FloatOverlayGraph", "FloatStringOverlay", "FloatStringGraph"


def floats(ctx):
    p = ctx.prog
    filters(ctx)
    for ty, base in ((FO, "Overlay"), (FSO, "StringOverlay")):
        with ctx.case(f"{ty}.with_adapter"):
            E = Entry(ctx, f"{ty}.with_adapter", p.method(ty, "with_adapter"))
            same(ctx, E, "adapter", get(ctx, E.I, E.R.ret, ty, "adapter"), E.one("FloatPointAdapter"))
            E.added(segs_of(ctx, E.I, get(ctx, E.I, E.R.ret, ty, "overlay"), base), None, [])
    # adding to what is there
    for ty, base, m, depth, kind in ((FO, "Overlay", "unsafe_add_contour", 0, "contour"), (FO, "Overlay", "unsafe_add_source", "source", "contour"),
                                     (FSO, "StringOverlay", "unsafe_add_shape_contour", 0, "contour"), (FSO, "StringOverlay", "unsafe_add_shapes", "source", "contour"),
                                     (FSO, "StringOverlay", "unsafe_add_string_line", 0, "segment"), (FSO, "StringOverlay", "unsafe_add_string_lines", "source", "segment")):
        with ctx.case(f"{ty}.{m}"):
            E = Entry(ctx, f"{ty}.{m}", p.method(ty, m))
            I, me = E.I, E.args[0]
            ad = get(ctx, I, me, ty, "adapter")
            same(ctx, E, "adapter", get(ctx, I, E.R.ret, ty, "adapter"), ad)
            role = None
            if kind == "contour":
                role = E.one("ShapeType") if ty == FO else E.enum("ShapeType", "Subject")
            E.added(segs_of(ctx, I, get(ctx, I, E.R.ret, ty, "overlay"), base), segs_of(ctx, I, get(ctx, I, me, ty, "overlay"), base), [Src(1, depth, role, kind)], ad)
    # new overlays of whole sources
    for ty, base, m, srcs in ((FO, "Overlay", "with_subj_and_clip", [("Subject", "contour"), ("Clip", "contour")]), (FO, "Overlay", "with_subj", [("Subject", "contour")]),
                              (FSO, "StringOverlay", "with_shape_and_string", [("Subject", "contour"), (None, "segment")])):
        with ctx.case(f"{ty}.{m}"):
            E = Entry(ctx, f"{ty}.{m}", p.method(ty, m))
            ad = fitted(E, range(len(srcs)))
            same(ctx, E, "adapter", get(ctx, E.I, E.R.ret, ty, "adapter"), ad)
            E.added(segs_of(ctx, E.I, get(ctx, E.I, E.R.ret, ty, "overlay"), base), None, sources(E, srcs), ad)
    # graphs
    for ty, gty, base, gname, kind in ((FO, FG, "Overlay", "graph", "filler"), (FSO, FSG, "StringOverlay", "string_graph", "string")):
        for m in ("into_graph", "into_graph_with_solver"):
            with ctx.case(f"{ty}.{m}"):
                E = Entry(ctx, f"{ty}.{m}", p.method(ty, m))
                me = E.args[0]
                g = graph_of(E, gname, kind, segs_of(ctx, E.I, get(ctx, E.I, me, ty, "overlay"), base), E.solver() if m == "into_graph" else E.one("Solver"))
                same(ctx, E, "graph", get(ctx, E.I, E.R.ret, gty, "graph"), g)
                same(ctx, E, "adapter", get(ctx, E.I, E.R.ret, gty, "adapter"), get(ctx, E.I, me, ty, "adapter"))
    for ty, name, rule in ((FG, "shapes_of", "OverlayRule"), (FSG, "string_shapes", "StringRule")):
        for m in ("extract_shapes", "extract_shapes_custom"):
            with ctx.case(f"{ty}.{m}"):
                E = Entry(ctx, f"{ty}.{m}", p.method(ty, m))
                I, me, long = E.I, E.args[0], m == "extract_shapes_custom"
                ad, g, r = get(ctx, I, me, ty, "adapter"), get(ctx, I, me, ty, "graph"), E.one(rule)
                fl = E.one("ContourFilter") if long else default_filter(E)
                d = E.one("ContourDirection") if long else E.enum("ContourDirection", MAIN[0])
                if name == "shapes_of":
                    shapes = E.B.term(name, g, r, r, d, get(ctx, I, fl, "ContourFilter", "simplify_contour"), smallest(E, ad, fl))
                else:
                    shapes = E.B.term(name, g, r, d, smallest(E, ad, fl))
                E.returns(back(E, shapes, ad, fl))
    # overlays
    for m in ("overlay", "overlay_custom"):
        with ctx.case(f"{FO}.{m}"):
            E = Entry(ctx, f"{FO}.{m}", p.method(FO, m))
            I, me, long = E.I, E.args[0], m == "overlay_custom"
            fl = E.one("ContourFilter") if long else default_filter(E)
            float_region(E, segs_of(ctx, I, get(ctx, I, me, FO, "overlay"), "Overlay"), get(ctx, I, me, FO, "adapter"), E.one("OverlayRule"), fl,
                         E.one("ContourDirection") if long else E.enum("ContourDirection", MAIN[0]), E.one("Solver") if long else E.solver())
    for trait, m, srcs in (("SingleFloatOverlay", "overlay", ["Subject", "Clip"]), ("SimplifyShape", "simplify_shape", ["Subject"]), ("SimplifyShape", "simplify_shape_with_solver", ["Subject"])):
        with ctx.case(f"{trait}.{m}"):
            E = Entry(ctx, f"{trait}.{m}", trait_fn(ctx, trait, m, lambda p, t: True))
            ad = fitted(E, range(len(srcs)))
            segs = E.given_to()
            E.added(segs, None, sources(E, [(r, "contour") for r in srcs]), ad)
            if trait == "SingleFloatOverlay":
                float_region(E, segs, ad, E.one("OverlayRule"), default_filter(E), E.enum("ContourDirection", MAIN[0]), E.solver())
            else:
                area = [v for v, i in zip(E.args, range(1, 99)) if p.ty(E.R.body["locals"][i]) == ("param", "T")]
                ctx.true(E.tag + "/one-area", len(area) == 1, f"{len(area)} areas")
                fl = mkstruct(ctx, "ContourFilter", min_area=area[0], simplify_contour=V.T, clean_result=V.T)
                float_region(E, segs, ad, E.enum("OverlayRule", "Subject"), fl, E.one("ContourDirection"), E.one("Solver") if m.endswith("solver") else E.solver())
    # polylines
    with ctx.case(f"{FSO}.clip"):
        E = Entry(ctx, f"{FSO}.clip", p.method(FSO, "clip_string_lines_with_solver"))
        me = E.args[0]
        segs = segs_of(ctx, E.I, get(ctx, E.I, me, FSO, "overlay"), "StringOverlay")
        E.returns(E.B.term("to_float", clipped(E, segs, E.one("Solver")), get(ctx, E.I, me, FSO, "adapter")))
    for trait, m in (("FloatClip", "clip_by"), ("FloatClip", "clip_by_with_solver"), ("FloatSlice", "slice_by"), ("FloatSlice", "slice_custom_by")):
        with ctx.case(f"{trait}.{m}"):
            E = Entry(ctx, f"{trait}.{m}", trait_fn(ctx, trait, m, lambda p, t: True))
            I = E.I
            ad = fitted(E, (0, 1))
            segs = E.given_to()
            # clip: the receiver is the polyline; slice: the receiver is the body
            body, line = (1, 0) if trait == "FloatClip" else (0, 1)
            E.added(segs, None, [Src(body, "source", E.enum("ShapeType", "Subject")), Src(line, "source", None, "segment")], ad)
            long = m in ("clip_by_with_solver", "slice_custom_by")
            sv = E.one("Solver") if long else E.solver()
            if trait == "FloatClip":
                E.returns(E.B.term("to_float", clipped(E, segs, sv), ad))
            else:
                fl = E.one("ContourFilter") if long else default_filter(E)
                shapes = E.B.term("string_shapes", graph_of(E, "string_graph", "string", segs, sv), E.enum("StringRule", "Slice"),
                                  E.one("ContourDirection") if long else E.enum("ContourDirection", MAIN[0]), smallest(E, ad, fl))
                E.returns(back(E, shapes, ad, fl))


def same(ctx, E, what, got, want):
    n = E.B.norm
    ctx.true(f"{E.tag}/{what}", n(strip(got)) is n(strip(want)), f"it is {V.show(n(strip(got)))[:200]}, expected {V.show(n(strip(want)))[:200]}", E.loc)


def sources(E, srcs):
    return [Src(i, "source", E.enum("ShapeType", r) if r else None, kind) for i, (r, kind) in enumerate(srcs)]


def fitted(E, which):
    """the adapter, fitted to every point of every source and nothing else"""
    ctx = E.ctx
    es = [e for e in E.R.events if e.kind == "fit"]
    if len(es) != 1:
        raise Bad(f"{len(es)} adapters are fitted", E.loc)
    got = []
    odd = []

    def walk(v):
        if v.k == "app" and v.a[0] == "paths":
            got.append(v.a[1])
        elif v.k == "app" and v.a[0] == "ret" and str(v.a[1]).endswith("::flatten"):
            walk(v.a[2])
        elif v.k == "struct":
            name = str(v.a[0]).split("::")[-1]
            if name == "it.vec":
                s, lo, hi = v.a[1:]
                if V.pconst(lo) != 0 or hi is not E.I.seq_len(s):
                    odd.append("part of a source")
                walk(s)
            elif name in ("Flatten", "FlattenCompat", "FlatMap", "Fuse", "it.chain", "Chain"):
                for x in v.a[1:]:
                    walk(x)
            elif name == "Map" and len(v.a) == 3:
                # each path turned into something to walk over: all of it
                q = mk("v", ("path?",), ("ref", ("slice", ("param", "P"))))
                r = models.call_fn(E.R.I, v.a[2], [q], None, E.R.st)
                r = r[0] if isinstance(r, tuple) else r
                s = E.R.I.read(E.R.st, q)
                ok = r is not None and r.k == "struct" and r.a[0] in ("it.vec", "it.slice") and V.pconst(r.a[2]) == 0 and r.a[3] is E.R.I.seq_len(s)
                if not ok or (E.R.I.read(E.R.st, r.a[1]) if r.a[0] == "it.slice" else r.a[1]) is not s:
                    odd.append(f"part of each path: {V.show(r)[:200] if r is not None else '?'}")
                walk(v.a[1])
            else:
                odd.append(name)
        elif v.k == "enum":
            for x in v.a[2:]:
                for y in x or ():
                    if V.pconst(v.a[1]) == 1:
                        walk(y)
        elif v.k != "undef" and not (v.k == "c"):
            odd.append(V.show(v)[:100])
    walk(E.R.I.contents(E.R.st, es[0].data[0]))
    want = [E.args[i] for i in which]
    ctx.true(E.tag + "/fit/whole-sources", not odd, f"fitted to {odd}", E.loc)
    ctx.true(E.tag + "/fit/every-source", len(got) == len(want) and {g.id for g in got} == {w.id for w in want},
             f"the adapter is fitted to {[V.show(g) for g in got]}", E.loc)
    ctx.eq(E.tag + "/fit/always", es[0].pc, V.T, loc=E.loc)
    return es[0].data[1]


def smallest(E, ad, fl):
    return E.B.term("square", ad, get(E.ctx, E.I, fl, "ContourFilter", "min_area"))


def back(E, shapes, ad, fl):
    """converted by the adapter, cleaned only if asked"""
    r = E.B.term("to_float", shapes, ad)
    return V.ite(get(E.ctx, E.I, fl, "ContourFilter", "clean_result"), E.B.term("clean", r, ad), r)


def float_region(E, segs, ad, rule, fl, direction, solver):
    ctx = E.ctx
    ctx.true(E.tag + "/all-edges", E.given_to() is segs, "edges are chosen from something else than what was added", E.loc)
    E.returns(back(E, region(E, segs, E.one("FillRule"), rule, solver, direction, get(ctx, E.I, fl, "ContourFilter", "simplify_contour"), smallest(E, ad, fl)), ad, fl))


def default_filter(E):
    return call(E.ctx, E.ctx.prog.method("ContourFilter", "default", "Default"), [], interp=Interp(E.ctx.prog)).ret


def filters(ctx):
    """the short forms drop nothing"""
    with ctx.case("default-filter"):
        I = Interp(ctx.prog)
        R = call(ctx, ctx.prog.method("ContourFilter", "default", "Default"), [], interp=I)
        ctx.eq("default-filter/simplifies", get(ctx, I, R.ret, "ContourFilter", "simplify_contour"), V.T, loc=R.loc)
        ctx.eq("default-filter/no-smallest-area", get(ctx, I, R.ret, "ContourFilter", "min_area"), V.ZERO, loc=R.loc)
    with ctx.case("default-solver"):
        I = Interp(ctx.prog)
        d = call(ctx, ctx.prog.method("Solver", "default", "Default"), [], interp=I)
        ctx.eq("default-solver/strategy", get(ctx, I, d.ret, "Solver", "strategy"), enum_of(ctx, I, "Strategy", "Auto"), loc=d.loc)
