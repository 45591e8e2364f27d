"""Extraction walks every selected link once.

Obligations over one round of each loop of the extraction, from any state: where a walk starts, how it goes on
from link to link, what it marks and lists, what becomes of its contour, and that links are passed over only when
they have been used.  The nearest link at a node is decided by C08; here it is shown that every unused link of the
node takes part in that choice."""
from .lib import *
from .c05 import Stepper
from .c15 import order3
from .c19 import seq_at, UNIT
import models
import scev
import seqs

L, G = "OverlayLink", "OverlayGraph"
IDS = "i_overlay::bind::segment::IdSegment"
VJOIN = "<std::vec::Vec<std::vec::Vec<std::vec::Vec<i_overlay::vector::edge::VectorEdge>>> as i_overlay::vector::extract_vectors::JoinHoles>::join"


def run(ctx):
    for cw in (False, True):
        with ctx.case(f"shapes/{'clockwise' if cw else 'counterclockwise'}"):
            shapes(ctx, cw)
        with ctx.case(f"slices/{'clockwise' if cw else 'counterclockwise'}"):
            strings(ctx, cw)
    for nm, fn in (("slices/entry", string_entry), ("slices/choice", string_choice), ("slices/walk", string_walk), ("start", start), ("walk", walk_points), ("vectors", vectors), ("vector-walk", walk_edges), ("choice", choice),
                   ("top", top_link), ("valid", valid), ("entry", entry), ("separate", separate)):
        with ctx.case(nm):
            fn(ctx)
    ctx.floor(60)


def link_end(ctx, I, l, side):
    e = get(ctx, I, l, L, side)
    return P2(I, I.expand(get(ctx, I, e, "IdPoint", "point"))), get(ctx, I, e, "IdPoint", "id")


def graph_link(ctx, I, i):
    return I.expand(I.seq_get(get(ctx, I, I.var("self", ty_of(ctx, G)), G, "links"), i))


def points_eq(ctx, key, got, want, care, loc, axioms=()):
    ctx.eq(key + ".x", got.x, want.x, care, loc, axioms=axioms)
    ctx.eq(key + ".y", got.y, want.y, care, loc, axioms=axioms)


def xy(v):
    return [v.x, v.y]


def round_of(lp, key):
    return V.restrict(lp.nexts[key], lp.cont)


def seq_phis(I, lp, elem):
    return [(k, ph, i) for k, (ph, i) in lp.phis.items() if I.is_seq(ph) and ph.ty is not None and ph.ty[-1] == elem and k in lp.nexts]


# ------------------------------------------------------------------------------------------ the outer loops
def hook_loop(I, path_ty, vectors=False):
    def top(I, f, args, tys, dty, st, line):
        I.event("top", (args[1], seq_at(I, st, args[2])), line)
        return V.pvar(mk("app", ("top", args[1]), ("int", "usize"))), V.T, st

    def walk(I, f, args, tys, dty, st, line):
        st = st.copy()
        s = args[1]
        while s.k == "ref":
            s = I.read(st, s)
        v = seq_at(I, st, args[3])
        I.event("walk", (I.expand(s), args[2], v), line)
        I.write(st, args[3], mk("app", ("walked", v), ("slice", ("bool",))))
        return mk("v", ("contour",), ("slice", path_ty)), V.T, st

    def validate(I, f, args, tys, dty, st, line):
        st = st.copy()
        s = seq_at(I, st, args[0])
        I.event("validate", (s, args[1], args[2]), line)
        I.write(st, args[0], mk("app", ("cleaned", s), s.ty))
        return mk("struct", ("()", bvar("valid"), bvar("modified")), dty), V.T, st

    def fill(I, f, args, tys, dty, st, line):
        rule = args[0]
        while rule.k == "ref":
            rule = I.read(st, rule)
        I.event("fill", (I.expand(rule), args[1]), line)
        return bvar("hole"), V.T, st

    def leftmost(I, f, args, tys, dty, st, line):
        return I.expand(mk("app", ("leftmost", seq_at(I, st, args[0])), dty)), V.T, st

    def join(I, f, args, tys, dty, st, line):
        I.event("join", tuple(seq_at(I, st, a) for a in args), line)
        return UNIT, V.T, st
    I.hooks.update({"find_left_top_link": top, "get_contour": walk, "get_vector_path": walk, "validate": validate, "is_fill_top": fill,
                    "left_bottom_segment": leftmost, "join_sorted_holes": join, VJOIN: join})


def one(ctx, R, kind):
    es = [e for e in R.events if e.kind == kind]
    if len(es) != 1:
        raise Bad(f"expected one place of '{kind}', found {len(es)}", R.loc)
    return es[0]


def passing(ctx, I, R, W, flags):
    """links are passed over exactly when they are used, and the loop ends behind the last"""
    pos = []
    for k, (ph, i) in W.phis.items():
        t = scev.phi_term(ph)
        if t is not None and t.ty == ("int", "usize") and V.pconst(i) == 0 and k in W.nexts:
            pos.append((k, ph))
    cand = [(k, ph) for k, ph in pos if any(e.kind == "top" and e.data[0] is ph for e in R.events)]
    if len(cand) != 1:
        raise Bad("the walk does not start from the link looked at", R.loc)
    k, x = cand[0]
    vs = seq_phis(I, W, ("bool",))
    if len(vs) != 1:
        raise Bad("no single list of used links", R.loc)
    vk, vis, v0 = vs[0]
    n = I.seq_len(vis)
    used = I.seq_get(vis, x)
    ends = disj(*[pc for _, pc, _ in W.exits])
    ctx.eq("pass/ends-behind-last", ends, V.ge(x, n), loc=R.loc)
    ctx.eq("pass/used-goes-on", round_of(W, k), V.add(x, V.ONE), conj(W.cont, used), R.loc)
    ctx.eq("pass/unused-stays", round_of(W, k), x, conj(W.cont, V.b_not(used)), R.loc)
    top = one(ctx, R, "top")
    walk = one(ctx, R, "walk")
    for e in (top, walk):
        ctx.eq(f"pass/{e.kind}/when-unused", e.pc, conj(W.cont, V.b_not(used)), loc=R.loc)
    ctx.true("pass/top/from-used", top.data[1] is vis, "the first link is chosen with other marks", R.loc)
    ctx.true("pass/walk/from-used", walk.data[2] is vis, "the walk runs on other marks", R.loc)
    for c, l in seqs.leaves(round_of(W, vk)):
        if compare.possible(conj(c, W.cont)) is None:
            continue
        want = vis if compare.implies(c, used) is None else mk("app", ("walked", vis), vis.ty)
        ctx.true("pass/marks", l is want, f"the marks become {V.show(l)[:200]}", R.loc)
    return x, vis, v0, used, walk


def main_loop(R):
    ls = [l for l in R.loops if l.parent is None]
    if len(ls) != 1:
        raise Bad(f"expected one loop over the links, found {len(ls)}", R.loc)
    return ls[0]


def shapes(ctx, cw, offset=False):
    """offset: contours of stroked and outlined shapes, kept only if one of their edges is bold"""
    p = ctx.prog
    tag = "clockwise" if cw else "counterclockwise"
    I = Interp(p)
    hook_loop(I, POINT)
    if offset:
        bold_walk(I)
    f = p.method(G, "extract_offset_shapes" if offset else "extract")
    filt = mk("v", ("selected",), ("slice", ("bool",)))
    tys = [p.ty(p.bodies[f["id"]]["locals"][i]) for i in range(1, p.bodies[f["id"]]["argc"] + 1)]
    args = [None] * len(tys)
    for i, t in enumerate(tys):
        s = p.ty_str(t)
        if "ContourDirection" in s:
            args[i] = enum_of(ctx, I, "ContourDirection", "Clockwise" if cw else "CounterClockwise")
        elif "Vec<bool" in s:
            args[i] = filt
    R = call(ctx, f, args, interp=I)
    loc = R.loc
    W = main_loop(R)
    x, vis, v0, used, walk = passing(ctx, I, R, W, filt)
    ctx.true("pass/starts-selected", v0 is filt, f"the marks start as {V.show(v0)[:100]}", loc)
    live = conj(W.cont, V.b_not(used))
    hole, valid, modified = bvar("hole"), bvar("valid"), bvar("modified")
    ti = V.pvar(mk("app", ("top", x), ("int", "usize")))
    lk = graph_link(ctx, I, ti)
    if offset:
        code = get(ctx, I, lk, L, "fill")
        bit = lambda k: V.b_not(V.eq(I.bitop("and", ("int", "u8"), code, V.num(k)), V.ZERO))
        hole = bit(1)
        ctx.eq("bold/first-link-counts", walk.data[3], bit(4), loc=loc)
    else:
        fe = one(ctx, R, "fill")
        ctx.eq("hole/of-first-link", fe.data[1], get(ctx, I, lk, L, "fill"), loc=loc)
        ctx.eq("hole/by-rule", fe.data[0], I.expand(I.var("overlay_rule", ty_of(ctx, "OverlayRule"))), loc=loc)
    d = sameb(hole, V.const(cw))
    check_start(ctx, I, f"from/{tag}", walk.data[0], lk, ti, d, live, loc)
    ctx.eq(f"from/{tag}/turn", walk.data[1], d, live, loc)
    ve = one(ctx, R, "validate")
    ctx.eq("clean/area", ve.data[1], ivar("min_area", "usize"), loc=loc)
    ctx.eq("clean/simplify", ve.data[2], V.T if offset else bvar("simplify_contour"), loc=loc)
    if offset:
        bold = bvar("any bold")
        ctx.eq("clean/bold-always", conj(ve.pc, bold), conj(live, bold), loc=loc)
        valid = conj(valid, bold)
    else:
        ctx.eq("clean/always", ve.pc, live, loc=loc)
    C = mk("app", ("cleaned", ve.data[0]), ve.data[0].ty)
    # where the contour goes
    j = one(ctx, R, "join")
    out = R.ret
    S, H, A = [seq_at(I, R.st, v) for v in (j.data[0], j.data[2], j.data[3])]
    anchors = {l.id: l for c, l in seqs.leaves(A)}
    plain = [l for l in anchors.values() if not (l.k == "app" and l.a[0] == "sort")]
    srt = [l for l in anchors.values() if l.k == "app" and l.a[0] == "sort"]
    base = plain[0] if plain else srt[0].a[1]
    for l in srt:
        ctx.true("anchors/sorted-list", l.a[1] is base, "another list is sorted", loc)
        ety = ty_of(ctx, IDS)
        px, py = (P2(I, I.expand(get(ctx, I, get(ctx, I, I.expand(I.var(n, ety)), IDS, "v_segment"), "VSegment", "a"))) for n in ("#x", "#y"))
        apart = V.b_not(conj(V.eq(px.x, py.x), V.eq(px.y, py.y)))
        ctx.eq("anchors/sorted-by-start", l.a[2], V.ite(V.eq(px.x, py.x), order3(I, V.sub(py.y, px.y)), order3(I, V.sub(py.x, px.x))), apart, loc)
    ctx.eq("join/turn", j.data[4], V.const(cw), loc=loc)
    ctx.eq("join/at-end", j.pc, disj(*[pc for _, pc, _ in W.exits]), loc=loc)
    by = {}
    for k, (ph, i) in W.phis.items():
        for nm, want in (("shapes", S), ("holes", H), ("anchors", base)):
            if ph is want:
                by[nm] = (k, ph, i)
    if set(by) != {"shapes", "holes", "anchors"}:
        raise Bad(f"the lists joined at the end are not those filled: {sorted(by)}", loc)
    for nm, (k, ph, i) in by.items():
        ctx.eq(f"lists/{nm}/start-empty", I.seq_len(i), V.ZERO, loc=loc)
    keep = conj(live, valid)
    added = {}
    for nm, cond in (("shapes", V.b_not(hole)), ("holes", hole), ("anchors", hole)):
        k, ph, i = by[nm]
        for c, l in seqs.leaves(round_of(W, k)):
            c = conj(c, W.cont)
            if compare.possible(c) is None:
                continue
            ps = seqs.pushes(l, ph)
            ctx.true(f"lists/{nm}/grow", ps is not None and len(ps) <= 1, f"becomes {V.show(l)[:200]}", loc)
            if not ps:
                w = compare.implies(c, V.b_not(conj(keep, cond)))
                ctx.true(f"lists/{nm}/none-left-out", w is None, f"a contour is left out when {w}", loc)
                continue
            w = compare.implies(c, conj(keep, cond))
            ctx.true(f"lists/{nm}/only-these", w is None, f"a contour is listed when {w}", loc)
            added.setdefault(nm, []).append((c, ps[0]))
    for c, v in added.get("holes", []):
        ctx.true("lists/holes/contour", v is C, f"the hole listed is {V.show(v)[:150]}", loc)
    for c, v in added.get("shapes", []):
        ctx.eq("lists/shapes/one-contour", I.seq_len(v), V.ONE, c, loc)
        ctx.true("lists/shapes/contour", I.seq_get(v, V.ZERO) is C, f"the contour listed is {V.show(v)[:150]}", loc)
    n = I.seq_len(C)
    at = lambda i: P2(I, I.expand(I.seq_get(C, i)))
    first = (at(V.ONE), at(V.num(2))) if cw else (at(V.ZERO), at(V.sub(n, V.ONE)))
    lm = I.expand(mk("app", ("leftmost", C), ty_of(ctx, "VSegment")))
    ends = lambda s: [P2(I, I.expand(get(ctx, I, s, "VSegment", e))) for e in "ab"]
    lma, lmb = ends(lm)
    hn = I.seq_len(by["holes"][1])
    for c, v in added.get("anchors", []):
        v = I.expand(v)
        ix = get(ctx, I, v, IDS, "contour_index")
        want = call(ctx, p.method("ContourIndex", "new_hole"), [hn], interp=Interp(p))
        ctx.eq("anchor/hole", ix, want.ret, c, loc)
        g = ends(get(ctx, I, v, IDS, "v_segment"))
        for case, care in (("cleaned", conj(c, modified)), ("as-walked", conj(c, V.b_not(modified)))):
            d1 = [compare.difference(V.restrict(a, care), b, care) for u, w in zip(g, (lma, lmb)) for a, b in zip(xy(u), xy(w))]
            d2 = [compare.difference(V.restrict(a, care), b, care) for u, w in zip(g, first) for a, b in zip(xy(u), xy(w))]
            bad = next((q for q in d1 if q), None)
            if case == "as-walked" and bad and not any(d2):
                bad = None
            ctx.true(f"anchor/{case}", not bad, f"not the lowest edge at the leftmost point: {bad}", loc)
    # unsorted only while every anchor starts where its walk started
    un = V.F
    for c, l in seqs.leaves(A):
        if not (l.k == "app" and l.a[0] == "sort"):
            un = V.b_or(un, c)
    nx = Stepper(I, W).next(un)
    same = conj(*[V.eq(a, b) for a, b in zip(xy(lma), xy(first[0]))])
    w = compare.implies(conj(W.cont, nx), conj(un, V.b_not(conj(keep, hole, modified, V.b_not(same)))))
    ctx.true("anchors/sorted-if-moved", w is None, f"the list stays unsorted when {w}", loc)
    for c, l in seqs.leaves(out):
        ctx.true("result", l is S, f"the result is {V.show(l)[:150]}", loc)


def bold_walk(I):
    plain = I.hooks["get_contour"]

    def walk(I, f, args, tys, dty, st, line):
        """(self, start, turn, bold, marks): tells whether one of the links was bold"""
        b = args[3]
        was = I.expand(I.read(st, b))
        r = plain(I, f, args[:3] + args[4:], tys, dty, st, line)
        st = r[2]
        e = I.events[-1]
        e.data = e.data + (was,)
        I.write(st, b, bvar("any bold"))
        return r
    I.hooks["get_fill_path"] = walk


def check_start(ctx, I, key, s, lk, ti, d, care, loc):
    g = lambda n: get(ctx, I, s, "StartPathData", n)
    (pa, ia), (pb, ib) = link_end(ctx, I, lk, "a"), link_end(ctx, I, lk, "b")
    b = P2(I, I.expand(g("begin")))
    ctx.eq(key + "/begin.x", b.x, V.ite(d, pb.x, pa.x), care, loc)
    ctx.eq(key + "/begin.y", b.y, V.ite(d, pb.y, pa.y), care, loc)
    ctx.eq(key + "/first-node", g("node_id"), V.ite(d, ia, ib), care, loc)
    ctx.eq(key + "/last-node", g("last_node_id"), V.ite(d, ib, ia), care, loc)
    ctx.eq(key + "/link", g("link_id"), ti, care, loc)


def start(ctx):
    p = ctx.prog
    I = Interp(p)
    lk = I.var("link", ty_of(ctx, L))
    d, i = bvar("direction"), ivar("link_id", "usize")
    R = call(ctx, p.method("StartPathData", "new"), [d, lk, i], interp=I)
    check_start(ctx, I, "start", I.expand(R.ret), I.expand(lk), i, d, V.T, R.loc)


def vectors(ctx):
    p = ctx.prog
    I = Interp(p)
    hook_loop(I, ty_of(ctx, "VectorEdge"))
    sel = mk("v", ("selected",), ("slice", ("bool",)))

    def filt(I, f, args, tys, dty, st, line):
        I.event("filter", (seq_at(I, st, args[0]), args[1]), line)
        return sel, V.T, st
    I.hooks["filter_by_rule"] = filt
    R = call(ctx, p.method(G, "extract_shape_vectors"), interp=I)
    loc = R.loc
    fe = one(ctx, R, "filter")
    ctx.eq("select/links", fe.data[0], get(ctx, I, I.var("self", ty_of(ctx, G)), G, "links"), loc=loc)
    ctx.eq("select/rule", I.expand(fe.data[1]), I.expand(I.var("overlay_rule", ty_of(ctx, "OverlayRule"))), loc=loc)
    W = main_loop(R)
    hole = bvar("hole")
    # the walk is asked for in two places
    walks = [e for e in R.events if e.kind == "walk"]
    pos = {e.data[0].id: e.data[0] for e in R.events if e.kind == "top"}
    if len(pos) != 1:
        raise Bad("no single first link", loc)
    x, = pos.values()
    vk, vis, v0 = seq_phis(I, W, ("bool",))[0]
    ctx.true("vectors/starts-selected", v0 is sel, f"the marks start as {V.show(v0)[:100]}", loc)
    used = I.seq_get(vis, x)
    k = [k for k, (ph, i) in W.phis.items() if ph is x]
    if len(k) != 1:
        raise Bad("the first link is not the one looked at", loc)
    k, = k
    ctx.eq("vectors/from-first", W.phis[k][1], V.ZERO, loc=loc)
    ctx.eq("vectors/ends-behind-last", disj(*[pc for _, pc, _ in W.exits]), V.ge(x, I.seq_len(vis)), loc=loc)
    ctx.eq("vectors/used-goes-on", round_of(W, k), V.add(x, V.ONE), conj(W.cont, used), loc)
    ctx.eq("vectors/unused-stays", round_of(W, k), x, conj(W.cont, V.b_not(used)), loc)
    live = conj(W.cont, V.b_not(used))
    ti = V.pvar(mk("app", ("top", x), ("int", "usize")))
    lk = graph_link(ctx, I, ti)
    (pa, ia), (pb, ib) = link_end(ctx, I, lk, "a"), link_end(ctx, I, lk, "b")
    fe = one(ctx, R, "fill")
    ctx.eq("vectors/hole/of-first-link", fe.data[1], get(ctx, I, lk, L, "fill"), loc=loc)
    ctx.eq("vectors/walked", disj(*[e.pc for e in walks]), live, loc=loc)
    for e in walks:
        s = e.data[0]
        g = lambda n: get(ctx, I, s, "StartVectorPathData", n)
        a, b = P2(I, I.expand(g("a"))), P2(I, I.expand(g("b")))
        for u, w1, w2, nm in ((a, pb, pa, "from"), (b, pa, pb, "to")):
            ctx.eq(f"vectors/{nm}.x", u.x, V.ite(hole, w1.x, w2.x), e.pc, loc)
            ctx.eq(f"vectors/{nm}.y", u.y, V.ite(hole, w1.y, w2.y), e.pc, loc)
        ctx.eq("vectors/first-node", g("node_id"), V.ite(hole, ia, ib), e.pc, loc)
        ctx.eq("vectors/last-node", g("last_node_id"), V.ite(hole, ib, ia), e.pc, loc)
        ctx.eq("vectors/link", g("link_id"), ti, e.pc, loc)
        ctx.eq("vectors/fill", g("fill"), get(ctx, I, lk, L, "fill"), e.pc, loc)
        ctx.eq("vectors/turn", e.data[1], hole, e.pc, loc)
        ctx.true("vectors/marks-used", e.data[2] is vis, "the walk runs on other marks", loc)
    for c, l in seqs.leaves(round_of(W, vk)):
        if compare.possible(conj(c, W.cont)) is None:
            continue
        want = vis if compare.implies(c, used) is None else mk("app", ("walked", vis), vis.ty)
        ctx.true("vectors/marks", l is want, f"the marks become {V.show(l)[:200]}", loc)
    j = one(ctx, R, "join")
    S, H = j.data[0], j.data[2]
    C = mk("v", ("contour",), ("slice", ty_of(ctx, "VectorEdge")))
    for nm, want, cond in (("shapes", S, V.b_not(hole)), ("holes", H, hole)):
        ks = [(k, ph, i) for k, (ph, i) in W.phis.items() if ph is want]
        if len(ks) != 1:
            raise Bad(f"the {nm} joined at the end are not those found", loc)
        k, ph, i = ks[0]
        ctx.eq(f"vectors/{nm}/start-empty", I.seq_len(i), V.ZERO, loc=loc)
        for c, l in seqs.leaves(round_of(W, k)):
            c = conj(c, W.cont)
            if compare.possible(c) is None:
                continue
            ps = seqs.pushes(l, ph)
            ctx.true(f"vectors/{nm}/grow", ps is not None and len(ps) <= 1, f"becomes {V.show(l)[:200]}", loc)
            w = compare.implies(c, conj(live, cond) if ps else V.b_not(conj(live, cond)))
            ctx.true(f"vectors/{nm}/these", w is None, f"a contour is {'listed' if ps else 'left out'} when {w}", loc)
            for v in ps or []:
                y = v if nm == "holes" else I.seq_get(v, V.ZERO)
                ctx.true(f"vectors/{nm}/contour", y is C and (nm == "holes" or V.pconst(I.seq_len(v)) == 1), f"{V.show(v)[:150]} is listed", loc)
    ctx.eq("vectors/join/turn", j.data[3], V.T, loc=loc)
    for c, l in seqs.leaves(R.ret):
        ctx.true("vectors/result", l is S, f"the result is {V.show(l)[:150]}", loc)


# ------------------------------------------------------------------------------------------ one walk
def walked(ctx, key, f, args, elem, init_item, item, bold=None):
    """args: with the start data; init_item/item: what is listed first and for every link passed; bold: the flag
    that tells whether a bold link was passed, its value before"""
    p = ctx.prog
    I = Interp(p)

    def nearest(I, f, args, tys, dty, st, line):
        I.event("nearest", (args[1], args[2], args[3], seq_at(I, st, args[4]), seq_at(I, st, args[5])), line)
        return V.pvar(mk("app", ("nearest", args[1], args[2], args[3], seq_at(I, st, args[4]), seq_at(I, st, args[5])), dty)), V.T, st
    I.hooks["find_nearest_link_to"] = nearest
    vis0 = mk("v", ("used",), ("slice", ("bool",)))
    cw = bvar("turn")
    s, sty = args(I)
    R = call(ctx, f, [None, s, cw] + ([] if bold is None else [bold]) + [vis0], interp=I)
    loc = R.loc
    W = main_loop(R)
    if bold is not None:
        fl = [(k, ph) for k, (ph, i) in W.phis.items() if k in W.nexts and i is bold]
        if len(fl) != 1:
            raise Bad("the walk does not keep whether a link was bold", loc)
        ctx.eq(key + "/bold/told", R.out[3], fl[0][1], disj(*[pc for _, pc, _ in W.exits]), loc)
    g = lambda n: get(ctx, I, s, sty, n)
    l0, n0, z = g("link_id"), g("node_id"), g("last_node_id")
    by = {}
    for k, (ph, i) in W.phis.items():
        if k in W.nexts and ph.k == "p":
            for nm, want in (("link", l0), ("node", n0)):
                if i is want:
                    by[nm] = (k, ph)
    if set(by) != {"link", "node"}:
        raise Bad(f"the walk has no current {'node' if 'link' in by else 'link'}", loc)
    lid, nid = by["link"][1], by["node"][1]
    vs, cs = seq_phis(I, W, ("bool",)), seq_phis(I, W, elem)
    if len(vs) != 1 or len(cs) != 1:
        raise Bad("the walk does not keep one list of marks and one of what it passed", loc)
    vk, vis, vi = vs[0]
    ck, con, ci = cs[0]
    ctx.eq(key + "/until-last-node", disj(*[pc for _, pc, _ in W.exits]), V.eq(nid, z), loc=loc)
    ctx.true(key + "/first-marked", vi is I.seq_store(vis0, l0, V.T), f"the marks start as {V.show(vi)[:150]}", loc)
    ctx.eq(key + "/first-listed", I.seq_len(ci), V.ONE, loc=loc)
    init_item(ctx, I, I.expand(I.seq_get(ci, V.ZERO)), s, loc)
    # which link comes next
    self_ = I.var("self", ty_of(ctx, G))
    node = I.seq_get(get(ctx, I, self_, G, "nodes"), nid)
    vn = p.variants(adt(ctx, "OverlayNode"))
    bi, xi = vn.index("Bridge"), vn.index("Cross")
    br, ix = I.field(node, 0, bi), I.field(node, 0, xi)
    b0, b1 = I.seq_get(br, V.ZERO), I.seq_get(br, V.ONE)
    new = round_of(W, by["link"][0])
    is_b = V.eq(I.discr_of(node, ty_of(ctx, "OverlayNode")), V.num(bi))
    here = conj(V.b_not(V.eq(b0, b1)), disj(V.eq(lid, b0), V.eq(lid, b1)))
    ctx.eq(key + "/bridge", new, V.ite(V.eq(lid, b0), b1, b0), conj(W.cont, is_b, here), loc)
    want = V.pvar(mk("app", ("nearest", lid, nid, cw, ix, vis), ("int", "usize")))
    ctx.eq(key + "/cross", new, want, conj(W.cont, V.b_not(is_b)), loc)
    # and what passing it does
    for case, y, care in (("bridge-0", b0, conj(is_b, V.eq(lid, b1), here)), ("bridge-1", b1, conj(is_b, V.eq(lid, b0), here)), ("cross", want, V.b_not(is_b))):
        care = conj(W.cont, care)
        lk = graph_link(ctx, I, y)
        (pa, ia), (pb, ib) = link_end(ctx, I, lk, "a"), link_end(ctx, I, lk, "b")
        at_a = V.eq(ia, nid)
        care = conj(care, disj(at_a, V.eq(ib, nid)))
        if bold is not None:
            is_bold = V.b_not(V.eq(I.bitop("and", ("int", "u8"), get(ctx, I, lk, L, "fill"), V.num(4)), V.ZERO))
            ctx.eq(f"{key}/{case}/bold", round_of(W, fl[0][0]), disj(fl[0][1], is_bold), care, loc)
        ctx.eq(f"{key}/{case}/next-node", V.restrict(round_of(W, by["node"][0]), care), V.ite(at_a, ib, ia), care, loc)
        for c, l in seqs.leaves(V.restrict(round_of(W, ck), care)):
            if compare.possible(conj(c, care)) is None:
                continue
            ps = seqs.pushes(l, con)
            if ctx.true(f"{key}/{case}/one-listed", ps is not None and len(ps) == 1, f"the list becomes {V.show(l)[:200]}", loc):
                item(ctx, I, f"{key}/{case}", I.expand(ps[0]), lk, at_a, conj(c, care), loc)
        for c, l in seqs.leaves(V.restrict(round_of(W, vk), care)):
            if compare.possible(conj(c, care)) is None:
                continue
            ok = l.k == "app" and l.a[0] == "store" and l.a[1] is vis and l.a[3] is V.T
            if ctx.true(f"{key}/{case}/marked", ok, f"the marks become {V.show(l)[:200]}", loc):
                ctx.eq(f"{key}/{case}/marks-it", l.a[2], y, conj(c, care), loc)
    for c, l in seqs.leaves(R.ret):
        ctx.true(key + "/result", l is con, f"the result is {V.show(l)[:150]}", loc)


def walk_points(ctx, fn="get_contour", **kw):
    p = ctx.prog
    f = p.method(G, fn)
    ty = ty_of(ctx, "StartPathData")

    def first(ctx, I, v, s, loc):
        b, q = P2(I, v), P2(I, I.expand(get(ctx, I, s, "StartPathData", "begin")))
        points_eq(ctx, "walk/begins", b, q, V.T, loc)

    def item(ctx, I, key, v, lk, at_a, care, loc):
        (pa, _), (pb, _) = link_end(ctx, I, lk, "a"), link_end(ctx, I, lk, "b")
        q = P2(I, v)
        ctx.eq(key + "/point.x", q.x, V.ite(at_a, pa.x, pb.x), care, loc)
        ctx.eq(key + "/point.y", q.y, V.ite(at_a, pa.y, pb.y), care, loc)
    walked(ctx, "walk", f, lambda I: (I.var("start", ty), "StartPathData"), POINT, first, item, **kw)


def walk_edges(ctx):
    p = ctx.prog
    f = p.method(G, "get_vector_path")
    ty = ty_of(ctx, "StartVectorPathData")
    vty = ty_of(ctx, "VectorEdge")

    def edge(ctx, key, I, v, fill, a, b, care, loc):
        J = Interp(ctx.prog)
        w = call(ctx, ctx.prog.method("VectorEdge", "new"), [fill, a, b], interp=J)
        ctx.eq(key, v, I.expand(w.ret), care, loc)

    def first(ctx, I, v, s, loc):
        g = lambda n: get(ctx, I, s, "StartVectorPathData", n)
        edge(ctx, "vector-walk/begins", I, v, g("fill"), I.expand(g("a")), I.expand(g("b")), V.T, loc)

    def item(ctx, I, key, v, lk, at_a, care, loc):
        pt = lambda e: I.expand(get(ctx, I, get(ctx, I, lk, L, e), "IdPoint", "point"))
        fill = get(ctx, I, lk, L, "fill")
        edge(ctx, key + "/edge-from-first", I, v, fill, pt("a"), pt("b"), conj(care, at_a), loc)
        edge(ctx, key + "/edge-from-second", I, v, fill, pt("b"), pt("a"), conj(care, V.b_not(at_a)), loc)
    walked(ctx, "vector-walk", f, lambda I: (I.var("start", ty), "StartVectorPathData"), vty, first, item)


# ------------------------------------------------------------------------------------------ choices at a node
MAX = V.num((1 << 64) - 1)


def choice(ctx):
    """every unused link at the node takes part in the choice, as the way from the node to its other end"""
    p = ctx.prog
    f = p.method(G, "find_nearest_link_to")
    I = Interp(p)
    idx = mk("v", ("indices",), ("slice", ("int", "usize")))
    used = mk("v", ("used",), ("slice", ("bool",)))
    t, nd, cw = ivar("target", "usize"), ivar("node", "usize"), bvar("turn")
    R_args = [None, t, nd, cw, idx, used]
    free = lambda x: V.b_not(I.seq_get(used, x))
    links = get(ctx, I, I.var("self", ty_of(ctx, G)), G, "links")
    chosen(ctx, "choice", I, f, R_args, idx, links, t, nd, cw, free, V.F)


def chosen(ctx, key, I, f, args, idx, links, target, nd, cw, free, skip):
    p = ctx.prog

    def new(I, f, args, tys, dty, st, line):
        I.event("new", tuple(args), line)
        return mk("app", ("near", args[3]), dty), V.T, st

    def add(I, f, args, tys, dty, st, line):
        I.event("offer", tuple(args[1:]), line)
        st = st.copy()
        I.write(st, args[0], mk("app", ("offered", args[2]), ty_of(ctx, "NearestVector")))
        return UNIT, V.T, st
    I.hooks.update({"NearestVector::new": new, "NearestVector::add": add})
    R = call(ctx, f, args, interp=I)
    loc = R.loc
    n = I.seq_len(idx)
    forms = scev.closed(I, R.loops)
    top = sorted((l for l in R.loops if l.parent is None), key=lambda l: l.id)
    if len(top) != 2 or len(R.loops) != 2:
        raise Bad(f"expected a search for the first two links and one over the rest, found {len(R.loops)} loops", loc)
    W, W2 = top
    c = forms[W.id]
    x_at = lambda k: I.seq_get(idx, k)
    kids = {}
    flags = {}
    for k, (ph, i) in W.phis.items():
        t = scev.phi_term(ph)
        if t is None and ph.k == "ite" and ph.a[0].key[0] == "b":
            t = V.node(ph.a[0].key[1])
        if t is None or k not in W.nexts:
            continue
        if t.id in c.form:
            kids[t.id] = c.form[t.id]
        else:
            flags[t.id] = (k, i)

    def at(state, k):
        m = dict(state)
        m.update({t: scev.Subst(I, {c.kterm.id: k})(v) for t, v in kids.items()})
        return scev.Subst(I, m)
    ok = lambda x: V.b_and(free(x), V.b_not(V.eq(x, target))) if skip is V.T else free(x)
    init = {t: i for t, (k, i) in flags.items()}
    outcomes = []
    state, found = init, []
    while True:
        if len(found) > 3:
            raise Bad("the search for the first links does not settle", loc)
        k = nat(f"position{len(found)}", 0, ty="usize")
        S = at(state, k)
        inside = V.lt(k, n)
        past = conj(inside, V.b_not(ok(x_at(k))))
        w = compare.implies(past, S(W.cont))
        ctx.true(f"{key}/search/{len(found)}/passes-used", w is None, f"the search ends at a used link when {w}", loc)
        for t, (kk, i) in flags.items():
            ctx.eq(f"{key}/search/{len(found)}/used-changes-nothing", S(V.restrict(W.nexts[kk], W.cont)), state[t], conj(past, S(W.cont)), loc)
        outcomes.append(("all", list(found), dict(state), at(state, k), V.ge(k, n)))
        take = conj(inside, ok(x_at(k)))
        if compare.possible(conj(take, S(W.cont))) is None:
            outcomes.append(("two", found + [k], dict(state), S, take))
            break
        w = compare.implies(take, S(W.cont))
        ctx.true(f"{key}/search/{len(found)}/goes-on", w is None, f"the search ends when {w}", loc)
        state = {t: V.restrict(S(V.restrict(W.nexts[kk], W.cont)), take) for t, (kk, i) in flags.items()}
        found.append(k)
    ctx.true(f"{key}/search/two", len(outcomes) == 3, f"the search ends after {len(outcomes) - 1} links", loc)
    news = [e for e in R.events if e.kind == "new"]
    offers = [e for e in R.events if e.kind == "offer"]
    if len(news) != 1:
        raise Bad(f"{len(news)} choices are set up", loc)
    lk = lambda i: I.expand(I.seq_get(links, i))
    def ends(x):
        """(at the node, away from it)"""
        (pa, ia), (pb, ib) = link_end(ctx, I, lk(x), "a"), link_end(ctx, I, lk(x), "b")
        at_a = V.eq(ia, nd)
        pk = lambda u, v: [V.ite(at_a, a, b) for a, b in zip(xy(u), xy(v))]
        return pk(pa, pb), pk(pb, pa), disj(at_a, V.eq(ib, nd))
    nvty = ty_of(ctx, "NearestVector")
    for kind, fnd, state, S, care in outcomes:
        xs = [x_at(q) for q in fnd]
        care = conj(care, *[conj(V.lt(q, n), ok(x_at(q)), V.lt(x_at(q), MAX)) for q in fnd])
        care = conj(care, *[V.lt(a, b) for a, b in zip(fnd, fnd[1:])])
        ret = S(R.ret)
        nm = f"{key}/{'none one two'.split()[len(fnd)]}"
        if not fnd:
            if skip is V.T:
                ctx.eq(nm + "/back", ret, target, conj(care, S(R.pc)), loc)
                ctx.eq(nm + "/back-if-free", S(R.pc), free(target), care, loc)
            continue
        if len(fnd) == 1:
            r = V.restrict(ret, care)
            good = compare.difference(r, xs[0], care) is None
            ctx.true(nm + "/that-one", good, f"the only link left is not taken: {V.show(r)[:200]}", loc)
            continue
        e = news[0]
        ctx.eq(nm + "/set-up", S(e.pc), V.T, care, loc)
        here, back, joined = ends(target)
        care2 = conj(care, joined, *[ends(x)[2] for x in xs])
        args = [S(v) for v in e.data]
        for nm2, got, want in (("centre", args[0], here), ("from", args[1], back), ("first", args[2], ends(xs[0])[1])):
            g = P2(I, I.expand(got))
            ctx.eq(f"{nm}/{nm2}.x", g.x, want[0], care2, loc)
            ctx.eq(f"{nm}/{nm2}.y", g.y, want[1], care2, loc)
        ctx.eq(f"{nm}/first-number", args[3], xs[0], care, loc)
        ctx.eq(f"{nm}/turn", args[4], cw, care, loc)
        straight = [o for o in offers if not o.loops]
        ctx.true(f"{nm}/second-offered-once", len(straight) == 1, f"{len(straight)} links are offered outside the loop", loc)
        for o in straight:
            offered(ctx, I, f"{nm}/second", S(o.data[0]), S(o.data[1]), xs[1], ends, care2, loc)
            ctx.eq(f"{nm}/second/always", S(o.pc), V.T, care, loc)
        # the rest
        c2 = forms[W2.id]
        inl = [o for o in offers if o.loops and o.loops[-1] is W2]
        ctx.true(f"{nm}/rest-offered", len(inl) == 1, f"{len(inl)} links are offered per round", loc)
        trip = c2.count(V.restrict(S(c2.exit), care))
        if trip is None:
            raise Bad("the loop over the rest has no closed number of rounds", loc)
        S2 = lambda v: S(scev.Subst(I, c2.form)(v))
        ctx.eq(f"{nm}/rest/count", trip, V.sub(n, V.add(fnd[1], V.ONE)), care, loc)
        j = V.add(V.add(fnd[1], V.ONE), c2.K)
        cr = conj(care2, V.lt(j, n), ends(x_at(j))[2])
        if skip is V.T:
            cr = conj(cr, V.b_not(V.eq(x_at(j), target)))
        for o in inl:
            pc = V.restrict(S2(o.pc), cr)
            ctx.eq(f"{nm}/rest/each-free", pc, free(x_at(j)), cr, loc)
            offered(ctx, I, f"{nm}/rest", S2(o.data[0]), S2(o.data[1]), x_at(j), ends, conj(cr, free(x_at(j))), loc)
        ph = [ph for k, (ph, i) in W2.phis.items() if k in W2.nexts and ph.k == "struct" and ph.a[0] == nvty[1]]
        if len(ph) != 1:
            raise Bad("the loop over the rest does not carry the choice on", loc)
        ctx.eq(f"{nm}/result", V.restrict(ret, care), get(ctx, I, ph[0], "NearestVector", "best_id"), care, loc)


def offered(ctx, I, key, pt, num, x, ends, care, loc):
    g, w = P2(I, I.expand(pt)), ends(x)[1]
    ctx.eq(key + "/number", num, x, care, loc)
    ctx.eq(key + "/to.x", g.x, w[0], care, loc)
    ctx.eq(key + "/to.y", g.y, w[1], care, loc)


def top_link(ctx):
    """the walk starts at the topmost unused link that begins at the point"""
    p = ctx.prog
    # a node of two
    I = Interp(p)
    self_ = I.var("self", ty_of(ctx, G))
    links = get(ctx, I, self_, G, "links")
    used = mk("v", ("used",), ("slice", ("bool",)))
    i0 = ivar("first", "usize")

    def several(I, f, args, tys, dty, st, line):
        I.event("several", tuple(args), line)
        return NotImplemented
    R = call(ctx, p.method(G, "find_left_top_link"), [None, i0, used], interp=I)
    loc = R.loc
    lk = lambda i: I.expand(I.seq_get(links, i))
    first = lk(i0)
    (pa, ia), (pb, ib) = link_end(ctx, I, first, "a"), link_end(ctx, I, first, "b")
    node = I.seq_get(get(ctx, I, self_, G, "nodes"), ia)
    vn = p.variants(adt(ctx, "OverlayNode"))
    bi, xi = vn.index("Bridge"), vn.index("Cross")
    is_b = V.eq(I.discr_of(node, ty_of(ctx, "OverlayNode")), V.num(bi))
    br, ix = I.field(node, 0, bi), I.field(node, 0, xi)
    b0, b1 = I.seq_get(br, V.ZERO), I.seq_get(br, V.ONE)
    (p0, _), (q0, _) = link_end(ctx, I, lk(b0), "a"), link_end(ctx, I, lk(b0), "b")
    (p1, _), (q1, _) = link_end(ctx, I, lk(b1), "a"), link_end(ctx, I, lk(b1), "b")
    side = cross3(p0, q0, q1)
    at = conj(V.eq(p0.x, p1.x), V.eq(p0.y, p1.y), V.b_not(V.eq(side, V.ZERO)))
    care = conj(is_b, at)
    ctx.eq("top/of-two", V.restrict(R.ret, care), V.ite(V.lt(side, V.ZERO), b0, b1), care, loc)
    # a larger node: one round of the search
    ls = R.loops
    if len(ls) != 1:
        raise Bad(f"expected one search through the links of a node, found {len(ls)} loops", loc)
    W = ls[0]
    forms = scev.closed(I, ls)
    c = forms[W.id]
    best = [(k, ph) for k, (ph, i) in W.phis.items() if i is i0 and k in W.nexts]
    if len(best) != 1:
        raise Bad("the search does not begin with the link given", loc)
    bk, best = best[0]
    S = scev.Subst(I, c.form)
    x = I.seq_get(ix, c.K)
    n = I.seq_len(ix)
    ctx.eq("top/each", c.trip, n, V.b_not(is_b), loc)
    # what is remembered of the best link is that link
    remembered = {}
    bl = lk(best)
    for k, (ph, i) in W.phis.items():
        if ph is best or k not in W.nexts:
            continue
        if ph.k == "ref":
            cell = V.node(ph.a[0][1]) if ph.a[0][0] == "D" and not ph.a[1] else None
            if cell is None:
                raise Bad("the best link so far is kept in a way that is not understood", loc)
            old = mk("app", ("deref", cell), cell.ty[1])
            ctx.true("top/remembers-first", I.expand(I.read(R.st, i)) is first, f"the search begins with {V.show(i)[:150]}", loc)
            nb = S(V.restrict(W.nexts[bk], W.cont))
            for cc, r in seqs.leaves(V.restrict(W.nexts[k], W.cont)):
                cc = S(conj(cc, W.cont))
                if compare.possible(cc) is None:
                    continue
                kept = r is ph
                ctx.eq("top/remembers", V.restrict(nb, cc), best if kept else x, cc, loc)
                if not kept:
                    ctx.true("top/remembers-link", I.expand(S(I.read(R.st, r))) is lk(x), f"remembers {V.show(r)[:150]}", loc)
            remembered[old.id] = bl
    known = scev.Subst(I, remembered)
    new = known(S(V.restrict(W.nexts[bk], W.cont)))
    (pt, _), (qt, _) = link_end(ctx, I, bl, "a"), link_end(ctx, I, bl, "b")
    (px, _), (qx, _) = link_end(ctx, I, lk(x), "a"), link_end(ctx, I, lk(x), "b")
    up = cross3(pt, qt, qx)
    right = lambda a, b: disj(V.lt(a.x, b.x), conj(V.eq(a.x, b.x), V.lt(a.y, b.y)))
    inside = conj(V.lt(c.K, n), V.b_not(is_b), right(pt, qt))
    here = conj(inside, V.eq(px.x, pt.x), V.eq(px.y, pt.y), right(px, qx))
    for nm, care, want in (("itself", conj(inside, V.eq(x, i0), V.b_not(I.seq_get(used, x)), disj(V.eq(best, i0), V.lt(up, V.ZERO))), best), ("used", conj(inside, I.seq_get(used, x)), best),
                           ("higher", conj(here, V.b_not(V.eq(x, i0)), V.b_not(I.seq_get(used, x)), V.gt(up, V.ZERO)), x),
                           ("lower", conj(here, V.b_not(I.seq_get(used, x)), V.lt(up, V.ZERO)), best)):
        ctx.eq(f"top/{nm}", V.restrict(new, care), want, care, loc)
    ctx.eq("top/result", V.restrict(R.ret, V.b_not(is_b)), best, V.b_not(is_b), loc)


def valid(ctx):
    """only degenerate contours and those smaller than asked for are dropped"""
    p = ctx.prog
    I = Interp(p)

    def clean(kind):
        def h(I, f, args, tys, dty, st, line):
            st = st.copy()
            s = seq_at(I, st, args[0])
            I.event(kind, (s,), line)
            I.write(st, args[0], mk("app", ("cleaned", s), s.ty))
            return bvar(kind + "-changed"), V.T, st
        return h

    def area(I, f, args, tys, dty, st, line):
        I.event("area", (seq_at(I, st, args[0]),), line)
        return ivar("area", "i64"), V.T, st
    I.hooks.update({"simplify_contour": clean("simplify"), "dedup_contour": clean("dedup"), "unsafe_area": area})
    fs = [f for f in p.fns if f["m"] == "validate" and "Validate" in f["n"]]
    if len(fs) != 1:
        raise Bad(f"validate not found: {[f['n'] for f in fs]}")
    c0 = mk("v", ("contour",), ("slice", POINT))
    m, simp, ar = ivar("least", "usize"), bvar("simplify"), ivar("area", "i64")
    R = call(ctx, fs[0], [c0, m, simp], interp=I)
    loc = R.loc
    done = mk("app", ("cleaned", c0), c0.ty)
    for k, c in (("simplify", simp), ("dedup", V.b_not(simp))):
        es = [e for e in R.events if e.kind == k]
        ctx.eq(f"valid/{k}", disj(*[e.pc for e in es]), c, loc=loc)
    for c, l in seqs.leaves(R.out[0]):
        ctx.true("valid/cleaned", l is done, f"the contour becomes {V.show(l)[:150]}", loc)
    ok, ch = I.field(R.ret, 0), I.field(R.ret, 1)
    n = I.seq_len(done)
    size = V.ite(V.ge(ar, V.ZERO), ar, V.neg(ar))
    enough = V.ge(size, V.mul(V.num(2), m))
    care = V.lt(size, V.num(1 << 62))
    # bool result over halves: |area| >> 1 >= m as 2m <= |area|
    ax = facts(ok)
    ctx.eq("valid/when", ok, conj(V.ge(n, V.num(3)), disj(V.eq(m, V.ZERO), enough)), conj(care, V.ge(m, V.ZERO)), loc, axioms=ax)
    ctx.eq("valid/changed", ch, V.ite(simp, bvar("simplify-changed"), bvar("dedup-changed")), loc=loc)


def entry(ctx):
    """the public ways in"""
    p = ctx.prog
    for m, own in (("extract_shapes", True), ("extract_shapes_custom", False)):
        I = Interp(p)
        sel = mk("v", ("selected",), ("slice", ("bool",)))

        def filt(I, f, args, tys, dty, st, line):
            I.event("filter", (seq_at(I, st, args[0]), args[1]), line)
            return sel, V.T, st

        def ext(I, f, args, tys, dty, st, line):
            I.event("extract", (seq_at(I, st, args[1]),) + tuple(args[2:]), line)
            return mk("v", ("result",), dty), V.T, st
        I.hooks.update({"filter_by_rule": filt, "extract": ext})
        R = call(ctx, p.method(G, m), interp=I)
        fe, xe = one(ctx, R, "filter"), one(ctx, R, "extract")
        rule = I.expand(I.var("overlay_rule", ty_of(ctx, "OverlayRule")))
        ctx.eq(f"entry/{m}/links", fe.data[0], get(ctx, I, I.var("self", ty_of(ctx, G)), G, "links"), loc=R.loc)
        ctx.eq(f"entry/{m}/rule", I.expand(fe.data[1]), rule, loc=R.loc)
        ctx.true(f"entry/{m}/selected", xe.data[0] is sel, V.show(xe.data[0])[:100], R.loc)
        ctx.eq(f"entry/{m}/same-rule", I.expand(xe.data[1]), rule, loc=R.loc)
        ccw = enum_of(ctx, I, "ContourDirection", "CounterClockwise")
        dirv = I.expand(I.var("main_direction", ty_of(ctx, "ContourDirection")))
        ctx.eq(f"entry/{m}/direction", I.expand(xe.data[2]), ccw if own else dirv, loc=R.loc)
        ctx.eq(f"entry/{m}/simplify", xe.data[3], V.T if own else bvar("simplify_contour"), loc=R.loc)
        ctx.eq(f"entry/{m}/area", xe.data[4], V.ZERO if own else ivar("min_area", "usize"), loc=R.loc)
        ctx.true(f"entry/{m}/result", R.ret is mk("v", ("result",), R.ret.ty), V.show(R.ret)[:100], R.loc)


def separate(ctx):
    """every link becomes one edge"""
    p = ctx.prog
    I = Interp(p)
    R = call(ctx, p.method(G, "extract_separate_vectors"), interp=I)
    loc = R.loc
    links = get(ctx, I, I.var("self", ty_of(ctx, G)), G, "links")
    forms = scev.closed(I, R.loops)
    B = seqs.built(I, forms, R.ret)
    ctx.eq("separate/one-each", B.trip, I.seq_len(links), loc=loc)
    ctx.true("separate/one", len(B.items) == 1, f"{len(B.items)} edges per link", loc)
    ctx.eq("separate/nothing-before", I.seq_len(B.base), V.ZERO, loc=loc)
    live = V.lt(B.K, I.seq_len(links))
    for c, v in B.items:
        v = I.expand(v)
        l = graph_link(ctx, I, B.K)
        w = compare.implies(live, c)
        ctx.true("separate/always", w is None, f"a link is left out when {w}", loc)
        for e in "ab":
            got, (want, _) = P2(I, I.expand(get(ctx, I, v, "VectorEdge", e))), link_end(ctx, I, l, e)
            ctx.eq(f"separate/{e}.x", got.x, want.x, c, loc)
            ctx.eq(f"separate/{e}.y", got.y, want.y, c, loc)
        ctx.eq("separate/fill", get(ctx, I, v, "VectorEdge", "fill"), get(ctx, I, l, L, "fill"), c, loc)


# ------------------------------------------------------------------------------------------ slices
SG = "StringGraph"


def strings(ctx, cw):
    p = ctx.prog
    tag = "clockwise" if cw else "counterclockwise"
    I = Interp(p)

    def walk(I, f, args, tys, dty, st, line):
        v = seq_at(I, st, args[3])
        I.event("walk", (args[1], args[2], v), line)
        st = st.copy()
        I.write(st, args[3], mk("app", ("walked", v), v.ty))
        return mk("v", ("path",), ("slice", POINT)), V.T, st

    def split(I, f, args, tys, dty, st, line):
        I.event("split", (seq_at(I, st, args[0]), args[1]), line)
        return mk("v", ("pieces",), ("slice", ("slice", POINT))), V.T, st

    def turns(I, f, args, tys, dty, st, line):
        v = seq_at(I, st, args[0])
        if v.k == "app" and v.a[0] == "rev":
            return V.b_not(V.wrap(mk("app", ("turns", v.a[1]), ("bool",)))), V.T, st
        return V.wrap(mk("app", ("turns", v), ("bool",))), V.T, st

    def rev(I, f, args, tys, dty, st, line):
        st = st.copy()
        v = seq_at(I, st, args[0])
        I.write(st, args[0], v.a[1] if v.k == "app" and v.a[0] == "rev" else mk("app", ("rev", v), v.ty))
        return UNIT, V.T, st

    def filt(I, f, args, tys, dty, st, line):
        I.event("filter", (args[1],), line)
        return mk("v", ("sides",), ("slice", ("int", "u8"))), V.T, st

    def join(I, f, args, tys, dty, st, line):
        I.event("join", tuple(seq_at(I, st, a) for a in args), line)
        return UNIT, V.T, st
    I.hooks.update({"get_paths": walk, "split_loops": split, "is_clockwise_ordered": turns, "reverse": rev, "filter": filt, "join_unsorted_holes": join})
    f = p.method(SG, "extract_shapes_custom")
    args = [None] * p.bodies[f["id"]]["argc"]
    for i in range(len(args)):
        if "ContourDirection" in p.ty_str(p.ty(p.bodies[f["id"]]["locals"][i + 1])):
            args[i] = enum_of(ctx, I, "ContourDirection", "Clockwise" if cw else "CounterClockwise")
    R = call(ctx, f, args, interp=I)
    loc = R.loc
    W = main_loop(R)
    inner = [l for l in R.loops if l.parent is W]
    if len(inner) != 1:
        raise Bad(f"expected one loop over the pieces of a path, found {len(inner)}", loc)
    D, = inner
    key = f"slices/{tag}"
    vs = seq_phis(I, W, ("int", "u8"))
    if len(vs) != 1:
        raise Bad("no single list of sides left", loc)
    vk, sides, s0 = vs[0]
    ctx.true(key + "/starts-filtered", s0 is mk("v", ("sides",), ("slice", ("int", "u8"))), V.show(s0)[:100], loc)
    we = one(ctx, R, "walk")
    x = we.data[0]
    k = [k for k, (ph, i) in W.phis.items() if ph is x and V.pconst(i) == 0]
    if len(k) != 1:
        raise Bad("the walk does not start from the link looked at", loc)
    k, = k
    n = I.seq_len(sides)
    fill = I.seq_get(sides, x)
    none = V.eq(fill, V.ZERO)
    forms = scev.closed(I, R.loops)
    c = forms[D.id]
    pieces = mk("v", ("pieces",), ("slice", ("slice", POINT)))
    ended = conj(V.ge(V.pvar(scev.phi_term([ph for kk, (ph, i) in D.phis.items() if scev.phi_term(ph) is not None and scev.phi_term(ph).id in c.form][0])), I.seq_len(pieces)))
    ctx.eq(key + "/pieces/each", c.trip, I.seq_len(pieces), loc=loc)
    ctx.eq(key + "/ends-behind-last", disj(*[pc for _, pc, _ in W.exits]), V.ge(x, n), loc=loc)
    sm = lambda kk: V.restrict(W.nexts[kk], W.cont)
    live = conj(W.cont, V.b_not(none))
    ctx.eq(key + "/nothing-left-goes-on", sm(k), V.add(x, V.ONE), conj(W.cont, none), loc)
    ctx.eq(key + "/some-left-stays", sm(k), x, live, loc)
    for cc, l in seqs.leaves(sm(vk)):
        if compare.possible(conj(cc, W.cont)) is None:
            continue
        want = sides if compare.implies(conj(cc, W.cont), none) is None else mk("app", ("walked", sides), sides.ty)
        ctx.true(key + "/sides", l is want, f"the sides left become {V.show(l)[:200]}", loc)
    ctx.eq(key + "/walk/when", we.pc, conj(V.lt(x, n), V.b_not(none)), loc=loc, axioms=[(fill, "ge")])
    ctx.true(key + "/walk/sides", we.data[2] is sides, "the walk runs on other sides", loc)
    for code in (1, 2, 3):
        Z = scev.Subst(I, {scev.phi_term(fill).id: V.num(code)}) if scev.phi_term(fill) is not None else None
        if Z is None:
            raise Bad("the sides left of a link are not read", loc)
        ctx.eq(f"{key}/walk/side/{code:02b}", Z(we.data[1]), V.const(bool(code & 1)), loc=loc)
    se = one(ctx, R, "split")
    ctx.true(key + "/split/path", se.data[0] is mk("v", ("path",), ("slice", POINT)), V.show(se.data[0])[:100], loc)
    ctx.eq(key + "/split/area", se.data[1], ivar("min_area", "usize"), loc=loc)
    j = one(ctx, R, "join")
    ctx.eq(key + "/join/turn", j.data[3], V.const(cw), loc=loc)
    S = scev.Subst(I, c.form)
    el = I.seq_get(pieces, c.K)
    order = V.wrap(mk("app", ("turns", el), ("bool",)))
    for code in (1, 2, 3):
        d = V.const(bool(code & 1))
        Z = scev.Subst(I, {scev.phi_term(fill).id: V.num(code)})
        hole = sameb(order, d)
        for nm, lst, cond, out_cw in (("shapes", j.data[0], V.b_not(hole), cw), ("holes", j.data[2], hole, not cw)):
            ks = [(kk, ph, i) for kk, (ph, i) in W.phis.items() if ph is lst]
            if len(ks) != 1:
                raise Bad(f"the {nm} joined at the end are not those found", loc)
            kk, ph, i = ks[0]
            if code == 1:
                ctx.eq(f"{key}/{nm}/start-empty", I.seq_len(i), V.ZERO, loc=loc)
            if kk not in D.phis or D.phis[kk][1] is not ph:
                raise Bad(f"the pieces do not go to the {nm}", loc)
            dp = D.phis[kk][0]
            for cc, l in seqs.leaves(sm(kk)):
                if compare.possible(conj(cc, W.cont)) is None:
                    continue
                want = ph if compare.implies(conj(cc, W.cont), none) is None else dp
                ctx.true(f"{key}/{nm}/kept", l is want, f"the {nm} become {V.show(l)[:150]}", loc)
            inside = V.lt(c.K, I.seq_len(pieces))
            for cc, l in seqs.leaves(Z(S(V.restrict(D.nexts[kk], D.cont)))):
                cc = conj(cc, inside)
                if compare.possible(cc) is None:
                    continue
                ps = seqs.pushes(l, dp)
                ctx.true(f"{key}/{nm}/grow", ps is not None and len(ps) <= 1, f"become {V.show(l)[:200]}", loc)
                w = compare.implies(cc, cond if ps else V.b_not(cond))
                ctx.true(f"{key}/{nm}/{code:02b}/these", w is None, f"a piece is {'listed' if ps else 'left out'} when {w}", loc)
                for v in ps or []:
                    if nm == "shapes":
                        ctx.eq(f"{key}/shapes/one-contour", I.seq_len(v), V.ONE, cc, loc)
                        v = I.seq_get(v, V.ZERO)
                    for c3, y in seqs.leaves(v):
                        if compare.possible(conj(c3, cc)) is None:
                            continue
                        flip = y.k == "app" and y.a[0] == "rev"
                        ctx.true(f"{key}/{nm}/piece", (y.a[1] if flip else y) is el, f"{V.show(y)[:150]} is listed", loc)
                        o = V.b_not(order) if flip else order
                        w = compare.implies(conj(c3, cc), sameb(o, V.const(out_cw)))
                        ctx.true(f"{key}/{nm}/{code:02b}/turn", w is None, f"turns the wrong way when {w}", loc)
    for cc, l in seqs.leaves(R.ret):
        ctx.true(key + "/result", l is j.data[0], f"the result is {V.show(l)[:150]}", loc)


def string_entry(ctx):
    p = ctx.prog
    I = Interp(p)

    def ext(I, f, args, tys, dty, st, line):
        I.event("extract", tuple(args[1:]), line)
        return mk("v", ("result",), dty), V.T, st
    I.hooks["extract_shapes_custom"] = ext
    R = call(ctx, p.method(SG, "extract_shapes"), interp=I)
    e = one(ctx, R, "extract")
    ctx.eq("slices/entry/rule", I.expand(e.data[0]), I.expand(I.var("string_rule", ty_of(ctx, "StringRule"))), loc=R.loc)
    ctx.eq("slices/entry/direction", I.expand(e.data[1]), enum_of(ctx, I, "ContourDirection", "CounterClockwise"), loc=R.loc)
    ctx.eq("slices/entry/area", e.data[2], V.ZERO, loc=R.loc)
    # the sides of the body are what is walked
    I = Interp(p)
    R = call(ctx, p.method(SG, "filter"), interp=I)
    links = get(ctx, I, I.var("self", ty_of(ctx, SG)), SG, "links")
    B = seqs.built(I, scev.closed(I, R.loops), R.ret)
    ctx.eq("slices/sides/one-each", B.trip, I.seq_len(links), loc=R.loc)
    ctx.true("slices/sides/one", len(B.items) == 1, f"{len(B.items)} per link", R.loc)
    for c, v in B.items:
        fl = get(ctx, I, I.expand(I.seq_get(links, B.K)), L, "fill")
        w = compare.implies(V.lt(B.K, I.seq_len(links)), c)
        ctx.true("slices/sides/always", w is None, f"none when {w}", R.loc)
        for code in range(16):
            Z = scev.Subst(I, {scev.phi_term(fl).id: V.num(code)})
            ctx.eq(f"slices/sides/{code:04b}", Z(v), V.num(code & 3), loc=R.loc)


def string_choice(ctx):
    p = ctx.prog
    f = p.method(SG, "find_nearest_link_to")
    I = Interp(p)
    fills = mk("v", ("sides",), ("slice", ("int", "u8")))
    t, nd, cw = ivar("target", "usize"), ivar("node", "usize"), bvar("turn")
    self_ = I.var("self", ty_of(ctx, SG))
    links = get(ctx, I, self_, SG, "links")
    idx = I.seq_get(get(ctx, I, self_, SG, "nodes"), nd)
    lty = ty_of(ctx, L)

    def may(I, f, args, tys, dty, st, line):
        l = args[0]
        path = l.a[1] if l.k == "ref" else ()
        ix = [e[1] for e in path if e[0] == "i"]
        if l.k != "ref" or len(ix) != 1:
            raise Bad("a way is judged by something that is not a link of the graph")
        turns.append(args[3])
        return V.wrap(mk("app", ("may", ix[0], args[1], args[2]), ("bool",))), V.T, st
    turns = []
    I.hooks["is_move_possible"] = may
    free = lambda x: V.wrap(mk("app", ("may", x, I.seq_get(fills, x), nd), ("bool",)))
    chosen(ctx, "slices/choice", I, f, [None, t, nd, cw, fills], idx, links, t, nd, cw, free, V.T)
    for n, w in enumerate(turns):
        ctx.eq(f"slices/choice/asked{n}/turn", w, cw)


def string_walk(ctx):
    """as the walk of shapes, with sides used up instead of links"""
    p = ctx.prog
    I = Interp(p)
    self_ = I.var("self", ty_of(ctx, SG))
    links = get(ctx, I, self_, SG, "links")
    lk = lambda i: I.expand(I.seq_get(links, i))

    def nearest(I, f, args, tys, dty, st, line):
        return V.pvar(mk("app", ("nearest", args[1], args[2], args[3], seq_at(I, st, args[4])), dty)), V.T, st

    def visit(I, f, args, tys, dty, st, line):
        l = args[0]
        ix = [e[1] for e in (l.a[1] if l.k == "ref" else ()) if e[0] == "i"]
        if len(ix) != 1:
            raise Bad("a side is used up of something that is not a link of the graph")
        return V.pvar(mk("app", ("rest", ix[0], args[1], args[2], args[3]), dty)), V.T, st
    I.hooks.update({"find_nearest_link_to": nearest, "visit_fill": visit})
    fills = mk("v", ("sides",), ("slice", ("int", "u8")))
    s, cw = ivar("first", "usize"), bvar("turn")
    R = call(ctx, p.method(SG, "get_paths"), [None, s, cw, fills], interp=I)
    loc = R.loc
    W = main_loop(R)
    first = lk(s)
    (pa, ia), (pb, ib) = link_end(ctx, I, first, "a"), link_end(ctx, I, first, "b")
    by = {}
    for k, (ph, i) in W.phis.items():
        if k in W.nexts and ph.k == "p":
            for nm, want in (("link", s), ("node", ib)):
                if i is want:
                    by[nm] = (k, ph)
    if set(by) != {"link", "node"}:
        raise Bad("the walk has no current link or node", loc)
    lid, nid = by["link"][1], by["node"][1]
    vs, cs = seq_phis(I, W, ("int", "u8")), seq_phis(I, W, POINT)
    if len(vs) != 1 or len(cs) != 1:
        raise Bad("the walk does not keep one list of sides and one of points", loc)
    vk, vis, vi = vs[0]
    ck, con, ci = cs[0]
    key = "slices/walk"
    ctx.eq(key + "/until-back", disj(*[pc for _, pc, _ in W.exits]), V.eq(nid, ia), loc=loc)
    rest = lambda l, seq, n: V.pvar(mk("app", ("rest", l, I.seq_get(seq, l), n, cw), ("int", "u8")))
    ctx.true(key + "/first-used-up", vi is I.seq_store(fills, s, rest(s, fills, ia)), f"the sides start as {V.show(vi)[:150]}", loc)
    ctx.eq(key + "/first-listed", I.seq_len(ci), V.ONE, loc=loc)
    b = P2(I, I.expand(I.seq_get(ci, V.ZERO)))
    ctx.eq(key + "/begins.x", b.x, pa.x, loc=loc)
    ctx.eq(key + "/begins.y", b.y, pa.y, loc=loc)
    new = V.pvar(mk("app", ("nearest", lid, nid, cw, vis), ("int", "usize")))
    ctx.eq(key + "/next-link", round_of(W, by["link"][0]), new, W.cont, loc)
    (qa, ja), (qb, jb) = link_end(ctx, I, lk(new), "a"), link_end(ctx, I, lk(new), "b")
    at_a = V.eq(ja, nid)
    care = conj(W.cont, disj(at_a, V.eq(jb, nid)))
    ctx.eq(key + "/next-node", V.restrict(round_of(W, by["node"][0]), care), V.ite(at_a, jb, ja), care, loc)
    for c, l in seqs.leaves(V.restrict(round_of(W, ck), care)):
        ps = seqs.pushes(l, con)
        if ctx.true(key + "/one-listed", ps is not None and len(ps) == 1, f"the list becomes {V.show(l)[:200]}", loc):
            q = P2(I, I.expand(ps[0]))
            ctx.eq(key + "/point.x", q.x, V.ite(at_a, qa.x, qb.x), conj(c, care), loc)
            ctx.eq(key + "/point.y", q.y, V.ite(at_a, qa.y, qb.y), conj(c, care), loc)
    for c, l in seqs.leaves(V.restrict(round_of(W, vk), care)):
        ctx.true(key + "/used-up", l is I.seq_store(vis, new, rest(new, vis, nid)), f"the sides become {V.show(l)[:200]}", loc)
    for c, l in seqs.leaves(R.ret):
        ctx.true(key + "/result", l is con, f"the result is {V.show(l)[:150]}", loc)
