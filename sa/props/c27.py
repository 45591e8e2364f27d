"""The settings of the solver are the ones the splitting uses: the snap radius of every round, the strategy
that starts, threads or none, and the documented values behind the named settings."""
from .lib import *
from .c05 import local
from .c16 import Cut, Round, Tree, stub, one, buffer_
import models
import scev

CNT = ("param", "C")
I64 = ("int", "i64")
NAMED = {   # documented: start exponent, growth per round
    "ABSOLUTE": (0, 0), "HIGH": (0, 1), "MEDIUM_HIGH": (1, 1), "MEDIUM": (0, 2), "MEDIUM_LOW": (2, 2), "LOW": (2, 3),
}
LIMIT = 60


def run(ctx):
    with ctx.case("list"):
        rounds(ctx, "list_split")
    with ctx.case("tree"):
        rounds(ctx, "tree_split")
    with ctx.case("fragments"):
        rounds(ctx, "fragment_split")
    with ctx.case("columns"):
        columns(ctx)
    with ctx.case("start"):
        start(ctx)
    with ctx.case("fill"):
        fill(ctx)
    with ctx.case("sort"):
        sorting(ctx)
    with ctx.case("named"):
        named(ctx)
    ctx.floor(45)


def solver(ctx, I):
    return I.expand(I.var("solver", ty_of(ctx, "Solver")))


def exponents(ctx, I, sv):
    pr = get(ctx, I, sv, "Solver", "precision")
    return get(ctx, I, pr, "Precision", "start"), get(ctx, I, pr, "Precision", "progression")


def power(I, e):
    return I.binop("Shl", V.ONE, e, I64, 0)


class Exponents(Interp):
    """powers of two are told by their exponents"""

    def binop(self, op, a, b, ty, line):
        if op.startswith("Shl") and V.pconst(a) == 1:
            return b
        return super().binop(op, a, b, ty, line)


def grown(e, step):
    return V.vmin(V.add(e, step), V.num(LIMIT))


def radius_of(ctx, I, snap):
    return call(ctx, local(ctx, "radius", "SnapRadius"), [snap], interp=I).ret


def after_round(ctx, I, snap):
    return call(ctx, local(ctx, "increment", "SnapRadius"), [snap], interp=I).out[0]


def rounds(ctx, name):
    """the pairs of round k meet the radius 2^min(start + k progression, limit)"""
    key = name
    RD = Round(ctx)
    I = RD.I
    sv = solver(ctx, I)
    me = mkstruct(ctx, "SplitSolver", solver=sv)
    e0, step = exponents(ctx, I, sv)
    snap = call(ctx, local(ctx, "snap_radius", "SplitSolver"), [me], interp=Interp(ctx.prog)).ret
    kind, ix = "pair", 4
    if name == "tree_split":
        Tree(RD)
    if name == "fragment_split":
        flags = []
        I.hooks.update({"FragmentBuffer::add_segment": stub("placed", buf=0), "FragmentBuffer::init_fragment_buffer": stub("reserve"), "FragmentBuffer::clear": stub("cleared", buf=0),
                        "SplitSolver>::process": stub("process", marks=3, flag=flags), "SplitSolver>::on_border_split": stub("border", marks=3)})
        kind = "process"
    R = call(ctx, local(ctx, name), [me, snap, RD.S], interp=I)
    evs = one(R, kind)
    W = evs[0].loops[0]
    ctx.true(f"{key}/in-rounds", all(e.loops and e.loops[0] is W for e in evs), "pairs are looked at outside of the rounds", R.loc)
    rad = lambda e: e.data[0][1] if kind == "process" else e.data[ix]
    # the exponent of the round
    exp = None
    for k, (ph, init) in W.phis.items():
        if ph.k == "p" and all(compare.difference(rad(e), power(I, ph)) is None for e in evs):
            exp = (k, ph, init)
    if exp is None:
        raise Bad(f"the radius of a round is {V.show(rad(evs[0]))[:200]}, not a power of two that follows the rounds", R.loc)
    k, ph, init = exp
    for e in evs:
        ctx.eq(f"{key}/radius", rad(e), power(I, ph), loc=R.loc)
    ctx.eq(f"{key}/first-round", init, e0, loc=R.loc)
    nx = V.restrict(W.nexts[k], W.cont) if k in W.nexts else ph
    ctx.eq(f"{key}/next-round", nx, grown(ph, step), W.cont, R.loc)
    # another strategy takes over with the radius it is its turn to use
    J = Exponents(ctx.prog)
    for n, e in enumerate(e for e in R.events if e.kind == "other"):
        inside = e.data[2] is not RD.S      # segments that went through a round
        due = grown(ph, step) if inside else e0
        ctx.eq(f"{key}/handed-over-{n}", radius_of(ctx, J, e.data[1]), due, e.pc, R.loc)
        ctx.eq(f"{key}/handed-over-{n}/then", radius_of(ctx, J, after_round(ctx, J, e.data[1])), grown(due, step), e.pc, R.loc)
        ctx.true(f"{key}/handed-over-{n}/solver", I.expand(get(ctx, I, I.contents(State(), e.data[0]) if e.data[0].k != "ref" else me, "SplitSolver", "solver")) is sv, "another solver takes over", R.loc)
        if inside and name == "list_split":
            w = compare.implies(conj(e.pc, is_(ctx, I, sv, "List")), V.F)
            ctx.true(f"{key}/list-stays", w is None, f"an explicit list strategy is left when {w}", R.loc)


def is_(ctx, I, sv, variant):
    ty = ty_of(ctx, "Strategy")
    s = get(ctx, I, sv, "Solver", "strategy")
    return V.eq(I.discr_of(s, ty), V.num(ctx.prog.variants(adt(ctx, "Strategy")).index(variant)))


def threads(ctx, I, sv):
    m = get(ctx, I, sv, "Solver", "multithreading")
    return models.is_some(I.expand(m))


def columns(ctx):
    """every column of a round meets the round's radius; threads are used only when the solver allows them"""
    I = Interp(ctx.prog)
    got = []

    def col(how):
        def h(I, f, args, tys, dty, st, line):
            I.event("column", (how, args[0]), line)
            return V.wrap(mk("v", (("column", len(got)),), ("bool",))), V.T, st
        return h
    I.hooks = {"SplitSolver>::bin_split": col("bin")}
    sv = solver(ctx, I)
    me = mkstruct(ctx, "SplitSolver", solver=sv)
    r = ivar("radius", "i64")
    R = call(ctx, local(ctx, "process", "SplitSolver"), [me, r, buffer_(ctx, I), mk("v", ("marks",), ("slice", ty_of(ctx, "LineMark")))], interp=I)
    for e in one(R, "column"):
        ctx.eq("columns/radius", e.data[1], r, e.pc, R.loc)
    # the pairs of a column
    CU = Cut(ctx)
    R = call(ctx, local(ctx, "bin_split", "SplitSolver"), [r, mk("v", ("fragments",), ("slice", ty_of(ctx, "Fragment"))), mk("v", ("marks",), ("slice", ty_of(ctx, "LineMark")))], interp=CU.I)
    for e in one(R, "pair"):
        ctx.eq("columns/pair-radius", e.data[2], r, e.pc, R.loc)
    # threads
    fs = [f for f in ctx.prog.fns if f["m"] == "parallel_split" and f["id"] in ctx.prog.bodies]
    if not fs:
        return
    K = Interp(ctx.prog)

    def way(how):
        def h(I, f, args, tys, dty, st, line):
            I.event("way", (how, args[0]), line)
            return V.wrap(mk("v", (("way", how),), ("bool",))), V.T, st
        return h
    K.hooks = {"SplitSolver>::parallel_split": way("threads"), "SplitSolver>::serial_split": way("one")}
    R = call(ctx, local(ctx, "process", "SplitSolver"), [me, r, buffer_(ctx, K), mk("v", ("marks",), ("slice", ty_of(ctx, "LineMark")))], interp=K)
    for e in R.events:
        if e.kind == "way" and e.data[0] == "threads":
            w = compare.implies(e.pc, threads(ctx, K, sv))
            ctx.true("columns/threads", w is None, f"threads are used although the solver has no options for them, when {w}", R.loc)


def start(ctx):
    """an explicit strategy is the one that starts, with the first radius"""
    I = Interp(ctx.prog)
    sty = ty_of(ctx, "Segment", CNT)
    S = mk("v", ("segments",), ("slice", sty))
    took = {}

    def strategy(nm):
        def h(I, f, args, tys, dty, st, line):
            I.event("takes", (nm, args[1]), line)
            return mk("app", ("split", args[2]), args[2].ty), V.T, st
        return h
    I.hooks = {"SplitSolver>::" + n: strategy(n) for n in ("tree_split", "list_split", "fragment_split")}
    sv = solver(ctx, I)
    me = mkstruct(ctx, "SplitSolver", solver=sv)
    e0, step = exponents(ctx, I, sv)
    R = call(ctx, local(ctx, "split", "SplitSolver"), [me, S], interp=I)
    J = Exponents(ctx.prog)
    pcs = {}
    for e in one(R, "takes"):
        nm, snap = e.data
        pcs[nm] = V.b_or(pcs.get(nm, V.F), e.pc)
        ctx.eq(f"start/{nm}/radius", radius_of(ctx, J, snap), e0, e.pc, R.loc)
        ctx.eq(f"start/{nm}/then", radius_of(ctx, J, after_round(ctx, J, snap)), grown(e0, step), e.pc, R.loc)
    for want, v in (("list_split", "List"), ("fragment_split", "Frag")):
        w = compare.implies(is_(ctx, I, sv, v), pcs.get(want, V.F))
        ctx.true(f"start/{v}", w is None, f"the strategy {v} is not used when {w}", R.loc)
    w = compare.implies(conj(is_(ctx, I, sv, "Tree"), pcs.get("list_split", V.F)), V.F)
    ctx.true("start/Tree", w is None, f"the strategy Tree starts with the list when {w}", R.loc)


def fill(ctx):
    """an explicit strategy is the one that classifies the sides"""
    I = Interp(ctx.prog)
    sv = solver(ctx, I)
    f = local(ctx, "is_list_fill", "Solver")
    R = call(ctx, f, [sv, mk("v", ("segments",), ("slice", ty_of(ctx, "Segment", CNT)))], interp=I)
    for v, c in (("List", V.T), ("Tree", V.F), ("Frag", V.F)):
        ctx.eq(f"fill/{v}", R.ret, c, is_(ctx, I, sv, v), R.loc)


def sorting(ctx):
    """threads sort only when the solver allows them, and only more elements than it says"""
    I = Interp(ctx.prog)
    sv = solver(ctx, I)

    def par(I, f, args, tys, dty, st, line):
        I.event("threads", (), line)
        return mk("struct", ("()",), ("tuple", ())), V.T, st

    def ser(I, f, args, tys, dty, st, line):
        I.event("one", (), line)
        return mk("struct", ("()",), ("tuple", ())), V.T, st
    I.hooks = {"par_sort_unstable_by": par, "par_sort_by": par, "sort_with_bins": ser}
    f = local(ctx, "smart_bin_sort_by", "")
    xs = mk("v", ("elements",), ("slice", ("param", "T")))
    R = call(ctx, f, [xs, sv, None], interp=I)
    some = threads(ctx, I, sv)
    m = I.expand(get(ctx, I, sv, "Solver", "multithreading"))
    least = get(ctx, I, models.payload(m), "MultithreadOptions", "par_sort_min_size")
    pc = {"threads": V.F, "one": V.F}
    for e in R.events:
        if e.kind in pc:
            pc[e.kind] = V.b_or(pc[e.kind], e.pc)
    w = compare.implies(pc["threads"], conj(some, V.ge(I.seq_len(xs), least)))
    ctx.true("sort/threads", w is None, f"threads sort although the solver does not ask for it, when {w}", R.loc)
    w = compare.implies(V.T, disj(pc["threads"], pc["one"]))
    ctx.true("sort/always", w is None, f"nothing is sorted when {w}", R.loc)


def constant(ctx, I, name):
    fs = [r for r in ctx.prog.roots if r["n"].endswith(name) and r["id"] in ctx.prog.bodies]
    if len(fs) != 1:
        raise Bad(f"expected one constant {name}, found {len(fs)}")
    return I.expand(call(ctx, fs[0], [], interp=I).ret)


def named(ctx):
    p = ctx.prog
    I = Interp(p)
    n = lambda v: V.pconst(v)
    for nm, (s, g) in NAMED.items():
        c = constant(ctx, I, "solver::Precision::" + nm)
        ctx.eq(f"named/{nm}/start", get(ctx, I, c, "Precision", "start"), V.num(s))
        ctx.eq(f"named/{nm}/growth", get(ctx, I, c, "Precision", "progression"), V.num(g))
    vs = p.variants(adt(ctx, "Strategy"))
    sty = ty_of(ctx, "Strategy")

    def is_solver(key, sv, strategy, start, growth):
        ctx.eq(f"{key}/strategy", I.discr_of(get(ctx, I, sv, "Solver", "strategy"), sty), strategy)
        a, b = exponents(ctx, I, sv)
        ctx.eq(f"{key}/start", a, start)
        ctx.eq(f"{key}/growth", b, growth)
    z = (V.num(NAMED["HIGH"][0]), V.num(NAMED["HIGH"][1]))
    for nm, v in (("LIST", "List"), ("TREE", "Tree"), ("FRAG", "Frag"), ("AUTO", "Auto")):
        is_solver(f"named/{nm}", constant(ctx, I, "solver::Solver::" + nm), V.num(vs.index(v)), *z)
    auto = V.num(vs.index("Auto"))
    is_solver("named/default", I.expand(call(ctx, p.method("Solver", "default", "Default"), [], interp=I).ret), auto, *z)
    pr = I.expand(I.var("precision", ty_of(ctx, "Precision")))
    own = get(ctx, I, pr, "Precision", "start"), get(ctx, I, pr, "Precision", "progression")
    is_solver("named/with_precision", I.expand(call(ctx, local(ctx, "with_precision", "Solver"), [pr], interp=I).ret), auto, *own)
    st = I.var("strategy", sty)
    is_solver("named/with_strategy_and_precision", I.expand(call(ctx, local(ctx, "with_strategy_and_precision", "Solver"), [st, pr], interp=I).ret), I.discr_of(st, sty), *own)
