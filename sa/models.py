"""Meaning of the library operations the analysed code is written in."""
from fractions import Fraction

import vals as V
from vals import (F, T, UNDEF, UNIT, ZERO, ONE, mk, num, pvar, pconst, add, sub, mul, neg, lt, le, gt, ge, eq, ne,
                  ite, b_and, b_or, b_not, apply, apply_r, leafset)

USIZE = ("int", "usize")


def is_numeric(v):
    return all(x.k in ("p", "undef") for x in leafset(v)) if v.k in ("ite", "p") else False


def is_boolv(v):
    return all(x.k == "c" and isinstance(x.a[0], bool) for x in leafset(v))


def deref_all(I, st, v):
    while v.k == "ref" or (v.k == "ite" and any(x.k == "ref" for x in leafset(v))):
        v = I.read(st, v)
    return v


# ---------------------------------------------------------------- iterators
def it_slice(r, lo, hi):
    return mk("struct", ("it.slice", r, lo, hi))


def it_vec(s, lo, hi):
    return mk("struct", ("it.vec", s, lo, hi))


def to_iter(I, st, v, ty):
    """IntoIterator::into_iter on value v of type ty"""
    if ty is not None and ty[0] == "ref":
        e = I.norm_seq(ty[1])
        if e is not None:
            return it_slice(v, ZERO, I.seq_len(I.read(st, v)))
    if ty is not None and I.norm_seq(ty) is not None:
        return it_vec(v, ZERO, I.seq_len(v))
    if ty is not None and ty[0] == "adt" and ty[1] == "std::option::Option":
        return mk("struct", ("it.opt", v))
    return v


def sname(v):
    return v.a[0] if v.k == "struct" and isinstance(v.a[0], str) else None


def adapt(I, v, name):
    n = sname(v)
    return n is not None and n.split("::")[-1] == name


def elem_ty(I, itv, dty):
    return None


def items_of(I, it, clo, nth, ref):
    """an arbitrary iterator as a finite sequence of items of the type its consumer takes"""
    et = None
    if clo.k == "struct" and isinstance(clo.a[0], tuple) and clo.a[0][0] == "closure":
        et = I.p.ty(I.p.bodies[clo.a[0][2]]["locals"][1 + nth])
    elif clo.k == "fn" and clo.ty and len(clo.ty) == nth:
        et = clo.ty[-1]
    if et is not None and ref:
        et = et[1] if et[0] == "ref" else None
    if et is None:
        return it
    s = mk("app", ("items", it), ("slice", et))
    return mk("struct", ("it.vec", s, ZERO, I.seq_len(s)))


def next_(I, st, it, back=False, dty=None):
    """-> (option value, new iterator value, state) or None when the iterator is not understood"""
    n = sname(it)
    if n is None:
        if it.k == "enum" or it.k == "undef":
            return None
        if it.k == "ref":
            inner = I.read(st, it)
            r = next_(I, st, inner, back, dty)
            if r is None:
                return None
            o, ni, st = r
            st = st.copy()
            I.write(st, it, ni)
            return o, it, st
        # an arbitrary iterator: a finite sequence of items
        if it.k in ("v", "app") and dty is not None and not back:
            et = dty[2][0] if dty[0] == "adt" and dty[2] else None
            if et is None:
                return None
            s = mk("app", ("items", it), ("slice", et))
            nit = mk("struct", ("it.vec", s, ZERO, I.seq_len(s)))
            return next_(I, st, nit, back, dty)
        return None
    short = n.split("::")[-1]
    if n == "it.slice" or n == "it.vec":
        src, lo, hi = it.a[1:]
        c = lt(lo, hi)
        if back:
            ix = sub(hi, ONE)
            nhi = ite(c, ix, hi)
            nlo = lo
        else:
            ix = lo
            nlo = ite(c, add(lo, ONE), lo)
            nhi = hi
        x = I.extend_ref(src, ("i", ix)) if n == "it.slice" else I.seq_get(src, ix)
        return I.opt(c, x), mk("struct", (n, src, nlo, nhi)), st
    if n == "it.opt":
        return it.a[1], mk("struct", ("it.opt", I.none())), st
    if n == "it.windows":
        src, w, lo, hi = it.a[1:]
        c = le(add(lo, w), hi)
        if back:
            return None
        x = I.extend_ref(src, ("sl", lo, add(lo, w)))
        return I.opt(c, x), mk("struct", (n, src, w, ite(c, add(lo, ONE), lo), hi)), st
    if n == "it.zip":
        ra = next_(I, st, it.a[1], back)
        if ra is None or back:
            return None
        oa, na, st = ra
        rb = next_(I, st, it.a[2], back)
        if rb is None:
            return None
        ob, nb, st = rb
        c = b_and(is_some(oa), is_some(ob))
        return I.opt(c, mk("struct", ("tuple", payload(oa), payload(ob)))), mk("struct", (n, na, nb)), st
    if n == "it.chain":
        if back:
            return None
        ra = next_(I, st, it.a[1], back, dty)
        if ra is None:
            return None
        oa, na, st = ra
        rb = next_(I, st, it.a[2], back, dty)
        if rb is None:
            return None
        ob, nb, st2 = rb
        c = is_some(oa)
        return ite(c, oa, ob), mk("struct", (n, na, ite(c, it.a[2], nb))), st2
    if short == "Range" and len(it.a) == 3:
        lo, hi = it.a[1:]
        c = lt(lo, hi)
        if back:
            x = sub(hi, ONE)
            return I.opt(c, x), mk("struct", (n, lo, ite(c, x, hi))), st
        return I.opt(c, lo), mk("struct", (n, ite(c, add(lo, ONE), lo), hi)), st
    if short == "RangeInclusive" and len(it.a) == 3:
        # kept half open: (start, end + 1)
        lo, hi = it.a[1:]
        c = lt(lo, hi)
        if back:
            x = sub(hi, ONE)
            return I.opt(c, x), mk("struct", (n, lo, ite(c, x, hi))), st
        return I.opt(c, lo), mk("struct", (n, ite(c, add(lo, ONE), lo), hi)), st
    if short == "Enumerate":
        inner, cnt = it.a[1:]
        if back:
            ln = length(I, st, inner)
            if ln is None:
                return None
            r = next_(I, st, inner, True)
            if r is None:
                return None
            o, ni, st = r
            return map_opt(I, o, lambda x: mk("struct", ("tuple", add(cnt, sub(ln, ONE)), x))), mk("struct", (n, ni, cnt)), st
        r = next_(I, st, inner)
        if r is None:
            return None
        o, ni, st = r
        c = is_some(o)
        return I.opt(c, mk("struct", ("tuple", cnt, payload(o)))), mk("struct", (n, ni, ite(b_and(c, I.keep), add(cnt, ONE), cnt))), st
    if short in ("Copied", "Cloned"):
        r = next_(I, st, it.a[1], back)
        if r is None:
            return None
        o, ni, st = r
        return I.opt(is_some(o), I.read(st, payload(o)) if payload(o).k != "undef" else UNDEF), mk("struct", (n, ni)), st
    if short == "Rev":
        r = next_(I, st, it.a[1], not back)
        if r is None:
            return None
        o, ni, st = r
        return o, mk("struct", (n, ni)), st
    if short in ("Skip", "Take") and it.a[2].k == "c":
        r = next_(I, st, it.a[1], back)
        if r is None:
            return None
        o, ni, st = r
        return o, mk("struct", (n, ni) + it.a[2:]), st
    if short in ("Filter", "FilterMap"):
        r = next_(I, st, it.a[1], back)
        if r is None:
            return None
        o, ni, st = r
        c = b_and(is_some(o), I.keep)
        if c is F:
            return (o if short == "Filter" else I.none()), mk("struct", (n, ni, it.a[2])), st
        x = payload(o)
        if short == "Filter":
            I.nheap += 1
            root = ("H", I.nheap, "item")
            s = st.copy()
            s[root] = x
            x = mk("ref", (root, ()))
        else:
            s = st
        kp = I.keep
        r = call_fn(I, it.a[2], [x], None, s, c)
        I.keep = kp
        if r is None:
            return None
        v, st2, nf = r
        if short == "Filter":
            st2 = st2.copy()
            st2.pop(root, None)
        if c is not T:
            _, st2 = I.merge([(c, st2), (b_not(c), st)])
        nit = mk("struct", (n, ni, nf if nf is not None else it.a[2]))
        if short == "Filter":
            I.keep = b_and(I.keep, b_or(b_not(c), v))
            return o, nit, st2
        I.keep = b_and(I.keep, b_or(b_not(c), is_some(v)))
        return I.opt(c, payload(v)), nit, st2
    if short == "Map":
        r = next_(I, st, it.a[1], back)
        if r is None:
            return None
        o, ni, st = r
        c = b_and(is_some(o), I.keep)
        if c is F:
            return I.none(), mk("struct", (n, ni, it.a[2])), st
        r = call_fn(I, it.a[2], [payload(o)], None, st, c)
        if r is None:
            return None
        v, st2, nf = r
        if c is not T:
            _, st2 = I.merge([(c, st2), (b_not(c), st)])
        return I.opt(is_some(o), v), mk("struct", (n, ni, nf if nf is not None else it.a[2])), st2
    return None


def call_fn(I, f, args, dty, st, pc=T):
    """call a closure value -> (value, state, updated closure value or None)"""
    saved = I.pc
    I.pc = b_and(saved, pc)
    try:
        by_ref = f.k == "struct" and isinstance(f.a[0], tuple) and f.a[0][0] == "closure" and I.p.ty(I.p.bodies[f.a[0][2]]["locals"][1])[0] == "ref"
        if by_ref:
            I.nheap += 1
            root = ("H", I.nheap, "clo")
            st = st.copy()
            st[root] = f
            b = I.p.bodies[f.a[0][2]]
            r = I.run_body(b, [mk("ref", (root, ()))] + list(args), st)
            if r is None:
                return None
            v, p, st2 = r
            nf = st2.pop(root, f)
            return v, st2, nf
        if f.k == "ref":
            inner = I.read(st, f)
            r = call_fn(I, inner, args, dty, st)
            if r is None:
                return None
            v, st2, nf = r
            if nf is not None and nf is not inner:
                I.write(st2, f, nf)
            return v, st2, f
        r = I.call_value(f, args, [None] * len(args), dty, st, 0)
        if r is None:
            return None
        return r[0], r[2], None
    finally:
        I.pc = saved


def length(I, st, it):
    n = sname(it)
    if n in ("it.slice", "it.vec"):
        return sub(it.a[3], it.a[2])
    if n is None:
        return None
    short = n.split("::")[-1]
    if short in ("Range", "RangeInclusive"):
        return sub(it.a[2], it.a[1])
    if short in ("Enumerate", "Map", "Copied", "Cloned", "Rev"):
        return length(I, st, it.a[1])
    if short in ("Skip", "Take") and it.a[2].k == "c":
        return length(I, st, it.a[1])
    if n == "it.zip":
        a, b = length(I, st, it.a[1]), length(I, st, it.a[2])
        return None if a is None or b is None else V.vmin(a, b)
    if n == "it.windows":
        return ite(le(add(it.a[3], it.a[2]), it.a[4]), add(sub(sub(it.a[4], it.a[3]), it.a[2]), ONE), ZERO)
    return None


def advance(I, it, k):
    """drop the first k items eagerly; None when not possible"""
    n = sname(it)
    if n in ("it.slice", "it.vec"):
        return mk("struct", (n, it.a[1], add(it.a[2], k), it.a[3]))
    if n is None:
        return None
    short = n.split("::")[-1]
    if short in ("Range", "RangeInclusive"):
        return mk("struct", (n, add(it.a[1], k), it.a[2]))
    if short == "Enumerate":
        a = advance(I, it.a[1], k)
        return None if a is None else mk("struct", (n, a, add(it.a[2], k)))
    if short in ("Copied", "Cloned", "Map"):
        a = advance(I, it.a[1], k)
        return None if a is None else mk("struct", (n, a) + it.a[2:])
    if short == "Rev":
        a = truncate_back(I, it.a[1], k)
        return None if a is None else mk("struct", (n, a))
    if short in ("Skip", "Take") and it.a[2].k == "c":
        a = advance(I, it.a[1], k)
        return None if a is None else mk("struct", (n, a) + it.a[2:])
    if n == "it.zip":
        a, b = advance(I, it.a[1], k), advance(I, it.a[2], k)
        return None if a is None or b is None else mk("struct", (n, a, b))
    if n == "it.windows":
        return mk("struct", (n, it.a[1], it.a[2], add(it.a[3], k), it.a[4]))
    return None


def truncate_back(I, it, k):
    n = sname(it)
    if n in ("it.slice", "it.vec"):
        return mk("struct", (n, it.a[1], it.a[2], sub(it.a[3], k)))
    if n is None:
        return None
    short = n.split("::")[-1]
    if short in ("Range", "RangeInclusive"):
        return mk("struct", (n, it.a[1], sub(it.a[2], k)))
    if short in ("Enumerate", "Copied", "Cloned"):
        a = truncate_back(I, it.a[1], k)
        return None if a is None else mk("struct", (n, a) + it.a[2:])
    return None


def limit(I, it, k):
    n = sname(it)
    if n in ("it.slice", "it.vec"):
        return mk("struct", (n, it.a[1], it.a[2], V.vmin(it.a[3], add(it.a[2], k))))
    if n is None:
        return None
    short = n.split("::")[-1]
    if short in ("Range", "RangeInclusive"):
        return mk("struct", (n, it.a[1], V.vmin(it.a[2], add(it.a[1], k))))
    if short in ("Enumerate", "Copied", "Cloned", "Map"):
        a = limit(I, it.a[1], k)
        return None if a is None else mk("struct", (n, a) + it.a[2:])
    if short in ("Skip", "Take") and it.a[2].k == "c":
        a = limit(I, it.a[1], k)
        return None if a is None else mk("struct", (n, a) + it.a[2:])
    if n == "it.zip":
        a, b = limit(I, it.a[1], k), limit(I, it.a[2], k)
        return None if a is None or b is None else mk("struct", (n, a, b))
    if n == "it.windows":
        return mk("struct", (n, it.a[1], it.a[2], it.a[3], V.vmin(it.a[4], sub(add(add(it.a[3], k), it.a[2]), ONE))))
    if short == "Repeat" and len(it.a) == 2:
        return repeated(I, it.a[1], k)
    return None


def repeated(I, x, n):
    return it_vec(mk("app", ("rep", x, n), ("slice", x.ty if x.ty is not None else ("bool",) if is_boolv(x) else None)), ZERO, n)


def is_some(o):
    if o.k == "enum":
        return apply("issome", lambda x: UNDEF if V._undef(x) else (T if pconst(x) == 1 else F), o.a[1])
    return UNDEF


def payload(o):
    if o.k == "enum":
        p = o.a[3]
        return p[0] if p else UNDEF
    return UNDEF


def map_opt(I, o, f):
    return I.opt(is_some(o), f(payload(o)) if payload(o).k != "undef" else UNDEF)


def filtered_next(I, args, tys, dty, st):
    """next() of a filtering iterator -> (option, kept?, state), None if it is not one"""
    if not (tys[0] and tys[0][0] == "ref"):
        return None
    itv = I.read(st, args[0])
    if not filtered(itv):
        return None
    I.keep = T
    r = next_(I, st, itv, False, dty)
    keep, I.keep = I.keep, T
    if r is None:
        return None
    o, ni, s = r
    s = s.copy()
    I.write(s, args[0], ni)
    return o, b_or(keep, b_not(is_some(o))), s


def filtered(it):
    st = [it]
    while st:
        x = st.pop()
        if x.k == "struct" and isinstance(x.a[0], str):
            if x.a[0].split("::")[-1] in ("Filter", "FilterMap"):
                return True
            if x.a[0].startswith("it.") or x.a[0].startswith("std::iter::"):
                st += [y for y in x.a[1:] if isinstance(y, V.N)]
    return False


class Mutable:
    pass


def flat_inner(it):
    """the iterator of sequences inside flatten/flat_map that has not been started"""
    n = sname(it)
    if n is None or n.split("::")[-1] not in ("FlatMap", "Flatten") or len(it.a) != 2:
        return None
    c = it.a[1]
    if sname(c) is None or len(c.a) != 4:
        return None
    for x in c.a[2:]:
        if x.k != "enum" or pconst(x.a[1]) != 0:
            return None
    f = c.a[1]
    if sname(f) is None or not sname(f).endswith("Fuse") or f.a[1].k != "enum" or pconst(f.a[1].a[1]) != 1:
        return None
    return f.a[1].a[3][0]


def name_gated(I, it):
    """give gated sequences inside an iterator a name, so that they can be read element by element"""
    if getattr(I, "fresh_sorts", None) is None or it is None or it.k != "struct":
        return it
    a = list(it.a)
    if sname(it) == "it.vec" and a[1].k == "ite":
        lf = a[1]
        while lf.k == "ite" or lf.k == "undef":
            lf = [x for x in lf.a[1:] if x.k != "undef"][0]
        for x, y in I.named.items():
            if y is a[1]:
                a[1] = x
                break
        else:
            x = mk("v", (("named", len(I.named)),), lf.ty)
            I.named[x] = a[1]
            a[1] = x
    else:
        a[1:] = [name_gated(I, x) if isinstance(x, V.N) and x.k == "struct" else x for x in a[1:]]
    return mk("struct", tuple(a), it.ty)


def iter_loop(I, st, it, init, step, fn="iterator"):
    """synthetic loop: acc = init; while let Some(x) = it.next() { (acc, stop) = step(acc, x, st) }

    step returns (acc, continue condition, state).  -> [(pc, acc, state)] of the exits, or None"""
    if sname(it) == "it.chain":
        r = both(I, st, it, init, step, fn)
        if r is not None:
            return r
    I.nheap += 1
    rit = ("H", I.nheap, "it")
    I.nheap += 1
    racc = ("H", I.nheap, "acc")
    st = st.copy()
    st[rit] = it
    st[racc] = init
    ok = [True]

    def body(s):
        s = s.copy()
        I.pc = T
        I.keep = T
        r = next_(I, s, s[rit])
        keep, I.keep = I.keep, T
        if r is None:
            ok[0] = False
            return {"exit": [(T, s)]}
        o, ni, s = r
        c = is_some(o)
        s = s.copy()
        s[rit] = ni
        out = {}
        nc = b_not(c)
        if nc is not F:
            out["exit"] = [(nc, s)]
        drop = b_and(c, b_not(keep))
        if drop is not F:
            out["back"] = [(drop, s)]
        c = b_and(c, keep)
        if c is not F:
            I.pc = c
            r = step(s[racc], payload(o), s.copy())
            if r is None:
                ok[0] = False
                return {"exit": [(T, s)]}
            acc, go, s2 = r
            s2[racc] = acc
            p = b_and(c, go)
            if p is not F:
                out.setdefault("back", []).append((p, s2))
            q = b_and(c, b_not(go))
            if q is not F:
                out.setdefault("exit", []).append((q, s2))
        return out

    I.ctx.append(I.pc)
    try:
        lp, exits = I.loop_fix(T, st, body, fn, getattr(I, "line", 0))
    finally:
        I.ctx.pop()
    if not ok[0]:
        return None
    ex = exits.get("exit", [])
    if not ex:
        return None
    pc, s = I.merge(ex)
    s = s.copy()
    acc = s.pop(racc)
    itv = s.pop(rit)
    return acc, itv, s


def rewind(I, mark):
    ne, nl, I.nheap, I.nframe, I.nloop = mark
    del I.events[ne:]
    del I.loops[nl:]


def both(I, st, it, init, step, fn):
    """a loop over one iterator and then another one: two loops, unless the first may stop early"""
    stops = []

    def first(acc, x, s):
        r = step(acc, x, s)
        if r is not None and r[1] is not T:
            stops.append(r[1])
            return None
        return r
    mark = len(I.events), len(I.loops), I.nheap, I.nframe, I.nloop
    a = iter_loop(I, st, it.a[1], init, first, fn)
    if a is None or stops:
        rewind(I, mark)
        return None
    b = iter_loop(I, a[2], it.a[2], a[0], step, fn)
    if b is None:
        rewind(I, mark)
        return None
    return b[0], mk("struct", (it.a[0], a[1], b[1])), b[2]


def model(I, f, nm, inm, args, tys, dty, st, line):
    n = nm
    full = inm or nm
    seg = n.split("::")
    last = seg[-1]
    tr = f.get("trait")
    trs = tr.split("::")[-1] if tr else None
    NI = NotImplemented

    def ret(v, s=None, pc=T):
        return v, pc, (s if s is not None else st)

    def wr(r, v):
        s = st.copy()
        I.write(s, r, v)
        return s

    if n.startswith("std::array::") and last == "map" and len(args) == 2 and args[0].k == "app" and args[0].a[0] == "seq" and dty and I.norm_seq(dty) is not None:
        out, s, clo = [], st, args[1]
        for x in args[0].a[1:]:
            r = call_fn(I, clo, [x], None, s)
            if r is None:
                return NI
            out.append(r[0])
            s = r[1]
            clo = r[2] if r[2] is not None else clo
        return ret(I.lit(out, I.norm_seq(dty)), s)
    # ------------------------------------------------ numbers behind traits
    if trs == "FloatNumber" or n.startswith("i_float::float::number::FloatNumber"):
        if last in ("from_float", "to_f64", "from_i32", "from_i64", "from_usize", "from_f32", "to_f32"):
            return ret(args[0])
        if last == "abs":
            return ret(V.absv(args[0]))
        if last in ("max", "min"):
            return ret((V.vmax if last == "max" else V.vmin)(args[0], args[1]))
        if last in ("to_i32", "to_i64", "to_usize"):
            return ret(V.lapp("trunc", args[0], ty=dty))
        if last in ("sqrt", "sin", "cos", "tan", "acos", "asin", "atan", "round", "floor", "ceil"):
            return ret(V.lapp(last, args[0], ty=dty))
        return NI
    if n.startswith("i_float::float::compatible::FloatPointCompatible"):
        if last in ("x", "y"):
            p = I.read(st, args[0])
            if p.k == "struct" and len(p.a) == 3:
                return ret(p.a[1] if last == "x" else p.a[2])
            return ret(I.opq(dty, last, p))
        if last == "from_xy":
            return ret(I.point(args[0], args[1]))
        return NI
    if trs in ("Add", "Sub", "Mul", "Div", "Rem") and len(args) == 2:
        a, b = deref_all(I, st, args[0]), deref_all(I, st, args[1])
        if is_numeric(a) and is_numeric(b) and (f["inst"] is None or f["inst"]["b"] is None or I.is_core(full)):
            ty = tys[0]
            while ty and ty[0] == "ref":
                ty = ty[1]
            return ret({"Add": add, "Sub": sub, "Mul": mul}[trs](a, b) if trs in ("Add", "Sub", "Mul") else (I.div(a, b, ty) if trs == "Div" else I.rem(a, b, ty)))
        return NI
    if trs in ("AddAssign", "SubAssign", "MulAssign", "DivAssign") and len(args) == 2:
        a, b = I.read(st, args[0]), deref_all(I, st, args[1])
        if is_numeric(a) and is_numeric(b):
            v = {"A": add, "S": sub, "M": mul}[trs[0]](a, b) if trs[0] != "D" else I.div(a, b, tys[0][1])
            return ret(UNIT, wr(args[0], v))
        return NI
    if trs == "Neg" and len(args) == 1:
        a = deref_all(I, st, args[0])
        if is_numeric(a):
            return ret(neg(a))
        return NI
    if trs in ("BitAnd", "BitOr", "BitXor", "Shl", "Shr") and len(args) == 2:
        a, b = deref_all(I, st, args[0]), deref_all(I, st, args[1])
        ty = tys[0]
        while ty and ty[0] == "ref":
            ty = ty[1]
        if ty and ty[0] in ("int", "bool"):
            return ret(I.binop(trs, a, b, ty, line))
        return NI
    if trs == "Not" and len(args) == 1:
        a = deref_all(I, st, args[0])
        if is_boolv(a):
            return ret(b_not(a))
        return NI

    if trs in ("PartialEq", "PartialOrd", "Ord") and len(args) >= 2 and last in ("eq", "ne", "lt", "le", "gt", "ge", "cmp", "partial_cmp", "max", "min", "clamp"):
        a, b = args[0], args[1]
        if last not in ("max", "min", "clamp"):
            a, b = deref_all(I, st, a), deref_all(I, st, b)
        if is_numeric(a) and is_numeric(b):
            if last in ("eq", "ne", "lt", "le", "gt", "ge"):
                return ret({"eq": eq, "ne": ne, "lt": lt, "le": le, "gt": gt, "ge": ge}[last](a, b))
            if last == "cmp":
                return ret(I.ordering(V.signum(sub(a, b))))
            if last == "partial_cmp":
                return ret(I.some(I.ordering(V.signum(sub(a, b)))))
            if last == "max":
                return ret(V.vmax(a, b))
            if last == "min":
                return ret(V.vmin(a, b))
            if last == "clamp":
                return ret(V.vmax(a, V.vmin(b, args[2])) if False else ite(lt(a, b), b, ite(gt(a, args[2]), args[2], a)))
        if is_boolv(a) and is_boolv(b) and last in ("eq", "ne"):
            x = apply("beq", lambda p, q: UNDEF if V._undef(p, q) else (T if p is q else F), a, b)
            return ret(x if last == "eq" else b_not(x))
        if a.k == "enum" and b.k == "enum" and last in ("eq", "ne") and all(not p for p in a.a[2:]) and all(not p for p in b.a[2:]):
            x = eq(a.a[1], b.a[1])
            return ret(x if last == "eq" else b_not(x))
        return NI

    # ------------------------------------------------ inherent numeric methods
    if "::<impl " in full and ("core::num" in full or "f64::" in full or "f32::" in full or "std::f64" in full):
        r = numeric_method(I, last, args, tys, dty, full)
        if r is not NI:
            return ret(r)
        return NI

    # ------------------------------------------------ memory
    if n in ("std::mem::swap", "core::mem::swap"):
        a, b = I.read(st, args[0]), I.read(st, args[1])
        s = wr(args[0], b)
        I.write(s, args[1], a)
        return ret(UNIT, s)
    if n in ("std::mem::replace", "core::mem::replace"):
        a = I.read(st, args[0])
        return ret(a, wr(args[0], args[1]))
    if n in ("std::mem::take", "core::mem::take"):
        a = I.read(st, args[0])
        e = I.norm_seq(dty)
        if e is not None:
            return ret(a, wr(args[0], I.lit([], e)))
        if is_numeric(a):
            return ret(a, wr(args[0], ZERO))
        if is_boolv(a):
            return ret(a, wr(args[0], F))
        if a.k == "enum" and a.a[0].endswith("Option"):
            return ret(a, wr(args[0], I.none()))
        return NI
    if last in ("transmute",) and "intrinsics" in n:
        return ret(I.transmute(args[0], tys[0], dty))
    if last == "drop" and n in ("std::mem::drop", "core::mem::drop"):
        return ret(UNIT)
    if "intrinsics" in n and last in ("cold_path", "assume", "assert_inhabited"):
        return ret(UNIT)
    if "intrinsics" in n and last in ("likely", "unlikely", "black_box"):
        return ret(args[0])
    if "intrinsics" in n and last == "discriminant_value":
        v = I.read(st, args[0])
        return ret(I.discr_of(v, None))
    if "intrinsics" in n and last in ("three_way_compare",):
        return ret(I.ordering(V.signum(sub(args[0], args[1]))))
    if trs == "Clone" and last == "clone":
        if f["inst"] and f["inst"]["b"] is not None and not I.is_core(full) and "i_" in full and not full.startswith("std"):
            pass
        v = I.read(st, args[0])
        return ret(v)
    if trs in ("From", "Into") and last in ("from", "into") and len(args) == 1 and is_numeric(args[0]) and dty and dty[0] in ("int", "float"):
        return ret(args[0])
    if trs == "Default" and last == "default":
        if dty and dty[0] == "adt" and dty[1].endswith("PhantomData"):
            return ret(UNIT)
        if dty and dty[0] in ("int", "float"):
            return ret(ZERO)
        if dty and dty[0] == "bool":
            return ret(F)
        if I.norm_seq(dty) is not None and dty[0] == "adt":
            return ret(I.lit([], I.norm_seq(dty)))
        return NI
    if trs in ("Deref", "DerefMut", "Borrow", "BorrowMut", "AsRef", "AsMut") and len(args) == 1 and tys[0] and tys[0][0] == "ref":
        t = tys[0][1]
        if I.norm_seq(t) is not None:
            return ret(args[0])
        return NI
    if n.startswith("std::boxed::Box::<T>::new"):
        I.nheap += 1
        root = ("H", I.nheap, "uninit" if last == "new_uninit" else "box")
        s = st.copy()
        s[root] = args[0] if args else UNDEF
        return ret(mk("ref", (root, ())), s)
    if n.startswith("std::boxed::box_assume_init_into_vec"):
        v = I.read(st, args[0])
        return ret(v)

    # ------------------------------------------------ Option
    if n.startswith("std::option::Option::<T>::") and args:
        o = args[0]
        if last in ("unwrap", "expect", "unwrap_unchecked") and o.k == "enum":
            I.event("unwrap", (is_some(o),), line)
            return ret(payload(o))
        if last in ("is_some", "is_none"):
            v = I.read(st, o)
            if v.k == "enum":
                c = is_some(v)
                return ret(c if last == "is_some" else b_not(c))
        if last in ("as_ref", "as_mut", "as_deref", "as_deref_mut"):
            v = I.read(st, o)
            if v.k == "enum":
                return ret(I.opt(is_some(v), I.extend_ref(I.extend_ref(o, ("d", 1)), ("f", 0))))
        if last in ("copied", "cloned") and o.k == "enum":
            return ret(map_opt(I, o, lambda x: I.read(st, x)))
        if last == "take":
            v = I.read(st, o)
            return ret(v, wr(o, I.none()))
        if last == "unwrap_or" and o.k == "enum":
            return ret(ite(is_some(o), payload(o), args[1]) if is_some(o) is not F else args[1])
        return NI

    # ------------------------------------------------ threads: independent elements, results in order
    if trs in ("IntoParallelRefIterator", "IntoParallelRefMutIterator") and last in ("par_iter", "par_iter_mut") and tys[0][0] == "ref" and I.norm_seq(tys[0][1]) is not None:
        return ret(it_slice(args[0], ZERO, I.seq_len(I.read(st, args[0]))))
    if trs in ("ParallelIterator", "IndexedParallelIterator") and last in ("map", "collect", "enumerate", "filter", "for_each", "any", "all", "sum", "count"):
        return iter_model(I, f, n, full, last, "Iterator", args, tys, dty, st, line)

    # ------------------------------------------------ vectors and slices
    r = seq_model(I, f, n, full, last, trs, args, tys, dty, st, line)
    if r is not NI:
        return r
    r = iter_model(I, f, n, full, last, trs, args, tys, dty, st, line)
    if r is not NI:
        return r
    r = map_model(I, f, n, full, last, trs, args, tys, dty, st, line)
    return r


def numeric_method(I, last, args, tys, dty, full):
    a = args[0] if args else None
    ty = tys[0] if tys else None
    if a is None or not is_numeric(a):
        if a is not None and a.k == "ref":
            return NotImplemented
        if a is None:
            return NotImplemented
    if last == "abs" or last == "unsigned_abs":
        return V.absv(a)
    if last == "abs_diff":
        return V.absv(sub(a, args[1]))
    if last == "signum":
        if ty and ty[0] == "float":
            return NotImplemented
        return V.signum(a)
    if last == "max":
        return V.vmax(a, args[1])
    if last == "min":
        return V.vmin(a, args[1])
    if last == "clamp":
        return ite(lt(a, args[1]), args[1], ite(gt(a, args[2]), args[2], a))
    if last == "is_negative":
        return lt(a, ZERO)
    if last == "is_positive":
        return gt(a, ZERO)
    if last == "sqrt":
        return V.lapp("sqrt", a, ty=dty)
    if last == "sin_cos":
        return mk("struct", ("tuple", V.lapp("sin", a, ty=("float", "f64")), V.lapp("cos", a, ty=("float", "f64"))))
    if last in ("sin", "cos", "tan", "acos", "asin", "atan", "round", "floor", "ceil", "trunc", "ln", "exp"):
        return V.lapp(last, a, ty=dty)
    if last == "atan2":
        return V.lapp(last, a, args[1], ty=dty)
    if last in ("powi", "pow"):
        ks = leafset(args[1])
        if len(ks) == 1 and pconst(ks[0]) is not None and 0 <= pconst(ks[0]) <= 8:
            r = ONE
            for _ in range(pconst(ks[0])):
                r = mul(r, a)
            return r
        return NotImplemented
    if last == "recip":
        return I.inv(a)
    if last in ("to_radians", "to_degrees"):
        return V.lapp(last, a, ty=dty)
    if last == "mul_add":
        return add(mul(a, args[1]), args[2])
    bits = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "usize": 64, "i8": 8, "i16": 16, "i32": 32, "i64": 64, "isize": 64}.get(ty[1] if ty and ty[0] == "int" else "", 64)

    def fold(fn, op):
        def g(x):
            if V._undef(x):
                return UNDEF
            c = pconst(V.as_poly(x))
            if c is not None:
                r = fn(int(c))
                if r is not None:
                    return num(r)
            return pvar(mk("app", (op + ":" + str(bits) if op != "ilog2" else op, V.as_poly(x)), dty))
        return apply_r(op + str(bits), g, a)
    if last == "count_ones":
        return fold(lambda c: bin(c & ((1 << bits) - 1)).count("1"), "count_ones")
    if last == "leading_zeros":
        return fold(lambda c: bits - (c & ((1 << bits) - 1)).bit_length(), "leading_zeros")
    if last == "trailing_zeros":
        return fold(lambda c: bits if c == 0 else ((c & -c).bit_length() - 1), "trailing_zeros")
    if last == "ilog2":
        return fold(lambda c: c.bit_length() - 1 if c > 0 else None, "ilog2")
    if last == "is_power_of_two":
        return NotImplemented
    if last in ("wrapping_add", "wrapping_sub", "wrapping_mul", "saturating_add", "saturating_sub", "saturating_mul"):
        cs = [pconst(x) for x in (a, args[1]) if x.k == "p"]
        return V.lapp(last, a, args[1], ty=dty)
    if last == "unchecked_add":
        return add(a, args[1])
    if last == "unchecked_sub":
        return sub(a, args[1])
    if last == "rem_euclid" and not I.is_float(tys[0]) and V.pconst(I.as_val(args[1]) if hasattr(I, "as_val") else args[1]) == 2:
        return V.apply("rem_euclid2", lambda x: I.parity(V.as_poly(x), tys[0]), args[0])
    if last in ("div_euclid", "rem_euclid"):
        return V.lapp(last, a, args[1], ty=dty)
    if last == "is_nan":
        return F
    if last in ("is_finite",):
        return T
    if last == "total_cmp":
        return NotImplemented
    return NotImplemented


def seq_ty(I, ty):
    while ty is not None and ty[0] == "ref":
        ty = ty[1]
    return I.norm_seq(ty)


def index_ref(I, st, r, ix, ixty, line, checked=True):
    """reference to an element or a sub-slice; None when the index is not understood"""
    s = I.read(st, r)
    n = I.seq_len(s)
    if ix.k == "struct" and sname(ix):
        short = sname(ix).split("::")[-1]
        if short == "Range":
            lo, hi = ix.a[1], ix.a[2]
        elif short == "RangeFrom":
            lo, hi = ix.a[1], n
        elif short == "RangeTo":
            lo, hi = ZERO, ix.a[1]
        elif short == "RangeFull":
            return r
        elif short == "RangeInclusive":
            lo, hi = ix.a[1], add(ix.a[2], ONE)
        elif short == "RangeToInclusive":
            lo, hi = ZERO, add(ix.a[1], ONE)
        else:
            return None
        I.event("slice-index", (lo, hi, n, checked, r), line)
        return I.extend_ref(r, ("sl", lo, hi))
    if is_numeric(ix):
        I.event("index", (ix, n, checked, r), line)
        return I.extend_ref(r, ("i", ix))
    return None


def seq_model(I, f, n, full, last, trs, args, tys, dty, st, line):
    NI = NotImplemented

    def ret(v, s=None, pc=T):
        return v, pc, (s if s is not None else st)

    def wr(r, v):
        s = st.copy()
        I.write(s, r, v)
        return s

    if n.startswith(("std::vec::Vec::<T>::new", "std::vec::Vec::<T>::with_capacity", "std::vec::Vec::<T, A>::new_in")):
        e = I.norm_seq(dty)
        if e is not None:
            if args:
                I.event("capacity", (args[0],), line)
            return ret(I.lit([], e))
        return NI
    if n.startswith("std::vec::from_elem"):
        return ret(mk("app", ("rep", args[0], args[1]), ("slice", I.norm_seq(dty))))
    if not args:
        return NI
    e = seq_ty(I, tys[0])
    if e is None:
        return NI
    vecm = n.startswith(("std::vec::Vec", "core::slice::", "std::slice::", "core::array", "std::array", "alloc::")) or full.startswith(("<std::vec::Vec", "core::slice", "<[")) or trs in ("Index", "IndexMut", "Extend", "IntoIterator", "SliceIndex")
    if not vecm:
        return NI
    if full.startswith("<") and "i_overlay" in full.split(" as ")[-1]:
        return NI
    r = args[0]
    isref = tys[0][0] == "ref"

    def cur():
        return I.read(st, r) if isref else r

    if last == "len":
        return ret(I.seq_len(cur()))
    if last == "is_empty":
        return ret(le(I.seq_len(cur()), ZERO))
    if last == "push":
        I.event("push", (r, args[1]), line)
        return ret(UNIT, wr(r, I.seq_push(cur(), args[1])))
    if last == "pop":
        s = cur()
        k = I.seq_len(s)
        c = gt(k, ZERO)
        x = I.seq_get(s, sub(k, ONE))
        I.event("pop", (r,), line)
        return ret(I.opt(c, x), wr(r, I.seq_pop(s) if c is not F else s))
    if last == "clear":
        I.event("clear", (r,), line)
        return ret(UNIT, wr(r, I.lit([], e)))
    if last == "truncate":
        s = cur()
        I.event("truncate", (r, args[1]), line)
        return ret(UNIT, wr(r, I.seq_sub(s, ZERO, V.vmin(args[1], I.seq_len(s)))))
    if last == "split_off":
        s = cur()
        k = I.seq_len(s)
        I.event("split_off", (r, args[1]), line)
        return ret(I.seq_sub(s, args[1], k), wr(r, I.seq_sub(s, ZERO, args[1])))
    if last == "drain" and sname(args[1]):
        s = cur()
        k = I.seq_len(s)
        ix = args[1]
        short = sname(ix).split("::")[-1]
        lo, hi = {"Range": lambda: (ix.a[1], ix.a[2]), "RangeFrom": lambda: (ix.a[1], k), "RangeTo": lambda: (ZERO, ix.a[1]), "RangeFull": lambda: (ZERO, k)}.get(short, lambda: (None, None))()
        if lo is None:
            return NI
        I.event("drain", (r, lo, hi), line)
        t = I.seq_sub(s, lo, hi)
        rest = I.seq_sub(s, ZERO, lo)
        if hi is not k:
            rest = I.seq_cat(rest, I.seq_sub(s, hi, k))
        return ret(name_gated(I, it_vec(t, ZERO, I.seq_len(t))), wr(r, rest))
    if last == "extend_from_slice":
        t = I.read(st, args[1])
        I.event("extend", (r, t), line)
        return ret(UNIT, wr(r, I.seq_cat(cur(), t)))
    if last == "append":
        t = I.read(st, args[1])
        I.event("extend", (r, t), line)
        s = wr(r, I.seq_cat(cur(), t))
        I.write(s, args[1], I.lit([], e))
        return ret(UNIT, s)
    if last in ("reserve", "reserve_exact", "shrink_to_fit"):
        return ret(UNIT)
    if last == "capacity":
        return ret(pvar(mk("app", ("cap", cur()), USIZE)))
    if last in ("as_slice", "as_mut_slice", "deref", "deref_mut", "as_ref", "as_mut", "borrow", "into_boxed_slice"):
        return ret(r)
    if last in ("to_vec", "into_vec", "to_owned", "clone"):
        return ret(cur())
    if last in ("index", "index_mut") and trs in ("Index", "IndexMut"):
        x = index_ref(I, st, r, args[1], tys[1], line)
        return NI if x is None else ret(x)
    if last in ("get_unchecked", "get_unchecked_mut"):
        x = index_ref(I, st, r, args[1], tys[1], line, checked=False)
        return NI if x is None else ret(x)
    if last in ("get", "get_mut") and is_numeric(args[1]):
        return ret(I.opt(lt(args[1], I.seq_len(cur())), I.extend_ref(r, ("i", args[1]))))
    if last in ("first", "first_mut"):
        return ret(I.opt(gt(I.seq_len(cur()), ZERO), I.extend_ref(r, ("i", ZERO))))
    if last in ("last", "last_mut"):
        k = I.seq_len(cur())
        return ret(I.opt(gt(k, ZERO), I.extend_ref(r, ("i", sub(k, ONE)))))
    if last in ("iter", "iter_mut"):
        return ret(it_slice(r, ZERO, I.seq_len(cur())))
    if last == "into_iter":
        if isref:
            return ret(it_slice(r, ZERO, I.seq_len(cur())))
        return ret(it_vec(r, ZERO, I.seq_len(r)))
    if last == "windows":
        return ret(mk("struct", ("it.windows", r, args[1], ZERO, I.seq_len(cur()))))
    if last == "swap":
        s = cur()
        a, b = args[1], args[2]
        x, y = I.seq_get(s, a), I.seq_get(s, b)
        I.event("swap", (r, a, b), line)
        return ret(UNIT, wr(r, I.seq_store(I.seq_store(s, a, y), b, x)))
    if last == "reverse":
        s = cur()
        I.event("reverse", (r,), line)
        if s.k == "app" and s.a[0] == "seq":
            return ret(UNIT, wr(r, mk("app", ("seq",) + s.a[:0:-1], s.ty)))
        return ret(UNIT, wr(r, apply("rev", lambda x: x.a[1] if x.k == "app" and x.a[0] == "rev" else mk("app", ("rev", x), x.ty), s)))
    if last in ("sort", "sort_unstable", "sort_by", "sort_unstable_by", "sort_by_key", "sort_unstable_by_key", "par_sort_unstable_by", "par_sort_unstable", "sort_by_cached_key") :
        key = cmp_key(I, st, args[1], e, last) if len(args) > 1 else mk("v", ("natural",))
        kind = "sort_by_key" if "key" in last else "sort_by"
        stable = "unstable" not in last
        s = cur()
        I.event("sort", (r, key, kind, stable), line)
        if getattr(I, "fresh_sorts", None) is not None:
            # the sorted sequence as a new one; the caller knows what it was sorted from
            x = mk("v", (("sorted", len(I.fresh_sorts)),), ("slice", e))
            for y, (s0, k0, kd, rr) in I.fresh_sorts.items():
                if (s0, k0, kd) == (s, key, kind):
                    x = y
            I.fresh_sorts[x] = (s, key, kind, r)
            return ret(UNIT, wr(r, x))
        return ret(UNIT, wr(r, apply("sort%s%d%s" % (kind, key.id, stable), lambda x: UNDEF if x.k == "undef" else mk("app", ("sort", x, key, kind, stable), x.ty), s)))
    if last == "dedup":
        s = cur()
        I.event("dedup", (r,), line)
        return ret(UNIT, wr(r, apply("dedup", lambda x: x if x.k == "undef" else mk("app", ("dedup", x), x.ty), s)))
    if last == "insert" and len(args) == 3:
        s = cur()
        I.event("insert", (r, args[1], args[2]), line)
        return ret(UNIT, wr(r, apply("insert%d" % args[2].id, lambda x, i: mk("app", ("insert", x, i, args[2]), x.ty), s, args[1])))
    if last in ("remove", "swap_remove") and len(args) == 2 and is_numeric(args[1]):
        s = cur()
        I.event(last, (r, args[1]), line)
        return ret(I.seq_get(s, args[1]), wr(r, apply(last, lambda x, i: mk("app", (last, x, i), x.ty), s, args[1])))
    if last == "extend" and len(args) == 2:
        it = to_iter(I, st, args[1], tys[1])
        run = plain_run(I, st, it, e)
        if run is not None:
            I.event("extend", (r, run), line)
            return ret(UNIT, wr(r, I.seq_cat(cur(), run)))

        def step(acc, x, s):
            if seq_ty(I, tys[0]) is not None and x.k == "ref" and e[0] != "ref":
                x = I.read(s, x)
            I.write(s, r, I.seq_push(I.read(s, r), x))
            I.event("push", (r, x), line)
            return acc, T, s
        q = iter_loop(I, st, it, UNIT, step, full)
        if q is None:
            return NI
        return ret(UNIT, q[2])
    if last == "contains" and len(args) == 2:
        return ret(I.opq(("bool",), "contains", cur(), I.contents(st, args[1])))
    return NI


def plain_run(I, st, it, e):
    """the elements of an iterator that walks a stretch of a sequence, as a sequence"""
    n = sname(it)
    if n is None:
        return None
    while n.split("::")[-1] in ("Skip", "Take") and len(it.a) == 3 and it.a[2].k == "c":
        it, n = it.a[1], sname(it.a[1])
        if n is None:
            return None
    if n == "it.vec":
        return I.seq_sub(it.a[1], it.a[2], it.a[3])
    if n.split("::")[-1] in ("Copied", "Cloned") and len(it.a) == 2:
        it, n = it.a[1], sname(it.a[1])
        if n == "it.slice":
            return I.seq_sub(I.read(st, it.a[1]), it.a[2], it.a[3])
        return None
    if n == "it.slice" and e is not None and e[0] in ("adt", "int", "float"):
        return I.seq_sub(I.read(st, it.a[1]), it.a[2], it.a[3])
    return None


def cmp_key(I, st, clo, e, last):
    """the value graph of a comparator (or key function) on two symbolic elements"""
    I.cmpn = getattr(I, "cmpn", 0)
    names = ["#x", "#y"] if "key" not in last else ["#x"]
    refs = []
    s = st.copy()
    for nme in names:
        root = ("P", nme)
        s[root] = I.var(nme, e)
        refs.append(mk("ref", (root, ())))
    saved = len(I.events)
    try:
        r = call_fn(I, clo, refs, None, s)
    except Exception as ex:
        if type(ex).__name__ != "Giveup":
            raise
        r = None
    del I.events[saved:]
    if r is None:
        return mk("v", ("comparator?",))
    v, s2, _ = r
    return I.contents(s2, v)


ITER_METHODS = ("next", "next_back", "nth", "fold", "for_each", "all", "any", "position", "rposition", "find", "count", "sum", "product", "min", "max", "last", "collect", "map", "enumerate",
                "skip", "take", "rev", "copied", "cloned", "zip", "chain", "len", "min_by", "max_by", "peekable", "filter", "filter_map", "size_hint", "is_empty", "by_ref")


def iter_model(I, f, n, full, last, trs, args, tys, dty, st, line):
    NI = NotImplemented

    def ret(v, s=None, pc=T):
        return v, pc, (s if s is not None else st)

    def wr(r, v, s=None):
        s = (s if s is not None else st).copy()
        I.write(s, r, v)
        return s

    if trs == "IntoIterator" and last == "into_iter":
        return ret(name_gated(I, to_iter(I, st, args[0], tys[0])))
    if n.startswith("std::ops::RangeInclusive") and last == "new":
        return ret(mk("struct", ("std::ops::RangeInclusive", args[0], add(args[1], ONE))))
    if n.startswith("std::ops::RangeInclusive") and last == "contains":
        r, x = I.read(st, args[0]), I.read(st, args[1])
        if r.k == "struct" and is_numeric(x):
            return ret(b_and(le(r.a[1], x), lt(x, r.a[2])))
    if n.startswith("std::ops::Range::") and last == "contains":
        r, x = I.read(st, args[0]), I.read(st, args[1])
        if r.k == "struct" and is_numeric(x):
            return ret(b_and(le(r.a[1], x), lt(x, r.a[2])))
    if trs not in ("Iterator", "DoubleEndedIterator", "ExactSizeIterator") and not (n.startswith("std::iter::Peekable") and last in ("peek", "next")):
        return NI
    if "i_overlay" in full or "i_tree" in full:
        return NI
    if last in ("next", "next_back") and tys[0] and tys[0][0] == "ref":
        itv = I.read(st, args[0])
        if filtered(itv):
            def step(acc, x, s):
                return I.opt(T, x), F, s
            q = iter_loop(I, st, itv, mk("enum", (I.OPT, ZERO, (), (UNDEF,))), step, full)
            return NI if q is None else ret(q[0], wr(args[0], q[1], q[2]))
        r = next_(I, st, itv, last == "next_back", dty)
        if r is None:
            return NI
        o, ni, s = r
        return ret(o, wr(args[0], ni, s))
    if last == "peekable":
        return ret(args[0])
    if last == "peek" and dty is not None and dty[0] == "adt" and dty[2] and dty[2][0][0] == "ref":
        r = next_(I, st, I.read(st, args[0]), False, (dty[0], dty[1], (dty[2][0][1],)))
        if r is None:
            return NI
        s = st.copy()
        I.nheap += 1
        root = ("H", I.nheap, "peek")
        s[root] = payload(r[0])
        I.root_ty[root] = dty[2][0][1]
        return ret(I.opt(is_some(r[0]), mk("ref", (root, ()))), s)
    if last == "nth":
        itv = I.read(st, args[0])
        a = advance(I, itv, args[1])
        if a is None:
            return NI
        r = next_(I, st, a, False, dty)
        if r is None:
            return NI
        o, ni, s = r
        return ret(o, wr(args[0], ni, s))
    if not args:
        return NI
    it = args[0]
    if it.k in ("v", "app") and tys[0] and tys[0][0] != "ref" and last in ("fold", "for_each", "all", "any", "map", "filter", "filter_map", "position", "find"):
        it = items_of(I, it, args[-1], 2 if last == "fold" else 1, last in ("filter", "find"))
        args = [it] + list(args[1:])
    if last == "enumerate":
        return ret(mk("struct", ("std::iter::Enumerate", it, ZERO)))
    if last == "rev":
        return ret(mk("struct", ("std::iter::Rev", it)))
    if last == "copied":
        return ret(mk("struct", ("std::iter::Copied", it)))
    if last == "cloned":
        return ret(mk("struct", ("std::iter::Cloned", it)))
    if last == "map":
        return ret(mk("struct", ("std::iter::Map", it, args[1])))
    if last in ("filter", "filter_map"):
        return ret(mk("struct", ("std::iter::Filter" if last == "filter" else "std::iter::FilterMap", it, args[1])))
    if last == "zip":
        b = to_iter(I, st, args[1], tys[1])
        return ret(mk("struct", ("it.zip", it, b)))
    if last == "skip":
        a = advance(I, it, args[1])
        if a is None:
            return NI
        return ret(mk("struct", ("std::iter::Skip", a, V.const("eager"))))
    if last == "take":
        a = limit(I, it, args[1])
        if a is None:
            return NI
        return ret(mk("struct", ("std::iter::Take", a, V.const("eager"))))
    if last == "by_ref":
        return ret(it)
    if last == "len":
        ln = length(I, st, I.read(st, it))
        return NI if ln is None else ret(ln)
    if last == "chain":
        b = to_iter(I, st, args[1], tys[1])
        return ret(mk("struct", ("it.chain", it, b)))
    if sname(it) is None and it.k not in ("v", "app", "ref"):
        return NI
    if last == "collect":
        e = I.norm_seq(dty)
        if e is None:
            return NI

        def step(acc, x, s):
            return I.seq_push(acc, x), T, s
        if sname(it) is None:
            return NI
        run = plain_run(I, st, it, ("ref",))
        if run is not None:
            return ret(run)
        inner = flat_inner(it)
        if inner is not None:
            inner = name_gated(I, inner)

            def step(acc, x, s):
                x = deref_all(I, s, x)
                if sname(x) == "it.vec":
                    x = I.seq_sub(x.a[1], x.a[2], x.a[3])
                elif sname(x) == "it.slice":
                    x = I.seq_sub(I.read(s, x.a[1]), x.a[2], x.a[3])
                if not I.is_seq(x):
                    return None
                return I.seq_cat(acc, x), T, s
            q = iter_loop(I, st, inner, I.lit([], e), step, full)
            return NI if q is None else ret(q[0], q[2])
        q = iter_loop(I, st, it, I.lit([], e), step, full)
        return NI if q is None else ret(q[0], q[2])
    if sname(it) is None and tys[0] and tys[0][0] == "ref":
        base = I.read(st, it)
        if sname(base) is None:
            return NI
    if last == "for_each":
        cell = [args[1]]

        def step(acc, x, s):
            r = call_fn(I, acc, [x], None, s)
            if r is None:
                return None
            return (r[2] if r[2] is not None else acc), T, r[1]
        q = iter_loop(I, st, it, args[1], step, full)
        return NI if q is None else ret(UNIT, q[2])
    if last == "fold":
        clo = args[2]

        def step(acc, x, s):
            r = call_fn(I, clo, [acc, x], tys[1], s)
            if r is None:
                return None
            return r[0], T, r[1]
        q = iter_loop(I, st, it, args[1], step, full)
        return NI if q is None else ret(q[0], q[2])
    if last in ("all", "any"):
        clo = args[1]

        def step(acc, x, s):
            r = call_fn(I, clo, [x], ("bool",), s)
            if r is None:
                return None
            v = r[0]
            return v, (v if last == "all" else b_not(v)), r[1]
        q = iter_loop(I, st, it, T if last == "all" else F, step, full)
        return NI if q is None else ret(q[0], q[2])
    if last in ("position", "rposition"):
        clo = args[1]
        by, first = ONE, ZERO
        if last == "rposition":
            first = length(I, st, I.read(st, it))
            if first is None:
                return NI
            it, by, first = mk("struct", ("std::iter::Rev", it)), V.num(-1), sub(first, ONE)

        def step(acc, x, s):
            r = call_fn(I, clo, [x], ("bool",), s)
            if r is None:
                return None
            v = r[0]
            found = I.opt(v, acc.a[2])
            return mk("struct", ("pos", found, ite(v, acc.a[2], add(acc.a[2], by)))), b_not(v), r[1]
        q = iter_loop(I, st, it, mk("struct", ("pos", I.none(), first)), step, full)
        return NI if q is None else ret(q[0].a[1], q[2])
    if last == "find":
        clo = args[1]

        def step(acc, x, s):
            I.nheap += 1
            root = ("H", I.nheap, "it")
            s[root] = x
            r = call_fn(I, clo, [mk("ref", (root, ()))], ("bool",), s)
            if r is None:
                return None
            v = r[0]
            r[1].pop(root, None)
            return I.opt(v, x), b_not(v), r[1]
        q = iter_loop(I, st, it, mk("enum", (I.OPT, ZERO, (), (UNDEF,))), step, full)
        return NI if q is None else ret(q[0], q[2])
    if last in ("max", "min") and sname(it) is not None:
        def step(acc, x, s):
            y = deref_all(I, s, x)
            if not is_numeric(y):
                return None
            old = payload(acc)
            better = ge(y, old) if last == "max" else lt(y, old)
            return I.opt(T, ite(b_and(is_some(acc), b_not(better)), old, y)), T, s
        q = iter_loop(I, st, it, mk("enum", (I.OPT, ZERO, (), (num(0),))), step, full)
        return NI if q is None else ret(q[0], q[2])
    if last == "sum":
        def step(acc, x, s):
            x = deref_all(I, s, x)
            return add(acc, x), T, s
        q = iter_loop(I, st, it, ZERO, step, full)
        return NI if q is None else ret(q[0], q[2])
    if last == "count":
        ln = length(I, st, it)
        if ln is None and sname(it) is not None:
            q = iter_loop(I, st, it, ZERO, lambda acc, x, s: (add(acc, ONE), T, s), full)
            return NI if q is None else ret(q[0], q[2])
        return NI if ln is None else ret(ln)
    return NI


def map_model(I, f, n, full, last, trs, args, tys, dty, st, line):
    NI = NotImplemented
    if "HashMap" not in full and "BTreeMap" not in full:
        return NI
    st = st.copy()

    def ret(v, s=None):
        return v, T, s or st
    if last == "new":
        return ret(mk("app", ("map0",), dty))
    if not args:
        return NI
    m = I.read(st, args[0]) if tys[0][0] == "ref" else args[0]
    if last in ("get", "get_mut") and dty[2]:
        k = I.contents(st, I.read(st, args[1]))
        c = I.opq(("bool",), "has", m, k)
        I.event("map-" + last, (args[0], m, k), line)
        rt = dty[2][0]
        r = mk("ref", (("D", mk("app", ("slot", m, k), rt).id), ()))
        return ret(I.opt(c, r))
    if last == "index" and dty[0] == "ref":
        k = I.contents(st, I.read(st, args[1]))
        I.event("map-index", (args[0], m, k), line)
        return ret(mk("ref", (("D", mk("app", ("slot", m, k), dty).id), ())))
    if last == "insert":
        k = args[1]
        I.event("map-insert", (args[0], m, k, args[2]), line)
        I.write(st, args[0], mk("app", ("minsert", m, k, args[2]), m.ty))
        return ret(I.opq(dty, "mold", m, k))
    if last == "remove":
        k = I.contents(st, I.read(st, args[1]))
        I.event("map-remove", (args[0], m, k), line)
        I.write(st, args[0], mk("app", ("mremove", m, k), m.ty))
        return ret(I.opq(dty, "mold", m, k))
    if last in ("is_empty", "len", "iter", "iter_mut") and len(args) == 1:
        # the entries in some order
        kv = m.ty[2][:2] if m.ty and m.ty[0] == "adt" and len(m.ty[2]) >= 2 else None
        if kv is not None:
            es = mk("app", ("entries", m), ("slice", ("tuple", (("ref", kv[0]), ("ref", kv[1])))))
            n = I.seq_len(es)
            if last == "is_empty":
                return ret(eq(n, ZERO))
            return ret(n if last == "len" else it_vec(es, ZERO, n))
    if last == "contains_key":
        k = I.contents(st, I.read(st, args[1]))
        return ret(I.opq(("bool",), "has", m, k))
    if last == "clear":
        I.event("map-clear", (args[0],), line)
        I.write(st, args[0], mk("app", ("map0",), m.ty))
        return ret(UNIT)
    return NI
