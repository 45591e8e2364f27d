"""Helpers shared by the property modules."""
import os
import sys
import vals as V
from vals import mk
from interp import Interp, State, Giveup
from prog import Fail
from check import Bad
import compare

SRC = "iOverlay/src/"


class Run:
    """result of analysing one root call"""


def call(ctx, root, vals=None, names=None, opaque=(), hooks=None, interp=None, must_return=True, setup=None):
    """Analyse `root`.  vals: per parameter a value, or None for a fresh symbolic one.
    For reference parameters the value is what the reference points to."""
    p = ctx.prog
    b = p.bodies[root["id"]]
    I = interp or Interp(p, opaque=opaque, hooks=hooks)
    if setup:
        setup(I)
    ctx.seen(b)
    st = State()
    args = []
    argn = {x[2]: x[0] for x in b["names"] if x[2] is not None}
    roots = {}
    k = len(getattr(I, "_runs", []))
    I._runs = getattr(I, "_runs", []) + [1]
    for i in range(1, b["argc"] + 1):
        ty = p.ty(b["locals"][i])
        nm = names[i - 1] if names and i - 1 < len(names) and names[i - 1] else argn.get(i) or "a%d" % i
        v = vals[i - 1] if vals and i - 1 < len(vals) else None
        if ty[0] == "ref" and ty[1][0] != "ref":
            if v is not None and v.k == "ref":
                args.append(v)
                continue
            root_ = ("P", nm if k == 0 else f"{nm}#{k}")
            st[root_] = v if v is not None else I.var(nm, ty[1])
            I.root_ty[root_] = ty[1]
            roots[i - 1] = root_
            args.append(mk("ref", (root_, ())))
        elif v is not None:
            args.append(v)
        else:
            args.append(I.param(st, nm, ty))
    e0, l0 = len(I.events), len(I.loops)
    I.pc = V.T
    r = I.run_body(b, args, st)
    for n in I.inlined:
        bb = n if isinstance(n, dict) else None
        if bb:
            ctx.seen(bb)
        else:
            ctx.fns.setdefault(str(n), "inlined")
    ctx.took(I)
    R = Run()
    R.I, R.root, R.body = I, root, b
    R.loc = p.loc(b)
    R.events = I.events[e0:]
    R.loops = I.loops[l0:]
    R.args, R.roots = args, roots
    if r is None:
        if must_return:
            raise Bad(f"{root['n']} never returns on any path", R.loc)
        R.ret = R.pc = R.st = None
        return R
    R.ret, R.pc, R.st = r
    R.out = {i: R.st[x] for i, x in roots.items()}
    return R


def fields_of(ctx, adt, variant=0):
    p = ctx.prog
    hits = [k for k in p.adts if k == adt or k.split("::")[-1] == adt]
    local = [k for k in hits if k.startswith("i_overlay")]
    hits = local or hits
    if len(hits) != 1:
        raise Bad(f"type {adt} not found (or ambiguous: {hits})")
    return hits[0], [f[0] for f in p.adts[hits[0]]["variants"][variant]["fields"]]


def field_ix(ctx, adt, name):
    """index of a named field of a struct"""
    n, fs = fields_of(ctx, adt)
    if name not in fs:
        raise Bad(f"field {adt}.{name} not found")
    return fs.index(name)


def get(ctx, I, v, adt, name):
    return I.field(v, field_ix(ctx, adt, name))


def bvar(name):
    """a free boolean input"""
    return V.wrap(V.var(name, ("bool",)))


def ivar(name, ty="i32"):
    return V.pvar(V.var(name, ("int", ty)))


def tvar(name):
    return V.pvar(V.var(name, ("param", "T")))


# ---------------------------------------------------------------- types and values
POINT = ("adt", "i_float::int::point::IntPoint", ())


def adt(ctx, name):
    n, _ = fields_of(ctx, name)
    return n


def ty_of(ctx, name, *args):
    return ("adt", adt(ctx, name), tuple(args))


def mkstruct(ctx, name, **kw):
    n, fs = fields_of(ctx, name)
    if set(kw) != set(fs):
        raise Bad(f"fields of {name} are {fs}, expected {sorted(kw)}")
    return mk("struct", (n,) + tuple(kw[f] for f in fs), None)


def like(I, v, ty):
    """expanded form of a typed value"""
    return I.expand(v) if hasattr(I, "expand") else v


def enum_of(ctx, I, name, variant):
    """payload-free variant"""
    n = adt(ctx, name)
    vs = ctx.prog.variants(n)
    if variant not in vs:
        raise Bad(f"{name} has no variant {variant}: {vs}")
    return mk("enum", (n, V.num(vs.index(variant))) + tuple(() for _ in vs))


def choose(default, *cases):
    """first matching (condition, value)"""
    r = default
    for c, v in reversed(cases):
        r = V.ite(c, v, r)
    return r


def by_sig(ctx, module, params, ret, count=None):
    """root functions of a source module with this signature"""
    p = ctx.prog
    out = []
    for r in p.fns:
        b = p.bodies.get(r["id"])
        if b is None or not r["n"].startswith("i_overlay::" + module) and module not in r["n"]:
            continue
        ls = [p.ty_str(p.ty(b["locals"][i])) for i in range(0, b["argc"] + 1)]
        if ls[0] == ret and ls[1:] == params:
            out.append(r)
    if len(out) > 1:        # one that another one hands over to is a part of that one
        own = {r["id"]: r for r in out}
        within = set()
        for r in out:
            todo, seen = [r["id"]], {r["id"]}
            while todo:
                b = p.bodies.get(todo.pop())
                for _, _, f, _, _ in p.callees(b) if b else ():
                    k = f and f.get("inst") and f["inst"].get("b")
                    if k is not None and k not in seen:
                        seen.add(k)
                        todo.append(k)
                        if k in own:
                            within.add(k)
        if len(within) < len(out):
            out = [r for r in out if r["id"] not in within]
    if count is not None and len(out) != count:
        raise Bad(f"expected {count} function(s) {params} -> {ret} in {module}, found {[r['n'] for r in out]}")
    return out


class P2:
    """a point as a pair of polynomials"""

    def __init__(self, I, v):
        self.v, self.x, self.y = v, I.field(v, 0), I.field(v, 1)


def cross3(o, a, b):
    """(a-o) x (b-o)"""
    return V.sub(V.mul(V.sub(a.x, o.x), V.sub(b.y, o.y)), V.mul(V.sub(a.y, o.y), V.sub(b.x, o.x)))


def dot3(o, a, b):
    return V.add(V.mul(V.sub(a.x, o.x), V.sub(b.x, o.x)), V.mul(V.sub(a.y, o.y), V.sub(b.y, o.y)))


def dist2(a, b):
    dx, dy = V.sub(a.x, b.x), V.sub(a.y, b.y)
    return V.add(V.mul(dx, dx), V.mul(dy, dy))


def conj(*cs):
    r = V.T
    for c in cs:
        r = V.b_and(r, c)
    return r


def disj(*cs):
    r = V.F
    for c in cs:
        r = V.b_or(r, c)
    return r


def sameb(a, b):
    return V.ite(a, b, V.b_not(b))


def facts(*vals_):
    """linear facts about the integer quotients and right shifts that occur in the values"""
    seen, st, out = set(), list(vals_), []
    while st:
        n = st.pop()
        if not isinstance(n, V.N) or n.id in seen:
            continue
        seen.add(n.id)
        if n.k == "p":
            st += [V.node(i) for m, _ in n.a for i in m]
            continue
        if n.k == "ite":
            if n.a[0].key[0] in ("sgn", "b", "d"):
                st.append(V.node(n.a[0].key[1]))
            st += list(n.a[1:])
            continue
        if n.k == "app" and n.a[0] == "shr" and pow2_of(n) is not None:
            q, x, m = V.pvar(n), n.a[1], pow2_of(n)
            out += where_defined(n, x, [(V.sub(x, V.mul(m, q)), "ge"), (V.sub(V.sub(V.add(V.mul(m, q), m), V.ONE), x), "ge")])
        if n.k == "app" and n.a[0] == "idiv" and n.ty and n.ty[1].startswith("u"):
            q, x, d = V.pvar(n), n.a[1], n.a[2]
            out += where_defined(n, x, [(V.sub(x, V.mul(d, q)), "ge"), (V.sub(V.sub(V.add(V.mul(d, q), d), V.ONE), x), "ge")])
        st += [x for x in n.a if isinstance(x, V.N)]
    return out


def where_defined(n, x, fs):
    """an unsigned quotient only means something on paths where its operand is not negative"""
    if n.ty and n.ty[1].startswith("u") and not (x.k == "p" and V.poly_nonneg(x)):
        return [f + (x,) for f in fs] if x.k == "p" else []
    return fs


# ---------------------------------------------------------------- bounded inputs
def nat(name, lo=0, hi=None, ty="i32"):
    """an integer input known to lie in [lo, hi]"""
    return V.pvar(mk("app", ("bounded", V.var(name, ("int", ty)), lo, hi), ("int", ty)))


def pow2(I, e, ty="i32"):
    return I.bitop("shl", ("int", ty), V.ONE, e)


def nested_floor_facts(I, *vals_, pc=None, axioms=()):
    """d*floor(floor(y/d)*w / P)*P <= w*y, with common positive factors cancelled; and <= y/P where w <= d"""
    out = []
    for n in terms_of(*vals_):
        if n.k != "app" or n.a[0] not in ("shr", "idiv"):
            continue
        den = pow2_of(n) if n.a[0] == "shr" else n.a[2]
        x = n.a[1]
        if x.k != "p" or not x.a or den is None:
            continue
        for t in set(sorted(x.a)[0][0]):
            k = V.node(t)
            if k.k != "app" or k.a[0] != "idiv" or any(t not in m for m, c in x.a):
                continue
            w = {}
            for m, c in x.a:
                rest = list(m)
                rest.remove(t)
                w[tuple(rest)] = c
            w = V.poly(w)
            lhs = V.mul(V.mul(k.a[2], den), V.pvar(n))
            q = V.sub(V.mul(w, k.a[1]), lhs)
            if q.k == "p":
                common, q2 = V.factor_common(q)
                if all((V.term_bounds(V.node(i))[0] or 0) > 0 for i in common):
                    q = q2
                out.append((q, "ge"))
            if pc is not None and compare.implies(pc, V.b_and(V.ge(w, V.ZERO), V.le(w, k.a[2])), axioms) is None:
                q = V.sub(k.a[1], V.mul(den, V.pvar(n)))
                if q.k == "p":
                    common, q2 = V.factor_common(q)
                    if all((V.term_bounds(V.node(i))[0] or 0) > 0 for i in common):
                        q = q2
                    out.append((q, "ge"))
    return out


def pow2_of(n):
    """2^amount for a right shift term"""
    amt = n.a[2]
    c = V.pconst(amt) if amt.k == "p" else None
    if c is not None:
        return V.num(1 << c)
    if amt.k != "p":
        return None
    return V.pvar(mk("app", ("pow2", amt), ("int", "u64")))


def terms_of(*vals_):
    seen, st, out = set(), list(vals_), []
    while st:
        n = st.pop()
        if not isinstance(n, V.N) or n.id in seen:
            continue
        seen.add(n.id)
        if n.k == "p":
            st += [V.node(i) for m, _ in n.a for i in m]
            continue
        if n.k == "ite":
            if n.a[0].key[0] in ("sgn", "b", "d"):
                st.append(V.node(n.a[0].key[1]))
            st += list(n.a[1:])
            continue
        if n.k == "enum":
            st.append(n.a[1])
            for x in n.a[2:]:
                if x:
                    st += list(x)
            continue
        out.append(n)
        st += [x for x in n.a if isinstance(x, V.N)]
        if n.k == "ref":
            st += [e[1] for e in n.a[1] if e[0] == "i"]
    return out


def at_event(I, forms, e):
    """substitution for values seen at an event"""
    import scev
    return scev.Subst(I, scev.mapping(I, forms, e.loops))


def iter_facts(forms, e):
    """0 <= K < trip for the loops around an event"""
    out = []
    for l in e.loops:
        c = forms.get(l.id)
        if c is not None and c.trip is not None:
            for x in V.leafset(c.trip):
                pass
            out.append(c)
    return out
