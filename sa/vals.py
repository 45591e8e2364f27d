"""Abstract values: hash-consed gated terms.

Every scalar is a decision diagram over finitely many *atoms* (sign of a polynomial, variant of an
enum, truth of an opaque predicate, a finite input domain) whose leaves are polynomial normal forms,
constants, references or uninterpreted terms.  Two computations that agree for every input up to the
algebra below get the same node, whatever the shape of the code that produced them.
"""
from fractions import Fraction
from functools import reduce
from math import gcd

_tab = {}
_nodes = []


class N:
    __slots__ = ("k", "a", "id", "ty")

    def __repr__(self):
        return show(self)


def mk(k, a, ty=None):
    key = (k, a, ty)
    n = _tab.get(key)
    if n is None:
        n = N()
        n.k, n.a, n.ty = k, a, ty
        n.id = len(_nodes)
        _tab[key] = n
        _nodes.append(n)
    return n


# ---------------------------------------------------------------- atoms
class Atom:
    __slots__ = ("key", "ord", "arity", "labels")

    def __repr__(self):
        return show_atom(self)


_atoms = {}


def atom(key, arity, labels=None):
    a = _atoms.get(key)
    if a is None:
        a = Atom()
        a.key, a.arity, a.labels = key, arity, labels
        a.ord = len(_atoms)
        _atoms[key] = a
    return a


# ---------------------------------------------------------------- leaves
def const(v):
    return mk("c", (v, type(v).__name__))


T = const(True)
F = const(False)
UNDEF = mk("undef", ())
UNIT = mk("struct", ("()",))


def poly(items):
    """items: dict monomial(tuple of node ids, sorted) -> coefficient"""
    return mk("p", frozenset((m, c) for m, c in items.items() if c != 0))


def num(c):
    return poly({(): c}) if c != 0 else poly({})


ZERO = num(0)
ONE = num(1)


def pvar(t):
    return mk("p", frozenset([((t.id,), 1)]))


def is_num(n):
    return n.k == "p"


def pconst(n):
    """constant value of a polynomial leaf, or None"""
    if n.k != "p":
        return None
    if not n.a:
        return 0
    if len(n.a) == 1:
        (m, c), = n.a
        if m == ():
            return c
    return None


def as_poly(n):
    if n.k == "p":
        return n
    if n.k == "c":
        if n.a[0] is True:
            return ONE
        if n.a[0] is False:
            return ZERO
    if n.k == "undef":
        return n
    return pvar(n)


def padd(a, b, sb=1):
    d = dict(a.a)
    for m, c in b.a:
        d[m] = d.get(m, 0) + sb * c
    return poly(d)


def _norm(c):
    if isinstance(c, Fraction) and c.denominator == 1:
        return int(c)
    return c


def pmul(a, b):
    d = {}
    for m, c in a.a:
        for m2, c2 in b.a:
            mm = tuple(sorted(m + m2))
            # cancel x * inv(x)
            mm = _cancel(mm)
            d[mm] = _norm(d.get(mm, 0) + c * c2)
    return poly(d)


def _cancel(m):
    for i in m:
        n = _nodes[i]
        if n.k == "app" and n.a[0] == "inv":
            p = n.a[1]
            if p.k == "p" and len(p.a) == 1:
                (mm, c), = p.a
                if len(mm) == 1 and mm[0] in m and c == 1:
                    l = list(m)
                    l.remove(i)
                    l.remove(mm[0])
                    return _cancel(tuple(l))
    return m


# ---------------------------------------------------------------- decision diagrams
def ite_node(at, kids):
    k0 = kids[0]
    if all(k is k0 for k in kids):
        return k0
    return mk("ite", (at,) + tuple(kids))


_cache = {}


def top(n):
    return n.a[0].ord if n.k == "ite" else 1 << 60


def kid(n, at, i):
    if n.k == "ite" and n.a[0] is at:
        return n.a[1 + i]
    return n


def apply(name, f, *args):
    """leaf-wise application of f over decision diagrams"""
    key = (name,) + tuple(a.id for a in args)
    r = _cache.get(key)
    if r is not None:
        return r
    at = None
    o = 1 << 60
    for a in args:
        if a.k == "ite" and a.a[0].ord < o:
            o = a.a[0].ord
            at = a.a[0]
    if at is None:
        r = f(*args)
    else:
        r = ite_node(at, [apply(name, f, *[kid(a, at, i) for a in args]) for i in range(at.arity)])
    _cache[key] = r
    return r


def _undef(*args):
    return any(a.k == "undef" for a in args)


def ite(c, a, b):
    if a is b or c is T:
        return a
    if c is F:
        return b
    if c.k == "undef":
        return UNDEF
    if a.k == "undef":
        return b
    if b.k == "undef":
        return a
    sa, sb = a.k in ("struct", "enum"), b.k in ("struct", "enum")
    if sa or sb:
        if sa and not sb:
            b = expand_like(b, a)
        elif sb and not sa:
            a = expand_like(a, b)
        if a.k == "struct" and b.k == "struct" and a.a[0] == b.a[0] and len(a.a) == len(b.a):
            return mk("struct", (a.a[0],) + tuple(ite(c, x, y) for x, y in zip(a.a[1:], b.a[1:])), a.ty)
        if a.k == "enum" and b.k == "enum":
            vs = []
            for x, y in zip(a.a[2:], b.a[2:]):
                if x is None:
                    vs.append(y)
                elif y is None:
                    vs.append(x)
                else:
                    vs.append(tuple(ite(c, p, q) for p, q in zip(x, y)))
            return mk("enum", (a.a[0], ite(c, a.a[1], b.a[1])) + tuple(vs), a.ty)
        if (a.k in ("struct", "enum")) or (b.k in ("struct", "enum")):
            # incompatible shapes: an opaque choice
            return mk("app", ("choice", c, a, b))
    if a.k == "app" and a.a[0] == "choice" or b.k == "app" and b.a[0] == "choice":
        return mk("app", ("choice", c, a, b))
    return _ite(c, a, b)


def _ite(c, a, b):
    if a is b or c is T:
        return a
    if c is F:
        return b
    if c.k != "ite":
        return UNDEF
    key = ("ite", c.id, a.id, b.id)
    r = _cache.get(key)
    if r is not None:
        return r
    at = min((n.a[0] for n in (c, a, b) if n.k == "ite"), key=lambda x: x.ord)
    r = ite_node(at, [_ite(kid(c, at, i), kid(a, at, i), kid(b, at, i)) for i in range(at.arity)])
    _cache[key] = r
    return r


_expander = [None]


def expand_like(v, shape):
    """expand an opaque value so that it has the outer shape of `shape`"""
    if _expander[0]:
        r = _expander[0](v, shape)
        if r is not None:
            return r
    return v


def b_and(a, b):
    if a is T:
        return b
    if b is T:
        return a
    return _ite(a, b, F)


def b_or(a, b):
    return _ite(a, T, b)


def b_not(a):
    return _ite(a, F, T)


def restrict(v, care):
    """simplify v where `care` is false (generalised cofactor)"""
    if care is T or care is F:
        return v
    if v.k == "struct":
        return mk("struct", (v.a[0],) + tuple(restrict(x, care) for x in v.a[1:]), v.ty)
    if v.k == "enum":
        return mk("enum", (v.a[0], restrict(v.a[1], care)) + tuple(None if x is None else tuple(restrict(y, care) for y in x) for x in v.a[2:]), v.ty)
    return _restrict(v, care)


def _restrict(v, care):
    if v.k != "ite" or care is T:
        return v
    if care is F:
        return v
    key = ("rs", v.id, care.id)
    r = _cache.get(key)
    if r is not None:
        return r
    tv, tc = v.a[0], care.a[0]
    if tc.ord < tv.ord:
        c = F
        for k in care.a[1:]:
            c = b_or(c, k)
        r = _restrict(v, c)
    else:
        kids = []
        for i in range(tv.arity):
            ck = kid(care, tv, i)
            kids.append(None if ck is F else _restrict(v.a[1 + i], ck))
        live = [k for k in kids if k is not None]
        if live and all(k is live[0] for k in live):
            r = live[0]
        elif not live:
            r = v
        else:
            r = ite_node(tv, [k if k is not None else live[0] for k in kids])
    _cache[key] = r
    return r


def leaves(n, cond=None):
    """(list of (atom, index) assignments, leaf) for every path of a diagram"""
    out = []

    def go(n, path):
        if n.k == "ite":
            for i, k in enumerate(n.a[1:]):
                go(k, path + [(n.a[0], i)])
        else:
            out.append((path, n))

    go(n, [])
    return out


def leafset(n):
    seen, out, st = set(), [], [n]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.k == "ite":
            st.extend(x.a[1:])
        else:
            out.append(x)
    return out


# ---------------------------------------------------------------- numeric operations
def add(a, b):
    return apply("add", lambda x, y: UNDEF if _undef(x, y) else padd(as_poly(x), as_poly(y)), a, b)


def sub(a, b):
    return apply("sub", lambda x, y: UNDEF if _undef(x, y) else padd(as_poly(x), as_poly(y), -1), a, b)


def mul(a, b):
    return apply("mul", lambda x, y: UNDEF if _undef(x, y) else pmul(as_poly(x), as_poly(y)), a, b)


def neg(a):
    return sub(ZERO, a)


NONNEG_TYPES = {"u8", "u16", "u32", "u64", "u128", "usize"}


def term_bounds(n):
    """(lo, hi) of an opaque numeric term, None = unbounded"""
    ty = n.ty
    if n.k == "app" and n.a[0] in ("len", "abs", "count_ones", "leading_zeros", "sqrt"):
        return 0, None
    if n.k == "app" and n.a[0] == "pow2":
        return 1, None
    if n.k == "app" and n.a[0] == "bounded":
        return n.a[2], n.a[3]
    if ty is not None and ty[0] == "int" and ty[1] in NONNEG_TYPES:
        return 0, None
    return None, None


def poly_nonneg(p):
    """True if every monomial is provably >= 0"""
    for m, c in p.a:
        if c < 0:
            return False
        if not mono_nonneg(m):
            return False
    return True


def mono_nonneg(m):
    i = 0
    while i < len(m):
        if i + 1 < len(m) and m[i] == m[i + 1]:
            i += 2
            continue
        lo, _ = term_bounds(_nodes[m[i]])
        if lo is None or lo < 0:
            return False
        i += 1
    return True


def mono_pos(m):
    """provably > 0"""
    for t in m:
        lo, _ = term_bounds(_nodes[t])
        if lo is None or lo <= 0:
            return False
    return True


def poly_bounds(p):
    """interval of a polynomial whose monomials are bounded terms"""
    lo = hi = 0
    for m, c in p.a:
        a = b = 1
        for t in m:
            l, h = term_bounds(_nodes[t])
            if l is None or l < 0:
                return None, None
            a = a * l
            b = None if b is None or h is None else b * h
        if c > 0:
            lo = None if lo is None else lo + c * a
            hi = None if hi is None or b is None else hi + c * b
        else:
            lo = None if lo is None or b is None else lo + c * b
            hi = None if hi is None else hi + c * a
    return lo, hi


def content(p):
    """(sign, primitive poly) normalising the leading coefficient to be positive"""
    items = sorted(p.a, key=lambda mc: (len(mc[0]), mc[0]))
    g = Fraction(0)
    num_g, den_l = 0, 1
    for _, c in items:
        fr = Fraction(c)
        num_g = gcd(num_g, abs(fr.numerator))
        den_l = den_l * fr.denominator // gcd(den_l, fr.denominator)
    scale = Fraction(den_l, num_g) if num_g else Fraction(1)
    lead = items[-1][1]
    s = 1 if lead > 0 else -1
    return s, poly({m: _norm(Fraction(c) * scale * s) for m, c in items})


def factor_common(p):
    """common monomial factor of all terms: (list of term ids, quotient)"""
    ms = [list(m) for m, _ in p.a]
    common = []
    for t in sorted(set(ms[0])):
        k = min(m.count(t) for m in ms)
        common += [t] * k
    if not common:
        return [], p
    d = {}
    for m, c in p.a:
        l = list(m)
        for t in common:
            l.remove(t)
        d[tuple(l)] = c
    return common, poly(d)


def sign_mdd(p, neg_, zero, pos):
    """decision on the sign of polynomial leaf p with three sub-diagrams"""
    c = pconst(p)
    if c is not None:
        return neg_ if c < 0 else (pos if c > 0 else zero)
    common, q = factor_common(p) if not (len(p.a) == 1 and len(next(iter(p.a))[0]) <= 1) else ([], p)
    if common:
        sg = sign_val(q)
        for t in common:
            sg = mul(sg, sign_val(pvar(_nodes[t])))
        return apply3(sg, neg_, zero, pos)
    s, q = content(p)
    if s < 0:
        neg_, pos = pos, neg_
    if poly_nonneg(q):
        if any(mono_pos(m) for m, _ in q.a):
            return pos
        neg_ = zero
    elif poly_nonneg(padd(ZERO, q, -1)):
        if any(mono_pos(m) for m, _ in q.a):
            return neg_
        pos = zero
    else:
        lo, hi = poly_bounds(q)
        if lo is not None and lo >= 0:
            if lo > 0:
                return pos
            neg_ = zero
        elif hi is not None and hi <= 0:
            if hi < 0:
                return neg_
            pos = zero
    at = atom(("sgn", q.id), 3)
    return _mk3(at, neg_, zero, pos)


def _mk3(at, a, b, c):
    # children may contain atoms ordered before `at`
    if min(top(a), top(b), top(c)) > at.ord:
        return ite_node(at, [a, b, c])
    isneg = ite_node(at, [T, F, F])
    iszero = ite_node(at, [F, T, F])
    return ite(isneg, a, ite(iszero, b, c))


def apply3(sg, neg_, zero, pos):
    def f(x):
        c = pconst(x)
        return num(-1 if c < 0 else (1 if c > 0 else 0))
    s = apply("sg3", f, sg)
    isneg = apply("isneg", lambda x: T if pconst(x) < 0 else F, s)
    iszero = apply("iszero", lambda x: T if pconst(x) == 0 else F, s)
    return ite(isneg, neg_, ite(iszero, zero, pos))


_M1 = num(-1)


def sign_val(p):
    return sign_mdd(p, _M1, ZERO, ONE)


def _cmp_leaf(which):
    def f(x, y):
        if _undef(x, y):
            return UNDEF
        if x.k == "c" and isinstance(x.a[0], str) or y.k == "c" and isinstance(y.a[0], str):
            if x.k == "c" and y.k == "c":
                return const(x.a[0] == y.a[0]) if which == "eq" else UNDEF
        p = padd(as_poly(x), as_poly(y), -1)
        t = {"lt": (T, F, F), "le": (T, T, F), "gt": (F, F, T), "ge": (F, T, T), "eq": (F, T, F), "ne": (T, F, T)}[which]
        return sign_mdd(p, *t)
    return f


def _mkcmp(w):
    f = _cmp_leaf(w)
    # results may contain atoms in any order: rebuild with ite
    def g(a, b):
        return apply_r("cmp" + w, f, a, b)
    return g


def apply_r(name, f, *args):
    """apply whose leaf function may itself return a diagram"""
    key = (name,) + tuple(a.id for a in args)
    r = _cache.get(key)
    if r is not None:
        return r
    at = None
    o = 1 << 60
    for a in args:
        if a.k == "ite" and a.a[0].ord < o:
            o = a.a[0].ord
            at = a.a[0]
    if at is None:
        r = f(*args)
    else:
        kids = [apply_r(name, f, *[kid(a, at, i) for a in args]) for i in range(at.arity)]
        r = build(at, kids)
    _cache[key] = r
    return r


def build(at, kids):
    k0 = kids[0]
    if all(k is k0 for k in kids):
        return k0
    if all(k.k in ("struct", "enum") or (k.k == "app" and k.a[0] == "choice") for k in kids) or any(k.k in ("struct", "enum") for k in kids):
        r = kids[-1]
        for i in range(at.arity - 1):
            c = ite_node(at, [T if j == i else F for j in range(at.arity)])
            r = ite(c, kids[i], r)
        return r
    if min(top(k) for k in kids) > at.ord:
        return ite_node(at, kids)
    r = kids[-1]
    for i in range(at.arity - 1):
        c = ite_node(at, [T if j == i else F for j in range(at.arity)])
        r = ite(c, kids[i], r)
    return r


lt, le, gt, ge, eq, ne = (_mkcmp(w) for w in ("lt", "le", "gt", "ge", "eq", "ne"))


def signum(a):
    return apply_r("signum", lambda x: UNDEF if _undef(x) else sign_val(as_poly(x)), a)


def absv(a):
    return apply_r("abs", lambda x: UNDEF if _undef(x) else sign_mdd(as_poly(x), padd(ZERO, as_poly(x), -1), ZERO, as_poly(x)), a)


def vmin(a, b):
    return ite(le(a, b), a, b)


def vmax(a, b):
    return ite(ge(a, b), a, b)


# ---------------------------------------------------------------- opaque terms
def var(name, ty=None):
    return mk("v", (name,), ty)


def app(op, *args, ty=None):
    return mk("app", (op,) + tuple(args), ty)


def lapp(op, *args, ty=None):
    """leaf-wise uninterpreted application (args: nodes)"""
    return apply_r("L" + op + str(ty), lambda *xs: UNDEF if _undef(*xs) else wrap(app(op, *xs, ty=ty)), *args)


def wrap(t):
    """turn an opaque term of scalar type into its scalar form"""
    ty = t.ty
    if ty is None:
        return t
    if ty[0] in ("int", "float", "char"):
        return pvar(t)
    if ty == ("param", "T"):
        return pvar(t)
    if ty[0] == "bool":
        return ite_node(atom(("b", t.id), 2), [T, F])
    return t


def dom(name, values):
    """finite input domain: one leaf per value"""
    at = atom(("dom", name), len(values), labels=tuple(values))
    return ite_node(at, [v if isinstance(v, N) else (const(v) if isinstance(v, bool) else num(v)) for v in values])


# ---------------------------------------------------------------- printing
def show(n, d=0):
    if d > 12:
        return "…"
    if n.k == "p":
        if not n.a:
            return "0"
        out = []
        for m, c in sorted(n.a, key=lambda mc: (len(mc[0]), mc[0])):
            ms = "*".join(show(_nodes[i], d + 1) for i in m)
            if not m:
                out.append(str(c))
            elif c == 1:
                out.append(ms)
            elif c == -1:
                out.append("-" + ms)
            else:
                out.append(f"{c}*{ms}")
        return "(" + " + ".join(out) + ")" if len(out) > 1 else out[0]
    if n.k == "c":
        return str(n.a[0])
    if n.k == "v":
        return str(n.a[0])
    if n.k == "app":
        return f"{n.a[0]}({', '.join(show(x, d + 1) if isinstance(x, N) else str(x) for x in n.a[1:])})"
    if n.k == "struct":
        return f"{str(n.a[0]).split('::')[-1]}{{{', '.join(show(x, d + 1) for x in n.a[1:])}}}"
    if n.k == "enum":
        vs = []
        for i, v in enumerate(n.a[2:]):
            if v:
                vs.append(f"{i}:({', '.join(show(x, d + 1) for x in v)})")
        return f"{str(n.a[0]).split('::')[-1]}<{show(n.a[1], d + 1)}; {' '.join(vs)}>"
    if n.k == "ref":
        return f"&{n.a[0]}{list(n.a[1])}"
    if n.k == "ite":
        return "[" + str(n.a[0]) + "? " + " | ".join(show(x, d + 1) for x in n.a[1:]) + "]"
    return n.k


def show_atom(a):
    k = a.key
    if k[0] == "sgn":
        return "sgn " + show(_nodes[k[1]])
    if k[0] in ("b", "d"):
        return k[0] + " " + show(_nodes[k[1]])
    return str(k)


def node(i):
    return _nodes[i]
