"""Join-based forward dataflow over MIR computing gated values (see vals.py).

One pass per function body in reverse post order, merging states at joins; loops are cut at their
headers by phi symbols whose initial and next values form the recurrence the rules inspect; calls
with an available body are analysed in place, everything else is an uninterpreted function of its
arguments' contents.  Nothing is executed and no path is enumerated.
"""
import sys
from fractions import Fraction

import vals as V
from vals import (F, T, UNDEF, UNIT, ZERO, ONE, mk, num, pvar, pconst, add, sub, mul, neg, lt, le, gt, ge, eq, ne,
                  ite, b_and, b_or, b_not, apply, apply_r, leafset)
from prog import Fail

sys.setrecursionlimit(20000)

BITS = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "u128": 128, "usize": 64, "i8": 8, "i16": 16, "i32": 32, "i64": 64, "i128": 128, "isize": 64}
USIZE = ("int", "usize")


def int_range(t):
    b = BITS[t]
    return (0, (1 << b) - 1) if t[0] == "u" else (-(1 << (b - 1)), (1 << (b - 1)) - 1)


SHORT = 8


def short_iterator(st, done=False):
    """does the state hold an iterator over a few elements whose number is known?"""
    def look(v, depth):
        if v.k != "struct" or depth > 3:
            return False
        n = v.a[0]
        if n in ("it.slice", "it.vec") or n == "std::ops::Range":
            lo, hi = (pconst(x) if x.k == "p" else None for x in v.a[-2:])
            return lo is not None and hi is not None and (lo <= hi if done else lo < hi) and hi - lo <= SHORT
        return isinstance(n, str) and n.startswith(("it.", "std::iter")) and any(look(x, depth + 1) for x in v.a[1:] if isinstance(x, V.N))
    return any(look(v, 0) for v in st.values())


class Loop:
    def __init__(self):
        self.id = None
        self.phis = {}      # (root, path) -> (phi value, init value)
        self.nexts = {}     # (root, path) -> next value (merged over back edges)
        self.cont = F       # condition, relative to the header, of taking a back edge
        self.exits = []     # [(label, pc, state)]
        self.events = []
        self.entry_pc = T
        self.entry_ctx = ()     # conditions of reaching the loop, outermost first
        self.fn = None
        self.line = 0
        self.parent = None

    def phi(self, pred):
        return [(k, v) for k, v in self.phis.items() if pred(k)]


class Event:
    __slots__ = ("kind", "pc", "data", "loops", "fn", "line", "ctx")

    def __init__(self, kind, pc, data, loops, fn, line, ctx):
        self.kind, self.pc, self.data, self.loops, self.fn, self.line, self.ctx = kind, pc, data, loops, fn, line, ctx

    def __repr__(self):
        return "<%s %s if %s>" % (self.kind, self.data, self.pc)

    def where(self):
        return "%s:%s" % (self.fn, self.line)

    def full_pc(self):
        pc = self.pc
        for c in self.ctx:
            pc = b_and(c, pc)
        return pc


class Giveup(Exception):
    pass


class State(dict):
    def copy(self):
        return State(self)


class Interp:
    MAXDEPTH = 40

    def __init__(self, prog, opaque=(), watch=(), fuel=200000, hooks=None):
        self.p = prog
        self.opaque = opaque          # predicates / regexes over callee names kept uninterpreted
        self.watch = watch
        self.ranges = None
        self.hooks = hooks or {}
        self.named = {}
        self.nframe = 0
        self.nheap = 0
        self.nloop = 0
        self.events = []
        self.loops = []
        self.root_ty = {}
        self.loopstack = []
        self.ctx = []                 # enclosing conditions
        self.fnstack = []
        self.fuel = fuel
        self.cfgs = {}
        self.inlined = set()
        self.unknown = {}
        self.stats = {"blocks": 0, "calls": 0, "inlined": 0}
        V._expander[0] = self._expand_like
        self.nonneg_cache = {}

    # ================================================================ typed opaque values
    def norm_seq(self, ty):
        """element type if ty is a sequence type"""
        if ty is None:
            return None
        if ty[0] == "slice":
            return ty[1]
        if ty[0] == "array":
            return ty[1]
        if ty[0] == "adt" and ty[1].endswith("vec::Vec"):
            return ty[2][0]
        return None

    def opq(self, ty, op, *args):
        e = self.norm_seq(ty)
        n = mk("app", (op,) + args, ("slice", e) if e is not None else ty)
        if e is not None and ty[0] == "array":
            self.arrlen = getattr(self, "arrlen", {})
            self.arrlen[n.id] = ty[2]
        return self.expand(n)

    def var(self, name, ty):
        e = self.norm_seq(ty)
        n = mk("v", (name,), ("slice", e) if e is not None else ty)
        if e is not None and ty[0] == "array":
            self.arrlen = getattr(self, "arrlen", {})
            self.arrlen[n.id] = ty[2]
        return self.expand(n)

    def expandable(self, ty):
        n = ty[1]
        if n.startswith(("i_overlay::", "i_float::", "i_shape::")):
            return True
        return n in ("std::option::Option", "std::cmp::Ordering", "std::ops::Range", "std::result::Result", "std::ops::ControlFlow",
                     "core::option::Option", "core::cmp::Ordering", "core::ops::Range", "std::ops::RangeInclusive")

    def expand(self, n, depth=0):
        ty = n.ty
        if ty is None:
            return n
        k = ty[0]
        if k in ("int", "float", "char"):
            return pvar(n)
        if k == "param":
            if ty[1] == "T":
                return pvar(n)
            if ty[1] == "P":
                return self.point(self.expand(mk("app", ("x", n), ("param", "T"))), self.expand(mk("app", ("y", n), ("param", "T"))))
            return n
        if k == "bool":
            return V.ite_node(V.atom(("b", n.id), 2), [T, F])
        if k == "tuple":
            if not ty[1]:
                return UNIT
            return mk("struct", ("tuple",) + tuple(self.opq(t, "f", n, i) for i, t in enumerate(ty[1])))
        if k in ("ref", "ptr"):
            return mk("ref", (("D", n.id), ()))
        if k == "adt":
            if ty[1].endswith("PhantomData"):
                return UNIT
            if self.expandable(ty) and depth < 30:
                a = self.p.adts.get(ty[1])
                if a is None:
                    return n
                if a["kind"] == "struct":
                    fs = self.p.adt_fields(ty)
                    return mk("struct", (ty[1],) + tuple(self.opq(t, "f", n, f) for f, t in fs))
                if a["kind"] == "enum":
                    nv = len(a["variants"])
                    tag = V.ite_node(V.atom(("d", n.id), nv, labels=tuple(v["name"] for v in a["variants"])), [num(i) for i in range(nv)]) if nv > 1 else ZERO
                    pay = []
                    for i, v in enumerate(a["variants"]):
                        fs = self.p.adt_fields(ty, i)
                        pay.append(tuple(self.opq(t, "vf", n, v["name"], f) for f, t in fs))
                    return mk("enum", (ty[1], tag) + tuple(pay))
        return n

    def point(self, x, y):
        return mk("struct", ("P", x, y))

    def _expand_like(self, v, shape):
        return None

    # ================================================================ sequences
    def lit(self, elems, ety):
        return mk("app", ("seq",) + tuple(elems), ("slice", ety))

    def is_seq(self, v):
        return v.k in ("app", "v") and v.ty is not None and v.ty[0] == "slice"

    def seq_len(self, s):
        return apply_r("seqlen", self._seq_len, s)

    def _seq_len(self, s):
        if s.k == "undef":
            return UNDEF
        if s.k == "app":
            op = s.a[0]
            if op == "seq":
                return num(len(s.a) - 1)
            if op == "push":
                return add(self.seq_len(s.a[1]), ONE)
            if op == "store":
                return self.seq_len(s.a[1])
            if op == "rep":
                return s.a[2]
            if op == "sub":
                return sub(s.a[3], s.a[2])
            if op == "cat":
                return add(self.seq_len(s.a[1]), self.seq_len(s.a[2]))
            if op in ("sort", "rev", "ordered"):
                return self.seq_len(s.a[1])
            if op == "pop":
                return ite(gt(self.seq_len(s.a[1]), ZERO), sub(self.seq_len(s.a[1]), ONE), ZERO)
            if op == "trunc":
                return V.vmin(self.seq_len(s.a[1]), s.a[2])
        al = getattr(self, "arrlen", {}).get(s.id)
        if isinstance(al, int):
            return num(al)
        return pvar(mk("app", ("len", s), USIZE))

    def seq_get(self, s, i, ety=None):
        return self._map2("sel", lambda a, b: self._seq_get(a, b), s, i)

    def _map2(self, name, f, a, b):
        """apply over two diagrams where results may be structured"""
        return apply_r(name, f, a, b)

    def _seq_get(self, s, i):
        if s.k == "undef" or i.k == "undef":
            return UNDEF
        if s.k == "app":
            op = s.a[0]
            if op == "seq":
                n = len(s.a) - 1
                c = pconst(i)
                if c is not None:
                    return s.a[1 + c] if 0 <= c < n else UNDEF
                r = UNDEF
                for j in range(n - 1, -1, -1):
                    r = ite(eq(i, num(j)), s.a[1 + j], r)
                return r
            if op == "push":
                n = self.seq_len(s.a[1])
                return ite(eq(i, n), s.a[2], self.seq_get(s.a[1], i))
            if op == "store":
                return ite(eq(i, s.a[2]), s.a[3], self.seq_get(s.a[1], i))
            if op == "rep":
                return s.a[1]
            if op == "sub":
                return self.seq_get(s.a[1], add(i, s.a[2]))
            if op == "cat":
                n = self.seq_len(s.a[1])
                return ite(lt(i, n), self.seq_get(s.a[1], i), self.seq_get(s.a[2], sub(i, n)))
            if op == "pop" or op == "trunc":
                return self.seq_get(s.a[1], i)
            if op == "rev":
                return self.seq_get(s.a[1], sub(sub(self.seq_len(s.a[1]), ONE), i))
        if not self.is_seq(s):
            return mk("app", ("sel?", s, i))
        return self.opq(s.ty[1], "sel", s, i)

    def seq_store(self, s, i, x):
        if x.k in ("struct", "enum") or s.k != "ite" and i.k != "ite":
            return apply("store%d" % x.id, lambda a, b: self._seq_store(a, b, x), s, i)
        return apply("store%d" % x.id, lambda a, b: self._seq_store(a, b, x), s, i)

    def _seq_store(self, s, i, x):
        if s.k == "undef" or i.k == "undef":
            return s
        if s.k == "app" and s.a[0] == "seq":
            c = pconst(i)
            if c is not None and 0 <= c < len(s.a) - 1:
                a = list(s.a)
                a[1 + c] = x
                return mk("app", tuple(a), s.ty)
        if s.k == "app" and s.a[0] == "store" and s.a[2] is i:
            s = s.a[1]
        return mk("app", ("store", s, i, x), s.ty)

    def seq_push(self, s, x):
        def f(a):
            if a.k == "undef":
                return a
            if a.k == "app" and a.a[0] == "seq":
                return mk("app", a.a + (x,), a.ty)
            return mk("app", ("push", a, x), a.ty)
        return apply("push%d" % x.id, f, s)

    def seq_cat(self, s, t):
        def f(a, b):
            if a.k == "undef" or b.k == "undef":
                return UNDEF
            if b.k == "app" and b.a[0] == "seq":
                for x in b.a[1:]:
                    a = self.seq_push(a, x)
                return a
            if a.k == "app" and a.a[0] == "seq" and len(a.a) == 1:
                return b
            return mk("app", ("cat", a, b), a.ty)
        return apply("cat", f, s, t)

    def seq_sub(self, s, lo, hi):
        def f(a, l, h):
            if a.k == "undef":
                return a
            if pconst(l) == 0 and h is self.seq_len(a):
                return a
            if a.k == "app" and a.a[0] == "seq" and pconst(l) is not None and pconst(h) is not None:
                return mk("app", ("seq",) + a.a[1 + pconst(l):1 + pconst(h)], a.ty)
            if a.k == "app" and a.a[0] == "sub":
                return mk("app", ("sub", a.a[1], add(a.a[2], l), add(a.a[2], h)), a.ty)
            return mk("app", ("sub", a, l, h), a.ty)
        return apply("subseq", f, s, lo, hi)

    def seq_pop(self, s):
        def f(a):
            if a.k == "app" and a.a[0] == "push":
                return a.a[1]
            if a.k == "app" and a.a[0] == "seq":
                return mk("app", a.a[:-1] if len(a.a) > 1 else a.a, a.ty)
            return mk("app", ("pop", a), a.ty)
        return apply("pop", f, s)

    # ================================================================ places
    def field(self, v, i, variant=None):
        k = v.k
        if k == "struct":
            return v.a[1 + i] if 1 + i < len(v.a) else UNDEF
        if k == "enum":
            if variant is None:
                return UNDEF
            pay = v.a[2 + variant]
            return pay[i] if pay is not None and i < len(pay) else UNDEF
        if k == "ref":
            return v
        if k == "undef":
            return UNDEF
        if k == "ite":
            return apply_r("fld%s.%s" % (i, variant), lambda x: self.field(x, i, variant), v)
        if k == "app" and v.a[0] == "choice":
            return ite(v.a[1], self.field(v.a[2], i, variant), self.field(v.a[3], i, variant))
        if k == "app" and v.a[0] == "setf" and v.a[3] == variant:
            return v.a[4] if v.a[2] == i else self.field(v.a[1], i, variant)
        ty = v.ty
        if ty is not None and ty[0] == "adt":
            fs = self.p.adt_fields(ty, variant or 0)
            if fs is not None and i < len(fs):
                return self.opq(fs[i][1], "vf" if variant is not None else "f", v, *(([self.p.variants(ty[1])[variant]] if variant is not None else []) + [fs[i][0]]))
        if ty is not None and ty[0] in ("tuple",):
            return self.opq(ty[1][i], "f", v, i)
        if ty is not None and ty[0] == "closure":
            return self.opq(ty[2][i], "f", v, i) if i < len(ty[2]) else UNDEF
        return mk("app", ("f?", v, i, variant))

    def set_field(self, v, i, variant, x, mkty=None):
        k = v.k
        if k == "struct":
            a = list(v.a)
            while len(a) < 2 + i:
                a.append(UNDEF)
            a[1 + i] = x
            return mk("struct", tuple(a), v.ty)
        if k == "enum":
            a = list(v.a)
            pay = list(a[2 + variant] or ())
            while len(pay) <= i:
                pay.append(UNDEF)
            pay[i] = x
            a[2 + variant] = tuple(pay)
            return mk("enum", tuple(a), v.ty)
        if k == "undef":
            # field-wise initialisation
            return mk("struct", ("?",) + tuple(UNDEF for _ in range(i)) + (x,))
        if k == "ite":
            return apply_r("setf%s.%s.%d" % (i, variant, x.id), lambda y: self.set_field(y, i, variant, x), v)
        if k == "app" and v.a[0] == "choice":
            return mk("app", ("choice", v.a[1], self.set_field(v.a[2], i, variant, x), self.set_field(v.a[3], i, variant, x)))
        return mk("app", ("setf", v, i, variant, x), v.ty)

    def get_path(self, v, path):
        var = None
        for e in path:
            if e[0] == "f":
                v = self.field(v, e[1], var)
                var = None
            elif e[0] == "d":
                var = e[1]
            elif e[0] == "i":
                v = self.seq_get(v, e[1])
            elif e[0] == "sl":
                v = self.seq_sub(v, e[1], e[2])
        return v

    def set_path(self, v, path, x, var=None):
        if not path:
            return x
        e = path[0]
        if e[0] == "d":
            return self.set_path(v, path[1:], x, e[1])
        if e[0] == "f":
            if v.k == "ref":
                return x
            return self.set_field(v, e[1], var, self.set_path(self.field(v, e[1], var), path[1:], x))
        if e[0] == "i":
            old = self.seq_get(v, e[1]) if len(path) > 1 else None
            return self.seq_store(v, e[1], self.set_path(old, path[1:], x) if len(path) > 1 else x)
        if e[0] == "sl":
            if len(path) > 1 and path[1][0] == "i":
                return self.set_path(v, (("i", add(e[1], path[1][1])),) + path[2:], x)
            return mk("app", ("setsl", v, e[1], e[2], x), v.ty)
        raise Giveup("path")

    def content(self, st, root):
        v = st.get(root)
        if v is None:
            if root[0] == "D":
                n = V.node(root[1])
                ty = n.ty[1] if n.ty and n.ty[0] in ("ref", "ptr") else None
                v = self.opq(ty, "deref", n) if ty is not None else mk("app", ("deref", n))
                self.root_ty[root] = ty
            else:
                v = UNDEF
        return v

    def read(self, st, r):
        """value behind a reference value"""
        def f(x):
            if x.k == "ref":
                return self.get_path(self.content(st, x.a[0]), x.a[1])
            if x.k == "undef":
                return UNDEF
            if x.k == "struct" and len(x.a) >= 2:
                return self.read(st, x.a[1])
            ty = x.ty
            if ty is not None and ty[0] in ("ref", "ptr"):
                return self.content(st, ("D", x.id))
            return mk("app", ("deref", x))
        if r.k != "ite":
            return f(r)
        r2 = None
        # not memoised through apply_r: depends on the state
        return self._fold_leaves(r, f)

    def _fold_leaves(self, v, f):
        memo = {}

        def go(n):
            if n.id in memo:
                return memo[n.id]
            if n.k == "ite":
                res = V.build(n.a[0], [go(x) for x in n.a[1:]])
            else:
                res = f(n)
            memo[n.id] = res
            return res
        return go(v)

    def write(self, st, r, x):
        if r.k == "ref":
            root, path = r.a
            if not path:
                st[root] = x
            else:
                st[root] = self.set_path(self.content(st, root), path, x)
            return
        if r.k == "ite":
            for leaf in leafset(r):
                if leaf.k != "ref":
                    continue
                c = apply("isleaf%d" % leaf.id, lambda y: T if y is leaf else F, r)
                root, path = leaf.a
                old = self.content(st, root)
                st[root] = ite(c, self.set_path(old, path, x), old)
            return
        if r.k == "struct" and len(r.a) >= 2:
            return self.write(st, r.a[1], x)
        if r.k in ("app", "v") and r.ty is not None and r.ty[0] in ("ref", "ptr"):
            st[("D", r.id)] = x
            return
        self.event("lost-write", (r, x))

    def extend_ref(self, r, elem):
        def f(x):
            if x.k == "ref":
                root, path = x.a
                if elem[0] == "i" and path and path[-1][0] == "sl":
                    return mk("ref", (root, path[:-1] + (("i", add(path[-1][1], elem[1])),)))
                if elem[0] == "sl" and path and path[-1][0] == "sl":
                    b = path[-1][1]
                    return mk("ref", (root, path[:-1] + (("sl", add(b, elem[1]), add(b, elem[2])),)))
                return mk("ref", (root, path + (elem,)))
            return UNDEF
        return self._fold_leaves(r, f)

    def as_ref(self, v):
        def f(x):
            if x.k == "ref" or x.k == "undef":
                return x
            if x.k == "struct" and len(x.a) >= 2:
                return self.as_ref(x.a[1])
            if x.k in ("app", "v"):
                return mk("ref", (("D", x.id), ()))
            return UNDEF
        return self._fold_leaves(v, f)

    def place(self, fr, st, pl):
        cur = mk("ref", (("L", fr.id, pl[0]), ()))
        for e in pl[1]:
            if e[0] == "*":
                cur = self.as_ref(self.read(st, cur))
            elif e[0] == "f":
                # fields of smart pointers are transparent
                v = None
                if cur.k == "ref" and cur.a[0][0] == "H" and cur.a[0][2] == "uninit":
                    continue
                cur = self.extend_ref(cur, ("f", e[1]))
            elif e[0] == "d":
                cur = self.extend_ref(cur, ("d", e[1]))
            elif e[0] == "i":
                iv = self.read(st, mk("ref", (("L", fr.id, e[1]), ())))
                cur = self.extend_ref(cur, ("i", iv))
            elif e[0] == "ci":
                if e[2]:
                    n = self.seq_len(self.read(st, cur))
                    cur = self.extend_ref(cur, ("i", sub(n, num(e[1]))))
                else:
                    cur = self.extend_ref(cur, ("i", num(e[1])))
            elif e[0] == "sub":
                lo, hi, fe = e[1], e[2], e[3]
                n = self.seq_len(self.read(st, cur))
                cur = self.extend_ref(cur, ("sl", num(lo), sub(n, num(hi)) if fe else num(hi)))
        return cur

    def place_ty(self, fr, pl):
        ty = self.p.ty(fr.body["locals"][pl[0]])
        for e in pl[1]:
            if e[0] == "f":
                ty = self.p.ty(e[2])
            elif e[0] == "*":
                ty = ty[1] if ty and ty[0] in ("ref", "ptr") else (ty[2][0] if ty and ty[0] == "adt" and ty[2] else None)
            elif e[0] in ("i", "ci"):
                ty = self.norm_seq(ty)
            if ty is None:
                return None
        return ty

    # ================================================================ operands / rvalues
    def operand(self, fr, st, o):
        k = o[0]
        if k in ("cp", "mv"):
            return self.read(st, self.place(fr, st, o[1]))
        if k == "rt":
            return F
        return self.constant(fr, st, o[1])

    def operand_ty(self, fr, o):
        if o[0] in ("cp", "mv"):
            return self.place_ty(fr, o[1])
        if o[0] == "k":
            return self.p.ty(o[1]["ty"]) if "ty" in o[1] else None
        return ("bool",)

    def constant(self, fr, st, c):
        k = c["c"]
        ty = self.p.ty(c["ty"]) if "ty" in c else None
        if k == "s":
            v = c["v"]
            if ty[0] == "bool":
                return T if v else F
            if ty[0] == "float":
                fv = float(v)
                return num(int(fv)) if fv == int(fv) else num(Fraction(fv)) if fv == fv and abs(fv) != float("inf") else pvar(mk("v", ("float:" + str(v),), ty))
            if ty[0] == "char":
                return num(int(v))
            if ty[0] in ("ref", "ptr"):
                return mk("v", ("const:" + str(v),), ty)
            return num(int(v))
        if k == "fn":
            return mk("fn", (Frozen(c["fn"]),), tuple(self.p.ty(x) for x in c.get("sig", ())))
        if k == "body":
            b = self.p.bodies.get(c["b"])
            if b is None:
                return self.opq(ty, "const", c["n"])
            if b["kind"] != "promoted" and len(b["blocks"]) > 40:
                return self.opq(ty, "const", c["n"])
            cst = State()
            r = self.run_body(b, [], st if b["kind"] == "promoted" else cst, const=True)
            if r is None:
                return UNDEF
            v, pc, st2 = r
            # keep the roots the constant refers to
            for kk, vv in st2.items():
                if kk not in st and (kk[0] in ("L", "H")):
                    st[kk] = vv
            return v
        if k == "z":
            if ty and ty[0] == "fndef":
                return mk("v", ("fndef:" + ty[1],), ty)
            if ty and ty[0] == "adt" and ty[1].endswith("vec::Vec"):
                return self.lit([], ty[2][0])
            if ty and ty[0] == "adt" and not self.p.is_enum(ty) and self.expandable(ty):
                return mk("struct", (ty[1],))
            return UNIT
        if k == "assoc":
            return self.opq(ty, "assoc", c["n"])
        if k == "v":
            e = self.norm_seq(ty)
            if ty and ty[0] == "adt" and self.p.is_enum(ty):
                nm = c["d"].split("::")[-1].split("(")[0].split(" ")[0]
                vs = self.p.variants(ty[1])
                if nm in vs and "(" not in c["d"].split("::")[-1]:
                    return mk("enum", (ty[1], num(vs.index(nm))) + tuple(() if i == vs.index(nm) else None for i in range(len(vs))))
            m = c["d"]
            return self.opq(ty, "const", m)
        return self.opq(ty, "const", str(c.get("n") or c.get("d"))) if ty else UNIT

    def discr_of(self, v, ty):
        """discriminant value of an enum value"""
        if v.k == "enum":
            a = self.p.adts.get(v.a[0])
            ds = [x["discr"] for x in a["variants"]] if a else None
            def f(x):
                c = pconst(x)
                if c is None or ds is None or ds[c] is None:
                    return x
                d = int(ds[c])
                return num(d - 256 if d == 255 and v.a[0] == self.ORD else d)
            return apply("discr:" + str(v.a[0]), f, v.a[1])
        if v.k == "undef":
            return UNDEF
        return pvar(mk("app", ("discr", v), ("int", "isize")))

    def variant_value(self, name, variant, fields):
        a = self.p.adts.get(name)
        n = len(a["variants"]) if a else variant + 1
        return mk("enum", (name, num(variant)) + tuple(tuple(fields) if i == variant else None for i in range(n)))

    OPT = "std::option::Option"

    def none(self):
        return mk("enum", (self.optname(), ZERO, (), None))

    def some(self, v):
        return mk("enum", (self.optname(), ONE, None, (v,)))

    def optname(self):
        return self.OPT

    def opt(self, c, v):
        """Some(v) if c else None"""
        return mk("enum", (self.optname(), ite(c, ONE, ZERO), (), (v,)))

    def rvalue(self, fr, st, r, line, dty):
        k = r[0]
        if k == "use":
            return self.operand(fr, st, r[1])
        if k == "repeat":
            v = self.operand(fr, st, r[1])
            n = r[2]
            if n is not None and n <= 64:
                return self.lit([v] * n, self.norm_seq(dty))
            return mk("app", ("rep", v, num(n) if n is not None else UNDEF), ("slice", self.norm_seq(dty)))
        if k == "ref":
            pl = self.place(fr, st, r[2])
            return pl
        if k == "cast":
            return self.cast(fr, st, r[1], self.operand(fr, st, r[2]), self.operand_ty(fr, r[2]), self.p.ty(r[3]), line)
        if k == "bin":
            a, b = self.operand(fr, st, r[2]), self.operand(fr, st, r[3])
            return self.binop(r[1], a, b, self.operand_ty(fr, r[2]), line)
        if k == "un":
            a = self.operand(fr, st, r[2])
            ty = self.operand_ty(fr, r[2])
            if r[1] == "Neg":
                if self.ranges is not None:
                    self.ranges.op("Neg", ty, a, None, neg(a), self, line)
                return neg(a)
            if r[1] == "Not":
                if ty == ("bool",):
                    return b_not(a)
                return self.bitop("not", ty, a)
            if r[1] == "PtrMetadata":
                return self.seq_len(self.read(st, a))
            return self.opq(dty, "un" + r[1], a)
        if k == "discr":
            pl = self.place(fr, st, r[1])
            return self.discr_of(self.read(st, pl), self.place_ty(fr, r[1]))
        if k == "agg":
            vs = [self.operand(fr, st, o) for o in r[2]]
            ak = r[1]
            if ak[0] == "array":
                return self.lit(vs, self.p.ty(ak[1]))
            if ak[0] == "tuple":
                return mk("struct", ("tuple",) + tuple(vs)) if vs else UNIT
            if ak[0] == "adt":
                nm = ak[1]
                if nm.endswith("PhantomData"):
                    return UNIT
                a = self.p.adts.get(nm)
                if a and a["kind"] == "enum":
                    return self.variant_value(nm, ak[2], vs)
                if ak[4] is not None:
                    return vs[0]
                return mk("struct", (nm,) + tuple(vs))
            if ak[0] == "closure":
                return mk("struct", (("closure", ak[1], ak[2]),) + tuple(vs))
        return self.opq(dty, "rv", str(r)[:80])

    def cast(self, fr, st, kind, v, sty, dty, line):
        if kind in ("IntToInt",):
            if sty == ("bool",):
                return self.b2i(v)
            if sty and sty[0] == "int" and dty[0] == "int":
                slo, shi = int_range(sty[1])
                dlo, dhi = int_range(dty[1])
                if slo >= dlo and shi <= dhi:
                    return v
                def f(x):
                    c = pconst(x)
                    if c is None:
                        return x
                    m = (c - dlo) % (1 << BITS[dty[1]]) + dlo
                    return num(m)
                if not all(pconst(l) is not None for l in leafset(v)):
                    self.event("narrow", (sty[1], dty[1], v), line)
                if self.ranges is not None:
                    self.ranges.op("cast", dty, v, None, apply("icast" + dty[1], f, v), self, line)
                return apply("icast" + dty[1], f, v)
            if sty and sty[0] == "adt":
                return self.discr_of(v, sty)
            if sty and sty[0] == "char":
                return v
        if kind in ("IntToFloat", "FloatToFloat"):
            return v
        if kind == "FloatToInt":
            return V.lapp("trunc", v, ty=dty)
        if kind.startswith("coerce") or kind in ("PtrToPtr", "Transmute", "BoxDerefTransmute"):
            if kind == "Transmute" and sty and dty:
                return self.transmute(v, sty, dty)
            return v
        return self.opq(dty, "cast:" + kind, v)

    def transmute(self, v, sty, dty):
        if sty == dty:
            return v
        if sty[0] == "int" and dty[0] == "adt" or sty[0] == "adt" and dty[0] == "int":
            return v
        if v.k == "struct" and dty[0] == "adt" and self.expandable(dty):
            ls, ld = self.p.layouts.get(sty[1]) if sty[0] == "adt" else None, self.p.layouts.get(dty[1])
            fs, fd = self.p.adt_fields(sty) if sty[0] == "adt" else None, self.p.adt_fields(dty)
            if ls and ld and fs is not None and len(fs) == len(fd):
                out = []
                for j, (nm, t) in enumerate(fd):
                    off = ld["offsets"][j]
                    src = [i for i, o in enumerate(ls["offsets"]) if o == off and fs[i][1] == t]
                    if not src:
                        return self.opq(dty, "transmute", v)
                    out.append(v.a[1 + src[0]])
                return mk("struct", (dty[1],) + tuple(out))
        if dty[0] in ("ref", "ptr", "adt") or sty[0] in ("ref", "ptr"):
            return v
        return self.opq(dty, "transmute", v)

    def b2i(self, v):
        return apply("b2i", lambda x: UNDEF if x.k == "undef" else V.as_poly(x), v)

    CMP = {"Lt": lt, "Le": le, "Gt": gt, "Ge": ge}

    def binop(self, op, a, b, ty, line=0):
        r = self._binop(op, a, b, ty, line)
        if self.ranges is not None:
            base = op.replace("WithOverflow", "").replace("Unchecked", "")
            if base in ("Add", "Sub", "Mul", "Shl"):
                self.ranges.op(base, ty, a, b, r.a[1] if op.endswith("WithOverflow") else r, self, line)
        return r

    def _binop(self, op, a, b, ty, line=0):
        if op.endswith("WithOverflow"):
            base = op[:-12]
            v = self.arith(base, a, b, ty)
            return mk("struct", ("tuple", v, F))
        if op in ("Add", "Sub", "Mul", "AddUnchecked", "SubUnchecked", "MulUnchecked"):
            return self.arith(op.replace("Unchecked", ""), a, b, ty)
        if op in ("Eq", "Ne"):
            if ty == ("bool",):
                x = apply("beq", lambda p, q: UNDEF if V._undef(p, q) else (T if p is q else F), a, b)
                return x if op == "Eq" else b_not(x)
            if ty and ty[0] in ("ref", "ptr", "fndef"):
                return self.opq(("bool",), "ptreq", a, b)
            return (eq if op == "Eq" else ne)(a, b)
        if op in self.CMP:
            if ty == ("bool",):
                return self.CMP[op](self.b2i(a), self.b2i(b))
            return self.CMP[op](a, b)
        if op == "Cmp":
            return self.ordering(V.signum(sub(self.num_of(a), self.num_of(b))))
        if op in ("BitAnd", "BitOr", "BitXor"):
            if ty == ("bool",):
                if op == "BitAnd":
                    return b_and(a, b)
                if op == "BitOr":
                    return b_or(a, b)
                return V._ite(a, b_not(b), b)
            return self.bitop({"BitAnd": "and", "BitOr": "or", "BitXor": "xor"}[op], ty, a, b)
        if op in ("Shl", "Shr", "ShlUnchecked", "ShrUnchecked"):
            return self.bitop(op[:3].lower(), ty, a, b)
        if op == "Div":
            return self.div(a, b, ty)
        if op == "Rem":
            return self.rem(a, b, ty)
        if op == "Offset":
            return self.opq(ty, "offset", a, b)
        raise Giveup("binop " + op)

    def num_of(self, a):
        return apply("asnum", lambda x: V.as_poly(x), a)

    def arith(self, op, a, b, ty):
        if ty is not None and ty[0] == "float" and op == "Mul":
            x, y = V.pconst(a) if a.k == "p" else None, V.pconst(b) if b.k == "p" else None
            if x is not None and y is not None:
                z = float(x) * float(y)      # a product of constants is rounded like the program rounds it
                if ty[1] == "f64" and z == z and abs(z) != float("inf"):
                    return num(V._norm(Fraction(z)))
        return {"Add": add, "Sub": sub, "Mul": mul}[op](a, b)

    def is_float(self, ty):
        return ty is not None and (ty[0] == "float" or ty[0] == "param")

    def div(self, a, b, ty):
        if self.is_float(ty):
            return mul(a, self.inv(b))
        magnitude = a.k == "ite" and any(l.k == "p" and V.absv(l) is a for l in V.leafset(a))

        def f(x, y):
            if V._undef(x, y):
                return UNDEF
            x, y = V.as_poly(x), V.as_poly(y)
            cx, cy = pconst(x), pconst(y)
            if cx is not None and cy not in (None, 0):
                q = abs(cx) // abs(cy)
                return num(q if (cx < 0) == (cy < 0) else -q)
            if cy == 1:
                return x
            e = self.exponent(y)
            if cy is not None and cy > 1 and cy & (cy - 1) == 0:
                e = num(cy.bit_length() - 1)
            if e is not None and (magnitude or self.not_negative(x, ty)):
                return self.bitop("shr", ty, x, e)
            s = 1
            if cx != 0 and self._lead_neg(x):
                x, s = V.padd(ZERO, x, -1), -s
            if self._lead_neg(y):
                y, s = V.padd(ZERO, y, -1), -s
            r = pvar(mk("app", ("idiv", x, y), ty))
            return r if s > 0 else V.padd(ZERO, r, -1)
        return apply("idiv" + str(ty) + "+" * magnitude, f, a, b)

    def exponent(self, y):
        """e when y is the term 2^e"""
        if len(y.a) == 1:
            (m, c), = y.a
            if c == 1 and len(m) == 1:
                t = V.node(m[0])
                if t.k == "app" and t.a[0] == "pow2":
                    return t.a[1]
        return None

    def not_negative(self, x, ty):
        if ty and ty[0] == "int" and ty[1][0] == "u":
            return True
        if self.ranges is not None and self.ranges.of(x)[0] >= 0:
            return True

        def term(t):
            n = V.node(t)
            return n.k == "app" and (n.a[0] in ("pow2", "abs", "len") or n.a[0] == "bounded" and n.a[2] is not None and n.a[2] >= 0)
        return any(all(c >= 0 and all(map(term, m)) for m, c in y.a)
                   for y in [x] + [V.sub(x, r) for _, r in self.below_pow2] if y.k == "p")

    def _lead_neg(self, p):
        if not p.a:
            return False
        items = sorted(p.a, key=lambda mc: (len(mc[0]), mc[0]))
        return items[-1][1] < 0

    def inv(self, b):
        def f(y):
            if V._undef(y):
                return UNDEF
            y = V.as_poly(y)
            c = pconst(y)
            if c is not None:
                if c == 0:
                    return pvar(mk("v", ("1/0",), ("float", "f64")))
                return num(V._norm(Fraction(1) / Fraction(c)))
            # split a single monomial into factors, otherwise normalise the content
            if len(y.a) == 1:
                (m, c), = y.a
                r = num(V._norm(Fraction(1) / Fraction(c)))
                for t in m:
                    n = V.node(t)
                    if n.k == "app" and n.a[0] == "inv":
                        r = V.pmul(r, n.a[1])
                    else:
                        r = V.pmul(r, pvar(mk("app", ("inv", pvar(n)), ("float", "f64"))))
                return r
            items = sorted(y.a, key=lambda mc: (len(mc[0]), mc[0]))
            lead = Fraction(items[-1][1])
            q = V.poly({m: V._norm(Fraction(c) / lead) for m, c in y.a})
            return V.pmul(num(V._norm(1 / lead)), pvar(mk("app", ("inv", q), ("float", "f64"))))
        return apply("inv", f, b)

    def rem(self, a, b, ty):
        def f(x, y):
            if V._undef(x, y):
                return UNDEF
            x, y = V.as_poly(x), V.as_poly(y)
            cx, cy = pconst(x), pconst(y)
            if cx is not None and cy not in (None, 0):
                r = abs(cx) % abs(cy)
                return num(r if cx >= 0 else -r)
            if cy == 1:
                return ZERO
            if cy is None and ty and ty[0] == "int" and ty[1].startswith("u"):
                return V.sub(x, mul(y, self.div(x, y, ty)))
            if cy in (2, -2) and not self.is_float(ty):
                bit = self.parity(x, ty)
                if ty and ty[0] == "int" and ty[1].startswith("u"):
                    return bit
                return V.ite(V.lt(x, ZERO), V.neg(bit), bit)
            return pvar(mk("app", ("rem", x, y), ty))
        return apply("rem" + str(ty), f, a, b)

    below_pow2 = ()
    header = None
    keep = T

    def shr_known(self, x, e):
        """(2^e * q + r) >> e with r known to lie in [0, 2^e)"""
        t = mk("app", ("pow2", e), ("int", "u64"))
        q, r = {}, {}
        for m, c in x.a:
            if t.id in m:
                m2 = list(m)
                m2.remove(t.id)
                q[tuple(m2)] = q.get(tuple(m2), 0) + c
            else:
                r[m] = c
        rest = V.poly(r)
        if rest is ZERO or any(e is e2 and rest is r2 for e2, r2 in self.below_pow2):
            return V.poly(q)
        for e2, r2 in self.below_pow2:
            if e is e2:
                y = V.sub(x, r2)
                if y.k == "p" and all(t.id in m for m, c in y.a):
                    return V.poly({(lambda l: (l.remove(t.id), tuple(l))[1])(list(m)): c for m, c in y.a})
        return None

    def bitop(self, op, ty, *args):
        t = ty[1] if ty and ty[0] == "int" else "u64"
        bits = BITS.get(t, 64)
        lo, hi = int_range(t) if t in BITS else (0, (1 << 64) - 1)

        def wrap(v):
            return (v - lo) % (1 << bits) + lo

        def f(*xs):
            if V._undef(*xs):
                return UNDEF
            xs = [V.as_poly(x) for x in xs]
            cs = [pconst(x) for x in xs]
            if all(c is not None for c in cs):
                if op == "and":
                    return num(cs[0] & cs[1])
                if op == "or":
                    return num(cs[0] | cs[1])
                if op == "xor":
                    return num(cs[0] ^ cs[1])
                if op == "not":
                    return num(wrap(~cs[0]))
                if op == "shl":
                    return num(wrap(cs[0] << (cs[1] % bits)))
                if op == "shr":
                    return num(cs[0] >> (cs[1] % bits))
            if op == "shl":
                if cs[1] == 0:
                    return xs[0]
                if cs[0] == 0:
                    return ZERO
                if not getattr(self, "exact_shl", False):
                    # same value as a multiplication, up to overflow
                    if cs[1] is not None and cs[1] < 16:
                        return V.pmul(xs[0], num(1 << cs[1]))
                    if cs[1] is None:
                        return V.pmul(xs[0], pvar(mk("app", ("pow2", xs[1]), ("int", "u64"))))
            if op == "shr" and (cs[1] == 0 or cs[0] == 0):
                return xs[0]
            if op == "shr" and cs[1] is not None and t.startswith("u") and not getattr(self, "exact_shl", False):
                # (2^k q + r) >> k with 0 <= r < 2^k
                d = 1 << cs[1]
                if all(Fraction(c).denominator == 1 and (c % d == 0 or m == ()) for m, c in xs[0].a):
                    return V.poly({m: (c // d if m != () else Fraction(c) // d) for m, c in xs[0].a})
            if op == "shr" and cs[1] is None:
                q = self.shr_known(xs[0], xs[1])
                if q is not None:
                    return q
            if op == "and":
                if 0 in cs:
                    return ZERO
                if xs[0] is xs[1]:
                    return xs[0]
                if 1 in cs:
                    # parity of a sum: drop even terms
                    x = xs[0] if cs[1] == 1 else xs[1]
                    return self.parity(x, ty)
            if op == "or":
                if cs[0] == 0:
                    return xs[1]
                if cs[1] == 0 or xs[0] is xs[1]:
                    return xs[0]
                for c, x in ((cs[0], xs[1]), (cs[1], xs[0])):
                    if c is not None and c > 0 and t.startswith("u") and not getattr(self, "exact_shl", False):
                        # bits that are free in the other operand
                        d = 1 << int(c).bit_length()
                        if all(Fraction(k).denominator == 1 and k % d == 0 for m, k in x.a):
                            return V.add(x, num(c))
            if op == "xor":
                if cs[0] == 0:
                    return xs[1]
                if cs[1] == 0:
                    return xs[0]
                if xs[0] is xs[1]:
                    return ZERO
            if op in ("and", "or", "xor"):
                xs = sorted(xs, key=lambda n: n.id)
            return pvar(mk("app", (op,) + tuple(xs), ty))
        return apply_r("bit" + op + t, f, *args)

    def parity(self, x, ty):
        for m, c in x.a:
            t = V.node(m[0]) if len(m) == 1 else None
            if t is not None and t.k == "app" and t.a[0] == "xor":
                return self.parity(V.add(V.sub(x, V.pmul(V.num(c), pvar(t))), V.pmul(V.num(c), V.add(t.a[1], t.a[2]))), ty)
        items = {m: c % 2 for m, c in x.a if Fraction(c).denominator == 1}
        if len(items) != len(x.a):
            return pvar(mk("app", ("and", x, ONE), ty))
        q = V.poly(items)
        c = pconst(q)
        if c is not None:
            return num(c)
        const = dict(q.a).get((), 0)
        r = V.poly({m: k for m, k in q.a if m != ()})
        at = V.atom(("b", mk("app", ("odd", r), ("bool",)).id), 2)
        return V.ite_node(at, [ZERO, ONE] if const else [ONE, ZERO])

    ORD = "std::cmp::Ordering"

    def ordering(self, sg):
        """Ordering from a sign value"""
        tag = apply("ordtag", lambda x: UNDEF if V._undef(x) else num(pconst(x) + 1), sg)
        return mk("enum", (self.ORD, tag, (), (), ()))

    # ================================================================ events
    def event(self, kind, data, line=0):
        if self.fnstack:
            fn = self.fnstack[-1]
        else:
            fn = None
        # the condition within the innermost enclosing loop iteration, calls included
        k = len(self.loopstack[-1].entry_ctx) if self.loopstack else 0
        pc = self.pc
        for c in self.ctx[k:]:
            pc = b_and(c, pc)
        self.events.append(Event(kind, pc, data, tuple(self.loopstack), fn, line, tuple(self.ctx)))

    # ================================================================ control flow
    def cfg(self, b):
        c = self.cfgs.get(b["id"])
        if c is None:
            c = Cfg(b)
            self.cfgs[b["id"]] = c
        return c

    def run_body(self, b, args, st, const=False):
        """-> (return value, pc, state) or None when the body cannot return"""
        if len(self.fnstack) > self.MAXDEPTH:
            raise Giveup("depth")
        fr = Frame()
        self.nframe += 1
        fr.id = self.nframe
        fr.body = b
        st = st.copy()
        for i, a in enumerate(args):
            st[("L", fr.id, i + 1)] = a
        for i, t in enumerate(b["locals"]):
            self.root_ty[("L", fr.id, i)] = t
        self.fnstack.append(b["n"])
        pc0 = getattr(self, "pc", T)
        self.ctx.append(pc0)
        try:
            ex = self.run_region(fr, self.cfg(b), None, 0, T, st, None)
        finally:
            self.fnstack.pop()
            self.ctx.pop()
            self.pc = pc0
        rets = ex.get("ret")
        if not rets:
            return None
        pc, st = self.merge(rets)
        v = st.get(("L", fr.id, 0), UNIT)
        v = V.restrict(v, pc) if pc is not T else v
        keep = const
        out = State()
        for k, x in st.items():
            if k[0] == "L" and k[1] == fr.id and not keep:
                continue
            out[k] = x
        self.pc = pc0
        return v, pc, out

    def merge(self, ins):
        if len(ins) == 1:
            return ins[0]
        tot = F
        for pc, _ in ins:
            tot = b_or(tot, pc)
        roots = {}
        for _, s in ins:
            for r in s:
                roots[r] = 1
        out = State()
        for r in roots:
            vs = []
            for pc, s in ins:
                v = s.get(r)
                if v is None:
                    if r[0] == "D":
                        v = self.content(s, r)
                vs.append(v)
            if any(v is None for v in vs):
                live = [(pc, v) for (pc, _), v in zip(ins, vs) if v is not None]
                # defined on some of the edges only: a dead local, or one not read before being set
                if r[0] == "L":
                    v0 = live[0][1]
                    for pc, v in live[1:]:
                        if v is not v0:
                            v0 = ite(pc, v, v0)
                    out[r] = v0
                    continue
                vs = [UNDEF if v is None else v for v in vs]
            v0 = vs[0]
            if all(v is v0 for v in vs):
                out[r] = v0
                continue
            acc = vs[-1]
            for (pc, _), v in zip(reversed(ins[:-1]), reversed(vs[:-1])):
                if v is not acc:
                    acc = ite(pc, v, acc)
            if tot is not T:
                acc = V.restrict(acc, tot)
            out[r] = acc
        return tot, out

    def run_region(self, fr, cfg, loop, entry, pc, st, header):
        """flow through one loop body (or the whole function): {target: [(pc, state)]}, 'ret', 'back'"""
        pend = {entry: [(pc, st)]}
        exits = {}
        order = cfg.rpo_in(loop)
        nodes = cfg.loops[loop]["body"] if loop is not None else None
        first = True

        def send(t, pc, st):
            if pc is F:
                return
            if t == "ret":
                exits.setdefault("ret", []).append((pc, st))
            elif loop is not None and t == loop:
                exits.setdefault("back", []).append((pc, st))
            elif nodes is not None and t not in nodes:
                exits.setdefault(t, []).append((pc, st))
            else:
                pend.setdefault(t, []).append((pc, st))

        for bb in order:
            ins = pend.pop(bb, None)
            if not ins:
                continue
            pc, st = self.merge(ins)
            if pc is F:
                continue
            inner = cfg.loop_at(bb)
            if inner and bb != loop:
                for t, lst in self.run_loop(fr, cfg, bb, pc, st).items():
                    for p2, s2 in lst:
                        send(t, p2, s2)
                continue
            self.fuel -= 1
            if self.fuel < 0:
                raise Giveup("fuel")
            self.stats["blocks"] += 1
            st = st.copy()
            self.pc = pc
            self.header = bb if bb == loop else None
            for t, p2, s2 in self.block(fr, bb, pc, st):
                send(t, p2, s2)
        if pend:
            left = [b for b in pend if pend[b]]
            if left:
                raise Giveup("irreducible control flow in %s" % fr.body["n"])
        return exits

    def run_loop(self, fr, cfg, header, pc, st):
        def body(s):
            return self.run_region(fr, cfg, header, header, T, s, header)
        lp, exits = self.loop_fix(pc, st, body, fr.body["n"], fr.body["blocks"][header]["l"])
        return exits

    def loop_fix(self, pc, st, body, fn, line):
        """solve a loop: body(state) -> {'back': [...], target: [...]}; returns exits with pc conjoined"""
        if self.unroll and short_iterator(st):
            out = self.unrolled(pc, st, body)
            if out is not None:
                return None, out
        self.nloop += 1
        lid = self.nloop
        phis = {}
        saved_pc = getattr(self, "pc", T)
        ev0 = len(self.events)
        nl0 = len(self.loops)
        lp = Loop()
        lp.id = lid
        lp.fn = fn
        lp.line = line
        k = len(self.loopstack[-1].entry_ctx) if self.loopstack else 0
        lp.entry_pc = pc
        for c in self.ctx[k:]:
            lp.entry_pc = b_and(c, lp.entry_pc)
        lp.parent = self.loopstack[-1] if self.loopstack else None
        self.loopstack.append(lp)
        self.ctx.append(pc)
        lp.entry_ctx = tuple(self.ctx)
        entry = st
        for it in range(60):
            del self.events[ev0:]
            del self.loops[nl0:]
            nh, nf, nlp = self.nheap, self.nframe, self.nloop
            cur = entry.copy()
            for (root, path), (phi, init) in phis.items():
                cur[root] = self.set_path(self.content(cur, root), path, phi)
            hdr = cur.copy()
            self.pc = T
            ex = body(cur)
            back = ex.get("back")
            if not back:
                break
            bpc, bst = self.merge(back)
            new = []
            for root in list(bst):
                if root not in hdr:
                    if root[0] == "D":
                        self.content(entry, root)
                        entry[root] = self.content(entry, root)
                        hdr[root] = entry[root]
                    else:
                        continue
                a, b = hdr[root], bst[root]
                if a is b:
                    continue
                self.diff(root, (), a, b, phis, new, bpc)
            if not new:
                break
            self.nheap, self.nframe, self.nloop = nh, nf, nlp
            lifted = False
            for root, path in new:
                a = self.get_path(self.content(entry, root), path)
                b = self.get_path(bst[root], path)
                if a.k in ("v", "app") and b.k == "struct" and b.a[0] == "it.vec" and b.a[1].k == "app" and b.a[1].a[:2] == ("items", a):
                    # an arbitrary iterator read inside the loop: a position in its finite sequence of items
                    entry = entry.copy()
                    entry[root] = self.set_path(self.content(entry, root), path, mk("struct", ("it.vec", b.a[1], V.ZERO, self.seq_len(b.a[1]))))
                    lifted = True
            if lifted:
                continue
            for root, path in new:
                init = self.get_path(self.content(entry, root), path)
                ty = self.type_at(root, path, init)
                phis[(root, path)] = (self.mkphi(lid, root, path, init, ty), init)
        else:
            raise Giveup("loop fixpoint in %s" % fn)
        self.loopstack.pop()
        self.ctx.pop()
        self.pc = saved_pc
        lp.phis = phis
        lp.hdr = hdr
        if back:
            lp.cont = bpc
            for (root, path) in phis:
                lp.nexts[(root, path)] = self.get_path(bst[root], path) if root in bst else self.get_path(hdr[root], path)
        lp.events = self.events[ev0:]
        self.loops.append(lp)
        lp.entry_given = pc
        out = {}
        for t, lst in ex.items():
            if t == "back":
                continue
            out[t] = [(b_and(pc, p), s) for p, s in lst]
            lp.exits += [(t, p, s) for p, s in lst]
        self.finish_loop(lp, out)
        return lp, out

    unroll = True

    def unrolled(self, pc, st, body):
        """a loop over a handful of known elements, as a sequence of its rounds; None when it is not one"""
        ne, nl, saved, counts = len(self.events), len(self.loops), getattr(self, "pc", T), (self.nheap, self.nframe, self.nloop)
        out, cur = {}, st
        for _ in range(SHORT + 1):
            self.ctx.append(pc)
            self.pc = T
            ex = body(cur.copy())
            self.ctx.pop()
            for t, lst in ex.items():
                if t != "back":
                    out.setdefault(t, []).extend((b_and(pc, p), s) for p, s in lst)
            back = ex.get("back")
            if not back:
                self.pc = saved
                return out
            bpc, cur = self.merge(back)
            pc = b_and(pc, bpc)
            if not short_iterator(cur, True):
                break
        del self.events[ne:]
        del self.loops[nl:]
        self.pc = saved
        self.nheap, self.nframe, self.nloop = counts
        return None

    def finish_loop(self, lp, out):
        """a loop that only appends a stretch of another sequence leaves what `extend_from_slice` leaves"""
        exits = [(t, i) for t, l in out.items() for i in range(len(l))]
        seqs_ = [k for k, (ph, i) in lp.phis.items() if self.is_seq(ph)]
        if len(exits) != 1 or len(seqs_) != 1 or not lp.nexts or self.ranges is not None:
            return
        import scev
        import seqs
        c = scev.Closed(self, lp, [])
        if c.trip is None or c.unsolved or seqs_[0] not in lp.nexts:
            return
        hit = seqs.copied(self, c, seqs_[0])
        if hit is None or any(k not in c.by_key for k in lp.phis if k != seqs_[0]):
            return
        for l in V.leafset(c.trip):
            if V.vmax(l, ZERO) is c.trip:
                c.trip = l
        ph, init = lp.phis[seqs_[0]]
        src, lo, into = hit
        m = c.at(c.trip)
        if scev.mentions(src, c.ids) or scev.mentions(lo, c.ids):
            return
        m[ph.id] = into(self.seq_sub(src, lo, add(lo, c.trip)))
        S = scev.Subst(self, m)
        (t, i), = exits
        p, st = out[t][i]
        st = st.copy()
        for root in list(st):
            st[root] = S(st[root])
        out[t][i] = (lp.entry_given, st)

    def diff(self, root, path, a, b, phis, new, care=T):
        if a is b:
            return
        if a.k in ("ite", "enum", "c") and care is not T:
            # unchanged on every path back to the header
            r = V.restrict(b, care)
            if r is a:
                return
            if a.k == "enum" and r.k == "enum" and a.a[0] == r.a[0] and a.a[1] is r.a[1] and pconst(a.a[1]) is not None:
                x, y = a.a[2 + pconst(a.a[1])], r.a[2 + pconst(a.a[1])]
                if (x or ()) == (y or ()) or (x and y and all(p is q for p, q in zip(x, y))):
                    return
        if (root, path) in phis:
            return
        if any((root, path[:k]) in phis for k in range(len(path))):
            return
        if a.k == "struct" and b.k == "struct" and a.a[0] == b.a[0] and len(a.a) == len(b.a) and len(a.a) > 1:
            for i in range(len(a.a) - 1):
                self.diff(root, path + (("f", i),), a.a[1 + i], b.a[1 + i], phis, new, care)
            return
        if b.k == "undef":
            return
        new.append((root, path))

    def type_at(self, root, path, init):
        ty = None
        if root[0] == "L":
            t = self.root_ty.get(root)
            ty = self.p.ty(t) if isinstance(t, int) else t
        else:
            t = self.root_ty.get(root)
            ty = self.p.ty(t) if isinstance(t, int) else t
        var = None
        v = None
        for e in path:
            if ty is None:
                return None
            if e[0] == "f":
                if ty[0] == "adt":
                    fs = self.p.adt_fields(ty, var or 0)
                    if fs is None or e[1] >= len(fs):
                        return None
                    ty = fs[e[1]][1]
                elif ty[0] == "tuple":
                    ty = ty[1][e[1]]
                elif ty[0] == "closure":
                    ty = ty[2][e[1]] if e[1] < len(ty[2]) else None
                else:
                    return None
                var = None
            elif e[0] == "d":
                var = e[1]
            elif e[0] == "i":
                ty = self.norm_seq(ty)
            else:
                return None
        return ty

    def mkphi(self, lid, root, path, init, ty):
        name = ("phi", lid, root, path)
        if init.k == "struct" and isinstance(init.a[0], str) and init.a[0].startswith("it."):
            # iterator models: positions advance, the underlying sequence does not
            return mk("struct", (init.a[0],) + tuple(x for x in init.a[1:]))
        kinds = {x.k for x in leafset(init)}
        if kinds <= {"p"} and ty is not None and ty[0] in ("ref", "ptr", "adt", "tuple"):
            ty = None               # an iterator model's position, typed by the real iterator's layout
        if ty is None or (ty[0] == "adt" and not self.expandable(ty)) or self.norm_seq(ty) is not None:
            e = self.norm_seq(ty)
            if e is None:
                for x in leafset(init):
                    if self.is_seq(x):
                        e = x.ty[1]
            if e is not None:
                return mk("v", (name,), ("slice", e))
            if kinds <= {"p"}:
                return pvar(mk("v", (name,), USIZE))
            if kinds <= {"c"}:
                return V.ite_node(V.atom(("b", mk("v", (name,), ("bool",)).id), 2), [T, F])
            if init.k == "enum":
                return self.phi_enum(name, init)
            return mk("v", (name,), ty)
        if init.k == "enum" and ty[0] == "adt":
            return self.expand(mk("v", (name,), ty))
        if ty[0] == "ref" and any(x.k != "ref" for x in leafset(init)) and False:
            return mk("v", (name,), ty)
        return self.expand(mk("v", (name,), ty))

    def phi_enum(self, name, init):
        n = len(init.a) - 2
        base = mk("v", (name,), None)
        tag = V.ite_node(V.atom(("d", base.id), n), [num(i) for i in range(n)])
        return mk("enum", (init.a[0], tag) + tuple(None if p is None else tuple(mk("app", ("vf", base, i, j)) for j in range(len(p))) for i, p in enumerate(init.a[2:])))

    # ================================================================ blocks
    def block(self, fr, bb, pc, st):
        blk = fr.body["blocks"][bb]
        for s in blk["s"]:
            if s[0] == "=":
                dty = self.place_ty(fr, s[1])
                v = self.rvalue(fr, st, s[2], s[3], dty)
                self.write(st, self.place(fr, st, s[1]), v)
            elif s[0] == "dead":
                st.pop(("L", fr.id, s[1]), None)
            elif s[0] == "setd":
                r = self.place(fr, st, s[1])
                v = self.read(st, r)
                if v.k == "enum":
                    a = list(v.a)
                    a[1] = num(s[2])
                    if a[2 + s[2]] is None:
                        a[2 + s[2]] = ()
                    self.write(st, r, mk("enum", tuple(a), v.ty))
            elif s[0] == "copynonoverlapping":
                self.event("copy-nonoverlapping", ())
        t = blk["t"]
        k = t[0]
        if k == "goto":
            return [(t[1], pc, st)]
        if k == "ret":
            return [("ret", pc, st)]
        if k in ("unreachable", "unwind"):
            return []
        if k == "drop":
            return [(t[2], pc, st)]
        if k == "switch":
            return self.switch(fr, st, pc, t)
        if k == "assert":
            c = self.operand(fr, st, t[1])
            ok = c if t[2] else b_not(c)
            self.event("assert", (t[3], ok, [self.operand(fr, st, o) for o in t[4]], [self.operand_ty(fr, o) for o in t[4]]), blk["l"])
            return [(t[5], pc, st)]
        if k == "call":
            return self.call(fr, st, pc, t, blk["l"])
        raise Giveup("terminator " + k)

    def switch(self, fr, st, pc, t):
        v = self.operand(fr, st, t[1])
        ty = self.p.ty(t[4])
        out = []
        rest = pc
        groups = {}
        for val, bb in t[2]:
            if ty[0] == "bool":
                c = v if val else b_not(v)
            else:
                if ty[0] == "int" and ty[1][0] == "i":
                    b = BITS[ty[1]]
                    val = val & ((1 << b) - 1)
                    if val >> (b - 1):
                        val -= 1 << b
                c = eq(v, num(val))
            if c.k == "undef":
                c = F
            groups.setdefault(bb, []).append(b_and(rest, c))
            rest = b_and(rest, b_not(c))
        groups.setdefault(t[3], []).append(rest)
        for bb, cs in groups.items():
            c = F
            for x in cs:
                c = b_or(c, x)
            if c is not F:
                out.append((bb, c, st if len(groups) == 1 else st.copy()))
        return out

    # ================================================================ calls
    def call(self, fr, st, pc, t, line):
        fo = t[1]
        args = [self.operand(fr, st, o) for o in t[2]]
        tys = [self.operand_ty(fr, o) for o in t[2]]
        dty = self.place_ty(fr, t[3])
        self.stats["calls"] += 1
        self.pc = pc
        self.line = line
        header, self.header = self.header, None
        if fo[0] == "k" and fo[1].get("c") == "fn":
            if header is not None and fo[1]["fn"]["n"] == "std::iter::Iterator::next":
                import models
                r = models.filtered_next(self, args, tys, dty, st)
                if r is not None:
                    # an element the filter rejects sends the loop straight to its next iteration
                    v, keep, st2 = r
                    out = []
                    if keep is not T:
                        out.append((header, b_and(pc, b_not(keep)), st2.copy()))
                    if keep is not F:
                        self.write(st2, self.place(fr, st2, t[3]), v)
                        out.append((t[4], b_and(pc, keep), st2))
                    return out
            r = self.invoke(fo[1]["fn"], args, tys, dty, st, line)
        else:
            fv = self.operand(fr, st, fo)
            r = self.call_value(fv, args, tys, dty, st, line)
        if r is None or t[4] is None:
            return []
        v, rpc, st2 = r
        self.write(st2, self.place(fr, st2, t[3]), v)
        return [(t[4], b_and(pc, rpc), st2)]

    def call_value(self, fv, args, tys, dty, st, line):
        """call through a function value: args already untupled"""
        if fv.k == "fn":
            if fv.ty and len(fv.ty) == len(args):
                tys = [a or b for a, b in zip(tys, fv.ty)]
            return self.invoke(fv.a[0].d, args, tys, dty, st, line)
        if fv.k == "struct" and isinstance(fv.a[0], tuple) and fv.a[0][0] == "closure":
            b = self.p.bodies[fv.a[0][2]]
            selfty = self.p.ty(b["locals"][1])
            if selfty[0] == "ref":
                self.nheap += 1
                root = ("H", self.nheap, "clo")
                st = st.copy()
                st[root] = fv
                a0 = mk("ref", (root, ()))
            else:
                a0 = fv
            return self.run_body(b, [a0] + list(args), st)
        if fv.k == "v" and isinstance(fv.a[0], str) and fv.a[0].startswith("fndef:"):
            nm = fv.a[0][6:]
        return self.opaque_call(("callv", fv), [fv] + list(args), [None] + list(tys), dty, st, line)

    def invoke(self, f, args, tys, dty, st, line):
        nm = f["n"]
        inm = f["inst"]["n"] if f["inst"] else None
        for h, fn in self.hooks.items():
            if h == nm or h == inm or (inm and inm.endswith("::" + h)) or (inm is None and nm.endswith("::" + h)):
                r = fn(self, f, args, tys, dty, st, line)
                if r is not NotImplemented:
                    return r
        m = self.model(f, nm, inm, args, tys, dty, st, line)
        if m is not NotImplemented:
            return m
        bid = f["inst"]["b"] if f["inst"] else None
        if bid is not None and bid in self.p.bodies and not self.is_opaque(inm):
            b = self.p.bodies[bid]
            if self.may_inline(b, inm):
                a = list(args)
                if f["kind"] == "shim_once":
                    # closure called by value: arguments arrive as (self, tuple)
                    pass
                if b["spread"] is not None and a:
                    tup = a[-1]
                    pass
                self.inlined.add(b["n"])
                self.stats["inlined"] += 1
                a = self.rust_call_args(b, f, a)
                try:
                    return self.run_body(b, a, st)
                except Giveup:
                    if not self.is_core(inm):
                        raise
        return self.opaque_call(inm or nm, args, tys, dty, st, line, f)

    def rust_call_args(self, b, f, a):
        # calls through the Fn* traits pass (callee, (args,)); closure bodies take the untupled list
        if f.get("trait") and f["trait"].split("::")[-1] in ("FnOnce", "FnMut", "Fn") and len(a) == 2 and b["kind"] == "item":
            tup = a[1]
            n = b["argc"] - 1
            if tup.k == "struct" and tup.a[0] == "tuple":
                rest = list(tup.a[1:])
            elif n == 0:
                rest = []
            else:
                rest = [self.field(tup, i) for i in range(n)]
            return [a[0]] + rest
        return a

    def is_core(self, n):
        return not (n.startswith("i_") or "<i_" in n[:40])

    def is_opaque(self, n):
        import re
        for o in self.opaque:
            if (callable(o) and o(n)) or (isinstance(o, str) and re.search(o, n)):
                return True
        return False

    def may_inline(self, b, n):
        if self.fnstack.count(b["n"]) >= 1:
            return False
        if any(w in n for w in ("fmt::", "Debug", "alloc::alloc", "raw_vec", "rayon", "precondition_check")):
            return False
        if self.is_core(n) and any(w in n for w in ("slice::sort", "ptr::", "std::vec::Vec", "hash", "intrinsics")):
            return False
        if n.startswith(("i_tree", "<i_tree", "i_key_sort", "<[T] as i_key_sort")) or "i_tree::" in n[:30]:
            return False
        return True

    def contents(self, st, v, depth=0, ty=None):
        """a value with references replaced by what they point to"""
        if depth > 6:
            return v
        if v.k == "ref":
            return mk("app", ("&", self.contents(st, self.read(st, v), depth + 1)))
        if v.k == "ite" and any(x.k == "ref" for x in leafset(v)):
            return self._fold_leaves(v, lambda x: self.contents(st, x, depth + 1))
        if v.k == "struct" and any(self._has_ref(x) for x in v.a[1:]):
            return mk("struct", (v.a[0],) + tuple(self.contents(st, x, depth + 1) for x in v.a[1:]))
        return v

    def _has_ref(self, v):
        return v.k == "ref" or (v.k == "ite" and any(x.k == "ref" for x in leafset(v))) or (v.k == "struct" and any(self._has_ref(x) for x in v.a[1:])) or v.k == "enum"

    def opaque_call(self, name, args, tys, dty, st, line, f=None):
        nm = name if isinstance(name, str) else str(name[0])
        cargs = tuple(self.contents(st, a) for a in args)
        self.event("call", (nm, list(args), cargs, dty), line)
        self.unknown[nm] = self.unknown.get(nm, 0) + 1
        st = st.copy()
        k = 0
        for i, (a, t) in enumerate(zip(args, tys)):
            if t is not None and t[0] in ("ref", "ptr") and t[2]:
                pt = t[1]
                for leaf in leafset(a):
                    if leaf.k != "ref":
                        continue
                    old = self.read(st, leaf)
                    e = self.norm_seq(pt)
                    nv = self.opq(pt, "out", nm, i, *cargs)
                    self.write(st, leaf, nv) if a.k == "ref" else self.write(st, a, nv)
                    if a.k != "ref":
                        break
        if dty is None:
            v = mk("app", ("ret", nm) + cargs)
        elif dty == ("never",) or dty[0] == "never":
            return None
        else:
            v = self.opq(dty, "ret", nm, *cargs)
        return v, T, st

    def model(self, f, nm, inm, args, tys, dty, st, line):
        import models
        return models.model(self, f, nm, inm, args, tys, dty, st, line)

    # ================================================================ entry points
    def run(self, root, args=None, names=None, st=None):
        """analyse a root function on symbolic parameters"""
        b = self.p.bodies[root["id"]]
        st = st if st is not None else State()
        if args is None:
            args = self.params(b, st, names)
        self.pc = T
        r = self.run_body(b, args, st)
        return r

    def params(self, b, st, names=None):
        args = []
        argn = {x[2]: x[0] for x in b["names"] if x[2] is not None}
        for i in range(1, b["argc"] + 1):
            ty = self.p.ty(b["locals"][i])
            nm = (names[i - 1] if names else None) or "a%d" % i
            args.append(self.param(st, nm, ty))
        return args

    def param(self, st, nm, ty):
        if ty[0] == "ref":
            root = ("P", nm)
            inner = ty[1]
            if inner[0] == "ref":
                st[root] = self.param(st, nm + "*", inner)
            else:
                st[root] = self.var(nm, inner)
            self.root_ty[root] = inner
            return mk("ref", (root, ()))
        return self.var(nm, ty)


class Frozen:
    __slots__ = ("d", "key")

    def __init__(self, d):
        self.d = d
        self.key = (d["n"], str(d["a"]), d["inst"]["b"] if d["inst"] else None)

    def __hash__(self):
        return hash(self.key)

    def __eq__(self, o):
        return isinstance(o, Frozen) and o.key == self.key


class Frame:
    pass


class Cfg:
    def __init__(self, b):
        self.n = len(b["blocks"])
        self.succ = []
        for k in b["blocks"]:
            t = k["t"]
            if k["u"]:
                self.succ.append([])
                continue
            if t[0] == "goto":
                s = [t[1]]
            elif t[0] == "switch":
                s = [x[1] for x in t[2]] + [t[3]]
            elif t[0] == "drop":
                s = [t[2]]
            elif t[0] == "call":
                s = [t[4]] if t[4] is not None else []
            elif t[0] == "assert":
                s = [t[5]]
            else:
                s = []
            self.succ.append(list(dict.fromkeys(s)))
        # depth first search
        seen = set()
        post = []
        state = {}
        backs = []
        stack = [(0, iter(self.succ[0]))]
        seen.add(0)
        state[0] = 1
        while stack:
            n, it = stack[-1]
            adv = False
            for s in it:
                if s not in seen:
                    seen.add(s)
                    state[s] = 1
                    stack.append((s, iter(self.succ[s])))
                    adv = True
                    break
                if state.get(s) == 1:
                    backs.append((n, s))
            if not adv:
                state[n] = 2
                post.append(n)
                stack.pop()
        self.rpo = post[::-1]
        pred = {}
        for n in seen:
            for s in self.succ[n]:
                pred.setdefault(s, []).append(n)
        self.loops = {}
        for n, h in backs:
            l = self.loops.setdefault(h, {"body": {h}})
            st = [n]
            while st:
                x = st.pop()
                if x in l["body"]:
                    continue
                l["body"].add(x)
                st.extend(pred.get(x, []))
        for h, l in self.loops.items():
            if 0 in l["body"] and h != 0:
                raise Giveup("irreducible")
        # the loop order must keep each loop body contiguous for the outer pass: collapse inner loops
        self._orders = {}

    def loop_at(self, bb):
        return bb in self.loops

    def rpo_in(self, loop):
        """topological order of the region with inner loops collapsed at their headers"""
        o = self._orders.get(loop)
        if o is not None:
            return o
        nodes = set(self.rpo) if loop is None else self.loops[loop]["body"]
        inner = {}
        for h, l in self.loops.items():
            if h != loop and h in nodes and l["body"] <= nodes and not (loop is not None and l["body"] == nodes):
                for x in l["body"]:
                    cur = inner.get(x)
                    if cur is None or len(self.loops[cur]["body"]) < len(l["body"]):
                        inner[x] = h
        entry = 0 if loop is None else loop
        rep = lambda x: inner.get(x, x)
        succ = {}
        for x in nodes:
            for s in self.succ[x]:
                if s in nodes and s != loop and rep(s) != rep(x):
                    succ.setdefault(rep(x), set()).add(rep(s))
        seen, post = set(), []

        def dfs(r):
            st = [(r, iter(sorted(succ.get(r, ()))))]
            seen.add(r)
            while st:
                n, it = st[-1]
                for s in it:
                    if s not in seen:
                        seen.add(s)
                        st.append((s, iter(sorted(succ.get(s, ())))))
                        break
                else:
                    post.append(n)
                    st.pop()
        dfs(rep(entry))
        o = post[::-1]
        self._orders[loop] = o
        return o
