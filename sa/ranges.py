"""Intervals of integer values, kept beside the exact values of the interpreter.

Every addition, subtraction, multiplication, negation, shift and narrowing that is interpreted is recorded
with the interval of its result and the range of its type; the interval of a value is the smallest one met
on the way it was computed (so a product of differences is bounded as such, not term by term)."""
import compare
import seqs
import vals as V
from vals import pconst

BITS = {"i8": 8, "i16": 16, "i32": 32, "i64": 64, "i128": 128, "isize": 64, "u8": 8, "u16": 16, "u32": 32, "u64": 64, "u128": 128, "usize": 64}


def type_range(t):
    b = BITS[t]
    return (-(1 << (b - 1)), (1 << (b - 1)) - 1) if t[0] == "i" else (0, (1 << b) - 1)


def meet(a, b):
    return (max(a[0], b[0]), min(a[1], b[1]))


def times(a, b):
    xs = [p * q for p in a for q in b]
    return (min(xs), max(xs))


class Ranges:
    def __init__(self, coordinate):
        self.coord = coordinate      # bound of the magnitude of a 32 bit input
        self.known = {}              # value -> interval
        self.products = {}           # product -> its factors
        self.under = {}              # value -> values it does not exceed

    def fact(self, v, lo, hi):
        self.known[v] = meet(self.known.get(v, (lo, hi)), (lo, hi))

    def of(self, v, ty=None):
        if v.k == "ite":
            rs = [self.of(l, ty) for l in V.leafset(v) if l.k != "undef"]
            r = (min(x[0] for x in rs), max(x[1] for x in rs)) if rs else (0, 0)
        elif v.k == "p":
            r = self.poly(v)
        elif v.k in ("T", "F", "undef"):
            r = (0, 1)
        else:
            r = self.atom(v)
        return meet(r, self.known[v]) if v in self.known else r

    def poly(self, p):
        lo = hi = 0
        for m, c in p.a:
            r = (c, c)
            seen = {}
            for t in m:
                seen[t] = seen.get(t, 0) + 1
            for t, e in seen.items():
                a = self.atom(V.node(t))
                x = (1, 1)
                for _ in range(e):
                    x = times(x, a)
                if e % 2 == 0:
                    x = (max(0, x[0]), x[1])
                r = times(r, x)
            lo, hi = lo + r[0], hi + r[1]
        return (lo, hi)

    def atom(self, n):
        pv = V.pvar(n)
        if pv in self.known:
            return self.known[pv]
        t = n.ty[1] if n.ty and n.ty[0] == "int" else None
        full = type_range(t) if t in BITS else (-(1 << 127), (1 << 127) - 1)
        if n.k == "app":
            op = n.a[0]
            if op in ("sgn", "signum"):
                return (-1, 1)
            if op == "abs":
                x = self.of(n.a[1])
                lo = 0 if x[0] <= 0 <= x[1] else min(abs(x[0]), abs(x[1]))
                return (lo, max(abs(x[0]), abs(x[1])))
            if op == "ilog2":
                x = self.of(n.a[1])
                return (max(1, x[0]).bit_length() - 1, max(1, min(x[1], (1 << 64) - 1)).bit_length() - 1)
            if str(op).startswith("leading_zeros:"):
                b = int(op.split(":")[1])
                x = self.of(n.a[1])
                return (0, b) if x[0] < 0 else (b - min(x[1], (1 << b) - 1).bit_length(), b - x[0].bit_length())
            if str(op).split(":")[0] in ("trailing_zeros", "count_ones"):
                return (0, 64)
            if op == "idiv":
                x = self.of(n.a[1])
                m = max(abs(x[0]), abs(x[1]))
                return (0 if x[0] >= 0 else -m, 0 if x[1] <= 0 else m)
            if op in ("shr", "floordiv"):
                x = self.of(n.a[1])
                return (min(x[0], 0), max(x[1], 0))
            if op == "and":
                xs = [self.of(a) for a in n.a[1:]]
                if any(x[0] >= 0 for x in xs):
                    return (0, min(x[1] for x in xs if x[0] >= 0))
            if op == "bounded":
                return (n.a[2] if n.a[2] is not None else full[0], n.a[3] if n.a[3] is not None else full[1])
            if op == "rounded_div":
                return (0, 2 * self.coord)
            if op == "pow2":
                x = self.of(n.a[1])
                return (1 << max(0, min(127, x[0])), 1 << max(0, min(127, x[1])))
            if op == "len":
                return (0, (1 << 62) - 1)
        if n.k == "sgn":
            return (-1, 1)
        if t == "i32" and not (n.k == "v" and isinstance(n.a[0], tuple)):
            return (-self.coord, self.coord)
        return full

    def op(self, op, ty, a, b, r, I, line):
        if ty is None or ty[0] != "int" or ty[1] not in BITS:
            return
        ra = self.of(a)
        rb = self.of(b) if b is not None else None
        if op == "Add":
            x = (ra[0] + rb[0], ra[1] + rb[1])
        elif op == "Sub":
            x = (ra[0] - rb[1], ra[1] - rb[0])
        elif op == "Mul":
            x = times(ra, rb)
            if a is b:
                x = (max(0, x[0]), x[1])
        elif op == "Neg":
            x = (-ra[1], -ra[0])
        elif op == "Shl":
            x = times(ra, (1, 1 << max(0, min(64, rb[1]))))
        else:
            x = ra
        lo, hi = type_range(ty[1])
        if op == "Mul":
            self.products.setdefault(r, set()).update([(a, b), (b, a)])
        if op == "Shl":
            x = meet(x, self.scaled(a, b))
            self.products.setdefault(r, set()).add((a, ("pow2", b)))
        x = meet(x, self.of(r)) if r.k in ("p", "ite") else x
        if lo <= x[0] and x[1] <= hi:
            self.fact(r, *x)
        elif op != "cast":
            self.fact(r, lo, hi)
        I.event("op", (op, ty[1], x, r, a, b), line)

    def scaled(self, a, e):
        """a * 2^(c - ilog2(X)): less than 2^(c + 1) / w where X = a * w or, with w = 1, where a <= X"""
        unknown, best = (0, 1 << 127), 0
        for cond, l in seqs.leaves(e):
            if l.k == "undef":
                continue
            d = dict(l.a)
            c = d.pop((), 0)
            if len(d) != 1:
                return unknown
            (m, k), = d.items()
            t = V.node(m[0])
            if t.k == "app" and str(t.a[0]).startswith("leading_zeros:") and k == 1 and len(m) == 1:
                c += int(t.a[0].split(":")[1]) - 1       # leading zeros of a positive number: bits - 1 - ilog2
            elif k != -1 or len(m) != 1 or t.k != "app" or t.a[0] != "ilog2":
                return unknown
            ws = [w for X, ps in self.products.items() for y, w in ps if y is a and t.a[1] in V.leafset(X)]
            lows = [self.of(w)[0] for w in ws]
            if compare.implies(cond, V.le(a, t.a[1])) is None:
                lows.append(1)
            lows = [w for w in lows if w > 0]
            if not lows:
                return unknown
            best = max(best, -((-1 << (c + 1)) // max(lows)) - 1)
        return (0, best)
