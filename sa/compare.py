"""Equality of gated values up to infeasible gate combinations.

`difference(a, b, care)` returns None when the two values agree on every feasible gate combination
inside `care`, otherwise a readable witness: the gates that select the disagreement and both values.
Feasibility of a set of sign gates is decided by exact Fourier-Motzkin elimination over monomials;
it is only used to discard combinations that no input can produce (e.g. x<0 and x>1).
"""
import os
import vals as V
from fractions import Fraction

CAP = 600


class Lin:
    """conjunction of linear constraints over monomials"""

    def __init__(self):
        self.eqs = []   # dict
        self.ges = []   # (dict, strict)
        self.dead = False
        self.odds = []  # parity equations: (set of monomials, bit)

    def parity(self, d, bit):
        """sum of the monomials with odd coefficient has this parity"""
        ms = set()
        for m, c in d.items():
            if c % 2:
                if m == ():
                    bit ^= 1
                else:
                    ms.add(m)
        for p, qs, b in self.odds:
            if p in ms:
                ms ^= qs
                bit ^= b
        if not ms:
            if bit:
                self.dead = True
            return
        p = max(ms)
        self.odds = [(q, x ^ ms, b ^ bit) if p in x else (q, x, b) for q, x, b in self.odds] + [(p, ms, bit)]

    def copy(self):
        n = Lin()
        n.eqs, n.ges, n.dead, n.odds = list(self.eqs), list(self.ges), self.dead, self.odds
        return n

    def reduce(self, d):
        d = dict(d)
        for pivot, e in self.eqs:
            c = d.get(pivot)
            if c:
                for m, k in e.items():
                    d[m] = d.get(m, 0) - c * k
                    if d[m] == 0:
                        del d[m]
        return d

    def add(self, d, rel):
        """rel: 'eq','gt','ge' : poly rel 0"""
        if self.dead:
            return
        d = {m: Fraction(c) for m, c in d.items() if c != 0}
        if rel == "eq":
            d = self.reduce(d)
            ms = [m for m in d if m != ()]
            if not ms:
                if d.get((), 0) != 0:
                    self.dead = True
                return
            pv = max(ms, key=lambda m: (len(m), m))
            c = d[pv]
            e = {m: k / c for m, k in d.items()}
            neweqs = []
            for p2, e2 in self.eqs:
                k = e2.get(pv)
                if k:
                    e2 = dict(e2)
                    for m, q in e.items():
                        e2[m] = e2.get(m, 0) - k * q
                        if e2[m] == 0:
                            del e2[m]
                neweqs.append((p2, e2))
            self.eqs = neweqs + [(pv, e)]
            old, self.ges = self.ges, []
            for g, s in old:
                self._ge(self.reduce(g), s)
        else:
            if rel == "gt" and is_int(d):
                d = dict(d)
                d[()] = d.get((), 0) - 1
                rel = "ge"
            self._ge(self.reduce(d), rel == "gt")

    def _ge(self, d, strict):
        ms = [m for m in d if m != ()]
        k = d.get((), Fraction(0))
        if not ms:
            if k < 0 or (strict and k == 0):
                self.dead = True
            return
        self.ges.append((d, strict))

    def feasible(self):
        if self.dead:
            return False
        cons = []
        seen = set()
        for g, s in self.ges:
            key = (frozenset(g.items()), s)
            if key not in seen:
                seen.add(key)
                cons.append((g, s))
        # sign knowledge of monomials
        ms = set()
        for g, _ in cons:
            ms |= {m for m in g if m != ()}
        for m in ms:
            if V.mono_nonneg(m):
                low = 1
                for t in m:
                    l = V.term_bounds(V._nodes[t])[0]
                    low *= l if l is not None and l > 0 else 0
                cons.append(({m: Fraction(1), (): Fraction(-low)} if low else {m: Fraction(1)}, False))
            if len(m) == 1:
                lo, hi = V.term_bounds(V._nodes[m[0]])
                if lo:
                    cons.append(({m: Fraction(1), (): Fraction(-lo)}, False))
                if hi is not None:
                    cons.append(({m: Fraction(-1), (): Fraction(hi)}, False))
        for pv, e in self.eqs:
            # pivot = -(rest): knowledge about the pivot monomial
            lo = 0 if V.mono_nonneg(pv) else None
            hi = None
            if len(pv) == 1:
                l2, hi = V.term_bounds(V._nodes[pv[0]])
                lo = l2 if l2 is not None else lo
            rest = {m: -k for m, k in e.items() if m != pv}
            if lo is not None:
                r = dict(rest)
                r[()] = r.get((), 0) - lo
                cons.append((r, False))
            if hi is not None:
                r = {m: -k for m, k in rest.items()}
                r[()] = r.get((), 0) + hi
                cons.append((r, False))
        return fm(cons)


def is_int(d):
    for m, c in d.items():
        if Fraction(c).denominator != 1:
            return False
        for i in m:
            t = V._nodes[i].ty
            if t is None or t[0] != "int":
                return False
    return True


def fm(cons):
    """True unless the constraints are shown contradictory"""
    cur = []
    for g, s in cons:
        g = {m: c for m, c in g.items() if c != 0}
        cur.append((g, s))
    while True:
        nxt, vars_ = [], {}
        for g, s in cur:
            ms = [m for m in g if m != ()]
            if not ms:
                k = g.get((), 0)
                if k < 0 or (s and k == 0):
                    return False
                continue
            nxt.append((g, s))
            for m in ms:
                p = vars_.setdefault(m, [0, 0])
                p[0 if g[m] > 0 else 1] += 1
        cur = nxt
        if not cur:
            return True
        m = min(vars_, key=lambda m: vars_[m][0] * vars_[m][1] - vars_[m][0] - vars_[m][1])
        pos = [(g, s) for g, s in cur if g.get(m, 0) > 0]
        neg = [(g, s) for g, s in cur if g.get(m, 0) < 0]
        rest = [(g, s) for g, s in cur if not g.get(m, 0)]
        new, seen = [], set()
        for g, s in rest:
            seen.add((frozenset(g.items()), s))
        for g, s in pos:
            for h, t in neg:
                a, b = -h[m], g[m]
                d = {}
                for x, c in g.items():
                    d[x] = d.get(x, 0) + a * c
                for x, c in h.items():
                    d[x] = d.get(x, 0) + b * c
                d = {x: c for x, c in d.items() if c != 0}
                ks = [abs(c) for x, c in d.items() if x != ()]
                if ks:
                    sc = ks[0]
                    d = {x: c / sc for x, c in d.items()}
                key = (frozenset(d.items()), s or t)
                if key not in seen:
                    seen.add(key)
                    new.append((d, s or t))
        cur = rest + new
        if len(cur) > CAP:
            return True


def gate(lin, at, i):
    k = at.key
    if k[0] == "b":
        t = V._nodes[k[1]]
        if t.k == "app" and t.a[0] == "odd":
            n = lin.copy()
            n.parity({m: int(c) for m, c in t.a[1].a}, 1 - i)
            return n
    if k[0] != "sgn":
        return lin
    p = V._nodes[k[1]]
    n = lin.copy()
    d = dict(p.a)
    if i == 1:
        if all(Fraction(c).denominator == 1 for c in d.values()):
            n.parity({m: int(c) for m, c in d.items()}, 0)
        n.add(d, "eq")
    elif i == 2:
        n.add(d, "gt")
    else:
        n.add({m: -c for m, c in d.items()}, "gt")
    return n


class Budget(Exception):
    pass


def witness(cond, target=None, budget=4000, axioms=()):
    """a feasible gate combination under which the boolean diagram `cond` is true, or None"""
    left = [budget]
    guarded = [a for a in axioms if len(a) == 3]

    def still(lin):
        """feasible with the facts whose guard (poly >= 0) the path implies"""
        if not guarded:
            return True
        l2 = lin.copy()
        for p, rel, g in guarded:
            l3 = lin.copy()
            l3.add({m: -c for m, c in g.a}, "gt")
            if not l3.feasible():
                l2.add(dict(p.a), rel)
        return l2.feasible()

    def go(n, lin, path, had):
        if n is V.F or n.k == "undef":
            return None
        if n is V.T:
            return path if still(lin) else None
        if n.k != "ite":
            return path
        at = n.a[0]
        for i, k in enumerate(n.a[1:]):
            if k is V.F or k.k == "undef":
                continue
            left[0] -= 1
            if left[0] < 0:
                raise Budget()
            l2 = gate(lin, at, i)
            if l2 is not lin and not l2.feasible():
                continue
            r = go(k, l2, path + [(at, i)], True)
            if r is not None:
                return r
        return None
    l0 = Lin()
    for a in axioms:
        if len(a) == 2:
            l0.add(dict(a[0].a), a[1])
    return go(cond, l0, [], False)


def difference(a, b, care=V.T, where="", axioms=()):
    if a is b:
        return None
    if a.k in ("struct", "enum") or b.k in ("struct", "enum"):
        if a.k not in ("struct", "enum"):
            a = V.expand_like(a, b)
        if b.k not in ("struct", "enum"):
            b = V.expand_like(b, a)
    if a.k == "struct" and b.k == "struct":
        if len(a.a) != len(b.a):
            return f"{where}: shapes differ: {V.show(a)[:300]} / {V.show(b)[:300]}"
        for i, (x, y) in enumerate(zip(a.a[1:], b.a[1:])):
            r = difference(x, y, care, f"{where}.{i}", axioms)
            if r:
                return r
        return None
    if a.k == "enum" and b.k == "enum":
        r = difference(a.a[1], b.a[1], care, where + ".tag", axioms)
        if r:
            return r
        for i, (x, y) in enumerate(zip(a.a[2:], b.a[2:])):
            if not x or not y:
                continue
            c = V.b_and(care, V.eq(a.a[1], V.num(i)))
            if c is V.F:
                continue
            for j, (p, q) in enumerate(zip(x, y)):
                r = difference(p, q, c, f"{where}.{i}.{j}", axioms)
                if r:
                    return r
        return None
    if a.k in ("struct", "enum") or b.k in ("struct", "enum"):
        return f"{where}: shapes differ: {V.show(a)[:300]} / {V.show(b)[:300]}"
    # scalar diagrams
    boolean = all(x in (V.T, V.F) for x in V.leafset(a) + V.leafset(b) if x.k != "undef")
    if boolean:
        d = V.ite(a, V.b_not(b), b)
    else:
        d = V.apply_r("differs", _leafdiff, a, b)
    d = V.b_and(care, d)
    if d is V.F:
        return None
    try:
        w = witness(d, axioms=axioms)
    except Budget:
        return f"{where}: undecided (gate budget exceeded)"
    if w is None:
        return None
    return f"{where}: when {show_path(w)}: got {V.show(cof(a, w))[:400]}, expected {V.show(cof(b, w))[:400]}"


def _leafdiff(x, y):
    if x is y:
        return V.F
    if x.k == "undef" or y.k == "undef":
        return V.UNDEF
    if x.k in ("p", "c") or y.k in ("p", "c"):
        try:
            return V._cmp_leaf("ne")(x, y)
        except Exception:
            return V.T
    return V.T


def cof(n, path):
    d = {at: i for at, i in path}
    while n.k == "ite":
        n = n.a[1 + d[n.a[0]]] if n.a[0] in d else n.a[1]
    return n


def show_path(path):
    out = []
    for at, i in path:
        k = at.key
        if k[0] == "sgn":
            out.append(f"{V.show(V._nodes[k[1]])} {'<=>'[i]} 0")
        elif k[0] == "b":
            out.append(("" if i == 0 else "not ") + V.show(V._nodes[k[1]]))
        elif k[0] == "dom":
            out.append(f"{k[1]} = {at.labels[i]}")
        else:
            out.append(f"{V.show_atom(at)} is {i}")
    return ", ".join(out)[:int(os.environ.get("SA_WIDE", 900))]


def implies(a, b, axioms=()):
    """None if a implies b, else a witness"""
    d = V.b_and(a, V.b_not(b))
    if d is V.F:
        return None
    try:
        w = witness(d, axioms=axioms)
    except Budget:
        return "undecided (gate budget exceeded)"
    return None if w is None else show_path(w)


def possible(c, axioms=()):
    if c is V.F:
        return None
    try:
        w = witness(c, axioms=axioms)
    except Budget:
        return "undecided (gate budget exceeded)"
    return None if w is None else show_path(w)
