"""Chains of edges modulo degenerate triangles.

An edge list is a formal sum of ordered pairs of points, [u,v] = -[v,u], [u,u] = 0.  Two sums describe the
same set of edges up to splitting and joining of collinear pieces when their difference is a sum of
triangles with collinear corners.  Which points coincide or are collinear is known from the gates passed:
equal coordinates, vanishing or non-vanishing orientation determinants, and their consequences."""
import itertools
import vals as V
import compare
from fractions import Fraction


class Stuck(Exception):
    pass


def paths(nodes, cond=V.T, axioms=(), budget=60000):
    """feasible gate combinations that decide every node and make `cond` true:
    yields (literals, leaf nodes).  `nodes` may be lists of (guard, node): node is decided only where guard is true"""
    left = [budget]
    l0 = compare.Lin()
    for a in axioms:
        if len(a) == 2:
            l0.add(dict(a[0].a), a[1])

    def go(c, ns, lin, lits):
        left[0] -= 1
        if left[0] < 0:
            raise Stuck("too many gate combinations")
        if c is V.F or c.k == "undef":
            return
        at = None
        for n in [c] if c is not V.T else []:
            if n.k == "ite":
                at = n.a[0]
        if at is None:
            for g, n in ns:
                if g.k == "ite":
                    if at is None or g.a[0].ord < at.ord:
                        at = g.a[0]
        if at is None:
            for g, n in ns:
                if g is V.T and n.k == "ite" and (at is None or n.a[0].ord < at.ord):
                    at = n.a[0]
        if at is None:
            yield lits, lin, ns
            return
        for i in range(at.arity):
            l2 = compare.gate(lin, at, i)
            if l2 is not lin and not l2.feasible():
                continue
            yield from go(V.kid(c, at, i) if c.k == "ite" else c,
                          [(cof1(g, at, i), cof1(n, at, i)) for g, n in ns], l2, lits + [(at, i)])
    yield from go(cond, [(g, n) for g, n in nodes], l0, [])


_memo = {}


def cof1(n, at, i):
    """n under the assumption that gate `at` takes value i"""
    if n.k != "ite":
        return n
    key = (n.id, at.ord, i)
    r = _memo.get(key)
    if r is None:
        a = n.a[0]
        if a.ord == at.ord:
            r = n.a[1 + i]
        elif a.ord > at.ord:
            r = n
        else:
            r = V.ite_node(a, [cof1(k, at, i) for k in n.a[1:]])
        _memo[key] = r
    return r


class Facts:
    """what is known about points (pairs of polynomials) on one path"""

    def __init__(self, points, lits, lin):
        self.pts = list(dict.fromkeys(points))
        self.lin = lin
        n = len(self.pts)
        self.rep = list(range(n))
        for i in range(n):
            for j in range(i):
                if self.rep[j] == j and self.same(self.pts[i], self.pts[j]):
                    self.rep[i] = j
                    break
        self.ix = {p: self.rep[i] for i, p in enumerate(self.pts)}
        zero, non = set(), set()
        for at, i in lits:
            if at.key[0] == "sgn":
                q = V._nodes[at.key[1]]
                for x in (q, V.neg(q)):
                    (zero if i == 1 else non).add(x.id)
        self.col, self.free, self.apart = set(), set(), set()
        self.contradiction = False
        for a, b in itertools.combinations(range(n), 2):
            dx = V.sub(self.pts[a][0], self.pts[b][0])
            dy = V.sub(self.pts[a][1], self.pts[b][1])
            if any(d.id in non or (V.pconst(d) or 0) != 0 for d in (dx, dy)):
                self.apart.add(frozenset((self.rep[a], self.rep[b])))
        for t in itertools.combinations(range(n), 3):
            P = [self.pts[k] for k in t]
            c = cross(*P)
            r = frozenset(self.rep[k] for k in t)
            if len(r) < 3:
                self.contradiction |= c.id in non
                continue
            if V.pconst(c) == 0 or c.id in zero:
                self.col.add(r)
            elif c.id in non:
                self.free.add(r)
        for t in self.free:
            for a, b in itertools.combinations(t, 2):
                self.apart.add(frozenset((a, b)))
        while True:
            more = set()
            for s, t in itertools.combinations(self.col, 2):
                common = s & t
                if len(common) == 2 and frozenset(common) in self.apart:
                    all4 = s | t
                    for x in itertools.combinations(all4, 3):
                        f = frozenset(x)
                        if f not in self.col:
                            more.add(f)
            if not more:
                break
            self.col |= more
        if self.col & self.free:
            self.contradiction = True

    def same(self, p, q):
        for a, b in zip(p, q):
            d = V.sub(a, b)
            if d.k != "p":
                return False
            r = self.lin.reduce({m: Fraction(c) for m, c in d.a})
            if any(r.values()):
                return False
        return True

    def flat(self, a, b, c):
        s = frozenset((self.ix[a], self.ix[b], self.ix[c]))
        return len(s) < 3 or s in self.col

    def distinct(self, a, b):
        return frozenset((self.ix[a], self.ix[b])) in self.apart

    def net(self, edges):
        """edges: [(u, v, multiplicity)] -> {(i, j): multiplicity}, i < j"""
        out = {}
        for u, v, k in edges:
            i, j = self.ix[u], self.ix[v]
            if i == j:
                continue
            if i > j:
                i, j, k = j, i, -k
            out[(i, j)] = out.get((i, j), 0) + k
        return {e: k for e, k in out.items() if k}

    def vanishes(self, edges):
        """None if the sum is a sum of flat triangles, else a description"""
        net = self.net(edges)
        if not net:
            return None
        bd = {}
        for (i, j), k in net.items():
            bd[j] = bd.get(j, 0) + k
            bd[i] = bd.get(i, 0) - k
        if any(bd.values()):
            return "the chain is open at " + ", ".join(self.show(i) for i, k in bd.items() if k)
        inner = set(x for e in net for x in e)
        for o in sorted(inner | set(self.rep)):
            if all(o in e or frozenset((o,) + e) in self.col for e in net):
                return None
        return "the chain differs by a triangle: " + " ".join(f"{k:+d}[{self.show(i)},{self.show(j)}]" for (i, j), k in net.items())

    def show(self, i):
        return "(" + ",".join(V.show(c)[:60] for c in self.pts[i]) + ")"


def cross(a, b, c):
    return V.sub(V.mul(V.sub(b[0], a[0]), V.sub(c[1], a[1])), V.mul(V.sub(b[1], a[1]), V.sub(c[0], a[0])))
