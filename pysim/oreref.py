"""Independent reference for left submodules of free modules over Q(x, parameters)[D], and over Q(parameters)[x].

An element is a dict {(pos, (e1..en)): coefficient}; coefficients are elements of one of sympy's sparse fraction fields.
Nothing here is imported from the code under test."""
from sympy import QQ, ZZ
from sympy.polys.fields import field
from pyref import Budget, divides, quo, lm


class Algebra:
    """der: the variables act as derivations (and on coefficients); otherwise they commute with everything."""
    def __init__(self, names, n, der):
        self.K = field(names, ZZ)[0] if names else None
        self.gens = self.K.gens if names else ()
        self.n, self.der, self.memo = n, der, {}
    def num(self, c):
        return self.K(c)
    def of(self, expr):
        r = self.memo.get(expr)
        if r is None:
            r = self.K.from_expr(expr)
            r = self.memo[expr] = self.K.new(r.numer, r.denom)
        return r
    def mono(self, c, exps):
        r = self.K(c)
        for g, e in zip(self.gens, exps): r *= g**e
        return r
    def expr(self, c):
        return c.as_expr()
    def prolong(self, p, v):
        r = {}
        for (pos, e), c in p.items():
            if pos >= 0 or not self.der:
                f = e[:v] + (e[v] + 1,) + e[v+1:]
                self.acc(r, (pos, f), c)
            if self.der:
                d = c.diff(self.gens[v])
                if d: self.acc(r, (pos, e), d)
        return r
    def acc(self, r, m, c):
        t = r.get(m)
        t = c if t is None else t + c
        if t:
            if len(t.numer) + len(t.denom) > 60 or max(map(sum, t.numer.monoms())) > 16: raise Budget()
            r[m] = t
        else: r.pop(m, None)
    def times(self, p, e):
        for v, k in enumerate(e):
            for _ in range(k): p = self.prolong(p, v)
        return p
    def add(self, p, c, q):
        p = dict(p)
        for m, d in q.items(): self.acc(p, m, c*d)
        return p
    def nf(self, p, G, key, budget=None):
        p, r = dict(p), {}
        L = [(lm(g, key), g) for g in G]
        while p:
            m = lm(p, key)
            for l, g in L:
                if divides(l, m):
                    q = self.times(g, quo(m, l))
                    p = self.add(p, -p[m]/q[m], q)
                    if budget is not None:
                        budget[0] -= sum(len(c.numer) + len(c.denom) for c in p.values()) + 1
                        if budget[0] < 0: raise Budget()
                    break
            else:
                r[m] = p.pop(m)
        return r
    def monic(self, p, key):
        c = p[lm(p, key)]
        return {m: d/c for m, d in p.items()}
    def groebner(self, F, key, budget):
        G = [self.monic(f, key) for f in F if f]
        pairs = [(i, j) for j in range(len(G)) for i in range(j)]
        while pairs:
            pairs.sort(key=lambda ij: sum(max(x, y) for x, y in zip(lm(G[ij[0]], key)[1], lm(G[ij[1]], key)[1])))
            i, j = pairs.pop(0)
            a, b = lm(G[i], key), lm(G[j], key)
            if a[0] != b[0]: continue
            l = (a[0], tuple(max(x, y) for x, y in zip(a[1], b[1])))
            s = self.add(self.times(G[i], quo(l, a)), self.K(-1), self.times(G[j], quo(l, b)))
            s = self.nf(s, G, key, budget)
            if s:
                G.append(self.monic(s, key))
                pairs += [(i, len(G) - 1) for i in range(len(G) - 1)]
                if len(G) > 40: raise Budget()
        G.sort(key=lambda g: key(lm(g, key)))
        M = []
        for g in G:
            if not any(divides(lm(h, key), lm(g, key)) for h in M): M.append(g)
        R = []
        for i, g in enumerate(M):
            l = lm(g, key)
            t = dict(g)
            del t[l]
            t = self.nf(t, M[:i] + M[i+1:], key, budget)
            t[l] = g[l]
            R.append(t)
        return R
    def content(self, p):
        """the coefficients as polynomials over Z, or None if one is a fraction; and their common divisor"""
        g = None
        for c in p.values():
            if c.denom != 1: return None
            g = c.numer if g is None else g.gcd(c.numer)
        return g
