"""Independent reference for polynomial submodules over Q.

A polynomial is a dict {(pos, (e1..en)): Fraction}.  pos is -1 for the ring
itself.  Nothing here is imported from the code under test.
"""
from fractions import Fraction
from math import gcd


class Budget(Exception):
    pass


def _lexkey(e):
    return e


def _deglexkey(e):
    # degree reverse lexicographic: bigger degree first, then the smaller last exponent
    return (sum(e), tuple(-x for x in reversed(e)))


def key(order):
    """order in {'TOPlex','TOPdeglex','POTlex','POTdeglex'}; greater key = greater monomial.
    Components: 0 > 1 > 2 > ... > -1."""
    base = _lexkey if order.endswith("deglex") is False else _deglexkey
    def posk(p):
        return -10**9 if p < 0 else -p
    if order.startswith("TOP"):
        return lambda m: (base(m[1]), posk(m[0]))
    return lambda m: (posk(m[0]), base(m[1]))


def clean(p):
    return {m: Fraction(c) for m, c in p.items() if c}


def lm(p, k):
    return max(p, key=k)


def divides(a, b):
    return a[0] == b[0] and all(x <= y for x, y in zip(a[1], b[1]))


def quo(b, a):
    return tuple(y - x for x, y in zip(a[1], b[1]))


def addmul(p, c, e, q):
    """p += c * x^e * q, in place"""
    for (pos, f), d in q.items():
        m = (pos, tuple(x + y for x, y in zip(e, f)))
        v = p.get(m, 0) + c * d
        if v:
            p[m] = v
        else:
            p.pop(m, None)
    return p


def nf(p, G, k, budget=None, full=True):
    p = dict(p)
    r = {}
    leads = [(lm(g, k), g) for g in G]
    while p:
        m = lm(p, k)
        for l, g in leads:
            if divides(l, m):
                addmul(p, -p[m] / g[l], quo(m, l), g)
                if budget is not None:
                    budget[0] -= len(g) + len(p)
                    if budget[0] < 0:
                        raise Budget()
                break
        else:
            r[m] = p.pop(m)
            if not full:
                r.update(p)
                return r
    return r


def monic(p, k):
    c = p[lm(p, k)]
    return {m: v / c for m, v in p.items()}


def groebner(F, k, budget=None):
    """Reduced Groebner basis, by Buchberger with the chain/product shortcuts left out."""
    G = []
    for f in F:
        f = clean(f)
        if f:
            G.append(monic(f, k))
    pairs = [(i, j) for j in range(len(G)) for i in range(j)]
    while pairs:
        def pk(ij):
            a, b = lm(G[ij[0]], k), lm(G[ij[1]], k)
            return sum(max(x, y) for x, y in zip(a[1], b[1]))
        pairs.sort(key=pk)
        i, j = pairs.pop(0)
        a, b = lm(G[i], k), lm(G[j], k)
        if a[0] != b[0]:
            continue
        l = tuple(max(x, y) for x, y in zip(a[1], b[1]))
        s = {}
        addmul(s, Fraction(1), quo((0, l), a), G[i])
        addmul(s, Fraction(-1), quo((0, l), b), G[j])
        s = nf(s, G, k, budget)
        if s:
            G.append(monic(s, k))
            n = len(G) - 1
            pairs += [(i, n) for i in range(n)]
            if len(G) > 120:
                raise Budget()
    # minimal, then reduced
    G.sort(key=lambda g: k(lm(g, k)))
    M = []
    for g in G:
        if not any(divides(lm(h, k), lm(g, k)) for h in M):
            M.append(g)
    R = []
    for i, g in enumerate(M):
        l = lm(g, k)
        t = dict(g)
        del t[l]
        t = nf(t, M[:i] + M[i+1:], k)
        t[l] = g[l]
        R.append(monic(t, k))
    return R


def janet_nm(U, u, v):
    """v is not multiplicative for u in U (Janet division, x1 first)"""
    return any(w[0] == u[0] and w[1][:v] == u[1][:v] and w[1][v] > u[1][v] for w in U)


def janet_divisors(U, m):
    r = []
    for u in U:
        if divides(u, m) and all(m[1][v] == u[1][v] or not janet_nm(U, u, v) for v in range(len(m[1]))):
            r.append(u)
    return r


def janet_complete(U):
    for u in U:
        for v in range(len(u[1])):
            if janet_nm(U, u, v):
                e = list(u[1])
                e[v] += 1
                if not janet_divisors(U, (u[0], tuple(e))):
                    return False
    return True


def staircase_count(leads, pos, n, d):
    """number of monomials of component pos, degree <= d, divisible by no lead"""
    def gen(v, left, e):
        if v == n:
            yield tuple(e)
            return
        for x in range(left + 1):
            yield from gen(v + 1, left - x, e + [x])
    c = 0
    for e in gen(0, d, []):
        if not any(divides(l, (pos, e)) for l in leads):
            c += 1
    return c
