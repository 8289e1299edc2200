"""Simulated clients of the Cython module: pools of integers, monomials, polynomials, bases and views in one interpreter, with
owners dropped, the collector run and freed memory reused at any moment, and the library's heap, compaction, clock and entropy
decided by the seed (cyseams.cpp).  P23: views keep their values.  P24: everything computed is what the algebra defines."""
import ctypes, gc, os, sys
from fractions import Fraction
from math import factorial
import psim, pyref

SRC = os.environ.get("SIM_CYMOD", "")
FAULTS = ["compaction_forced", "compaction_suppressed", "garbage_in_new_memory", "clock_stall", "clock_jump", "entropy_drawn", "entropy_constant", "collected", "owner_dropped", "owner_changed",
          "memory_reused", "refused_call"]
PLAIN = {"gc": "3", "gcp": "0", "garbage": "0", "clock": "0", "entropy": "0"}
G = L = None
ORDERS = [("TOP", "lex"), ("TOP", "deglex"), ("POT", "lex"), ("POT", "deglex"), ("TOP", "alex"), ("POT", "alex")]


def boot():
    global G, L
    sys.path.insert(0, SRC)
    import ginv
    G = ginv
    L = ctypes.CDLL(os.path.join(SRC, "ginv.so"))
    L.cy_env.argtypes = [ctypes.c_long]*5 + [ctypes.c_uint64]
    L.cy_step.argtypes = [ctypes.c_uint64]
    L.cy_pass.argtypes = [ctypes.c_long]*3
    L.cy_live.restype = ctypes.c_uint64


def clock():
    c = (ctypes.c_long*4)()
    L.cy_clock(c)
    return [c[i]/float(c[3]) for i in range(3)], float(c[3])


def machine_for(prop, r):
    return "cython"


def order_key(o):
    pt, ord_ = o
    base = {"lex": lambda e: e, "deglex": lambda e: (sum(e), tuple(-x for x in reversed(e))), "alex": lambda e: (-sum(e), e)}[ord_]
    if pt == "TOP": return lambda m: (base(m[1]), m[0])
    return lambda m: (m[0], base(m[1]))


def text(p):
    return ";".join("%d:%d:%s" % (c, m[0], ",".join(map(str, m[1]))) for m, c in p.items()) or "0"


def parse(t, n):
    p = {}
    if t != "0":
        for x in t.split(";"):
            c, pos, e = x.split(":")
            e = (tuple(min(9, max(0, int(v))) for v in e.split(",")) + (0,)*n)[:n]
            m = (max(-1, int(pos)), e)
            p[m] = p.get(m, 0) + int(c)
    return {m: c for m, c in p.items() if c}


# ------------------------------------------------------------------ generation
def draw(r, n, comps, terms, deg, big):
    t = {}
    for _ in range(r.num(1, terms)):
        e = [0]*n
        for _ in range(r.num(0 if r.p(20) else 1, deg)): e[r.num(0, n - 1)] += 1
        c = r.pick([-4, -3, -2, -1, 1, 1, 2, 3, 5, 7])
        if big and r.p(30): c *= r.getrandbits(r.pick([20, 63, 64, 65, 130, 300])) + 1
        t[(r.num(0, comps - 1) if comps else -1, tuple(e))] = c
    return t


def konst(r):
    x = r.num(0, 9)
    v = 0 if x == 0 else r.num(1, 20) if x < 6 else r.pick([2**31 - 1, 2**31, 2**32, 2**63 - 1, 2**63, 2**64, 2**64 - 1, 2**128]) if x < 8 else r.getrandbits(r.num(1, 250))
    return -v if r.p(50) else v


def gen(prop, r, s):
    s.cfg.update(gc=r.pick([0, 1, 2, 2, 2, 3]), gcp=r.pick([5, 30, 70]), garbage=r.num(0, 2), clock=r.num(0, 2), entropy=r.pick([0, 0, 0, 1, 2]))
    n = r.pick([1, 2, 2, 2, 3, 3, 3, 4, 4])
    gb = r.p(60)
    if not gb and r.p(10): n = r.num(5, 12)
    top = 3 if gb or r.p(85) else 40
    o = r.num(0, 3) if gb else r.num(0, 5)
    comps = 0 if r.p(60) else r.num(1, 3)
    s.add("space", n, o)
    deg = 3 if n < 4 and o in (1, 3) else 2
    k = r.num(2, 5)
    for i in range(k):
        s.add("poly", i, text(draw(r, n, comps if r.p(75) else 0, 3 if gb else 5, deg if gb else 5, not gb and r.p(50))))
        s.add("mono", i, r.num(0, comps) - 1, ",".join(str(r.num(0, top)) for _ in range(n)))
    if gb:
        nb = r.num(1, 2)
        for b in range(nb):
            s.add("basis", b)
            for i in range(k):
                if r.p(80): s.add("push", b, i)
            s.add("build", b)
    ops = []
    for _ in range(r.num(10, 40)):
        view = r.p(60 if prop == "P23" else 30)
        a, b, c = r.num(0, 5), r.num(0, 5), r.num(0, 5)
        if view:
            op = r.pick(["terms", "lm", "lc", "iter", "step", "step", "wraps", "wrapiter", "wrap", "find", "janet", "timer", "sub", "sub", "forget", "dropp", "dropp", "dropb", "dropm", "collect", "reuse", "allviews"])
            if op in ("iter", "wrapiter", "step"): c %= 2
            if op in ("wraps", "wrapiter", "wrap", "find", "janet", "timer", "dropb", "allviews") and r.p(70): a %= 2
            s.add(op, a, b, c)
        else:
            op = r.pick(["redmk", "add", "sub_", "mul", "neg", "addi", "subi", "muli", "pow", "reduce", "pp", "queries", "order", "intops", "poly", "mono", "mmul", "mdiv", "mpow", "mcmp", "perm", "setpos", "rand",
                         "view+", "chain", "limit", "timerop", "refuse"] + (["push", "build", "build", "nf", "nfmk", "nfmk", "basis", "find", "hp", "hp"] if gb else []))
            if op == "poly": s.add(op, c, text(draw(r, n, comps if r.p(75) else 0, 3 if gb else 5, deg if gb else 5, not gb and r.p(50))))
            elif op == "mono": s.add(op, c, r.num(0, comps) - 1, ",".join(str(r.num(0, top)) for _ in range(n)))
            elif op in ("addi", "subi", "muli"): s.add(op, a, konst(r), c)
            elif op in ("push", "build", "nf", "nfmk", "hp", "basis"): s.add(op, r.num(0, 1), b, c)
            else: s.add(op, a, b, c)


# ------------------------------------------------------------------ reading
def mon(m):
    return (m.pos(), tuple(m))


def integer(c):
    v = int(str(c))
    if int(repr(c), 16) != v: raise psim.Violation("value", "an integer reads %s in decimal and %r in hexadecimal" % (c, c))
    return v


def terms(p):
    return [(mon(m), integer(c)) for m, c in p]


def limbs(v):
    return (abs(v).bit_length() + 63)//64


def show(v, key):
    return text({m: v[m] for m in sorted(v, key=key, reverse=True)})


class O:
    def __init__(self, **k): self.__dict__.update(k)


def run(ctx, sc):
    if not ctx.verbose:
        f = os.open("/dev/null", os.O_WRONLY)
        os.dup2(f, 1)
    L.cy_env(sc.num("gc", 3), sc.num("gcp", 0), sc.num("garbage"), sc.num("clock"), sc.num("entropy"), sc.seed)
    start = G.allocator.currMemory()
    try:
        simulate(ctx, sc)
    finally:
        st = (ctypes.c_uint64*12)()
        L.cy_stat(st)
        for k, i in (("compaction_forced", 0), ("compaction_suppressed", 1), ("garbage_in_new_memory", 2), ("clock_stall", 3), ("clock_jump", 4), ("entropy_drawn", 5), ("entropy_constant", 6)):
            if st[i]: ctx.fault(k, st[i])
        ctx.requests += st[7]
        ctx.shape(str(st[8]))
        ctx.ticks += st[9]/clock()[1]
    gc.collect()
    ctx.step = None
    if G.allocator.currMemory() != start:
        ctx.fail("leak", "after everything was dropped %d bytes of arena memory stay in use instead of %d" % (G.allocator.currMemory(), start))


def simulate(ctx, sc):
    prop = sc.prop
    n, order, key = 2, ("TOP", "deglex"), None
    M, P, B, V, R = {}, {}, {}, [], {}
    zero = None

    def judge(op):
        for i, x in M.items():
            got = mon(x.o)
            if got != x.v: ctx.fail("value", "%s: monomial %d is %s instead of %s" % (op, i, got, x.v))
            if x.o.degree() != sum(x.v[1]) or len(x.o) != n: ctx.fail("value", "%s: degree or size of monomial %d" % (op, i))
        for i, x in P.items():
            t = terms(x.o)
            ks = [key(m) for m, _ in t]
            if any(a <= b for a, b in zip(ks, ks[1:])) or any(c == 0 for _, c in t): ctx.fail("form", "%s: polynomial %d has terms %s" % (op, i, t))
            if dict(t) != x.v: ctx.fail("value", "%s: polynomial %d is %s instead of %s" % (op, i, show(dict(t), key), show(x.v, key)))
        for v in V:
            got = v.read()
            if got != v.was: ctx.fail("view-changed", "%s: the view %s shows %s instead of %s" % (op, v.name, got, v.was))
        ctx.state("%d %d %d %d" % (len(M), len(P), len(B), len(V)))

    def view(name, obj, read, root):
        if len(V) >= 24: V.pop(0)
        x = O(name=name, o=obj, root=root)
        x.read = lambda: read(x.o)
        x.was = x.read()
        V.append(x)
        ctx.probe("view " + name.split(" ")[0])
        return x

    def changed(root):
        k = len(V)
        V[:] = [v for v in V if v.root is not root]
        for x in [x for x in R if R[x].root is root]: R.pop(x)
        if len(V) != k: ctx.fault("owner_changed")

    def put(i, o, v, what):
        t = terms(o)
        ks = [key(m) for m, _ in t]
        if any(a <= b for a, b in zip(ks, ks[1:])): ctx.fail("form", "%s: terms out of order: %s" % (what, t))
        if dict(t) != v: ctx.fail("value", "%s is %s instead of %s" % (what, show(dict(t), key), show(v, key)))
        if i not in P and len(P) > 7: i = 0
        P[i] = O(o=o, v=v, root=object())
        ctx.obs("%d %s" % (i, show(v, key)))

    def putm(i, o, v, what):
        if mon(o) != v: ctx.fail("value", "%s is %s instead of %s" % (what, mon(o), v))
        if o.degree() != sum(v[1]): ctx.fail("value", "%s has degree %d" % (what, o.degree()))
        M[i] = O(o=o, v=v)
        ctx.obs("m%d %s" % (i, o))

    def build_poly(v, q):
        l = list(v.items())
        q.shuffle(l)
        r = None
        for m, c in l:
            t = G.poly_int.to_monom(order[0], order[1], mono(m))
            if c != 1: t = t*c
            r = t if r is None else r + t
        if r is None:
            t = G.poly_int.to_monom(order[0], order[1], mono((-1, (0,)*n)))
            r = t - t
        return r

    def mono(m):
        x = G.monom.zero(n, m[0])
        for i, e in enumerate(m[1]):
            if e: x = x*G.monom.variable(i, n, -1)**e
        return x

    def ring(v): return all(m[0] < 0 for m in v)
    def mul(a, b):
        r = {}
        for (p, e), c in a.items():
            for (p2, e2), c2 in b.items():
                m = (max(p, p2), tuple(x + y for x, y in zip(e, e2)))
                r[m] = r.get(m, 0) + c*c2
        return {m: c for m, c in r.items() if c}
    def wrap_read(w):
        return (mon(w.lm()), mon(w.ansector()), w.isGB(), [bool(w.NM(i)) for i in range(n)], terms(w.poly()), str(w))
    def janet_read(j):
        return (j.size(), j.HilbertPoly() if j.size() > 0 else [])
    def timer_read(t):
        return (t.userTime(), t.sysTime(), t.realTime(), str(t))

    def accept(b, x, op):
        """the basis is right: elements of the ideal, complete, lookup, flags"""
        o = x.o
        if x.G is None: return
        where = "\n  input %s\n  order %s" % (" ; ".join(show(v, key) for v in x.F), "".join(order))
        lead = [pyref.lm(g, key) for g in x.G]
        one = any(l[0] < 0 and not any(l[1]) for l in lead)
        if bool(o.isOne()) != one: ctx.fail("basis", "isOne() is %s" % o.isOne() + where)
        if one:
            ctx.probe("trivial ideal")
            if len(o) != 1: ctx.fail("basis", "a trivial basis has size %d" % len(o) + where)
            ctx.obs("basis %s one" % b)
            return
        ws = list(o)
        if len(ws) != len(o) or bool(o) != bool(ws): ctx.fail("basis", "size %d but %d elements" % (len(o), len(ws)) + where)
        U = []
        for w in ws:
            p = dict(terms(w.poly()))
            if not p: ctx.fail("basis", "zero in the basis" + where)
            if mon(w.lm()) != pyref.lm(p, key) or mon(w.poly().lm()) != pyref.lm(p, key): ctx.fail("basis", "leading monomial %s of %s" % (w.lm(), show(p, key)) + where)
            if pyref.nf({m: Fraction(c) for m, c in p.items()}, x.G, key): ctx.fail("basis", "%s is not in the ideal" % show(p, key) + where)
            g = 0
            for c in p.values(): g = pyref.gcd(g, c)
            if g != 1: ctx.fail("basis", "common factor %d in %s" % (g, show(p, key)) + where)
            if not pyref.divides(mon(w.ansector()), mon(w.lm())): ctx.fail("basis", "ancestor %s of %s" % (w.ansector(), w.lm()) + where)
            U.append(mon(w.lm()))
            t = "%s%s[%s]" % (w.lm(), w.ansector(), "".join("*" if w.NM(i) else " " for i in range(n)))
            if str(w) != t: ctx.fail("basis", "an element prints as %s instead of %s" % (w, t) + where)
        for w, u in zip(ws, U):
            for i in range(n):
                nm = any(q[0] == u[0] and q[1][:i] == u[1][:i] and q[1][i] > u[1][i] for q in U)
                if bool(w.NM(i)) != nm: ctx.fail("basis", "variable %d is wrongly %smultiplicative for %s" % (i, "" if nm else "not ", u) + where)
        for l in lead:
            if not any(pyref.divides(u, l) for u in U): ctx.fail("basis", "no element divides the leading monomial %s" % (l,) + where)
        if len(set(U)) != len(U): ctx.fail("basis", "two elements with one leading monomial" + where)
        for u in U:
            for v in range(n):
                e = list(u[1])
                e[v] += 1
                w = o.find(mono((u[0], tuple(e))))
                if w is None or not pyref.divides(mon(w.lm()), (u[0], tuple(e))): ctx.fail("basis", "a prolongation of %s by variable %d has no divisor" % (u, v) + where)
        x.U = U
        x.lead = lead
        for c in (o.reduction(), o.maxEqualLm(), o.critI(), o.critII(), o.isZeroNf()):
            if not isinstance(c, int) or c < 0: ctx.fail("basis", "a counter is %r" % (c,))
        ctx.obs("basis %s %s" % (b, " ".join(str(w) + " " + show(dict(terms(w.poly())), key) for w in ws)))
        ctx.probe("basis with %s" % ("module elements" if U[0][0] >= 0 else "ring elements"))
        ctx.state("B" + " ".join(map(str, sorted(U))))

    def hilbert(h, U, comps, what):
        d = sum(max(u[1][i] for u in U) for i in range(n))
        c = [Fraction(t) for t in h]
        for s in (d, d + 1, d + 3):
            want = sum(pyref.staircase_count(U, p, n, s) for p in comps)
            got = sum(q*s**i for i, q in enumerate(c))
            if got != want: ctx.fail("hilbert", "%s: %s gives %s at %d instead of %d" % (what, h, got, s, want))

    for st in sc.steps:
        op, a = st[1], st[2]
        ctx.begin(st)
        L.cy_step(st[0])
        q = psim.seeded(sc.seed, st[0])
        if op == "space":
            n, order = max(2, min(5, int(a[0]))), ORDERS[int(a[1])%6]
            key = order_key(order)
            continue
        if key is None: continue
        if op == "poly":
            v = parse(a[1], n)
            put(int(a[0]), build_poly(v, q), v, "a new polynomial")
        elif op == "mono":
            m = (max(-1, int(a[1])), (tuple(min(9, max(0, int(x))) for x in a[2].split(",")) + (0,)*n)[:n])
            putm(int(a[0]), mono(m), m, "a new monomial")
        else:
            w = [int(x) for x in a] + [0, 0, 0]
            i, j, k = w[0], w[1], w[2]
            p, p2, m1, m2, bs = P.get(i), P.get(j), M.get(i), M.get(j), B.get(i)
            if op in ("add", "sub_", "mul"):
                if not p or not p2: continue
                if op == "add":
                    v = pyref.addmul(dict(p.v), 1, (0,)*n, p2.v)
                    r = p.o + p2.o
                elif op == "sub_":
                    v = pyref.addmul(dict(p.v), -1, (0,)*n, p2.v)
                    r = p.o - p2.o
                else:
                    if not (ring(p.v) or ring(p2.v)) or len(p.v)*len(p2.v) > 80: continue
                    if p.v and p2.v and max(abs(c).bit_length() for c in list(p.v.values()) + list(p2.v.values())) > 3000: continue
                    v = mul(p.v, p2.v)
                    r = p.o*p2.o
                put(k, r, v, "%s of %s and %s" % (op, show(p.v, key), show(p2.v, key)))
            elif op == "neg":
                if p: put(k, -p.o, {m: -c for m, c in p.v.items()}, "minus " + show(p.v, key))
            elif op in ("addi", "subi", "muli"):
                if not p or not p.v: continue
                if op != "muli" and not ring(p.v): continue
                c = j
                one = (-1, (0,)*n)
                if op == "muli": v, r = {m: x*c for m, x in p.v.items() if c}, p.o*c
                elif op == "addi": v, r = pyref.addmul(dict(p.v), c, (0,)*n, {one: 1}), p.o + c
                else: v, r = pyref.addmul(dict(p.v), -c, (0,)*n, {one: 1}), p.o - c
                put(k, r, v, "%s %s %d" % (show(p.v, key), op, c))
            elif op == "pow":
                e = j%4
                if not p or not p.v or not ring(p.v) or len(p.v)**e > 60 or max(abs(c).bit_length() for c in p.v.values()) > 400: continue
                v = {(-1, (0,)*n): 1}
                for _ in range(e): v = mul(v, p.v)
                put(k, p.o**e, v, "%s to the power %d" % (show(p.v, key), e))
            elif op in ("reduce", "redmk"):
                if op == "redmk":       # a polynomial whose head the other one reduces
                    if not p2 or not p2.v or len(p2.v) > 6 or order[1] == "alex" or (min(m[0] for m in p2.v) < 0 <= max(m[0] for m in p2.v)): continue
                    d = {m: c for m, c in draw(q, n, 0, 1, 3, True).items()}
                    v = mul(p2.v, d)
                    h = pyref.lm(v, key)
                    for m, c in draw(q, n, 0 if h[0] < 0 else 3, 4, 4, True).items():
                        if key(m) < key(h): v[m] = v.get(m, 0) + c
                    v[h] += q.num(-1, 3)
                    v = {m: c for m, c in v.items() if c}
                    if not v or pyref.lm(v, key) != h: continue
                    i = (j + 1)%6
                    put(i, build_poly(v, q), v, "a reducible polynomial")
                    p = P.get(i)
                if not p or not p2 or p is p2 or not p.v or not p2.v: continue
                if max(abs(c).bit_length() for c in list(p.v.values()) + list(p2.v.values())) > 3000: continue
                l1, l2 = pyref.lm(p.v, key), pyref.lm(p2.v, key)
                if not pyref.divides(l2, l1) or (ring(p2.v) != ring(p.v)) or order[1] == "alex": continue
                x = p.o.reduction(p2.o)
                if x is not p.o: ctx.fail("value", "reduction returns another object")
                changed(p.root)
                t = pyref.addmul({m: Fraction(c) for m, c in p.v.items()}, -Fraction(p.v[l1], p2.v[l2]), pyref.quo(l1, l2), p2.v)
                got = dict(terms(p.o))
                if set(got) != set(t) or len({got[m]/t[m] for m in t}) > 1: ctx.fail("value", "reduction of %s by %s gives %s" % (show(p.v, key), show(p2.v, key), show(got, key)))
                p.v = got
                ctx.probe("reduction")
            elif op == "pp":
                if not p or not p.v: continue
                g = 0
                for c in p.v.values(): g = pyref.gcd(g, c)
                if bool(p.o.isPp()) != (g == 1): ctx.fail("value", "isPp() of %s is %s" % (show(p.v, key), p.o.isPp()))
                if g == 1: continue
                p.o.pp()
                changed(p.root)
                p.v = {m: c//g for m, c in p.v.items()}
                if dict(terms(p.o)) == {m: -c for m, c in p.v.items()}: p.v = {m: -c for m, c in p.v.items()}     # the sign is free
            elif op == "queries":
                if not p: continue
                o, v = p.o, p.v
                if o.isZero() != (not v) or bool(o) != bool(v) or len(o) != len(v): ctx.fail("value", "zero test or length of %s" % show(v, key))
                if o.size() != n: ctx.fail("value", "size() is %d" % o.size())
                if not v:
                    if str(o) != "0" or repr(o) != "0": ctx.fail("value", "zero prints as %s" % o)
                    continue
                l = pyref.lm(v, key)
                if mon(o.lm()) != l or integer(o.lc()) != v[l] or o.degree() != sum(l[1]): ctx.fail("value", "leading term of %s is %s %s" % (show(v, key), o.lm(), o.lc()))
                if o.norm() != sum(limbs(c) for c in v.values()): ctx.fail("value", "norm() of %s is %d" % (show(v, key), o.norm()))
                ms = "[%s]" % " ".join(map(str, l[1])) if l[0] < 0 else "[%d:%s]" % (l[0], " ".join(map(str, l[1])))
                if str(o.lm()) != ms or not str(o).startswith("%s*%d + " % (ms, v[l])) or not repr(o).startswith("%s*%s + " % (repr(o.lm()), repr(o.lc()))): ctx.fail("value", "%s prints as %s, leading monomial %s" % (show(v, key), o, o.lm()))
            elif op == "order":
                if not p: continue
                if tuple(p.o.order()) != order: ctx.fail("value", "order() is %s instead of %s" % (p.o.order(), order))
                if p2 and not p.o.comparable(p2.o): ctx.fail("value", "polynomials of one order do not compare")
                oth = ORDERS[(ORDERS.index(order) + 1 + k%5)%6]
                z = G.poly_int.to_monom(oth[0], oth[1], mono((-1, (1,)*n)))
                if tuple(z.order()) != oth or p.o.comparable(z): ctx.fail("value", "polynomials of orders %s and %s compare" % (order, oth))
            elif op == "intops":
                if not p: continue
                for m, c in p.o:
                    v = p.v.get(mon(m))
                    if (c.sgn(), c.isZero(), c.isOne(), c.isAbsOne(), c.norm(), bool(c)) != ((v > 0) - (v < 0), v == 0, v == 1, abs(v) == 1, limbs(v), v != 0):
                        ctx.fail("value", "queries of the integer %d" % v)
            elif op == "mmul":
                if not m1 or not m2 or (m1.v[0] >= 0 and m2.v[0] >= 0): continue
                putm(k, m1.o*m2.o, (max(m1.v[0], m2.v[0]), tuple(min(10**6, x + y) for x, y in zip(m1.v[1], m2.v[1]))), "product of monomials")
                if sum(M[k].v[1]) > 400: M.pop(k)
            elif op == "mdiv":
                if not m1 or not m2: continue
                can = (m2.v[0] < 0 or m1.v[0] == m2.v[0]) and all(x <= y for x, y in zip(m2.v[1], m1.v[1]))
                if bool(m1.o.divisiable(m2.o)) != can: ctx.fail("value", "divisiable of %s and %s" % (m1.v, m2.v))
                if can:
                    putm(k, m1.o/m2.o, (m1.v[0] if m2.v[0] < 0 else -1, tuple(x - y for x, y in zip(m1.v[1], m2.v[1]))), "quotient of %s and %s" % (m1.v, m2.v))
                else:
                    try:
                        m1.o/m2.o
                        ctx.fail("value", "the impossible quotient of %s and %s was computed" % (m1.v, m2.v))
                    except AssertionError:
                        ctx.fault("refused_call")
            elif op == "mpow":
                if m1 and m1.v[0] < 0 and sum(m1.v[1]) < 100: putm(k, m1.o**(j%4), (-1, tuple(x*(j%4) for x in m1.v[1])), "power of a monomial")
            elif op == "mcmp":
                if not m1 or not m2: continue
                for name in ("lex", "deglex", "alex"):
                    kk = order_key(("TOP", name))
                    x, y = kk((0, m1.v[1])), kk((0, m2.v[1]))
                    c = getattr(m1.o, name)(m2.o)
                    if c != (x > y) - (x < y): ctx.fail("value", "%s of %s and %s is %d" % (name, m1.v, m2.v, c))
                if len(m1.o) != n or bool(m1.o) != (sum(m1.v[1]) > 0): ctx.fail("value", "length or truth of a monomial")
            elif op == "perm":
                g = G.randpermutation(n)
                for _ in range(j): g.next()
                t = [g[x] for x in range(len(g))]
                if sorted(t) != list(range(n)): ctx.fail("value", "not a permutation: %s" % t)
                try:
                    g[n]
                    ctx.fail("value", "a permutation of %d gives an element %d" % (n, n))
                except AssertionError:
                    ctx.fault("refused_call")
                if m1: putm(k, m1.o.permutation(g), (m1.v[0], tuple(m1.v[1][x] for x in t)), "permutation of a monomial")
            elif op == "setpos":
                if not m1: continue
                r = m1.o.setPos(j - 1)
                if r is not m1.o: ctx.fail("value", "setPos returns another object")
                m1.v = (j - 1, m1.v[1])
            elif op == "rand":
                lo, hi = 1 + i, 2 + i + j
                G.monom.rand_init(n, lo, hi)
                x = G.monom.next()
                if len(x) != n or x.pos() != -1 or not lo <= x.degree() <= hi or sum(x) != x.degree() or min(x) < 0: ctx.fail("value", "a random monomial of degree %d..%d is %r" % (lo, hi, x))
                M[k] = O(o=x, v=mon(x))
            elif op == "limit":
                before = G.allocator.currMemory()
                if G.allocator.maxMemory() < before: ctx.fail("value", "currMemory above maxMemory")
                z = G.allocator()
                if z.alloc() != 0 or z.size() != 0: ctx.fail("value", "a new allocator holds %s" % z)
                del z
                if G.allocator.currMemory() != before: ctx.fail("value", "an allocator object changed the memory in use")
            elif op == "timerop":
                t = G.timer()
                t.start()
                L.cy_pass(j, k, i)
                t.stop()
                hz = clock()[1]
                if sc.num("clock") != 2 and (abs(t.realTime() - j/hz) > 1e-6 or abs(t.userTime() - k/hz) > 1e-6 or abs(t.sysTime() - i/hz) > 1e-6):
                    ctx.fail("value", "a timer over %d, %d, %d ticks reads %s" % (j, k, i, t))
                x = G.allocator.GC_timer()
                str(x)
            elif op == "refuse":
                # calls the module answers with an exception leave everything as it was
                for f in (lambda: p.o + "x", lambda: p.o*None, lambda: p.o - 1.5, lambda: G.poly_int.to_monom("TOP", "none", m1.o), lambda: p.o**-1, lambda: m1.o**-1, lambda: G.monom.zero(1, 0), lambda: m1.o.setPos(-2)):
                    if not p or not m1: continue
                    try:
                        f()
                        ctx.fail("value", "a call that cannot be answered was answered")
                    except (AssertionError, TypeError, AttributeError):
                        ctx.fault("refused_call")
            elif op == "view+":
                # views as operands
                if not V: continue
                v = V[i%len(V)]
                if v.name.startswith("poly"):
                    t = dict(v.was)
                    if p2: put(k, v.o + p2.o, pyref.addmul(dict(t), 1, (0,)*n, p2.v), "sum with a view")
                    else: put(k, -v.o, {m: -c for m, c in t.items()}, "minus a view")
                    ctx.probe("view as operand")
                elif v.name.startswith("mono"):
                    if m2 and (m2.v[0] < 0 or v.was[0] < 0): putm(k, v.o*m2.o, (max(m2.v[0], v.was[0]), tuple(x + y for x, y in zip(m2.v[1], v.was[1]))), "product with a view")
                    elif v.was[1]: put(k, G.poly_int.to_monom(order[0], order[1], v.o), {v.was: 1}, "a polynomial from a view")
                    ctx.probe("view as operand")
            elif op == "chain":
                # an owner that only ever exists as a temporary
                if not p or not p2 or not p.v: continue
                v = pyref.addmul({m: 2*c for m, c in p.v.items()}, 1, (0,)*n, p2.v)
                if not v: continue
                r = object()
                l = pyref.lm(v, key)
                x = view("mono of a temporary", (p.o*2 + p2.o).lm(), mon, r)
                y = view("int of a temporary", (p.o*2 + p2.o).lc(), integer, r)
                if x.was != l or y.was != v[l]: ctx.fail("value", "leading term of a temporary is %s %s instead of %s %s" % (x.was, y.was, l, v[l]))
            # ---------------------------------------------------------- views
            elif op == "terms":
                if not p: continue
                for m, c in list(p.o)[:4]:
                    view("mono term", m, mon, p.root)
                    view("int coefficient", c, integer, p.root)
            elif op == "lm":
                if p and p.v: view("mono lm", p.o.lm(), mon, p.root)
            elif op == "lc":
                if p and p.v: view("int lc", p.o.lc(), integer, p.root)
            elif op == "iter":
                if p: R[k] = O(it=iter(p.o), rest=terms(p.o), root=p.root, read=lambda t: (mon(t[0]), integer(t[1])), name="polynomial")
            elif op == "wrapiter":
                if bs and bs.built: R[k] = O(it=iter(bs.o), rest=[wrap_read(x) for x in bs.o], root=bs.root, read=wrap_read, name="basis")
            elif op == "step":
                x = R.get(k)
                if not x: continue
                for _ in range(1 + j%3):
                    try:
                        t = next(x.it)
                    except StopIteration:
                        if x.rest: ctx.fail("view-changed", "an iterator over a %s ended %d elements early" % (x.name, len(x.rest)))
                        R.pop(k)
                        break
                    if not x.rest: ctx.fail("view-changed", "an iterator over a %s gives too many elements" % x.name)
                    got = x.read(t)
                    if got != x.rest[0]: ctx.fail("view-changed", "an iterator over a %s gives %s instead of %s" % (x.name, got, x.rest[0]))
                    x.rest.pop(0)
                    if x.name == "basis": view("wrap stepped", t, wrap_read, x.root)
                    else:
                        view("mono stepped", t[0], mon, x.root)
                ctx.probe("iterator over a " + x.name)
            elif op in ("wraps", "wrap"):
                if not bs or not bs.built: continue
                l = list(bs.o)
                for x in (l[:3] if op == "wraps" else l[j%max(1, len(l)):][:1]): view("wrap element", x, wrap_read, bs.root)
            elif op == "find":
                if not bs or not bs.built or bs.G is None or not m2: continue
                one = bool(bs.o.isOne())
                x = bs.o.find(m2.o)
                if one: continue
                want = any(pyref.divides(l, m2.v) for l in bs.lead)
                if (x is not None) != want: ctx.fail("basis", "find(%s) gives %s among %s" % (m2.v, x, bs.U))
                if x is not None:
                    if not pyref.divides(mon(x.lm()), m2.v): ctx.fail("basis", "find(%s) gives %s" % (m2.v, x.lm()))
                    view("wrap found", x, wrap_read, bs.root)
            elif op == "janet":
                if not bs or not bs.built or bs.o.isOne() or not bs.U: continue
                if bs.o.maxPos() != max(u[0] for u in bs.U + bs.lead + [max(f, key=lambda m: m[0]) for f in bs.F]): ctx.fail("basis", "maxPos() is %d" % bs.o.maxPos())
                pos = q.num(-1, bs.o.maxPos())
                x = view("janet tree", bs.o.janet(pos), janet_read, bs.root)
                here = [u for u in bs.U if u[0] == pos]
                if x.was[0] != len(here): ctx.fail("basis", "the tree of component %d has %d elements instead of %d" % (pos, x.was[0], len(here)))
                if here: hilbert(x.was[1], here, [pos], "component %d" % pos)
            elif op == "timer":
                if bs: view("timer of a basis", bs.o.timer(), timer_read, bs.root)
            elif op == "sub":
                if not V: continue
                v = V[i%len(V)]
                if v.name.startswith("wrap"):
                    x = [("mono lm", v.o.lm, mon), ("mono ancestor", v.o.ansector, mon), ("poly element", v.o.poly, terms)][j%3]
                    view(x[0] + " of a wrap", x[1](), x[2], v.root)
                elif v.name.startswith("poly"):
                    if v.was: view("mono lm of a view", v.o.lm(), mon, v.root) if j%2 else view("int lc of a view", v.o.lc(), integer, v.root)
            elif op == "allviews":
                if not bs or not bs.built: continue
                for x in bs.o:
                    view("poly element", x.poly(), terms, bs.root)
                    view("mono lm of an element", x.poly().lm(), mon, bs.root)
            elif op == "forget":
                if V: V.pop(i%len(V))
                if j%3 == 0: R.pop(k, None)
            elif op in ("dropp", "dropb", "dropm"):
                if {"dropp": P, "dropb": B, "dropm": M}[op].pop(i, None) is not None: ctx.fault("owner_dropped")
                p = p2 = m1 = m2 = bs = None
            elif op == "collect":
                gc.collect()
                ctx.fault("collected")
            elif op == "reuse":
                # freed memory is taken again and filled with other values
                z = []
                for x in range(12):
                    z.append(G.monom.variable(x%n, n, -1)**(7 + x))
                    z.append(G.poly_int.to_monom("TOP", "lex", z[-1])*(3**(40 + x)))
                    z.append(z[-1] + 5)
                del z[::2]
                ctx.fault("memory_reused")
            # ---------------------------------------------------------- bases
            elif op == "basis":
                if order[1] == "alex": continue
                B[i] = O(o=G.janet_poly_int(), F=[], built=False, G=None, root=object(), kind=None, U=[], lead=[])
                if len(B[i].o) or B[i].o: ctx.fail("basis", "a new basis is not empty")
            elif op == "push":
                if not bs or not p2: continue
                v = p2.v
                if len(bs.F) >= 5 or len(v) > 5 or any(sum(m[1]) > 4 for m in v) or any(abs(c) > 10**6 for c in v.values()): continue
                if v:
                    kd = ring(v)
                    if any((m[0] < 0) != kd for m in v) or (bs.kind is not None and bs.kind != kd): continue
                    bs.kind = kd
                if not bs.o.comparable(p2.o): ctx.fail("value", "the basis does not take a polynomial of its order")
                changed(bs.root)
                bs.root = object()
                if bs.o.push(p2.o) is not bs.o: ctx.fail("value", "push returns another object")
                if v: bs.F.append(dict(v))
                bs.fresh, bs.built = True, False
            elif op == "build":
                if not bs or not bs.F or not getattr(bs, "fresh", False): continue
                try:
                    bs.G = pyref.groebner([{m: Fraction(c) for m, c in f.items()} for f in bs.F], key, [60000])
                except pyref.Budget:
                    B.pop(i)
                    ctx.probe("basis left out: reference budget")
                    continue
                changed(bs.root)
                bs.root = object()
                gt, t0, c0 = timer_read(G.allocator.GC_timer())[:3], timer_read(bs.o.timer())[:3], clock()[0]
                bs.o.build()
                gt2, t1, c1 = timer_read(G.allocator.GC_timer())[:3], timer_read(bs.o.timer())[:3], clock()[0]
                if sc.num("clock") == 0:
                    # the timer runs while the basis is built, and only then; the collector's clock is another one
                    if any((y - x < -1e-6 or y - x > d - c + 1e-6) and (y < -1e-6 or y > d - c + 1e-6) for x, y, c, d in zip(t0, t1, c0[1:] + c0[:1], c1[1:] + c1[:1])): ctx.fail("timer", "the timer of a basis went from %s to %s while the clock went from %s to %s" % (t0, t1, c0, c1))
                    if c1[0] - c0[0] > 20/clock()[1] and max(t1[2] - t0[2], t1[2]) < (c1[0] - c0[0])/4: ctx.fail("timer", "the timer of a basis went from %s to %s while the clock went from %s to %s" % (t0, t1, c0, c1))
                    if sc.num("gc", 3) == 0 and gt2 != gt: ctx.fail("timer", "the collector's timer ran without a compaction")
                bs.built, bs.fresh = True, False
                accept(i, bs, op)
            elif op in ("nf", "nfmk"):
                if op == "nfmk":
                    if not bs or not bs.built or bs.G is None: continue
                    v = draw(q, n, 0 if bs.kind else 3, 4, 4, False)
                    if q.p(50) and bs.F:
                        e = q.pick(bs.F)
                        v = pyref.addmul(mul(e, draw(q, n, 0, 2, 2, False)), 1, (0,)*n, v if q.p(50) else {})
                    if not v or len(v) > 12: continue
                    put(j, build_poly(v, q), v, "a polynomial")
                    p2 = P.get(j)
                if not bs or not bs.built or bs.G is None or not p2 or not p2.v: continue
                v = p2.v
                if ring(v) != bs.kind or any((m[0] < 0) != bs.kind for m in v) or any(sum(m[1]) > 6 for m in v) or any(abs(c) > 10**9 for c in v.values()): continue
                x = bs.o.nf(p2.o)
                if x is not p2.o: ctx.fail("value", "nf returns another object")
                changed(p2.root)
                p2.root = object()
                got = dict(terms(p2.o))
                want = pyref.nf({m: Fraction(c) for m, c in v.items()}, bs.G, key)
                if set(got) != set(want) or len({got[m]/want[m] for m in want}) > 1: ctx.fail("normal-form", "the normal form of %s is %s instead of %s" % (show(v, key), show(got, key), text({m: c for m, c in want.items()}) if all(c.denominator == 1 for c in want.values()) else want))
                p2.v = got
                ctx.probe("normal form " + ("nonzero" if got else "zero"))
            elif op == "hp":
                if not bs or not bs.built or bs.G is None or bs.o.isOne() or not bs.kind: continue
                hilbert(bs.o.HilbertPoly(), bs.U, [-1], "basis")
                ctx.probe("Hilbert polynomial of a basis")
            p = p2 = m1 = m2 = bs = x = y = z = v = r = t = l = g = None
        judge(op)
        