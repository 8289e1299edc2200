"""The pure Python package: monomials (P35) and divisor trees (P36) under arbitrary histories, interrupts, collections, spaces that come and go."""
import gc, itertools, re, sys
from fractions import Fraction
import psim, pyref
import m_pure as MP

ORDERS = ["TOPdeglex", "POTdeglex", "TOPlex", "POTlex"]


class Space:
    pass


def key_of(order):
    if order in ("lex", "deglex"): return pyref.key("TOP" + order)
    return pyref.key(order)


def enter(a, trees=False):
    """a space: ring or module, number of variables, components, order"""
    G = MP.G
    sp = Space()
    sp.kind, sp.n, sp.comps, sp.order = a[0], max(1, min(6, int(a[1]))), max(1, min(5, int(a[2]))), a[3]
    if sp.kind == "module" and sp.order in ("lex", "deglex"): sp.order = "TOP" + sp.order
    sp.vs, sp.fs = ["x%d" % i for i in range(sp.n)], ["u%d" % i for i in range(sp.comps)]
    G.Monom.cmp = getattr(G.Monom, sp.order)
    r = (G.Poly.init if trees else G.Monom.init)(*([sp.vs] if sp.kind == "ideal" else [sp.vs, sp.fs]))
    sp.key = key_of(sp.order)
    sp.given = r
    return sp


def val(m):
    return (m.position(), tuple(m))


def make(sp, v, how=0):
    G = MP.G
    pos, e = v
    if how == 1: e = list(e)
    elif how == 2: e = (x for x in e)
    if how == 3 and pos < 0 and sum(e) == 1: return G.Monom(e.index(1))
    if how == 3 and pos < 0 and sum(e) == 0: return G.Monom()
    if how == 3 and pos >= 0 and sum(e) == 0: return G.Monom(pos=pos)
    return G.Monom(e) if pos < 0 else G.Monom(e, pos=pos)


def interrupted(ctx, limit, f):
    """runs f, which an interrupt may stop at the chosen call inside the package; True when it did"""
    tr = MP.Tracer(ctx, limit)
    sys.settrace(tr)
    try:
        f()
        return False
    except MP.Stop:
        ctx.fault("interrupted")
        return True
    finally:
        sys.settrace(None)


# ------------------------------------------------------------------ monomials
def gen_mono(r, s):
    def space():
        kind = r.pick(["ideal", "module", "module"])
        s.add("space", kind, r.num(1, 5), r.num(1, 4), r.pick(ORDERS + (["lex", "deglex"] if kind == "ideal" else [])))
    def new():
        s.add("new", r.num(0, 7), r.num(-1, 3), ",".join(str(r.num(0, 4) if r.p(60) else 0) for _ in range(5)) if r.p(95) else ",".join(str(r.num(0, 10**r.num(1, 12))) for _ in range(5)), r.num(0, 3))
    def begin():
        space()
        for _ in range(3): new()
    begin()
    for _ in range(r.num(8, 50)):
        if r.p(3): begin()
        op = r.pick(["new", "new", "new", "mul", "mul", "div", "div", "pow", "lcm", "gcd", "prolong", "copy", "query", "query", "order", "sort", "cut", "collect", "gradus", "cut"] + ["pair"]*4)
        if op == "new": new()
        elif op == "order": s.add("order", r.pick(ORDERS))
        elif op == "cut": s.add("cut", r.num(0, 7), r.num(0, 7), r.num(0, 4), r.num(0, 12))
        else: s.add(op, r.num(0, 7), r.num(0, 7), r.num(0, 7), r.num(0, 5))


def run_mono(ctx, sc, out):
    G = MP.G
    sp, P = None, {}
    def alive(op):
        for i, (m, v) in P.items():
            if val(m) != v: ctx.fail("value", "%s: monomial %d is %s instead of %s" % (op, i, val(m), v))
            if m.degree() != sum(v[1]): ctx.fail("value", "%s: degree of %s is %s" % (op, v, m.degree()))
        n = len(sp.vs)
        for i, m in enumerate(sp.given[0] if sp.kind == "module" else sp.given):
            if val(m) != (-1, tuple(int(i == j) for j in range(n))): ctx.fail("value", "%s: variable %d has become %s" % (op, i, val(m)))
        ctx.state(" ".join("%d:%s" % (i, v) for i, (_, v) in sorted(P.items())))
    def put(op, i, m, v):
        if val(m) != v: ctx.fail("value", "%s gives %s instead of %s" % (op, val(m), v))
        if any(type(x) is not int for x in m): ctx.fail("value", "%s gives exponents that are no integers" % op)
        P[i] = (m, v)
        ctx.obs("%s %s" % (op, v))
    def result(op, x, y, k):
        """what the algebra defines, or None outside the preconditions"""
        (p, e), (q, f) = x, y
        if op == "mul": return (max(p, q), tuple(a + b for a, b in zip(e, f))) if p < 0 or q < 0 else None
        if op == "div":
            if not (q < 0 or p == q) or any(a < b for a, b in zip(e, f)): return None
            return (p if q < 0 else -1, tuple(a - b for a, b in zip(e, f)))
        if op == "pow": return (-1, tuple(a*k for a in e)) if p < 0 else None
        if op == "lcm": return (max(p, q), tuple(map(max, e, f))) if p < 0 or q < 0 or p == q else None
        if op == "gcd": return (-1, tuple(map(min, e, f))) if p < 0 or q < 0 else None
        if op == "prolong": return (p, tuple(a + (j == k % sp.n) for j, a in enumerate(e)))
        if op == "copy": return x
    def call(op, m, o, k):
        return (m*o if op == "mul" else m/o if op == "div" else m**k if op == "pow" else m.lcm(o) if op == "lcm" else m.gcd(o) if op == "gcd" else
                m.prolong(k % sp.n) if op == "prolong" else m.copy())
    for st in sc.steps:
        op, a = st[1], st[2]
        ctx.begin(st)
        if op == "space":
            sp, P = enter(a), {}
            if sp.kind == "module" and [val(m) for m in sp.given[1]] != [(i, (0,)*sp.n) for i in range(sp.comps)]: ctx.fail("value", "the unknowns are %s" % ([val(m) for m in sp.given[1]],))
            alive(op)
            continue
        if sp is None: continue
        if op == "order":
            sp.order, sp.key = a[0], pyref.key(a[0])
            G.Monom.cmp = getattr(G.Monom, sp.order)
            continue
        if op == "collect":
            gc.collect()
            ctx.fault("collected")
            alive(op)
            continue
        if op == "new":
            pos = int(a[1]) if sp.kind == "module" else -1
            v = (min(pos, sp.comps - 1), (tuple(max(0, int(x)) for x in a[2].split(",")) + (0,)*sp.n)[:sp.n])
            put(op, int(a[0]), make(sp, v, int(a[3])), v)
            alive(op)
            continue
        i, x, y, k = (int(t) for t in a)
        if op == "cut":          # the operation is interrupted; nothing may have changed
            if not P: continue
            (m, v), (o, w) = P[sorted(P)[i % len(P)]], P[sorted(P)[x % len(P)]]
            name = ["mul", "div", "lcm", "prolong", "copy"][y % 5]
            if result(name, v, w, 1) is not None: interrupted(ctx, k, lambda: (m.divisible(o), m < o, call(name, m, o, 1), hash(m), str(m)))
            alive(op)
            continue
        if not P: continue
        x, y = sorted(P)[x % len(P)], sorted(P)[y % len(P)]
        (m, v), (o, w) = P[x], P[y]
        if op == "div" and result(op, v, w, k) is None and result("mul", v, w, k):
            m, v = m*o, result("mul", v, w, k)
        if op in ("mul", "div", "pow", "lcm", "gcd", "prolong", "copy"):
            want = result(op, v, w, k)
            if want is None or sum(want[1]) > 10**13: continue
            put(op, i, call(op, m, o, k), want)
            ctx.probe(op)
        elif op == "pair":
            c, d = sp.key(v), sp.key(w)
            s = (c > d) - (c < d)
            g = m.cmp(o)
            if (g > 0) - (g < 0) != s: ctx.fail("order", "comparison of %s and %s in %s is %s instead of %d" % (v, w, sp.order, g, s))
            if [m < o, m <= o, m == o, m != o, m >= o, m > o] != [s < 0, s <= 0, s == 0, s != 0, s >= 0, s > 0]: ctx.fail("order", "comparison operators disagree on %s and %s" % (v, w))
            if s == 0 and hash(m) != hash(o): ctx.fail("hash", "equal monomials %s have different hashes" % (v,))
            if len({m, o}) != (1 if v == w else 2) or (m in {o: 1}) != (v == w): ctx.fail("hash", "a set of %s and %s" % (v, w))
            dv = (w[0] == -1 or v[0] == w[0]) and all(b <= c for b, c in zip(w[1], v[1]))
            if bool(m.divisible(o)) != dv: ctx.fail("value", "divisibility of %s by %s" % (v, w))
            if bool(m.divisibleTrue(o)) != (dv and sum(v[1]) > sum(w[1])): ctx.fail("value", "proper divisibility of %s by %s" % (v, w))
            if v[0] == w[0]:
                lower = [j for j in range(sp.n) if v[1][j] < w[1][j]]
                if lower and m.nonmult(o) != lower[0]: ctx.fail("value", "the separating variable of %s and %s is %s" % (v, w, m.nonmult(o)))
            t = P.get(i)
            if t and t[1][0] < 0 and sum(t[1][1]) < 10**12:          # multiplication keeps the order
                g = (m*t[0]).cmp(o*t[0])
                if (g > 0) - (g < 0) != s: ctx.fail("order", "multiplying %s and %s by %s turns their order" % (v, w, t[1]))
            ctx.obs("pair %d %d" % (s, dv))
        elif op == "sort":
            l = [c[0] for c in P.values()]
            if [sp.key(val(c)) for c in sorted(l)] != sorted(sp.key(c[1]) for c in P.values()): ctx.fail("order", "sorting goes wrong")
            if sp.key(val(max(l))) != max(sp.key(c[1]) for c in P.values()): ctx.fail("order", "the maximum is %s" % (val(max(l)),))
            if len(set(l)) != len({c[1] for c in P.values()}): ctx.fail("hash", "a set of %d monomials" % len(l))
        elif op == "query":
            if m.position() != v[0] or m.degree() != sum(v[1]) or len(m) != sp.n: ctx.fail("value", "component or degree of %s" % (v,))
            if bool(m) != (v[0] >= 0 or sum(v[1]) > 0): ctx.fail("value", "truth value of %s" % (v,))
            if sum(v[1]) < 200 and list(m.expand()) != [j for j in range(sp.n) for _ in range(v[1][j])]: ctx.fail("value", "expansion of %s is %s" % (v, m.expand()))
            t = re.fullmatch(r"\[(?:(\d+);)?([\d ]+)\]", repr(m))
            if not t or (int(t.group(1)) if t.group(1) else -1, tuple(map(int, t.group(2).split()))) != v: ctx.fail("text", "%s is shown as %r" % (v, m))
            e, pos = [0]*sp.n, -1
            for f in str(m).split("*" if "**" not in str(m) else "\0") if "**" not in str(m) else re.split(r"(?<!\*)\*(?!\*)", str(m)):
                b, _, d = f.partition("**")
                if b in sp.vs: e[sp.vs.index(b)] += int(d or 1)
                elif sp.kind == "module" and b in sp.fs and not d and pos < 0: pos = sp.fs.index(b)
                elif f != "1" or str(m) != "1": ctx.fail("text", "%s is shown as %s" % (v, m))
            if (pos, tuple(e)) != v: ctx.fail("text", "%s is shown as %s" % (v, m))
        elif op == "gradus":
            d = k
            if sp.n > 4: d = min(d, 3)
            pos = -1 if sp.kind == "ideal" or x % 2 else x % sp.comps
            l = [val(c) for c in G.Monom.gradus(d, pos)]
            want = {(pos, e) for e in itertools.product(range(d + 1), repeat=sp.n) if sum(e) == d}
            if len(l) != len(want) or set(l) != want: ctx.fail("value", "the monomials of degree %d are %s" % (d, l[:20]))
            ctx.probe(op)
        alive(op)


# ------------------------------------------------------------------ divisor trees
def gen_tree(r, s):
    def tree(t): s.add("tree", t, r.pick(["plain", "plain", "cache", "cache", "forest"]))
    def space():
        kind = r.pick(["ideal", "ideal", "module"])
        s.add("space", kind, r.num(1, 4), r.num(1, 3), r.pick(ORDERS))
        for t in range(r.num(1, 3)): tree(t)
    space()
    big = r.p(15)
    for _ in range(r.num(6, 40)):
        t = r.num(0, 2)
        op = r.pick(["insert"]*7 + ["find"]*4 + ["hp", "deg", "all", "upto", "min", "complete", "cut", "cut", "gb", "collect"])
        if r.p(2): space()
        if r.p(2): tree(t)
        if op == "insert":
            s.add(op, t, ";".join("%d:%s" % (r.num(0, 2), ",".join(str(r.num(0, 8 if big else 3) if r.p(55) else 0) for _ in range(4))) for _ in range(r.pick([1, 1, 1, 2, 4]))))
        elif op == "find": s.add(op, t, r.num(0, 10**6))
        elif op == "cut": s.add(op, t, r.num(0, 4), r.num(0, 60))
        else: s.add(op, t, r.num(0, 12), r.num(0, 10**6))


class Tree:
    pass


def run_tree(ctx, sc, out):
    G = MP.G
    sp, T = None, {}
    def poly(v, t, r):
        """a polynomial with leading monomial v, and what it is"""
        p, d = G.Poly(make(sp, v)), {v: Fraction(1)}
        for _ in range(r.pick([0, 0, 0, 1, 1, 2])):
            e = [0]*sp.n
            for _ in range(r.num(0, sum(v[1]) if sum(v[1]) < 6 else 2)): e[r.num(0, sp.n - 1)] += 1
            m = (r.num(0, sp.comps - 1) if t.kind == "forest" else t.pos, tuple(e))
            if sp.key(m) < sp.key(v) and m not in d:
                d[m] = Fraction(r.pick([-3, -2, -1, 1, 2, 5]))
                p = p + G.Poly(make(sp, m))*int(d[m])
        return p, d
    def reduced(t, p, m):
        """p without the involutively reducible terms below m; unique, since a monomial has at most one involutive divisor"""
        p, r, left = dict(p), {m: p[m]}, 400
        del p[m]
        while p:
            l = pyref.lm(p, sp.key)
            d = pyref.janet_divisors(t.U, l)
            if d: pyref.addmul(p, -p[l]/t.pol[d[0]][d[0]], pyref.quo(l, d[0]), t.pol[d[0]])
            else: r[l] = p.pop(l)
            left -= 1
            if left < 0: ctx.skip("the normal form outgrows the budget")
        return r
    def check(t, op):
        ws = list(t.tree)
        got = [val(w.lm) for w in ws]
        if sorted(got) != sorted(t.U): ctx.fail("content", "%s: the tree holds %s instead of %s" % (op, got, sorted(t.U)))
        for w, u in zip(ws, got):
            nm = [pyref.janet_nm(t.U, u, v) for v in range(sp.n)]
            if [bool(x) for x in w.nonmult] != nm: ctx.fail("nonmult", "%s: non-multiplicative variables of %s are %s instead of %s in %s" % (op, u, w.nonmult, nm, sorted(t.U)))
            if w.multi() != nm.count(False) or w.degree() != sum(u[1]): ctx.fail("nonmult", "%s: number of multiplicative variables or degree of %s" % (op, u))
            if {v for v in range(sp.n) if w.prolong[v]} != t.pro[u]: ctx.fail("prolonged", "%s: %s counts as prolonged by %s instead of %s" % (op, u, w.prolong, t.pro[u]))
            if MP.todict(w.poly) != t.pol[u]: ctx.fail("content", "%s: the polynomial of %s is %s" % (op, u, w.poly))
            if val(w.ansector) != t.anc[u]: ctx.fail("ancestor", "%s: the ancestor of %s is %s instead of %s" % (op, u, val(w.ansector), t.anc[u]))
        for m, p, d in t.held:
            if MP.todict(p) != d: ctx.fail("held", "%s: the answer held for %s has become %s" % (op, m, p))
        if t.tree.count() != len(t.U): ctx.fail("content", "%s: %d elements are counted instead of %d" % (op, t.tree.count(), len(t.U)))
        return got
    def alive(op):
        for i, t in T.items():
            got = check(t, op)
            ctx.ev("%d %s" % (i, got))
            ctx.state(str(got))
    def displaced(t, v):
        j = max([x for x in range(sp.n) if v[1][x]] or [0])
        return [u for u in t.U if u[0] == v[0] and u[1][:j] == v[1][:j] and u[1][j] >= v[1][j]]
    def enterset(t, ws, op):
        """inserts the elements that no element of the tree divides, and judges what comes back"""
        ok, back = [], []
        U, anc, pro = t.U, t.anc, t.pro
        for w in ws:
            v = val(w.lm)
            if pyref.janet_divisors(U, v) or len(U) > 40: continue
            d = displaced(t, v)
            for u in d:
                U.remove(u)
                back.append((u, t.pol[u]))
                del anc[u], pro[u], t.pol[u]
            U.append(v)
            anc[v], pro[v] = val(w.ansector), {x for x in range(sp.n) if w.prolong[x]}
            t.pol[v] = MP.todict(w.poly)
            ok.append(w)
        r = t.tree.insert(ok if sc.seed % 2 else (w for w in ok))
        hand = [(val(w.lm), MP.todict(w.poly)) for w in r]
        if len(hand) != len(back) or any(x not in back for x in hand): ctx.fail("displaced", "%s hands back %s instead of %s" % (op, hand, back))
        if back: ctx.probe("displaced")
        return len(ok)
    def lookup(t, m):
        want = pyref.janet_divisors(t.U, m)
        mm = make(sp, m)
        w = t.tree.findWrap(mm)
        got = [val(w.lm)] if w else []
        if got != want: ctx.fail("lookup", "looking up %s finds %s instead of %s in %s" % (m, got, want, sorted(t.U)))
        p = t.tree.find(mm)
        if p and len(t.held) < 12: t.held.append((m, p, MP.todict(p)))
        if bool(p) != bool(want): ctx.fail("lookup", "find and findWrap disagree on %s" % (m,))
        if p:
            l, u = MP.todict(p), want[0]
            if t.kind != "cache" or u == m:
                if l != t.pol[u]: ctx.fail("lookup", "looking up %s gives %s instead of %s" % (m, l, t.pol[u]))
            else:
                f = reduced(t, pyref.addmul({}, Fraction(1), pyref.quo(m, u), t.pol[u]), m)
                if pyref.lm(l, sp.key) != m or pyref.monic(l, sp.key) != pyref.monic(f, sp.key): ctx.fail("lookup", "looking up %s gives %s, not the multiple %s" % (m, l, f))
                if len(l) > 1: ctx.probe("cached multiple")
        ctx.obs("find %s %s" % (m, got))
    def given(t, ws, want, op):
        src = [pyref.addmul({}, Fraction(1), tuple(int(i == j) for j in range(sp.n)), f) for f in t.pol.values() for i in range(sp.n)]
        l = sorted((val(w.lm), val(w.ansector)) for w in ws)
        if l != sorted(want): ctx.fail("prolonged", "%s gives %s instead of %s" % (op, l, sorted(want)))
        for w in ws:
            x = MP.todict(w.poly)
            if not x or pyref.lm(x, sp.key) != val(w.lm) or x not in src or any(w.prolong) or any(w.nonmult): ctx.fail("prolonged", "%s gives an element that is not fresh" % op)
        ctx.obs("%s %d" % (op, len(l)))
    def pending(t, cond):
        r = []
        for u in t.U:
            for v in range(sp.n):
                if v not in t.pro[u] and pyref.janet_nm(t.U, u, v):
                    e = (u[0], tuple(x + (j == v) for j, x in enumerate(u[1])))
                    if cond(u, e):
                        r.append((e, t.anc[u]))
                        t.pro[u] = t.pro[u] | {v}
        return r
    for st in sc.steps:
        op, a = st[1], st[2]
        ctx.begin(st)
        if op == "space":
            sp, T = enter(a, True), {}
            continue
        if sp is None: continue
        if op == "tree":
            t = Tree()
            t.kind = a[1] if a[1] != "forest" or sp.kind == "module" else "plain"
            t.tree = G.Forest(G.Janet) if t.kind == "forest" else G.JanetCache() if t.kind == "cache" else G.Janet()
            t.pos = -1 if sp.kind == "ideal" else (int(a[0]) % sp.comps)
            t.U, t.anc, t.pro, t.pol, t.held = [], {}, {}, {}, []
            T[int(a[0])] = t
            alive(op)
            continue
        t = T.get(int(a[0]))
        if t is None: continue
        q = psim.seeded("tree", sc.seed, st[0])
        if op == "insert":
            ws = []
            for x in a[1].split(";"):
                c, e = x.split(":")
                v = (int(c) % sp.comps if t.kind == "forest" else t.pos, (tuple(max(0, min(50, int(z))) for z in e.split(",")) + (0,)*sp.n)[:sp.n])
                p, d = poly(v, t, q)
                if MP.todict(p) != d: ctx.skip("polynomial arithmetic goes wrong (P30)")
                ws.append(G.Wrap(p))
            n = enterset(t, ws, op)
            ctx.obs("insert %d" % n)
        elif op == "find":
            for _ in range(4):
                if t.held and q.p(40): m = q.pick(t.held)[0]
                elif t.U and q.p(80):
                    u = q.pick(t.U)
                    e = list(u[1])
                    for _ in range(q.num(0, 3)): e[q.num(0, sp.n - 1)] += 1
                    if q.p(30): e[q.num(0, sp.n - 1)] = q.num(0, 2)
                    m = (u[0], tuple(e))
                else: m = (q.num(0, sp.comps - 1) if t.kind == "forest" else t.pos, tuple(q.num(0, 3) for _ in range(sp.n)))
                lookup(t, m)
                if t.kind == "cache" and q.p(50): lookup(t, m)
        elif op == "hp":
            D = max([sum(u[1]) for u in t.U] or [0])
            if D > 14 or sp.n > 3 and D > 8 or len(t.U) > 15: continue
            for w in list(t.tree)[:2]:
                for f, g in ((str, "str"), (repr, "repr")):
                    x = f(w)
                    l = dict((k.strip(), y) for k, _, y in (z.partition(": ") for z in x.split("\n")))
                    marks = ["".join(ch for ch in l.get(k, "") if ch in "*_") for k in ("prolong", "nonmult")]
                    want = ["".join("_*"[bool(b)] for b in m) for m in (w.prolong, w.nonmult)]
                    if marks != want or l.get("lm") != f(w.lm) or l.get("ansector") != f(w.ansector) or not l.get("poly") or not f(w.poly).startswith(l["poly"].replace(" ...", "")):
                        ctx.fail("text", "%s() of an element with leading monomial %s is\n%s" % (g, w.lm, x))
            h = t.tree.HP()
            for s in (D, D + 1, D + 3):
                c = 0
                for pos in (range(sp.comps) if t.kind == "forest" else [t.pos]):
                    U = [u for u in t.U if u[0] == pos]
                    c += sum(1 for e in all_upto(sp.n, s) if not pyref.janet_divisors(U, (pos, e)))
                g = Fraction(str(h.subs(s)))
                if g != c: ctx.fail("hilbert", "the Hilbert polynomial gives %s monomials up to degree %d, %d are left, tree %s" % (g, s, c, sorted(t.U)))
            if not re.fullmatch(r"[\ds^/+() -]+", str(h)): ctx.fail("text", "the Hilbert polynomial is shown as %s" % h)
            e = re.sub(r"(\d+)", r"F(\1)", re.sub(r"([\d)])s", r"\1*s", str(h))).replace("^F(", "**int(")
            for x in (0, 3, 10):
                if eval(e, {"F": Fraction, "s": Fraction(x)}) != Fraction(str(h.subs(x))): ctx.fail("text", "the Hilbert polynomial is shown as %s" % h)
            ctx.probe("Hilbert polynomial")
        elif op == "min":
            p = dict(t.pro)
            want = min([sum(e[1]) - 1 for e, _ in pending(t, lambda u, e: True)] or [0])
            t.pro = p
            if any(sum(u[1]) == 0 for u in t.U): continue
            if t.tree.degMinProlong() != want: ctx.fail("prolonged", "the lowest degree to prolong is %d instead of %d" % (t.tree.degMinProlong(), want))
        elif op in ("deg", "all", "upto"):
            d, x = int(a[1]), int(a[2])
            if op == "deg": ws, want = t.tree.prolongDeg(d), pending(t, lambda u, e: d == 0 or sum(u[1]) == d)
            elif op == "all": ws, want = t.tree.prolongAll(), pending(t, lambda u, e: True)
            else:
                m = (-1 if sp.kind == "ideal" else x % sp.comps, tuple((x >> 2*j) & 3 for j in range(sp.n)))
                ws, want = t.tree.prolongMonom(make(sp, m)), pending(t, lambda u, e: sp.key(e) <= sp.key(m))
            given(t, ws, want, op)
            q.shuffle(ws)
            if q.p(80): enterset(t, ws, op)
        elif op == "complete":
            start = list(t.U)
            for _ in range(60):
                ws = t.tree.prolongAll()
                given(t, ws, pending(t, lambda u, e: True), op)
                if not ws: break
                if len(t.U) + len(ws) > 40: ctx.skip("the tree outgrows the budget")
                ws.sort(key=lambda w: w.degree())
                enterset(t, ws, op)
            for u in t.U:             # every prolongation is findable, whether drawn now or lost earlier
                for v in range(sp.n):
                    e = (u[0], tuple(x + (j == v) for j, x in enumerate(u[1])))
                    lookup(t, e)
            ctx.probe("completion")
        elif op == "gb":
            l = [val(w.lm) for w in t.tree.GB()]
            want = [u for u in t.U if t.anc[u] == u]
            if sorted(l) != sorted(want): ctx.fail("ancestor", "the Groebner part is %s instead of %s" % (l, want))
        elif op == "cut":                # a question that is interrupted changes nothing
            k = int(a[1]) % 5
            m = make(sp, (t.pos if t.kind != "forest" else 0, tuple(q.num(0, 4) for _ in range(sp.n))))
            if t.U and q.p(70):
                u = q.pick(t.U)
                m = make(sp, (u[0], tuple(x + q.num(0, 1) for x in u[1])))
            lookup(t, val(m))
            interrupted(ctx, int(a[2]), [lambda: t.tree.findWrap(m), lambda: t.tree.find(m), lambda: list(t.tree), lambda: t.tree.HP(), lambda: (t.tree.degMinProlong(), list(t.tree.GB()))][k])
            lookup(t, val(m))
        elif op == "collect":
            gc.collect()
            ctx.fault("collected")
        alive(op)


def all_upto(n, s):
    if n == 1:
        for x in range(s + 1): yield (x,)
        return
    for x in range(s + 1):
        for e in all_upto(n - 1, s - x): yield (x,) + e
