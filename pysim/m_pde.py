"""The pure Python package over coefficients with variables and parameters (P31): linear differential systems with variable coefficients, also
inhomogeneous ones, and ideals, modules and difference schemes with symbolic parameters; texts, constructors and conversions (P32); interrupts, interleaving, clocks, broken output."""
import gc, re, sys, threading, time
import psim, pyref, oreref
import m_pure as base
from m_pure import Clock, Out, Sched, Stop, Hang, Run

FAULTS = ("clock_jump", "clock_stall", "output_failed", "interrupted", "session_switch", "collected")
PLAIN = {"clock": "0"}
G = None
WORK, HANG, SWELL = 60000, 400000, 1500000        # package calls after which a completion is measured for growth, and after which it counts as hanging; calls of any kind before its coefficients are measured


def boot():
    global G
    base.boot()
    G = base.G


def machine_for(prop, r):
    return "pde"


# ------------------------------------------------------------------ generation
def coef(r, n, npar, kind):
    t = []
    for _ in range(1 if r.p(80) else 2):
        e = [0]*(n + npar)
        lo = 0 if kind == "pde" else n
        if lo < n + npar and r.p(60):
            for _ in range(1 if r.p(75) else 2): e[r.num(lo, n + npar - 1)] += 1
        t.append("%d/%s" % (r.pick([-3, -2, -1, 1, 1, 1, 2, 5]), ".".join(map(str, e))))
    return "+".join(t)


def draw(r, n, npar, comps, kind, terms, deg):
    t = []
    for _ in range(r.num(1, terms)):
        e = [0]*n
        for _ in range(r.num(0 if r.p(20) else 1, deg)): e[r.num(0, n - 1)] += 1
        t.append("%s:%d:%s" % (coef(r, n, npar, kind), -1 if kind == "ideal" else r.num(0, comps - 1), ",".join(map(str, e))))
    return ";".join(t)


NAMES = [(["x0", "x1", "x2", "x3"], ["u0", "u1", "u2"]), (["t", "x", "y", "z"], ["u", "v", "w"]), (["x", "x1", "x11", "xx"], ["f", "f1", "f11"]), (["u", "u_1", "t", "u_2"], ["A", "B", "AB"]),
         (["j", "k", "n", "jk"], ["ux", "uy", "u"])]


def gen(prop, r, s):
    s.cfg["clock"] = r.num(0, 2)
    for _ in range(2 if r.p(15) else 1): gen_space(prop, r, s)


def gen_space(prop, r, s):
    kind = r.pick(["pde", "pde", "pde", "pde", "schem", "module", "ideal"])
    n = r.pick([1, 2, 2, 2, 3, 3]) if prop != "P32" or r.p(90) else 4
    npar = r.pick([0, 0, 1, 2]) if kind == "pde" else r.pick([1, 1, 2])
    comps = 1 if kind == "ideal" else r.pick([1, 1, 2, 3])
    order = r.pick(["TOPdeglex", "TOPdeglex", "POTdeglex", "TOPlex", "POTlex"])
    sol = "-"
    if kind == "pde" and r.p(30): sol = "|".join("+".join("%d/%s" % (r.num(1, 4), ".".join(str(r.pick([0, 0, 1, 2])) for _ in range(n + npar))) for _ in range(r.num(1, 2))) for _ in range(comps))
    s.add("space", kind, n, npar, comps, order, sol, r.num(0, len(NAMES) - 1))
    terms, deg = r.pick([(2, 3), (3, 2), (2, 2), (3, 3), (2, 1), (3, 1)])
    ids = []
    for k in range(r.num(1, 3)):
        if ids and r.p(25):
            op = r.pick(["add", "sub", "prolong", "mulc", "neg", "div"])
            s.add("expr", k, op, r.pick(ids), r.pick(ids), r.num(0, n - 1), coef(r, n, npar, kind))
        else:
            s.add("poly", k, r.num(0, 3), draw(r, n, npar, comps, kind, terms, deg))
        ids.append(k)
    def comp():
        algo = "block" if order == "TOPdeglex" and r.p(50) else "min"
        l = [x for x in ids if r.p(85)] or [r.pick(ids)]
        r.shuffle(l)
        if r.p(10): l.append(r.pick(l))
        return [algo, r.pick(["forest", "tree", "cache"]), 1 if r.p(25) else 0, ",".join(map(str, l))]
    nr = 0
    for _ in range(r.num(2, 6) if prop != "P32" else r.num(3, 12)):
        if prop == "P32":
            x = r.num(0, 99)
            if x < 5: s.add("run", nr, *comp())
            elif x < 8: s.add("interrupt", nr, *comp(), int(10**(r.random()*2.5)))
            elif x < 30: s.add("text", draw(r, n, npar, comps, kind, 4, 4 if r.p(75) else r.num(8, 24)))
            elif x < 45: s.add("convert", r.pick(ids))
            elif x < 55: s.add("gradus", r.num(0, 4), r.num(-1, comps - 1))
            elif x < 65: s.add("equal", r.pick(ids), r.pick(ids))
            elif x < 82: s.add("expr", r.pick(ids + [9]), r.pick(["add", "sub", "prolong", "prolong", "mulc", "neg", "div"]), r.pick(ids), r.pick(ids), r.num(0, n - 1), coef(r, n, npar, kind))
            elif x < 95: s.add("poly", r.pick(ids), r.num(0, 3), draw(r, n, npar, comps, kind, terms, deg))
            else: s.add("collect")
            continue
        x = r.num(0, 99)
        if x < 28 or not nr:
            s.add("run", nr, *comp())
            nr += 1
        elif x < 33: s.add("interrupt", nr, *comp(), int(10**(r.random()*3.2)))
        elif x < 36:
            c = comp()
            c[2] = 1
            s.add("brokenout", nr, *c, r.num(0, 12))
        elif x < 42:
            s.add("par", r.getrandbits(20), r.pick([2, 10, 40]), nr, *comp(), nr + 1, *comp())
            nr += 2
        elif x < 62: s.add("nf", r.num(0, nr - 1), r.pick(["NF", "NF", "NFhead", "NFtail"]), draw(r, n, npar, comps, kind, 3, 4 if r.p(60) else 6) if r.p(40) else "b%d" % r.getrandbits(20) if r.p(60) else "p%d" % r.pick(ids))
        elif x < 70: s.add("query", r.num(0, nr - 1))
        elif x < 80: s.add("convert", r.pick(ids))
        elif x < 86: s.add("text", draw(r, n, npar, comps, kind, 4, 4))
        elif x < 90: s.add("gradus", r.num(0, 4), r.num(-1, comps - 1))
        elif x < 95: s.add("equal", r.pick(ids), r.pick(ids))
        elif x < 98: s.add("collect")
        else: s.add("drop", r.num(0, nr - 1))


# ------------------------------------------------------------------ environment
class Tracer:
    """Counts calls; stops the party at a chosen call of the package or hands the turn to another one; ends runs whose coefficients grow without sense."""
    def __init__(self, ctx, limit=None, sched=None, me=0):
        self.ctx, self.n, self.all, self.limit, self.sched, self.me = ctx, 0, 0, limit, sched, me
    def __call__(self, frame, event, arg):
        if event != "call": return None
        self.all += 1
        if self.all % SWELL == 0:
            f, big = frame, 0
            while f:
                p = f.f_locals.get("self")
                if isinstance(p, G.Poly): big = max(big, sum(len(str(c)) for _, c in p))
                f = f.f_back
            if big > 2000 or self.all > 6*SWELL: self.ctx.skip("coefficient swell")
        if frame.f_code.co_filename.startswith(base.SRC):
            self.n += 1
            self.ctx.work += 1
            if self.limit is not None and self.n > self.limit: raise Stop()
            if self.n % WORK == 0 and base.grown(frame, 20, 150): self.ctx.skip("polynomials outgrow the budget")
            if self.n > HANG: raise Hang()
            if self.sched: self.sched.point(self.me)
        return None


def near(G, sp, seed):
    """a polynomial most of whose terms are derivatives of the leading terms of a basis"""
    r = psim.seeded("near", seed)
    t = []
    for _ in range(r.num(1, 3)):
        pos, e = pyref.lm(r.pick(G), sp.key) if G and r.p(85) else (-1 if sp.kind == "ideal" else r.num(0, sp.comps - 1), [0]*sp.n)
        e = list(e)
        x = r.num(0, sp.n - 1)
        for _ in range(r.pick([0, 1, 2, 2, 3])):
            e[x] += 1
            if r.p(30): x = r.num(0, sp.n - 1)
        t.append("%s:%d:%s" % (coef(r, sp.n, sp.npar, sp.kind), pos, ",".join(map(str, e))))
    return ";".join(t)


# ------------------------------------------------------------------ execution
def run(ctx, sc):
    time.time = Clock(sc.num("clock"), sc.seed, ctx)
    out = Out()
    keep = sys.stdout
    sys.stdout = out
    try:
        play(ctx, sc, out)
    except Hang:
        ctx.fail("hang", "no end within %d calls" % HANG)
    except BaseException as e:
        if isinstance(e, (psim.Violation, psim.Skip, Exception)): raise
        ctx.fail("exception", "%s escaped" % type(e).__name__)
    finally:
        sys.settrace(None)
        sys.stdout = keep
        time.time = base.real_time


def play(ctx, sc, out):
    import sympy
    sp = None

    def parse_coef(t):
        c = sp.A.num(0)
        for x in t.split("+"):
            k, e = x.split("/")
            c = c + sp.A.mono(int(k), ([max(0, int(v)) for v in e.split(".")] + [0]*9)[:sp.n + sp.npar])
        return c
    def parse(t):
        """the element a text describes, and its terms as (coefficient, component, exponents)"""
        v, l = {}, []
        if t == "0": return v, l
        for x in t.split(";"):
            c, pos, e = x.split(":")
            e = (tuple(max(0, int(k)) for k in e.split(",")) + (0,)*9)[:sp.n]
            c, pos = parse_coef(c), int(pos)
            if not c or pos >= sp.comps or (pos < 0) != (sp.kind == "ideal"): continue
            if sp.kind != "pde" and any(k for m in c.numer.monoms() for k in m[:sp.n]): continue
            sp.A.acc(v, (pos, e), c)
            l.append((c, pos, e))
        return v, l
    def show(v):
        return " + ".join("(%s)%s%s" % (v[m], m[0] if m[0] >= 0 else "", list(m[1])) for m in sorted(v, key=sp.key, reverse=True)) or "0"
    def read(p, what="a polynomial"):
        v, last = {}, None
        for m, c in p:
            k = (m.position(), tuple(m))
            d = sp.A.of(sympy.sympify(c))
            if not d: ctx.fail("zero-term", "%s has the coefficient %s, which is zero, at %r" % (what, c, m))
            if last is not None and sp.key(last) <= sp.key(k): ctx.fail("order", "the terms of %s are out of order: %r" % (what, p))
            v[k] = d
            last = k
        return v
    def form(p):
        return show(read(p))
    def proportional(v, w):
        if set(v) != set(w): return False
        if not v: return True
        m = next(iter(v))
        q = v[m]/w[m]
        return all(v[m] == q*w[m] for m in v)
    def monom(pos, e):
        return G.Monom(e) if pos < 0 else G.Monom(e, pos=pos)
    def build(how, v, l, q):
        """the same element by one of the ways a user has to write it"""
        l = list(l)
        q.shuffle(l)
        p = sp.cls()
        if sp.kind == "pde" and how == 2:
            t = sympy.Integer(0)
            fs = [f(*sp.X) for f in sp.F]
            for c, pos, e in l:
                d = [(x, k) for x, k in zip(sp.X, e) if k]
                t = t + sp.A.expr(c)*(sympy.Derivative(fs[pos], *d) if d else fs[pos])
            if sp.sol and (-1, (0,)*sp.n) in v: t = t + sp.A.expr(v[-1, (0,)*sp.n])
            if t != 0: p = G.PolyDiff.diff2poly(sympy.expand(t))
            ctx.probe("built from an expression")
            return p
        for c, pos, e in l:
            x = sp.A.expr(c)
            if how == 1 and sp.kind in ("pde", "schem"):
                a = []
                idx = [i for i, k in enumerate(e) for _ in range(k)] if q.p(40) else None
                if idx is not None:
                    q.shuffle(idx)
                    a = [sp.X[i] for i in idx]
                else:
                    idx = []
                    for i in range(sp.n):
                        k = e[i]
                        while k:
                            j = q.num(1, k) if q.p(50) else k
                            idx.append((i, j))
                            k -= j
                    q.shuffle(idx)
                    for i, k in idx: a += [sp.X[i]] + ([k] if k > 1 or q.p(30) else [])
                t = (sp.cls.df if sp.kind == "pde" else sp.cls.T)(sp.F[pos], *a)
                ctx.probe("built by df or T")
            elif how == 3 and pos < 0:
                t = sp.cls(1)
                for i, k in enumerate(e): t = t*sp.cls(G.Monom(i))**k
            else: t = sp.cls(monom(pos, e))
            t = x*t if q.p(30) and not isinstance(x, sympy.Expr) else t*x
            p = p + t if q.p(50) or not p else t + p
        k = (-1, (0,)*sp.n)
        if sp.sol and k in v: p = p + sp.A.expr(v[k])
        return p
    def solved(v):
        """the right hand side that makes the chosen functions a solution"""
        if not sp.sol: return v
        t = sp.A.num(0)
        for (pos, e), c in v.items():
            u = sp.sol[pos]
            for i, k in enumerate(e):
                for _ in range(k): u = u.diff(sp.A.gens[i])
            t = t + c*u
        v = dict(v)
        sp.A.acc(v, (-1, (0,)*sp.n), -t)
        return v
    def alive(op):
        for i, (p, v) in list(sp.P.items()):
            w = read(p, "%s: polynomial %s" % (op, i))
            if w != v: ctx.fail("input-changed", "%s: polynomial %s changed from %s to %s" % (op, i, show(v), show(w)))
        for p, v in sp.N:
            if read(p) != v: ctx.fail("result-changed", "%s: a normal form changed from %s to %s" % (op, show(v), form(p)))
        for i, R in sp.R.items():
            t = snapshot(R)
            if t != R.snap: ctx.fail("result-changed", "%s changed an earlier result\n%s\nwas\n%s" % (op, t, R.snap))
    def snapshot(R):
        return "|".join("%s %s %s" % (form(w.poly), w.lm.position(), "".join("*" if x else "." for x in w.nonmult)) for w in R.tree)
    def make(R, algo, tree, level, ids):
        if algo not in ("min", "block") or (algo == "block" and sp.order != "TOPdeglex"): return False
        l = [sp.P[i] for i in ids.split(",") if i in sp.P]
        l = [(p, v) for p, v in l if v and any(m[0] >= 0 or sp.kind == "ideal" for m in v)]
        if not l: return False
        R.polys, R.src = [p for p, _ in l], [v for _, v in l]
        R.algo, R.level, R.cached = algo, int(level), False
        if sp.kind == "ideal" or (sp.comps == 1 and not sp.sol and tree != "forest"):
            R.cached = tree == "cache" and sp.kind == "ideal"
            R.tree = G.JanetCache() if R.cached else G.Janet()
        else: R.tree = G.Forest(G.Janet)
        try:
            R.G = sp.A.groebner(R.src, sp.key, [15000])
        except pyref.Budget:
            ctx.skip("reference budget")
        return True
    def complete(R, tr):
        R.err = None
        sys.settrace(tr)
        try:
            R.ret = (G.ginvBlockLow if R.algo == "block" else G.ginvMin)(R.polys, R.tree, R.level)
        except (Stop, BrokenPipeError) as e:
            R.err = e
        finally:
            sys.settrace(None)
        R.calls = tr.n
    def accept(name, R, op):
        ctx.events += 1
        if R.ret is None or len(R.ret) != 3: ctx.fail("counters", "a completion returns %r" % (R.ret,))
        n = sp.n
        text = "\n  input %s\n  order %s, %s" % (" ; ".join(show(v) for v in R.src), sp.order, R.algo)
        ws = list(R.tree)
        U, B = [], []
        for w in ws:
            p = read(w.poly, "a basis element")
            if not p: ctx.fail("basis-zero", "the basis contains zero" + text)
            u = pyref.lm(p, sp.key)
            if (w.lm.position(), tuple(w.lm)) != u: ctx.fail("basis-form", "the leading monomial kept with %s is %r" % (show(p), w.lm) + text)
            U.append(u)
            B.append(p)
        text += "\n  basis " + " ; ".join(map(show, B))
        if len(set(U)) != len(U): ctx.fail("basis-duplicate", "two elements with one leading monomial" + text)
        for p in B:
            if sp.A.nf(p, R.G, sp.key): ctx.fail("basis-outside", "%s does not follow from the system" % show(p) + text)
            if sp.sol:
                v = dict(p)
                v.pop((-1, (0,)*n), None)
                if solved(v) != p: ctx.fail("basis-outside", "%s is not satisfied by the solution of the system" % show(p) + text)
        for g in R.G:
            m = pyref.lm(g, sp.key)
            d = pyref.janet_divisors(U, m)
            if len(d) != 1: ctx.fail("basis-incomplete", "%s has %d involutive divisors" % (m, len(d)) + text)
        if not pyref.janet_complete(U): ctx.fail("basis-incomplete", "a prolongation has no involutive divisor" + text)
        for v in R.src:
            if sp.A.nf(v, B, sp.key): ctx.fail("basis-incomplete", "%s of the input does not reduce to zero" % show(v) + text)
        for u, w in zip(U, ws):
            nm = [pyref.janet_nm(U, u, v) for v in range(n)]
            if [bool(x) for x in w.nonmult] != nm: ctx.fail("nonmult", "non-multiplicative variables of %s are %s instead of %s" % (u, w.nonmult, nm) + text)
        gb = sorted((w.lm.position(), tuple(w.lm)) for w in R.tree.GB())
        ref = sorted(pyref.lm(g, sp.key) for g in R.G)
        if gb != ref: ctx.fail("groebner-subset", "the Groebner subset has leading monomials %s instead of %s" % (gb, ref) + text)
        for u, p in zip(U, B):
            for m in p:
                if m != u and pyref.janet_divisors(U, m): ctx.fail("basis-tail", "tail term %s of %s is reducible" % (m, show(p)) + text)
            c = sp.A.content(p)
            if c is None: ctx.fail("basis-content", "fractions in " + show(p) + text)
            if c not in (1, -1): ctx.fail("basis-content", "common factor %s in %s" % (c, show(p)) + text)
        if R.tree.count() != len(U): ctx.fail("count", "the tree counts %d of %d elements" % (R.tree.count(), len(U)) + text)
        d = max(sum(u[1]) for u in U) + n
        hp = R.tree.HP()
        comps = [-1] if sp.kind == "ideal" else range(sp.comps)
        for s in (d, d + 2):
            want = sum(pyref.staircase_count(U, c, n, s) for c in comps)
            if isinstance(R.tree, G.Janet) or True:
                if hp.subs(s) != want: ctx.fail("hilbert", "the Hilbert polynomial at %d is %s instead of %d" % (s, hp.subs(s), want) + text)
        R.U, R.snap = U, snapshot(R)
        ctx.state("%s %s %d %s" % (sp.kind, sp.order, len(U), U[0]))
        ctx.probe("completion %s%s %s" % (R.algo, " cached" if R.cached else "", sp.kind))
        if sp.sol: ctx.probe("inhomogeneous system")
        if any(len(c.numer) > 1 or c.numer.degree() for p in B for c in p.values()): ctx.probe("coefficients with symbols")
        if len(U) > len(ref): ctx.probe("involutive basis larger than the Groebner basis")
        if len(R.G) > len(R.src): ctx.probe("integrability conditions found")
        if op in ("interrupt", "brokenout"): return
        sp.R[name] = R
        ctx.obs("%s %s counters %s %s HP %s" % (name, R.snap, R.ret[1], R.ret[2], list(hp)))

    for st in sc.steps:
        op, a = st[1], st[2]
        ctx.begin(st)
        q = psim.seeded(sc.seed, st[0])
        if op == "space":
            sp = Run()
            sp.kind, sp.n, sp.npar, sp.comps, sp.order = a[0], max(1, min(4, int(a[1]))), max(0, min(3, int(a[2]))), max(1, min(3, int(a[3]))), a[4]
            if sp.kind == "ideal": sp.comps = 1
            sp.key = pyref.key(sp.order)
            sp.P, sp.R, sp.N = {}, {}, []
            names = NAMES[int(a[6])%len(NAMES)]
            sp.vs, sp.fs = names[0][:sp.n], names[1][:sp.comps]
            G.Monom.cmp = getattr(G.Monom, sp.order)
            sp.cls = {"ideal": G.Poly, "module": G.Poly, "pde": G.PolyDiff, "schem": G.PolySchem}[sp.kind]
            if sp.kind == "ideal": G.Poly.init(sp.vs)
            elif sp.kind == "module": G.Poly.init(sp.vs, sp.fs)
            else:
                sp.X, sp.F = sp.cls.init(sp.vs, sp.fs)
                if [str(x) for x in sp.X] != sp.vs or [str(f) for f in sp.F] != sp.fs: ctx.fail("value", "init returns %s %s" % (sp.X, sp.F))
            sp.sym = [sympy.Symbol(x, real=True) for x in sp.vs + ["a%d" % i for i in range(sp.npar)]]
            sp.A = oreref.Algebra(sp.sym, sp.n, sp.kind == "pde")
            sp.sol = [parse_coef(t) for t in (a[5].split("|") + ["0/0"]*3)[:sp.comps]] if a[5] != "-" and sp.kind == "pde" else None
            continue
        if sp is None: continue
        if op == "poly":
            v, l = parse(a[2])
            v = solved(v)
            p = build(int(a[1]), v, l, q)
            w = read(p, "the polynomial built")
            if w != v: ctx.fail("value", "building %s gives %s" % (show(v), show(w)))
            sp.P[a[0]] = (p, v)
        elif op == "expr":
            if a[2] not in sp.P or a[3] not in sp.P: continue
            (x, vx), (y, vy), i, c = sp.P[a[2]], sp.P[a[3]], int(a[4]) % sp.n, parse_coef(a[5])
            if sp.kind != "pde" and any(k for m in c.numer.monoms() for k in m[:sp.n]): continue
            if not c: continue
            one = sp.A.num(1)
            if a[1] == "add": r, v = x + y, sp.A.add(vx, one, vy)
            elif a[1] == "sub": r, v = x - y, sp.A.add(vx, -one, vy)
            elif a[1] == "neg": r, v = -x, sp.A.add({}, -one, vx)
            elif a[1] == "mulc": r, v = x*sp.A.expr(c), sp.A.add({}, c, vx)
            elif a[1] == "div": r, v = x/sp.A.expr(c), sp.A.add({}, one/c, vx)
            elif a[1] == "prolong": r, v = x.prolong(i), sp.A.prolong(vx, i)
            else: continue
            w = read(r, "the result")
            if w != v: ctx.fail("value", "%s of %s and %s gives %s instead of %s" % (a[1], show(vx), show(vy), show(w), show(v)))
            sp.P[a[0]] = (r, v)
            ctx.obs("%s %s" % (a[1], show(v)))
        elif op in ("run", "interrupt", "brokenout"):
            R = Run()
            if not make(R, *a[1:5]): continue
            if op == "brokenout": out.left, R.level = int(a[5]), 1
            complete(R, Tracer(ctx, int(a[5]) if op == "interrupt" else None))
            out.left = None
            sp.R.pop(a[0], None)
            if R.err is not None:
                ctx.fault("interrupted" if op == "interrupt" else "output_failed")
                ctx.shape("stop%d" % R.calls)
            else: accept(a[0], R, op)
        elif op == "par":
            seed, percent, rest = int(a[0]), int(a[1]), a[2:]
            Rs = []
            for i in range(0, len(rest) - 4, 5):
                R = Run()
                if make(R, *rest[i+1:i+5]): Rs.append((rest[i], R))
            if not Rs: continue
            sd = Sched(ctx, (sc.seed, seed), percent, len(Rs))
            errs = []
            def party(k, R):
                sd.sem[k].acquire()
                try:
                    complete(R, Tracer(ctx, None, sd, k))
                except BaseException as e:
                    errs.append(e)
                finally:
                    sd.end(k)
            ts = [threading.Thread(target=party, args=(k, R)) for k, (_, R) in enumerate(Rs)]
            for t in ts: t.start()
            sd.sem[0].release()
            for t in ts: t.join()
            if errs: raise errs[0]
            ctx.probe("interleaved completions")
            for name, R in Rs:
                sp.R.pop(name, None)
                accept(name, R, op)
        elif op == "nf":
            R = sp.R.get(a[0])
            if not R: continue
            if a[2].startswith("p"):
                if a[2][1:] not in sp.P: continue
                p, v = sp.P[a[2][1:]]
                p = sp.cls(p)
            else:
                v, l = parse(a[2] if a[2][0] != "b" else near(R.G, sp, a[2]))
                v = solved(v)
                p = build(0, v, l, q)
            if not v: continue
            try:
                want = sp.A.nf(v, R.G, sp.key, [8000])
                if a[1] == "NFtail":
                    h = pyref.lm(v, sp.key)
                    want = sp.A.nf({m: c for m, c in v.items() if m != h}, R.G, sp.key, [8000])
                    want[h] = v[h]
            except pyref.Budget:
                ctx.skip("reference budget")
            tr = Tracer(ctx)
            sys.settrace(tr)
            try:
                r = getattr(p, a[1])(R.tree)
            finally:
                sys.settrace(None)
            if a[1] == "NF":
                if r is not p: ctx.fail("value", "NF returns another object")
            got = read(p, "the normal form")
            if a[1] == "NF" and got != want: ctx.fail("normal-form", "the normal form of %s is %s instead of %s\n  basis %s" % (show(v), show(got), show(want), R.snap))
            if a[1] == "NFtail" and not proportional(got, want): ctx.fail("normal-form", "the tail normal form of %s is %s instead of a multiple of %s\n  basis %s" % (show(v), show(got), show(want), R.snap))
            if a[1] == "NFhead":
                if bool(got) != bool(want): ctx.fail("normal-form", "reducing the head of %s gives %s instead of %s\n  basis %s" % (show(v), show(got), show(want), R.snap))
                if got:
                    g = pyref.lm(got, sp.key)
                    if pyref.janet_divisors(R.U, g): ctx.fail("normal-form", "the head %s is still reducible" % (g,))
                    if not proportional(sp.A.nf(got, R.G, sp.key), want): ctx.fail("normal-form", "reducing the head of %s gives %s, which is not equivalent\n  basis %s" % (show(v), show(got), R.snap))
            sp.N.append((p, got))
            ctx.probe("%s %s" % (a[1], "nonzero" if want else "zero"))
            ctx.obs("nf " + show(got))
        elif op == "query":
            R = sp.R.get(a[0])
            if not R: continue
            for _ in range(4):
                u = q.pick(R.U)
                e = list(u[1])
                for _ in range(q.num(0, 3)): e[q.num(0, sp.n - 1)] += 1
                if q.p(30): e[q.num(0, sp.n - 1)] = 0
                m = (u[0], tuple(e))
                want = pyref.janet_divisors(R.U, m)
                w = R.tree.findWrap(monom(*m))
                got = [(w.lm.position(), tuple(w.lm))] if w else []
                if got != want: ctx.fail("lookup", "looking up %s finds %s instead of %s\n  basis %s" % (m, got, want, R.snap))
                p = R.tree.find(monom(*m))
                if bool(p) != bool(want): ctx.fail("lookup", "find disagrees with findWrap for %s" % (m,))
                if p:
                    v = read(p)
                    if sp.A.nf(v, R.G, sp.key) or (R.cached and pyref.lm(v, sp.key) != m): ctx.fail("lookup", "the element found for %s is %s" % (m, show(v)))
            ctx.obs("query %d" % R.tree.count())
        elif op in ("convert", "text"):
            if op == "convert":
                if a[0] not in sp.P: continue
                p, v = sp.P[a[0]]
            else:
                v, l = parse(a[0])
                p = build(q.num(0, 3), v, l, q)
            if not v: continue
            conversions(ctx, sp, p, v, read, show, q, sympy)
        elif op == "gradus":
            d, pos = max(0, min(6, int(a[0]))), int(a[1])
            if pos >= sp.comps: continue
            if sp.kind == "ideal": pos = -1
            l = [(m.position(), tuple(m)) for m in (G.Monom.gradus(d, pos) if q.p(50) or pos >= 0 else G.Monom.gradus(d))]
            want = {(pos, e) for e in exponents(sp.n, d)}
            if len(l) != len(set(l)) or set(l) != want: ctx.fail("value", "gradus(%d, %d) gives %s" % (d, pos, l))
            ctx.obs("gradus %d" % len(l))
        elif op == "equal":
            if a[0] not in sp.P or a[1] not in sp.P: continue
            (p, v), (r, w) = sp.P[a[0]], sp.P[a[1]]
            if not (p == sp.cls(p)) or p != sp.cls(p): ctx.fail("value", "a copy of %s is not equal to it" % show(v))
            if v != w and p == r: ctx.fail("value", "%s is equal to %s" % (show(v), show(w)))
            ctx.obs("equal %d" % (v == w))
        elif op == "collect":
            gc.collect()
            ctx.fault("collected")
        elif op == "drop":
            sp.R.pop(a[0], None)
        alive(op)


def exponents(n, d):
    if n == 1:
        yield (d,)
        return
    for k in range(d + 1):
        for e in exponents(n - 1, d - k): yield (k,) + e


def conversions(ctx, sp, p, v, read, show, q, sympy):
    """every text form of an element denotes that element"""
    env = {str(s): s for s in sp.sym}
    zero = (-1, (0,)*sp.n)
    t = str(p)
    e = dict(env)
    back = lambda r: read(r if isinstance(r, G.Poly) else sp.cls(sympy.sympify(r)))
    if sp.kind in ("pde", "schem"):
        for f, s in zip(sp.F, sp.fs): e[s] = f
        e["df" if sp.kind == "pde" else "T"] = sp.cls.df if sp.kind == "pde" else sp.cls.T
        if zero in v and len(v) == 1: return
        # terms are written in order: read them one by one, as the coefficient is written without brackets
        r, x = {}, None
        for m, c in p:
            part = (m.df() if sp.kind == "pde" else m.T())
            k = (m.position(), tuple(m))
            if k == zero: continue
            w = read(eval(part, e))
            if w != {k: sp.A.num(1)}: ctx.fail("text", "%s is written %s" % (k, part))
            if part not in t: ctx.fail("text", "%s does not appear in %s" % (part, t))
        if all(c.denom == 1 and len(c.numer) == 1 for c in v.values()):
            w = back(eval(t, e))
            if w != v: ctx.fail("text", "%s is written %s, which reads back as %s" % (show(v), t, show(w)))
            ctx.probe("text read back")
    else:
        e.update({s: sp.cls(G.Monom(i)) for i, s in enumerate(sp.vs)})
        e.update({s: sp.cls(G.Monom(pos=i)) for i, s in enumerate(sp.fs)} if sp.kind == "module" else {})
        if all(c.denom == 1 and len(c.numer) == 1 for c in v.values()):
            w = back(eval(t, e))
            if w != v: ctx.fail("text", "%s is written %s, which reads back as %s" % (show(v), t, show(w)))
            ctx.probe("text read back")
    for m, c in p:
        k = (m.position(), tuple(m))
        if sp.kind in ("ideal", "module"):
            got = re.findall(r"\{(\w+)\}(?:\^(\d+))?", m.latex())
            x = {a: int(b or 1) for a, b in got}
            if len(x) != len(got) or x != {sp.vs[i]: d for i, d in enumerate(k[1]) if d}: ctx.fail("text", "%s is written %s" % (k, m.latex()))
            if m.latex().split(" ")[0] != sp.fs[k[0]] if k[0] >= 0 else (m.latex() == "1") != (not x): ctx.fail("text", "%s is written %s" % (k, m.latex()))
        elif k != zero and sp.kind == "pde":
            g = re.fullmatch(r"\{(\w+)\}(?:_\{((?:\{\w+\}\s*)+)\})?", m.df_latex())
            if not g or g[1] != sp.fs[k[0]] or re.findall(r"\{(\w+)\}", g[2] or "") != [sp.vs[i] for i, d in enumerate(k[1]) for _ in range(d)]: ctx.fail("text", "%s is written %s" % (k, m.df_latex()))
        elif k != zero:
            x = m.T_latex()
            g = re.fullmatch(r"\{(\w+)\}_\{(.*)\}", x)
            y = re.findall(r"\{(\w+)\}(?: \+ (\d+))?", g[2]) if g else None
            if not g or g[1] != sp.fs[k[0]] or [(a, int(b or 0)) for a, b in y] != list(zip(sp.vs, k[1])): ctx.fail("text", "%s is written %s" % (k, x))
        if repr(m).strip("[]").split(";")[-1].split() != [str(d) for d in k[1]]: ctx.fail("text", "%s is written %r" % (k, m))
    if sp.kind == "pde":
        e = dict(env)
        e.update(zip(sp.fs, sp.F))
        if all(len(c.numer) == 1 or c.denom == 1 for c in v.values()):
            want = sum(sp.A.expr(c)*(1 if m[0] < 0 else sympy.diff(sp.F[m[0]](*sp.X), *[(x, d) for x, d in zip(sp.X, m[1]) if d]) if any(m[1]) else sp.F[m[0]](*sp.X)) for m, c in v.items())
            if all(len(c.numer) == 1 and c.denom == 1 for c in v.values()):
                got = eval(p.df_sympy(), e)
                if sympy.expand(got - want) != 0: ctx.fail("text", "%s is written %s" % (show(v), p.df_sympy()))
                ctx.probe("expression read back")
            expr = sympy.expand(want)
            if all(c.denom == 1 for c in v.values()) and expr != 0:
                w = read(G.PolyDiff.diff2poly(expr))
                if w != v: ctx.fail("value", "diff2poly of %s gives %s instead of %s" % (expr, show(w), show(v)))
    ctx.obs("text " + t)
