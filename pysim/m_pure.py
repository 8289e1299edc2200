"""The pure Python package: completions (P25, P26, P27) and arithmetic (P30) under interleaving, interrupts, clocks, broken output."""
import gc, io, json, os, subprocess, sys, threading, time
from fractions import Fraction
import psim, pyref

FAULTS = ("clock_jump", "clock_stall", "output_failed", "interrupted", "session_switch", "environment_differs", "collected", "rendering_refused")
PLAIN = {"clock": "0"}
SRC = os.environ.get("SIM_PYGINV", "/repo/pyginv")
WORK, HANG = 500000, 3000000        # package calls after which one completion is measured for growth, and after which it counts as hanging (see DESIGN.md)
G = None
KINDS = {"P25": ["ideal"], "P26": ["module", "module", "diff", "schem"], "P27": ["ideal", "ideal", "module", "diff", "schem"], "P30": ["ideal", "module"], "P29": ["ideal", "ideal", "module", "diff", "schem"]}
real_time = time.time


def boot():
    global G
    sys.path.insert(0, SRC)
    sys.dont_write_bytecode = True
    import ginv
    G = ginv
    if "serve" not in sys.argv and os.environ.get("SIM_PROP_P27") == "1":
        start_other()


# ------------------------------------------------------------------ another interpreter with another hash seed
other = None
def start_other():
    global other
    e = dict(os.environ, PYTHONHASHSEED=str(1 + int(os.environ.get("PYTHONHASHSEED", "0") or 0)*7 + 11), SIM_PROP_P27="0")
    other = subprocess.Popen([sys.executable, "-B", os.path.join(psim.HERE, "psim.py"), "m_pure", "serve"], env=e, stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True)


def serve():
    me = sys.modules[__name__]
    for l in sys.stdin:
        sc = psim.Scenario.parse(json.loads(l))
        o = psim.execute(me, sc, entry=run)
        print(json.dumps(dict(cls=o.cls, msg=o.msg, skipped=o.skipped, lines=o.rec["lines"] if o.rec else [])), flush=True)
    return 0


def machine_for(prop, r):
    return {"P30": "arith", "P35": "mono", "P36": "tree"}.get(prop, "pure")


# ------------------------------------------------------------------ generation
def draw(r, n, comps, terms, deg, ring):
    t = {}
    frac = r.p(12)
    for _ in range(r.num(1, terms)):
        e = [0]*n
        for _ in range(r.num(0 if r.p(20) else 1, deg)): e[r.num(0, n - 1)] += 1
        c = r.pick([-4, -3, -2, -1, 1, 1, 2, 3, 5, 7])
        t[(-1 if ring else r.num(0, comps - 1), tuple(e))] = Fraction(c, r.pick([1, 2, 3, 4, 5, 6])) if frac else c
    return t


def dense_poly(r, n, terms, deg):
    t = {}
    while len(t) < terms:
        e = [0]*n
        for _ in range(0 if r.p(10) else r.num(1, deg)): e[r.num(0, n - 1)] += 1
        t[(-1, tuple(e))] = r.pick([1, -1, 2, 3, 5, -1, 1])
    return t


def number(c):
    if c.denominator == 1: return int(c)
    import sympy
    return sympy.Rational(c.numerator, c.denominator)


def text(p):
    return ";".join("%s:%d:%s" % (c, m[0], ",".join(map(str, m[1]))) for m, c in p.items()) or "0"


def parse(t, n):
    p = {}
    if t != "0":
        for x in t.split(";"):
            c, pos, e = x.split(":")
            e = (tuple(max(0, int(v)) for v in e.split(",")) + (0,)*n)[:n]
            p[(int(pos), e)] = p.get((int(pos), e), 0) + Fraction(c)
    return {m: c for m, c in p.items() if c}


def gen(prop, r, s):
    s.cfg["clock"] = r.num(0, 2)
    if prop == "P30":
        return gen_arith(r, s)
    if prop in ("P35", "P36"):
        import m_tree
        return (m_tree.gen_mono if prop == "P35" else m_tree.gen_tree)(r, s)
    for sp in range(2 if r.p(12) else 1):
        kind = r.pick(KINDS[prop])
        ring = kind == "ideal"
        n = r.pick([1, 2, 2, 2, 3, 3, 3, 4])
        comps = 1 if ring else r.pick([1, 2, 2, 3])
        order = r.pick(["TOPdeglex", "TOPdeglex", "POTdeglex", "TOPlex", "POTlex"])
        s.add("space", kind, n, comps, order)
        shape = r.num(0, 3)
        terms, deg = [(2, 4), (3, 3), (4, 2), (3, 2)][shape]
        if n == 4: terms, deg = min(terms, 3), 2
        if "lex" in order and "deglex" not in order: deg = min(deg, 3 if n < 3 else 2)
        # three dense polynomials in three or four variables: completions that reject and come back to leading monomials
        dense = ring and prop != "P27" and r.p(25)
        if dense:
            n = r.pick([3, 3, 3, 4])
            order = "TOPdeglex"
            s.steps.pop()
            s.add("space", kind, n, comps, order)
            for k in range(3): s.add("poly", k, text(dense_poly(r, n, r.num(2, 4 if n == 3 else 3), 4 if n == 3 else 3)))
            s.add("run", 0, r.pick(["block", "min"]), "cache" if r.p(40) else "plain", 1 if r.p(10) else 0, "0,1,2")
            if r.p(30): s.add("nf", 0, text(draw(r, n, 1, 3, 3, True)))
            continue
        ids = []
        mirror, last = comps > 1 and r.p(25), None      # the same system in two components, so that both advance together
        for k in range((4 if r.p(60) else 6) if mirror else r.num(1, 4 if n < 4 else 3)):
            if mirror:
                if k % 2 == 0: last = draw(r, n, 1 if r.p(80) else comps, terms, deg, ring)
                else: last = {((m[0] + 1) % comps, m[1]): c for m, c in last.items()}
                s.add("poly", k, text(last))
            elif ids and r.p(30):
                op = r.pick(["add", "sub", "prolong", "mulc", "neg", "sum3"])
                s.add("expr", k, op, r.pick(ids), r.pick(ids), r.num(0, n - 1) if op == "prolong" else r.pick([-3, -2, -1, 1, 2, 5]))
            else:
                s.add("poly", k, text(draw(r, n, comps, terms, deg, ring)))
            ids.append(k)
        def comp():
            algo = "block" if order == "TOPdeglex" and r.p(50) else "min"
            tree = "cache" if ring and r.p(40) else "plain"
            l = [x for x in ids if r.p(80)] or [r.pick(ids)]
            r.shuffle(l)
            if r.p(10): l.append(r.pick(l))
            return [algo, tree, 1 if r.p(25) else 0, ",".join(map(str, l))]
        nr = 0
        for _ in range(r.num(1, 3) if prop != "P27" else r.num(2, 5)):
            x = r.num(0, 99)
            if prop == "P27" and x < 25:
                s.add("interrupt", nr, *comp(), int(10**(r.random()*3.6)))
            elif prop == "P27" and x < 35:
                c = comp()
                c[2] = 1
                s.add("brokenout", nr, *c, r.num(0, 12))
            elif prop == "P27" and x < 65:
                k = r.num(2, 3)
                a = []
                for q in range(k): a += [nr + q] + comp()
                s.add("par", r.getrandbits(20), r.pick([2, 10, 40]), *a)
                nr += k - 1
            else:
                s.add("run", nr, *comp())
            nr += 1
            if r.p(35): s.add("nf", r.num(0, nr - 1), text(draw(r, n, comps, 3, 3, ring)) if r.p(60) else "p%d" % r.pick(ids))
            if r.p(30): s.add("query", r.num(0, nr - 1))
            if prop == "P29":
                for _ in range(r.num(0, 2)): s.add("draw", r.num(0, nr - 1), r.num(0, 3), r.pick([0, 0, 0, 1, 2, 3]))
            if r.p(15): s.add("collect")
            if r.p(10): s.add("drop", r.num(0, nr - 1))


# ------------------------------------------------------------------ environment
class Clock:
    def __init__(self, mode, seed, ctx):
        self.t, self.mode, self.r, self.ctx = 1.7e9, mode, psim.seeded("clock", seed), ctx
    def __call__(self):
        if self.mode == 1:
            self.ctx.fault("clock_stall")
        elif self.mode == 2:
            d = self.r.num(-5000, 5000)
            self.t += d
            self.ctx.ticks += abs(d)
            self.ctx.fault("clock_jump")
        else:
            d = self.r.num(0, 1000)/1000.
            self.t += d
            self.ctx.ticks += d
        return self.t


class Out(io.StringIO):
    """standard output of the code under test; breaks after a number of writes when armed"""
    left = None
    def write(self, s):
        if self.left is not None:
            if self.left <= 0: raise BrokenPipeError(32, "simulated broken pipe")
            self.left -= 1
        return len(s)


class Gv:
    """stands for the graphviz binding: records the diagram, may refuse to lay it out or to write it"""
    how = 0
    def __init__(self, ctx):
        self.ctx, self.shown = ctx, None
    def graph(self, name):
        self.nodes, self.edges, self.attr = {}, [], {}
        return self
    digraph = graph
    def node(self, g, name):
        return self.nodes.setdefault(name, ("node", name, {}))
    def edge(self, a, b):
        e = ("edge", (a[1], b[1]), {})
        self.edges.append(e)
        return e
    def setv(self, o, k, v):
        (self.attr if o is self else o[2])[k] = v
    def layout(self, g, engine):
        if self.how == 1:
            self.ctx.fault("rendering_refused")
            return False
        return True
    def render(self, g, form, name):
        if self.how == 2:
            self.ctx.fault("rendering_refused")
            return False
        if self.how == 3:
            self.ctx.fault("rendering_refused")
            raise OSError(28, "simulated full disk")
        self.shown = (form, name, dict(self.nodes), list(self.edges))
        return True


def check_diagram(ctx, tree, shown, level, name):
    form, fn, nodes, edges = shown
    if (form, fn) != (name.split(".")[-1], name): ctx.fail("draw-file", "written as %s to %s instead of %s" % (form, fn, name))
    out, inn = {n: {} for n in nodes}, set()
    for _, (a, b), at in edges:
        k = at.get("style")
        if k in out[a] or k not in ("dotted", "solid") or at.get("dir") != "forward": ctx.fail("draw-edges", "an edge too many or drawn %s" % at)
        if b in inn: ctx.fail("draw-edges", "a node with two edges towards it")
        out[a][k] = b
        inn.add(b)
    def lines(l):
        l = l[1:-1] if l.startswith("<") and l.endswith(">") else l
        bold = "<B>" in l
        return ["B" if bold else "-"] + [x.strip() for x in l.replace("<B>", "").replace("</B>", "").split("<BR/>")]
    def text(n):
        at = nodes[n][2]
        l = at.get("label", n)
        return [lines(l) if l.startswith("<") else l, text(out[n]["dotted"]) if "dotted" in out[n] else None, text(out[n]["solid"]) if "solid" in out[n] else None]
    def want(r, i=0):
        while i < len(r) and not (isinstance(r[i], G.Wrap) or r[i]): i += 1
        if i == len(r): return None
        n = r[i]
        if isinstance(n, G.Wrap):
            l = ["B" if n.ansector.degree() == n.lm.degree() else "-", repr(n.lm).strip()]
            if level >= 1: l.append(" ".join("*" if x else "_" for x in n.nonmult))
            if level >= 2: l.append(" ".join("*" if x else "_" for x in n.prolong))
            if level >= 3: l.append(repr(n.ansector).strip())
            return [l, None, want(r, i + 1)]
        return [str(i), want(n), want(r, i + 1)]
    tops = [n for n in nodes if n not in inn]
    marks = [n for n in tops if "#Janet" in nodes[n][2].get("label", "")]
    if len(marks) != 1: ctx.fail("draw-nodes", "%d headings" % len(marks))
    tops.remove(marks[0])
    exp = want(tree.root)
    got = [text(n) for n in tops]
    if got != ([exp] if exp else []): ctx.fail("draw-nodes", "the diagram shows %s of the tree %s" % (got, exp))
    deg = max([w.lm.degree() for w in tree] or [0])
    h = "".join(lines(nodes[marks[0]][2]["label"])[1:])
    if h != "#Janet = %dHP_{%d} = %s" % (tree.count(), deg, tree.HP()): ctx.fail("draw-label", "the heading is " + h)
    ctx.probe("diagram with %s" % ("one node" if len(nodes) < 3 else "over ten nodes" if len(nodes) > 11 else "a few nodes"))
    ctx.obs("diagram %s" % (got,))


class Stop(BaseException):
    """simulated interrupt"""


class Hang(BaseException):
    pass


def grown(frame, terms=30, digits=40):
    """is a polynomial in work much longer than any of a small system?"""
    while frame:
        for p in list(frame.f_locals.values()):
            if isinstance(p, G.Poly) and (len(p) > terms or any(len(str(c)) > digits for _, c in p)): return True
        frame = frame.f_back
    return False


class Tracer:
    """Counts the calls inside the package; stops the party at a chosen call or hands the turn to another one."""
    def __init__(self, ctx, limit=None, sched=None, me=0):
        self.ctx, self.n, self.limit, self.sched, self.me = ctx, 0, limit, sched, me
    def __call__(self, frame, event, arg):
        if event == "call" and frame.f_code.co_filename.startswith(SRC):
            self.n += 1
            self.ctx.work += 1
            if self.limit is not None and self.n > self.limit: raise Stop()
            if self.n % WORK == 0 and grown(frame): self.ctx.skip("polynomials outgrow the budget")
            if self.n > HANG: raise Hang()
            if self.sched: self.sched.point(self.me)
        return None


class Sched:
    """One party runs at a time; the seed decides when the turn passes."""
    def __init__(self, ctx, seed, percent, k):
        self.ctx, self.r, self.percent = ctx, psim.seeded("sched", seed), percent
        self.sem = [threading.Semaphore(0) for _ in range(k)]
        self.alive = list(range(k))
    def point(self, me):
        if len(self.alive) > 1 and self.r.randrange(1000) < self.percent:
            self.go(me, self.r.pick([x for x in self.alive if x != me]))
    def go(self, me, to):
        self.ctx.fault("session_switch")
        self.ctx.shape("%d" % to)
        self.sem[to].release()
        self.sem[me].acquire()
    def end(self, me):
        self.alive.remove(me)
        if self.alive: self.sem[self.r.pick(self.alive)].release()


# ------------------------------------------------------------------ execution
class Run:
    pass


def todict(p):
    r = {}
    for m, c in p:
        r[(m.position(), tuple(int(x) for x in m))] = Fraction(int(c.p), int(c.q)) if hasattr(c, "p") else Fraction(c)
    return r


def strd(p, k):
    return text({m: p[m] for m in sorted(p, key=k, reverse=True)})


def judge(ctx, sc):
    if sc.prop != "P27":
        return run(ctx, sc)
    # the same history in an interpreter with other hashes, another clock, other verbosity: the same observations
    run(ctx, sc)
    if other is None: return
    v = sc.copy()
    v.cfg["clock"] = str((sc.num("clock") + 1) % 3)
    v.cfg["flip"] = "1"
    ctx.step = None
    other.stdin.write(json.dumps(v.text()) + "\n")
    other.stdin.flush()
    o = json.loads(other.stdout.readline())
    ctx.fault("environment_differs")
    if o["skipped"]: return
    if o["cls"]: ctx.fail(o["cls"], "in another environment: " + o["msg"])
    for a, b in zip(ctx.lines, o["lines"]):
        if a != b: ctx.fail("environment-visible", "another hash seed, clock and verbosity give\n  %s\ninstead of\n  %s" % (b, a))
    if len(ctx.lines) != len(o["lines"]): ctx.fail("environment-visible", "another environment gives %d observations instead of %d" % (len(o["lines"]), len(ctx.lines)))


def run(ctx, sc):
    time.time = Clock(sc.num("clock"), sc.seed, ctx)
    out = Out()
    keep = sys.stdout
    sys.stdout = out
    try:
        import m_tree
        dict(arith=run_arith, mono=m_tree.run_mono, tree=m_tree.run_tree).get(sc.machine, run_pure)(ctx, sc, out)
    except Hang:
        ctx.fail("hang", "no end within %d calls" % HANG)
    except BaseException as e:
        if isinstance(e, (psim.Violation, psim.Skip, Exception)): raise
        ctx.fail("exception", "%s escaped" % type(e).__name__)
    finally:
        sys.settrace(None)
        sys.stdout = keep
        time.time = real_time


def same(p, q):
    return len(p) == len(q) and all(a[0] == b[0] and a[0].position() == b[0].position() and a[1] == b[1] for a, b in zip(p, q))


def run_pure(ctx, sc, out):
    prop, flip = sc.prop, sc.num("flip")
    sp = None
    q = None
    def order_ok(p):
        ks = [sp.key((m.position(), tuple(m))) for m, c in p]
        return all(a > b for a, b in zip(ks, ks[1:]))
    def alive(op):
        for i, (p, v) in list(sp.P.items()):
            w = todict(p)
            if w != v: ctx.fail("input-changed", "%s: polynomial %s changed from %s to %s" % (op, i, strd(v, sp.key), strd(w, sp.key)))
            if not order_ok(p): ctx.fail("input-changed", "%s: the terms of polynomial %s are out of order" % (op, i))
        for w, m, t in sp.N:
            if todict(w) != t: ctx.fail("result-changed", "%s: the normal form of %s changed from %s to %s" % (op, m, strd(t, sp.key), strd(todict(w), sp.key)))
        for i, R in sp.R.items():
            t = snapshot(R)
            if R.hp[1] != [str(x) for x in R.hp[0]]: ctx.fail("result-changed", "%s changed a Hilbert polynomial handed out earlier: %s was %s" % (op, [str(x) for x in R.hp[0]], R.hp[1]))
            if t != R.snap: ctx.fail("result-changed", "%s changed an earlier result\n%s\nwas\n%s" % (op, t, R.snap))
    def snapshot(R):
        return "|".join("%s %s %s" % (strd(todict(w.poly), sp.key), w.lm.position(), "".join("*" if x else "." for x in w.nonmult)) for w in R.tree)
    def make(R, algo, tree, level, ids):
        if algo not in ("min", "block") or (algo == "block" and sp.order != "TOPdeglex"): return False
        l = [sp.P[i] for i in ids.split(",") if i in sp.P]
        R.src = [v for p, v in l if v]
        R.polys = [p for p, v in l if v]
        if not R.polys: return False
        R.algo, R.level = algo, (int(level)) ^ flip
        if sp.kind == "ideal": R.tree = G.JanetCache() if tree == "cache" else G.Janet()
        else: R.tree = G.Forest(G.Janet)
        R.cached = sp.kind == "ideal" and tree == "cache"
        R.b = [300000]
        try:
            R.G = pyref.groebner(R.src, sp.key, R.b)
        except pyref.Budget:
            ctx.skip("reference budget")
        return True
    def complete(R, tr):
        R.err = None
        sys.settrace(tr)
        try:
            R.ret = (G.ginvBlockLow if R.algo == "block" else G.ginvMin)(R.polys, R.tree, R.level)
        except (Stop, BrokenPipeError) as e:
            R.err = e
        finally:
            sys.settrace(None)
        R.calls = tr.n
    def accept(name, R, op):
        U = []
        ctx.events += 1
        if R.ret is None or len(R.ret) != 3: ctx.fail("counters", "a completion returns %r" % (R.ret,))
        n = sp.n
        ctxt = "\n  input %s\n  order %s, %s" % (" ; ".join(strd(v, sp.key) for v in R.src), sp.order, R.algo)
        ws = list(R.tree)
        B = []
        for w in ws:
            p = todict(w.poly)
            if not p: ctx.fail("basis-zero", "the basis contains zero" + ctxt)
            if not order_ok(w.poly): ctx.fail("basis-form", "terms out of order in %s" % strd(p, sp.key) + ctxt)
            u = pyref.lm(p, sp.key)
            if (w.lm.position(), tuple(w.lm)) != u: ctx.fail("basis-form", "the leading monomial kept with %s is %r" % (strd(p, sp.key), w.lm) + ctxt)
            U.append(u)
            B.append(p)
        show = "\n  basis " + " ; ".join(strd(p, sp.key) for p in B)
        if len(set(U)) != len(U): ctx.fail("basis-duplicate", "two elements with one leading monomial" + ctxt + show)
        for p in B:
            if pyref.nf(p, R.G, sp.key): ctx.fail("basis-outside", "%s is not in the ideal" % strd(p, sp.key) + ctxt + show)
        for g in R.G:
            m = pyref.lm(g, sp.key)
            if len(pyref.janet_divisors(U, m)) != 1: ctx.fail("basis-incomplete", "%s has %d involutive divisors" % (m, len(pyref.janet_divisors(U, m))) + ctxt + show)
        if not pyref.janet_complete(U): ctx.fail("basis-incomplete", "a prolongation has no involutive divisor" + ctxt + show)
        for u, w in zip(U, ws):
            nm = [pyref.janet_nm(U, u, v) for v in range(n)]
            if [bool(x) for x in w.nonmult] != nm: ctx.fail("nonmult", "non-multiplicative variables of %s are %s instead of %s" % (u, w.nonmult, nm) + ctxt + show)
        gb = sorted((w.lm.position(), tuple(w.lm)) for w in R.tree.GB())
        ref = sorted(pyref.lm(g, sp.key) for g in R.G)
        if gb != ref: ctx.fail("groebner-subset", "the Groebner subset has leading monomials %s instead of %s" % (gb, ref) + ctxt + show)
        if prop in ("P25", "P26"):
            for u, p in zip(U, B):
                for m in p:
                    if m != u and pyref.janet_divisors(U, m): ctx.fail("basis-tail", "tail term %s of %s is reducible" % (m, strd(p, sp.key)) + ctxt + show)
                if any(c.denominator != 1 for c in p.values()): ctx.fail("basis-content", "fractions in " + strd(p, sp.key) + ctxt)
                g = 0
                for c in p.values(): g = pyref.gcd(g, c.numerator)
                if g != 1: ctx.fail("basis-content", "common factor %d in %s" % (g, strd(p, sp.key)) + ctxt)
        if R.tree.count() != len(U): ctx.fail("count", "the tree counts %d of %d elements" % (R.tree.count(), len(U)) + ctxt)
        d = max(sum(u[1]) for u in U) + n
        hp = R.tree.HP()
        for s in (d, d + 2):
            want = sum(pyref.staircase_count(U, c, n, s) for c in ([-1] if sp.kind == "ideal" else range(sp.comps)))
            if hp.subs(s) != want: ctx.fail("hilbert", "the Hilbert polynomial at %d is %s instead of %d" % (s, hp.subs(s), want) + ctxt + show)
        R.hp = (hp, [str(x) for x in hp])
        R.U = U
        R.snap = snapshot(R)
        ctx.state("%s %d %s" % (sp.order, len(U), U[0] if U else ""))
        ctx.probe("completion " + R.algo + (" cached" if R.cached else "") + " " + sp.kind)
        if op in ("interrupt", "brokenout"): return     # whether the fault hits depends on verbosity: such a result is judged and dropped
        sp.R[name] = R
        ctx.obs("%s %s counters %s %s HP %s" % (name, R.snap, R.ret[1], R.ret[2], list(hp)))
        if len(U) == 1 and sum(U[0][1]) == 0 and U[0][0] < 0: ctx.probe("trivial ideal")
        if len(U) > 8: ctx.probe("basis over 8 elements")
        if len(U) > len(ref): ctx.probe("involutive basis larger than the Groebner basis")
    for st in sc.steps:
        op, a = st[1], st[2]
        ctx.begin(st)
        q = psim.seeded(sc.seed, st[0])
        if op == "space":
            sp = Run()
            sp.kind, sp.n, sp.comps, sp.order = a[0], max(1, min(5, int(a[1]))), max(1, min(4, int(a[2]))), a[3]
            sp.key = pyref.key(sp.order)
            sp.P, sp.R, sp.N = {}, {}, []
            vs = ["x%d" % i for i in range(sp.n)]
            fs = ["u%d" % i for i in range(sp.comps)]
            G.Monom.cmp = getattr(G.Monom, sp.order)
            sp.cls = {"ideal": G.Poly, "module": G.Poly, "diff": G.PolyDiff, "schem": G.PolySchem}[sp.kind]
            if sp.kind == "ideal": G.Poly.init(vs)
            else: sp.cls.init(vs, fs)
        elif sp is None: continue
        elif op == "poly":
            v = parse(a[1], sp.n)
            v = {m: c for m, c in v.items() if (m[0] < 0) == (sp.kind == "ideal") and m[0] < sp.comps}
            p = sp.cls()
            for m in sorted(v, key=sp.key, reverse=True) if q.p(50) else list(v):
                mm = G.Monom(m[1]) if m[0] < 0 else G.Monom(m[1], pos=m[0])
                p = p + sp.cls(mm)*number(v[m])
            sp.P[a[0]] = (p, v)
        elif op == "expr":
            if a[2] not in sp.P or a[3] not in sp.P: continue
            (x, vx), (y, vy), c = sp.P[a[2]], sp.P[a[3]], int(a[4])
            v = dict(vx)
            z = (0,)*sp.n
            if a[1] == "add": r = x + y; pyref.addmul(v, 1, z, vy)
            elif a[1] == "sub": r = x - y; pyref.addmul(v, -1, z, vy)
            elif a[1] == "neg": r = -x; v = {m: -k for m, k in vx.items()}
            elif a[1] == "mulc":
                if c == 0: continue
                r = x*c; v = {m: k*c for m, k in vx.items()}
            elif a[1] == "prolong":
                c = c % sp.n
                r = x.prolong(c); v = {}; pyref.addmul(v, 1, tuple(int(i == c) for i in range(sp.n)), vx)
            elif a[1] == "sum3": r = x + y + x; pyref.addmul(v, 1, z, vy); pyref.addmul(v, 1, z, vx)
            else: continue
            sp.P[a[0]] = (r, v)
        elif op in ("run", "interrupt", "brokenout"):
            R = Run()
            if not make(R, *a[1:5]): continue
            lim = None
            if op == "interrupt": lim = int(a[5])
            if op == "brokenout": out.left, R.level = int(a[5]), 1
            complete(R, Tracer(ctx, lim))
            out.left = None
            sp.R.pop(a[0], None)
            if R.err is not None:
                ctx.fault("interrupted" if op == "interrupt" else "output_failed")
                ctx.shape("stop%d" % R.calls)
            else:
                accept(a[0], R, op)
        elif op == "par":
            seed, percent, rest = int(a[0]), int(a[1]), a[2:]
            Rs = []
            for i in range(0, len(rest) - 4, 5):
                R = Run()
                if make(R, *rest[i+1:i+5]): Rs.append((rest[i], R))
            if not Rs: continue
            sd = Sched(ctx, (sc.seed, seed), percent, len(Rs))
            errs = []
            def party(k, R):
                sd.sem[k].acquire()
                try:
                    complete(R, Tracer(ctx, None, sd, k))
                except BaseException as e:
                    errs.append(e)
                finally:
                    sd.end(k)
            ts = [threading.Thread(target=party, args=(k, R)) for k, (_, R) in enumerate(Rs)]
            for t in ts: t.start()
            sd.sem[0].release()
            for t in ts: t.join()
            if errs: raise errs[0]
            ctx.probe("interleaved completions")
            for nme, R in Rs:
                sp.R.pop(nme, None)
                accept(nme, R, op)
        elif op == "nf":
            R = sp.R.get(a[0])
            if not R: continue
            if a[1].startswith("p"):
                if a[1][1:] not in sp.P: continue
                p, v = sp.P[a[1][1:]]
                p = sp.cls(p)
            else:
                v = {m: c for m, c in parse(a[1], sp.n).items() if (m[0] < 0) == (sp.kind == "ideal") and m[0] < sp.comps}
                p = sp.cls()
                for m, c in v.items(): p = p + sp.cls(G.Monom(m[1]) if m[0] < 0 else G.Monom(m[1], pos=m[0]))*number(c)
            want = pyref.nf(v, R.G, sp.key)
            res = p.NF(R.tree)
            got = todict(res)
            sp.N.append((res, strd(v, sp.key), dict(got)))
            if got != want: ctx.fail("normal-form", "the normal form of %s is %s instead of %s\n  basis %s" % (strd(v, sp.key), strd(got, sp.key), strd(want, sp.key), R.snap))
            ctx.probe("normal form " + ("nonzero" if want else "zero"))
            ctx.obs("nf " + strd(got, sp.key))
        elif op == "query":
            R = sp.R.get(a[0])
            if not R: continue
            for _ in range(4):
                u = q.pick(R.U)
                e = list(u[1])
                for _ in range(q.num(0, 3)): e[q.num(0, sp.n - 1)] += 1
                if q.p(30): e[q.num(0, sp.n - 1)] = 0
                m = (u[0], tuple(e))
                want = pyref.janet_divisors(R.U, m)
                mm = G.Monom(m[1]) if m[0] < 0 else G.Monom(m[1], pos=m[0])
                w = R.tree.findWrap(mm)
                got = [(w.lm.position(), tuple(w.lm))] if w else []
                if got != want: ctx.fail("lookup", "looking up %s finds %s instead of %s\n  basis %s" % (m, got, want, R.snap))
                p = R.tree.find(mm)
                if bool(p) != bool(want): ctx.fail("lookup", "find disagrees with findWrap for %s" % (m,))
                if p and R.cached:
                    v = todict(p)
                    if pyref.lm(v, sp.key) != m or pyref.nf(v, R.G, sp.key): ctx.fail("lookup", "the cached multiple for %s is %s" % (m, strd(v, sp.key)))
            ctx.obs("query %d" % R.tree.count())
        elif op == "draw":
            R = sp.R.get(a[0])
            if not R: continue
            gv = sys.modules["gv"] = Gv(ctx)
            level, gv.how = int(a[1])%4, int(a[2])%4
            for t in (list.__iter__(R.tree) if isinstance(R.tree, G.Forest) else [R.tree]):
                gv.shown = None
                try:
                    t.saveImage("diagram.pdf", level)
                except OSError:
                    if gv.how != 3: raise
                if gv.how in (0,):
                    if not gv.shown: ctx.fail("draw-file", "nothing was written")
                    check_diagram(ctx, t, gv.shown, level, "diagram.pdf")
        elif op == "collect":
            gc.collect()
            ctx.fault("collected")
        elif op == "drop":
            sp.R.pop(a[0], None)
        alive(op)


# ------------------------------------------------------------------ arithmetic (P30)
def gen_arith(r, s):
    kind = r.pick(["ideal", "ideal", "module"])
    n, comps = r.num(1, 4), 1 if kind == "ideal" else r.num(1, 3)
    s.add("space", kind, n, comps, r.pick(["TOPdeglex", "POTdeglex", "TOPlex", "POTlex"]))
    k = r.num(2, 4)
    for i in range(k): s.add("poly", i, text(draw(r, n, comps, 4, 4, kind == "ideal" or r.p(40))))
    for _ in range(r.num(4, 18)):
        op = r.pick(["add", "sub", "mul", "neg", "addi", "radd", "subi", "rsub", "muli", "rmul", "divi", "pow", "prolong", "mult", "copy", "adds", "muls",
                     "cancel", "pp", "reduction", "redrat", "reduce", "nfhead", "nftail", "nf", "spoly", "cmp", "new"])
        if op == "new": s.add("poly", r.num(0, 5), text(draw(r, n, comps, 4, 4, kind == "ideal" or r.p(40))))
        else: s.add(op, r.num(0, 5), r.num(0, 5), r.num(0, 5), r.num(-4, 6), r.num(1, 5))


def run_arith(ctx, sc, out):
    sp = None
    import sympy
    def bump(op):
        for i, c in sp.P.items():
            w = todict(c[0])
            if w != c[1]: ctx.fail("value", "%s: polynomial %d is %s instead of %s" % (op, i, strd(w, sp.key), strd(c[1], sp.key)))
            ks = [sp.key((m.position(), tuple(m))) for m, _ in c[0]]
            if any(x <= y for x, y in zip(ks, ks[1:])): ctx.fail("order", "%s: terms of polynomial %d out of order" % (op, i))
            ctx.obs("%d %s" % (i, strd(w, sp.key)))
            ctx.state("%d %d" % (i, len(w)))
    def put(i, obj, v):
        for c in sp.P.values():
            if c[0] is obj:        # the operator returned one of its operands: the same cell under a second name
                if c[1] != v: ctx.fail("value", "the result is an operand and should be " + strd(v, sp.key))
                sp.P[i] = c
                return
        sp.P[i] = [obj, v]
    for st in sc.steps:
        op, a = st[1], st[2]
        ctx.begin(st)
        if op == "space":
            sp = Run()
            sp.kind, sp.n, sp.comps, sp.order = a[0], max(1, min(5, int(a[1]))), max(1, min(4, int(a[2]))), a[3]
            sp.key, sp.P = pyref.key(a[3]), {}
            G.Monom.cmp = getattr(G.Monom, sp.order)
            vs = ["x%d" % i for i in range(sp.n)]
            if sp.kind == "ideal": G.Poly.init(vs)
            else: G.Poly.init(vs, ["u%d" % i for i in range(sp.comps)])
            continue
        if sp is None: continue
        z = (0,)*sp.n
        if op == "poly":
            v = {m: c for m, c in parse(a[1], sp.n).items() if m[0] < (0 if sp.kind == "ideal" else sp.comps)}
            if len({m[0] < 0 for m in v}) > 1: v = {m: c for m, c in v.items() if m[0] < 0}
            p = G.Poly()
            for m in v:
                p = p + G.Poly(G.Monom(m[1]) if m[0] < 0 else G.Monom(m[1], pos=m[0]))*number(v[m])
            sp.P[int(a[0])] = [p, v]
            bump(op)
            continue
        i, x, y, c, d = [int(t) for t in a]
        if x not in sp.P or y not in sp.P: continue
        X, Y = sp.P[x], sp.P[y]
        p, v, o, w = X[0], dict(X[1]), Y[0], Y[1]
        ring = lambda t: all(m[0] < 0 for m in t)
        one = (-1, z)
        if op == "add": put(i, p + o, pyref.addmul(v, 1, z, w))
        elif op == "sub": put(i, p - o, pyref.addmul(v, -1, z, w))
        elif op == "mul":
            if not (ring(v) or ring(w)) or len(v)*len(w) > 40 or sum(map(lambda m: sum(m[1]), list(v) + list(w))) > 60: continue
            t = {}
            for (pos, e), k in v.items():
                for (pos2, f), k2 in w.items():
                    m = (max(pos, pos2), tuple(g + h for g, h in zip(e, f)))
                    t[m] = t.get(m, 0) + k*k2
            put(i, p*o, {m: k for m, k in t.items() if k})
        elif op == "neg": put(i, -p, {m: -k for m, k in v.items()})
        elif op in ("addi", "radd", "subi", "rsub", "adds"):
            if not ring(v): continue
            t = {one: Fraction(c)} if c else {}
            if op == "addi": put(i, p + c, pyref.addmul(v, 1, z, t))
            elif op == "radd": put(i, c + p, pyref.addmul(v, 1, z, t))
            elif op == "subi": put(i, p - c, pyref.addmul(v, -1, z, t))
            elif op == "rsub": put(i, c - p, pyref.addmul(dict(t), -1, z, v))
            else: put(i, p + sympy.Rational(c, d), pyref.addmul(v, Fraction(c, d), z, {one: Fraction(1)}) if c else v)
        elif op in ("muli", "rmul"):
            put(i, p*c if op == "muli" else c*p, {m: k*c for m, k in v.items() if c})
        elif op == "muls": put(i, p*sympy.Rational(c, d), {m: k*Fraction(c, d) for m, k in v.items() if c})
        elif op == "divi":
            if c == 0: continue
            put(i, p/sympy.Integer(c), {m: k/c for m, k in v.items()})
        elif op == "pow":
            if not ring(v) or len(v) > 3 or d > 3 or sum(sum(m[1]) for m in v) > 20: continue
            t = {one: Fraction(1)}
            for _ in range(d - 1):
                s = {}
                for (pos, e), k in t.items(): pyref.addmul(s, k, e, v)
                t = s
            put(i, p**(d - 1), t)
        elif op == "prolong":
            k = c % sp.n
            t = {}
            put(i, p.prolong(k), pyref.addmul(t, 1, tuple(int(j == k) for j in range(sp.n)), v))
        elif op == "mult":
            if c == 0: continue
            e = tuple((d + j) % 3 for j in range(sp.n))
            t = {}
            put(i, p.mult(G.Monom(e), sympy.Integer(c)), pyref.addmul(t, c, e, v))
        elif op == "copy": sp.P[i] = [G.Poly(p), v]
        elif op == "cmp":
            if not v or not w: continue
            a1, b1 = sp.key(pyref.lm(v, sp.key)), sp.key(pyref.lm(w, sp.key))
            if p.cmp(o) != (a1 > b1) - (a1 < b1): ctx.fail("value", "comparison of leading monomials")
            if (p.lm() < o.lm()) != (a1 < b1) or (p.lm() == o.lm()) != (a1 == b1): ctx.fail("value", "comparison operators of monomials")
        elif op == "spoly":
            if not v or not w or pyref.lm(v, sp.key)[0] != pyref.lm(w, sp.key)[0]: continue
            got = todict(G.Poly.S(p, o))
            l1, l2 = pyref.lm(v, sp.key), pyref.lm(w, sp.key)
            l = tuple(max(g, h) for g, h in zip(l1[1], l2[1]))
            t = {}
            pyref.addmul(t, 1/v[l1], pyref.quo((0, l), l1), v)
            pyref.addmul(t, -1/w[l2], pyref.quo((0, l), l2), w)
            if bool(got) != bool(t): ctx.fail("value", "S-polynomial")
            if got and pyref.monic(got, sp.key) != pyref.monic(t, sp.key): ctx.fail("value", "S-polynomial is %s" % strd(got, sp.key))
            if all(k.denominator == 1 for k in list(v.values()) + list(w.values())):
                f = pyref.gcd(v[l1].numerator, w[l2].numerator)
                t = {m: k*v[l1]*w[l2]/f for m, k in t.items()}
                if got != t and got != {m: -k for m, k in t.items()}: ctx.fail("value", "S-polynomial is %s instead of %s" % (strd(got, sp.key), strd(t, sp.key)))
        else:                       # operations that change the polynomial itself
            if not v: continue
            if op in ("cancel", "pp"):
                if op == "pp" and any(k.denominator != 1 for k in v.values()): continue
                getattr(p, op)()
                got = todict(p)
                if set(got) != set(v) or len({got[m]/v[m] for m in v}) != 1: ctx.fail("value", "%s of %s is %s" % (op, strd(v, sp.key), strd(got, sp.key)))
                if any(k.denominator != 1 for k in got.values()): ctx.fail("value", op + " left fractions")
                if op == "pp":
                    g = 0
                    for k in got.values(): g = pyref.gcd(g, k.numerator)
                    if g != 1: ctx.fail("value", "pp left the common factor %d" % g)
                X[1] = got
            else:
                if not w or o is p: continue
                if any(k.denominator != 1 for k in list(v.values()) + list(w.values())): continue
                if min(m[0] for m in w) < 0 <= max(m[0] for m in v): continue    # an element of the ring is no reducer of a module element
                l = pyref.lm(w, sp.key)
                ms = [m for m, _ in p]
                if op in ("reduction", "redrat"):
                    hit = [j for j, m in enumerate(ms) if pyref.divides(l, (m.position(), tuple(m)))]
                    if not hit: continue
                    j = hit[d % len(hit)]
                    m = (ms[j].position(), tuple(ms[j]))
                    (p.reduction if op == "reduction" else p.redRat)(j, o)
                    t = pyref.addmul(dict(v), -v[m]/w[l], pyref.quo(m, l), w)
                    if op == "redrat" and todict(p) != t: ctx.fail("value", "rational reduction of %s by %s gives %s" % (strd(v, sp.key), strd(w, sp.key), strd(todict(p), sp.key)))
                elif op == "reduce":
                    p.reduce(o)
                    t = pyref.addmul(dict(v), -v[l]/w[l], z, w) if l in v else v
                elif op == "nfhead":
                    p.NFhead(o)
                    t = pyref.nf(v, [w], sp.key, full=False)
                elif op == "nftail":
                    p.NFtail(o)
                    h = pyref.lm(v, sp.key)
                    t = dict(v)
                    del t[h]
                    t = pyref.nf(t, [w], sp.key)
                    t[h] = v[h]
                elif op == "nf":
                    p.NF(o)
                    t = pyref.nf(v, [w], sp.key)
                    if todict(p) != t: ctx.fail("value", "normal form of %s by %s is %s" % (strd(v, sp.key), strd(w, sp.key), strd(todict(p), sp.key)))
                else: continue
                got = todict(p)
                if bool(got) != bool(t): ctx.fail("value", "%s of %s by %s is %s" % (op, strd(v, sp.key), strd(w, sp.key), strd(got, sp.key)))
                if got and (set(got) != set(t) or len({got[m]/t[m] for m in t}) != 1):
                    ctx.fail("value", "%s of %s by %s is %s, not a multiple of %s" % (op, strd(v, sp.key), strd(w, sp.key), strd(got, sp.key), strd(t, sp.key)))
                X[1] = got
                ctx.probe(op)
        bump(op)
