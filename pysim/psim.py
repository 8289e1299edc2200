"""Deterministic simulation of the Python parts: one seed is one scenario, run in a forked process.

Same command line and file formats as the C++ simulator (sim/main.cpp):
  psim.py ENGINE search PROP MASTER FROM STEP COUNT SECONDS OUT
  psim.py ENGINE gen PROP MASTER INDEX
  psim.py ENGINE replay FILE [-v]
  psim.py ENGINE minimise FILE OUT SECONDS
ENGINE is a module of this directory with  machine_for(prop, rng), gen(prop, rng, sc), run(ctx, sc), FAULTS, and optionally
judge(ctx, sc) and boot()."""
import gc, hashlib, importlib, json, os, pickle, random, resource, select, signal, struct, subprocess, sys, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
CPU = int(os.environ.get("SIM_CPU", "20"))


class Violation(Exception):
    pass


class Skip(Exception):
    pass


class Rng(random.Random):
    def num(self, a, b):
        return self.randint(a, b) if a <= b else a
    def p(self, percent):
        return self.randrange(100) < percent
    def pick(self, s):
        return s[self.randrange(len(s))]


def seeded(*a):
    return Rng(int.from_bytes(hashlib.blake2b(repr(a).encode(), digest_size=8).digest(), "big"))


class Scenario:
    def __init__(self):
        self.prop, self.machine, self.seed, self.cfg, self.steps = "", "", 0, {}, []
    def add(self, op, *a):
        self.steps.append((len(self.steps) + 1, op, [str(x) for x in a]))
    def num(self, k, d=0):
        try:
            return int(self.cfg.get(k, d))
        except ValueError:
            return d
    def text(self):
        r = ["prop " + self.prop, "machine " + self.machine, "seed %d" % self.seed]
        r += ["cfg %s %s" % (k, v) for k, v in sorted(self.cfg.items())]
        r += [" ".join(["step", str(i), op] + a) for i, op, a in self.steps]
        return "\n".join(r) + "\n"
    def copy(self):
        s = Scenario()
        s.prop, s.machine, s.seed, s.cfg, s.steps = self.prop, self.machine, self.seed, dict(self.cfg), list(self.steps)
        return s
    @staticmethod
    def parse(t):
        s = Scenario()
        for l in t.splitlines():
            w = l.split()
            if not w or w[0].startswith("#"):
                continue
            if w[0] == "prop": s.prop = w[1]
            elif w[0] == "machine": s.machine = w[1]
            elif w[0] == "seed": s.seed = int(w[1])
            elif w[0] == "cfg": s.cfg[w[1]] = w[2] if len(w) > 2 else ""
            elif w[0] == "step": s.steps.append((int(w[1]), w[2], w[3:]))
            else: raise ValueError("unknown line: " + l)
        return s


class Ctx:
    """What one run records."""
    def __init__(self, prop, verbose=False):
        self.prop, self.verbose = prop, verbose
        self.h = hashlib.blake2b(digest_size=8)
        self.shape_h = hashlib.blake2b(digest_size=8)
        self.events = self.steps = self.work = self.requests = 0
        self.ticks = 0.0
        self.faults, self.probes, self.states, self.lines = {}, {}, set(), []
        self.step = None
    def ev(self, s):
        self.events += 1
        self.h.update(s.encode())
        self.h.update(b"\n")
        if self.verbose:
            print(s, flush=True)
    def obs(self, s):
        self.ev("  = " + s)
        self.lines.append(s)
    def fail(self, cls, msg):
        raise Violation(cls, "step %s: %s" % (self.step, msg) if self.step else msg)
    def skip(self, why):
        raise Skip(why)
    def fault(self, k, n=1):
        self.faults[k] = self.faults.get(k, 0) + n
    def probe(self, k, n=1):
        self.probes[k] = self.probes.get(k, 0) + n
    def state(self, s):
        self.states.add(hashlib.blake2b(s.encode(), digest_size=8).hexdigest())
    def shape(self, s):
        self.shape_h.update(s.encode())
    def begin(self, st):
        self.step = " ".join([str(st[0]), st[1]] + st[2])
        self.steps += 1
        self.ev("#" + self.step)


class Outcome:
    cls, msg, skipped, hash = "", "", False, "0"*16


def execute(mod, sc, verbose=False, entry=None):
    """Runs the scenario in a child process and returns what it recorded."""
    r, w = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        rc = 0
        try:
            os.close(r)
            if not verbose or not os.environ.get("SIM_STDERR"):
                n = os.open("/dev/null", os.O_WRONLY)
                os.dup2(n, 2)
            ctx = Ctx(sc.prop, verbose)
            res = dict(cls="", msg="", skipped=False)
            def hang(*_):
                raise Violation("hang", "no end within %d s of processor time at step %s" % (CPU, ctx.step))
            signal.signal(signal.SIGPROF, hang)
            signal.setitimer(signal.ITIMER_PROF, CPU, 5)
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            try:
                (entry or getattr(mod, "judge", mod.run))(ctx, sc)
            except Violation as e:
                res.update(cls=e.args[0], msg=e.args[1])
            except Skip as e:
                res.update(skipped=True, msg=str(e))
            except (RecursionError, MemoryError) as e:
                res.update(cls="crash", msg="%s at step %s" % (type(e).__name__, ctx.step))
            except Exception as e:
                tb = traceback.extract_tb(e.__traceback__)
                where = "%s:%s" % (os.path.basename(tb[-1].filename), tb[-1].name)
                own = os.path.dirname(os.path.abspath(tb[-1].filename)) == HERE and not any("ginv" in os.path.basename(f.filename) or "/src/" in f.filename for f in tb)
                res.update(cls="harness" if own else "exception", msg="%s: %s in %s at step %s" % (type(e).__name__, e, where, ctx.step))
            signal.setitimer(signal.ITIMER_PROF, 0)
            if res["cls"]: ctx.ev("! " + res["cls"])
            res.update(hash=ctx.h.hexdigest(), shape=ctx.shape_h.hexdigest(), events=ctx.events, steps=ctx.steps, work=ctx.work, requests=ctx.requests, ticks=ctx.ticks,
                       faults=ctx.faults, probes=ctx.probes, states=ctx.states, lines=ctx.lines)
            b = pickle.dumps(res)
            with os.fdopen(w, "wb") as f: f.write(b)
            sys.stdout.flush()
        except BaseException:
            rc = 5
        os._exit(rc)
    os.close(w)
    data = []
    t0 = time.time()
    while True:
        left = 3*CPU + 60 - (time.time() - t0)
        if left <= 0:
            os.kill(pid, signal.SIGKILL)
            break
        if select.select([r], [], [], left)[0]:
            d = os.read(r, 1 << 20)
            if not d: break
            data.append(d)
    os.close(r)
    _, st = os.waitpid(pid, 0)
    o = Outcome()
    o.rec = None
    try:
        o.rec = pickle.loads(b"".join(data))
    except Exception:
        pass
    if o.rec is None:
        o.cls = "crash"
        o.msg = "signal " + signal.Signals(os.WTERMSIG(st)).name if os.WIFSIGNALED(st) else \
            "memory error (AddressSanitizer)" if os.WEXITSTATUS(st) == 77 else "exit status %d" % os.WEXITSTATUS(st)
    else:
        o.cls, o.msg, o.skipped, o.hash = o.rec["cls"], o.rec["msg"], o.rec["skipped"], o.rec["hash"]
    return o


def generate(mod, prop, master, index):
    s = Scenario()
    s.prop = prop
    s.seed = seeded(prop, master, index).getrandbits(31)
    r = seeded("gen", s.seed, prop)
    s.machine = mod.machine_for(prop, r)
    mod.gen(prop, r, s)
    return s


def js(s):
    return json.dumps(s, ensure_ascii=True)


def minimise(mod, sc, cls, seconds):
    end = time.time() + seconds
    tries = 0
    def still(c):
        nonlocal tries
        if time.time() > end: return False
        tries += 1
        o = execute(mod, c)
        return o.cls == cls
    s = sc
    for k, v in getattr(mod, "PLAIN", {}).items():
        if s.cfg.get(k, v) != v:
            c = s.copy()
            c.cfg[k] = v
            if still(c): s = c
    n = 2
    while s.steps and time.time() < end:
        m = len(s.steps)
        n = min(n, m)
        for k in range(n):
            c = s.copy()
            del c.steps[m*k//n:m*(k + 1)//n]
            if still(c):
                s, n = c, max(2, n - 1)
                break
        else:
            if n >= m: break
            n = min(m, 2*n)
    again = True
    while again and time.time() < end:
        again = False
        for i in range(len(s.steps)):
            for k in range(len(s.steps[i][2])):
                v = s.steps[i][2][k]
                cand = []
                if ":" in v:
                    t = v.split(";")
                    cand = [";".join(t[:j] + t[j+1:]) for j in range(len(t)) if len(t) > 1]
                elif v.lstrip("-").isdigit() and v != "0":
                    cand = ["0"] + ([str(int(v)//2)] if abs(int(v)) > 1 else [])
                for w in cand:
                    c = s.copy()
                    a = list(c.steps[i][2])
                    a[k] = w
                    c.steps[i] = (c.steps[i][0], c.steps[i][1], a)
                    if still(c):
                        s, again = c, True
                        break
    return s, tries


def search(mod, a):
    prop, master, frm, step, count, seconds, out = a[0], int(a[1]), int(a[2]), int(a[3]), int(a[4]), float(a[5]), a[6]
    t0 = time.time()
    tot = dict(runs=0, skipped=0, steps=0, events=0, work=0, requests=0)
    faults, probes, machines, samples = {k: 0 for k in mod.FAULTS}, {}, {}, []
    sets = dict(s=set(), i=set(), h=set())
    ticks = mx = 0.0
    mxw = 0
    hf = open(out + ".hashes", "w")
    for k in range(count):
        if time.time() - t0 > seconds: break
        index = frm + k*step
        sc = generate(mod, prop, master, index)
        t1 = time.time()
        o = execute(mod, sc)
        mx = max(mx, time.time() - t1)
        tot["runs"] += 1
        tot["skipped"] += o.skipped
        machines[sc.machine] = machines.get(sc.machine, 0) + 1
        if o.rec:
            for n in ("steps", "events", "work", "requests"): tot[n] += o.rec[n]
            mxw = max(mxw, o.rec["work"])
            ticks += o.rec["ticks"]
            for n, v in o.rec["faults"].items(): faults[n] = faults.get(n, 0) + v
            for n, v in o.rec["probes"].items(): probes[n] = probes.get(n, 0) + v
            sets["s"] |= o.rec["states"]
            if not o.skipped:
                sets["h"].add(o.hash)
                sets["i"].add(o.rec["shape"])
        hf.write("%d %s %d\n" % (index, o.hash, 3 if o.skipped else 2 if o.cls else 1))
        if not samples and not o.skipped and len(sc.steps) < 25: samples.append(sc.text())
        if o.cls:
            open(out + ".fail", "w").write(sc.text())
            print("FAIL index=%d class=%s msg=%s" % (index, o.cls, js(o.msg)), flush=True)
            break
    hf.close()
    tot.update(max_work=mxw, max_run_s=mx, ticks=ticks, hz=1, page=4096, wall=time.time() - t0, faults=faults, probes=probes, machines=machines, samples=samples)
    json.dump(tot, open(out + ".json", "w"))
    with open(out + ".sets", "w") as f:
        for k, v in sets.items():
            for x in sorted(v): f.write(k + x + "\n")
    print("DONE", flush=True)
    return 0


def main(a):
    mod = importlib.import_module(a[0])
    if hasattr(mod, "boot"): mod.boot()
    gc.collect()
    gc.freeze()
    cmd = a[1]
    if cmd == "search": return search(mod, a[2:])
    if cmd == "gen":
        sys.stdout.write(generate(mod, a[2], int(a[3]), int(a[4])).text())
        return 0
    if cmd == "serve":
        return mod.serve()
    sc = Scenario.parse(open(a[2]).read())
    if cmd == "replay":
        o = execute(mod, sc, len(a) > 3 and a[3] == "-v")
        print("RESULT class=%s hash=%s skipped=%d msg=%s" % (o.cls or "-", o.hash, o.skipped, js(o.msg)))
        return 1 if o.cls else 0
    if cmd == "minimise":
        o = execute(mod, sc)
        if not o.cls:
            print("RESULT class=- hash=" + o.hash)
            return 0
        m, tries = minimise(mod, sc, o.cls, float(a[4]))
        o2 = execute(mod, m)
        if o2.cls != o.cls: m, o2 = sc, o
        with open(a[3], "w") as f:
            f.write("# violation class: %s\n# %s\n# minimised from %d to %d steps in %d executions\n" % (
                o2.cls, o2.msg[:3000].replace("\n", "\n# "), len(sc.steps), len(m.steps), tries))
            f.write(m.text())
        print("RESULT class=%s hash=%s steps=%d msg=%s" % (o2.cls, o2.hash, len(m.steps), js(o2.msg)))
        return 1
    return 3


if __name__ == "__main__":
    sys.path.insert(0, HERE)
    sys.exit(main(sys.argv[1:]))
