#!/usr/bin/env python3
"""Decides one property by seeded simulation: check.py PROPERTY [--thorough] [--keep]

Builds the simulator from /repo's working tree, runs the property's seeds on all cores, confirms every failure by
replaying it in fresh processes, minimises it and writes the replay file.  Environment: VERIF_SEED, VERIF_TIER."""
import glob, json, os, re, resource, shutil, signal, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import build as B
import plan

PROP = sys.argv[1]
TIER = "thorough" if "--thorough" in sys.argv else os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
if TIER not in ("quick", "thorough"): TIER = "quick"
P = plan.PLAN[PROP]
COUNT, SECONDS = P[TIER]
WORKERS = 8
T0 = time.time()
EVID = os.path.join(HERE, "evidence", PROP + ".json")

def out(s):
    print(s, flush=True)

def known():
    """lines  known: property=<id> class=<class> match=<regular expression over the violation's message>"""
    r = []
    p = os.path.join(HERE, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for l in open(p, encoding="utf-8"):
            m = re.match(r"known: property=(\S+) class=(\S+) match=(.*)$", l.strip())
            if m and m.group(1) == PROP:
                r.append((m.group(2), re.compile(m.group(3)), l.strip()))
    return r

def env_for(page, hz):
    e = dict(os.environ)
    e.update(SIM_PAGE=str(page), SIM_HZ=str(hz), SIM_CPU="20", LANG="C", LC_ALL="C",
             ASAN_OPTIONS="detect_leaks=0:exitcode=77:allocator_may_return_null=1:handle_abort=0:malloc_context_size=1")
    return e

def replay(eng, f, e):
    r = subprocess.run(eng + ["replay", f], env=e, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors="replace")
    m = re.search(r"^RESULT class=(\S+) hash=(\S+)", r.stdout, re.M)
    if not m:
        return "?", "?", r.stdout[-300:]
    k = re.search(r'msg="(.*)"\s*$', r.stdout.strip())
    return m.group(1), m.group(2), k.group(1) if k else ""

def main():
    os.makedirs(os.path.dirname(EVID), exist_ok=True)
    work = tempfile.mkdtemp(prefix="simcheck_%s_" % PROP)
    try:
        return run(work)
    finally:
        if "--keep" in sys.argv: out("kept " + work)
        else: shutil.rmtree(work, ignore_errors=True)

def run(work):
    mix = P.get("mix") or [P["engine"]]*WORKERS
    engines = {e: plan.prepare(e, work, B, PROP) for e in sorted(set(mix))}
    t_build = time.time() - T0
    t1 = time.time()
    jobs, violations, unstable, seen_known = [], [], [], {}
    pages = P.get("pages", plan.PAGES)
    def start(w, frm, count, tag=""):
        page, hz = pages[w % len(pages)]
        eng, more = engines[mix[w]]
        e = dict(env_for(page, hz), **more)
        o = os.path.join(work, "w%d%s" % (w, tag))
        p = subprocess.Popen(eng + ["search", PROP, str(SEED), str(frm), str(WORKERS), str(count), str(max(1, SECONDS - (time.time() - t1))), o],
                             env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")
        return dict(w=w, frm=frm, count=count, out=o, p=p, env=e, eng=eng, n=0)
    per = (COUNT + WORKERS - 1)//WORKERS
    jobs = [start(w, w, per) for w in range(WORKERS)]
    live = list(jobs)
    parts = []
    KN = known()
    while live:
        for j in list(live):
            if j["p"].poll() is None:
                continue
            live.remove(j)
            so, se = j["p"].communicate()
            if j["p"].returncode != 0 or "DONE" not in so:
                out("check error: the simulator stopped with status %s\n%s" % (j["p"].returncode, (so + se)[-1500:]))
                return 3
            parts.append(j["out"])
            m = re.search(r'^FAIL index=(\d+) class=(\S+) msg="(.*)"$', so, re.M)
            if not m or violations:
                continue
            index, cls, msg = int(m.group(1)), m.group(2), m.group(3)
            k = [l for c, rx, l in KN if c == cls and rx.search(msg)]
            nxt = None
            if k:
                seen_known[k[0]] = seen_known.get(k[0], 0) + 1
                nxt = index + WORKERS
            else:
                v = confirm(j["eng"], j, index, cls, msg, work)
                if v:
                    violations.append(v)
                    for x in live: x["p"].send_signal(signal.SIGKILL)
                    for x in live: x["p"].communicate()
                    live = []
                    break
                unstable.append("index %d class %s: %s" % (index, cls, msg[:300]))
                if len(unstable) < 6: nxt = index + WORKERS
            if nxt is not None:
                done = (nxt - j["w"])//WORKERS
                if per - done > 0 and time.time() - t1 < SECONDS:
                    live.append(start(j["w"], nxt, per - done, "_%d" % nxt))
        time.sleep(0.05)
    t_search = time.time() - t1
    # the same seeds again, in other processes: the same executions, event for event
    det = dict(rerun=0, different=0)
    if not violations:
        again = min(per, P.get("recheck", 12))
        js = [start(w, w, again, "_again") for w in range(WORKERS)]
        for j in js:
            j["p"].communicate()
            first = dict(l.split(" ", 1) for l in open(os.path.join(work, "w%d.hashes" % j["w"])))
            for l in open(j["out"] + ".hashes"):
                a, b = l.split(" ", 1)
                if a in first:
                    det["rerun"] += 1
                    if first[a] != b: det["different"] += 1
    ev = evidence(parts, det, violations, unstable, seen_known, t_build, t_search)
    with open(EVID, "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for l, n in seen_known.items():
        out("KNOWN-FINDING: property=%s %s" % (PROP, l))
    c = ev["coverage"]
    out("%s %s seed %d: %d runs, %d distinct, %d skipped, %.1f s search, %.1f s build" % (PROP, TIER, SEED, c["evaluations"], c["distinct_nontrivial"], c["skipped"], t_search, t_build))
    if violations:
        v = violations[0]
        out("%s: %s" % (v["class"], v["message"][:1500]))
        out("VIOLATION property=%s replay=%s" % (PROP, v["replay"]))
        return 1
    if unstable:
        out("check error: failures that do not repeat in a fresh process:\n" + "\n".join(unstable))
        return 3
    if det["different"]:
        out("check error: %d of %d repeated seeds gave another execution" % (det["different"], det["rerun"]))
        return 3
    return 0

def confirm(eng, j, index, cls, msg, work):
    src = j["out"] + ".fail"
    a, b = replay(eng, src, j["env"]), replay(eng, src, j["env"])
    if a[0] in ("-", "?") or a[0] != b[0]:
        return None
    if a[1] != b[1] and a[0] not in ("crash", "hang"):
        return None
    rd = os.path.join(HERE, "replays")
    os.makedirs(rd, exist_ok=True)
    dst = os.path.join(rd, "%s-%d-%d.replay" % (PROP, SEED, index))
    mini = os.path.join(work, "min.replay")
    subprocess.run(eng + ["minimise", src, mini, str(plan.MINIMISE[TIER])], env=j["env"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    if os.path.exists(mini):
        c, d = replay(eng, mini, j["env"]), replay(eng, mini, j["env"])
        if c[0] == d[0] == a[0] and (c[1] == d[1] or c[0] in ("crash", "hang")):
            shutil.copy(mini, dst)
            return dict(replay=dst, index=index, message=c[2] or msg, **{"class": cls})
    shutil.copy(src, dst)
    return dict(replay=dst, index=index, message=msg, **{"class": cls})

def evidence(parts, det, violations, unstable, seen_known, t_build, t_search):
    tot = dict(runs=0, skipped=0, steps=0, events=0, work=0, requests=0)
    faults, machines, probes, samples, ticks, sets = {}, {}, {}, [], 0.0, {"s": set(), "i": set(), "h": set()}
    maxrun = 0
    for o in parts:
        j = json.load(open(o + ".json"))
        for k in tot: tot[k] += j[k]
        for k, v in j["faults"].items(): faults[k] = faults.get(k, 0) + v
        for k, v in j["machines"].items(): machines[k] = machines.get(k, 0) + v
        pr = j["probes"]
        for i, v in (enumerate(pr) if isinstance(pr, list) else pr.items()):
            n = plan.PROBES.get(i, str(i)) if isinstance(i, int) else i
            if v or n in P.get("expect", ()): probes[n] = probes.get(n, 0) + v
        samples += j["samples"]
        ticks += j["ticks"]/float(j["hz"])
        maxrun = max(maxrun, j["max_run_s"])
        for l in open(o + ".sets"): sets[l[0]].add(l[1:].strip())
    used = {k: v for k, v in faults.items() if v}
    cov = dict(evaluations=tot["runs"], distinct_nontrivial=len(sets["h"]),
               rule="one case is one simulated run: a seeded generator draws the operations, the interleaving of the simulated parties, the environment "
                    "and the faults; a run counts once when its recorded execution (every event, answer and observation, hashed) differs from all others and "
                    "it was judged to the end (runs beyond the reference model's budget are skipped and not counted)",
               samples=[x[:1500] for x in sorted(samples, key=len)[:3]] or ["(no run short enough to print)"],
               skipped=tot["skipped"], steps=tot["steps"], observations=tot["events"], decision_points=tot["work"], memory_requests=tot["requests"],
               runs_per_hour=int(tot["runs"]*3600/max(t_search, 0.01)), seeds_per_hour=int(tot["runs"]*3600/max(t_search, 0.01)),
               simulated_seconds=round(ticks, 2), machines=machines, faults_injected=used,
               fault_kinds_not_used_here=sorted(k for k, v in faults.items() if not v),
               distinct_states=len(sets["s"]), distinct_state_measure=P.get("state", "model state after a step (sizes, leading monomials, owner kinds), hashed"),
               distinct_interleavings=len(sets["i"]), interleaving_measure="sequence of scheduling, compaction and fault decisions of a run, hashed",
               situations_reached=probes, determinism=det, longest_run_s=round(maxrun, 3), build_s=round(t_build, 1), search_s=round(t_search, 1),
               components_real=P["real"], components_stubbed=P["stub"], workers=WORKERS,
               known_findings=len(seen_known), violation_details=violations, unrepeatable_failures=len(unstable))
    return dict(property=PROP, tier=TIER, seed=SEED, level="exploration", coverage=cov, wall_s=round(time.time() - T0, 1),
                assumptions=P["assume"], violations=len(violations))

if __name__ == "__main__":
    sys.exit(main())
