#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and plan.py."""
import json, os, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import plan
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
hooks = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep=^hook:"], stdout=subprocess.PIPE, text=True).stdout.split()
for p in props:
    if p["id"] in plan.PLAN:
        q = plan.PLAN[p["id"]]
        checks.append(dict(property=p["id"], quick_cmd="python3 check.py " + p["id"], thorough_cmd="python3 check.py %s --thorough" % p["id"],
                           evidence_file="evidence/%s.json" % p["id"],
                           technique="deterministic simulation with fault injection: seeded search over operation histories, interleavings and faults" + plan.ORACLE.get(p["id"], ""),
                           level="exploration",
                           level_note=plan.NOTE.get(p["id"], "Seeded search: holds on every run explored, not proved for all. Bounds and oracle in DESIGN.md.")))
    else:
        na.append(dict(property=p["id"], reason=plan.NA[p["id"]]))
m = dict(version=1, setup_cmd="python3 tools/selftest.py",
         hooks=dict(guard="GINV_SIM", enable="compiled with -DGINV_SIM by build.py; the simulator supplies ginv_sim_gc", source_commits=hooks),
         checks=checks, not_applicable=na,
         notes="check.py builds from /repo's working tree (VP_REPO overrides the path) in a scratch directory and removes it. Replay: python3 check.py writes replays/<id>-<seed>-<index>.replay; python3 tools/replay.py FILE runs it again.")
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
