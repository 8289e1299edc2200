#!/usr/bin/env python3
"""replay.py FILE [-v]: builds the simulator from /repo's working tree and runs one replay file."""
import os, re, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import build, plan
t = open(sys.argv[1]).read()
prop, machine = re.search(r"^prop (\S+)", t, re.M).group(1), re.search(r"^machine (\S+)", t, re.M).group(1)
variant = re.search(r"^cfg build (\S+)", t, re.M)
page = re.search(r"^cfg page (\d+)", t, re.M)
w = tempfile.mkdtemp(prefix="simreplay_")
try:
    P = plan.PLAN[prop]
    eng, more = plan.prepare(variant.group(1) if variant else "pure" if P.get("mix") and machine in ("pure", "arith") else P["engine"], w, build, prop)
    e = dict(os.environ, SIM_PAGE=page.group(1) if page else "4096", SIM_HZ="100", SIM_CPU="20", ASAN_OPTIONS="detect_leaks=0:exitcode=77:allocator_may_return_null=1:handle_abort=0:malloc_context_size=1", **more)
    sys.exit(subprocess.run(eng + ["replay"] + sys.argv[1:], env=e).returncode)
finally:
    shutil.rmtree(w, ignore_errors=True)
