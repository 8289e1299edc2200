#!/usr/bin/env python3
"""setup_cmd: builds every engine once, so that a broken toolchain shows before the checks do."""
import os, shutil, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import build, plan
w = tempfile.mkdtemp(prefix="simsetup_")
try:
    for e in sorted({e for p in plan.PLAN.values() for e in p.get("mix", [p["engine"]])}):
        print(e, plan.prepare(e, os.path.join(w, e), build, "P01")[0])
finally:
    shutil.rmtree(w, ignore_errors=True)
