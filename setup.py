#!/usr/bin/env python3
"""Builds every harness (the checks rebuild what changed)."""
import concurrent.futures, os, subprocess, sys
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
from catalog import PROPS
def one(pid):
    r = subprocess.run([sys.executable, V + "/run.py", pid, "--build-only"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return pid, r.returncode, r.stdout
bad = 0
one(PROPS[0]["id"])
with concurrent.futures.ThreadPoolExecutor(6) as ex:
    for pid, rc, out in ex.map(one, [p["id"] for p in PROPS if not p.get("draft")]):
        print(pid, "ok" if rc == 0 else out[-2000:], flush=True)
        bad |= rc != 0
# a harness that does not build is reported by its own check
sys.exit(0)
