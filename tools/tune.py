#!/usr/bin/env python3
"""tune.py ID [seconds]: sets the quick/thorough case counts so that the quick tier takes about `seconds` (default 9) on 8 workers."""
import json, os, re, subprocess, sys, glob
pid = sys.argv[1]; target = float(sys.argv[2]) if len(sys.argv) > 2 else 9.0
V = "/verif"
r = subprocess.run(["python3", V + "/run.py", pid, "quick"], stdout=subprocess.PIPE, text=True)
if r.returncode: sys.exit(r.stdout[-2000:])
subs = json.load(open(f"{V}/evidence/{pid}.json"))["coverage"]["sub_properties"]
n = len(subs)
share = target * 8 / n
for src in glob.glob(f"{V}/harness/{pid}.cpp") + glob.glob(f"{V}/harness/{pid}_*.cpp"):
    t = open(src).read()
    def rep(m):
        name, q, th = m.group(1), int(m.group(2)), int(m.group(3))
        if name not in subs or q == th: return m.group(0)   # q == th: exhaustive, fixed
        s = subs[name]
        per = max(s["cpu_s"] / max(1, s["evaluations"] + s["discarded"]), 2e-7)
        k = int(min(share / per, 30000000))
        digits = len(str(k)); k = int(round(k, -(digits - 2))) if digits > 2 else max(k, 8)
        return f"PROP({name}, {k}, {k * 25})"
    t2 = re.sub(r"^PROP\((\w+), (\d+), (\d+)\)", rep, t, flags=re.M)
    open(src, "w").write(t2)
r = subprocess.run(["python3", V + "/run.py", pid, "quick"], stdout=subprocess.PIPE, text=True)
print(r.stdout.strip().splitlines()[-1])
