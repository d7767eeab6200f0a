#!/usr/bin/env python3
"""cov.py [SCALE] ID...: line coverage of /repo by the harnesses (scratch build under /tmp/cov); writes /tmp/cov/report.txt: per file, lines of code that no
check executes ('-': compiled but never reached, '?': never even instantiated)."""
import concurrent.futures, glob, json, os, re, shutil, subprocess, sys
V = "/verif"; sys.path[:0] = [V, V + "/tools"]
import run
from catalog import PROPS
scale = sys.argv[1] if len(sys.argv) > 1 and sys.argv[1].isdigit() else "3"
ids = [a for a in sys.argv[1:] if not a.isdigit()] or [p["id"] for p in PROPS]
D = "/tmp/cov"; os.makedirs(D, exist_ok=True); W = int(os.environ.get("COV_W", "3"))
def one(pid):
    meta = next(p for p in PROPS if p["id"] == pid); d = f"{D}/{pid}"; shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    flags = [f for f in run.BASE_FLAGS if f != "-O1"] + ["-O1", "-fprofile-instr-generate", "-fcoverage-mapping"] + run.INC + [f for f in meta.get("flags", []) if not f.startswith("-fsan")]
    srcs = sorted(glob.glob(f"{V}/harness/{pid}_*.cpp") + glob.glob(f"{V}/harness/{pid}.cpp")) + [V + "/pbt/main.cpp"] + sorted(glob.glob("/repo/src/**/*.cpp", recursive=True)); objs = []
    for s in srcs:
        o = f"{d}/{len(objs)}.o"; r = subprocess.run([run.CXX] + flags + ["-c", s, "-o", o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode: print(pid, "build failed", r.stdout[-500:]); return
        objs.append(o)
    r = subprocess.run([run.CXX, "-stdlib=libc++", "-pthread", "-fprofile-instr-generate"] + objs + ["-o", d + "/bin"] + meta.get("libs", []), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode: print(pid, "link failed", r.stdout[-500:]); return
    subprocess.run([d + "/bin", "run", d + "/o", "quick", "1", "0", "8", scale], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=dict(os.environ, PBT_SCRATCH=d, LLVM_PROFILE_FILE=d + "/p-%p.profraw"), cwd=d)
    raw = glob.glob(d + "/*.profraw")
    if not raw: print(pid, "no profile"); return
    subprocess.run(["llvm-profdata-18", "merge", "-o", d + "/p.profdata"] + raw, check=True)
    with open(d + "/lcov", "w") as f: subprocess.run(["llvm-cov-18", "export", "-format=lcov", d + "/bin", "-instr-profile=" + d + "/p.profdata"], stdout=f, stderr=subprocess.DEVNULL)
    shutil.copy(d + "/lcov", f"{D}/{pid}.lcov"); shutil.rmtree(d); print(pid, "done", flush=True)
with concurrent.futures.ThreadPoolExecutor(W) as ex: list(ex.map(one, ids))
cov = {}
for f in glob.glob(D + "/*.lcov"):
    cur = None
    for l in open(f):
        if l.startswith("SF:"): cur = cov.setdefault(l[3:].strip(), {})
        elif l.startswith("DA:"): n, k = l[3:].split(",")[:2]; cur[int(n)] = cur.get(int(n), 0) + int(k)
out = open(D + "/report.txt", "w")
for f in sorted(glob.glob("/repo/include/**/*.h", recursive=True) + glob.glob("/repo/experimental/include/**/*.h", recursive=True) + glob.glob("/repo/src/**/*.cpp", recursive=True)):
    c = cov.get(f, {}); text = open(f, encoding="latin1").read().split("\n"); rows = []; block = False
    for i, l in enumerate(text, 1):
        s = l.strip()
        if block: block = "*/" not in s; continue
        if s.startswith("/*"): block = "*/" not in s; continue
        if not s or s.startswith(("//", "#", "}", "template", "using", "typedef", "namespace", "public:", "private:", "struct", "class", "static const")) or s in ("{", "};"): continue
        if i in c:
            if not c[i]: rows.append(f"  - {i}: {s}")
        elif re.search(r"[;{}]\s*$", s) and ("(" in s or "=" in s) and not re.match(r"(extern|friend)", s): rows.append(f"  ? {i}: {s}")
    if rows: out.write(f"{f[6:]} ({len(rows)})\n" + "\n".join(rows) + "\n")
