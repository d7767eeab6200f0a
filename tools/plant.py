#!/usr/bin/env python3
"""plant.py < spec: makes /verif/seeded/<id>/ from a spec and validates it in a private mount namespace; plant.py --check ID: validates again.

spec:
  id: / property: / needs: / breaks:      (one line each)
  file: include/...                        (followed by edits, repeatable)
  <<<<
  old text
  ====
  new text
  >>>>
  demo:
  C++ body with main()"""
import json, os, re, shutil, subprocess, sys
V = "/verif"
DEMO = '''#!/bin/bash
# exit 0 when the property holds in the tree in the current directory (/repo)
here=$(cd "$(dirname "$0")" && pwd); tmp=$(mktemp -d) || exit 2; trap 'rm -rf "$tmp"' EXIT
clang++-18 -stdlib=libc++ -std=gnu++14 -pthread -O1 -g1 -w -fms-extensions -fms-compatibility -fms-compatibility-version=19.30 -U_MSC_VER \\
  -fno-delayed-template-parsing -include /opt/vp/cmake/gnuc_macros.h -include utility %s -I"$PWD/include" -I"$PWD/experimental/include" \\
  "$here/demo.cpp" $(find "$PWD/src" -name '*.cpp') -o "$tmp/demo" || exit 3
cd "$tmp" && timeout 120 ./demo
'''
def inner(pid, prop, d):
    """runs with the scratch copy mounted as /repo"""
    def demo(): r = subprocess.run(["bash", d + "/demo.sh"], cwd="/repo", stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True); return r.returncode, r.stdout[-400:]
    out = []
    c, t = demo(); out.append("demo clean: %d%s" % (c, "" if c == 0 else "  <-- BAD " + t))
    r = subprocess.run(["git", "-C", "/repo", "apply", d + "/patch.diff"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode: out.append("BAD patch: " + r.stdout); print("\n".join(out)); return
    c, t = demo(); out.append("demo patched: %d%s" % (c, "" if c not in (0, 3) else "  <-- BAD " + t))
    subprocess.run(["bash", "/opt/vp/test.sh", "/tmp/plant-%s.json" % pid], stdout=open("/tmp/plant-%s.log" % pid, "w"), stderr=subprocess.STDOUT)
    b = set(json.load(open('/opt/vp/BASELINE.json'))['stable']); o = set(json.load(open("/tmp/plant-%s.json" % pid))['passed'])
    out.append("tests missing: %s%s" % (len(b - o), "" if not b - o else "  <-- BAD " + " ".join(sorted(b - o)[:4])))
    r = subprocess.run(["python3", V + "/run.py", prop, "quick"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    out.append("check: rc %d%s\n    %s" % (r.returncode, "" if r.returncode == 1 else "  <-- MISSED", "\n    ".join(x[:200] for x in r.stdout.strip().splitlines()[-4:])))
    print("== " + pid + "\n" + "\n".join("  " + x for x in out))
def validate(pid):
    d = f"{V}/seeded/{pid}"; prop = json.load(open(d + "/meta.json"))["property"]
    s = f"/tmp/plant-{pid}"; shutil.rmtree(s, ignore_errors=True); os.makedirs(s)
    subprocess.run(["cp", "-a", "/repo", s + "/repo"], check=True); subprocess.run(["git", "-C", s + "/repo", "checkout", "-q", "--", "."], check=True)
    os.makedirs(s + "/build"); os.makedirs(s + "/evidence")
    for x in ("common", prop):
        if os.path.exists(f"{V}/build/{x}"): subprocess.run(["cp", "-a", f"{V}/build/{x}", s + "/build/" + x])
    sh = f"mount --bind {s}/repo /repo && mount --bind {s}/build {V}/build && mount --bind {s}/evidence {V}/evidence && exec python3 {V}/tools/plant.py --inner {pid} {prop} {d}"
    subprocess.run(["unshare", "-rm", "bash", "-c", sh], env=dict(os.environ, VERIF_SEED="1"))
    shutil.rmtree(s, ignore_errors=True)
    for f in (f"/tmp/plant-{pid}.json", f"/tmp/plant-{pid}.log"):
        if os.path.exists(f): os.unlink(f)
if sys.argv[1:2] == ["--inner"]: inner(*sys.argv[2:5])
elif sys.argv[1:2] == ["--check"]:
    for p in sys.argv[2:]: validate(p)
else:
    spec = sys.stdin.read(); head, demo = spec.split("\ndemo:\n", 1)
    f = {k: re.search(r"^%s: *(.*)$" % k, head, re.M).group(1).strip() for k in ("id", "property", "needs", "breaks")}
    extra = re.search(r"^flags: *(.*)$", head, re.M); d = f"{V}/seeded/{f['id']}"; w = f"/tmp/wt-{f['id']}"
    shutil.rmtree(w, ignore_errors=True); subprocess.run(["git", "clone", "-q", "--shared", "/repo", w], check=True)
    for m in re.finditer(r"^file: *(\S+)\n((?:<<<<\n.*?\n?>>>>\n?)+)", head + "\n", re.M | re.S):
        for e in re.finditer(r"<<<<\n(.*?)\n====\n(.*?)\n?>>>>", m.group(2), re.S):
            r = subprocess.run(["python3", V + "/tools/rep.py", f"{w}/{m.group(1)}"], input=e.group(1) + "\n=====\n" + e.group(2), text=True, stdout=subprocess.PIPE)
            if r.returncode: sys.exit(f"{f['id']}: no unique match in {m.group(1)}: {r.stdout}{e.group(1)}")
    diff = subprocess.run(["git", "-C", w, "diff"], stdout=subprocess.PIPE).stdout; shutil.rmtree(w)
    if not diff: sys.exit("empty diff")
    os.makedirs(d, exist_ok=True); open(d + "/patch.diff", "wb").write(diff); open(d + "/demo.cpp", "w").write(demo)
    open(d + "/demo.sh", "w").write(DEMO % (extra.group(1) if extra else "")); os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": f["property"], "needs": f["needs"], "what_it_breaks": f["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    validate(f["id"])
