#!/usr/bin/env python3
"""mutate.py N SEED ID... | defaults | hand SPECFILE: N random small mutants of the files of each property, in private mount namespaces (never in the real /repo).
Prints, per mutant, whether the check's quick tier notices it; a mutant that neither the check nor the repository's tests notice is 'SURVIVED' and is to be
read by hand (equivalent, outside of the property, or a gap); one that only the tests notice is 'TESTS ONLY'."""
import json, os, random, re, shutil, subprocess, sys, glob, time, signal
V = "/verif"; sys.path.insert(0, V)
W = int(os.environ.get("MUT_W", "4")); OUT = os.environ.get("MUT_OUT", "/tmp/mut.log")
def code_lines(text):
    """indices of lines that hold code"""
    out = []; block = False
    for i, l in enumerate(text):
        s = l.strip()
        if block:
            if "*/" in s: block = False
            continue
        if s.startswith("/*"):
            if "*/" not in s: block = True
            continue
        if not s or s.startswith(("//", "#", "template", "using", "namespace", "typedef", "}", "public", "private", "static_assert")): continue
        out.append(i)
    return out
RULES = [(r" < ", [" <= "]), (r" <= ", [" < "]), (r" > ", [" >= "]), (r" >= ", [" > "]), (r" == ", [" != "]), (r" != ", [" == "]),
         (r" \+ ", [" - "]), (r" - ", [" + "]), (r" \* ", [" + "]), (r" / ", [" * "]), (r" % ", [" / "]), (r" && ", [" || "]), (r" \|\| ", [" && "]), (r" \+= ", [" -= ", " = "]), (r" -= ", [" += ", " = "]), (r" \*= ", [" = "]),
         (r" \+ 1\b", ["", " + 2"]), (r" - 1\b", ["", " - 2"]), (r"(?<![\w.])0(?![\w.])", ["1"]), (r"(?<![\w.])1(?![\w.])", ["0", "2"]), (r"(?<![\w.])2(?![\w.])", ["1", "3"]),
         (r"\bmin\b", ["max"]), (r"\bmax\b", ["min"]), (r"\bminT\b", ["maxT"]), (r"\bint64_t\b", ["int32_t"]), (r"\buint64_t\b", ["int64_t", "uint32_t"]), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]),
         (r"\bbreak;", ["continue;", ";"]), (r"\bcontinue;", ["break;", ";"]), (r" >> ", [" << "]), (r" << ", [" >> "]), (r" & ", [" | "]), (r" \| ", [" & "]), (r" \^ ", [" | "]), (r"\bif \(", ["if (!"]), (r"!(?=[\w(])", [""]), (r"\blower_bound\b", ["upper_bound"]), (r"\bupper_bound\b", ["lower_bound"]), (r"\bfront\(", ["back("]), (r"\.first\b", [".second"]), (r"\bleft\b", ["right"]), (r"\bright\b", ["left"])] 
def mutants(path, rnd):
    text = open(path, "rb").read().decode("utf-8", "surrogateescape").split("\n"); lines = code_lines([t.rstrip("\r") for t in text])
    cand = []
    for i in lines:
        l = text[i]; body = l.split("//")[0]
        for pat, subs in RULES:
            for m in re.finditer(pat, body):
                for s in subs: cand.append((i, l[:m.start()] + m.expand(s) + l[m.end():], "rule"))
        s = body.strip()
        if s.endswith(";") and not re.match(r"(return|const|auto|int|size_t|T|I|typedef|static|std::|\w+(<.*>)? \w+( =.*)?;)", s) and s.count("(") == s.count(")") and s.count("{") == s.count("}"):
            cand += [(i, l.replace(s, ";"), "delete")] * 3
    return text, cand
def tests_missing(k):
    subprocess.run(["bash", "/opt/vp/test.sh", f"/tmp/mut/{k}/t.json"], stdout=open(f"/tmp/mut/{k}/t.log", "w"), stderr=subprocess.STDOUT, timeout=900)
    b = set(json.load(open('/opt/vp/BASELINE.json'))['stable']); o = set(json.load(open(f"/tmp/mut/{k}/t.json"))['passed']); return len(b - o)
def check(pid, k):
    """None: does not build; else (detected, how)"""
    r = subprocess.run(["python3", V + "/run.py", pid, "--build-only"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
    if r.returncode: return None
    import run; env = dict(run.ENV); binary = f"{V}/build/{pid}/asan/{pid}"
    for scale in (8, 100):
        ws = list(range(8)) if scale == 100 else [0]
        running = []; t0 = time.time(); bad = None
        def reap():
            nonlocal bad
            for p in list(running):
                rc = p.poll()
                if rc is None: continue
                running.remove(p)
                if rc and not bad: bad = "rc %d" % rc
        while (ws or running) and not bad:
            while ws and len(running) < 2:
                w = ws.pop(0); wd = f"/tmp/mut/{k}/w{w}"; shutil.rmtree(wd, ignore_errors=True); os.makedirs(wd)
                running.append(subprocess.Popen([binary, "run", wd + "/o", "quick", "1", str(w), "8", str(scale)], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=dict(env, PBT_SCRATCH=wd), cwd=wd))
            time.sleep(0.02); reap()
            if time.time() - t0 > 240: bad = "timeout"
        for p in running: p.kill(); p.wait()
        if bad: return True, bad
    return False, ""
def hand(name, pid, edits, k):
    """one hand-written change: edits = [(file, old, new)]"""
    from catalog import PROPS
    saved = {}; res = None
    try:
        for f, old, new in edits:
            b = open("/repo/" + f, "rb").read(); saved.setdefault(f, b)
            for nl in ("\n", "\r\n"):
                o = old.replace("\n", nl).encode()
                if b.count(o) == 1: b = b.replace(o, new.replace("\n", nl).encode()); break
            else: res = "NO UNIQUE MATCH"
            open("/repo/" + f, "wb").write(b)
        if res is None:
            c = check(pid, k); res = "NO BUILD" if c is None else "caught (%s)" % c[1] if c[0] else None
        if res is None:
            for q in PROPS:
                if q["id"] != pid and any(f in q["files"] for f, _, _ in edits):
                    c = check(q["id"], k)
                    if c and c[0]: res = "CAUGHT BY " + q["id"]; break
        n = tests_missing(k) if not res or res.startswith(("caught", "CAUGHT")) and not os.environ.get("MUT_NOTESTS") else 0
        res = (res or "SURVIVED") + (" [tests fail: %d]" % n if n else "")
    except Exception as e: res = "error %r" % e
    for f, b in saved.items(): open("/repo/" + f, "wb").write(b)
    with open(OUT, "a") as o: o.write(f"{res:16s} {pid} {name}\n")
def hand_jobs(path):
    """blocks: '@ PID name' line, then one or more of: 'file: F', old lines, '====', new lines; a block ends at the next '@ '"""
    for blk in re.split(r"^@ ", open(path).read(), flags=re.M)[1:]:
        head, body = blk.split("\n", 1); pid, name = head.split(" ", 1); edits = []
        for e in re.split(r"^file: ", body, flags=re.M)[1:]:
            f, rest = e.split("\n", 1); old, new = rest.split("\n====\n") if "\n====\n" in rest else (rest.split("\n====")[0], ""); edits.append((f.strip(), old, new.rstrip("\n")))
        yield [pid, "hand", name, edits]
def inner(k, jobs):
    if jobs and jobs[0][1] == "hand":
        for pid, _, name, edits in jobs: hand(name, pid, edits, k)
        return
    for pid, seed, *fixed in jobs:
        from catalog import PROPS
        meta = next(p for p in PROPS if p["id"] == pid); rnd = random.Random("%s-%s" % (pid, seed))
        files = [f for f in meta["files"] if os.path.exists("/repo/" + f)]
        wts = [len(code_lines([t.decode("utf-8", "replace") for t in open("/repo/" + f, "rb").read().split(b"\n")])) for f in files]
        f = rnd.choices(files, wts)[0]; text, cand = mutants("/repo/" + f, rnd)
        if not cand: continue
        i, new, kind = rnd.choice(cand)
        if fixed: f, i, new = fixed; text, _ = mutants("/repo/" + f, rnd)
        old = text[i]; orig = open("/repo/" + f, "rb").read(); t = list(text); t[i] = new
        if new == old: continue
        open("/repo/" + f, "wb").write("\n".join(t).encode("utf-8", "surrogateescape"))
        try:
            c = check(pid, k); res = "no build" if c is None else "caught (%s)" % c[1] if c[0] else None
            if res is None:
                for q in PROPS:
                    if q["id"] != pid and f in q["files"]:
                        c = check(q["id"], k)
                        if c and c[0]: res = "caught by " + q["id"]; break
            if res is None and os.environ.get('MUT_NOTESTS'): res = 'UNNOTICED'
            if res is None: n = tests_missing(k); res = "SURVIVED" if n == 0 else "TESTS ONLY (%d)" % n if n < 829 else "no build (tests)"
        except Exception as e: res = "error %r" % e
        open("/repo/" + f, "wb").write(orig)
        with open(OUT, "a") as o: o.write(f"{res:16s} {pid} s{seed} {f}:{i+1}\n" + ("" if res.startswith(("caught (", "no build")) else f"    - {old.strip()}\n    + {new.strip()}\n"))
if sys.argv[1] == "--inner": inner(int(sys.argv[2]), json.load(open(sys.argv[3][1:]))); sys.exit()
def defaults():
    """every default argument changed, for the first property that lists the file"""
    from catalog import PROPS
    for f in sorted({f for p in PROPS for f in p["files"] if f.endswith(".h")}):
        pid = next(p["id"] for p in PROPS if f in p["files"]); text = open("/repo/" + f, "rb").read().decode("utf-8", "surrogateescape").split("\n")
        for i, l in enumerate(text):
            if not re.search(r"\) *(const)? *[{:][^:]", l.rstrip("\r") + " ") or re.search(r"\b(for|if|while|return)\b *\(", l): continue
            for m in re.finditer(r" = (T\(1\)|T\(0\)|I\(0\)|I\(1\)|T\(\)|-?\d+|true|false|'\\n'|[A-Z]\w+)(?=[,)])", l):
                v = m.group(1); nv = {"T(1)": "T(2)", "T(0)": "T(1)", "I(0)": "I(1)", "I(1)": "I(2)", "T()": "T(1)", "true": "false", "false": "true", "'\\n'": "' '"}.get(v) or (str(int(v) + 1) if re.match(r"-?\d+$", v) else None)
                if nv: yield [pid, f"default {v}", f, i, l[:m.start()] + " = " + nv + l[m.end():]]
if sys.argv[1] == "hand": ids = []; jobs = list(hand_jobs(sys.argv[2]))
elif sys.argv[1] == "defaults": ids = []; jobs = list(defaults())
else: n, seed = int(sys.argv[1]), sys.argv[2]; ids = sys.argv[3:]; jobs = [(p, f"{seed}.{j}") for p in ids for j in range(n)]
procs = []
for k in range(W):
    s = f"/tmp/mut/{k}"; shutil.rmtree(s, ignore_errors=True); os.makedirs(s)
    subprocess.run(["cp", "-a", "/repo", s + "/repo"], check=True); subprocess.run(["git", "-C", s + "/repo", "checkout", "-q", "--", "."], check=True); os.makedirs(s + "/evidence"); os.makedirs(s + "/build")
    for p in os.listdir(V + "/build"):
        if os.path.exists(f"{V}/build/{p}"): subprocess.run(["cp", "-a", f"{V}/build/{p}", s + "/build/" + p])
    json.dump(jobs[k::W], open(s + "/jobs", "w"))
    sh = f"mount --bind {s}/repo /repo && mount --bind {s}/build {V}/build && mount --bind {s}/evidence {V}/evidence && exec python3 {V}/tools/mutate.py --inner {k} @{s}/jobs"
    procs.append(subprocess.Popen(["unshare", "-rm", "bash", "-c", sh], env=dict(os.environ, VERIF_SEED="1")))
for p in procs: p.wait()
for k in range(W): shutil.rmtree(f"/tmp/mut/{k}", ignore_errors=True)
