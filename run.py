#!/usr/bin/env python3
"""Runs one check: run.py ID [quick|thorough] [--replay FILE] [--only SUB] [--scale PCT] [--build-only]

Rebuilds the harness of the property from /repo's working tree, runs its generated cases on
eight worker processes, shrinks and confirms a failure, writes evidence/<ID>.json.
Exit 0: held on everything explored. Exit 1: a VIOLATION line was printed. Else: error."""
import concurrent.futures, glob, hashlib, json, os, re, shutil, signal, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
BUILD = os.path.join(VERIF, "build")
NW = 8
sys.path.insert(0, VERIF)
CXX = "clang++-18" if shutil.which("clang++-18") else "clang++"
BASE_FLAGS = ["-stdlib=libc++", "-std=gnu++14", "-pthread", "-O1", "-g1", "-w",
              "-fms-extensions", "-fms-compatibility", "-fms-compatibility-version=19.30", "-U_MSC_VER",
              "-fno-delayed-template-parsing", "-include", VERIF + "/pbt/gnuc_macros.h", "-include", "utility",
              "-fno-omit-frame-pointer"]
INC = ["-I" + REPO + "/include", "-I" + REPO + "/experimental/include", "-I" + VERIF + "/pbt", "-I" + VERIF + "/harness"]
SAN = ["-fsanitize=address"]
ENV = dict(os.environ)
ENV["ASAN_OPTIONS"] = ("abort_on_error=0:exitcode=99:detect_leaks=0:detect_stack_use_after_return=1:"
                       "alloc_dealloc_mismatch=0:allocator_may_return_null=0:max_allocation_size_mb=3000:hard_rss_limit_mb=3000:"
                       "detect_container_overflow=1:print_legend=0:handle_abort=1:symbolize=1")


def sha(path):
    try:
        with open(path, "rb") as f:
            return hashlib.sha256(f.read()).hexdigest()
    except OSError:
        return None


def compile_one(src, obj, flags):
    """Compiles unless the recorded hashes of every dependency still match."""
    meta = obj + ".meta"
    cmd = [CXX] + flags + ["-MD", "-MF", obj + ".d", "-c", src, "-o", obj]
    try:
        m = json.load(open(meta))
        if m["cmd"] == cmd and os.path.exists(obj) and all(sha(p) == h for p, h in m["deps"].items()):
            return None
    except (OSError, ValueError, KeyError):
        pass
    if os.path.exists(meta):
        os.unlink(meta)
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        return "%s\n%s" % (" ".join(cmd), r.stdout[-6000:])
    deps = open(obj + ".d").read().replace("\\\n", " ").split(":", 1)[1].split()
    deps = {p: sha(p) for p in deps if not p.startswith("/usr/")}
    with open(meta, "w") as f:
        json.dump({"cmd": cmd, "deps": deps}, f)
    return None


def build(pid, meta, fuzz=False):
    """Returns the binary's path."""
    san = list(SAN) + meta.get("flags", [])
    if fuzz:
        san = ["-fsanitize=fuzzer-no-link,address", "-DPBT_FUZZ"] + meta.get("flags", [])
    kind = "fuzz" if fuzz else "asan"
    flags = BASE_FLAGS + san + INC
    fkey = hashlib.sha256(" ".join(flags).encode()).hexdigest()[:8]
    jobs = []
    srcs = sorted(glob.glob(f"{VERIF}/harness/{pid}_*.cpp") + glob.glob(f"{VERIF}/harness/{pid}.cpp"))
    if not srcs:
        sys.exit(f"no harness for {pid}")
    for s in srcs:
        jobs.append((s, f"{BUILD}/{pid}/{kind}/{os.path.basename(s)}.o"))
    jobs.append((VERIF + "/pbt/main.cpp", f"{BUILD}/common/{fkey}/main.o"))
    for s in sorted(glob.glob(REPO + "/src/**/*.cpp", recursive=True)):
        rel = os.path.relpath(s, REPO).replace("/", "_")
        jobs.append((s, f"{BUILD}/common/{fkey}/{rel}.o"))
    with concurrent.futures.ThreadPoolExecutor(NW) as ex:
        errs = [e for e in ex.map(lambda j: compile_one(j[0], j[1], flags), jobs) if e]
    if errs:
        print("harness does not build:\n" + "\n".join(errs))
        sys.exit(2)
    binary = f"{BUILD}/{pid}/{kind}/{pid}"
    link = [CXX, "-stdlib=libc++", "-pthread", "-fsanitize=" + ("fuzzer,address" if fuzz else "address")]
    link += [f for f in meta.get("flags", []) if f.startswith("-fsanitize")]
    r = subprocess.run(link + [o for _, o in jobs] + ["-o", binary + ".tmp"] + meta.get("libs", []),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        print("harness does not link:\n" + r.stdout[-6000:])
        sys.exit(2)
    os.replace(binary + ".tmp", binary)
    return binary


def known(pid):
    path = VERIF + "/known_findings.jsonl"
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("{"):
                e = json.loads(line)
                if e["property"] == pid and e.get("status") == "known":
                    out.append(e)
    return out


def run_replay(binary, path, env, scratch):
    t = tail = None
    try:
        r = subprocess.run([binary, "replay", path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env,
                           cwd=scratch, timeout=300, errors="replace", text=True)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired as e:
        return -1, "timeout"


def main():
    args = sys.argv[1:]
    opt = {}
    pos = []
    i = 0
    while i < len(args):
        if args[i] in ("--replay", "--only", "--scale", "--seed"):
            opt[args[i][2:]] = args[i + 1]
            i += 2
        elif args[i].startswith("--"):
            opt[args[i][2:]] = True
            i += 1
        else:
            pos.append(args[i])
            i += 1
    pid = pos[0]
    tier = pos[1] if len(pos) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(opt.get("seed", os.environ.get("VERIF_SEED", "1") or "1"))
    from catalog import PROPS
    meta = next(p for p in PROPS if p["id"] == pid)
    t0 = time.monotonic()
    binary = build(pid, meta)
    t_build = time.monotonic() - t0
    if "build-only" in opt:
        if "fuzz" in opt:
            build(pid, meta, fuzz=True)
        return 0
    env = dict(ENV)
    scratch = f"{BUILD}/{pid}/scratch"
    shutil.rmtree(scratch, ignore_errors=True)
    os.makedirs(scratch)
    env["PBT_SCRATCH"] = scratch
    if "replay" in opt:
        for k in range(100 if meta.get("schedule") else 1):
            rc, out = run_replay(binary, os.path.abspath(opt["replay"]), env, scratch)
            if rc != 0:
                break
        print(out)
        return 0 if rc == 0 else 1

    # known findings first
    kf = []
    for e in known(pid):
        try:
            r = subprocess.run([binary, "probe", e["probe"]], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                               env=dict(env, PBT_CPU="10"), cwd=scratch, timeout=120, errors="replace", text=True)
            rc, out = r.returncode, r.stdout
        except subprocess.TimeoutExpired:
            rc, out = -1, "timeout"
        if rc == 2:
            print(f"probe {e['probe']} is missing")
            return 2
        if rc != 0:
            print(f"KNOWN-FINDING: property={pid} {e['what']}")
            kf.append(e["probe"])

    outdir = f"{BUILD}/{pid}/run"
    shutil.rmtree(outdir, ignore_errors=True)
    os.makedirs(outdir)
    t1 = time.monotonic()
    procs = []
    for w in range(NW):
        log = open(f"{outdir}/w{w}.log", "wb")
        wd = f"{scratch}/w{w}"
        os.makedirs(wd)
        cmd = [binary, "run", f"{outdir}/w{w}", tier, str(seed), str(w), str(NW), str(opt.get("scale", 100))]
        if "only" in opt:
            cmd.append(opt["only"])
        procs.append(subprocess.Popen(cmd, stdout=log, stderr=log, env=dict(env, PBT_SCRATCH=wd), cwd=wd))
    deadline = time.monotonic() + (650 if tier == "quick" else 3 * 3600)
    failed = []
    truncated = False
    live = set(range(NW))
    while live:
        time.sleep(0.05)
        for w in sorted(live):
            rc = procs[w].poll()
            if rc is not None:
                live.discard(w)
                if rc != 0:
                    failed.append((w, rc))
        if failed and live:
            for w in live:
                procs[w].kill()
            for w in live:
                procs[w].wait()
            break
        if time.monotonic() > deadline and live:
            truncated = True
            for w in live:
                procs[w].kill()
                procs[w].wait()
            break
    t_run = time.monotonic() - t1

    violation = None
    if failed:
        w, rc = failed[0]
        if rc == 2:
            print(open(f"{outdir}/w{w}.log", errors="replace").read()[-3000:])
            return 2
        if rc != 3:
            subprocess.run([binary, "crashinfo", f"{outdir}/w{w}", tier], env=env)
        fail = f"{outdir}/w{w}.fail"
        if not os.path.exists(fail):
            print(open(f"{outdir}/w{w}.log", errors="replace").read()[-3000:])
            print(f"worker {w} ended with {rc} and left no case")
            return 2
        info = open(f"{outdir}/w{w}.failinfo", errors="replace").read()
        rdir = VERIF + "/evidence/replays"
        os.makedirs(rdir, exist_ok=True)
        digest = hashlib.sha256(open(fail, "rb").read()).hexdigest()[:10]
        final = f"{rdir}/{pid}-{digest}.case"
        shutil.copy(fail, final)
        hang = rc == 97
        if not hang:
            small = fail + ".small"
            try:
                subprocess.run([binary, "shrink", fail, small, "20" if tier == "quick" else "60", "10"], env=env, cwd=scratch,
                               stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=240)
            except subprocess.TimeoutExpired:
                pass
            if os.path.exists(small):
                shutil.copy(small, final)
        if meta.get("schedule"):
            # the outcome depends on the thread schedule; the oracle holds for every schedule, so one failure is enough
            for k in range(60):
                if run_replay(binary, final, env, scratch)[0] != 0:
                    break
            else:
                shutil.copy(fail, final)
            with open(final, "a") as f:
                f.write("# fails under some thread schedules only; replay it repeatedly. Observed:\n" + "".join("# " + l + "\n" for l in info.splitlines()))
        results = [run_replay(binary, final, env, scratch) for _ in range(1 if hang else 3)]  # a hang costs a minute each
        if meta.get("schedule"):
            results = [(1, info)]
        if not all(r[0] != 0 for r in results) and os.path.exists(fail):
            shutil.copy(fail, final)
            results = [run_replay(binary, final, env, scratch) for _ in range(3)]
        if all(r[0] != 0 for r in results):
            violation = (final, results[0][1])
        else:
            # depends on the history of the worker: the same worker, from its first case, is deterministic
            again = []
            for k in range(2):
                cmd = [binary, "run", f"{outdir}/again", tier, str(seed), str(w), str(NW), str(opt.get("scale", 100))]
                if "only" in opt:
                    cmd.append(opt["only"])
                wd = f"{scratch}/w{w}"
                again.append(subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
                                            env=dict(env, PBT_SCRATCH=wd), cwd=wd).returncode)
            if all(r not in (0, 2) for r in again):
                with open(final, "a") as f:
                    f.write("# fails only after the preceding cases of its worker; reproduce with:\n# " + " ".join(cmd) + "\n")
                violation = (final, "fails only after the preceding cases of its worker:\n" + info)
            else:
                print("a case failed once but does not fail again; not reported as a violation:\n" + info)
                print(open(f"{outdir}/w{w}.log", errors="replace").read()[-2000:])
                return 2

    # coverage-guided stage of the thorough tier
    fuzz_info = None
    if tier == "thorough" and not violation and meta.get("fuzz", True) and "only" not in opt:
        fuzz_info, violation = fuzz_stage(pid, meta, binary, seed, env, scratch, outdir)

    # evidence
    subs = {}
    for w in range(NW):
        try:
            txt = open(f"{outdir}/w{w}.json").read().rstrip()
            if not txt.endswith("]"):
                txt = txt.rstrip(",\n") + "]"
            data = json.loads(txt)
        except (OSError, ValueError):
            continue
        for d in data:
            s = subs.setdefault(d["name"], {"evaluations": 0, "discarded": 0, "nontrivial": 0, "labels": {}, "samples": [], "cpu_s": 0.0, "max_case_s": 0.0})
            for k in ("evaluations", "discarded", "nontrivial"):
                s[k] += d[k]
            s["cpu_s"] = round(s["cpu_s"] + d["seconds"], 2)
            s["max_case_s"] = round(max(s["max_case_s"], d["max_case_seconds"]), 3)
            for k, v in d["labels"].items():
                s["labels"][k] = s["labels"].get(k, 0) + v
            s["samples"] += d["samples"]
    hashes = glob.glob(f"{outdir}/w*.hash")
    distinct = int(subprocess.run([binary, "distinct"] + hashes, stdout=subprocess.PIPE, text=True, env=env).stdout or 0)
    for h in hashes:
        os.unlink(h)
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": sum(s["evaluations"] for s in subs.values()),
            "distinct_nontrivial": distinct,
            "rule": meta["rule"],
            "samples": [{"sub_property": n, "case": x} for n, s in sorted(subs.items()) for x in s["samples"][:2]] or ["(no sample: the run stopped at a failure)"],
            "discarded": sum(s["discarded"] for s in subs.values()),
            "sub_properties": {n: {k: v for k, v in s.items() if k != "samples"} for n, s in sorted(subs.items())},
            "build_s": round(t_build, 1), "run_s": round(t_run, 1), "truncated_by_time": truncated,
            "known_findings_excluded": kf,
        },
        "assumptions": meta.get("assumptions", []),
        "wall_s": round(time.monotonic() - t0, 1),
        "violations": 1 if violation else 0,
    }
    if fuzz_info:
        ev["coverage"]["coverage_guided"] = fuzz_info
    if violation:
        ev["coverage"]["violation"] = {"replay": violation[0], "output": violation[1][:3000]}
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    with open(f"{VERIF}/evidence/{pid}.json", "w") as f:
        json.dump(ev, f, indent=1)
    shutil.rmtree(scratch, ignore_errors=True)
    if violation:
        print(violation[1][:3000].rstrip())
        print(f"VIOLATION property={pid} replay={violation[0]}")
        return 1
    print(f"{pid} {tier} seed={seed}: held on {ev['coverage']['evaluations']} cases, {distinct} distinct non-trivial "
          f"(build {t_build:.1f}s, run {t_run:.1f}s)" + (" TRUNCATED" if truncated else ""))
    return 0


def fuzz_stage(pid, meta, binary, seed, env, scratch, outdir):
    fb = build(pid, meta, fuzz=True)
    secs = int(meta.get("fuzz_seconds", 120))
    procs = []
    for w in range(NW):
        d = f"{scratch}/fz{w}"
        os.makedirs(d + "/corpus")
        cmd = [fb, d + "/corpus", f"-seed={(seed * 100 + w) % 2147483647 + 1}", f"-max_total_time={secs}", "-timeout=60", "-rss_limit_mb=3000",
               "-max_len=4096", f"-artifact_prefix={d}/crash-", "-print_final_stats=1", "-use_value_profile=1"]
        procs.append((d, subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=open(f"{outdir}/fz{w}.log", "wb"), env=dict(env, PBT_SCRATCH=d), cwd=d)))
    for _, p in procs:
        p.wait()
    execs = cov = 0
    violation = None
    for w, (d, p) in enumerate(procs):
        log = open(f"{outdir}/fz{w}.log", errors="replace").read()
        m = re.search(r"stat::number_of_executed_units:\s+(\d+)", log)
        execs += int(m.group(1)) if m else 0
        for m in re.finditer(r"cov: (\d+)", log):
            cov = max(cov, int(m.group(1)))
        for art in sorted(glob.glob(f"{d}/crash-*")):
            if violation or "/crash-slow-unit" in art:
                continue
            case = f"{outdir}/fz{w}.fail"
            subprocess.run([binary, "frombytes", art, case], env=env, cwd=scratch)
            rdir = VERIF + "/evidence/replays"
            os.makedirs(rdir, exist_ok=True)
            final = f"{rdir}/{pid}-fz{w}.case"
            if not os.path.exists(case):
                continue
            shutil.copy(case, final)
            small = case + ".small"
            try:
                subprocess.run([binary, "shrink", case, small, "60", "10"], env=env, cwd=scratch, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=240)
            except subprocess.TimeoutExpired:
                pass
            if os.path.exists(small):
                shutil.copy(small, final)
            results = [run_replay(binary, final, env, scratch) for _ in range(3)]
            if all(r[0] != 0 for r in results):
                violation = (final, results[0][1])
    return {"engine": "libFuzzer over the same sub-properties (bytes decoded as choices)", "seconds": secs, "executions": execs, "edges_covered": cov}, violation


if __name__ == "__main__":
    sys.exit(main())
