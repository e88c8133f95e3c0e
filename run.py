#!/usr/bin/env python3
"""Builds the monitored harnesses of one property from /repo's working tree, runs
them, and decides from what the monitors and sanitizers reported.

  run.py --property C01 [--tier quick|thorough] [--seed N] [--replay FILE]

exit 0: held on everything explored; exit 1: VIOLATION line printed; exit 2: the
check itself could not give an answer (does not build, observed nothing)."""
import argparse, concurrent.futures as cf, fnmatch, hashlib, json, os, re, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get("VF_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
import jobs as J

def tree_hash():
    h = hashlib.sha256()
    for root in (os.path.join(REPO, "include"), os.path.join(REPO, "examples"), os.path.join(HERE, "harness"), os.path.join(HERE, "include"), os.path.join(HERE, "cuda"), os.path.join(HERE, "isa"), os.path.join(HERE, "stub")):
        for d, ds, fs in os.walk(root):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode()); h.update(open(p, "rb").read())
    for f in ("jobs.py", "gen_c18.py", "gen_c22.py"):
        h.update(open(os.path.join(HERE, f), "rb").read())
    return h.hexdigest()

def cpu_flags():
    try:
        for l in open("/proc/cpuinfo"):
            if l.startswith("flags"):
                return set(l.split(":", 1)[1].split())
    except OSError:
        pass
    return set()

NEED = {"avx": {"avx"}, "avx2": {"avx2", "fma"}, "avx512": {"avx512f", "avx512dq", "avx512bw", "avx512vl"}}
NEED["mic"] = NEED["avx512"]

def build(job, th):
    key = hashlib.sha256((th + repr(sorted(job.items(), key=str))).encode()).hexdigest()[:20]
    exe = os.path.join(BUILD, "%s-%s" % (job["name"], key))
    if os.path.exists(exe):
        return exe, 0.0, None
    t = time.time()
    if job.get("prepare"):
        try:
            inc = job["prepare"](REPO, HERE, os.path.join(BUILD, "prep-%s-%s" % (job["name"], key)))
        except Exception as e:  # noqa
            return None, time.time() - t, "prepare step failed: %r" % e
    else:
        inc = ["-I" + os.path.join(HERE, "include"), "-I" + os.path.join(REPO, "include")]
    cmd = [job["cc"]] + job["flags"] + inc + ["-I" + os.path.join(HERE, "harness"), os.path.join(HERE, "harness", job["src"]), "-o", exe + ".tmp"] + job.get("libs", [])
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, errors="replace")
    if p.returncode:
        return None, time.time() - t, " ".join(cmd) + "\n" + p.stdout[-6000:]
    for f in os.listdir(BUILD):  # builds of other trees
        if re.match(re.escape(job["name"]) + r"-[0-9a-f]{20}(\.json|\.tmp)?$", f) and key not in f:
            try:
                os.remove(os.path.join(BUILD, f))
            except OSError:
                pass
    os.rename(exe + ".tmp", exe)
    return exe, time.time() - t, None

ENV = {"ASAN_OPTIONS": "detect_leaks=1:exitcode=99:detect_stack_use_after_return=1:strict_init_order=1:allocator_may_return_null=1:max_allocation_size_mb=12000",
       "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=98",
       "TSAN_OPTIONS": "exitcode=97:halt_on_error=0:second_deadlock_stack=1",
       "MSAN_OPTIONS": "exitcode=96"}

def run(job, exe, seed, tier, extra=()):
    out = exe + ".json"
    if os.path.exists(out):
        os.remove(out)
    env = dict(os.environ); env.update(ENV); env.update(job.get("env", {}))
    cmd = job.get("wrap", []) + [exe, "--seed", str(seed), "--tier", tier, "--out", out] + list(job.get("args", [])) + list(extra)
    limit = job.get("timeout", 300) * (8 if tier == "thorough" else 1)
    t = time.time()
    for attempt in (1, 2):
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=limit, env=env, cwd=BUILD)
            rc, err, hung = p.returncode, p.stderr.decode(errors="replace"), False
            break
        except subprocess.TimeoutExpired as e:
            rc, err, hung = -1, (e.stderr or b"").decode(errors="replace"), True
            if tier == "quick" and attempt == 1:
                limit = min(limit, 200)
                continue
            break
    rep = None
    try:
        rep = json.load(open(out))
    except Exception:  # noqa
        pass
    return dict(cmd=cmd, rc=rc, err=err, hung=hung, rep=rep, secs=time.time() - t)

SAN = [
    (r"ERROR: AddressSanitizer: ([A-Za-z-]+)", "asan:"),
    (r"AddressSanitizer:DEADLYSIGNAL", "asan:signal"),
    (r"ERROR: LeakSanitizer: (detected memory leaks)", "lsan:"),
    (r"WARNING: ThreadSanitizer: ([A-Za-z -]+?) \(", "tsan:"),
    (r"WARNING: MemorySanitizer: ([A-Za-z-]+)", "msan:"),
    (r"runtime error: ([^\n]+)", "ubsan:"),
    (r"VF-FATAL key=(\S+)", "monitor:"),
    (r"VF-TERMINATE uncaught: ([^\n]+)", "terminate:"),
    (r"==\d+== (Invalid (?:read|write)[^\n]*|Conditional jump[^\n]*|Use of uninitialised[^\n]*)", "valgrind:"),
]

def judge(job, res):
    """-> list of (key, message)"""
    v = []
    rep, err = res["rep"], res["err"]
    if rep:
        for x in rep["violations"]:
            v.append((x["key"], "%s | %s" % (x["msg"], x["where"])))
    at = re.search(r"VF-AT ([^\n]*)", err)
    where = at.group(1) if at else (rep["at"] if rep and not rep["complete"] else "")
    for pat, pre in SAN:
        m = re.search(pat, err)
        if m:
            if pre == "ubsan:" and "runtime error" in err and "Sanitizer" in pat:
                continue
            what = m.group(1) if m.groups() else ""
            what = re.sub(r"0x[0-9a-f]+", "ADDR", what)
            what = re.sub(r"-?\d+", "N", what)
            v.append((pre + what.strip().replace(" ", "-")[:80], (where + " | " + err[m.start():m.start() + 1500]).strip()))
            break
    if res["hung"]:
        v.append(("hang", "did not finish; " + where))
    elif res["rc"] < 0 and not v:
        v.append(("signal:%d" % -res["rc"], where + " " + err[-800:]))
    elif res["rc"] not in (0, 3) and not v:
        v.append(("exit:%d" % res["rc"], err[-1500:]))
    elif not v and (not rep or not rep["complete"]):
        v.append(("no-report", err[-1500:]))
    return v

def known(prop):
    r = []
    p = os.path.join(HERE, "known_findings.txt")
    for l in open(p):
        l = l.strip()
        m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", l)
        if m and m.group(1) == prop:
            r.append((m.group(2), m.group(3)))
    return r

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property", required=True)
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("--job", help="only jobs whose name contains this")
    a = ap.parse_args()
    t0 = time.time()
    spec = J.PROPERTIES[a.property]
    joblist = [j for j in spec["jobs"] if a.tier == "thorough" or j.get("tier", "quick") == "quick"]
    if a.job:
        joblist = [j for j in joblist if a.job in j["name"]]
    os.makedirs(BUILD, exist_ok=True)
    th = tree_hash()
    flags = cpu_flags()
    skipped = [j["name"] for j in joblist if NEED.get(j["isa"], set()) - flags]
    joblist = [j for j in joblist if j["name"] not in skipped]
    if a.replay:
        r = json.load(open(a.replay))
        job = [j for j in spec["jobs"] if j["name"] == r["job"]][0]
        exe, _, e = build(job, th)
        if e:
            print(e); return 2
        ex = []
        if r.get("scenario"):
            ex = ["--scenario", r["scenario"], "--only", str(r["case"])]
        res = run(job, exe, r["seed"], r["tier"], ex)
        v = judge(job, res)
        for k, m in v:
            print("REPLAYED key=%s %s" % (k, m))
        return 1 if v else 0
    results, errors = [], []
    bsecs = 0.0
    def one(job):
        exe, bs, e = build(job, th)
        if e:
            return job, None, bs, e
        return job, run(job, exe, a.seed, a.tier), bs, None
    order = sorted(joblist, key=lambda j: -j.get("weight", 1))
    workers = min(8, os.cpu_count() or 4)
    with cf.ThreadPoolExecutor(spec.get("workers", workers)) as ex:
        for job, res, bs, e in ex.map(one, order):
            bsecs += bs
            if e:
                errors.append((job["name"], e))
            else:
                results.append((job, res))
    # ---- judge ----
    kf = known(a.property)
    hits, viol = {}, []
    for job, res in results:
        for k, m in judge(job, res):
            full = job["name"] + ":" + k
            for pat, what in kf:
                if fnmatch.fnmatchcase(full, pat):
                    hits.setdefault((pat, what), []).append(full)
                    break
            else:
                viol.append((job, res, k, m))
    # ---- evidence ----
    ev = {}
    distinct = {}
    evaluations = 0
    samples, perjob = [], []
    for job, res in results:
        rep = res["rep"] or {"evaluations": 0, "distinct": 0, "events": {}, "samples": []}
        evaluations += rep["evaluations"]
        distinct[job["src"]] = max(distinct.get(job["src"], 0), rep["distinct"])
        for k, n in rep["events"].items():
            ev[k] = ev.get(k, 0) + n
        for s in rep["samples"][:4]:
            samples.append({"job": job["name"], "case": s[:400]})
        perjob.append({"job": job["name"], "cc": job["cc"], "flags": " ".join(job["flags"]), "evaluations": rep["evaluations"], "distinct": rep["distinct"], "run_s": round(res["secs"], 2)})
    silent = [n for n in spec.get("need", []) if not any(k.startswith(n) and c for k, c in ev.items())]
    evidence = {"property": a.property, "tier": a.tier, "seed": a.seed, "level": spec["level"],
                "coverage": {"evaluations": evaluations, "distinct_nontrivial": sum(distinct.values()),
                             "rule": spec["rule"] + " Distinct counts: per harness source the maximum over its configurations, summed over sources.",
                             "samples": samples[:24], "monitor_events": ev, "configurations": perjob,
                             "skipped_configurations": skipped,
                             "known_findings_observed": sorted(p for p, _ in hits),
                             "violations": len(viol), "build_cpu_s": round(bsecs, 1)},
                "wall_s": round(time.time() - t0, 2)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    if not a.job:
        json.dump(evidence, open(os.path.join(HERE, "evidence", a.property + ".json"), "w"), indent=1)
    for (pat, what), _ in sorted(hits.items()):
        print("KNOWN-FINDING: property=%s %s" % (a.property, what))
    code = 0
    if viol:
        code = 1
        rd = os.path.join(HERE, "replay")
        os.makedirs(rd, exist_ok=True)
        for n, (job, res, k, m) in enumerate(viol[:6]):
            p = os.path.join(rd, "%s-%d.json" % (a.property, n))
            w = re.search(r"scenario=(\S+) case=(\d+)", m)
            json.dump({"property": a.property, "job": job["name"], "key": k, "message": m, "seed": a.seed, "tier": a.tier,
                       "scenario": w.group(1) if w else None, "case": int(w.group(2)) if w else None,
                       "cmd": res["cmd"], "how": "python3 run.py --property %s --replay %s" % (a.property, p)}, open(p, "w"), indent=1)
            print("VIOLATION property=%s replay=%s" % (a.property, p))
            print("  [%s] %s: %s" % (job["name"], k, m[:1200].replace("\n", "\n    ")))
    elif errors or silent or not evaluations:
        code = 2
        print("NO-ANSWER: the check did not complete")
    for n, e in errors:
        print("BUILD-ERROR job=%s\n%s" % (n, e[-3000:]))
    for n in silent:
        print("MONITOR-SILENT event=%s" % n)
    print("%s %s seed=%d jobs=%d evaluations=%d distinct=%d violations=%d known=%d wall=%.1fs" % (a.property, a.tier, a.seed, len(results), evaluations, sum(distinct.values()), len(viol), len(hits), time.time() - t0))
    return code

if __name__ == "__main__":
    sys.exit(main())
