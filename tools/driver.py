#!/usr/bin/env python3
"""Builds the harness against /repo's current tree and runs one property check.

usage: driver.py ID quick|thorough          run the check
       driver.py ID replay FILE             re-run a saved counterexample
       driver.py --setup                    warm the build caches
Exit codes: 0 held on everything explored, 1 violation, 3 error (no answer).
"""
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, threading, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HARNESS = os.path.join(ROOT, "harness")
REPO = os.environ.get("VERIF_REPO", "/repo")
CPUS = int(os.environ.get("VERIF_JOBS", str(os.cpu_count() or 4)))

def goenv():
    e = dict(os.environ)
    e["GODEBUG"] = "randseednop=0"
    e["PATH"] = "/opt/veriftools/go1.27.3/bin:/usr/local/go/bin:" + e.get("PATH", "/usr/local/bin:/usr/bin:/bin")
    e.setdefault("HOME", "/root")
    e.update(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off", GOSUMDB="off",
             GONOSUMDB="*", GONOSUMCHECK="1", CGO_ENABLED="0")
    e.setdefault("GOMODCACHE", "/root/go/pkg/mod")
    e.setdefault("GOCACHE", "/root/.cache/go-build")
    for k in ("RAPID_CHECKS", "RAPID_SEED", "RAPID_STEPS", "RAPID_FAILFILE"):
        e.pop(k, None)
    return e

def error(msg):
    print("ERROR:", msg)
    sys.stdout.flush()
    sys.exit(3)

def build(scratch):
    """Compile the harness (a copy, so that go.sum can be written) with /repo."""
    src = os.path.join(scratch, "src")
    shutil.copytree(HARNESS, src, ignore=shutil.ignore_patterns("testdata"))
    if REPO != "/repo":
        gm = open(os.path.join(src, "go.mod")).read().replace("=> /repo", "=> " + REPO)
        open(os.path.join(src, "go.mod"), "w").write(gm)
    binary = os.path.join(scratch, "harness.test")
    p = subprocess.run(["go", "test", "-c", "-vet=off", "-o", binary, "."], cwd=src, env=goenv(),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0 or not os.path.exists(binary):
        error("build failed\n" + p.stdout[-4000:])
    return binary

def seed_for(seed, prop, sub, shard):
    h = hashlib.sha256(f"{seed}/{prop}/{sub}/{shard}".encode()).digest()
    return (int.from_bytes(h[:7], "big") | 1)

def known(prop):
    res = []
    fn = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(fn):
        for line in open(fn):
            line = line.strip()
            if line.startswith("KNOWN-FINDING: property=%s " % prop):
                res.append(line)
    return res

class Task:
    def __init__(self, sub, shard, checks, seed):
        self.sub, self.shard, self.checks, self.seed = sub, shard, checks, seed
        self.rc = None; self.out = ""; self.rep = None; self.wall = 0

def run_task(task, prop, binary, scratch, timeout, shrink, stop):
    tag = f"{task.sub['name']}-{task.shard}"
    wd = os.path.join(scratch, "wd-" + tag); os.makedirs(wd)
    out = os.path.join(wd, "out.json")
    env = goenv()
    env.update(VERIF_PROP=prop, VERIF_SUB=task.sub["name"], VERIF_OUT=out, GOMAXPROCS="2", VERIF_SCRATCH=wd, TMPDIR=wd, GOGC="200")
    cmd = [binary, "-test.run=^TestProp$", f"-test.timeout={timeout}s", f"-rapid.checks={task.checks}",
           f"-rapid.seed={task.seed}", f"-rapid.shrinktime={shrink}s", "-test.v"]
    t0 = time.time()
    logf = os.path.join(wd, "log")
    with open(logf, "wb") as lf:
        p = subprocess.Popen(cmd, cwd=wd, env=env, stdout=lf, stderr=subprocess.STDOUT)
        while True:
            try:
                p.wait(timeout=0.2); break
            except subprocess.TimeoutExpired:
                pass
            if time.time() - t0 > timeout + 60 or stop.is_set():
                p.kill(); p.wait(); task.rc = "killed"; break
    if task.rc is None:
        task.rc = p.returncode
    task.wall = time.time() - t0
    with open(logf, "rb") as lf:
        data = lf.read()
    task.out = (data if len(data) < 400000 else data[:200000] + b"\n...\n" + data[-200000:]).decode("utf-8", "replace")
    if os.path.exists(out):
        task.rep = json.load(open(out))
    task.wd = wd

def classify(task):
    """ok | violation | error"""
    if task.rc == 0:
        return "ok", ""
    if task.rc == "killed":
        return "error", "timed out"
    if os.path.exists(os.path.join(task.wd, "out.json.runaway")):
        return "violation", open(os.path.join(task.wd, "out.json.runaway")).read()
    o = task.out
    if re.search(r"\[rapid\] (failed|panic) after|\[rapid\] flaky test", o):
        if "HARNESS-ERROR" in o:
            return "error", o
        return "violation", o
    if "stack overflow" in o or "goroutine stack exceeds" in o:
        st = os.path.join(task.wd, "out.json.status")
        s = open(st, "rb").read().split(b"\0")[0].decode("utf-8", "replace") if os.path.exists(st) else ""
        return "violation", "STACK OVERFLOW (unbounded recursion) in case " + s + "\n" + o[:6000]
    if "fatal error: concurrent map" in o or "fatal error: all goroutines" in o:
        return "violation", o[:8000]
    return "error", o[-3000:]

def save_replay(task, prop, why):
    d = os.path.join(ROOT, "replays"); os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{prop}-{task.sub['name']}-{task.seed:x}.txt")
    fail = None
    for base, _, files in os.walk(os.path.join(task.wd, "testdata")):
        for fn in files:
            if fn.endswith(".fail"): fail = os.path.join(base, fn)
    with open(path, "w") as f:
        f.write(f"property={prop}\nsub={task.sub['name']}\nseed={task.seed}\nchecks={task.checks}\n")
        f.write(f"# re-run: ./check.sh {prop} replay {path}\n")
        f.write("--- rapid failfile\n")
        f.write(open(fail).read() if fail else "")
        f.write("\n--- output\n" + why[:100000] + "\n")
    return path

def replay(prop, path):
    text = open(path).read()
    head, rest = text.split("--- rapid failfile\n", 1)
    fail = rest.split("\n--- output\n", 1)[0]
    kv = dict(re.findall(r"^(\w+)=(.*)$", head, re.M))
    scratch = tempfile.mkdtemp(prefix="verif-")
    try:
        binary = build(scratch)
        env = goenv(); env.update(VERIF_PROP=prop, VERIF_SUB=kv["sub"], VERIF_SCRATCH=scratch, TMPDIR=scratch)
        cmd = [binary, "-test.run=^TestProp$", "-test.v", "-rapid.nofailfile"]
        if fail.strip():
            ff = os.path.join(scratch, "case.fail"); open(ff, "w").write(fail)
            cmd += [f"-rapid.failfile={ff}", "-rapid.checks=1"]
        else:
            cmd += [f"-rapid.seed={kv['seed']}", f"-rapid.checks={kv['checks']}"]
        p = subprocess.run(cmd, cwd=scratch, env=env)
        if p.returncode != 0:
            print(f"VIOLATION property={prop} replay={path}")
            sys.exit(1)
        sys.exit(0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

def main():
    if sys.argv[1] == "--setup":
        scratch = tempfile.mkdtemp(prefix="verif-")
        try:
            build(scratch)
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
        print("setup ok"); return
    prop, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
    if tier == "replay":
        replay(prop, sys.argv[3]); return
    if tier not in ("quick", "thorough"): error("unknown tier " + tier)
    t0 = time.time()
    try: seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError: seed = 1
    scratch = tempfile.mkdtemp(prefix="verif-")
    try:
        rc = check(prop, tier, seed, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(rc)

def check(prop, tier, seed, scratch, t0):
    binary = build(scratch)
    tbuild = time.time() - t0
    p = subprocess.run([binary, "-test.run=^TestList$"], env=goenv(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=scratch)
    m = re.search(r"LIST:(.*)", p.stdout)
    if not m: error("listing failed: " + p.stdout[-2000:])
    plist = {x["id"]: x for x in json.loads(m.group(1))}
    if prop not in plist: error("unknown property " + prop)
    pr = plist[prop]
    only = os.environ.get("VERIF_ONLY")
    tasks = []
    scale = float(os.environ.get("VERIF_SCALE", "1"))
    for s in pr["subs"]:
        if only and s["name"] not in only.split(","): continue
        shards, checks = s["shards"], s["quick"]
        if tier == "thorough":
            checks *= s["mult"]
            while shards < 8 and checks > s["quick"] * 2:
                shards *= 2; checks //= 2
        else:
            shards = max(16, 6 * shards)
        checks = max(1, int(checks * scale))
        for sh in range(shards):
            tasks.append(Task(s, sh, checks, seed_for(seed, prop, s["name"], sh)))
    timeout, shrink = (420, 15) if tier == "quick" else (3000, 60)
    queue = sorted(tasks, key=lambda t: t.shard)
    lock, stop = threading.Lock(), threading.Event()
    found = []
    def worker():
        while True:
            with lock:
                if not queue or found: return
                t = queue.pop(0)
            run_task(t, prop, binary, scratch, timeout, shrink, stop)
            if t.rc != 0:
                k, why = classify(t)
                if k == "violation": found.append(t)
    ths = [threading.Thread(target=worker) for _ in range(CPUS)]
    for th in ths: th.start()
    # once something failed, give the others a short grace period
    fail_at = None
    while any(th.is_alive() for th in ths):
        time.sleep(0.1)
        if found and fail_at is None: fail_at = time.time()
        if fail_at and time.time() - fail_at > 20: stop.set()
    viol, errs = [], []
    ev = dict(evals=0, hashes=set(), classes={}, excluded={}, samples=[], per={}, maxms=0.0)
    for t in tasks:
        if t.rc is None: continue
        k, why = classify(t)
        if k == "violation": viol.append((t, why))
        elif k == "error" and not (t.rc == "killed" and found): errs.append((t, why))
        if t.rep:
            r = t.rep
            ev["evals"] += r["evaluations"]
            ev["hashes"].update((t.sub["name"], h) for h in (r.get("hashes") or []))
            d = ev["per"].setdefault(t.sub["name"], dict(cases=0, wall_s=0.0, max_case_ms=0.0, classes={}))
            d["cases"] += r["evaluations"]; d["wall_s"] = round(d["wall_s"] + t.wall, 2)
            d["max_case_ms"] = max(d["max_case_ms"], r["max_case_ms"])
            for c, n in (r["classes"] or {}).items(): d["classes"][c] = d["classes"].get(c, 0) + n
            for c, n in (r["excluded"] or {}).items(): ev["excluded"][c] = ev["excluded"].get(c, 0) + n
            if t.shard == 0:
                for s in (r["samples"] or [])[:4]: ev["samples"].append(f"[{t.sub['name']}] {s}")
    for d in ev["per"].values(): d["classes"] = dict(sorted(d["classes"].items()))
    cov = dict(evaluations=ev["evals"], distinct_nontrivial=len(ev["hashes"]), rule=pr["rule"], samples=ev["samples"][:40],
               sub_checks=ev["per"], excluded_known=ev["excluded"], build_s=round(tbuild, 1))
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    doc = dict(property=prop, tier=tier, seed=seed, level="exploration", coverage=cov, wall_s=round(time.time() - t0, 2),
               violations=len(viol),
               assumptions=["inputs are within the bounds and documented domains the generators use (see DESIGN.md)",
                            "the harness' own reference oracles (truth tables, DPLL, brute force) are correct"])
    with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
        json.dump(doc, f, indent=1); f.write("\n")
    for line in known(prop): print(line)
    if os.environ.get("VERIF_VERBOSE"):
        for n, d in ev["per"].items(): print(n, json.dumps(d))
    print(f"{prop} {tier}: {ev['evals']} cases, {len(ev['hashes'])} distinct non-trivial, {len(viol)} violations, {time.time()-t0:.1f}s (build {tbuild:.1f}s)")
    if viol:
        seen = set()
        for t, why in viol:
            if t.sub["name"] in seen and not os.environ.get("VERIF_ALL"): continue
            seen.add(t.sub["name"])
            path = save_replay(t, prop, why)
            m = re.findall(r".*\[rapid\] (?:failed|panic|flaky).*", why)
            print("  " + t.sub["name"] + ": " + (m[-1].strip() if m else why[:300]))
            for l in re.findall(r"case: .*", why)[-1:]: print("  " + l[:1000])
            print(f"VIOLATION property={prop} replay={path}")
        return 1
    if errs:
        for t, why in errs: print(f"ERROR: {t.sub['name']} shard {t.shard}: rc={t.rc} {why[-1500:]}")
        return 3
    return 0

if __name__ == "__main__":
    main()
