#!/usr/bin/env python3
"""Mutation testing of the checks (development tool, not used by any check).
usage: mutrun.py OUT.jsonl CAP SEED FILE...   (files relative to /repo)
Every mutant is applied in a scratch copy of /repo and the checks of the file's
area run until one reports; survivors are listed for inspection."""
import importlib.util, json, os, random, re, shutil, subprocess, sys, tempfile, threading, time
HERE = os.path.dirname(os.path.abspath(__file__))
spec = importlib.util.spec_from_file_location("driver", os.path.join(HERE, "driver.py"))
driver = importlib.util.module_from_spec(spec); spec.loader.exec_module(driver)

AREAS = [
    ("bdd/graphical", "V01"), ("graph/graphical", "V01"),
    ("formula/factory.go", "F01 F02 P01 K01"), ("formula/printer", "P01"), ("formula/formula.go", "F01 F02 F03"),
    ("formula/graphical", "V01"), ("formula/set", "F05 F03 K01"), ("formula/proposition", "F05 S04"), ("model/model.go", "F05 C01"),
    ("sat/pigeon", "C03"), ("sat/queen", "C03"), ("formula/", "F03 F01 F02 K01"), ("assignment/", "F04 F05"), ("parser/", "P01 P02"), ("io/", "I01"),
    ("normalform/", "N01 N02 H01 K01"), ("encoding/pbc", "E02"), ("encoding/normalize", "E02"), ("encoding/cc_incr", "E03"),
    ("encoding/", "E01 E03 E02"), ("sat/backbone", "S05 S08"), ("sat/optim", "S07 S08"), ("sat/proofs", "S04"), ("sat/dnnf", "D01"),
    ("sat/", "S01 S03 S04 S02 S05 S06 S07 S08"), ("maxsat/", "M01 M02"), ("model/iter", "C01 C02"), ("model/enum", "C01 C02 N01"),
    ("model/count", "C03 C02"), ("model/", "C01"), ("bdd/reordering", "B03"), ("bdd/", "B01 B02 B03 H01"), ("dnnf/", "D01 C03 H01 K01"),
    ("explanation/", "X01 H01"), ("primeimplicant/", "R01 H01"), ("simplification/", "T01 H01"), ("transformation/", "T02"),
    ("graph/", "G01"), ("np/", "G01"), ("graphical/", "V01"), ("randomizer/", "U01"), ("handler/", "H01"),
]
def props(f):
    for a, p in AREAS:
        if f.startswith(a): return p.split()
    return []

def run(w, f, src, m, plist_cache):
    repo = f"{w}/repo"
    b = src.encode()
    mut = b[:m["start"]] + m["new"].encode() + b[m["end"]:]
    if b"zzFalse()" in mut: mut += b"\n\nvar zzF bool\n\nfunc zzFalse() bool { return zzF }\n"
    path = f"{repo}/{f}"
    open(path, "wb").write(mut)
    scratch = tempfile.mkdtemp(prefix="s-", dir=w)
    try:
        s = os.path.join(scratch, "src")
        shutil.copytree(driver.HARNESS, s)
        gm = open(s + "/go.mod").read().replace("=> /repo", "=> " + repo)
        open(s + "/go.mod", "w").write(gm)
        binary = scratch + "/h.test"
        p = subprocess.run(["go", "test", "-c", "-vet=off", "-o", binary, "."], cwd=s, env=driver.goenv(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode: return "nobuild", ""
        if "l" not in plist_cache:
            p = subprocess.run([binary, "-test.run=^TestList$"], env=driver.goenv(), stdout=subprocess.PIPE, text=True, cwd=scratch)
            plist_cache["l"] = {x["id"]: x for x in json.loads(re.search(r"LIST:(.*)", p.stdout).group(1))}
        hang = ""
        for prop in props(f):
            tasks = []
            for sub in plist_cache["l"][prop]["subs"]:
                for sh in range(sub["shards"]):
                    tasks.append(driver.Task(sub, sh, sub["quick"], driver.seed_for(1, prop, sub["name"], sh)))
            tasks.sort(key=lambda t: t.shard)
            lock = threading.Lock(); stop = threading.Event(); res = []
            def work():
                while True:
                    with lock:
                        if not tasks or stop.is_set(): return
                        t = tasks.pop(0)
                    d = f"{scratch}/{prop}"; os.makedirs(d, exist_ok=True)
                    driver.run_task(t, prop, binary, d, 100, 0, stop)
                    if t.rc != 0:
                        k, why = driver.classify(t)
                        if not stop.is_set() or k == "violation":
                            res.append((k, prop + "/" + t.sub["name"])); stop.set()
            ths = [threading.Thread(target=work) for _ in range(2)]
            for t in ths: t.start()
            for t in ths: t.join()
            if any(k == "violation" for k, _ in res): return "killed", [p for k, p in res if k == "violation"][0]
            if res: return "error", res[0][1]
        return "SURVIVED", ""
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
        open(path, "w").write(src)

def main():
    out, cap, seed, files = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4:]
    jobs = []
    done = set()
    if os.path.exists(out):
        done = {(d["file"], d["start"], d["new"]) for d in map(json.loads, open(out))}
    for f in files:
        ms = [json.loads(l) for l in subprocess.run(["/tmp/mutate", "/repo/" + f], stdout=subprocess.PIPE, text=True).stdout.splitlines()]
        random.Random(f"{seed}{f}").shuffle(ms)
        jobs += [(f, m) for m in ms[:cap] if (f, m["start"], m["new"]) not in done]
    random.Random(seed).shuffle(jobs)
    print(len(jobs), "mutants", flush=True)
    lock = threading.Lock(); cache = {}
    W = int(os.environ.get("MUT_WORKERS", "4"))
    base = tempfile.mkdtemp(prefix="mut-", dir="/tmp")
    stats = {}
    def worker(i):
        w = f"{base}/{i}"; os.makedirs(w)
        subprocess.run(["cp", "-a", "/repo", w + "/repo"], check=True)
        while True:
            with lock:
                if not jobs: return
                f, m = jobs.pop()
            src = open(f"{w}/repo/{f}").read()
            t = time.time()
            try: r, by = run(w, f, src, m, cache)
            except Exception as e: r, by = "exc", repr(e)
            with lock:
                stats[r] = stats.get(r, 0) + 1
                open(out, "a").write(json.dumps(dict(file=f, res=r, by=by, secs=round(time.time() - t, 1), **m)) + "\n")
    ths = [threading.Thread(target=worker, args=(i,)) for i in range(W)]
    for t in ths: t.start()
    for t in ths: t.join()
    shutil.rmtree(base, ignore_errors=True)
    print(stats)
main()
