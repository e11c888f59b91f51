#!/usr/bin/env python3
"""Vets planted bugs in scratch copies of /repo: patch applies, build and stable
tests pass, the demonstration passes without and fails with the patch, and which
checks catch it.  Usage: seedcheck.py [--notests] [--props A,B] ID..."""
import json, os, subprocess, sys, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = ". /opt/vp/env.sh >/dev/null 2>&1; export GOSUMDB=off GONOSUMDB='*' CGO_ENABLED=0;"

def sh(cmd, cwd, env=None, to=1200):
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.run(["bash", "-c", ENV + cmd], cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=to)
    return p.returncode, p.stdout

def one(sid, notests, props):
    d = os.path.join(V, "seeded", sid)
    meta = json.load(open(os.path.join(d, "meta.json")))
    out = [f"== {sid} ({meta['property']})"]
    w = tempfile.mkdtemp(prefix="seed_", dir="/tmp")
    try:
        r = os.path.join(w, "repo")
        subprocess.run(["cp", "-a", "/repo", r], check=True)
        demo = os.path.join(w, "demo")
        shutil.copytree(d, demo)
        rc, o = sh(f"bash {demo}/demo.sh", r)
        out.append(f"demo clean: {rc}" + ("" if rc == 0 else "  <<<< BAD\n" + o[-1500:]))
        rc, o = sh(f"git apply {d}/patch.diff", r)
        if rc:
            out.append("patch does not apply <<<< BAD " + o)
            return "\n".join(out)
        rc, o = sh(f"bash {demo}/demo.sh", r)
        out.append(f"demo patched: {rc}" + ("  <<<< BAD" if rc == 0 else "") + " | " + " ".join(o.split())[-300:])
        if not notests:
            rc, o = sh(f"go build ./... && python3 /opt/vp/run_tests.py {w}/work && python3 /opt/vp/results.py {w}/t.json gojson:{w}/work/log.json", r)
            b = json.load(open("/opt/vp/BASELINE.json"))
            passed = set(json.load(open(w + "/t.json"))["passed"]) if rc == 0 else set()
            bad = [x for x in b["stable"] if x not in passed]
            out.append("tests failing: " + (str(sorted(set(bad)))[:400] + " <<<< BAD" if bad else "none"))
        for p in props or [meta["property"]]:
            rc, o = sh(f"bash {V}/check.sh {p} quick", V, {"VERIF_REPO": r, "VERIF_SEED": os.environ.get("VERIF_SEED", "1"), "VERIF_TIER": "quick", "VERIF_EVIDENCE": os.path.join(w, "ev")})
            v = [l for l in o.splitlines() if l.startswith("VIOLATION")]
            out.append(f"check {p}: rc={rc} {v[:1]}" + ("" if rc == 1 and v else "  <<<< NOT CAUGHT"))
    finally:
        shutil.rmtree(w)
    return "\n".join(out)

a = sys.argv[1:]
notests = "--notests" in a
a = [x for x in a if x != "--notests"]
props = None
if "--props" in a:
    i = a.index("--props")
    props = a[i + 1].split(",")
    del a[i:i + 2]
ids = a or sorted(os.listdir(os.path.join(V, "seeded")))
for s in ids:
    print(one(s, notests, props), flush=True)
