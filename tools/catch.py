#!/usr/bin/env python3
"""catch.py [--all-checks] ID...: which check reports the planted bug. Works on a copy of /repo (/tmp/seedwork) and of /verif (/tmp/vt)."""
import json, os, subprocess, sys, time
W, V = "/tmp/seedwork", "/tmp/vt"
args = sys.argv[1:]
every = "--all-checks" in args
ids = [a for a in args if not a.startswith("-")] or sorted(os.listdir("/verif/seeded"))
if not os.path.exists(W):
    subprocess.run(["cp", "-a", "/repo", W], check=True)
subprocess.run("mkdir -p %s && cd /verif && cp -a check.py known_findings.txt sx props driver tools MANIFEST.json %s/" % (V, V), shell=True, check=True)
subprocess.run("git checkout -q -- . && git fetch -q /repo && git reset -q --hard FETCH_HEAD", shell=True, cwd=W, check=True)
props = [c["property"] for c in json.load(open("/verif/MANIFEST.json"))["checks"]]
for i in ids:
    d = "/verif/seeded/" + i
    meta = json.load(open(d + "/meta.json"))
    subprocess.run(["git", "apply", d + "/patch.diff"], cwd=W, check=True)
    for p in (props if every else [meta["property"]]):
        t = time.time()
        r = subprocess.run(["python3-vt", "check.py", p], cwd=V, capture_output=True, text=True, env=dict(os.environ, PODO_REPO=W, VERIF_SEED="1"))
        v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
        e = "" if r.returncode < 2 else (r.stdout + r.stderr)[-300:]
        print(i, p, "rc", r.returncode, "%.0fs" % (time.time() - t), " | ".join(v)[:200], e, flush=True)
    subprocess.run("git checkout -q -- .", shell=True, cwd=W, check=True)
