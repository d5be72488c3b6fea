#!/usr/bin/env python3
"""Generates and validates the planted bugs under /verif/seeded from tools/seeds.py.
usage: seed.py [ID...]"""
import json
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import seeds

WORK = "/tmp/seedwork"
ENV = dict(os.environ, CARGO_NET_OFFLINE="true")
ENV["PATH"] = "/root/.cargo/bin:" + ENV["PATH"]


def sh(cmd, cwd=WORK, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, env=ENV, **kw)


def build():
    r = sh("cargo build --workspace --locked --offline")
    return r.returncode == 0, r.stderr[-3000:]


def main():
    ids = sys.argv[1:]
    if not os.path.exists(WORK):
        subprocess.run(["cp", "-a", "/repo", WORK], check=True)
    sh("git checkout -q -- . && git fetch -q /repo && git reset -q --hard FETCH_HEAD")
    ok, e = build()
    assert ok, e
    todo = [s for s in seeds.SEEDS if not ids or s["id"] in ids]
    for s in todo:
        d = os.path.join(HERE, "..", "seeded", s["id"])
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        with open(os.path.join(d, "demo.py"), "w") as f:
            f.write("import os, sys\nsys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))\nfrom demo_lib import *\n\n" + s["demo"].strip() + "\n")
        shutil.copy(os.path.join(HERE, "demo_lib.py"), d)
        for x in s.get("files", ()):
            shutil.copy(os.path.join(HERE, x), d)
        with open(os.path.join(d, "demo.sh"), "w") as f:
            f.write('#!/bin/bash\nexec %s "$(dirname "$0")/demo.py"\n' % ("python3-vt" if s["files"] else "python3"))
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        with open(os.path.join(d, "meta.json"), "w") as f:
            json.dump(dict(property=s["prop"], needs=s["needs"], what_it_breaks=s["breaks"]), f, indent=1)
            f.write("\n")
    for s in todo:
        d = os.path.join(HERE, "..", "seeded", s["id"])
        r = sh("bash %s/demo.sh" % os.path.abspath(d))
        if r.returncode != 0:
            print(s["id"], "demo fails on the clean tree", r.stdout, r.stderr)
    for s in todo:
        d = os.path.abspath(os.path.join(HERE, "..", "seeded", s["id"]))
        for f, old, new in s["edits"]:
            p = os.path.join(WORK, f)
            x = open(p).read()
            if x.count(old) != 1:
                print(s["id"], "edit matches", x.count(old), "times in", f)
                break
            open(p, "w").write(x.replace(old, new))
        else:
            r = sh("git diff")
            open(os.path.join(d, "patch.diff"), "w").write(r.stdout)
            # only lines of the original repository
            for f in set(e[0] for e in s["edits"]):
                h = sh("git diff -U0 -- %s | grep '^@@'" % f).stdout
                for l in h.splitlines():
                    a = l.split()[1][1:]
                    st, _, n = a.partition(",")
                    n = int(n or 1)
                    if n:
                        b = sh("git blame -s -L%s,+%d HEAD -- %s" % (st, n, f)).stdout
                        if any(not x.startswith("^6d611ae") for x in b.splitlines()):
                            print(s["id"], "WARNING touches own lines:", b)
            ok, e = build()
            if not ok:
                print(s["id"], "does not build", e)
            else:
                t = sh("cargo test --workspace --no-fail-fast --locked --offline -- --test-threads 8 --skip introspection::")
                passed = "41 passed; 0 failed" in t.stdout
                r = sh("bash %s/demo.sh" % d)
                print(s["id"], "tests", "pass" if passed else "FAIL " + t.stdout[-800:], "| demo rc", r.returncode, (r.stderr.strip() or r.stdout.strip())[-150:])
        sh("git checkout -q -- .")
    build()


main()
