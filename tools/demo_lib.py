"""Helpers for the demonstrations: a scratch podo project driven through the built binary."""
import os
import shutil
import subprocess
import sys
import tempfile

import yaml

REPO = os.getcwd()
BIN = os.path.join(REPO, "target", "debug", "podo")


class Project:
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="podo-demo")
        self.podo("init")

    def __enter__(self):
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.dir, ignore_errors=True)

    def path(self, *p):
        return os.path.join(self.dir, *p)

    def write(self, rel, text):
        p = self.path(rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w") as f:
            f.write(text)

    def read(self, rel):
        with open(self.path(rel)) as f:
            return f.read()

    def podo(self, *args, cwd=None, env=None, check=False):
        e = dict(os.environ)
        e.update(env or {})
        e["NO_COLOR"] = "1"
        r = subprocess.run([BIN] + list(args), cwd=cwd or self.dir, env=e, capture_output=True, text=True, timeout=60)
        if check:
            expect(r.returncode == 0 and not r.stderr.strip(), "podo %s: %s" % (" ".join(args), r.stderr))
        return r

    def defs(self, text, name="public"):
        self.write("database/definitions/%s.yaml" % name, text)

    def stage(self, text=None, name="public"):
        if text is not None:
            self.defs(text, name)
        self.podo("stage", check=True)
        return self.version("stage")

    def version(self, name):
        return yaml.safe_load(self.read("database/history/%s.yaml" % name))

    def make(self):
        import time
        self.podo("make", check=True)
        time.sleep(1.1)  # versions are named by the second


def expect(cond, msg):
    if not cond:
        sys.exit("FAILED: " + str(msg)[:2000])
