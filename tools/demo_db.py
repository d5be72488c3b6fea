"""A small PostgreSQL stand-in on a loopback port for the demonstrations."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core
import catalog
import fakepg
import minipg
from demo_lib import Project, expect


class Plain:
    known_codes = set()

    def branch(self, c):
        return bool(c)


core.M = Plain()


class Db:
    """a server; statements that are no bookkeeping are logged, and fail when they contain FAIL"""

    def __init__(self, project, catalog_=None, schema="podo_meta"):
        self.srv = minipg.Server("", lambda s: "/*u*/" in s, lambda s: "FAIL" in s)
        self.srv.catalog = catalog_
        self.fake = fakepg.Fake(self.srv)
        self.p = project
        project.write(".podo.yaml", "profiles:\n  database:\n    database_url: %s\n    history: database/history\n"
                      "    definitions: database/definitions\n    metadata_schema: %s\n" % (self.fake.url, schema))

    def settle(self):
        self.fake.settle()
        return self

    def versions(self):
        """the applied versions, oldest first"""
        self.settle()
        for t in self.srv.state.tables:
            return [r for r in sorted(t.rows, key=lambda r: r["applied_order"])]
        return None

    def names(self):
        v = self.versions()
        return None if v is None else [r["name"] for r in v]

    def log(self):
        self.settle()
        return list(self.srv.state.log)

    def tried(self):
        self.settle()
        return list(self.srv.attempts)


def history(p, *vs, stage=()):
    """versions v1.. after init, each (name, up, down) with /*u*/ statements, then stage"""
    prev = "init"
    def w(name, prev, up, down):
        p.write("database/history/%s.yaml" % name, "name: %s\nprevious: %s\nchanges: []\nup: %s\ndown: %s\n" % (
            name, prev or "null", ["/*u*/ " + x for x in up], ["/*u*/ " + x for x in down]))
    w("init", None, [], [])
    for n, up, down in vs:
        w(n, prev, up, down)
        prev = n
    w("stage", prev, stage, [])


def u(*xs):
    return ["/*u*/ " + x for x in xs]


def pg_table(b, ns, name, cols):
    """oid of a table with int4 columns"""
    o = b.cls(ns, name, "r")
    for i, c in enumerate(cols):
        b.attribute(o, i + 1, c, b.type("int4", "integer"))
    return o


def pg_unique(b, ns, name, rel, cols, nums, kind="u", **kw):
    ix = b.index(ns, name, rel, cols, nums, True, primary=kind == "p")
    b.constraint(ns, name, kind, rel, conkey=nums, conindid=ix, **kw)
    return ix


def cloned(p, b):
    """what clone writes"""
    import yaml
    db = Db(p, b.done())
    r = p.podo("clone")
    db.settle()
    expect(r.returncode == 0 and not r.stderr, r)
    return yaml.safe_load(p.read("database/definitions/public.yaml"))["schema public"]
