"""P01-P04, P06: what is computed from a pair of snapshots."""
import random

import snap
import snapreplay

ASSUME = (
    "a snapshot's map keys are the names of the objects stored under them and the schema/table names inside objects agree with where they are stored",
    "the objects of one namespace have pairwise different names; names are arbitrary non-empty text (function names: text without '(', then an optional argument list)",
    "data types, expressions, queries, function bodies and keyword-valued options are opaque text: equal or different, never inspected",
    "initially deferred implies deferrable; check constraints are not deferrable (as PostgreSQL enforces)",
    "hash maps iterate in any order",
)


def scen(c, name, n, want, tags, plain=False):
    m = c.m
    desc = snap.describe(name, n, plain)

    def cases(l):
        return [(x["source"], x["target"]) for x in l]

    def replay(found):
        infos = [f["info"] for f in found]
        bad, _ = snapreplay.judge_native(m, m.snap, cases(infos), want, set(c.known), 400)
        if not bad:     # with texts the code does not mention, where the counterexample leaves the choice
            bad, _ = snapreplay.judge_native(m, m.snap, cases([f["alt"] for f in infos]), want, set(c.known), 400)
        seen, out = set(), []
        for i, msg, tr in bad:
            if i not in seen:
                seen.add(i)
                out.append((i, msg, tr))
        return out

    def validate(samples):
        bad, n = snapreplay.judge_native(m, m.snap, cases(samples), want, set(c.known), 20)
        return ["%s on %r" % (msg, samples[i]) for i, msg, _ in bad], n
    return c.run("%s/%d%s" % (name, n, " plain" if plain else ""), snap.harness(name, n, want, plain), desc, replay, tags=tags,
                 validate=None if c.quick else validate)


CHG = {
    "columns": ("AddColumnChange", "DropColumnChange", "AlterColumnSetDefaultChange", "AlterColumnSetDataTypeChange",
                "AlterColumnSetNotNullChange"),
    "constraints": ("DropForeignKeyChange", "AddForeignKeyChange", "DropCheckChange", "AddCheckChange", "DropUniqueChange",
                    "AddUniqueChange", "DropPrimaryKeyChange", "AddPrimaryKeyChange"),
    "relations": ("CreateTableChange", "DropTableChange", "CreateViewChange", "DropViewChange", "CreateIndexChange",
                  "DropIndexChange", "CreateSequenceChange", "DropSequenceChange"),
    "foreign": ("DropForeignKeyChange", "AddForeignKeyChange"),
    "functions": ("CreateFunctionChange", "DropFunctionChange"),
    "schemas": ("CreateSchemaChange", "DropSchemaChange"),
    "depend": ("AddForeignKeyChange", "DropForeignKeyChange", "DropSchemaChange", "CreateSchemaChange"),
}


def family(want, quick, thorough):
    def f(c):
        c.assume(*ASSUME)
        for x in (quick if c.quick else thorough):
            scen(c, x[0], x[1], want, ("changes",), len(x) > 2)
    return f


Q = [("columns", 1), ("constraints", 1), ("relations", 1), ("functions", 1), ("schemas", 1), ("columns", 2),
     ("constraints", 2, "plain"), ("foreign", 1, "plain"), ("depend", 1, "plain"), ("depend", 2, "plain")]
T = [("columns", 2), ("constraints", 1), ("relations", 1), ("functions", 2), ("schemas", 2), ("constraints", 2, "plain"),
     ("depend", 2), ("depend", 0, "plain"), ("depend", 1), ("columns", 3, "plain"), ("relations", 2, "plain")]

PROPS = {p: family({p}, Q, T) for p in ("P01", "P02", "P03", "P04", "P06")}
