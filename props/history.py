"""P11-P19: the history of versions, on disk and in the database."""
import runs
from runs import Map, Text, Case, db, row, eq, URL
from values import *

DATADIR = "/w/hist"
DEFDIR = "/w/defs"
NOSLASH = ALLCH - {47, 0}

ASSUME = (
    "version names, statements and names of database objects are arbitrary non-empty text (version names without '/' and NUL)",
    "a document reads back as what was written: serde_yaml's and serde_json's text formats are not modelled, their data mapping is executed",
    "PostgreSQL is modelled for podo's own bookkeeping statements (sx/minipg.py: transactions, keys, defaults, ordering); the statements of a "
    "migration are opaque and either succeed or fail",
    "the metadata schema is podo's own: it is not a schema that exists for other reasons",
    "the clock, clap, colored, the file system and rust-postgres are modelled (sx/world.py)",
)


def profile(url=URL, history="hist", definitions="defs", schema="podo_meta"):
    return Map([("database_url", url), ("history", history), ("definitions", definitions), ("metadata_schema", schema)])


def config(**profiles):
    return Map([("profiles", Map(list(profiles.items())))])


def version(name, previous, changes=(), up=(), down=()):
    return Map([("name", name), ("previous", previous), ("changes", list(changes)), ("up", list(up)), ("down", list(down))])


def vpath(name, d=DATADIR):
    return mks([d + "/", name, ".yaml"])


class G:
    """generator of symbolic leaves"""

    def __init__(self, m):
        self.m = m
        self.users = []

    def name(self, hint, cs=NOSLASH, grp=None, not_=("init", "stage")):
        m = self.m
        s = m.text(m.fresh(hint), cs=cs, trim=False, grp=grp)
        for x in not_:
            m.add(z3not(str_eq(s, x)))
        return s

    def version(self):
        return self.name("v", grp="version")

    def user(self, hint="u"):
        m = self.m
        lits = m.spell.get(hint)
        if lits is None:
            s = S((m.atom(m.fresh(hint), cs=ALLCH, trim=False, kind="user"),))
        else:       # the code looks for these in statements: at most one holds one of them
            cs = ALLCH - {ord(l[0]) for l in lits}
            a = m.atom(m.fresh(hint), cs=cs, trim=False, kind="user")
            k = 0 if m.special else m.choose(1 + 3 * len(lits), "holds")
            m.special = m.special or k > 0
            l = lits[(k - 1) // 3] if k else ""
            s = mks([[a], [l, a], [a, l], [a, l, m.atom(m.fresh(hint), cs=cs, trim=False, kind="user")]][0 if not k else 1 + (k - 1) % 3])
        self.users.append(s)
        return s

    def users_(self, n, hint="u"):
        return [self.user(hint) for _ in range(n)]

    def obj(self, hint="n", trim=False, **kw):
        kw.setdefault("cs", ALLCH)
        return self.m.text(self.m.fresh(hint), trim=trim, **kw)

    def schema(self):
        """name of a metadata schema of podo's own"""
        s = self.obj("meta")
        for x in ("public", "pg_catalog", "information_schema"):
            self.m.add(z3not(str_eq(s, x)))
        return s

    def change(self):
        """a recorded change, as it stands in a version file"""
        return Map([("type", "CreateSchemaChange"), ("change", Map([("schema_name", self.obj())]))])


INIT = lambda: version("init", None, [Map([("type", "CreateSchemaChange"), ("change", Map([("schema_name", "public")]))])],
                       ["CREATE SCHEMA public;"], ["DROP SCHEMA public;"])


def irow(v):
    return row(v.get("name"), v.get("previous"), v.get("changes"), v.get("up"), v.get("down"))


# ------------------------------------------------------------------ looking at outcomes

def file_of(files, path):
    for p, t in files:
        if runs.core.M.branch(str_eq(p, path)):
            return t
    return None


def same_files(a, b):
    """condition: the same files with the same contents"""
    if len(a) != len(b):
        return False
    cs = []
    for p, t in a:
        u = file_of(b, p)
        if u is None:
            return False
        cs.append(eq(t, u))
    return z3and(cs)


def meta_rows(o, schema):
    """rows of the bookkeeping table, or None"""
    for t in o["tables"]:
        if runs.core.M.branch(z3and([str_eq(t["schema"], schema), str_eq(t["name"], "version")])):
            return t["rows"]
    return None


def rows_eq(a, b):
    if len(a) != len(b):
        return False
    return z3and([z3and([eq(x[k], y[k]) for k in ("name", "previous", "changes", "up", "down")]) for x, y in zip(a, b)])


def db_unchanged(j, d, st, what):
    """the committed state is the one the case started from, apart from the bookkeeping having been set up"""
    j.require(len(st["log"]) == 0, what + ": statements were left applied")
    rows = meta_rows(st, d["schema"])
    if d["rows"] is None:
        j.require(rows is None or rows_eq(rows, [irow(INIT())]), what + ": the applied versions changed")
    else:
        j.require(rows is not None and rows_eq(rows, d["rows"]), what + ": the applied versions changed")


def fails(j, case, o, d, what):
    j.require(o.exit != 0, what + ": succeeds")
    j.require(o.exit != "hang", what + ": does not end")
    untouched(j, case, o, d, what)


def untouched(j, case, o, d, what):
    j.require(same_files(case.files, o.files), what + ": files changed")
    for st in [o.dbs[0]["now"]] + o.dbs[0]["commits"]:
        db_unchanged(j, d, st, what)


# ------------------------------------------------------------------ P17 up

def make_up(n, nst, schema_any=False):
    def make(m):
        g = G(m)
        names = ["init"] + [g.version() for _ in range(n)]
        vs = [INIT()]
        total = 0
        for i in range(1, n + 1):
            k = m.choose(nst + 1, "statements")
            total += k
            vs.append(version(names[i], names[i - 1], [g.change()] if i == 1 else [], g.users_(k), g.users_(1, "d")))
        stage = version("stage", names[-1], [], g.users_(1, "staged"), g.users_(1, "staged_down"))
        schema = g.schema() if schema_any else "podo_meta"
        st = m.choose(n + 3, "database")
        foreign = None
        if st == 0:
            rows = None
        elif st <= n + 1:
            rows = [irow(v) for v in vs[:st]]
        else:
            foreign = g.version()
            rows = [irow(vs[0]), irow(version(foreign, "init", [], g.users_(1, "f"), g.users_(1, "f")))]
        t = m.choose(n + 3, "target")
        target = None if t == 0 else names[t - 1] if t <= n + 1 else g.version()
        fail = m.choose(total + 1, "fail")
        fail = None if fail == 0 else fail - 1
        opts = {} if target is None else {"version": target}
        case = Case([("/w/.podo.yaml", config(database=profile(schema=schema)))] + [(vpath(v.get("name")), v) for v in vs + [stage]],
                    [DATADIR, DEFDIR], dbs=[db(schema=schema, rows=rows, fail=fail)], steps=[("up", opts)], users=g.users)
        extra = dict(vs=vs, at=0 if st == 0 else (st - 1 if st <= n + 1 else None), to=n if t == 0 else t - 1 if t <= n + 1 else None)
        return case, extra
    return make


def judge_up(j, case, x, outs):
    o, d = outs[0], case.dbs[0]
    vs, at, to = x["vs"], x["at"], x["to"]
    if to is None:
        j.tag("no such version")
        return fails(j, case, o, d, "up to a version that does not exist")
    if at is None or at > to:
        j.tag("unreachable")
        return fails(j, case, o, d, "up from a version that is not before the target")
    path = vs[at + 1:to + 1]
    stmts = [s for v in path for s in v.get("up")]
    if d["fail"] is not None and d["fail"] < len(stmts):
        j.tag("failing statement")
        return fails(j, case, o, d, "up with a failing statement")
    j.require(o.exit == 0, "up fails (status %s) though every statement succeeds: %s" % (o.exit, o.stderr if o.stderr.__class__ is str else o.why))
    j.require(same_files(case.files, o.files), "up changes files")
    if not path:
        j.tag("nothing to apply")
        for st in [o.dbs[0]["now"]] + o.dbs[0]["commits"]:
            db_unchanged(j, d, st, "up with nothing to apply")
        return
    j.tag("applied")
    now = o.dbs[0]["now"]
    j.require(eq(now["log"], stmts), "up does not apply exactly the up statements of the versions in between, in order")
    rows = meta_rows(now, d["schema"])
    before = d["rows"] if d["rows"] is not None else [irow(vs[0])]
    j.require(rows is not None and rows_eq(rows, before + [irow(v) for v in path]), "up does not record exactly the versions it applied")
    for st in o.dbs[0]["commits"][:-1]:
        db_unchanged(j, d, st, "up commits in between")


def p17(c):
    c.assume(*ASSUME)
    c.check("up/1", "init and 1 version of 0-2 statements; database: fresh, at any version, at an unknown one; any metadata schema name",
            make_up(1, 2, True), judge_up, tags=("applied", "failing statement", "nothing to apply", "no such version", "unreachable"))
    c.check("up/2", "init and 2 versions of 0-2 statements each", make_up(2, 2), judge_up, tags=("applied", "failing statement"))
    c.check("up/3", "init and 3 versions of 0-2 statements each", make_up(3, 2), judge_up, tags=("applied", "failing statement"))
    if not c.quick:
        c.check("up/4", "init and 4 versions of 0-2 statements each", make_up(4, 2), judge_up, tags=("applied", "failing statement"))


# ------------------------------------------------------------------ P18 down

def make_down(n, nst, schema_any=False):
    def make(m):
        g = G(m)
        names = ["init"] + [g.version() for _ in range(n)]
        rows = [irow(INIT())]
        total = 0
        for i in range(1, n + 1):
            k = m.choose(nst + 1, "statements")
            total += k
            rows.append(irow(version(names[i], names[i - 1], [g.change()] if i == 1 else [], g.users_(1, "u"), g.users_(k, "d"))))
        schema = g.schema() if schema_any else "podo_meta"
        st = m.choose(2, "database") if n == 0 else 1
        t = m.choose(n + 3, "target")
        target = None if t == 0 else names[t - 1] if t <= n + 1 else g.version()
        fail = m.choose(total + 1, "fail")
        fail = None if fail == 0 else fail - 1
        # the files do not matter: they may hold other statements under the same names, or nothing
        vs = [INIT()] + ([version(names[i], names[i - 1], [], g.users_(1, "fu"), g.users_(1, "fd")) for i in range(1, n + 1)]
                         if m.choose(2, "files") else [])
        stage = version("stage", vs[-1].get("name"), [], [], [])
        opts = {} if target is None else {"version": target}
        case = Case([("/w/.podo.yaml", config(database=profile(schema=schema)))] + [(vpath(v.get("name")), v) for v in vs + [stage]],
                    [DATADIR, DEFDIR], dbs=[db(schema=schema, rows=rows if st else None, fail=fail)], steps=[("down", opts)], users=g.users)
        to = (n - 1 if n else 0) if t == 0 else t - 1 if t <= n + 1 else None
        return case, dict(rows=rows, to=to)
    return make


def judge_down(j, case, x, outs):
    o, d = outs[0], case.dbs[0]
    rows, to = x["rows"], x["to"]
    if to is None:
        j.tag("no such version")
        return fails(j, case, o, d, "down to a version that was never applied")
    undo = rows[to + 1:][::-1]
    stmts = [s for v in undo for s in v["down"]]
    if d["fail"] is not None and d["fail"] < len(stmts):
        j.tag("failing statement")
        return fails(j, case, o, d, "down with a failing statement")
    j.require(o.exit == 0, "down fails (status %s) though every statement succeeds: %s" % (o.exit, o.stderr if o.stderr.__class__ is str else o.why))
    j.require(same_files(case.files, o.files), "down changes files")
    if not undo:
        j.tag("nothing to revert")
        for st in [o.dbs[0]["now"]] + o.dbs[0]["commits"]:
            db_unchanged(j, d, st, "down with nothing to revert")
        return
    j.tag("reverted")
    now = o.dbs[0]["now"]
    j.require(eq(now["log"], stmts), "down does not apply exactly the recorded down statements of the versions after the target, newest first")
    got = meta_rows(now, d["schema"])
    j.require(got is not None and rows_eq(got, rows[:to + 1]), "down does not leave exactly the versions up to the target")
    for st in o.dbs[0]["commits"][:-1]:
        db_unchanged(j, d, st, "down commits in between")


def p18(c):
    c.assume(*ASSUME)
    c.check("down/0", "a fresh database, or one at init", make_down(0, 2, True), judge_down, tags=("nothing to revert", "no such version"))
    c.check("down/1", "1 applied version of 0-2 down statements; any metadata schema name", make_down(1, 2, True), judge_down,
            tags=("reverted", "failing statement", "nothing to revert", "no such version"))
    c.check("down/2", "2 applied versions of 0-2 down statements each", make_down(2, 2), judge_down, tags=("reverted", "failing statement"))
    c.check("down/3", "3 applied versions of 0-2 down statements each", make_down(3, 2), judge_down, tags=("reverted", "failing statement"))
    if not c.quick:
        c.check("down/4", "4 applied versions of 0-2 down statements each", make_down(4, 2), judge_down, tags=("reverted", "failing statement"))


PROPS = {"P17": p17, "P18": p18}


# ------------------------------------------------------------------ P19 up and down again

def make_updown(n, nst):
    def make(m):
        g = G(m)
        names = ["init"] + [g.version() for _ in range(n)]
        vs = [INIT()]
        for i in range(1, n + 1):
            vs.append(version(names[i], names[i - 1], [g.change()] if i == 1 else [], g.users_(m.choose(nst + 1, "up"), "u"),
                              g.users_(m.choose(nst + 1, "down"), "d")))
        stage = version("stage", names[-1], [], [], [])
        a = m.choose(n + 1, "from")
        fresh = a == 0 and m.choose(2, "fresh")
        b = a + m.choose(n + 1 - a, "to")
        rows = [irow(v) for v in vs[:a + 1]]
        # the way down is recorded in the database: the files may be gone by then
        steps = [("up", {"version": names[b]}), ("down", {"version": names[a]}), ("up", {"version": names[b]})]
        case = Case([("/w/.podo.yaml", config(database=profile()))] + [(vpath(v.get("name")), v) for v in vs + [stage]],
                    [DATADIR, DEFDIR], dbs=[db(rows=None if fresh else rows)], steps=steps, users=g.users)
        return case, dict(vs=vs, a=a, b=b)
    return make


def judge_updown(j, case, x, outs):
    vs, a, b = x["vs"], x["a"], x["b"]
    rows = [irow(v) for v in vs[:a + 1]]
    for i, o in enumerate(outs):
        j.require(o.exit == 0, "step %d fails: %s" % (i, o.stderr if o.stderr.__class__ is str else o.why))
    if a == b:
        return
    j.tag("moved")
    ups = [s for v in vs[a + 1:b + 1] for s in v.get("up")]
    downs = [s for v in vs[a + 1:b + 1][::-1] for s in v.get("down")]
    log = []
    for o, l, r, what in ((outs[0], ups, b, "up"), (outs[1], downs, a, "down again"), (outs[2], ups, b, "up again")):
        log = log + l
        now = o.dbs[0]["now"]
        j.require(eq(now["log"], log), "%s does not run exactly its statements in order" % what)
        got = meta_rows(now, "podo_meta")
        j.require(got is not None and rows_eq(got, [irow(v) for v in vs[:r + 1]]), "after %s the database is not at its version" % what)


def p19(c):
    c.assume(*ASSUME)
    c.check("up-down-up/1", "1 version", make_updown(1, 2), judge_updown, tags=("moved",))
    c.check("up-down-up/2", "2 versions", make_updown(2, 2), judge_updown, tags=("moved",))
    if not c.quick:
        c.check("up-down-up/3", "3 versions of 0-1 statements", make_updown(3, 1), judge_updown, tags=("moved",))


# ------------------------------------------------------------------ P11 the chain

def make_chain(n, commands):
    """version files with arbitrary predecessors, among other directory entries, listed in any order"""
    def make(m):
        g = G(m)
        names = [g.version() for _ in range(n)]
        nodes = ["init"] + names
        prev = []
        vs = [INIT()]
        for i in range(n):
            k = m.choose(n + 2, "previous")          # init, a version (or itself), one that does not exist
            prev.append(k if k <= n else None)
            vs.append(version(names[i], nodes[k] if k <= n else g.version(), [], g.users_(1, "u"), g.users_(1, "d")))
        k = m.choose(n + 1, "stage previous")
        prev.append(k)
        empty = commands != ["make"]
        stage = version("stage", nodes[k], [], [] if empty else g.users_(1, "su"), [] if empty else g.users_(1, "sd"))
        cmd = commands[m.choose(len(commands), "command")]
        opts, to = {}, None
        if cmd == "up":
            t = m.choose(n + 1, "target")
            if t:
                opts, to = {"version": names[t - 1]}, t
        noise = m.choose(3, "noise") if n == 1 else 1
        files = [("/w/.podo.yaml", config(database=profile()))] + [(vpath(v.get("name")), v) for v in vs + [stage]]
        dirs = [DATADIR, DEFDIR]
        if noise == 1:
            files.append((mks([DATADIR, "/notes.txt"]), Text("not a version")))
        elif noise == 2:
            dirs.append(mks([DATADIR, "/old.yaml"]))
            for x in names:
                m.add(z3not(str_eq(mks([x, ".yaml"]), "old.yaml")))
        files.append((DEFDIR + "/public.yaml", Map([("schema public", Map([]))])))
        case = Case(files, dirs, dbs=[db()], steps=[(cmd, opts)], users=g.users, any_order=True)
        return case, dict(vs=vs, prev=prev, to=to, cmd=cmd)
    return make


def judge_chain(j, case, x, outs):
    o, d = outs[0], case.dbs[0]
    vs, prev, cmd = x["vs"], x["prev"], x["cmd"]
    n = len(vs) - 1
    j.require(o.exit != "hang", cmd + " does not end")
    ps = [p for p in prev if p is not None]
    if len(set(ps)) < len(ps):
        j.tag("branched")
        return fails(j, case, o, d, cmd + " on a branched history")
    # ids: 0 init, 1..n versions, n+1 stage
    nxt = {p: i + 1 for i, p in enumerate(prev) if p is not None}
    chain = [0]
    while chain[-1] in nxt and nxt[chain[-1]] not in chain:
        chain.append(nxt[chain[-1]])
    whole = chain[-1] == n + 1
    if cmd == "up":
        to = x["to"]
        if to is None and not whole:
            return
        if to is None:
            to = chain[-2]
        if to not in chain:
            j.tag("unreachable")
            return fails(j, case, o, d, "up to a version that does not descend from init")
        path = chain[1:chain.index(to) + 1]
        j.require(o.exit == 0, "up fails on a good history: %s" % (o.stderr if o.stderr.__class__ is str else o.why))
        j.require(same_files(case.files, o.files), "up changes files")
        if path:
            j.tag("chain")
            now = o.dbs[0]["now"]
            j.require(eq(now["log"], [s for i in path for s in vs[i].get("up")]), "up does not follow the chain of versions from init")
            got = meta_rows(now, d["schema"])
            j.require(got is not None and rows_eq(got, [irow(vs[0])] + [irow(vs[i]) for i in path]), "up does not record the versions of the chain")
        return
    if not whole:
        if cmd in ("stage", "status"):
            fails(j, case, o, d, cmd + " on a stage that does not descend from init")
        return
    j.tag(cmd)
    j.require(o.exit == 0, "%s fails on a good history: %s" % (cmd, o.stderr if o.stderr.__class__ is str else o.why))
    untouched(j, case, o, d, "%s with nothing to do" % cmd)


def p11(c):
    c.assume(*ASSUME)
    c.check("chain/up/1", "1 version and the stage with any predecessors, entries in any order", make_chain(1, ["up"]), judge_chain,
            tags=("branched", "chain", "unreachable"))
    c.check("chain/up/2", "2 versions and the stage with any predecessors, entries in any order", make_chain(2, ["up"]), judge_chain,
            tags=("branched", "chain", "unreachable"))
    c.check("chain/others/1", "1 version and the stage with any predecessors, entries in any order",
            make_chain(1, ["reset", "make", "stage", "status"]), judge_chain, tags=("branched", "reset", "make", "stage", "status"))
    if not c.quick:
        c.check("chain/others/2", "2 versions and the stage with any predecessors, entries in any order",
                make_chain(2, ["reset", "make", "stage", "status"]), judge_chain, tags=("branched", "reset", "make", "stage", "status"))


# ------------------------------------------------------------------ P14 make, P15 reset

def stage_world(m, g, n, k, kinds=True):
    """a chain of n versions and a stage holding k changes"""
    names = ["init"] + [g.version() for _ in range(n)]
    vs = [INIT()]
    for i in range(1, n + 1):
        vs.append(version(names[i], names[i - 1], [g.change()], g.users_(1, "u"), g.users_(1, "d")))
    stage = version("stage", names[-1], [g.change() for _ in range(k)], g.users_(k, "su"), g.users_(k, "sd"))
    return vs, stage


def make_make(n):
    def make(m):
        g = G(m)
        k = m.choose(3, "staged")
        vs, stage = stage_world(m, g, n, k)
        if k == 0 and m.choose(2, "only statements"):
            # a hand-written migration: statements without changes
            stage = version("stage", stage.get("previous"), [], g.users_(1, "su"), g.users_(1, "sd"))
        opts = {"version": g.name("tag", not_=())} if m.choose(2, "option") else {}
        case = Case([("/w/.podo.yaml", config(database=profile()))] + [(vpath(v.get("name")), v) for v in vs + [stage]],
                    [DATADIR, DEFDIR], dbs=[db(rows=[irow(v) for v in vs])], steps=[("make", opts)], users=g.users)
        return case, dict(vs=vs, stage=stage)
    return make


def judge_make(j, case, x, outs):
    o, d = outs[0], case.dbs[0]
    vs, stage = x["vs"], x["stage"]
    if not (stage.get("changes") or stage.get("up") or stage.get("down")):
        j.tag("empty")
        j.require(o.exit == 0, "make fails on an empty stage")
        return untouched(j, case, o, d, "make on an empty stage")
    if o.exit != 0:
        # only a clash of names is a reason to refuse
        j.tag("refused")
        tag = case.steps[0][1].get("version", "auto")
        j.require(z3or([str_eq(v.get("name"), mks([o.clock, "-", tag])) for v in vs[1:]]), "make fails: %s" % (o.stderr if o.stderr.__class__ is str else o.why))
        return untouched(j, case, o, d, "make that fails")
    j.tag("made")
    for st in [o.dbs[0]["now"]] + o.dbs[0]["commits"]:
        db_unchanged(j, d, st, "make")
    old = [(p, t) for p, t in case.files if not runs.core.M.branch(str_eq(p, vpath("stage")))]
    rest, new = [], []
    for p, t in o.files:
        if any(runs.core.M.branch(str_eq(p, q)) for q, _ in old):
            rest.append((p, t))
        elif not runs.core.M.branch(str_eq(p, vpath("stage"))):
            new.append((p, t))
    j.require(same_files(old, rest), "make changes the other files")
    j.require(len(new) == 1, "make creates %d files" % len(new))
    p, made = new[0]
    j.require(made.__class__ is Map, "the made version is no document")
    name = made.get("name")
    j.require(eq(p, vpath(name)), "the made version is not stored under its name")
    tag = case.steps[0][1].get("version", "auto")
    j.require(ends(name, mks(["-", tag])), "the made version is not named after the --version option")
    for f in ("previous", "changes", "up", "down"):
        j.require(eq(made.get(f), stage.get(f)), "the made version does not have the stage's " + f)
    st = file_of(o.files, vpath("stage"))
    j.require(st is not None and eq(st, version("stage", name)), "the stage is not empty and based on the made version afterwards")


def ends(s, suffix):
    if s.__class__ is str and suffix.__class__ is str:
        return s.endswith(suffix)
    a, b = list(sparts(s)), list(sparts(suffix))
    while b:
        if not a:
            return False
        x, y = a[-1], b[-1]
        if x.__class__ is str and y.__class__ is str:
            if len(b) == 1:
                return x.endswith(y)
            if not x.endswith(y) or len(x) != len(y):
                return False
        elif x is not y:
            return False
        a.pop()
        b.pop()
    return True


def p14(c):
    c.assume(*ASSUME)
    for n in (0, 1, 2):
        c.check("make/%d" % n, "%d versions before, 0-2 staged changes, any --version" % n, make_make(n), judge_make, tags=("empty", "made") + (("refused",) if n else ()))


def make_reset(n):
    def make(m):
        g = G(m)
        k = m.choose(3, "staged")
        vs, stage = stage_world(m, g, n, k)
        case = Case([("/w/.podo.yaml", config(database=profile()))] + [(vpath(v.get("name")), v) for v in vs + [stage]],
                    [DATADIR, DEFDIR], dbs=[db(rows=[irow(v) for v in vs])], steps=[("reset", {})], users=g.users)
        return case, dict(vs=vs, stage=stage)
    return make


def judge_reset(j, case, x, outs):
    o, d = outs[0], case.dbs[0]
    stage = x["stage"]
    j.tag("staged" if stage.get("changes") else "empty")
    j.require(o.exit == 0, "reset fails: %s" % (o.stderr if o.stderr.__class__ is str else o.why))
    want = [(p, version("stage", stage.get("previous")) if t is stage or runs.core.M.branch(str_eq(p, vpath("stage"))) else t)
            for p, t in case.files]
    j.require(same_files(want, o.files), "reset does not empty the stage, keep what it is based on and leave the rest alone")
    for st in [o.dbs[0]["now"]] + o.dbs[0]["commits"]:
        db_unchanged(j, d, st, "reset")


def p15(c):
    c.assume(*ASSUME)
    for n in (0, 1, 2):
        c.check("reset/%d" % n, "%d versions before, 0-2 staged changes" % n, make_reset(n), judge_reset, tags=("empty", "staged"))


PROPS.update({"P11": p11, "P14": p14, "P15": p15, "P19": p19})
