"""P20-P24: finding the project, environment variables, failures, status."""
import runs
from runs import Map, Text, Case, db, eq
from values import *
from props.history import G, NOSLASH, version, irow, profile, config, INIT, ASSUME, fails, untouched, db_unchanged, meta_rows, rows_eq, file_of, same_files

BROKEN = [Text("a: ["), Map([("profiles", Map([("database", Map([("history", "hist")]))]))]), Map([])]


def branch(c):
    return runs.core.M.branch(c)


def starts(p, prefix):
    """path p lies below prefix"""
    if p.__class__ is str and prefix.__class__ is str:
        return p.startswith(prefix + "/")
    ps, qs = list(sparts(p)), list(sparts(prefix))
    while qs:
        if not ps:
            return False
        a, b = ps[0], qs[0]
        if a.__class__ is str and b.__class__ is str:
            if len(qs) == 1:
                return a.startswith(b + "/") or (a == b and len(ps) > 1 and ps[1].__class__ is str and ps[1].startswith("/"))
            if not a == b:
                return False
        elif a is not b:
            return False
        elif len(qs) == 1:
            return len(ps) > 1 and ps[1].__class__ is str and ps[1].startswith("/")
        ps.pop(0)
        qs.pop(0)
    return True


# ------------------------------------------------------------------ P20 which project, which profile

class Site:
    """one profile's directories, history and database"""

    def __init__(self, m, g, base, tag, abs_=False):
        self.base = base
        rel = tag + "/h"
        self.hist = mks([base, "/", rel])
        self.defs = mks([base, "/", tag, "/d"])
        self.url = "postgresql://h/" + tag + str(len(g.sites))
        g.sites.append(self)
        self.names = ["init"] + [g.name("v", cs=NOSLASH - {45}, grp="version" + self.url) for _ in range(2)]
        self.vs = [INIT()] + [version(self.names[i], self.names[i - 1], [], g.users_(1, "u"), g.users_(1, "d")) for i in (1, 2)]
        self.staged = g.users_(1, "su")
        self.stage = version("stage", self.names[2], [], self.staged, g.users_(1, "sd"))
        self.schema = g.obj("schema", True)
        self.profile = Map([("database_url", self.url), ("history", self.hist if abs_ else rel),
                            ("definitions", self.defs if abs_ else tag + "/d"), ("metadata_schema", "meta" + tag)])
        self.files = [(mks([self.hist, "/", v.get("name"), ".yaml"]), v) for v in self.vs + [self.stage]]
        self.files.append((mks([self.defs, "/x.yaml"]), Map([("schema public", Map([])), (mks(["schema ", self.schema]), Map([]))])))
        m.add(z3not(str_eq(self.schema, "public")))
        self.rows = [irow(v) for v in self.vs[:2]]
        self.db = db(url=self.url, schema="meta" + tag, rows=self.rows)


def make_where(cmds, levels, profiles, abs_):
    def make(m):
        g = G(m)
        g.sites = []
        dirs = ["/w", mks(["/w/", g.name("dir", cs=NOSLASH - {36}, not_=(".", "..", ".podo.yaml"))])][:levels]
        if levels > 2:
            dirs.append(mks([dirs[1], "/", g.name("dir", cs=NOSLASH - {36}, not_=(".", "..", ".podo.yaml"))]))
        if levels > 1:
            for x in ("one", "two"):
                m.add(z3not(str_eq(dirs[1], "/w/" + x)))
        files, sites = [], {}
        at = m.choose(levels, "cwd")
        for i, d in enumerate(dirs):
            if m.choose(2, "config"):
                s = [Site(m, g, d, "one", abs_)] + ([Site(m, g, d, "two", abs_)] if profiles > 1 else [])
                sites[i] = s
                files.append((mks([d, "/.podo.yaml"]), config(**dict(zip(("database", "second"), [x.profile for x in s])))))
                for x in s:
                    files += x.files
        cmd = cmds[m.choose(len(cmds), "command")]
        opts, sel = {}, 0
        pk = m.choose(profiles + 2, "profile") if profiles > 1 else m.choose(2, "profile")
        if pk == 1:
            n = g.name("profile", cs=ALLCH - {0}, not_=("database", "second"))
            opts, sel = {"profile": n}, None
        elif pk == 2:
            opts, sel = {"profile": "second"}, 1
        elif pk == 3:
            opts = {"profile": "database"}
        near = max([i for i in sites if i <= at], default=None)
        k, lacks = None, None
        if near is not None and sel is not None:
            k = g.sites.index(sites[near][sel])
            if profiles > 1:
                # one of the profile's own directories is not there
                lacks = (None, "defs", "hist")[m.choose(3, "missing directory")]
                if lacks is not None:
                    s = g.sites[k]
                    gone = [f for f in s.files if (f is s.files[-1]) == (lacks == "defs")]
                    files = [f for f in files if not any(f is x for x in gone)]
        case = Case(files, dirs, dbs=[s.db for s in g.sites], steps=[(cmd, opts)], cwd=dirs[at], users=g.users)
        if lacks is not None and (lacks == "hist" and cmd != "down" or lacks == "defs" and cmd in ("stage", "status")):
            k = None
        return case, dict(site=k, cmd=cmd, lacks=lacks, hist=[s.hist for s in g.sites], vs=[s.vs for s in g.sites], stage=[s.stage for s in g.sites],
                          schema=[s.schema for s in g.sites])
    return make


def judge_where(j, case, x, outs):
    o, k, cmd = outs[0], x["site"], x["cmd"]
    if k is None:
        j.tag("none")
        j.require(o.exit not in (0, 101, "hang"), "%s without a project, a profile of this name or its directories does not fail" % cmd)
        j.require(same_files(case.files, o.files), "%s without a project, a profile of this name or its directories changes files" % cmd)
        j.require(len(o.dirs) == len(o.dirs_before), "%s without a project, a profile of this name or its directories creates directories" % cmd)
        for d, t in zip(case.dbs, o.dbs):
            db_unchanged(j, d, t["now"], "%s without a project, a profile of this name or its directories" % cmd)
        return
    j.tag(cmd)
    j.require(o.exit == 0, "%s fails: %s" % (cmd, o.stderr if o.stderr.__class__ is str else o.why))
    hist, vs, stage = x["hist"][k], x["vs"][k], x["stage"][k]
    for i, (d, t) in enumerate(zip(case.dbs, o.dbs)):
        if i != k or cmd not in ("up", "down"):
            db_unchanged(j, d, t["now"], "the database of another profile" if i != k else cmd)
    if cmd in ("up", "down"):
        now = o.dbs[k]["now"]
        j.require(eq(now["log"], vs[2].get("up") if cmd == "up" else vs[1].get("down")), "%s does not run the statements of the profile's versions" % cmd)
        rows = meta_rows(now, case.dbs[k]["schema"])
        n = 3 if cmd == "up" else 1
        j.require(rows is not None and rows_eq(rows, [irow(v) for v in vs[:n]]), "%s does not record in the profile's metadata schema" % cmd)
    sp = mks([hist, "/stage.yaml"])
    same, new = [], []
    for p, t in o.files:
        if branch(str_eq(p, sp)):
            continue
        u = file_of(case.files, p)
        if u is None:
            new.append((p, t))
        else:
            same.append(z3and([eq(t, u)]))
    j.require(z3and(same) and len(same) + len(new) + (x["lacks"] != "hist") == len(o.files) and len(same) == len([1 for p, _ in case.files if not branch(str_eq(p, sp))]), "%s changes other files" % cmd)
    if x["lacks"] == "hist":
        j.require(not new and file_of(o.files, sp) is None, "%s creates files" % cmd)
        return
    st = file_of(o.files, sp)
    if cmd != "make":
        j.require(not new, "%s creates files" % cmd)
    if cmd in ("up", "down", "status"):
        j.require(eq(st, stage), "%s changes the stage" % cmd)
    elif cmd == "reset":
        j.require(eq(st, version("stage", stage.get("previous"))), "reset does not reset the profile's stage")
    elif cmd == "make":
        j.require(len(new) == 1 and starts(new[0][0], hist), "make does not put the version into the profile's history")
        j.require(eq(new[0][1].get("up"), stage.get("up")), "make does not make the profile's stage")
    elif cmd == "stage":
        want = Map([("type", "CreateSchemaChange"), ("change", Map([("schema_name", x["schema"][k])]))])
        j.require(eq(st.get("changes"), [want]), "stage does not stage what the profile's definitions add to the profile's history")


def make_init(levels):
    def make(m):
        g = G(m)
        dirs = ["/w", mks(["/w/", g.name("dir", cs=NOSLASH - {36}, not_=(".", "..", ".podo.yaml"))])][:levels]
        at = m.choose(levels, "cwd")
        files = []
        found = False
        for i, d in enumerate(dirs):
            k = m.choose(3, "config")
            if k:
                t = config(database=profile()) if k == 1 else BROKEN[m.choose(len(BROKEN), "broken")]
                files.append((mks([d, "/.podo.yaml"]), t))
                found = found or (k if i <= at else False)
        files.append((mks([dirs[at], "/notes.txt"]), Text("x")))
        have = []
        if not found:       # directories of the names that init uses may be there
            k = m.choose(4, "there already")
            have = [mks([dirs[at], x]) for x in ("/database", "/database/definitions", "/database/history")[:k]]
        n = m.choose(2, "again")
        steps = [("init", {})] + ([("init", {})] if n else [])
        if not found:
            steps += [("stage", {}), ("status", {})]
        return Case(files, dirs + have, steps=steps, cwd=dirs[at]), dict(found=found)
    return make


def judge_init(j, case, x, outs):
    if x["found"]:
        j.tag("exists")
        for o in outs:
            j.require(same_files(case.files, o.files), "init changes files of a project that is there already")
            j.require(o.exit not in (101, "hang"), "init panics")
        return
    j.tag("new")
    for o in outs:
        j.require(o.exit == 0, "a new project does not work: %s" % (o.stderr if o.stderr.__class__ is str else o.why))
    first, last = outs[0], outs[-1]
    j.require(same_files(first.files, last.files), "commands on a new project change its files")
    cwd = case.cwd
    conf = file_of(first.files, mks([cwd, "/.podo.yaml"]))
    j.require(conf.__class__ is Map, "init does not write a configuration")
    old = [(p, t) for p, t in first.files if file_of(case.files, p) is not None]
    j.require(same_files(case.files, old), "init changes files that are there already")
    pr = conf.get("profiles").get("database")
    h = mks([cwd, "/", pr.get("history")])
    st, ini = file_of(first.files, mks([h, "/stage.yaml"])), file_of(first.files, mks([h, "/init.yaml"]))
    j.require(st is not None and eq(st, version("stage", "init")), "a new project's stage is not empty and based on init")
    j.require(ini is not None and eq(ini.get("name"), "init") and ini.get("previous") is None, "a new project does not start at init")


def p20(c):
    c.assume(*ASSUME)
    cmds = ["up", "down", "status", "stage", "reset", "make"]
    c.check("where", "configurations in any of the working directory, its parent and its grandparent, which the command is run in",
            make_where(["up", "reset", "stage"], 3, 1, False), judge_where, tags=("none", "up", "reset", "stage"))
    c.check("profiles", "a configuration with two profiles; the profile is not given, given, or unknown; one of its directories is missing or none is", make_where(cmds, 1, 2, False),
            judge_where, tags=["none"] + cmds)
    c.check("absolute", "directories given absolutely", make_where(cmds, 2, 2, True), judge_where, tags=["none"] + cmds)
    c.check("init", "init with and without configurations in the working directory and its parent, readable or not, and with its directories there or not, once or twice",
            make_init(2), judge_init, tags=("exists", "new"))


# ------------------------------------------------------------------ P21 environment variables

TEXTCH = frozenset(range(32, 127)) - frozenset(b"/ACDEFGHIJKLMNOPQRSTUVWXYZcdefghijklmnopqrstuvwxyz3456789") | {65}
NAMECH = TEXTCH & frozenset(b"ABab_012")


def char(m, hint="c"):
    e = z3.BitVec(m.fresh(hint), 32)
    m.add(z3.Or([e == c for c in sorted(TEXTCH)]))
    return Ch(e, 1)


def expand(cs, env):
    """the text with every $NAME and ${NAME} replaced by the variable's value"""
    def word(i):
        while i < len(cs) and branch(z3.Or([cs[i].e == c for c in NAMECH])):
            i += 1
        return i

    def value(a, b):
        n = mks(cs[a:b])
        for k, v in env:
            if branch(str_eq(n, k)):
                return v
        return ""
    out, i = [], 0
    while i < len(cs):
        if branch(cs[i].e == 36):
            if i + 1 < len(cs) and branch(cs[i + 1].e == 123):
                k = word(i + 2)
                if k > i + 2 and k < len(cs) and branch(cs[k].e == 125):
                    out.append(value(i + 2, k))
                    i = k + 1
                    continue
            else:
                k = word(i + 1)
                if k > i + 1:
                    out.append(value(i + 1, k))
                    i = k
                    continue
        out.append(cs[i])
        i += 1
    return mks(out)


def make_env(n):
    def make(m):
        g = G(m)
        m.any_map_order = False
        k = 1 + m.choose(n, "length")
        cs = [char(m) for _ in range(k)]
        val = m.text(m.fresh("value"), cs=NOSLASH - {36, 46}, trim=False, kind="env")
        env = [("A", val), ("AB", "$A"), ("B_1", "v"), ("_", "")]
        field = m.choose(2, "field")
        d = mks(["/w/x", expand(cs, env)])
        p = profile(**{("history", "definitions")[field]: mks(["x"] + cs)})
        hist, defs = (d, "/w/defs") if field == 0 else ("/w/hist", d)
        s = g.obj("schema", True)
        m.add(z3not(str_eq(s, "public")))
        files = [("/w/.podo.yaml", config(database=p)), (mks([hist, "/init.yaml"]), INIT()), (mks([hist, "/stage.yaml"]), version("stage", "init")),
                 (mks([defs, "/x.yaml"]), Map([("schema public", Map([])), (mks(["schema ", s]), Map([]))]))]
        return Case(files, [hist, defs], steps=[("stage", {})], env=env), dict(hist=hist, schema=s)
    return make


def judge_env(j, case, x, outs):
    o, = outs
    j.require(o.exit == 0, "stage fails: %s" % (o.why or repr(o.stderr)))
    st = file_of(o.files, mks([x["hist"], "/stage.yaml"]))
    want = Map([("type", "CreateSchemaChange"), ("change", Map([("schema_name", x["schema"])]))])
    j.require(st is not None and eq(st.get("changes"), [want]), "stage does not use the directories with their environment variables expanded")
    j.require(len(o.files) == len(case.files), "stage creates a file")
    j.tag("staged")


def make_url(m):
    """the database is named by a variable"""
    g = G(m)
    k = 1 + m.choose(3, "length")
    n = [char(m, "n") for _ in range(k)]
    for c in n:
        m.add(z3.Or([c.e == x for x in NAMECH]))
    other = mks([n[0], "B"])
    env = [(mks(n), URL2), (other, "postgresql://h/wrong")]
    if k == 2:
        m.add(z3not(str_eq(mks(n), other)))
    t = mks(["$", mks(n)]) if m.choose(2, "form") else mks(["${", mks(n), "}"])
    v = version("v", "init", [], g.users_(1, "u"), g.users_(1, "d"))
    files = [("/w/.podo.yaml", config(database=profile(url=t))), ("/w/hist/init.yaml", INIT()), ("/w/hist/v.yaml", v),
             ("/w/hist/stage.yaml", version("stage", "v"))]
    dbs = [db(url=URL2, schema="podo_meta", rows=[irow(INIT())])]
    return Case(files, ["/w/hist", "/w/defs"], dbs=dbs, steps=[("up", {})], env=env, users=g.users), dict(v=v)


URL2 = "postgresql://h/two"


def judge_url(j, case, x, outs):
    o, = outs
    j.require(o.exit == 0, "up fails: %s" % (o.why or repr(o.stderr)))
    j.require(eq(o.dbs[0]["now"]["log"], x["v"].get("up")), "up does not run on the database the variable names")
    j.tag("up")


def p21(c):
    c.assume(*ASSUME)
    c.assume("the text is of printable ASCII characters, those of names among A B a b _ 0 1 2 (other letters stand for nothing else)")
    n = 5 if c.quick else 7
    c.check("text", "any text of up to %d characters as history or definitions directory; variables that are prefixes of each other, empty, unset "
            "or hold a $" % n, make_env(n), judge_env, tags=("staged",))
    c.check("url", "the database named by a variable of up to three characters, in both forms", make_url, judge_url, tags=("up",))


# ------------------------------------------------------------------ P23 failing

NEEDS = {
    "history": ("stage", "reset", "make", "up", "status"),
    "stage": ("stage", "reset", "make", "status"),
    "definitions": ("stage", "status"),
    "database": ("up", "down", "clone"),
}


def broken_version(m, g, v):
    """something that is no version"""
    k = m.choose(9, "broken version")
    if k == 0:
        return Text("a: [")
    f = ("name", "previous", "changes", "up", "down")
    if k <= 5:
        bad = {"name": None, "previous": 7, "changes": "x", "up": "x", "down": Map([])}[f[k - 1]]
        return Map([(a, bad if a == f[k - 1] else b) for a, b in v.l])
    if k == 6:
        drop = ("name", "changes", "up", "down")[m.choose(4, "field")]
        return Map([(a, b) for a, b in v.l if a != drop])
    if k == 7:
        n = g.obj("type")
        m.add(z3not(z3or([str_eq(n, x) for x in CHANGES])))
        return Map([(a, [Map([("type", n), ("change", Map([("schema_name", g.obj())]))])] if a == "changes" else b) for a, b in v.l])
    return Map([(a, [Map([("type", "CreateSchemaChange"), ("change", Map([("schema", g.obj())]))])] if a == "changes" else b) for a, b in v.l])


CHANGES = []


def make_fail(m):
    if not CHANGES:
        CHANGES.extend(v["name"] for v in m.ty(m.adt("snapshot::changes::Change"))["variants"])
    g = G(m)
    v1 = version(g.name("v", cs=NOSLASH - {45}, grp="version"), "init", [], g.users_(1, "u"), g.users_(1, "d"))
    stage = version("stage", v1.get("name"), [], g.users_(1, "su"), g.users_(1, "sd"))
    what = sorted(NEEDS)[m.choose(4, "what")]
    cmd = NEEDS[what][m.choose(len(NEEDS[what]), "command")]
    dirs = ["/w/hist", "/w/defs"]
    hist = [(mks(["/w/hist/", v.get("name"), ".yaml"]), v) for v in (INIT(), v1, stage)]
    defs = [("/w/defs/x.yaml", Map([("schema public", Map([]))]))]
    dbs = [db(rows=[irow(INIT())])]
    how = ""
    if what == "history":
        k = m.choose(4, "how")
        if k == 0:
            dirs, hist, how = ["/w/defs"], [], "no history directory"
        elif k == 1:
            dirs, hist, how = ["/w/defs"], [("/w/hist", Text("x"))], "the history directory is a file"
        else:
            i = k - 1
            if i == 2 and cmd == "up":
                i = 1
            hist[i] = (hist[i][0], broken_version(m, g, hist[i][1]))
            how = "broken version"
    elif what == "stage":
        hist.pop()
        how = "no stage"
    elif what == "definitions":
        k = m.choose(3, "how")
        if k == 0:
            dirs, defs, how = ["/w/hist"], [], "no definitions directory"
        elif k == 1:
            dirs, defs, how = ["/w/hist"], [("/w/defs", Text("x"))], "the definitions directory is a file"
        else:
            defs, how = [("/w/defs/x.yaml", Text("a: ["))], "broken definitions"
    else:
        dbs, how = [], "no database"
    case = Case([("/w/.podo.yaml", config(database=profile()))] + hist + defs, dirs, dbs=dbs, steps=[(cmd, {})], users=g.users)
    return case, dict(cmd=cmd, how=how)


def judge_fail(j, case, x, outs):
    o, what = outs[0], "%s with %s" % (x["cmd"], x["how"])
    j.tag(x["cmd"])
    j.tag(x["how"])
    j.require(o.exit != 0, what + " does not end with a failure")
    j.require(o.exit not in (101, "hang"), what + " panics or does not end")
    j.require(o.stderr != "", what + " gives no message")
    j.require(same_files(case.files, o.files), what + " changes files")
    j.require(len(o.dirs) == len(o.dirs_before), what + " creates directories")
    for d, t in zip(case.dbs, o.dbs):
        db_unchanged(j, d, t["now"], what)


def make_every(m):
    g = G(m)
    cmd = ["init", "status", "stage", "reset", "make", "up", "down", "print", "sync"][m.choose(9, "command")]
    v1 = version(g.name("v", cs=NOSLASH - {45}, grp="version"), "init", [], g.users_(1, "u"), g.users_(1, "d"))
    stage = version("stage", v1.get("name"), [], g.users_(1, "su"), g.users_(1, "sd"))
    rows = [irow(INIT())] + ([irow(v1)] if m.choose(2, "applied") else [])
    files = [(mks(["/w/hist/", v.get("name"), ".yaml"]), v) for v in (INIT(), v1, stage)] + [("/w/defs/x.yaml", Map([("schema public", Map([]))]))]
    case = Case([("/w/.podo.yaml", config(database=profile()))] + files, ["/w/hist", "/w/defs"], dbs=[db(rows=rows)], steps=[(cmd, {})], users=g.users)
    return case, dict(cmd=cmd)


def judge_every(j, case, x, outs):
    o, cmd = outs[0], x["cmd"]
    j.tag(cmd)
    j.require(o.exit not in (101, "hang"), "%s panics or does not end" % cmd, code=cmd + "-panics" if cmd in ("print", "sync") else None)
    if cmd not in ("print", "sync"):
        j.require(o.exit == 0, "%s fails: %s" % (cmd, o.stderr if o.stderr.__class__ is str else o.why))


def p23(c):
    c.assume(*ASSUME)
    c.check("fail", "each command with each thing it needs missing or broken", make_fail, judge_fail,
            tags=sorted({x for v in NEEDS.values() for x in v}) + ["broken version", "no stage", "no database", "broken definitions"])
    c.check("commands", "each subcommand on a working project", make_every, judge_every)


# ------------------------------------------------------------------ P24 status

def contains(s, t):
    """position after the first place t stands at in s (texts or token lists), or None"""
    if s.__class__ is str and t.__class__ is str:
        i = s.find(t)
        return None if i < 0 else s[i + len(t):]
    a, b = tokens(s), tokens(t)
    for i in range(len(a) - len(b) + 1):
        if all(same(x, y) for x, y in zip(a[i:i + len(b)], b)):
            return mks(a[i + len(b):])
    return None


def tokens(s):
    out = []
    for p in sparts(s):
        out.extend(p if p.__class__ is str else [p])
    return out


def same(x, y):
    if x.__class__ is str or y.__class__ is str:
        return x.__class__ is y.__class__ and x == y
    return x is y or (x.__class__ is Atom and y.__class__ is Atom and x.name == y.name)


def shown(text, parts):
    return all(contains(text, p) is not None for p in parts)


def make_status(most):
    def make(m):
        m.any_map_order = most < 2
        g = G(m)
        names = ["init", g.version(), g.version()]
        vs = [INIT()] + [version(names[i], names[i - 1], [], g.users_(1, "u"), g.users_(1, "d")) for i in (1, 2)]
        at = m.choose(4, "database")
        dbs = [[db(rows=None)], [db(rows=[irow(v) for v in vs[:1]])], [db(rows=[irow(v) for v in vs[:2]])], []][at]
        n = m.choose(most + 1, "staged")
        staged = [g.obj("staged", True, grp="schema", cs=ALLCH - {34}) for _ in range(n)]
        defined = [g.obj("defined", True, grp="schema") for _ in range(m.choose(most - n + 1, "not staged"))]
        for s in staged + defined:
            m.add(z3not(str_eq(s, "public")))
        ch = [Map([("type", "CreateSchemaChange"), ("change", Map([("schema_name", s)]))]) for s in staged]
        stage = version("stage", names[2], ch, g.users_(len(ch), "su"), g.users_(len(ch), "sd"))
        keys = ["schema public"] + [mks(["schema ", s]) for s in staged + defined]
        files = [(mks(["/w/hist/", v.get("name"), ".yaml"]), v) for v in vs + [stage]]
        files.append(("/w/defs/x.yaml", Map([(k, Map([])) for k in keys])))
        case = Case([("/w/.podo.yaml", config(database=profile()))] + files, ["/w/hist", "/w/defs"], dbs=dbs,
                    steps=[("status", {}), ("stage", {}), ("status", {})], users=g.users)
        return case, dict(staged=staged, defined=defined, at=None if at == 3 else names[max(at - 1, 0)])
    return make


def judge_status(j, case, x, outs):
    a, b, c = outs
    for o, what in ((a, "status"), (b, "stage"), (c, "status after stage")):
        j.require(o.exit == 0, "%s fails: %s" % (what, o.stderr if o.stderr.__class__ is str else o.why))
    untouched_(j, case, a, case.files)
    untouched_(j, case, c, b.files)
    sp = mks(["/w/hist/stage.yaml"])
    up = file_of(b.files, sp).get("up")[len(x["staged"]):]       # what stage adds for what is not staged
    new = len(x["defined"])
    j.require(len(up) == new, "stage stages %d changes for %d new schemas" % (len(up), new))
    if x["at"] is not None:
        for o in (a, c):
            j.require(contains(o.stdout, x["at"]) is not None, "status does not show the version the database is at")
    head, tail = split_at(a.stdout, "not staged")
    j.require(shown(tail, up), "status does not show the SQL of the changes that are not staged")
    for s in x["staged"]:
        j.require(contains(head, s) is not None, "status does not show the staged changes")
    none = not x["staged"] and not new
    j.tag("changes" if not none else "no changes")
    j.require((contains(a.stdout, "No changes") is not None) == none, "status does not say whether there are changes")
    head, tail = split_at(c.stdout, "not staged")
    j.require(tail == "", "after stage, status shows changes that are not staged")
    j.require(shown(head, up), "status does not show the SQL of the staged changes")
    j.require((contains(c.stdout, "No changes") is not None) == none, "status after stage does not say whether there are changes")


def split_at(s, t):
    r = contains(s, t)
    if r is None:
        return s, ""
    if s.__class__ is str:
        return s[:len(s) - len(r)], r
    a = tokens(s)
    return mks(a[:len(a) - len(tokens(r))]), r


def untouched_(j, case, o, files):
    j.require(same_files(files, o.files), "status changes files")
    for d, t in zip(case.dbs, o.dbs):
        for st in [t["now"]] + t["commits"]:
            db_unchanged(j, d, st, "status")


def p24(c):
    c.assume(*ASSUME)
    for n in (1, 2, 3):
        if n < 3 or not c.quick:
            c.check("status/%d" % n, "two versions; database unreachable, fresh or at a version; up to %d changes staged or not staged; the SQL "
                    "that is expected is the SQL stage then writes%s" % (n, "; hash maps in insertion order" if n > 1 else ""), make_status(n), judge_status, tags=("changes", "no changes"))


PROPS = {"P20": p20, "P21": p21, "P23": p23, "P24": p24}
