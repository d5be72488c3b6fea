"""Runs of the whole program: a case (files, environment, databases, a sequence of command lines) is run through
the real `main`, symbolically in world.World or natively in a scratch directory against fakepg; what the run did
is plain data either way, judged by one piece of code."""
import json
import os
import shutil
import subprocess
import tempfile

import z3
import core
import gen
import minipg
import models
import native
import world
from values import *

URL = "postgresql://h/db"


# ------------------------------------------------------------------ documents as plain data

class Map:
    """mapping: list of [key, value]"""
    __slots__ = ("l",)

    def __init__(self, l=()):
        self.l = [list(x) for x in l]

    def get(self, k, default=None):
        for a, b in self.l:
            if a.__class__ is str and a == k:
                return b
            if a.__class__ is S and core.M.branch(str_eq(a, k)):
                return b
        return default

    def keys(self):
        return [a for a, _ in self.l]

    def __repr__(self):
        return "{%s}" % ", ".join("%r: %r" % (a, b) for a, b in self.l)


class Text:
    """a file that is not a document we know the tree of"""
    __slots__ = ("s",)

    def __init__(self, s):
        self.s = s

    def __repr__(self):
        return "Text(%r)" % (self.s,)


def to_value(d, x):
    if x is None:
        return d.null()
    c = x.__class__
    if c is bool or z3.is_bool(x):
        return d.bool(x)
    if c is str or c is S:
        return d.string(x)
    if c is list:
        return d.seq([to_value(d, y) for y in x])
    if c is Map:
        return d.map([(k if k.__class__ in (str, S) else to_value(d, k), to_value(d, v)) for k, v in x.l])
    if c is float:
        return d.float(x)
    if c is int:
        return d.int(x)
    if z3.is_bv(x):
        return d.int(x)
    raise Unsupported("document of %r" % (x,))


def from_value(m, v):
    d = world.docs(m)
    k = m.discr(v)
    n = {i: a for a, i in d.var.items()}[k]
    if n == "Null":
        return None
    if n == "Bool":
        return v.f[0]
    if n == "String":
        return v.f[0].s
    if n == "Sequence":
        return [from_value(m, y) for y in v.f[0].items]
    if n == "Mapping":
        return Map([(from_value(m, a), from_value(m, b)) for a, b in v.f[0].f[0].entries])
    if n == "Number":
        e = v.f[0].f[0]
        i = m.discr(e)
        return e.f[0] if e.__class__ is Agg else e
    raise Unsupported("document value " + n)


def eq(a, b):
    """condition: the two pieces of plain data are equal (mappings: same keys in any order)"""
    if a is None or b is None:
        return a is None and b is None
    ca, cb = a.__class__, b.__class__
    if ca in (str, S):
        return str_eq(a, b) if cb in (str, S) else False
    if cb in (str, S):
        return False
    if ca is list or cb is list:
        if ca is not cb or len(a) != len(b):
            return False
        return z3and([eq(x, y) for x, y in zip(a, b)])
    if ca is Map or cb is Map:
        if ca is not cb or len(a.l) != len(b.l):
            return False
        if all(x[0].__class__ is str for x in a.l + b.l):
            d = {k: v for k, v in b.l}
            if len(d) != len(b.l):
                return False
            return z3and([eq(v, d[k]) if k in d else False for k, v in a.l])
        rest, out = list(b.l), []
        for k, v in a.l:
            x = next((x for x in rest if x[0] is k or repr(x[0]) == repr(k)), None)
            if x is not None:       # the same key, and keys of a mapping differ from each other
                rest.remove(x)
                out.append(eq(v, x[1]))
            else:
                out.append(z3or([z3and([eq(k, k2), eq(v, v2)]) for k2, v2 in b.l]))
        return z3and(out)
    if ca is Text or cb is Text:
        return ca is cb and eq(a.s, b.s)
    if ca is bool or z3.is_bool(a) or cb is bool or z3.is_bool(b):
        if (ca is bool or z3.is_bool(a)) and (cb is bool or z3.is_bool(b)):
            return iff(a, b) if not (ca is bool and cb is bool) else a == b
        return False
    if ca is float or cb is float:
        return ca is cb and a == b
    if ca is int and cb is int:
        return a == b
    if ca is int:
        a = z3.BitVecVal(a, b.size())
    if cb is int:
        b = z3.BitVecVal(b, a.size())
    return a == b


def conc(c, x):
    """plain data under a model"""
    if x is None:
        return None
    k = x.__class__
    if k in (str, S):
        return c.s(x)
    if k is bool or z3.is_bool(x):
        return c.b(x)
    if k is list or k is tuple:
        return [conc(c, y) for y in x]
    if k is Map:
        return Map([(conc(c, a), conc(c, b)) for a, b in x.l])
    if k is Text:
        return Text(conc(c, x.s))
    if k is dict:
        return {a: conc(c, b) for a, b in x.items()}
    if k is int or k is float:
        return x
    if z3.is_expr(x):
        return c.i(x)
    raise Unsupported("concretise %r" % (x,))


def jsonable(x):
    if x.__class__ is Map:
        return {"__map": [[jsonable(a), jsonable(b)] for a, b in x.l]}
    if x.__class__ is Text:
        return {"__text": x.s}
    if x.__class__ in (list, tuple):
        return [jsonable(y) for y in x]
    if x.__class__ is dict:
        return {k: jsonable(v) for k, v in x.items()}
    return x


def unjson(x):
    if x.__class__ is dict:
        if "__map" in x:
            return Map([(unjson(a), unjson(b)) for a, b in x["__map"]])
        if "__text" in x:
            return Text(x["__text"])
        return {k: unjson(v) for k, v in x.items()}
    if x.__class__ is list:
        return [unjson(y) for y in x]
    return x


# ------------------------------------------------------------------ cases

class Case:
    """files: [(path, document or Text)], paths under /w; dirs: [path]; env: [(name, value)];
    dbs: [dict(url, schema, rows or None, fail: index of the user statement that fails, or None)];
    steps: [(subcommand, {option: value})]; cwd"""

    def __init__(self, files=(), dirs=(), env=(), dbs=(), steps=(), cwd="/w", users=(), any_order=False):
        self.any_order = any_order     # directories list their entries in any order
        self.files, self.dirs, self.env = list(files), list(dirs), list(env)
        self.dbs, self.steps, self.cwd = list(dbs), list(steps), cwd
        self.users = list(users)       # texts of the user statements

    def conc(self, c):
        return Case([(c.s(p), conc(c, d)) for p, d in self.files], [c.s(p) for p in self.dirs],
                    [(c.s(a), c.s(b)) for a, b in self.env],
                    [conc(c, d) for d in self.dbs],
                    [(a, {k: conc(c, v) for k, v in o.items()}) for a, o in self.steps], c.s(self.cwd), [c.s(u) for u in self.users])

    def json(self):
        return jsonable(dict(files=[list(f) for f in self.files], dirs=self.dirs, env=[list(e) for e in self.env], dbs=self.dbs,
                             steps=[[a, o] for a, o in self.steps], cwd=self.cwd, users=self.users))

    @staticmethod
    def of(j):
        j = unjson(j)
        return Case([tuple(f) for f in j["files"]], j["dirs"], [tuple(e) for e in j["env"]], j["dbs"],
                    [(a, o) for a, o in j["steps"]], j["cwd"], j["users"])


def db(url=URL, schema="podo_meta", rows=None, fail=None):
    return dict(url=url, schema=schema, rows=rows, fail=fail)


def row(name, previous, changes, up, down):
    return dict(name=name, previous=previous, changes=changes, up=list(up), down=list(down))


def server(case, d, changes_text, is_user):
    srv = minipg.Server(d["url"], is_user)
    srv.catalog = d.get("catalog")
    if d["fail"] is not None:
        k = d["fail"]
        srv.fails = lambda sql: len(srv.attempts) == k + 1
    if d["rows"] is not None:
        srv.state.schemas.append(d["schema"])
        t = minipg.meta_table(d["schema"])
        for i, r in enumerate(d["rows"]):
            srv.nseq += 1
            t.rows.append(dict(name=r["name"], previous=r["previous"], changes=changes_text(r["changes"]), up=list(r["up"]),
                               down=list(r["down"]), applied_at=0, applied_order=srv.nseq))
            if i == 0:      # versions have come and gone: 1, 9, 10, ...
                srv.nseq = 8
        srv.state.tables.append(t)
    return srv


def db_out(srv, changes_of):
    """what is in the database"""
    def st(s):
        tabs = []
        for t in s.tables:
            rows = sorted(t.rows, key=lambda r: r.get("applied_order") or 0)
            tabs.append(dict(schema=t.schema, name=t.name,
                             rows=[dict(name=r.get("name"), previous=r.get("previous"), changes=changes_of(r.get("changes")),
                                        up=r.get("up"), down=r.get("down")) for r in rows]))
        return dict(tables=tabs, log=list(s.log), schemas=list(s.schemas))
    return dict(url=srv.url, now=st(srv.state), commits=[st(s) for s in srv.commits], attempts=list(srv.attempts))


class Out:
    """exit status ('hang' when it does not end), stdout, stderr, files, dirs, dbs after a step"""
    pass


# ------------------------------------------------------------------ symbolic run

def run_symbolic(m, case):
    d = world.docs(m)
    w = world.World(m)
    w.cwd = case.cwd
    w.any_order = case.any_order
    w.mkdirs(case.cwd)
    for p in case.dirs:
        w.mkdirs(p)
    for p, t in case.files:
        if t.__class__ is Text:
            w.put(p, t.s)
        else:
            w.yaml(p, to_value(d, t))
    w.env = [list(e) for e in case.env]

    def is_user(s):
        return any(p.__class__ is Atom and p.kind == "user" for p in sparts(s))
    for x in case.dbs:
        w.dbs.append(server(case, x, lambda t: world.doc_text(m, "json", to_value(d, t)), is_user))
    outs = []
    main = m.root("main")
    for sub, opts in case.steps:
        if sub == "@write":         # the user edits a file
            w.files = [f for f in w.files if not world.same(f[0], opts["path"])]
            w.yaml(opts["path"], to_value(d, opts["doc"]))
            continue
        w.argv = (sub, opts)
        w.stdout, w.stderr, w.log = [], [], []
        w.opens = 0
        m.statics = {}
        o = Out()
        o.why = None
        o.dirs_before = list(w.dirs)
        try:
            main()
            o.exit = 0
        except Exit as e:
            o.exit = e.code
        except Panic as e:
            o.exit = 101
            o.why = e.msg
        except core.Diverge:
            o.exit = "hang"
        o.stdout, o.stderr, o.clock = mks(w.stdout), mks(w.stderr), w.clock
        if o.exit == 101:
            o.stderr = cat(o.stderr, "panicked")
        o.files = []
        for p, t in w.files:
            tr = world.doc_tree(t)
            o.files.append((p, from_value(m, tr[1]) if tr is not None and tr[0] == "yaml" and tr[1] is not None else Text(t)))
        o.dirs = list(w.dirs)

        def changes_of(t):
            tr = world.doc_tree(t) if t is not None else None
            return from_value(m, tr[1]) if tr is not None else Text(t)
        o.dbs = [db_out(s, changes_of) for s in w.dbs]
        outs.append(o)
    return outs


# ------------------------------------------------------------------ native run

HELPER = r'''
fn __y2j(v: &serde_yaml::Value, o: &mut String) {
    match v {
        serde_yaml::Value::Null => o.push_str("null"),
        serde_yaml::Value::Bool(b) => o.push_str(&b.to_string()),
        serde_yaml::Value::Number(n) => o.push_str(&n.to_string()),
        serde_yaml::Value::String(s) => __js(s, o),
        serde_yaml::Value::Sequence(l) => { o.push('['); for (i, x) in l.iter().enumerate() { if i > 0 { o.push(','); } __y2j(x, o); } o.push(']'); }
        serde_yaml::Value::Mapping(l) => { o.push_str("{\"__map\":["); for (i, (a, b)) in l.iter().enumerate() { if i > 0 { o.push(','); } o.push('['); __y2j(a, o); o.push(','); __y2j(b, o); o.push(']'); } o.push_str("]}"); }
        _ => o.push_str("null"),
    }
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() > 1 && a[1] == "__y2j" {
        for f in &a[2..] {
            let s = std::fs::read_to_string(f).unwrap_or_default();
            let mut o = String::new();
            match serde_yaml::from_str::<serde_yaml::Value>(&s) { Ok(v) => __y2j(&v, &mut o), Err(_) => o.push_str("{\"__text\":null}") }
            println!("{}", o);
        }
        return;
    }
    __original_main()
}
'''

_exe = []

CLOCK = "20260102_030405"       # 2026-01-02 03:04:05 UTC
gen.POOLS["clock"] = [CLOCK]


def clock_shim(d):
    """the clock stands still in native runs, so that two versions may be made in the same second"""
    c, so = d + "/clock.c", d + "/clock.so"
    with open(c, "w") as f:
        f.write("""#include <time.h>
int clock_gettime(clockid_t c, struct timespec *t) {
    static long n;
    if (c == CLOCK_REALTIME) { t->tv_sec = 1767323045; t->tv_nsec = 0; }
    else { n += 1000; t->tv_sec = 1000 + n / 1000000000; t->tv_nsec = n % 1000000000; }
    return 0;
}
""")
    subprocess.run(["gcc", "-shared", "-fPIC", "-O1", "-o", so, c], check=True, capture_output=True)
    return so


def exe():
    if not _exe:
        _exe.append(native.build(native.RUNTIME + HELPER, "cmd"))
    return _exe[0]


class Plain:
    known_codes = set()

    def branch(self, c):
        return bool(c)


def yaml_dump(x):
    import yaml

    def py(x):
        if x.__class__ is Map:
            return {k: py(v) for k, v in x.l}
        if x.__class__ is list:
            return [py(y) for y in x]
        return x

    class D(yaml.SafeDumper):
        def ignore_aliases(self, data):
            return True
    D.add_representer(str, lambda d, s: d.represent_scalar("tag:yaml.org,2002:str", s, style='"'))
    return yaml.dump(py(x), Dumper=D, allow_unicode=True, sort_keys=False, width=1 << 20)


def json_changes(t):
    def py(x):
        if x.__class__ is Map:
            return {k: py(v) for k, v in x.l}
        if x.__class__ is list:
            return [py(y) for y in x]
        return x
    return json.dumps(py(t))


def of_json(x):
    if x.__class__ is dict:
        return Map([(k, of_json(v)) for k, v in x.items()])
    if x.__class__ is list:
        return [of_json(y) for y in x]
    return x


def run_native(case, timeout=20):
    """concrete case -> outs"""
    import fakepg
    binary = exe()
    scratch = tempfile.mkdtemp(prefix="podo-cmd-")
    saved = core.M
    core.M = Plain()
    servers = []
    try:
        def real(p):
            assert p == "/w" or p.startswith("/w/"), p
            return scratch + "/w" + p[2:]

        def virt(p):
            return p[len(scratch):]
        os.makedirs(real(case.cwd), exist_ok=True)
        for p in case.dirs:
            os.makedirs(real(p), exist_ok=True)
        urls = {}
        for x in case.dbs:
            srv = server(case, x, json_changes, lambda s: any(u and u in s for u in case.users))
            f = fakepg.Fake(srv)
            servers.append((srv, f))
            urls[x["url"]] = f.url

        def sub(t):
            if t.__class__ is Map:
                return Map([(k, sub(v)) for k, v in t.l])
            if t.__class__ is list:
                return [sub(y) for y in t]
            if t.__class__ is str:
                return real(t) if t.startswith("/w/") else urls.get(t, t)
            return t
        def write(p, t):
            q = real(p)
            os.makedirs(os.path.dirname(q), exist_ok=True)
            with open(q, "w") as f:
                f.write(t.s if t.__class__ is Text else yaml_dump(sub(t) if os.path.basename(p) == ".podo.yaml" else t))
        scalar = set()      # files that are a document of a single value
        for p, t in case.files:
            write(p, t)
            if t.__class__ not in (Map, list, Text):
                scalar.add(p)
        outs = []
        env = {"PATH": "/usr/bin:/bin", "NO_COLOR": "1", "TZ": "UTC", "LD_PRELOAD": clock_shim(scratch)}
        env.update({a: sub(b) for a, b in case.env})
        for s, opts in case.steps:
            if s == "@write":
                write(opts["path"], opts["doc"])
                continue
            args = ([s] if s is not None else []) + ["--%s=%s" % (k, urls.get(v, v)) for k, v in opts.items()]
            o = Out()
            o.why = None
            o.dirs_before = ["/"] + [virt(root) for root, _, _ in os.walk(scratch + "/w")]
            try:
                r = native.run(binary, args, cwd=real(case.cwd), env=env, timeout=timeout)
                o.exit, o.stdout, o.stderr = r.returncode, r.stdout, r.stderr
            except Exception as e:
                if e.__class__.__name__ != "TimeoutExpired":
                    raise
                o.exit, o.stdout, o.stderr = "hang", "", ""
            o.clock = CLOCK
            o.files, o.dirs = [], ["/"]
            ys = []
            for root, ds, fs in os.walk(scratch + "/w"):
                o.dirs.append(virt(root))
                for f in sorted(fs):
                    ys.append(os.path.join(root, f))
            if ys:
                r = native.run(binary, ["__y2j"] + ys, timeout=60)
                back = {f: u for u, f in urls.items()}
                for y, l in zip(ys, r.stdout.splitlines()):
                    t = unjson(json.loads(l))
                    if t.__class__ not in (Map, list) and virt(y) not in scalar:
                        t = Text(open(y, errors="replace").read())
                    o.files.append((virt(y), rename(t, back, scratch)))
            o.stdout = o.stdout.replace(scratch, "")
            o.stderr = o.stderr.replace(scratch, "")
            for _, f in servers:
                f.settle()
            o.dbs = []
            for srv, f in servers:
                o.dbs.append(db_out(srv, lambda t: of_json(json.loads(t)) if t is not None else None))
            outs.append(o)
        return outs
    finally:
        core.M = saved
        for _, f in servers:
            f.stop()
        shutil.rmtree(scratch, ignore_errors=True)


def rename(t, d, scratch):
    if t.__class__ is Map:
        return Map([(k, rename(v, d, scratch)) for k, v in t.l])
    if t.__class__ is list:
        return [rename(y, d, scratch) for y in t]
    if t.__class__ is str:
        return d.get(t, t[len(scratch):] if t.startswith(scratch + "/") else t)
    return t


# ------------------------------------------------------------------ harnesses

class Bad(Exception):
    pass


class Judge:
    """require(cond, msg) on symbolic or concrete data"""

    def __init__(self, m=None, info=None, known=()):
        self.m, self.info, self.known = m, info, known

    def require(self, cond, msg, code=None):
        if code is not None and code in self.known:
            # a recorded finding: the rest of the path is explored under its absence
            if self.m is not None:
                if cond is not True and not self.m.entails(cond):
                    self.m.tags.append("KNOWN:" + code)
                    self.m.assume(cond)
            elif cond is not True:
                raise Skip()
            return
        if self.m is not None:
            self.m.require(cond, msg, self.info, code)
        elif not cond:
            raise Bad(msg)

    def branch(self, c):
        return core.M.branch(c)

    def tag(self, t):
        if self.m is not None:
            self.m.tags.append(t)


class Skip(Exception):
    pass


def harness(make, judge, known=()):
    """make(m) -> (case, expectation data); judge(j, case, extra, outs)"""
    def h(m):
        case, extra = make(m)

        def info(model):
            c = gen.Conc(m, model)
            return dict(case=case.conc(c).json(), extra=jsonable(conc(c, extra)))
        m.sampler = info
        outs = run_symbolic(m, case)
        judge(Judge(m, info, known), case, extra, outs)
    return h


def judge_native(judge, info, known=(), rounds=1):
    """-> message of what the real binary does wrong on this case, or None"""
    case, extra = Case.of(info["case"]), unjson(info["extra"])
    for k in range(rounds):
        core.tie_round = k
        outs = run_native(case)
        saved = core.M
        core.M = Plain()
        try:
            judge(Judge(known=known), case, extra, outs)
        except Bad as b:
            return str(b), outs
        except Skip:
            pass
        finally:
            core.M = saved
    return None, outs


def check(c, name, bounds, make, judge, tags=(), warm=24, rounds=4, max_found=3):
    known = set(c.known)

    def summary(outs):
        return [dict(exit=o.exit, stdout=o.stdout[-2000:], stderr=o.stderr[-2000:], files=jsonable([list(f) for f in o.files]),
                     dbs=jsonable(o.dbs)) for o in outs]

    def replay(found):
        out = []
        for i, f in enumerate(found):
            msg, outs = judge_native(judge, f["info"], known, rounds)
            if msg is not None:
                out.append((i, msg, summary(outs)))
        return out

    def validate(samples):
        bad = []
        for s in samples:
            msg, _ = judge_native(judge, s, known)
            if msg is not None:
                bad.append("%s on %s" % (msg, json.dumps(s)[:600]))
        return bad, len(samples)
    return c.run(name, harness(make, judge, known), bounds, replay, tags=tags, warm=warm, max_found=max_found,
                 validate=None if c.quick else validate)
