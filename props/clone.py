"""P07: what clone writes down is the database it found."""
import re
import z3
import catalog
import pg
import runs
from runs import Map, Case, db, eq
from values import *
from props.history import G, INIT, config, file_of, profile, same_files, version, vpath
from props.defs import Defs, KIND_CS, snapshot
from props.stage import ASSUME, NODOT, STAGE, ok, run, server, stage_of

OUT = "/w/defs/public.yaml"
CLONE_ASSUME = ASSUME + (
    "the database holds what definitions can express: no partial or covering indexes, operator classes, collations, exclusion constraints, identity or "
    "generated columns, partitions, inheritance, NOT VALID or NO INHERIT constraints, view or function options beyond those of a definition",
    "PostgreSQL's own functions render expressions, types, argument lists and view queries as text that means the same when executed",
    "views do not depend on each other, and no other object's opaque text refers to another object",
)


class Found:
    """a database: catalog rows (b) and records of what they say; noise: objects of another schema and dropped columns"""

    def __init__(self, m, g, d, noise):
        self.m, self.g, self.d, self.noise = m, g, d, noise
        self.b = catalog.Builder()
        self.pub = self.b.ns("public")
        self.rels, self.funs = [], []
        self.kinds = None
        self.attnum = {}
        if noise:
            s = self.other = d.name("s")
            m.add(z3not(str_eq(s, "public")))
            for n in ("pg_catalog", "information_schema"):
                m.add(z3not(str_eq(s, n)))
            self.ons = self.b.namespace(s)
        else:
            self.other = None

    # ---- types: (oid, typmod, the type as SQL)
    def type(self, k):
        b = self.b
        if k in ("plain", "array"):
            t = self.d.text("type")
            o = b.type(t)
            if k == "plain":
                return o, -1, t
            return b.type(mks(["_", t]), elem=o, len_=-1, category="A"), -1, mks([t, "[]"])
        name, mod, sql = {"varchar": ("varchar", 259, "varchar(255)"), "numeric": ("numeric", ((13 << 16) | 4) + 4, "numeric(13,4)"),
                          "char": ("bpchar", 14, "bpchar(10)"), "timestamp": ("timestamp", 3, "timestamp(3)"),
                          "timestamptz": ("timestamptz", 3, "timestamptz(3)"), "timetz": ("timetz", 0, "timetz(0)"), "time": ("time", 6, "time(6)"),
                          "bit": ("bit", 5, "bit(5)"),
                          "point": ("point", -1, "point"), "name": ("name", -1, "name"),
                          "int4": ("int4", -1, "int4"), "varchars": ("varchar", 259, "varchar(255)[]"), "timestamptzs": ("timestamptz", 3, "timestamptz(3)[]")}[k]
        if k in ("point", "name"):
            e = b.type("float8" if k == "point" else "char")
            return b.type(name, elem=e, len_=16 if k == "point" else 64, category="G" if k == "point" else "S"), mod, sql
        o = b.type(name)
        if k.endswith("s"):
            o = b.type("_" + name, elem=o, len_=-1, category="A")
        return o, mod, sql

    # ---- objects
    def table(self, n, cols, gap=None):
        """cols: [(name, kind of type, not null, default)]; -> oid and the record"""
        b, m = self.b, self.m
        o = b.cls(self.pub, n, "r")
        b.attribute(o, -1, "ctid", b.type("tid"), notnull=True)
        num, rec = 0, []
        for i, (c, k, nn, df) in enumerate(cols):
            num += 1
            if gap == i:
                b.attribute(o, num, "........pg.dropped.%d........" % num, 0, dropped=True)
                num += 1
            t, mod, sql = self.type(k)
            self.attnum[(o, str(c))] = num
            b.attribute(o, num, c, t, mod, nn, default=df)
            rec.append(dict(name=c, data_type=sql, not_null=nn, default=df))
        r = dict(kind="Table", name=n, columns=rec, constraints=[])
        self.rels.append(r)
        return o, r

    def nums(self, rel, cols):
        return [self.attnum[(rel, str(c))] for c in cols]

    def flags(self, full):
        d = i = False
        if full and self.m.choose(2, "deferrable"):
            d, i = True, z3.Bool(self.m.fresh("deferred"))
        return d, i

    def key(self, kind, n, rel, rec, cols, full=False):
        b = self.b
        d, i = self.flags(full)
        nums = self.nums(rel, cols)
        ix = b.index(self.pub, n, rel, cols, nums, True, primary=kind == "PrimaryKey")
        c = b.constraint(self.pub, n, "p" if kind == "PrimaryKey" else "u", rel, conkey=nums, conindid=ix, condeferrable=d, condeferred=i)
        b.depend("pg_class", ix, "pg_constraint", c, 0, "i")
        for x in nums:
            b.depend("pg_constraint", c, "pg_class", rel, x, "a")
        rec["constraints"].append((n, dict(kind=kind, name=n, columns=list(cols), deferrable=d, initially_deferred=i)))
        return ix, c

    def foreign(self, n, rel, rec, cols, target, tcols, ix, tns="public", full=False):
        """target: (oid, name); ix: the unique index on the target's columns"""
        b, m = self.b, self.m
        d, i = self.flags(full)
        rules = {"a": "NO ACTION", "r": "RESTRICT", "c": "CASCADE", "n": "SET NULL", "d": "SET DEFAULT"}
        if full:
            u, dl = "arcnd"[m.choose(5, "update rule")], "arcnd"[m.choose(5, "delete rule")]
            mt = "sf"[m.choose(2, "match")]
        else:
            u, dl, mt = "c", "n", "s"
        nums, tnums = self.nums(rel, cols), self.nums(target[0], tcols)
        c = b.constraint(self.pub, n, "f", rel, conkey=nums, confkey=tnums, confrelid=target[0], conindid=ix, confupdtype=u, confdeltype=dl,
                         confmatchtype=mt, condeferrable=d, condeferred=i)
        for x in nums:
            b.depend("pg_constraint", c, "pg_class", rel, x, "a")
        for x in tnums:
            b.depend("pg_constraint", c, "pg_class", target[0], x, "n")
        b.depend("pg_constraint", c, "pg_class", ix, 0, "n")
        rec["constraints"].append((n, dict(kind="ForeignKey", name=n, columns=list(cols), target_schema=tns, target_table=target[1],
                                           target_columns=list(tcols), deferrable=d, initially_deferred=i,
                                           match_option={"s": "SIMPLE", "f": "FULL"}[mt], update_rule=rules[u], delete_rule=rules[dl])))

    def check(self, n, rel, rec):
        x = self.d.text("expr")
        self.b.constraint(self.pub, n, "c", rel, conbin=x)
        rec["constraints"].append((n, dict(kind="Check", name=n, expression=x, deferrable=False, initially_deferred=False)))

    def index(self, n, rel, table, cols, options=(), method="btree", unique=False, keep=True):
        """cols: column names, None for an expression"""
        b = self.b
        nums = [0 if c is None else self.attnum[(rel, str(c))] for c in cols]
        opts = list(options) or [0] * len(cols)
        xs = {k: self.d.text("expr") for k, c in enumerate(cols) if c is None}
        parts = []
        for x in xs.values():
            parts += ([", "] if parts else []) + [x]
        o = b.index(self.pub, n, rel, cols, nums, unique, method, opts, mks(parts) if parts else None)
        for k, x in xs.items():
            b.x["index:%d:%d" % (o, k)] = x
        keys = []
        for k, c in enumerate(cols):
            t = xs[k] if c is None else catalog.quote_ident(c)
            keys.append(mks([t, ("", " DESC NULLS LAST", " NULLS FIRST", " DESC")[opts[k]]]))
        if keep:
            self.rels.append(dict(kind="Index", name=n, table_name=table, unique=unique, method=method, key_expressions=keys))
        return o

    def sequence(self, n, ns, owner=None, **kw):
        b = self.b
        t = kw.get("type", "int8")
        o = b.cls(ns, n, "S")
        r = dict(kind="Sequence", name=n, data_type=t, owned_by_table=None, owned_by_column=None, **{
            k: kw[k] for k in ("start", "min_value", "max_value", "increment", "cache", "cycle")})
        b.t["pg_sequence"].append(dict(seqrelid=o, seqtypid=b.type(t), seqstart=r["start"], seqincrement=r["increment"], seqmax=r["max_value"],
                                       seqmin=r["min_value"], seqcache=r["cache"], seqcycle=r["cycle"]))
        b.depend("pg_class", o, "pg_namespace", ns)
        if owner is not None:
            rel, tn, c = owner
            b.depend("pg_class", o, "pg_class", rel, self.attnum[(rel, str(c))], "a")
            r["owned_by_table"], r["owned_by_column"] = tn, c
        for i, (c, ct) in enumerate((("last_value", "int8"), ("log_cnt", "int8"), ("is_called", "bool"))):
            b.attribute(o, i + 1, c, b.type(ct), notnull=True)
        if ns == self.pub:
            self.rels.append(r)
        return o

    def view(self, n, cols=()):
        o = self.b.cls(self.pub, n, "v")
        for i, c in enumerate(cols):
            self.b.attribute(o, i + 1, c, self.b.type("int4"))
        q = self.d.text("query")
        self.b.x["view:%d" % o] = mks([" ", q, ";"])
        self.rels.append(dict(kind="View", name=n, query=q))

    def function(self, n, args=None, ns=None, kind="f"):
        b, d, m = self.b, self.d, self.m
        ns = self.pub if ns is None else ns
        rt = d.text("type")
        t = b.type(rt, shown=rt)
        lang = d.text("language")
        lo = b.add("pg_language", lanname=lang)
        if kind != "f":
            k, st = 0, False
        elif self.kinds is None:
            k, st = self.kinds = m.choose(3, "volatility"), m.choose(2, "set") == 1
        else:   # a further function: unlike the first in both
            k, st = (self.kinds[0] + 1) % 3, not self.kinds[1]
        body = d.text("body")
        o = b.add("pg_proc", proname=n, pronamespace=ns, prosrc=body, prolang=lo, prorettype=t if kind == "f" else b.type("void"), proretset=st,
                  provolatile="vsi"[k], pronargs=0 if args is None else 1, prokind=kind, proowner=10)
        b.x["args:%d" % o] = "" if args is None else args
        if ns == self.pub and kind == "f":
            self.funs.append(dict(name=mks([n, "(", "" if args is None else args, ")"]), body=body, language=lang,
                                  returns=mks(["setof ", rt]) if st else rt, volatility=("VOLATILE", "STABLE", "IMMUTABLE")[k]))

    def case(self, start=(), stale=False):
        """-> case and what is expected after running the staged statements on a server that holds the schemas start"""
        pub = dict(name="public", relations=[], functions=[])
        now = dict(name="public", relations=[(r["name"], r) for r in self.rels], functions=[(f["name"], f) for f in self.funs])
        x = db()
        x["catalog"] = self.b.done()
        files = [("/w/.podo.yaml", config(database=profile())), (vpath("init"), INIT()), (STAGE, version("stage", "init"))]
        if stale:
            files.append((OUT, Map([("schema public", Map([("table old", Map([("column c", "text")]))]))])))
        case = Case(files, ["/w/hist", "/w/defs"], dbs=[x], steps=[("clone", {}), ("stage", {})], users=self.g.users)
        return case, dict(start=snapshot(pub, *start), want=snapshot(now, *start))


def setup(m):
    g = G(m)
    d = Defs(m, g)
    return g, d


def make(build):
    def f(m):
        g = G(m)
        d = Defs(m, g)
        return build(m, g, d)
    return f


# ------------------------------------------------------------------ what the database holds

def m_columns(types):
    def build(m, g, d):
        w = Found(m, g, d, True)
        t, a, b, c = d.name("t"), d.name("a"), d.name("b"), d.name("c")
        k = types[m.choose(len(types), "type")]
        df = d.text("expr") if m.choose(2, "default") else None
        nn = m.choose(2, "not null") == 1
        w.table(t, [(a, k, nn, df), (b, "int4", not nn, None), (c, "int4", False, None)], gap=m.choose(3, "dropped column"))
        # a table of another schema has the same name
        o = w.b.cls(w.ons, t, "r")
        w.b.attribute(o, 1, a, w.b.type("int4"))
        # and kinds of relations that definitions do not have
        q = w.b.cls(w.pub, d.name("q"), "tmcf"[m.choose(4, "another relation")])
        w.b.attribute(q, 1, a, w.b.type("int4"), notnull=True, default=df)
        return w.case(stale=m.choose(2, "there already") == 1)
    return build


def cols2(m, a, b):
    """one column, or two in either order"""
    return [[a], [a, b], [b, a]][m.choose(3, "columns")]


def m_keys(m, g, d):
    w = Found(m, g, d, False)
    t, a, b, k, e = d.name("t"), d.name("a"), d.name("b"), d.name("k"), d.name("e")
    o, r = w.table(t, [(a, "int4", True, None), (b, "int4", True, None)], gap=(None, 1)[m.choose(2, "dropped column")])
    kinds = [("PrimaryKey",), ("Unique",), ("PrimaryKey", "Unique")][m.choose(3, "kinds")]
    w.key(kinds[0], k, o, r, cols2(m, a, b), True)
    if len(kinds) > 1:
        w.key(kinds[1], e, o, r, [a])
    k = m.choose(3, "constraint that definitions do not have")
    if k == 1:          # NOT NULL, since 18
        w.b.constraint(w.pub, d.name("x"), "n", o, conkey=w.nums(o, [a]))
    elif k == 2:        # a constraint trigger
        w.b.constraint(w.pub, d.name("x"), "t", o, condeferrable=True)
    return w.case()


def m_check(m, g, d):
    w = Found(m, g, d, False)
    t, a, k, e = d.name("t"), d.name("a"), d.name("k"), d.name("e")
    o, r = w.table(t, [(a, "int4", False, None)])
    w.check(k, o, r)
    if m.choose(2, "two"):
        w.check(e, o, r)
    if m.choose(2, "domain"):
        ty = w.b.add("pg_type", typname=d.name("y"), typnamespace=w.pub, typelem=0, typarray=0, typtype="d", typnotnull=False, typlen=4,
                     typcategory="N", typowner=10, typrelid=0, typbasetype=w.b.type("int4"))
        w.b.constraint(w.pub, d.name("x"), "c", 0, contypid=ty, conbin=d.text("expr"))
    return w.case()


def m_elsewhere(m, g, d):
    """objects of every kind in another schema, under the same or other names"""
    w = Found(m, g, d, True)
    t, u, a, k, f, c, i, v, n, q = (d.name(x) for x in "tuakfcivnq")
    w.table(t, [(a, "int4", False, None)])
    pub, rels, funs = w.pub, w.rels, w.funs
    w.pub, w.rels, w.funs = w.ons, [], []
    what = m.choose(6, "kind")
    o, r = w.table(t if m.choose(2, "same name") else u, [(a, "int4", True, None)])
    if what == 0:
        w.key(("PrimaryKey", "Unique")[m.choose(2, "key")], k, o, r, [a])
    elif what == 1:
        ix, _ = w.key("PrimaryKey", k, o, r, [a])
        w.foreign(f, o, r, [a], (o, t), [a], ix)
    elif what == 2:
        w.check(c, o, r)
    elif what == 3:
        w.index(i, o, t, [a])
    elif what == 4:
        w.view(v, [a])
    else:
        w.sequence(q, w.pub, (o, t, a), cycle=True, increment=1, min_value=1, max_value=9, start=1, cache=1)
        w.function(n, None)
    w.pub, w.rels, w.funs = pub, rels, funs
    return w.case()


def m_foreign(full):
    def build(m, g, d):
        w = Found(m, g, d, False)
        t, u = d.name("t"), d.name("u", cs=NODOT, not_first="du")
        a, b, k, f = d.name("a"), d.name("b"), d.name("k"), d.name("f")
        tc = [[a], [a, b], [b, a]][0 if full else m.choose(3, "target columns")]
        n = len(tc)
        same = not full and m.choose(2, "refers to itself") == 1
        ut, ur = w.table(u, [(a, "int4", True, None), (b, "int4", True, None)], gap=None if full else (None, 1)[m.choose(2, "dropped column")])
        how = 0 if full else m.choose(3, "unique by")
        kc = tc if n == 1 or full else [tc, tc[::-1]][m.choose(2, "key's order")]
        if how < 2:
            ix, _ = w.key(("PrimaryKey", "Unique")[how], k, ut, ur, kc)
        else:
            ix = w.index(k, ut, u, kc, unique=True)
        if same:
            w.foreign(f, ut, ur, [a, b][:n], (ut, u), tc, ix)
        else:
            tt, tr = w.table(t, [(a, "int4", False, None), (b, "int4", False, None)])
            w.foreign(f, tt, tr, [[a, b], [b, a]][m.choose(2, "order")][:n] if n > 1 else [a], (ut, u), tc, ix, full=full)
        return w.case()
    return build


def m_foreign_other(m, g, d):
    """the target lies in another schema, which the server has"""
    w = Found(m, g, d, False)
    s = d.name("s", cs=NODOT)
    for n in ("public", "pg_catalog", "information_schema"):
        m.add(z3not(str_eq(s, n)))
    t, u, a, k, f = d.name("t"), d.name("u", cs=NODOT), d.name("a"), d.name("k"), d.name("f")
    tt, tr = w.table(t, [(a, "int4", False, None)])
    pub, w.pub = w.pub, w.b.namespace(s)
    rels, w.rels = w.rels, []
    ut, ur = w.table(u, [(a, "int4", True, None)])
    ix, _ = w.key("PrimaryKey", k, ut, ur, [a])
    other = dict(name=s, relations=[(r["name"], r) for r in w.rels], functions=[])
    w.pub, w.rels = pub, rels
    w.foreign(f, tt, tr, [a], (ut, u), [a], ix, tns=s)
    return w.case(start=[other])


def m_index(m, g, d):
    w = Found(m, g, d, False)
    t, a, b, i, k = d.name("t", not_first="du"), d.name("a"), d.name("b"), d.name("i"), d.name("k")
    o, r = w.table(t, [(a, "int4", False, None), (b, "int4", False, None)], gap=0)
    if m.choose(2, "exclusion"):
        # its index is that of a constraint that definitions do not have
        w.b.constraint(w.pub, k, "x", o, conkey=w.nums(o, [a]), conindid=w.index(k, o, t, [a], keep=False))
    else:
        w.key("Unique", k, o, r, [a])
    shape = m.choose(3, "keys")
    if shape == 0:
        cols, opts = [a], [m.choose(4, "order of keys")]
    elif shape == 1:
        cols, opts = [[a, b], [b, a]][m.choose(2, "columns")], [(0, 3), (3, 0), (2, 1)][m.choose(3, "order of keys")]
    else:
        cols = [[None], [None, a], [a, None], [None, None]][m.choose(4, "expressions")]
        opts = [0] * (len(cols) - 1) + [(0, 3)[m.choose(2, "order of keys")]]
    method = "btree"
    unique = False
    if not any(opts):
        if m.choose(2, "method"):
            method = d.text("method")
        else:
            unique = m.choose(2, "unique") == 1
    w.index(i, o, t, cols, opts, method, unique)
    return w.case()


def m_sequence(m, g, d):
    w = Found(m, g, d, True)
    t, a, q, p = d.name("t"), d.name("a"), d.name("q"), d.name("p")
    num = dict(increment=2, min_value=-7, max_value=1 << 40, start=5, cache=3, cycle=False)
    k = m.choose(4, "free")
    if k:
        o, r = w.table(t, [(a, "int4", False, None)])
        for f in ((), ("increment",), ("min_value", "max_value"), ("start", "cache"))[k]:
            num[f] = d.num(f)
        if k == 1:
            m.add(num["increment"] != 0)
        num["cycle"] = z3.Bool(m.fresh("cycle"))
        w.sequence(q, w.pub, (o, t, a), **num)
        return w.case()
    o, r = w.table(t, [(a, "int4", False, d.text("expr") if m.choose(2, "default") else None)])
    w.sequence(q, w.pub, (o, t, a) if m.choose(2, "owned") else None, type=("int2", "int4", "int8")[m.choose(3, "type")], **num)
    # one of the other schema, of the same name; and one more here
    num = dict(cycle=True, increment=1, min_value=1, max_value=9, start=1, cache=1)
    if m.choose(2, "two"):
        w.sequence(q, w.ons, None, **num)
        w.sequence(p, w.pub, None, **num)
    return w.case()


def m_others(m, g, d):
    w = Found(m, g, d, True)
    k = m.choose(3, "what")
    if k == 0:
        w.view(d.name("v"), [d.name("a")])
        w.view(d.name("w"))
        return w.case()
    n = d.fname()
    args = m.text(m.fresh("args"), cs=KIND_CS["args"], kind="args", trim=True)
    if k == 1:
        w.function(n, args if m.choose(2, "args") else None)
        w.function(n, None, ns=w.ons)
        if m.choose(2, "procedure"):
            w.function(d.fname(), None, kind="p")
    else:
        w.function(n, args)
        w.function(n, None)
    return w.case()


# ------------------------------------------------------------------ judging

ALIAS = {"character varying": "varchar", "character": "bpchar", "char": "bpchar", "integer": "int4", "int": "int4", "bigint": "int8", "smallint": "int2",
         "decimal": "numeric", "timestamp with time zone": "timestamptz", "timestamp without time zone": "timestamp",
         "time with time zone": "timetz", "time without time zone": "time", "boolean": "bool", "float8": "double precision"}


def norm_type(s):
    """one spelling of a type given as plain text"""
    if s.__class__ is not str:
        return s
    m = re.fullmatch(r'\s*"?([a-z0-9 _]+?)"?\s*(?:\(([0-9, ]+)\))?\s*((?:with|without) time zone)?\s*((?:\[\s*\]\s*)*)', s.strip().lower())
    if m is None:
        return s
    n = m.group(1)
    if m.group(3):
        n += " " + m.group(3)
    return ALIAS.get(n, n) + ("(%s)" % m.group(2).replace(" ", "") if m.group(2) else "") + (m.group(4) or "").replace(" ", "")


def norm_key(s):
    """index key, as pg.canon leaves it: order options in one spelling, no enclosing parentheses"""
    parts = list(sparts(s))
    tail = parts[-1] if parts and parts[-1].__class__ is str else ""
    m = re.search(r'(?:\s+|(?<=")|(?<=\)))(ASC|DESC)?(?:(?:^|\s+)NULLS\s+(FIRST|LAST))?\s*$', tail, re.I)
    desc = bool(m and m.group(1) and m.group(1).upper() == "DESC")
    nf = m and m.group(2)
    first = desc if not nf else nf.upper() == "FIRST"
    if m and (m.group(1) or m.group(2)):
        parts[-1] = tail[:m.start()]
    lits = [q for q in parts if q.__class__ is str]
    if parts[0].__class__ is str and parts[-1].__class__ is str and parts[0].startswith("( ") and parts[-1].endswith(" )") and \
            sum(q.count("(") for q in lits) == 1:
        parts = list(sparts(mks([parts[0][2:]] + parts[1:-1] + [parts[-1][:-2]] if len(parts) > 1 else [parts[0][2:-2]])))
    return mks(parts + [" DESC" if desc else " ASC", " NULLS FIRST" if first else " NULLS LAST"])


def normal(d):
    for s in d.schemas:
        for r in s["relations"]:
            if r["kind"] == "Table":
                for c in r["columns"]:
                    c["data_type"] = norm_type(c["data_type"])
            if r["kind"] == "Index":
                r["key_expressions"] = [norm_key(k) for k in r["key_expressions"]]
    return d


def judge(j, case, x, outs):
    o = outs[0]
    ok(j, o, "clone")
    j.require(same_files([f for f in case.files if f[0] != OUT], [f for f in o.files if f[0] != OUT]), "clone changes files other than public.yaml")
    j.require(file_of(o.files, OUT) is not None, "clone writes no public.yaml")
    out = o.dbs[0]
    j.require(not out["commits"] or all(not c["log"] and not c["tables"] for c in out["commits"]), "clone changes the database")
    j.require(not out["attempts"], "clone runs statements")
    s = outs[1]
    ok(j, s, "stage after clone")
    st = stage_of(j, s)
    srv = server(x["start"])
    if not run(j, srv, st.get("up"), "cloned definitions"):
        return
    want = normal(server(x["want"]))
    normal(srv)
    c, why = pg.db_eq(srv, want)
    j.require(c, "the cloned definitions do not describe the database (%s)" % why)
    # columns are in the order of the database
    for t in want.schemas[0]["relations"]:
        if t["kind"] == "Table":
            u = next((r for r in srv.schemas[0]["relations"] if r["kind"] == "Table" and pg.same(r["name"], t["name"])), None)
            a, b = [c["name"] for c in u["columns"]], [c["name"] for c in t["columns"]]
            j.require(z3and([str_eq(p, q) for p, q in zip(a, b)]), "columns of %s: %s instead of %s" % (t["name"], a, b))
    j.tag("cloned")


TYPES = ("plain", "array", "varchar", "numeric", "timestamptz", "point")
MORE = TYPES + ("char", "timestamp", "timetz", "time", "bit", "name", "varchars", "timestamptzs")
CASES = [("columns", None, "a table of three columns (types, not null, default), one dropped column, a table of the same name in another schema, a relation of another kind"),
         ("keys", m_keys, "primary key and unique constraints of one or two columns in either order, deferrability; next to constraints of other kinds"),
         ("check", m_check, "one or two check constraints, next to one of a domain"),
         ("elsewhere", m_elsewhere, "a table, next to objects of every kind in another schema"),
         ("foreign", m_foreign(False), "a foreign key of one or two columns in any order on a primary key, unique constraint or unique index, to another or the same table"),
         ("foreign rules", m_foreign(True), "match, rules and deferrability of a foreign key"),
         ("foreign other", m_foreign_other, "a foreign key to a table of another schema"),
         ("index", m_index, "an index of one or two columns or expressions, sort order, method, uniqueness"),
         ("sequence", m_sequence, "a sequence, owned or not, any numbers, next to one of the same name in another schema"),
         ("others", m_others, "views; functions with and without arguments, overloaded, in two schemas, next to a procedure")]


def p07(c):
    c.assume(*CLONE_ASSUME)
    for n, b, desc in CASES:
        if n == "columns":
            b = m_columns(TYPES if c.quick else MORE)
        c.check(n, desc + "; rows of the catalog in any of two orders, aggregates without ORDER BY in any", make(b), judge, tags=("cloned",))


PROPS = {"P07": p07}
