"""Harnesses over snapshots: symbolic source/target pairs and the obligations on what the
code computes from them."""
import z3
from values import *
import core
import gen
import models
import pg

NAMECS = ALLCH
TEXT = ALLCH
WORDS = WORD | frozenset([32])


class Snap:
    def __init__(self, m):
        self.m = m
        for self.cd_path in ("snapshot::diff::compare_diff", "snapshot::compare_diff"):
            r = m.c.req("root", self.cd_path)
            if "fn" in r:
                break
        if "fn" not in r:
            raise Unsupported("compare_diff not found")
        sig = m.c.req("fnty", r["fn"])
        self.T = gen.Types(m, *sig["in"], sig["out"])
        self.compare_diff = m.callable_fn(r["fn"])
        self.DBT = self.T["Database"]
        self.CH = self.T["Change"]
        chpath = m.ty(self.CH)["path"]
        self.apply = m.root(chpath + "::apply")
        self.revert = m.root(chpath + "::revert")
        self.render = m.root(chpath + "::render_sql")
        self.clone_cache = {}

    # names of one pool are pairwise different
    def name(self, tag):
        n = "n:" + tag
        return self.m.text(n, cs=NAMECS, kind="name", grp="names")

    def fname(self, tag):
        n = "f:" + tag
        return self.m.text(n, cs=NAMECS - {40}, kind="name", grp="fnames")

    plain = False
    PLAIN = {"expr": "(a > 0)", "type": "int4", "query": "SELECT 1", "match": "SIMPLE", "rule": "NO ACTION",
             "language": "sql", "method": "btree", "volatility": "VOLATILE", "body": "SELECT 1", "args": "a int4"}

    def text(self, b, hint, kind):
        m = self.m
        if self.plain:
            return self.PLAIN[kind]
        cs = {"expr": TEXT, "type": WORDS | {40, 41, 44, 91, 93}, "query": TEXT - {59}, "match": WORDS, "rule": WORDS,
              "language": WORDS, "method": WORDS, "volatility": WORDS, "body": TEXT, "args": TEXT - {40, 41}}[kind]
        return m.text(b.name(hint), cs=cs, kind=kind, trim=kind != "body")

    # ---- builders (every attribute not given is symbolic)
    def column(self, b, s, t, n, **kw):
        d = dict(schema_name=s, table_name=t, name=n, data_type=self.text(b, "type", "type"))
        if self.plain:
            d.update(data_type="int4", not_null=False, default=none())
        d["default"] = kw.pop("default") if "default" in kw else d["default"] if "default" in d else self.opt(b, "default", "expr")
        d.update(kw)
        return b.mk("Column", d)

    def opt(self, b, hint, kind):
        m = self.m
        tag = z3.Int(b.name(hint + ".some"))
        m.add(z3.Or(tag == 0, tag == 1))
        return LazyEnum(tag, None, {0: [], 1: [StringObj(self.text(b, hint, kind))]})

    def deferr(self, b, hint):
        m = self.m
        if self.plain:
            return dict(deferrable=False, initially_deferred=False)
        d, i = z3.Bool(b.name(hint + ".deferrable")), z3.Bool(b.name(hint + ".initially_deferred"))
        m.add(z3.Implies(i, d))
        return dict(deferrable=d, initially_deferred=i)

    def strs(self, l):
        return VecObj([StringObj(x) for x in l])

    def constraint(self, b, kind, s, t, n, cols, target=None):
        d = dict(schema_name=s, table_name=t, name=n)
        if kind == "PrimaryKey" or kind == "Unique":
            d["columns"] = self.strs(cols)
            d.update(self.deferr(b, kind))
        elif kind == "Check":
            d.update(expression=self.text(b, "expression", "expr"), deferrable=False, initially_deferred=False)
        else:
            d.update(columns=self.strs(cols), target_schema=target[0], target_table=target[1],
                     target_columns=self.strs(target[2]), match_option=self.text(b, "match_option", "match"),
                     update_rule=self.text(b, "update_rule", "rule"), delete_rule=self.text(b, "delete_rule", "rule"))
            d.update(self.deferr(b, kind))
        return b.wrap("Constraint", kind, b.mk(kind, d))

    def table(self, b, s, n, cols, cons):
        return b.wrap("Relation", "Table", b.mk("Table", dict(
            schema_name=s, name=n, columns=VecObj(cols), constraints=b.map(cons))))

    def view(self, b, s, n):
        return b.wrap("Relation", "View", b.mk("View", dict(schema_name=s, name=n, query=self.text(b, "query", "query"))))

    def index(self, b, s, n, t, nkeys):
        return b.wrap("Relation", "Index", b.mk("Index", dict(
            schema_name=s, name=n, table_name=t, method=self.text(b, "method", "method"),
            key_expressions=self.strs([self.text(b, "key", "expr") for _ in range(nkeys)]))))

    def sequence(self, b, s, n, owner=None):
        d = dict(schema_name=s, name=n, data_type=self.text(b, "type", "type"))
        d["owned_by_table"] = none() if owner is None else some(StringObj(owner[0]))
        d["owned_by_column"] = none() if owner is None else some(StringObj(owner[1]))
        return b.wrap("Relation", "Sequence", b.mk("Sequence", d))

    def function(self, b, s, n):
        return b.mk("Function", dict(schema_name=s, name=n, body=self.text(b, "body", "body"),
                                     language=self.text(b, "language", "language"), returns=self.text(b, "returns", "type"),
                                     volatility=self.text(b, "volatility", "volatility")))

    def schema(self, b, n, rels, funs=()):
        return b.mk("Schema", dict(name=n, relations=b.map(rels), functions=b.map(list(funs))))

    def db(self, b, schemas):
        return b.mk("Database", dict(schemas=b.map(schemas)))

    # ---- operations
    def copy(self, v):
        """independent copy of a value"""
        c = v.__class__
        if c is StringObj:
            return StringObj(v.s)
        if c is VecObj:
            return VecObj([self.copy(x) for x in v.items])
        if c is MapObj:
            return MapObj([[self.copy(a), self.copy(b)] for a, b in v.entries], v.kind)
        if c is LazyEnum and v.v is None:
            return LazyEnum(v.tag, None, {k: [self.copy(x) for x in p] for k, p in v.pay.items()})
        if c is LazyEnum or c is Agg:
            return Agg(v.v, [self.copy(x) for x in v.f])
        return v

    def rec(self, v):
        return pg.rec(self.m, v, self.DBT)

    def catalogue(self, v, strict=True):
        return pg.from_snapshot(self.rec(v), strict)

    def text_of(self, r):
        return r.s

    def apply_to(self, ch, cell):
        """-> True or the error value"""
        r = self.apply(Ptr([ch], 0), Ptr(cell, 0))
        if self.m.discr(r) == 0:
            return True
        return r.f[0]


def rec_eq(a, b, what):
    if isinstance(a, dict):
        if not isinstance(b, dict) or set(a) != set(b):
            return False, what
        cs = []
        for k in a:
            c, w = rec_eq(a[k], b[k], "%s.%s" % (what, k))
            if c is False:
                return False, w
            cs.append(c)
        return z3and(cs), None
    if isinstance(a, list):
        if not isinstance(b, list) or len(a) != len(b):
            return False, "%s: %d elements instead of %d" % (what, len(a), len(b) if isinstance(b, list) else -1)
        if a and isinstance(a[0], tuple):
            rest = list(b)
            cs = []
            for k, v in a:
                y = next((e for e in rest if pg.same(e[0], k)), None)
                if y is None:
                    return False, "%s: unexpected %s" % (what, k)
                rest.remove(y)
                c, w = rec_eq(v, y[1], "%s[%s]" % (what, k))
                if c is False:
                    return False, w
                cs.append(c)
            return z3and(cs), None
        if a and isinstance(a[0], dict):
            return rec_eq([(x["name"], x) for x in a], [(x["name"], x) for x in b], what)
        cs = []
        for x, y in zip(a, b):
            c, w = rec_eq(x, y, what)
            if c is False:
                return False, w
            cs.append(c)
        return z3and(cs), None
    c = pg.val_eq(a, b)
    return c, (what if c is False else None)


# ------------------------------------------------------------------ obligations

def trace(sn, s, t, want):
    """Run the real code on (s, t): everything the properties talk about, as plain records."""
    m = sn.m
    tr = dict(s=sn.rec(s), t=sn.rec(t), changes=[], states=[], sql=[], inverse=[], inv_states=[], panic=None,
              apply_err=None, revert_err=None, inv_err=None)
    chty = m.ty(sn.CH)

    def desc(ch):
        v = chty["variants"][m.discr(ch)]
        return v["name"], pg.rec(m, ch.f[0], v["fields"][0][1])
    try:
        s0 = sn.copy(s)
        chs = sn.compare_diff(Ptr([s], 0), Ptr([t], 0)).items
        m.tags.append("changes:%d" % min(len(chs), 4))
        for ch in chs:
            tr["changes"].append(desc(ch))
            m.tags.append(tr["changes"][-1][0])
        if want == {"P03"}:
            return tr
        cell = [sn.copy(s0)]
        revs = []
        for i, ch in enumerate(chs):
            if want & {"P02", "P04", "P06"}:
                r = sn.revert(Ptr([ch], 0), Ptr(cell, 0))
                if m.discr(r) != 0:
                    tr["revert_err"] = i
                    return tr
                revs.append(r.f[0])
            if want & {"P04", "P06"}:
                tr["sql"].append(sn.render(Ptr([ch], 0)).s)
            if sn.apply_to(ch, cell) is not True:
                tr["apply_err"] = i
                return tr
            tr["states"].append(sn.rec(cell[0]))
        if not want & {"P02", "P04", "P06"}:
            return tr
        for i, ch in enumerate(reversed(revs)):
            n, d = desc(ch)
            tr["inverse"].append((n, d, sn.render(Ptr([ch], 0)).s if want & {"P04", "P06"} else None))
        for i, ch in enumerate(reversed(revs)):
            if sn.apply_to(ch, cell) is not True:
                tr["inv_err"] = i
                return tr
            tr["inv_states"].append(sn.rec(cell[0]))
    except Panic as p:
        tr["panic"] = p.msg
    return tr


def judge(tr, want, bad, known=(), tag=lambda x: None):
    """assert the properties in `want` of a trace (symbolic or concrete)"""
    if tr["panic"] is not None:
        bad("the computation panics: %s" % tr["panic"])
        return
    s, t = tr["s"], tr["t"]
    chs = tr["changes"]
    if "P03" in want:
        c, w = rec_eq(s, t, "database")
        if not chs:
            bad("no change is computed although the snapshots differ (%s)" % w, cond=c)
        else:
            bad("changes are computed for equal snapshots", cond=z3not(c))
        touched(s, t, chs, bad)
    if want == {"P03"}:
        return
    if tr["revert_err"] is not None:
        if "P02" in want:
            bad("a change has no inverse: %s" % chs[tr["revert_err"]][0])
        return
    before = s
    if "P04" in want:
        for i, after in enumerate(tr["states"]):
            single_sql(before, tr["sql"][i], after, bad)
            before = after
    if tr["apply_err"] is not None:
        if "P01" in want:
            bad("a computed change cannot be applied: %s" % chs[tr["apply_err"]][0])
        return
    last = tr["states"][-1] if tr["states"] else s
    if "P01" in want:
        c, w = rec_eq(last, t, "database")
        bad("applying the computed changes does not give the target (%s)" % w, cond=c)
    if "P06" in want:
        script(s, tr["sql"], t, bad, "up", known, tag)
    before = last
    for i, after in enumerate(tr["inv_states"]):
        if "P04" in want:
            single_sql(before, tr["inverse"][i][2], after, bad)
        before = after
    if tr["inv_err"] is not None:
        if "P02" in want:
            bad("an inverse change cannot be applied: %s" % tr["inverse"][tr["inv_err"]][0])
    elif "P02" in want:
        c, w = rec_eq(before, s, "database")
        bad("applying the inverse changes does not restore the source (%s)" % w, cond=c)
    if "P06" in want:
        script(t, [x[2] for x in tr["inverse"]], s, bad, "down", known, tag)


def single_sql(before, sql, after, bad):
    """the statement of a change, executed, has the effect the change has on the snapshot"""
    db = pg.from_snapshot(before, strict=False)
    db.tolerate = {"alter-constraint-Unique", "alter-constraint-PrimaryKey", "alter-constraint-Check"}
    try:
        db.run(sql)
    except pg.SqlError as e:
        bad("statement %r is rejected: %s" % (sql, e.msg), e.code)
        return
    c, w = pg.db_eq(db, pg.from_snapshot(after, strict=False))
    bad("statement %r does not do what the change does (%s)" % (sql, w), "sql-meaning", cond=c)


def script(before, sqls, after, bad, what, known, tag):
    db = pg.from_snapshot(before, strict=True)
    db.tolerate = set(known)
    for sql in sqls:
        try:
            db.run(sql)
        except pg.SqlError as e:
            bad("%s script: statement %r fails on the server: %s" % (what, sql, e.msg), e.code)
            return
    for k in db.tolerated:
        tag("KNOWN:" + k)
    c, w = pg.db_eq(db, pg.from_snapshot(after, strict=True))
    bad("%s script does not leave the server as described (%s)" % (what, w), "script-result", cond=c)


def touched(rs, rt, chs, bad):
    """changes only concern objects that differ"""

    def flat(r):
        out = {}
        for n, sc in r["schemas"]:
            out[("schema", n)] = None
            for rn, x in sc["relations"]:
                if x["kind"] == "Table":
                    for c in x["columns"]:
                        out[("column", n, rn, c["name"])] = c
                    for cn, c in x["constraints"]:
                        out[("constraint", n, rn, cn)] = c
                    out[("relation", n, rn)] = {"kind": "Table"}
                else:
                    out[("relation", n, rn)] = x
            for fn, f in sc["functions"]:
                out[("function", n, fn)] = f
        return [(k, v) for k, v in out.items()]
    fs, ft = flat(rs), flat(rt)

    def lookup(l, key):
        for k, v in l:
            if len(k) == len(key) and k[0] == key[0] and all(pg.same(a, b) for a, b in zip(k[1:], key[1:])):
                return True, v
        return False, None
    for name, d in chs:
        if "schema_name" in d:
            key = ("schema", d["schema_name"])
        elif "constraint" in d:
            key = ("constraint", d["schema"], d["table"], d["constraint"])
        elif "column" in d:
            key = ("column", d["schema"], d["table"], d["column"])
        elif "index" in d:
            key = ("relation", d["schema"], d["index"])
        elif "sequence" in d:
            key = ("relation", d["schema"], d["sequence"])
        elif "view" in d:
            key = ("relation", d["schema"], d["view"])
        elif "function" in d:
            key = ("function", d["schema"], d["function"])
        elif "table" in d:
            key = ("relation", d["schema"], d["table"])
        else:
            continue
        ins, vs = lookup(fs, key)
        int_, vt = lookup(ft, key)
        if not ins and not int_:
            bad("%s concerns %r, which is in neither snapshot" % (name, key))
        if ins and int_:
            c, w = rec_eq(vs, vt, "") if vs is not None and vt is not None else (True, None)
            bad("%s concerns %r, which is the same in both snapshots" % (name, key), cond=z3not(c))


# ------------------------------------------------------------------ scenarios

PRES = ((0, 1), (1, 0), (1, 1))


def sc_columns(sn, n, b):
    """one table, n column slots"""
    m = sn.m
    s, t = sn.name("schema"), sn.name("table")
    cs, ct = [], []
    for i in range(n):
        ps, pt = PRES[m.choose(3, "presence")]
        nm = sn.name("col%d" % i)
        if ps:
            cs.append(sn.column(b, s, t, nm))
        if pt:
            ct.append(sn.column(b, s, t, nm))
    if len(ct) > 1 and m.choose(2, "order"):
        ct.reverse()
    S = sn.db(b, [(s, sn.schema(b, s, [(t, sn.table(b, s, t, cs, []))]))])
    T = sn.db(b, [(s, sn.schema(b, s, [(t, sn.table(b, s, t, ct, []))]))])
    return S, T


CK = (None, "PrimaryKey", "Unique", "Check", "ForeignKey")


def sc_constraints(sn, n, b, two=False):
    """a table with n constraint slots, each of any kind in source and target"""
    m = sn.m
    s, t, u = sn.name("schema"), sn.name("table"), sn.name("other")
    c0, c1 = sn.name("col0"), sn.name("col1")
    out = []
    kinds = [[CK[m.choose(5, "kind")] for _ in range(n)] for _ in range(2)]
    for k in kinds:
        if k.count("PrimaryKey") > 1:
            raise Infeasible()

    keyed = [k[:1] and k[0] in ("PrimaryKey", "Unique") for k in kinds]
    shape = m.choose(4 if all(keyed) else 3, "cols") if keyed[1] else 0
    # the key of slot 0: unchanged, another column, a column more, the same columns in another order
    first = [[c0, c1] if shape == 3 else [c0], [[c0], [c1], [c1, c0], [c1, c0]][shape]]
    for side in range(2):
        cons = []
        for i in range(n):
            k = kinds[side][i]
            if k is None:
                continue
            if k == "ForeignKey":
                tgt = (s, u, [c0])
                cc = [c1]
            else:
                tgt = None
                cc = first[side] if k != "Check" and i == 0 else [c0]
            cons.append((sn.name("con%d" % i), sn.constraint(b, k, s, t, sn.name("con%d" % i), cc, tgt)))
        colv = [sn.column(b, s, t, x, not_null=True, default=none(), data_type="int4") for x in (c0, c1)]
        other = sn.table(b, s, u, [sn.column(b, s, u, x, not_null=True, default=none(), data_type="int4") for x in (c0, c1)],
                         [(sn.name("opk"), b.wrap("Constraint", "PrimaryKey", b.mk("PrimaryKey", dict(
                             schema_name=s, table_name=u, name=sn.name("opk"), columns=sn.strs([c0]), deferrable=False,
                             initially_deferred=False))))])
        out.append(sn.db(b, [(s, sn.schema(b, s, [(t, sn.table(b, s, t, colv, cons)), (u, other)]))]))
    return out


def sc_foreign(sn, n, b):
    """a foreign key in source and target, each to any key of several tables of two schemas"""
    m = sn.m
    s, s2, t, u, v = sn.name("schema"), sn.name("schema2"), sn.name("table"), sn.name("other"), sn.name("other2")
    c0, c1 = sn.name("col0"), sn.name("col1")
    out = []
    one = [([x], y) for x in (c0, c1) for y in ((s, u, [c0]), (s, u, [c1]), (s, v, [c0]), (s2, u, [c0]))]
    two = [([c0, c1], (s, u, [c1, c0])), ([c1, c0], (s, u, [c1, c0])), ([c0, c1], (s, t, [c1, c0])), ([c1], (s, t, [c0]))]
    all_ = one + two + [None]
    ks = [all_[m.choose(len(all_), "fk")] for _ in range(2)]
    # the tables and keys that are referenced, the same in source and target
    need = [(s, t, [])]
    for k in ks:
        if k is None:
            continue
        sc, tb, cols = k[1]
        e = next((x for x in need if x[0] is sc and x[1] is tb), None)
        if e is None:
            e = (sc, tb, [])
            need.append(e)
        if not any(x is cols or [id(y) for y in x] == [id(y) for y in cols] for x in e[2]):
            e[2].append(cols)
    for side in range(2):
        k = ks[side]
        scs = []
        for sc, tb, keys in need:
            cons = []
            for i, cols in enumerate(keys):
                kn = sn.name("key%d" % i)
                cons.append((kn, b.wrap("Constraint", "Unique", b.mk("Unique", dict(
                    schema_name=sc, table_name=tb, name=kn, columns=sn.strs(cols), deferrable=False, initially_deferred=False)))))
            if tb is t and k:
                cons.append((sn.name("fk"), sn.constraint(b, "ForeignKey", s, t, sn.name("fk"), k[0], k[1])))
            e = next((x for x in scs if x[0] is sc), None)
            if e is None:
                e = (sc, [])
                scs.append(e)
            e[1].append((tb, sn.table(b, sc, tb, [sn.column(b, sc, tb, x, not_null=True, default=none(), data_type="int4")
                                                  for x in (c0, c1)], cons)))
        out.append(sn.db(b, [(sc, sn.schema(b, sc, r)) for sc, r in scs]))
    return out


RK = (None, "Table", "View", "Index", "Sequence")


def sc_relations(sn, n, b):
    """n relation slots of any kind in source and target, next to a table kept in both"""
    m = sn.m
    s, k = sn.name("schema"), sn.name("kept")
    col = sn.name("col0")
    kinds = [[RK[m.choose(5, "kind")] for _ in range(2)] for _ in range(n)]
    out = []
    for side in range(2):
        rels = [(k, sn.table(b, s, k, [sn.column(b, s, k, col, data_type="int4", default=none(), not_null=False)], []))]
        for i in range(n):
            r = sn.name("rel%d" % i)
            kd = kinds[i][side]
            if kd is None:
                continue
            if kd == "Table":
                v = sn.table(b, s, r, [sn.column(b, s, r, col, default=none())], [])
            elif kd == "View":
                v = sn.view(b, s, r)
            elif kd == "Index":
                # an index belongs to the kept table or to another slot's table
                own = [k] + [sn.name("rel%d" % j) for j in range(n) if kinds[j][side] == "Table"]
                v = sn.index(b, s, r, own[m.choose(len(own), "index.table")], 1 + m.choose(2, "keys"))
            else:
                own = [None, (k, col)] + [(sn.name("rel%d" % j), col) for j in range(n) if kinds[j][side] == "Table"]
                v = sn.sequence(b, s, r, own[m.choose(len(own), "owner")])
            rels.append((r, v))
        out.append(sn.db(b, [(s, sn.schema(b, s, rels))]))
    return out


def sc_functions(sn, n, b):
    m = sn.m
    s = sn.name("schema")
    out = [[], []]
    rel = m.choose(2, "namesake")
    for i in range(n):
        ps, pt = PRES[m.choose(3, "presence")]
        nm = sn.fname("fun%d" % i)
        if m.choose(2, "args"):
            nm = mks([nm, "(", sn.text(b, "args", "args"), ")"])
        elif rel and i == 0:
            pass
        for side, p in ((0, ps), (1, pt)):
            if p:
                out[side].append((nm, sn.function(b, s, nm)))
    dbs = []
    for side in range(2):
        rels = []
        if rel:
            # a relation that shares its name with a function
            n0 = sn.fname("fun0")
            if side == 0 or m.choose(2, "keep"):
                rels = [(n0, sn.table(b, s, n0, [sn.column(b, s, n0, sn.name("col0"), default=none())], []))]
        dbs.append(sn.db(b, [(s, sn.schema(b, s, rels, out[side]))]))
    return dbs


def sc_schemas(sn, n, b):
    """n schema slots; the objects of different schemas share their names"""
    m = sn.m
    r, f, c = sn.name("rel"), sn.fname("fun"), sn.name("col0")
    dbs = [[], []]
    for i in range(n):
        ps, pt = PRES[m.choose(3, "presence")]
        nm = sn.name("schema%d" % i)
        for side, p in ((0, ps), (1, pt)):
            if not p:
                continue
            rels, funs = [], []
            k = m.choose(4, "content") if i == 0 else m.choose(2, "content")
            if k == 1:
                rels.append((r, sn.table(b, nm, r, [sn.column(b, nm, r, c)], [])))
            elif k == 2:
                rels.append((r, sn.view(b, nm, r)))
            elif k == 3:
                funs.append((f, sn.function(b, nm, f)))
            dbs[side].append((nm, sn.schema(b, nm, rels, funs)))
    return [sn.db(b, x) for x in dbs]


def sc_depend(sn, n, b):
    """two tables that come, stay or go, with the objects that depend on them: a foreign key,
    its target's key, an index, an owned sequence, a view, a check"""
    m = sn.m
    s1 = sn.name("schema")
    cross = m.choose(2, "cross") if n != 2 else 0
    s2 = sn.name("schema2") if cross else s1
    t, u, c0, c1 = sn.name("table"), sn.name("target"), sn.name("col0"), sn.name("col1")
    pt = PRES[m.choose(3, "table")]
    pu = PRES[m.choose(3, "target")] if n != 2 else (0, 0)
    out = []
    for side in range(2):
        r1, r2 = [], []
        if pt[side]:
            cons = []
            if pu[side] and m.choose(2, "fk"):
                cons.append((sn.name("fk"), sn.constraint(b, "ForeignKey", s1, t, sn.name("fk"), [c1], (s2, u, [c0]))))
            # the second column comes and goes with its unique constraint
            two = pu[side] or m.choose(2, "col1")
            if two and m.choose(2, "unique"):
                cons.append((sn.name("uq"), sn.constraint(b, "Unique", s1, t, sn.name("uq"), [c1])))
            cols = [sn.column(b, s1, t, c0, default=none(), data_type="int4")]
            if two:
                cols.append(sn.column(b, s1, t, c1, default=none(), data_type="int4"))
            r1.append((t, sn.table(b, s1, t, cols, cons)))
            k = m.choose(4, "extra") if n != 1 else 0
            if k == 1:
                r1.append((sn.name("idx"), sn.index(b, s1, sn.name("idx"), t, 1)))
            elif k == 2:
                r1.append((sn.name("seq"), sn.sequence(b, s1, sn.name("seq"), (t, c0))))
            elif k == 3:
                r1.append((sn.name("view"), sn.view(b, s1, sn.name("view"))))
        if pu[side]:
            pk = b.wrap("Constraint", "PrimaryKey", b.mk("PrimaryKey", dict(
                schema_name=s2, table_name=u, name=sn.name("pk"), columns=sn.strs([c0]), deferrable=False,
                initially_deferred=False)))
            r2.append((u, sn.table(b, s2, u, [sn.column(b, s2, u, c0, not_null=True, default=none(), data_type="int4")],
                                   [(sn.name("pk"), pk)])))
        if cross:
            # the second schema exists only while it is needed
            scs = [(s1, sn.schema(b, s1, r1))]
            if r2:
                scs.append((s2, sn.schema(b, s2, r2)))
        else:
            scs = [(s1, sn.schema(b, s1, r1 + r2))]
        out.append(sn.db(b, scs))
    return out


SCEN = {
    "columns": (sc_columns, "one table of one schema; %(n)d column slots, each in source, target or both; all column attributes symbolic; target column order as in the source or reversed"),
    "constraints": (sc_constraints, "one table; %(n)d constraint slots of any kind (none, primary key, unique, check, foreign key) in source and in target; attributes symbolic; column lists of length 1-2"),
    "foreign": (sc_foreign, "a foreign key of a table, present or not in source and target, from one or two columns to any key of the table itself or of three other tables in two schemas"),
    "relations": (sc_relations, "one schema; %(n)d relation slots of any kind (none, table, view, index, sequence) in source and in target next to a table kept in both; attributes symbolic; index on / sequence owned by any table present"),
    "functions": (sc_functions, "one schema; %(n)d function slots with or without argument list; a table may share a function's name; attributes symbolic"),
    "schemas": (sc_schemas, "%(n)d schema slots in source, target or both; contents: nothing, table, view or function with the same name in every schema"),
    "depend": (sc_depend, "two tables in one or two schemas, each created, kept or dropped, with%(dep)s coming and going independently"),
}


DEP = (" a foreign key between them, a unique constraint and its column, an index, an owned sequence or a view",
       " a foreign key between them, a unique constraint and its column",
       " a unique constraint and its column, an index, an owned sequence or a view (no foreign key)")


def describe(name, n, plain):
    return SCEN[name][1] % dict(n=n, dep=DEP[min(n, 2)]) + ("; all attribute values fixed" if plain else "")


def harness(name, n, want, plain=False):
    f = SCEN[name][0]

    def h(m):
        sn = getattr(m, "snap", None)
        if sn is None:
            sn = m.snap = Snap(m)
        b = gen.B(m, sn.T)
        sn.plain = plain
        s, t = f(sn, n, b)
        s1, t1 = sn.copy(s), sn.copy(t)

        def info(model):
            c, a = gen.Conc(m, model), gen.Conc(m, model, own=True)
            return dict(source=c.val(s1, sn.DBT), target=c.val(t1, sn.DBT),
                        alt=dict(source=a.val(s1, sn.DBT), target=a.val(t1, sn.DBT)))
        m.sampler = info

        def bad(msg, code=None, cond=False):
            m.require(cond, msg, info, code)
        judge(trace(sn, s, t, want), want, bad, m.known_codes, m.tags.append)
    h.__name__ = name
    return h
