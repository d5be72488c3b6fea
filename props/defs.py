"""Definitions files together with what they mean: each method gives what stands in a file and the record (shape of
pg.rec) of the object it describes."""
from runs import Map
from snap import WORDS, TEXT
from values import *

I64 = 64
KIND_CS = {"expr": TEXT, "type": (WORDS | {40, 41, 44, 91, 93}) - {61, 33}, "query": TEXT - {59}, "match": WORDS, "rule": WORDS,
           "language": WORD, "method": WORD, "volatility": WORDS, "body": TEXT, "args": TEXT - {40, 41}}
PHRASES = {"volatility": ("VOLATILE", "STABLE", "IMMUTABLE"), "match": ("SIMPLE", "FULL", "PARTIAL"),
           "rule": ("NO ACTION", "RESTRICT", "CASCADE", "SET NULL", "SET DEFAULT")}
LIMITS = {"int2": (-(1 << 15), (1 << 15) - 1), "int4": (-(1 << 31), (1 << 31) - 1), "int8": (-(1 << 63), (1 << 63) - 1)}


def signed(x):
    return x - (1 << 64) if x >= 1 << 63 else x


class Defs:
    """style: 0 the usual notation, 1 other spellings of the same"""

    def __init__(self, m, g, style=0):
        self.m, self.g, self.style = m, g, style

    def name(self, hint="n", not_first="", **kw):
        first = None
        cs = kw.get("cs", ALLCH)
        if not_first:
            first = cs - {ord(c) for c in not_first} - {ord(c.upper()) for c in not_first} - WS
        return self.g.obj(hint, trim=True, grp="names", kind="name", first=first, **kw)

    def text(self, kind):
        if kind in PHRASES:
            a = self.m.atom(self.m.fresh(kind), cs=KIND_CS[kind], kind=kind, trim=True)
            self.m.add(z3.Or([a.id == lit_id(x) for x in PHRASES[kind]]))
            return S((a,))
        return self.m.text(self.m.fresh(kind), cs=KIND_CS[kind], kind=kind, trim=kind != "body")

    def opt(self, label):
        return self.m.choose(2, label) == 1

    # ---- notation
    def key(self, kw, name=None):
        if self.style:
            kw = kw.upper()
        if name is None:
            return kw
        return mks([kw, "  " if self.style else " ", name, " " if self.style else ""])

    def listing(self, l):
        return l[0] if len(l) == 1 and self.style == 0 else list(l)

    def entries(self, l):
        return Map(l[::-1] if self.style else l)

    # ---- objects: (key, document), record
    def column(self, n, not_null=None, default=None, type=None):
        t = self.text("type") if type is None else type
        nn = self.opt("not null") if not_null is None else not_null
        d = (self.text("expr") if self.opt("default") else None) if default is None else default or None
        s = [t] + (["!"] if nn else [])
        if d is not None:
            s += ["=" if self.style else " = ", d]
        return (self.key("column", n), mks(s)), dict(name=n, data_type=t, not_null=nn, default=d)

    def deferr(self, full):
        """entries and values of deferrable / initially deferred"""
        e, r = [], dict(deferrable=False, initially_deferred=False)
        if full:
            m = self.m
            k = m.choose(3, "deferrable")
            if k:
                d = r["deferrable"] = z3.Bool(m.fresh("deferrable"))
                e.append((self.key("deferrable"), d))
            if k == 2:
                i = r["initially_deferred"] = z3.Bool(m.fresh("initially_deferred"))
                e.append((self.key("initially deferred"), i))
                m.add(z3.Implies(i, d))
        return e, r

    def key_constraint(self, kind, n, cols, full=True):
        e, r = self.deferr(full)
        r.update(kind=kind, name=n, columns=list(cols))
        kw = {"PrimaryKey": "primary key", "Unique": "unique"}[kind]
        return (self.key("constraint", n), self.entries([(self.key(kw), self.listing(cols))] + e)), r

    def check(self, n):
        x = self.text("expr")
        return (self.key("constraint", n), self.entries([(self.key("check"), x)])), dict(
            kind="Check", name=n, expression=x, deferrable=False, initially_deferred=False)

    def foreign_key(self, n, cols, target, full=True, other=False):
        """target: schema, table, columns; other: the schema is written out"""
        e, r = self.deferr(full)
        r.update(kind="ForeignKey", name=n, columns=list(cols), target_schema=target[0], target_table=target[1],
                 target_columns=list(target[2]), match_option="SIMPLE", update_rule="NO ACTION", delete_rule="NO ACTION")
        for kw, f, kind in (("match", "match_option", "match"), ("on update", "update_rule", "rule"), ("on delete", "delete_rule", "rule")):
            if full and self.opt(kw):
                r[f] = self.text(kind)
                e.append((self.key(kw), r[f]))
        ref = mks([target[0], ".", target[1]]) if other else target[1]
        return (self.key("constraint", n), self.entries(
            [(self.key("foreign key"), self.listing(cols)), (self.key("references", ref), self.listing(target[2]))] + e)), r

    def table(self, n, cols, cons):
        return (self.key("table", n), self.entries([c for c, _ in cols] + [c for c, _ in cons])), dict(
            kind="Table", name=n, columns=[c for _, c in cols], constraints=[(c["name"], c) for _, c in cons])

    def view(self, n):
        q = self.text("query")
        return (self.key("view", n), Map([(self.key("as"), q)])), dict(kind="View", name=n, query=q)

    def index(self, n, table, keys=1, full=True):
        ks = [self.text("expr") for _ in range(keys)]
        e, r = [], dict(kind="Index", name=n, table_name=table, unique=False, method="btree", key_expressions=ks)
        if full and self.opt("unique"):
            r["unique"] = z3.Bool(self.m.fresh("unique"))
            e.append((self.key("unique"), r["unique"]))
        if full and self.opt("using"):
            r["method"] = self.text("method")
            e.append((self.key("using"), r["method"]))
        return (self.key("index", n), self.entries([(self.key("on", table), self.listing(ks))] + e)), r

    def num(self, hint):
        return z3.BitVec(self.m.fresh(hint), I64)

    def sequence(self, n, owner=None, full=True):
        m = self.m
        e = []
        t = "int8"
        limits = 0
        if full:
            k = m.choose(4 if full is True else 2, "as")
            if k > 0:
                t = ("", "int2", "int4", "int8")[k]
                e.append((self.key("as"), t))
            limits = m.choose(2, "limits")
        r = dict(kind="Sequence", name=n, data_type=t, increment=1, cache=1, cycle=False, owned_by_table=None, owned_by_column=None)
        up = True
        if full and self.opt("increment"):
            i = r["increment"] = self.num("increment")
            m.add(i != 0)
            e.append((self.key("increment"), i))
            up = m.branch(i > 0)
        r["min_value"], r["max_value"] = (1, LIMITS[t][1]) if up else (LIMITS[t][0], -1)
        if limits:
            r["min_value"], r["max_value"] = self.num("min"), self.num("max")
            e += [(self.key("minvalue"), r["min_value"]), (self.key("maxvalue"), r["max_value"])]
        r["start"] = r["min_value"] if up else r["max_value"]
        if full and self.opt("rest"):
            r["start"], r["cache"], r["cycle"] = self.num("start"), self.num("cache"), z3.Bool(m.fresh("cycle"))
            e += [(self.key("start"), r["start"]), (self.key("cache"), r["cache"]), (self.key("cycle"), r["cycle"])]
        if owner is not None:
            r["owned_by_table"], r["owned_by_column"] = owner
            e.append((self.key("owned by", owner[0]), owner[1]))
        return (self.key("sequence", n), self.entries(e)), r

    def function(self, n, full=True):
        b = self.text("body")
        e = [(self.key("as"), b)]
        r = dict(name=n, body=b, language="SQL", returns="void", volatility="VOLATILE")
        for kw, kind in (("language", "language"), ("returns", "type"), ("volatility", "volatility")):
            if full and self.opt(kw):
                r[kw] = self.text(kind)
                e.append((self.key(kw), r[kw]))
        return (self.key("function", n), self.entries(e)), r

    def fname(self, args=False):
        a = self.g.obj("f", trim=True, grp="fnames", kind="name", cs=ALLCH - {40})
        if not args:
            return a
        return mks([a, "(", self.m.text(self.m.fresh("args"), cs=KIND_CS["args"], kind="args", trim=True), ")"])

    def schema(self, n, rels, funs=()):
        return (self.key("schema", n), Map([x for x, _ in list(rels) + list(funs)])), dict(
            name=n, relations=[(r["name"], r) for _, r in rels], functions=[(r["name"], r) for _, r in funs])


def snapshot(*schemas):
    return dict(schemas=[(s["name"], s) for s in schemas])
