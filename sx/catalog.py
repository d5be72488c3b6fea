"""PostgreSQL's system catalogs for a described database, and the SELECT statements over them: joins, subqueries,
aggregates, CASE, casts and the functions that render catalog entries as SQL.  Works on concrete and symbolic names."""
import itertools
import z3
from values import *
import core
import strs
from pg import SqlError, unescape


def M():
    return core.M


# ------------------------------------------------------------------ tables

CATALOG = {
    "pg_namespace": dict(oid="oid", nspname="text", nspowner="oid"),
    "pg_class": dict(oid="oid", relname="text", relnamespace="oid", relkind="text", relowner="oid", reloptions="text[]", relam="oid",
                     reloftype="oid", relispartition="bool", relpersistence="text"),
    "pg_attribute": dict(attrelid="oid", attname="text", attnum="int16", atttypid="oid", atttypmod="int", attnotnull="bool",
                         attisdropped="bool", attgenerated="text", attidentity="text", atthasdef="bool"),
    "pg_attrdef": dict(oid="oid", adrelid="oid", adnum="int16", adbin="text"),
    "pg_type": dict(oid="oid", typname="text", typnamespace="oid", typelem="oid", typarray="oid", typtype="text", typnotnull="bool", typlen="int16",
                    typcategory="text", typowner="oid", typrelid="oid", typbasetype="oid"),
    "pg_constraint": dict(oid="oid", conname="text", connamespace="oid", contype="text", condeferrable="bool", condeferred="bool",
                          conrelid="oid", contypid="oid", conindid="oid", confrelid="oid", conkey="int16[]", confkey="int16[]",
                          confupdtype="text", confdeltype="text", confmatchtype="text", conbin="text", convalidated="bool",
                          conislocal="bool", conparentid="oid"),
    "pg_index": dict(indexrelid="oid", indrelid="oid", indnatts="int16", indnkeyatts="int16", indisunique="bool", indisprimary="bool",
                     indisvalid="bool", indkey="int16[]", indoption="int16[]", indexprs="text", indpred="text"),
    "pg_am": dict(oid="oid", amname="text", amtype="text"),
    "pg_sequence": dict(seqrelid="oid", seqtypid="oid", seqstart="int8", seqincrement="int8", seqmax="int8", seqmin="int8", seqcache="int8",
                        seqcycle="bool"),
    "pg_depend": dict(classid="oid", objid="oid", objsubid="int", refclassid="oid", refobjid="oid", refobjsubid="int", deptype="text"),
    "pg_proc": dict(oid="oid", proname="text", pronamespace="oid", prosrc="text", prolang="oid", prorettype="oid", proretset="bool",
                    provolatile="text", pronargs="int16", prokind="text", proowner="oid"),
    "pg_language": dict(oid="oid", lanname="text"),
    "pg_trigger": dict(oid="oid", tgrelid="oid", tgtype="int16", tgisinternal="bool"),
    "pg_inherits": dict(inhrelid="oid", inhparent="oid"),
}
CLASS_OID = {"pg_type": 1247, "pg_attribute": 1249, "pg_proc": 1255, "pg_class": 1259, "pg_attrdef": 2604, "pg_constraint": 2606,
             "pg_namespace": 2615, "pg_sequence": 2224, "pg_index": 2610}
NUMERIC = ("oid", "int16", "int", "int8")


class Builder:
    """the catalogs of a database, as plain rows"""

    def __init__(self):
        self.t = {k: [] for k in CATALOG}
        self.x = {}             # texts that only functions see: {"kind:oid": text}
        self.n = 16384
        self.low = 100          # objects that come with a database have oids below 16384
        self.types = {}
        for n, o in (("pg_catalog", 11), ("information_schema", 13212), ("public", 2200)):
            self.add("pg_namespace", oid=o, nspname=n, nspowner=10)
        self.am = {a: self.add("pg_am", amname=a, amtype="i") for a in ("btree",)}
        self.lang = {}

    def oid(self):
        self.n += 1
        return self.n

    def add(self, table, **row):
        if "oid" in CATALOG[table] and "oid" not in row:
            if table in ("pg_type", "pg_am", "pg_language"):
                self.low += 1
                row["oid"] = self.low
            else:
                row["oid"] = self.oid()
        r = {k: row.pop(k, None) for k in CATALOG[table]}
        assert not row, row
        self.t[table].append(r)
        return r.get("oid")

    def namespace(self, n):
        return self.add("pg_namespace", nspname=n, nspowner=10)

    def ns(self, n):
        for r in self.t["pg_namespace"]:
            if r["nspname"] is n or (r["nspname"].__class__ is str and r["nspname"] == n):
                return r["oid"]
        return self.namespace(n)

    def type(self, name, shown=None, elem=0, len_=4, category="U"):
        """oid of the type with this internal name; shown: what format_type gives"""
        k = (str(name), elem)
        if k not in self.types:
            o = self.types[k] = self.add("pg_type", typname=name, typnamespace=self.ns("pg_catalog"), typelem=elem, typarray=0, typtype="b",
                                         typnotnull=False, typlen=len_, typcategory=category, typowner=10, typrelid=0, typbasetype=0)
            self.x["type:%d" % o] = name if shown is None else shown
        return self.types[k]

    def cls(self, ns, name, kind, am=0):
        return self.add("pg_class", relname=name, relnamespace=ns, relkind=kind, relowner=10, relam=am, reloftype=0, relispartition=False,
                        relpersistence="p")

    def attribute(self, rel, num, name, type_, typmod=-1, notnull=False, dropped=False, default=None, generated=""):
        self.add("pg_attribute", attrelid=rel, attname=name, attnum=num, atttypid=type_, atttypmod=typmod, attnotnull=notnull,
                 attisdropped=dropped, attgenerated=generated, attidentity="", atthasdef=default is not None)
        if default is not None:
            self.add("pg_attrdef", adrelid=rel, adnum=num, adbin=default)

    def depend(self, c, o, rc, ro, sub=0, type_="n"):
        self.add("pg_depend", classid=CLASS_OID[c], objid=o, objsubid=0, refclassid=CLASS_OID[rc], refobjid=ro, refobjsubid=sub, deptype=type_)

    def method(self, a):
        k = str(a)
        if k not in self.am:
            self.am[k] = self.add("pg_am", amname=a, amtype="i")
        return self.am[k]

    def index(self, ns, name, rel, names, nums, unique, method="btree", options=None, exprs=None, primary=False):
        """nums: attribute numbers, 0 for an expression; names: of the columns of the index"""
        o = self.cls(ns, name, "i", self.method(method))
        for i, (a, n) in enumerate(zip(names, nums)):
            self.attribute(o, i + 1, a if n else "expr", self.type("int4", "integer"))
        self.add("pg_index", indexrelid=o, indrelid=rel, indnatts=len(nums), indnkeyatts=len(nums), indisunique=unique, indisprimary=primary,
                 indisvalid=True, indkey=list(nums), indoption=list(options or [0] * len(nums)), indexprs=exprs)
        return o

    def constraint(self, ns, name, kind, rel, **kw):
        row = dict(condeferrable=False, condeferred=False, contypid=0, conindid=0, confrelid=0, confupdtype=" ", confdeltype=" ",
                   confmatchtype=" ", convalidated=True, conislocal=True, conparentid=0)
        row.update(kw)
        return self.add("pg_constraint", conname=name, connamespace=ns, contype=kind, conrelid=rel, **row)

    def done(self):
        return dict(tables=self.t, texts=self.x)


# ------------------------------------------------------------------ reading SELECT statements

SYMS = ("::", "<>", "!=", "<=", ">=", "||", "!~~*", "!~~", "~~*", "~~", "(", ")", "[", "]", ",", ".", "=", "<", ">", "+", "-", "*", "/", "&", "|", ";", "%")
STOP = {"FROM", "WHERE", "ON", "JOIN", "LEFT", "RIGHT", "INNER", "CROSS", "FULL", "ORDER", "GROUP", "LIMIT", "OFFSET", "AS", "WITH", "UNION", "AND", "OR", "ESCAPE", "RETURNING", "SET", "VALUES", "FETCH", "FOR", "ILIKE", "HAVING", "INTERSECT", "EXCEPT", "DEFAULT",
        "NOT", "IN", "IS", "THEN", "WHEN", "ELSE", "END", "ASC", "DESC", "USING", "LATERAL", "HAVING", "LIKE", "BETWEEN", "NULLS", "FILTER"}


def lex(s):
    """tokens (kind, value); symbolic parts may stand inside quotes, whole numbers anywhere"""
    st = []
    for x in sparts(s):
        if x.__class__ is str:
            st.extend(x)
        else:
            st.append(x)
    out, i, n = [], 0, len(st)

    def at(lit, i):
        return st[i:i + len(lit)] == list(lit) if all(x.__class__ is str for x in st[i:i + len(lit)]) else False

    def isw(j, more=""):
        return j < n and st[j].__class__ is str and (st[j].isalnum() or st[j] in "_" + more)
    while i < n:
        c = st[i]
        if c.__class__ is not str:
            if c.__class__ is Num:
                out.append(("num", c.e if hasattr(c, "e") else c.v))
                i += 1
                continue
            if c.__class__ is Atom and c.kind != "name":
                raise Opaque("SQL: statement with a text %r in it" % (c,), c)
            raise SqlError("injection", "name %r is used without quoting" % (c,))
        if c in " \t\r\n":
            i += 1
        elif at("--", i):
            while i < n and st[i] != "\n":
                i += 1
        elif at("/*", i):
            i += 2
            while not at("*/", i):
                i += 1
                if i >= n:
                    raise SqlError("42601", "unterminated comment")
            i += 2
        elif c in "'\"":
            j, t = i + 1, []
            while True:
                if j >= n:
                    raise SqlError("42601", "unterminated quote")
                x = st[j]
                if x.__class__ is Atom:
                    x = unescape(x, c, "identifier" if c == '"' else "string")
                elif x.__class__ is Ch:
                    if M().branch(x.e == ord(c)):
                        x = c
                elif x.__class__ is str and x == c:
                    pass
                if x.__class__ is str and x == c and st[j].__class__ is not Atom:
                    y = st[j + 1] if j + 1 < n else None
                    if y.__class__ is str and y == c or y.__class__ is Ch and M().branch(y.e == ord(c)):
                        t.append(c)
                        j += 2
                        continue
                    break
                t.append(x)
                j += 1
            v = mks(t)
            if c == '"' and v == "":
                raise SqlError("42601", "zero-length identifier")
            out.append(("str" if c == "'" else "id", v))
            i = j + 1
        elif c == "$" and i + 1 < n and st[i + 1].__class__ is str and st[i + 1].isdigit():
            j = i + 1
            while j < n and st[j].__class__ is str and st[j].isdigit():
                j += 1
            out.append(("param", int("".join(st[i + 1:j]))))
            i = j
        elif c == "$":
            j = i + 1
            while isw(j):
                j += 1
            if not (j < n and st[j] == "$"):
                raise SqlError("42601", "syntax error at $")
            tag = "".join(st[i:j + 1])
            k = j + 1
            while not at(tag, k):
                k += 1
                if k >= n:
                    raise SqlError("42601", "unterminated dollar quote")
            for x in st[j + 1:k]:
                if x.__class__ is Atom and ord("$") in x.cs:
                    raise SqlError("injection", "text %r may end the dollar quoting" % (x,))
            out.append(("str", mks(st[j + 1:k])))
            i = k + len(tag)
        elif c.isdigit():
            j = i
            while j < n and st[j].__class__ is str and st[j].isdigit():
                j += 1
            out.append(("num", int("".join(st[i:j]))))
            i = j
        elif c.isalpha() or c == "_":
            j = i
            while isw(j, "$"):
                j += 1
            w = "".join(st[i:j])
            if w.upper() == "E" and j < n and st[j] == "'":
                raise Unsupported("SQL: escape string")
            out.append(("w", w))
            i = j
        else:
            for y in SYMS:
                if at(y, i):
                    out.append(("s", y))
                    i += len(y)
                    break
            else:
                raise SqlError("42601", "syntax error at %r" % (st[i:i + 10],))
    return out


class Parser:
    def __init__(self, s):
        self.t, self.i = lex(s), 0
        self.ctes = {}

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else ("end", None)

    def is_kw(self, *ws):
        return all(self.peek(k)[0] == "w" and self.peek(k)[1].upper() == w for k, w in enumerate(ws))

    def kw(self, *ws):
        if self.is_kw(*ws):
            self.i += len(ws)
            return True
        return False

    def sym(self, y):
        if self.peek() == ("s", y):
            self.i += 1
            return True
        return False

    def need(self, y):
        if not self.sym(y):
            raise SqlError("42601", "expected %r at %r" % (y, self.t[self.i:self.i + 4]))

    def needkw(self, w):
        if not self.kw(w):
            raise SqlError("42601", "expected %s at %r" % (w, self.t[self.i:self.i + 4]))

    def ident(self, any_=False):
        k, v = self.peek()
        if k == "id":
            self.i += 1
            return v
        if k == "w" and (any_ or v.upper() not in STOP):
            self.i += 1
            return v.lower()
        raise SqlError("42601", "name expected at %r" % (self.t[self.i:self.i + 4],))

    def alias(self):
        if self.kw("AS"):
            return self.ident(True)
        k, v = self.peek()
        if k == "id" or (k == "w" and v.upper() not in STOP):
            return self.ident()
        return None

    # ---- statements
    def statement(self):
        q = self.select()
        self.sym(";")
        if self.peek()[0] != "end":
            raise SqlError("42601", "syntax error at %r" % (self.t[self.i:self.i + 4],))
        return q

    def is_select(self):
        return self.is_kw("SELECT") or self.is_kw("WITH")

    def select(self):
        if self.kw("WITH"):
            rec = self.kw("RECURSIVE")
            while True:
                name, cols = self.ident(), None
                if self.sym("("):
                    cols = [self.ident(True)]
                    while self.sym(","):
                        cols.append(self.ident(True))
                    self.need(")")
                self.needkw("AS")
                if self.kw("NOT", "MATERIALIZED") or self.kw("MATERIALIZED"):
                    pass
                self.need("(")
                if rec:
                    self.ctes[name] = (cols, None)
                q = self.select()
                self.need(")")
                self.ctes[name] = (cols, q)
                if not self.sym(","):
                    break
        q = self.core()
        union = []
        while self.kw("UNION"):
            all_ = self.kw("ALL")
            self.kw("DISTINCT")
            union.append((all_, self.core()))
        if self.is_kw("EXCEPT") or self.is_kw("INTERSECT"):
            raise Unsupported("SQL: EXCEPT, INTERSECT")
        if self.kw("ORDER"):
            q["order"] = self.order()
        while True:
            if self.kw("LIMIT"):
                q["limit"] = None if self.kw("ALL") else self.expr()
            elif self.kw("OFFSET"):
                q["offset"] = self.expr()
                self.kw("ROWS") or self.kw("ROW")
            elif self.kw("FETCH"):
                self.kw("FIRST") or self.kw("NEXT")
                q["limit"] = ("const", 1, "int") if self.is_kw("ROW") or self.is_kw("ROWS") else self.expr()
                self.kw("ROWS") or self.kw("ROW")
                self.needkw("ONLY")
            else:
                break
        if self.kw("FOR"):
            if self.kw("NO"):
                self.needkw("KEY")
            self.kw("KEY")
            self.kw("UPDATE") or self.kw("SHARE")
            self.kw("NOWAIT") or self.kw("SKIP", "LOCKED")
        q["union"] = union
        return q

    def core(self):
        if self.sym("("):
            q = self.select()
            self.need(")")
            return q
        self.needkw("SELECT")
        distinct = self.kw("DISTINCT")
        if distinct and self.is_kw("ON"):
            raise Unsupported("SQL: DISTINCT ON")
        items = []
        while True:
            e = self.expr()
            items.append((e, self.alias()))
            if not self.sym(","):
                break
        frm = where = having = None
        group = []
        if self.kw("FROM"):
            frm = self.join_tree()
            while self.sym(","):
                frm = ("join", "cross", frm, self.join_tree(), None)
        if self.kw("WHERE"):
            where = self.expr()
        if self.kw("GROUP"):
            self.needkw("BY")
            group = [self.expr()]
            while self.sym(","):
                group.append(self.expr())
        if self.kw("HAVING"):
            having = self.expr()
        return dict(items=items, frm=frm, where=where, order=[], limit=None, offset=None, distinct=distinct, group=group, having=having, union=[])

    def table_ref(self, schema, name):
        """the table a name in FROM stands for"""
        if schema is not None and schema not in ("pg_catalog", "information_schema"):
            raise SqlError("42P01", "relation %s.%s does not exist" % (schema, name))
        return name

    def order(self):
        self.needkw("BY")
        out = []
        while True:
            e = self.expr()
            desc = self.kw("DESC")
            if not desc:
                self.kw("ASC")
            if self.kw("NULLS"):
                if not self.kw("FIRST"):
                    self.needkw("LAST")
            out.append((e, desc))
            if not self.sym(","):
                return out

    def join_tree(self):
        l = self.primary()
        while True:
            if self.kw("CROSS", "JOIN"):
                l = ("join", "cross", l, self.primary(), None)
                continue
            kind = None
            if self.kw("LEFT", "OUTER", "JOIN") or self.kw("LEFT", "JOIN"):
                kind = "left"
            elif self.kw("INNER", "JOIN") or self.kw("JOIN"):
                kind = "inner"
            elif self.is_kw("RIGHT") or self.is_kw("FULL"):
                raise Unsupported("SQL: RIGHT/FULL JOIN")
            if kind is None:
                return l
            r = self.primary()
            # "a JOIN b JOIN c ON .. ON ..": the inner join first
            while not self.is_kw("ON") and not self.is_kw("USING") and (self.is_kw("JOIN") or self.is_kw("LEFT") or self.is_kw("INNER")):
                k2 = "left" if self.kw("LEFT", "OUTER", "JOIN") or self.kw("LEFT", "JOIN") else "inner"
                if k2 == "inner" and not self.kw("INNER", "JOIN"):
                    self.needkw("JOIN")
                r2 = self.primary()
                self.needkw("ON")
                r = ("join", k2, r, r2, self.expr())
            if self.is_kw("USING"):
                raise Unsupported("SQL: JOIN USING")
            self.needkw("ON")
            l = ("join", kind, l, r, self.expr())

    def primary(self):
        lateral = self.kw("LATERAL")
        if self.sym("("):
            if self.is_select():
                q = self.select()
                self.need(")")
                return ("sub", q, self.alias(), bool(lateral))
            j = self.join_tree()
            self.need(")")
            return j
        self.kw("ONLY")
        a, sch = self.ident(), None
        if self.sym("."):
            sch, a = a, self.ident()
        if self.sym("("):
            args = []
            if not self.sym(")"):
                args.append(self.expr())
                while self.sym(","):
                    args.append(self.expr())
                self.need(")")
            ordi = self.kw("WITH", "ORDINALITY")
            al = self.alias()
            cols = None
            if self.sym("("):
                cols = [self.ident(True)]
                while self.sym(","):
                    cols.append(self.ident(True))
                self.need(")")
            return ("func", a, args, ordi, al or a, cols)
        if sch is None and a in self.ctes:
            return ("cte", a, self.alias() or a)
        t = self.table_ref(sch, a)
        return ("table", t, self.alias() or a)

    # ---- expressions
    def expr(self):
        l = self.and_()
        while self.kw("OR"):
            l = ("or", l, self.and_())
        return l

    def and_(self):
        l = self.not_()
        while self.kw("AND"):
            l = ("and", l, self.not_())
        return l

    def not_(self):
        if self.kw("NOT"):
            return ("not", self.not_())
        return self.is_()

    def is_(self):
        l = self.cmp()
        while True:
            if self.kw("IS"):
                n = self.kw("NOT")
                if self.kw("NULL"):
                    l = ("isnull", l, n)
                elif self.kw("TRUE"):
                    l = ("istrue", l, True, n)
                elif self.kw("FALSE"):
                    l = ("istrue", l, False, n)
                elif self.kw("DISTINCT"):
                    self.needkw("FROM")
                    l = ("distinct", l, self.cmp(), n)
                else:
                    raise SqlError("42601", "syntax error after IS")
            else:
                return l

    def cmp(self):
        l = self.other()
        while True:
            k, v = self.peek()
            if k == "s" and v in ("=", "<>", "!=", "<", ">", "<=", ">="):
                self.i += 1
                if self.is_kw("ANY") or self.is_kw("SOME") or self.is_kw("ALL"):
                    q = "all" if self.is_kw("ALL") else "any"
                    self.i += 1
                    self.need("(")
                    if self.is_select():
                        a = ("array_sub", self.select())
                    else:
                        a = self.expr()
                    self.need(")")
                    l = (q, v, l, a)
                else:
                    l = ("cmp", v, l, self.other())
                continue
            n = self.is_kw("NOT") and self.peek(1)[0] == "w" and self.peek(1)[1].upper() in ("IN", "BETWEEN", "LIKE", "ILIKE", "SIMILAR")
            if n:
                self.i += 1
            if self.kw("IN"):
                self.need("(")
                if self.is_select():
                    a = ("array_sub", self.select())
                else:
                    xs = [self.expr()]
                    while self.sym(","):
                        xs.append(self.expr())
                    a = ("array", xs)
                self.need(")")
                l = ("any", "=", l, a)
            elif self.kw("BETWEEN"):
                sy = self.kw("SYMMETRIC")
                a = self.other()
                self.needkw("AND")
                x, b = l, self.other()
                l = ("and", ("cmp", ">=", x, a), ("cmp", "<=", x, b))
                if sy:
                    l = ("or", l, ("and", ("cmp", ">=", x, b), ("cmp", "<=", x, a)))
            elif self.is_kw("LIKE") or self.is_kw("ILIKE") or k == "s" and v in ("~~", "~~*", "!~~", "!~~*"):
                ci = self.is_kw("ILIKE") or v.endswith("*")
                neg = v.__class__ is str and v[0] == "!"
                self.i += 1
                pat, esc = self.other(), ("const", "\\", "text")
                if self.kw("ESCAPE"):
                    esc = self.other()
                l = ("like", l, pat, esc, ci)
                if neg:
                    l = ("not", l)
            elif self.is_kw("SIMILAR"):
                raise Unsupported("SQL: SIMILAR TO")
            else:
                return l
            if n:
                l = ("not", l)

    def other(self):
        l = self.sum()
        while self.peek()[0] == "s" and self.peek()[1] in ("||", "&", "|"):
            op = self.peek()[1]
            self.i += 1
            l = ("op", op, l, self.sum())
        return l

    def sum(self):
        l = self.prod()
        while self.peek()[0] == "s" and self.peek()[1] in ("+", "-"):
            op = self.peek()[1]
            self.i += 1
            l = ("op", op, l, self.prod())
        return l

    def prod(self):
        l = self.unary()
        while self.peek()[0] == "s" and self.peek()[1] in ("*", "/", "%") and self.peek(1) not in (("s", ","), ("w", "FROM")):
            op = self.peek()[1]
            self.i += 1
            l = ("op", op, l, self.unary())
        return l

    def unary(self):
        if self.sym("-"):
            return ("neg", self.unary())
        return self.postfix()

    def postfix(self):
        e = self.atom()
        while True:
            if self.sym("::"):
                e = ("cast", e, self.type_name())
            elif self.sym("["):
                i = self.expr()
                self.need("]")
                e = ("item", e, i)
            else:
                return e

    def type_name(self):
        n = self.ident()
        if self.sym("."):
            n = self.ident()
        if n in ("double", "character"):
            self.kw("PRECISION") or self.kw("VARYING")
        if self.sym("("):
            self.expr()
            self.need(")")
        if self.sym("["):
            self.need("]")
            n += "[]"
        return n

    def atom(self):
        k, v = self.peek()
        if k == "str":
            self.i += 1
            return ("const", v, "text")
        if k == "num":
            self.i += 1
            return ("const", v, "int")
        if k == "param":
            self.i += 1
            return ("param", v)
        if self.sym("("):
            if self.is_select():
                q = self.select()
                self.need(")")
                return ("scalar", q)
            e = self.expr()
            self.need(")")
            return e
        if self.sym("*"):
            return ("star",)
        if k == "w":
            u = v.upper()
            if u in ("NULL", "TRUE", "FALSE"):
                self.i += 1
                return ("const", {"NULL": None, "TRUE": True, "FALSE": False}[u], {"NULL": "text"}.get(u, "bool"))
            if u == "CASE":
                self.i += 1
                subj = None if self.is_kw("WHEN") else self.expr()
                arms, els = [], ("const", None, "text")
                while self.kw("WHEN"):
                    c = self.expr()
                    self.needkw("THEN")
                    arms.append((("cmp", "=", subj, c) if subj is not None else c, self.expr()))
                if self.kw("ELSE"):
                    els = self.expr()
                self.needkw("END")
                return ("case", arms, els)
            if u == "EXISTS" and self.peek(1) == ("s", "("):
                self.i += 2
                q = self.select()
                self.need(")")
                return ("exists", q)
            if u in ("CURRENT_TIMESTAMP", "LOCALTIMESTAMP", "CURRENT_SCHEMA", "CURRENT_USER") and self.peek(1) != ("s", "("):
                self.i += 1
                return ("call", u.lower(), [], [], False)
            if u == "DEFAULT":
                self.i += 1
                return ("default",)
            if u == "ARRAY":
                self.i += 1
                if self.sym("("):
                    q = self.select()
                    self.need(")")
                    return ("array_sub", q)
                self.need("[")
                xs = []
                if not self.sym("]"):
                    xs.append(self.expr())
                    while self.sym(","):
                        xs.append(self.expr())
                    self.need("]")
                return ("array", xs)
            if u == "CAST" and self.peek(1) == ("s", "("):
                self.i += 2
                e = self.expr()
                self.needkw("AS")
                t = self.type_name()
                self.need(")")
                return ("cast", e, t)
        a = self.ident(k == "w" and self.peek(1) in (("s", "("), ("s", ".")))
        if self.sym("."):
            if self.sym("*"):
                return ("star", a)
            b = self.ident(True)
            if self.peek() == ("s", "(") and a.__class__ is str and a == "pg_catalog":
                a = b
            else:
                if self.sym("."):
                    b, c = self.ident(True), b
                    self.table_ref(a, c)
                    a = c
                return ("col", a, b)
        if self.sym("("):
            return self.call(a)
        return ("col", None, a)

    def call(self, a):
        distinct = self.kw("DISTINCT")
        args, order = [], []
        if not self.sym(")"):
            if a == "trim" and (self.is_kw("BOTH") or self.is_kw("LEADING") or self.is_kw("TRAILING")):
                a = {"BOTH": "btrim", "LEADING": "ltrim", "TRAILING": "rtrim"}[self.peek()[1].upper()]
                self.i += 1
                if self.kw("FROM"):
                    args = [self.expr()]
                else:
                    c = self.expr()
                    self.needkw("FROM")
                    args = [self.expr(), c]
            else:
                args.append(self.expr())
                if a == "substring" and self.kw("FROM"):
                    args.append(self.expr())
                    if self.kw("FOR"):
                        args.append(self.expr())
                while self.sym(","):
                    args.append(self.expr())
            if self.kw("ORDER"):
                order = self.order()
            self.need(")")
        if self.is_kw("FILTER") or self.is_kw("OVER"):
            raise Unsupported("SQL: FILTER, OVER")
        return ("call", a, args, order, distinct)


# ------------------------------------------------------------------ values

def and3(a, b):
    if a is False or b is False:
        return False
    if a is None or b is None:
        return None
    return z3and([a, b])


def or3(a, b):
    if a is True or b is True:
        return True
    if a is None or b is None:
        return None
    return z3or([a, b])


def not3(a):
    return None if a is None else z3not(a)


def is_text(a):
    return a.__class__ in (str, S)


def compare(op, a, b):
    if a is None or b is None:
        return None
    if is_text(a) and is_text(b):
        if op == "=":
            return str_eq(a, b)
        if op in ("<>", "!="):
            return z3not(str_eq(a, b))
        k = strs.str_cmp(a, b)
        return {"<": k < 0, ">": k > 0, "<=": k <= 0, ">=": k >= 0}[op]
    if a.__class__ is bool or b.__class__ is bool or z3.is_bool(a) or z3.is_bool(b):
        c = iff(a, b)
        return c if op == "=" else z3not(c)
    if a.__class__ is list and b.__class__ is list and op in ("=", "<>", "!="):
        o = False if len(a) != len(b) else True
        for x, y in zip(a, b) if o else ():
            o = and3(o, compare("=", x, y))
        return o if op == "=" else not3(o)
    if a.__class__ is list:
        raise Unsupported("SQL: comparison of arrays")
    if is_text(a) or is_text(b):
        raise SqlError("42883", "operator does not exist: text %s integer" % op)
    if a.__class__ is int and b.__class__ is int:
        return {"=": a == b, "<>": a != b, "!=": a != b, "<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b}[op]
    c = {"=": lambda: a == b, "<>": lambda: a != b, "!=": lambda: a != b, "<": lambda: a < b, ">": lambda: a > b, "<=": lambda: a <= b,
         ">=": lambda: a >= b}[op]()
    return c


def true(v):
    if v is None:
        return False
    if v.__class__ is bool:
        return v
    return M().branch(v)


AGG = {"array_agg", "count", "string_agg", "bool_or", "bool_and", "every", "max", "min", "sum"}


def has_agg(e):
    if e.__class__ is not tuple:
        return False
    if e[0] in ("scalar", "exists", "array_sub"):
        return False
    if e[0] == "call" and e[1] in AGG:
        return True
    return any(has_agg(x) if x.__class__ is tuple else x.__class__ is list and any(has_agg(y) for y in x if y.__class__ is tuple)
               for x in e[1:])


def any_order(l, cap=None):
    m = M()
    if len(l) < 2:
        return l
    if not hasattr(m, "choose"):
        return core.concrete_order(l)
    if cap == 2 and len(l) > 2:
        return l[::-1] if m.choose(2, "row order") else l
    l2 = list(l)
    return [l2.pop(m.choose(len(l2), "row order")) for _ in range(len(l2))]


RANK = {"oid": 0, "int16": 1, "int": 2, "int8": 3}
TYPE = {"text": "text", "name": "text", "varchar": "text", "character_data": "text", "char": "text", "bpchar": "text", "sql_identifier": "text",
        "yes_or_no": "text", "oid": "oid", "regclass": "oid", "regtype": "oid", "regproc": "oid", "int": "int", "integer": "int", "int4": "int",
        "cardinal_number": "int", "int2": "int16", "smallint": "int16", "int8": "int8", "bigint": "int8", "bool": "bool", "boolean": "bool",
        "json": "json", "jsonb": "json", "timestamp": "time", "timestamptz": "time"}


def same_name(a, b):
    if a.__class__ is str and b.__class__ is str:
        return a == b
    return M().branch(str_eq(a, b))


def like(s, pat, esc, ci):
    """does a text match a LIKE pattern"""
    if s is None or pat is None or esc is None:
        return None
    if ci:
        s, pat = strs.lower(s), strs.lower(pat)
    m = M()

    def isch(x, c):
        if x.__class__ is str:
            return x == c
        return m.branch(x.e == ord(c))
    # the pattern: elements, ONE, MANY
    pe, i = [], 0
    l = strs.explode(pat)
    for x in l + strs.explode(s):
        if x.__class__ not in (str, Ch):
            raise Opaque("LIKE over an opaque text", x)
    while i < len(l):
        if esc != "" and isch(l[i], esc):
            i += 1
            if i == len(l):
                raise SqlError("22025", "LIKE pattern must not end with escape character")
            pe.append(l[i])
        elif isch(l[i], "%"):
            pe.append(2)
        elif isch(l[i], "_"):
            pe.append(1)
        else:
            pe.append(l[i])
        i += 1
    e = strs.explode(s)
    row = [True] + [False] * len(e)
    for y in pe:
        if y == 2:
            new, acc = [], False
            for x in row:
                acc = or3(acc, x)
                new.append(acc)
        else:
            new = [False]
            for k, x in enumerate(e):
                new.append(row[k] if y == 1 else and3(row[k], str_eq(mks([x]), mks([y]))) if row[k] is not False else False)
        row = new
    return row[-1]


class Query:
    """one statement against catalogs"""

    def __init__(self, cat, sql, params, given):
        self.cat, self.params, self.given = cat, params, given
        self.ptypes = {}
        self.ctes, self.cte_rows, self.busy = {}, {}, {}
        self.parse(sql)

    def parse(self, sql):
        p = Parser(sql)
        self.q = p.statement()
        self.ctes = p.ctes

    def table_cols(self, name):
        if name not in CATALOG:
            raise SqlError("42P01", "relation %s does not exist" % name)
        return CATALOG[name]

    def table_rows(self, name):
        return self.cat["tables"].get(name, [])

    def cte_cols(self, name):
        cols, q = self.ctes[name]
        t = self.columns(q if name not in self.busy else self.busy[name], [])
        if cols:
            t = [(c, ty) for c, (_, ty) in zip(cols, t)] + t[len(cols):]
        return t

    def cte(self, name):
        """rows of a WITH query"""
        if name in self.cte_rows:
            return self.cte_rows[name]
        cols, q = self.ctes[name]
        names = [n for n, _ in self.cte_cols(name)]
        if not (q["union"] and name in self.froms(q["union"][-1][1])):
            self.cte_rows[name] = [dict(zip(names, r)) for r in self.run(q, [])]
            return self.cte_rows[name]
        # recursive: the last branch over the rows found in the step before
        all_, step = q["union"][-1]
        first = dict(q, union=q["union"][:-1])
        found = [dict(zip(names, r)) for r in self.run(first, [])]
        new = found
        for _ in range(40):
            self.cte_rows[name] = new
            new = [dict(zip(names, r)) for r in self.run(step, [])]
            if not all_:
                new = [r for r in new if not any(self.same_row(r, o) for o in found)]
            if not new:
                break
            found = found + new
        else:
            raise Unsupported("SQL: recursion over 40 steps")
        self.cte_rows[name] = found
        return found

    def same_row(self, a, b):
        for k in a:
            if (a[k] is None) != (b[k] is None) or a[k] is not None and not true(compare("=", a[k], b[k])):
                return False
        return True

    def froms(self, q):
        out = set()

        def walk(e):
            if e.__class__ is tuple and e and e[0] == "cte":
                out.add(e[1])
            if e.__class__ in (tuple, list):
                for x in e:
                    walk(x)
            elif e.__class__ is dict:
                for x in e.values():
                    walk(x)
        walk(q)
        return out

    # ---- types
    def scope(self, frm, outer=(), left=(), types=True):
        """[(alias, {column: type})]"""
        if frm is None:
            return []
        k = frm[0]
        if k == "join":
            l = self.scope(frm[2], outer, left, types)
            return l + self.scope(frm[3], outer, list(left) + l, types)
        if k == "table":
            return [(frm[2], self.table_cols(frm[1]))]
        if k == "cte":
            # inside its own definition a recursive query has the columns of the branches before
            if frm[1] in self.busy:
                pass
            elif self.ctes[frm[1]][1]["union"]:
                self.busy[frm[1]] = dict(self.ctes[frm[1]][1], union=[])
            return [(frm[2], dict(self.cte_cols(frm[1])))]
        if k == "func":
            cols = frm[5] or [frm[4], "ordinality"]
            if frm[1] == "generate_series":
                t = "int"
            elif frm[1] in ("unnest", "generate_subscripts"):
                t = None
            else:
                raise Unsupported("SQL: function in FROM: " + frm[1])
            d = {cols[0]: t}
            if frm[3]:
                d[cols[1] if len(cols) > 1 else "ordinality"] = "int8"
            return [(frm[4], d)]
        if k == "sub":
            return [(frm[2], dict(self.columns(frm[1], ([list(left)] if frm[3] else []) + list(outer), types)))]

    def resolve(self, sc, alias, name):
        for level in sc:
            hits = [(a, d) for a, d in level if (alias is None or same_name(a, alias)) and name in d]
            if len(hits) > 1:
                raise SqlError("42702", "column reference %s is ambiguous" % name)
            if hits:
                return hits[0]
            if alias is not None and any(same_name(a, alias) for a, _ in level):
                raise SqlError("42703", "column %s.%s does not exist" % (alias, name))
        raise SqlError("42703", "column %s does not exist" % name)

    def columns(self, q, outer, types=True):
        sc = [self.scope(q["frm"], outer, (), types)] + list(outer)
        if types:
            self.fix(q["frm"], sc)
        out = []
        for e, a in q["items"]:
            if e[0] == "star":
                for al, d in sc[0]:
                    if len(e) == 1 or e[1] == al:
                        out += list(d.items())
                continue
            out.append((a or self.label(e), self.type_of(e, sc) if types else None))
        return out

    def fix(self, frm, sc):
        """the types of unnest's columns"""
        if frm is None:
            return
        if frm[0] == "join":
            self.fix(frm[2], sc)
            self.fix(frm[3], sc)
        elif frm[0] == "func" and frm[1] == "unnest":
            for a, d in sc[0]:
                if a == frm[4]:
                    c = (frm[5] or [frm[4]])[0]
                    if d[c] is None:
                        d[c] = self.type_of(frm[2][0], sc)[:-2]
        elif frm[0] == "func" and frm[1] == "generate_subscripts":
            for a, d in sc[0]:
                if a == frm[4]:
                    d[(frm[5] or [frm[4]])[0]] = "int"

    def label(self, e):
        k = e[0]
        if k in ("col", "call"):
            return e[2] if k == "col" else e[1]
        if k == "cast":
            n = self.label(e[1])
            return n if n != "?column?" else e[2]
        if k == "scalar":
            return e[1]["items"][0][1] or self.label(e[1]["items"][0][0])
        return {"exists": "exists", "case": "case", "array": "array", "array_sub": "array"}.get(k, "?column?")

    def type_of(self, e, sc):
        k = e[0]
        if k == "const":
            return e[2]
        if k == "col":
            a, d = self.resolve(sc, e[1], e[2])
            return d[e[2]]
        if k == "param":
            return self.ptypes.get(e[1], "text")
        if k in ("or", "and", "not", "isnull", "istrue", "distinct", "cmp", "any", "all", "exists", "like"):
            return "bool"
        if k == "op":
            if e[1] == "||":
                a, b = self.type_of(e[2], sc), self.type_of(e[3], sc)
                if "cstring" in (a, b):
                    raise SqlError("42883", "operator does not exist: %s || %s" % (a, b))
                return a if a.endswith("[]") else b if b.endswith("[]") else "text"
            a, b = self.type_of(e[2], sc), self.type_of(e[3], sc)
            if a not in RANK or b not in RANK:
                raise SqlError("42883", "operator does not exist: %s %s %s" % (a, e[1], b))
            return a if RANK[a] >= RANK[b] else b
        if k == "neg":
            return self.type_of(e[1], sc)
        if k == "cast":
            b = e[2].removesuffix("[]")
            if b not in TYPE:
                raise SqlError("42704", "type %s does not exist" % e[2])
            return TYPE[b] + ("[]" if e[2].endswith("[]") else "")
        if k == "item":
            return self.type_of(e[1], sc)[:-2]
        if k == "case":
            ts = [self.type_of(x, sc) for c, x in e[1] + [(None, e[2])] if x[0] != "const" or x[2] != "text"]
            if "cstring" in ts and len(set(ts)) > 1:
                raise SqlError("42804", "CASE types %s cannot be matched" % " and ".join(sorted(set(ts))))
            return ts[0] if ts else "text"
        if k == "scalar":
            return self.columns(e[1], sc)[0][1]
        if k == "array_sub":
            return self.columns(e[1], sc)[0][1] + "[]"
        if k == "array":
            return (self.type_of(e[1][0], sc) if e[1] else "text") + "[]"
        if k == "call":
            n = e[1]
            if n.endswith("typmodout"):
                return "cstring"
            if n in ("replace", "trim", "btrim", "ltrim", "rtrim", "left", "right", "substring", "substr", "split_part", "concat", "lower",
                     "upper", "length", "quote_ident") and e[2] and self.type_of(e[2][0], sc) == "cstring":
                raise SqlError("42883", "function %s(cstring) does not exist" % n)
            if n == "array_agg":
                return self.type_of(e[2][0], sc) + "[]"
            if n in ("max", "min", "coalesce", "nullif", "greatest", "least"):
                for x in e[2]:
                    if x[0] != "param" and x[:2] != ("const", None):
                        return self.type_of(x, sc)
                return self.type_of(e[2][0], sc)
            if n in ("count", "sum"):
                return "int8"
            if n in ("now", "current_timestamp", "localtimestamp", "transaction_timestamp", "statement_timestamp", "clock_timestamp"):
                return "time"
            if n in ("starts_with", "every"):
                return "bool"
            if n == "abs":
                return self.type_of(e[2][0], sc)
            if n == "to_regclass":
                return "oid"
            if n in ("pg_has_role", "has_table_privilege", "has_any_column_privilege", "has_schema_privilege", "pg_is_other_temp_schema",
                     "pg_table_is_visible", "bool_or", "bool_and", "pg_relation_is_publishable", "has_sequence_privilege",
                     "has_column_privilege", "has_function_privilege"):
                return "bool"
            if n in ("pg_relation_is_updatable", "cardinality", "array_length", "array_position", "length", "array_upper", "strpos", "char_length",
                     "character_length", "position"):
                return "int"
            return "text"
        raise Unsupported("SQL: type of " + k)

    def param_types(self, q, outer=()):
        """what $n stands for, from what it is compared with"""
        def put(a, b, sc):
            if a.__class__ is tuple and a[0] == "param" and b[0] != "param" and a[1] not in self.ptypes:
                self.ptypes[a[1]] = self.type_of(b, sc)

        def walk(e, sc):
            if e.__class__ is list:
                for x in e:
                    walk(x, sc)
                return
            if e.__class__ is dict:
                if "items" in e and "frm" in e:
                    sc2 = [self.scope(e["frm"], sc)] + list(sc)
                    self.fix(e["frm"], sc2)
                    for x in ("limit", "offset"):
                        if e[x] is not None and e[x][0] == "param":
                            self.ptypes[e[x][1]] = "int8"
                    for v in e.values():
                        walk(v, sc2)
                return
            if e.__class__ is not tuple:
                return
            if e and e[0] in ("any", "all") and e[3][0] == "param":
                self.ptypes[e[3][1]] = self.type_of(e[2], sc) + "[]"
            elif e and e[0] == "any" and e[3][0] == "array":
                for x in e[3][1]:
                    put(x, e[2], sc)
            elif e and e[0] in ("cmp", "distinct") or e and e[0] == "op" and e[1] != "||":
                i = 2 if e[0] != "distinct" else 1
                put(e[i], e[i + 1], sc)
                put(e[i + 1], e[i], sc)
            elif e and e[0] == "call" and e[1] in ("coalesce", "greatest", "least", "nullif"):
                for x in e[2]:
                    for y in e[2]:
                        put(x, y, sc)
            elif e and e[0] == "case":
                for _, x in e[1]:
                    put(x, e[2], sc)
                    put(e[2], x, sc)
            elif e and e[0] == "cast" and e[1][0] == "param":
                self.ptypes[e[1][1]] = self.type_of(e, sc)
            for x in e:
                walk(x, sc)
            if e and e[0] == "param" and e.__class__ is tuple and len(e) == 2 and e[1].__class__ is int:
                seen.add(e[1])
        seen = set()
        walk([q for _, q in self.ctes.values()], list(outer))
        walk(q, list(outer))
        for n in seen:
            self.ptypes.setdefault(n, "text")

    now = None

    def to_regclass(self, n):
        raise Unsupported("SQL: to_regclass")

    # ---- rows
    def rows_of(self, frm, env, outer):
        """environments [{alias: row}] of a FROM clause; env: aliases to its left (for functions and subqueries)"""
        if frm is None:
            return [{}]
        k = frm[0]
        if k == "table":
            return [{frm[2]: r} for r in self.table_rows(frm[1])]
        if k == "cte":
            return [{frm[2]: r} for r in self.cte(frm[1])]
        if k == "func":
            cols = frm[5] or [frm[4]]
            args = [self.val(a, [env] + outer) for a in frm[2]]
            if frm[1] == "unnest":
                l = args[0] or []
            elif frm[1] == "generate_series":
                l = list(range(args[0], args[1] + 1))
            else:
                l = list(range(1, len(args[0] or []) + 1))
            out = []
            for i, x in enumerate(l):
                r = {cols[0]: x}
                if frm[3]:
                    r[cols[1] if len(cols) > 1 else "ordinality"] = i + 1
                out.append({frm[4]: r})
            return out
        if k == "sub":
            names = [n for n, _ in self.columns(frm[1], [], False)]
            return [{frm[2]: dict(zip(names, r))} for r in self.run(frm[1], ([env] if frm[3] else []) + outer)]
        _, kind, l, r, on = frm
        out = []
        for a in self.rows_of(l, env, outer):
            here = dict(env)
            here.update(a)
            hit = False
            for b in self.rows_of(r, here, outer):
                e = dict(a)
                e.update(b)
                if on is not None:
                    full = dict(env)
                    full.update(e)
                    if not true(self.val(on, [full] + outer)):
                        continue
                hit = True
                out.append(e)
            if kind == "left" and not hit:
                e = dict(a)
                for al, d in self.scope(r, types=False):
                    e[al] = {c: None for c in d}
                    if frm_func_alias(r, al):
                        e[al] = NULLROW
                out.append(e)
        return out

    def run(self, q, outer, final=False):
        if q["union"]:
            rows = self.part(dict(q, order=[], limit=None, offset=None, union=[]), outer)
            for all_, x in q["union"]:
                rows = rows + self.run(x, outer)
                if not all_:
                    rows = self.distinct(rows)
            names = [n for n, _ in self.columns(dict(q, union=[]), [], False)]
            if q["order"]:
                envs = self.sort([{"": dict(zip(names, r))} for r in rows], q["order"], outer, [(("col", None, n), n) for n in names])
                rows = [list(e[""].values()) for e in envs]
            else:
                rows = any_order(rows, 2 if final else None)
            return self.cut(q, rows, outer)
        return self.part(q, outer, final)

    def cut(self, q, rows, outer):
        if q["offset"] is not None:
            rows = rows[self.val(q["offset"], outer):]
        if q["limit"] is not None:
            rows = rows[:self.val(q["limit"], outer)]
        return rows

    def distinct(self, rows):
        out = []
        for r in rows:
            d = dict(enumerate(r))
            if not any(self.same_row(d, dict(enumerate(o))) for o in out):
                out.append(r)
        return out

    def part(self, q, outer, final=False):
        envs = [e for e in self.rows_of(q["frm"], {}, outer) if q["where"] is None or true(self.val(q["where"], [e] + outer))]
        agg = any(has_agg(e) for e, _ in q["items"]) or q["having"] is not None
        if q["group"]:
            # (keys, rows) in the order the groups are met
            groups = []
            by = [q["items"][g[1] - 1][0] if g[0] == "const" else next((x for x, a in q["items"] if a and g == ("col", None, a)), g)
                  for g in q["group"]]
            for e in envs:
                k = dict(enumerate(self.val(g, [e] + outer) for g in by))
                for k2, l in groups:
                    if self.same_row(k, k2):
                        l.append(e)
                        break
                else:
                    groups.append((k, [e]))
            groups = [l for _, l in groups if q["having"] is None or true(self.agg(q["having"], l, outer))]
            rows = [([self.agg(e, l, outer) for e, _ in q["items"]], [self.agg(self.order_key(o, q["items"]), l, outer) for o, _ in q["order"]])
                    for l in groups]
            rows = self.sorted(rows, q["order"]) if q["order"] else any_order(rows, 2 if final else None)
            return self.cut(q, [r for r, _ in rows], outer)
        if agg:
            if q["having"] is not None and not true(self.agg(q["having"], envs, outer)):
                return []
            return self.cut(q, [[self.agg(e, envs, outer) for e, _ in q["items"]]], outer)
        if q["order"]:
            envs = self.sort(envs, q["order"], outer, q["items"])
        else:
            envs = any_order(envs, 2 if final else None) if len(q["items"]) else envs
        if not q["distinct"]:
            envs = self.cut(q, envs, outer)
        out = []
        for e in envs:
            r = []
            for x, _ in q["items"]:
                if x[0] == "star":
                    for al, row in e.items():
                        if len(x) == 1 or same_name(x[1], al):
                            r += list(row.values())
                else:
                    r.append(self.val(x, [e] + outer))
            out.append(r)
        if q["distinct"]:
            out = self.cut(q, self.distinct(out), outer)
        return out

    def order_key(self, o, items):
        if o[0] == "const" and o[2] == "int" and items:
            return items[o[1] - 1][0]
        if o[0] == "col" and o[1] is None:
            for x, a in items:
                if a == o[2]:
                    return x
        return o

    def sort(self, envs, order, outer, items=()):
        ks = [self.order_key(o, items) for o, _ in order]
        return [e for e, _ in self.sorted([(e, [self.val(k, [e] + outer) for k in ks]) for e in envs], order)]

    def sorted(self, l, order):
        """(thing, keys) by their keys; those the keys do not tell apart come in any order"""
        import functools

        def cmp(x, y):
            for i, (o, desc) in enumerate(order):
                a, b = x[1][i], y[1][i]
                if a is None or b is None:
                    k = (a is None) - (b is None)
                elif is_text(a):
                    k = strs.str_cmp(a, b)
                elif a.__class__ is int and b.__class__ is int or a.__class__ is bool and b.__class__ is bool:
                    k = (a > b) - (a < b)
                else:
                    k = 0 if true(compare("=", a, b)) else -1 if true(compare("<", a, b)) else 1
                if k:
                    return -k if desc else k
            return 0
        l = sorted(l, key=functools.cmp_to_key(cmp))
        out, i = [], 0
        while i < len(l):
            k = i + 1
            while k < len(l) and cmp(l[i], l[k]) == 0:
                k += 1
            out += any_order(l[i:k])
            i = k
        return out

    def agg(self, e, envs, outer):
        if e[0] == "call" and e[1] in AGG:
            n, args, order = e[1], e[2], e[3]
            if n == "count" and (not args or args[0] == ("star",)):
                return len(envs)
            l = self.sort(envs, order, outer) if order else any_order(envs) if n in ("array_agg", "string_agg") else envs
            vs = [self.val(args[0], [x] + outer) for x in l]
            if e[4]:
                vs = [r[0] for r in self.distinct([[v] for v in vs])]
            if n == "array_agg":
                return vs if vs else None
            vs = [v for v in vs if v is not None]
            if n == "count":
                return len(vs)
            if not vs:
                return None
            if n == "string_agg":
                sep = self.val(args[1], [l[0]] + outer)
                out = []
                for i, v in enumerate(vs):
                    out += ([sep] if i else []) + [v]
                return mks(out)
            if n in ("bool_or", "bool_and", "every"):
                return (z3or if n == "bool_or" else z3and)(vs)
            if n == "sum":
                return sum(vs[1:], vs[0])
            b = vs[0]
            for v in vs[1:]:
                if true(compare(">" if n == "max" else "<", v, b)):
                    b = v
            return b
        if has_agg(e):
            if e[0] == "cast":
                return self.cast(self.agg(e[1], envs, outer), e[2])
            if e[0] == "call" and e[1] == "coalesce":
                for x in e[2]:
                    v = self.agg(x, envs, outer)
                    if v is not None:
                        return v
                return None
            if e[0] == "call":
                return self.func(e[1], [self.agg(x, envs, outer) for x in e[2]], e)
            if e[0] == "cmp":
                return compare(e[1], self.agg(e[2], envs, outer), self.agg(e[3], envs, outer))
            if e[0] in ("and", "or"):
                return (and3 if e[0] == "and" else or3)(self.agg(e[1], envs, outer), self.agg(e[2], envs, outer))
            if e[0] == "not":
                return not3(self.agg(e[1], envs, outer))
            if e[0] == "isnull":
                return (self.agg(e[1], envs, outer) is None) != e[2]
            if e[0] == "neg":
                v = self.agg(e[1], envs, outer)
                return None if v is None else -v
            if e[0] == "item":
                a, i = self.agg(e[1], envs, outer), self.agg(e[2], envs, outer)
                return a[i - 1] if a is not None and i is not None and 1 <= i <= len(a) else None
            if e[0] == "case":
                for c, x in e[1]:
                    if true(self.agg(c, envs, outer)):
                        return self.agg(x, envs, outer)
                return self.agg(e[2], envs, outer)
            if e[0] == "op":
                return self.op(e[1], self.agg(e[2], envs, outer), self.agg(e[3], envs, outer))
            raise Unsupported("SQL: aggregate inside " + e[0])
        return self.val(e, [envs[0] if envs else {}] + outer)

    # ---- expressions
    def val(self, e, envs):
        k = e[0]
        if k == "const":
            return e[1]
        if k == "col":
            for env in envs:
                if e[1] is not None:
                    r = env.get(e[1]) if e[1].__class__ is str else None
                    if r is None and any(x.__class__ is not str for x in [e[1], *env]):
                        for x in env:
                            if same_name(x, e[1]):
                                r = env[x]
                    if r is not None:
                        if r is NULLROW:
                            return None
                        if e[2] not in r:
                            raise SqlError("42703", "column %s.%s does not exist" % (e[1], e[2]))
                        return r[e[2]]
                else:
                    hits = [r for r in env.values() if e[2] in r]
                    if len(hits) > 1:
                        raise SqlError("42702", "column reference %s is ambiguous" % e[2])
                    if hits:
                        return hits[0][e[2]]
            raise SqlError("42703", "column %s does not exist" % e[2])
        if k == "param":
            return self.params[e[1] - 1]
        if k == "and":
            a = self.val(e[1], envs)
            if a is not None and a.__class__ is not bool:
                a = true(a)
            return False if a is False else and3(a, self.val(e[2], envs))
        if k == "or":
            a = self.val(e[1], envs)
            return True if a is True else or3(a, self.val(e[2], envs))
        if k == "not":
            return not3(self.val(e[1], envs))
        if k == "isnull":
            v = self.val(e[1], envs) is None
            return v != e[2]
        if k == "istrue":
            v = self.val(e[1], envs)
            v = False if v is None else (v if e[2] else z3not(v))
            return z3not(v) if e[3] else v
        if k == "distinct":
            a, b = self.val(e[1], envs), self.val(e[2], envs)
            c = (a is None and b is None) if a is None or b is None else compare("=", a, b)
            return c if e[3] else z3not(c)
        if k == "cmp":
            return compare(e[1], self.val(e[2], envs), self.val(e[3], envs))
        if k in ("any", "all"):
            a, l = self.val(e[2], envs), self.val(e[3], envs)
            if l is None:
                return None
            o = k == "all"
            for x in l:
                c = compare(e[1], a, x)
                o = and3(o, c) if k == "all" else or3(o, c)
            return o
        if k == "like":
            return like(self.val(e[1], envs), self.val(e[2], envs), self.val(e[3], envs), e[4])
        if k == "op":
            return self.op(e[1], self.val(e[2], envs), self.val(e[3], envs))
        if k == "neg":
            v = self.val(e[1], envs)
            return None if v is None else -v
        if k == "cast":
            return self.cast(self.val(e[1], envs), e[2])
        if k == "item":
            a, i = self.val(e[1], envs), self.val(e[2], envs)
            return a[i - 1] if a is not None and i is not None and 1 <= i <= len(a) else None
        if k == "case":
            for c, x in e[1]:
                if true(self.val(c, envs)):
                    return self.val(x, envs)
            return self.val(e[2], envs)
        if k == "exists":
            return bool(self.run(e[1], envs))
        if k == "scalar":
            l = self.run(e[1], envs)
            if len(l) > 1:
                raise SqlError("21000", "more than one row returned by a subquery used as an expression")
            return l[0][0] if l else None
        if k == "array_sub":
            return [r[0] for r in self.run(e[1], envs)]
        if k == "array":
            return [self.val(x, envs) for x in e[1]]
        if k == "call":
            if e[1] == "coalesce":
                for x in e[2]:
                    v = self.val(x, envs)
                    if v is not None:
                        return v
                return None
            return self.func(e[1], [self.val(x, envs) for x in e[2]], e)
        raise Unsupported("SQL: " + k)

    def op(self, op, a, b):
        if a is None or b is None:
            return None
        if op == "||":
            if a.__class__ is list or b.__class__ is list:
                return (a if a.__class__ is list else [a]) + (b if b.__class__ is list else [b])
            return mks([show(a), show(b)])
        if op in ("&", "|"):
            return a & b if op == "&" else a | b
        if op == "+":
            return a + b
        if op == "-":
            return a - b
        if op == "*":
            return a * b
        if a.__class__ is int and b.__class__ is int:
            q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
            return q if op == "/" else a - b * q
        raise Unsupported("SQL: division of symbolic values")

    def cast(self, v, t):
        if v is None:
            return None
        b = TYPE.get(t.removesuffix("[]"))
        if t in ("regclass", "regtype", "regproc"):
            if v.__class__ is str:
                n = v.removeprefix("pg_catalog.")
                if n not in CLASS_OID:
                    raise SqlError("42P01", "relation %s does not exist" % v)
                return CLASS_OID[n]
            return v
        if b == "text" and not is_text(v) and v.__class__ is not list:
            return show(v)
        if b in RANK and v.__class__ is str:
            return int(v)
        return v

    def func(self, n, a, e):
        x = self.cat["texts"] if self.cat else {}
        t = self.cat["tables"] if self.cat else {}

        def row(table, **kw):
            for r in t[table]:
                if all(r[k] == v for k, v in kw.items()):
                    return r
            return None
        if n in ("pg_has_role", "has_table_privilege", "has_any_column_privilege", "has_schema_privilege", "pg_table_is_visible",
                 "has_sequence_privilege", "has_column_privilege", "has_function_privilege"):
            return None if a[0] is None else True
        if n == "pg_is_other_temp_schema":
            return None if a[0] is None else False
        if n == "pg_relation_is_updatable":
            return None if a[0] is None else 28
        if n in ("greatest", "least"):
            b = None
            for v in a:
                if v is not None and (b is None or true(compare(">" if n == "greatest" else "<", v, b))):
                    b = v
            return b
        if n == "concat":
            return mks([show(v) for v in a if v is not None])
        if n == "nullif" and (a[0] is None or a[1] is None):
            return a[0]
        if n in ("now", "current_timestamp", "localtimestamp", "transaction_timestamp", "statement_timestamp", "clock_timestamp"):
            return self.now
        if n == "current_schema":
            return "public"
        if n in ("pg_advisory_xact_lock", "pg_advisory_lock"):
            return ""
        if n == "to_regclass":
            return self.to_regclass(a[0])
        if any(v is None for v in (a[:1] if n == "format_type" else a)):
            return None
        if n in ("length", "char_length", "character_length"):
            l = strs.explode(a[0])
            for v in l:
                if v.__class__ not in (str, Ch):
                    raise Opaque("SQL: length of opaque text", v)
            return len(l)
        if n == "abs":
            return abs(a[0])
        if n in ("strpos", "position"):
            raise Unsupported("SQL: strpos")
        if n == "starts_with":
            return strs.starts_with(a[0], strs.Pat("lit", a[1]))
        if n in ("json_array_length", "jsonb_array_length"):
            raise Unsupported("SQL: " + n)
        if n == "pg_get_expr":
            return a[0]
        if n == "pg_get_viewdef":
            return x["view:%d" % a[0]]
        if n == "pg_get_functiondef":
            raise Unsupported("SQL: pg_get_functiondef")
        if n in ("pg_get_function_arguments", "pg_get_function_identity_arguments"):
            return x["args:%d" % a[0]]
        if n == "pg_get_function_result":
            p = row("pg_proc", oid=a[0])
            return mks((["SETOF "] if p["proretset"] else []) + [x["type:%d" % p["prorettype"]]])
        if n == "pg_get_constraintdef":
            c = row("pg_constraint", oid=a[0])
            if c["contype"] != "c":
                raise Unsupported("SQL: pg_get_constraintdef of a key")
            return mks(["CHECK (", c["conbin"], ")"])
        if n == "pg_get_indexdef" and len(a) > 1 and a[1] != 0:
            i = row("pg_index", indexrelid=a[0])
            k = a[1] - 1
            if k >= len(i["indkey"]):
                return ""
            if i["indkey"][k]:
                at = row("pg_attribute", attrelid=i["indrelid"], attnum=i["indkey"][k])
                return quote_ident(at["attname"])
            return mks(["(", x["index:%d:%d" % (a[0], k)], ")"])
        if n in ("quote_ident",):
            return quote_ident(a[0])
        if n == "format_type":
            s = x["type:%d" % a[0]]
            if len(a) > 1 and a[1] not in (None, -1):
                raise Unsupported("SQL: format_type with a modifier")
            return s
        if n.endswith("typmodout"):
            return typmod(n[:-len("typmodout")], a[0])
        if n in ("btrim", "ltrim", "rtrim", "trim"):
            cs = a[1] if len(a) > 1 else " "
            v = a[0]
            if n in ("btrim", "trim", "ltrim"):
                v = strip(v, cs, 0)
            return strip(v, cs, 1) if n != "ltrim" else v
        if n == "left":
            return cut(a[0], 0, a[1])
        if n == "right":
            return cut(a[0], -a[1], None) if a[1] > 0 else cut(a[0], -a[1] if a[1] else 10 ** 9, None)
        if n in ("substring", "substr"):
            if a[1].__class__ is not int:
                raise Unsupported("SQL: substring by pattern")
            s = a[1] - 1
            if len(a) > 2:
                s, l = max(s, 0), a[2] + min(s, 0)
                return cut(cut(a[0], s, None), 0, l)
            return cut(a[0], max(s, 0), None)
        if n in ("array_length", "cardinality", "array_upper"):
            return len(a[0]) if a[0] or n == "cardinality" else None
        if n == "array_to_string":
            out = []
            for i, v in enumerate(a[0]):
                out += ([a[1]] if i else []) + [v]
            return mks(out)
        if n == "array_position":
            for i, v in enumerate(a[0]):
                if true(compare("=", v, a[1])):
                    return i + 1
            return None
        if n in ("concat",):
            return mks([show(v) for v in a])
        if n in ("lower", "upper"):
            if a[0].__class__ is str:
                return a[0].lower() if n == "lower" else a[0].upper()
            if n == "lower":
                return strs.lower(a[0])
            raise Opaque("SQL: %s of a symbolic text" % n, next((x for x in sparts(a[0]) if x.__class__ is Atom), None))
        if n == "replace":
            return strs.replace(a[0], strs.Pat("lit", a[1]), a[2])
        if n == "split_part":
            if any(x.__class__ is not str for x in a[:2]):
                raise Unsupported("SQL: split_part of a symbolic text")
            l = a[0].split(a[1])
            return l[a[2] - 1] if 1 <= a[2] <= len(l) else ""
        if n == "nullif":
            return None if true(compare("=", a[0], a[1])) else a[0]
        raise Unsupported("SQL: function " + n)

    def check_params(self, describe):
        if describe:
            return
        for n, ty in self.ptypes.items():
            if n > len(self.params or ()):
                raise SqlError("08P01", "missing parameter $%d" % n)
            if self.given is not None:
                g = self.given[n - 1]
                if g != ty and g != "null" and ty in ("text", "text[]", "int", "int8", "int16", "bool", "json"):
                    raise SqlError("client", "parameter $%d: a %s is not sent as %s" % (n, g, ty))

    # ---- entry
    def execute(self, describe=False):
        """-> columns, rows, count"""
        self.param_types(self.q)
        cols = self.columns(self.q, [])
        self.check_params(describe)
        for n, ty in cols:
            if ty is None:
                raise Unsupported("SQL: type of column " + n)
        if describe:
            return cols, [], 0
        rows = self.run(self.q, [], True)
        return cols, rows, len(rows)


NULLROW = {}


def frm_func_alias(frm, al):
    return frm[0] == "func" and frm[4] == al


def show(v):
    if is_text(v):
        return v
    if v.__class__ is bool:
        return "true" if v else "false"
    if v.__class__ is int:
        return str(v)
    if z3.is_bv(v):
        return S((Num(v, True),))
    raise Unsupported("SQL: text of %r" % (v,))


def quote_ident(s):
    """always quoted: another spelling of the same name"""
    if s.__class__ is str:
        return '"' + s.replace('"', '""') + '"'
    return mks(['"', strs.replace(s, strs.Pat("lit", '"'), '""'), '"'])


def strip(s, cs, end):
    parts = list(sparts(s))
    while parts:
        i = -1 if end else 0
        p = parts[i]
        if p.__class__ is str:
            q = p.rstrip(cs) if end else p.lstrip(cs)
            if q:
                parts[i] = q
                break
            parts.pop(i)
        elif p.__class__ is Atom and ((p.trim and set(map(ord, cs)) <= WS) or not (p.cs & set(map(ord, cs)))) and p.ne:
            break
        elif p.__class__ is Num:
            break
        else:
            raise Unsupported("SQL: trim of opaque text")
    return mks(parts)


def cut(s, a, b):
    """characters a..b (b negative: from the end)"""
    parts = list(sparts(s))

    def drop(n, end):
        while n > 0 and parts:
            i = -1 if end else 0
            p = parts[i]
            if p.__class__ is Ch:
                parts.pop(i)
                n -= 1
                continue
            if p.__class__ is not str:
                raise Unsupported("SQL: substring of opaque text")
            if len(p) <= n:
                n -= len(p)
                parts.pop(i)
            else:
                parts[i] = p[:-n] if end else p[n:]
                n = 0
    drop(a, False)
    if b is not None:
        if b < 0:
            drop(-b, True)
        elif all(p.__class__ is str for p in parts):
            return mks(parts)[:b]
        else:
            raise Unsupported("SQL: prefix of opaque text")
    return mks(parts)


def typmod(t, m):
    """what PostgreSQL's *typmodout functions give"""
    if m.__class__ is not int:
        raise Unsupported("SQL: symbolic type modifier")
    if m < 0:
        return ""
    if t in ("bpchar", "varchar"):
        return "(%d)" % (m - 4)
    if t in ("bit", "varbit"):
        return "(%d)" % m
    if t == "numeric":
        return "(%d,%d)" % ((m - 4) >> 16 & 0xffff, (m - 4) & 0x7ff)
    if t in ("time", "timestamp"):
        return "(%d) without time zone" % m
    if t in ("timetz", "timestamptz"):
        return "(%d) with time zone" % m
    raise Unsupported("SQL: typmod of " + t)
