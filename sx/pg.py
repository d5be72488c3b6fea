"""A small reader and interpreter of PostgreSQL data-definition statements: the oracle for
what a piece of SQL text means. Works on concrete and symbolic text alike."""
from values import *
import core


class SqlError(Exception):
    def __init__(self, code, msg):
        Exception.__init__(self, msg)
        self.code, self.msg = code, msg


def M():
    return core.M


class Tok:
    __slots__ = ("k", "v")

    def __init__(self, k, v):
        self.k, self.v = k, v

    def __repr__(self):
        return "%s:%r" % (self.k, self.v)


WORDCH = set("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_$")


def unescape(a, q, what):
    """atom between quotes q: the text it stands for once doubled quotes are read"""
    if a.origin is not None and a.origin[0] == "replace" and a.origin[2] == q and a.origin[3] == q + q:
        return a.origin[1]
    if ord(q) in a.cs:
        raise SqlError("injection", "%s %r is not escaped: a %s inside it ends the quoting" % (what, a, q))
    return a


def tokenize(s):
    parts = list(sparts(s))
    toks = []
    # stream of (char | part)
    st = []
    for p in parts:
        if p.__class__ is str:
            st.extend(p)
        else:
            st.append(p)
    i, n = 0, len(st)
    while i < n:
        c = st[i]
        if c.__class__ is str:
            if c in " \t\n\r":
                i += 1
                continue
            if c in "\"'":
                q = c
                i += 1
                out = []
                while True:
                    if i >= n:
                        raise SqlError("syntax", "unterminated quote")
                    x = st[i]
                    if x.__class__ is str:
                        if x == q:
                            if i + 1 < n and st[i + 1] == q:
                                out.append(q)
                                i += 2
                                continue
                            i += 1
                            break
                        out.append(x)
                    elif x.__class__ is Atom:
                        out.append(unescape(x, q, "identifier" if q == '"' else "string"))
                    elif x.__class__ is Ch:
                        # a symbolic character: it is the quote or it is not
                        if M().branch(x.e == ord(q)):
                            if i + 1 < n and (st[i + 1] == q or (st[i + 1].__class__ is Ch and M().branch(st[i + 1].e == ord(q)))):
                                out.append(q)
                                i += 2
                                continue
                            i += 1
                            break
                        out.append(x)
                    else:
                        out.append(x)
                    i += 1
                v = mks(out)
                if q == '"' and v == "":
                    raise SqlError("syntax", "zero-length identifier")
                toks.append(Tok("id" if q == '"' else "str", v))
                continue
            if c == "$":
                j = i + 1
                while j < n and st[j].__class__ is str and (st[j].isalnum() or st[j] == "_"):
                    j += 1
                if j < n and st[j] == "$":
                    tag = "".join(st[i:j + 1])
                    k = j + 1
                    while k < n and not all(x.__class__ is str for x in st[k:k + len(tag)]) or "".join(
                            x if x.__class__ is str else "\0" for x in st[k:k + len(tag)]) != tag:
                        k += 1
                        if k >= n:
                            raise SqlError("syntax", "unterminated dollar quote")
                    for x in st[j + 1:k]:
                        if x.__class__ is Atom and ord("$") in x.cs:
                            raise SqlError("injection", "text %r may end the dollar quoting" % (x,))
                    toks.append(Tok("str", mks(st[j + 1:k])))
                    i = k + len(tag)
                    continue
            if c in WORDCH or c == "-" and i + 1 < n and (st[i + 1].__class__ is Num or str(st[i + 1]).isdigit()):
                j = i + 1
                while j < n and st[j].__class__ is str and st[j] in WORDCH:
                    j += 1
                if j < n and st[j].__class__ is not str:
                    # literal glued to symbolic text: one word
                    k = j
                    while k < n and (st[k].__class__ is not str or st[k] in WORDCH):
                        k += 1
                    toks.append(Tok("raw", mks(st[i:k])))
                    i = k
                    continue
                toks.append(Tok("w", "".join(st[i:j])))
                i = j
                continue
            toks.append(Tok("sym", c))
            i += 1
            continue
        j = i
        while j < n and (st[j].__class__ is not str or st[j] in WORDCH):
            j += 1
        for x in st[i:j]:
            if x.__class__ is Atom and x.kind == "name":
                raise SqlError("injection", "name %r is used without quoting" % (x,))
        toks.append(Tok("raw", mks(st[i:j])))
        i = j
    return toks


def split_statements(toks):
    out, cur, depth = [], [], 0
    for t in toks:
        if t.k == "sym" and t.v == ";":
            if cur:
                out.append(cur)
            cur = []
            continue
        cur.append(t)
    if cur:
        out.append(cur)
    return out


class P:
    def __init__(self, toks):
        self.t, self.i = toks, 0

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else None

    def kw(self, *ws):
        """consume a sequence of keywords if present"""
        for k, w in enumerate(ws):
            t = self.peek(k)
            if t is None or t.k != "w" or t.v.upper() != w:
                return False
        self.i += len(ws)
        return True

    def need(self, *ws):
        if not self.kw(*ws):
            raise SqlError("syntax", "expected %s at %r" % (" ".join(ws), self.t[self.i:self.i + 3]))

    def sym(self, c):
        t = self.peek()
        if t is not None and t.k == "sym" and t.v == c:
            self.i += 1
            return True
        return False

    def needsym(self, c):
        if not self.sym(c):
            raise SqlError("syntax", "expected '%s' at %r" % (c, self.t[self.i:self.i + 3]))

    def ident(self):
        t = self.peek()
        if t is None:
            raise SqlError("syntax", "identifier expected at end of statement")
        if t.k == "id":
            self.i += 1
            return t.v
        if t.k == "w" and t.v.upper() not in RESERVED:
            self.i += 1
            return t.v.lower()
        raise SqlError("syntax", "identifier expected at %r" % (t,))

    def qname(self):
        a = self.ident()
        if self.sym("."):
            return a, self.ident()
        raise SqlError("syntax", "name is not schema-qualified: %r" % (a,))

    def end(self):
        if self.i != len(self.t):
            raise SqlError("syntax", "unexpected text at %r" % (self.t[self.i:self.i + 4],))

    def names(self):
        self.needsym("(")
        out = [self.ident()]
        while self.sym(","):
            out.append(self.ident())
        self.needsym(")")
        return out

    def expr(self, stop=()):
        """token run up to a stop keyword / closing parenthesis / comma at depth 0"""
        out, d = [], 0
        while True:
            t = self.peek()
            if t is None:
                break
            if d == 0:
                if t.k == "sym" and t.v in ",)":
                    break
                if t.k == "w" and out and any(t.v.upper() == s for s in stop):
                    break
            if t.k == "sym" and t.v == "(":
                d += 1
            if t.k == "sym" and t.v == ")":
                d -= 1
            out.append(t)
            self.i += 1
        if not out:
            raise SqlError("syntax", "expression expected")
        if d:
            raise SqlError("syntax", "unbalanced parentheses")
        return expr_text(out)


RESERVED = {"TABLE", "ADD", "CONSTRAINT", "COLUMN", "ON", "USING", "NOT", "NULL", "DEFAULT", "PRIMARY", "UNIQUE",
            "CHECK", "FOREIGN", "REFERENCES", "CREATE", "DROP", "ALTER", "SELECT", "USER", "ORDER", "GROUP", "WHERE",
            "FROM", "TO", "AS", "AND", "OR", "ALL", "END", "LIMIT", "OFFSET", "IN", "DESC", "ASC"}


def expr_text(toks):
    """text of a run of tokens, with a canonical spacing"""
    while len(toks) > 2 and toks[0].k == "sym" and toks[0].v == "(" and toks[-1].k == "sym" and toks[-1].v == ")" \
            and encl(toks):
        toks = toks[1:-1]
    out = []
    for i, t in enumerate(toks):
        if i:
            out.append(" ")
        if t.k == "id":
            out.append('"')
            out.append(t.v)
            out.append('"')
        elif t.k == "str":
            out += ["'", t.v, "'"]
        else:
            out.append(t.v)
    return mks(out)


def encl(toks):
    d = 0
    for i, t in enumerate(toks):
        if t.k == "sym" and t.v == "(":
            d += 1
        elif t.k == "sym" and t.v == ")":
            d -= 1
            if d == 0 and i < len(toks) - 1:
                return False
    return True


def key_column(k):
    """the column that an index key is, or None"""
    if k.__class__ is str:
        return k[1:-1].replace('""', '"') if len(k) > 2 and k[0] == '"' and k[-1] == '"' else None
    q = list(sparts(k))
    if len(q) < 2 or q[0].__class__ is not str or q[-1].__class__ is not str:
        return None
    if len(q) == 2 or q[0] != '"' or q[-1].split(" ")[0] != '"':
        return None
    return mks(q[1:-1])


def canon(s):
    """opaque text (expression, type, query) in the canonical form of expr_text"""
    if s.__class__ is S and len(s.p) == 1:
        return s
    return expr_text(tokenize(s))


def deferr(p, c):
    d, i = None, None
    while True:
        if p.kw("NOT", "DEFERRABLE"):
            d = False
        elif p.kw("DEFERRABLE"):
            d = True
        elif p.kw("INITIALLY", "DEFERRED"):
            i = True
        elif p.kw("INITIALLY", "IMMEDIATE"):
            i = False
        else:
            break
    if i and d is None:
        d = True
    if i and d is False:
        raise SqlError("not-deferrable-deferred", "constraint declared INITIALLY DEFERRED must be DEFERRABLE")
    c["deferrable"], c["initially_deferred"] = bool(d), bool(i)
    return d, i


def column_def(p):
    c = dict(name=p.ident(), not_null=False, default=None)
    c["data_type"] = p.expr(("NOT", "NULL", "DEFAULT"))
    while True:
        if p.kw("NOT", "NULL"):
            c["not_null"] = True
        elif p.kw("NULL"):
            c["not_null"] = False
        elif p.kw("DEFAULT"):
            c["default"] = p.expr(("NOT", "NULL", "DEFAULT"))
        else:
            return c


def phrase(p):
    t = p.peek()
    if t is not None and t.k == "raw":
        p.i += 1
        return t.v
    for ws in (("NO", "ACTION"), ("SET", "NULL"), ("SET", "DEFAULT"), ("CASCADE",), ("RESTRICT",), ("SIMPLE",),
               ("FULL",), ("PARTIAL",)):
        if p.kw(*ws):
            return " ".join(ws)
    raise SqlError("syntax", "unexpected %r" % (t,))


def constraint_def(p, c):
    if p.kw("PRIMARY", "KEY"):
        c["kind"] = "PrimaryKey"
        c["columns"] = p.names()
    elif p.kw("UNIQUE"):
        c["kind"] = "Unique"
        c["columns"] = p.names()
    elif p.kw("CHECK"):
        c["kind"] = "Check"
        p.needsym("(")
        c["expression"] = p.expr()
        p.needsym(")")
    elif p.kw("FOREIGN", "KEY"):
        c["kind"] = "ForeignKey"
        c["columns"] = p.names()
        p.need("REFERENCES")
        c["target_schema"], c["target_table"] = p.qname()
        c["target_columns"] = p.names()
        c["match_option"], c["update_rule"], c["delete_rule"] = "SIMPLE", "NO ACTION", "NO ACTION"
        while True:
            if p.kw("MATCH"):
                c["match_option"] = phrase(p)
            elif p.kw("ON", "UPDATE"):
                c["update_rule"] = phrase(p)
            elif p.kw("ON", "DELETE"):
                c["delete_rule"] = phrase(p)
            else:
                break
    else:
        raise SqlError("syntax", "constraint expected at %r" % (p.t[p.i:p.i + 3],))
    deferr(p, c)
    if c["kind"] == "Check" and c["deferrable"]:
        raise SqlError("check-deferrable", "CHECK constraints cannot be marked DEFERRABLE")
    return c


def fn_name(p):
    a = p.ident()
    if not p.sym("."):
        raise SqlError("syntax", "function name is not schema-qualified")
    b = p.ident()
    args = []
    p.needsym("(")
    d = 1
    while True:
        t = p.peek()
        if t is None:
            raise SqlError("syntax", "unterminated argument list")
        p.i += 1
        if t.k == "sym" and t.v == "(":
            d += 1
        if t.k == "sym" and t.v == ")":
            d -= 1
            if d == 0:
                break
        args.append(t)
    return a, b, (expr_text(args) if args else "")


def number(p):
    t = p.peek()
    p.i += 1
    neg = False
    if t is not None and t.k == "sym" and t.v == "-":
        neg = True
        t = p.peek()
        p.i += 1
    if t is None:
        raise SqlError("syntax", "number expected")
    if t.k == "w" and t.v.lstrip("-").isdigit():
        return -int(t.v) if neg else int(t.v)
    if t.k == "raw" and t.v.__class__ is S and len(t.v.p) == 1 and t.v.p[0].__class__ is Num:
        return -t.v.p[0].e if neg else t.v.p[0].e
    if t.k == "raw":
        return t.v
    raise SqlError("syntax", "number expected at %r" % (t,))


def same(a, b):
    """are two names equal (decides; forks when open)"""
    return M().branch(str_eq(a, b)) if M() is not None else a == b


class DB:
    """Model of the server's catalogue. strict: dependency rules are enforced."""

    def __init__(self, strict=True):
        self.schemas = []      # {name, relations:[], functions:[]}
        self.strict = strict
        self.tolerate = set()
        self.tolerated = []

    # -- lookups
    def find(self, l, name):
        for x in l:
            if same(x["name"], name):
                return x
        return None

    def schema(self, n):
        s = self.find(self.schemas, n)
        if s is None:
            raise SqlError("no-schema", "schema %r does not exist" % (n,))
        return s

    def rel(self, q, kind=None):
        s = self.schema(q[0])
        r = self.find(s["relations"], q[1])
        if r is None:
            raise SqlError("no-relation", "relation %r.%r does not exist" % q)
        if kind and r["kind"] != kind:
            raise SqlError("wrong-kind", "%r.%r is not a %s but a %s" % (q[0], q[1], kind, r["kind"]))
        return s, r

    def free(self, s, n):
        if self.find(s["relations"], n) is not None:
            raise SqlError("exists", "relation %r already exists" % (n,))
        for r in s["relations"]:
            if r["kind"] == "Table":
                for c in r["constraints"]:
                    if c["kind"] in ("PrimaryKey", "Unique") and same(c["name"], n):
                        raise SqlError("exists", "relation %r already exists (index of a constraint)" % (n,))

    def column(self, t, n):
        c = self.find(t["columns"], n)
        if c is None:
            raise SqlError("no-column", "column %r of %r does not exist" % (n, t["name"]))
        return c

    def constraint(self, t, n):
        c = self.find(t["constraints"], n)
        if c is None:
            raise SqlError("no-constraint", "constraint %r of %r does not exist" % (n, t["name"]))
        return c

    def fks_to(self, s, t):
        out = []
        for s2 in self.schemas:
            for r in s2["relations"]:
                if r["kind"] == "Table":
                    for c in r["constraints"]:
                        if c["kind"] == "ForeignKey" and same(c["target_schema"], s["name"]) and \
                                same(c["target_table"], t["name"]):
                            out.append((s2, r, c))
        return out

    def same_cols(self, a, b):
        return len(a) == len(b) and all(any(same(x, y) for y in b) for x in a)

    # -- execution
    def run(self, sql):
        sts = split_statements(tokenize(sql))
        if len(sts) != 1:
            raise SqlError("syntax", "expected one statement, found %d" % len(sts))
        p = P(sts[0])
        self.statement(p)

    def statement(self, p):
        if p.kw("CREATE", "SCHEMA"):
            n = p.ident()
            p.end()
            if self.find(self.schemas, n) is not None:
                raise SqlError("exists", "schema %r already exists" % (n,))
            self.schemas.append(dict(name=n, relations=[], functions=[]))
        elif p.kw("DROP", "SCHEMA"):
            n = p.ident()
            p.end()
            s = self.schema(n)
            if self.strict and (s["relations"] or s["functions"]):
                raise SqlError("dependent", "cannot drop schema %r because other objects depend on it" % (n,))
            self.schemas.remove(s)
        elif p.kw("CREATE", "TABLE"):
            self.create_table(p)
        elif p.kw("DROP", "TABLE"):
            q = p.qname()
            p.end()
            s, t = self.rel(q, "Table")
            if self.strict:
                for s2, r, c in self.fks_to(s, t):
                    if r is not t:
                        raise SqlError("dependent", "cannot drop table %r: %r of %r references it" % (
                            t["name"], c["name"], r["name"]))
            s["relations"].remove(t)
            if self.strict:
                self.cascade(s, t)
        elif p.kw("ALTER", "TABLE"):
            q = p.qname()
            s, t = self.rel(q, "Table")
            self.alter_table(p, s, t)
            while p.sym(","):
                self.alter_table(p, s, t)
            p.end()
        elif p.kw("CREATE", "UNIQUE", "INDEX"):
            self.create_index(p, True)
        elif p.kw("CREATE", "INDEX"):
            self.create_index(p, False)
        elif p.kw("DROP", "INDEX"):
            s, r = self.rel(self.q_end(p), "Index")
            s["relations"].remove(r)
        elif p.kw("CREATE", "SEQUENCE"):
            self.create_sequence(p)
        elif p.kw("ALTER", "SEQUENCE"):
            s, r = self.rel(p.qname(), "Sequence")
            self.sequence_options(p, s, r, True)
            p.end()
        elif p.kw("DROP", "SEQUENCE"):
            s, r = self.rel(self.q_end(p), "Sequence")
            s["relations"].remove(r)
        elif p.kw("CREATE", "VIEW"):
            q = p.qname()
            p.need("AS")
            query = expr_text(p.t[p.i:]) if p.t[p.i:] else None
            if query is None:
                raise SqlError("syntax", "query expected")
            s = self.schema(q[0])
            self.free(s, q[1])
            s["relations"].append(dict(kind="View", name=q[1], query=query))
        elif p.kw("DROP", "VIEW"):
            s, r = self.rel(self.q_end(p), "View")
            s["relations"].remove(r)
        elif p.kw("CREATE", "FUNCTION"):
            self.create_function(p)
        elif p.kw("DROP", "FUNCTION"):
            a, b, args = fn_name(p)
            p.end()
            s = self.schema(a)
            f = self.function(s, b, args)
            if f is None:
                raise SqlError("no-function", "function %r does not exist" % (b,))
            s["functions"].remove(f)
        else:
            raise SqlError("syntax", "unknown statement %r" % (p.t[:4],))

    def function(self, s, name, args):
        for f in s["functions"]:
            if same(f["name"], name) and same(f["args"], args):
                return f
        return None

    def q_end(self, p):
        q = p.qname()
        p.end()
        return q

    def cascade(self, s, t):
        """objects that go with a dropped table"""
        for r in list(s["relations"]):
            if r["kind"] == "Index" and same(r["table_name"], t["name"]):
                s["relations"].remove(r)
            elif r["kind"] == "Sequence" and r["owned_by_table"] is not None and same(r["owned_by_table"], t["name"]):
                s["relations"].remove(r)

    def create_table(self, p):
        q = p.qname()
        s = self.schema(q[0])
        self.free(s, q[1])
        t = dict(kind="Table", name=q[1], columns=[], constraints=[])
        p.needsym("(")
        if not p.sym(")"):
            while True:
                if p.kw("CONSTRAINT"):
                    t["constraints"].append(constraint_def(p, dict(name=p.ident())))
                else:
                    c = column_def(p)
                    if self.find(t["columns"], c["name"]) is not None:
                        raise SqlError("exists", "column specified more than once")
                    t["columns"].append(c)
                if p.sym(")"):
                    break
                p.needsym(",")
        p.end()
        s["relations"].append(t)

    def alter_table(self, p, s, t):
        if p.kw("ADD", "CONSTRAINT"):
            c = constraint_def(p, dict(name=p.ident()))
            if self.find(t["constraints"], c["name"]) is not None:
                raise SqlError("exists", "constraint %r already exists" % (c["name"],))
            for n in c.get("columns", ()):
                col = self.column(t, n) if self.strict else None
            if self.strict:
                if c["kind"] in ("PrimaryKey", "Unique"):
                    self.free(s, c["name"])
                if c["kind"] == "PrimaryKey" and any(x["kind"] == "PrimaryKey" for x in t["constraints"]):
                    raise SqlError("two-primary-keys", "multiple primary keys for table %r" % (t["name"],))
                if c["kind"] == "ForeignKey":
                    s2, t2 = self.rel((c["target_schema"], c["target_table"]), "Table")
                    for n in c["target_columns"]:
                        self.column(t2, n)
                    if not any(x["kind"] in ("PrimaryKey", "Unique") and self.same_cols(x["columns"], c["target_columns"])
                               for x in t2["constraints"]) and not self.unique_index(s2, t2, c["target_columns"]):
                        raise SqlError("no-unique", "there is no unique constraint matching given keys for %r" % (
                            t2["name"],))
            t["constraints"].append(c)
            if c["kind"] == "PrimaryKey" and self.strict:
                for n in c["columns"]:
                    self.column(t, n)["not_null"] = True
        elif p.kw("ADD", "COLUMN") or p.kw("ADD"):
            c = column_def(p)
            if self.find(t["columns"], c["name"]) is not None:
                raise SqlError("exists", "column %r already exists" % (c["name"],))
            t["columns"].append(c)
        elif p.kw("DROP", "CONSTRAINT"):
            c = self.constraint(t, p.ident())
            if self.strict and c["kind"] in ("PrimaryKey", "Unique"):
                for s2, r, f in self.fks_to(s, t):
                    if self.same_cols(f["target_columns"], c["columns"]) and f is not c:
                        others = [x for x in t["constraints"] if x is not c and x["kind"] in ("PrimaryKey", "Unique")
                                  and self.same_cols(x["columns"], c["columns"])]
                        if not others:
                            raise SqlError("dependent", "cannot drop constraint %r: %r depends on it" % (
                                c["name"], f["name"]))
            t["constraints"].remove(c)
        elif p.kw("ALTER", "CONSTRAINT"):
            c = self.constraint(t, p.ident())
            d, i = deferr(p, {})
            if c["kind"] != "ForeignKey":
                code = "alter-constraint-" + c["kind"]
                if code not in self.tolerate:
                    raise SqlError(code, "constraint %r is not a foreign key constraint" % (c["name"],))
                self.tolerated.append(code)
            c["deferrable"] = bool(d)
            c["initially_deferred"] = bool(i)
        elif p.kw("DROP", "COLUMN"):
            c = self.column(t, p.ident())
            t["columns"].remove(c)
            if self.strict:
                for k in list(t["constraints"]):
                    if any(same(n, c["name"]) for n in k.get("columns", ())):
                        t["constraints"].remove(k)
                for s2, r, f in self.fks_to(s, t):
                    if any(same(n, c["name"]) for n in f["target_columns"]):
                        raise SqlError("dependent", "cannot drop column %r: %r depends on it" % (c["name"], f["name"]))
                for r in list(s["relations"]):
                    if r["kind"] == "Sequence" and r["owned_by_table"] is not None and same(
                            r["owned_by_table"], t["name"]) and same(r["owned_by_column"], c["name"]):
                        s["relations"].remove(r)
        elif p.kw("RENAME", "COLUMN"):
            c = self.column(t, p.ident())
            p.need("TO")
            n = p.ident()
            if self.find([x for x in t["columns"] if x is not c], n) is not None:
                raise SqlError("exists", "column %r already exists" % (n,))
            c["name"] = n
        elif p.kw("ALTER", "COLUMN") or p.kw("ALTER"):
            c = self.column(t, p.ident())
            if p.kw("SET", "DATA", "TYPE") or p.kw("TYPE"):
                c["data_type"] = p.expr(("USING",))
                if p.kw("USING"):
                    p.expr()
            elif p.kw("SET", "DEFAULT"):
                c["default"] = p.expr()
            elif p.kw("DROP", "DEFAULT"):
                c["default"] = None
            elif p.kw("SET", "NOT", "NULL"):
                c["not_null"] = True
            elif p.kw("DROP", "NOT", "NULL"):
                if self.strict:
                    for k in t["constraints"]:
                        if k["kind"] == "PrimaryKey" and any(same(n, c["name"]) for n in k["columns"]):
                            raise SqlError("in-primary-key", "column %r is in a primary key" % (c["name"],))
                c["not_null"] = False
            else:
                raise SqlError("syntax", "unknown column action %r" % (p.t[p.i:p.i + 3],))
        else:
            raise SqlError("syntax", "unknown table action %r" % (p.t[p.i:p.i + 3],))

    def unique_index(self, s, t, cols):
        """is there a unique index on exactly these columns"""
        for r in s["relations"]:
            if r["kind"] == "Index" and len(r["key_expressions"]) == len(cols) and same(r["table_name"], t["name"]):
                ks = [key_column(k) for k in r["key_expressions"]]
                if None not in ks and M().branch(r["unique"]) and self.same_cols(ks, cols):
                    return True
        return False

    def create_index(self, p, unique):
        n = p.ident()
        p.need("ON")
        q = p.qname()
        s, t = self.rel(q, "Table")
        method = "btree"
        if p.kw("USING"):
            x = p.peek()
            p.i += 1
            if x is None or x.k not in ("w", "raw", "id"):
                raise SqlError("syntax", "index method expected")
            method = x.v
        p.needsym("(")
        keys = [p.expr()]
        while p.sym(","):
            keys.append(p.expr())
        p.needsym(")")
        p.end()
        self.free(s, n)
        s["relations"].append(dict(kind="Index", name=n, table_name=t["name"], unique=unique, method=method,
                                   key_expressions=keys))

    def create_sequence(self, p):
        q = p.qname()
        s = self.schema(q[0])
        self.free(s, q[1])
        r = dict(kind="Sequence", name=q[1], data_type="int8", increment=1, min_value=None, max_value=None, start=None,
                 cache=1, cycle=False, owned_by_table=None, owned_by_column=None)
        self.sequence_options(p, s, r, False)
        p.end()
        s["relations"].append(r)

    def sequence_options(self, p, s, r, alter):
        while p.peek() is not None:
            if p.kw("AS"):
                r["data_type"] = p.expr(("INCREMENT", "MINVALUE", "MAXVALUE", "START", "CACHE", "CYCLE", "NO", "OWNED"))
            elif p.kw("INCREMENT", "BY") or p.kw("INCREMENT"):
                r["increment"] = number(p)
            elif p.kw("MINVALUE"):
                r["min_value"] = number(p)
            elif p.kw("MAXVALUE"):
                r["max_value"] = number(p)
            elif p.kw("START", "WITH") or p.kw("START"):
                r["start"] = number(p)
            elif p.kw("CACHE"):
                r["cache"] = number(p)
            elif p.kw("NO", "CYCLE"):
                r["cycle"] = False
            elif p.kw("CYCLE"):
                r["cycle"] = True
            elif p.kw("OWNED", "BY"):
                if p.kw("NONE"):
                    r["owned_by_table"] = r["owned_by_column"] = None
                else:
                    a = p.ident()
                    p.needsym(".")
                    b = p.ident()
                    p.needsym(".")
                    c = p.ident()
                    s2, t = self.rel((a, b), "Table")
                    if s2 is not s:
                        raise SqlError("schema", "sequence must be in same schema as table it is linked to")
                    if self.strict:
                        self.column(t, c)
                    r["owned_by_table"], r["owned_by_column"] = b, c
            else:
                raise SqlError("syntax", "unknown sequence option %r" % (p.t[p.i:p.i + 3],))

    def create_function(self, p):
        a, b, args = fn_name(p)
        f = dict(name=b, args=args, returns=None, language=None, volatility="VOLATILE", body=None)
        stop = ("LANGUAGE", "AS", "VOLATILE", "STABLE", "IMMUTABLE", "RETURNS")
        while p.peek() is not None:
            t = p.peek()
            if p.kw("RETURNS"):
                f["returns"] = self.word(p, stop)
            elif p.kw("LANGUAGE"):
                x = p.peek()
                if x is None or x.k not in ("w", "raw", "id", "str"):
                    raise SqlError("syntax", "language name expected")
                p.i += 1
                f["language"] = x.v
            elif p.kw("AS"):
                x = p.peek()
                if x is None or x.k != "str":
                    raise SqlError("syntax", "function body is not a string literal")
                p.i += 1
                f["body"] = x.v
            elif t.k == "w" and t.v.upper() in ("VOLATILE", "STABLE", "IMMUTABLE"):
                p.i += 1
                f["volatility"] = t.v
            elif t.k == "raw" and t.v.__class__ is S and len(t.v.p) == 1 and getattr(t.v.p[0], "kind", None) == "volatility":
                p.i += 1
                f["volatility"] = t.v
            else:
                raise SqlError("syntax", "unknown function option %r" % (p.t[p.i:p.i + 3],))
        for k in ("language", "body"):
            if f[k] is None:
                raise SqlError("syntax", "no function %s specified" % k)
        s = self.schema(a)
        if self.function(s, b, args) is not None:
            raise SqlError("exists", "function %r already exists" % (b,))
        s["functions"].append(f)

    def word(self, p, stop):
        t = p.peek()
        if t is not None and t.k == "raw":
            p.i += 1
            return t.v
        return p.expr(stop + ("\0",))


# ------------------------------------------------------------------ snapshot <-> catalogue

def rec(m, v, t):
    """symbolic Rust value -> plain python"""
    ty = m.ty(t)
    k = ty["k"]
    if k in ("bool", "int", "uint"):
        return v
    p = ty["path"]
    if p == "std::string::String":
        return v.s
    if p == "std::option::Option":
        return None if m.discr(v) == 0 else rec(m, v.f[0], ty["args"][0])
    if p == "std::vec::Vec":
        return [rec(m, x, ty["args"][0]) for x in v.items]
    if p.endswith("HashMap"):
        return [(a.s, rec(m, b, ty["args"][1])) for a, b in v.entries]
    vi = m.discr(v) if len(ty["variants"]) > 1 else 0
    var = ty["variants"][vi]
    if len(ty["variants"]) > 1 and len(var["fields"]) == 1:
        d = rec(m, v.f[0], var["fields"][0][1])
        if isinstance(d, dict):
            d = dict(d)
            d["kind"] = var["name"]
        return d
    return {f[0]: rec(m, x, f[1]) for f, x in zip(var["fields"], v.f)}


def split_fn(name):
    """function name in the snapshot -> (name, argument text)"""
    if name.__class__ is str:
        i = name.find("(")
        if i < 0:
            return name, ""
        inner = name[i + 1:].rstrip()
        inner = inner[:-1] if inner.endswith(")") else inner
        return name[:i].rstrip(), (expr_text(tokenize(inner)) if inner.strip() else "")
    if len(name.p) == 1:
        return name, ""
    # <atom> "(" ... ")"
    a = name.p[0]
    inner = list(name.p[1:])
    inner[0] = inner[0][inner[0].index("(") + 1:]
    inner[-1] = inner[-1][:inner[-1].rindex(")")]
    x = mks(inner)
    return S((a,)), (expr_text(tokenize(x)) if x != "" else "")


def from_snapshot(r, strict=True):
    """catalogue holding exactly what a snapshot (as produced by rec) describes"""
    db = DB(strict)
    for _, s in r["schemas"]:
        d = dict(name=s["name"], relations=[], functions=[])
        for _, x in s["relations"]:
            y = {k: v for k, v in x.items() if k != "schema_name"}
            if y["kind"] == "Table":
                y["columns"] = [dict(name=c["name"], data_type=canon(c["data_type"]), not_null=c["not_null"],
                                     default=None if c["default"] is None else canon(c["default"])) for c in x["columns"]]
                cs = []
                for _, c in x["constraints"]:
                    c = {k: v for k, v in c.items() if k not in ("schema_name", "table_name")}
                    if c["kind"] == "Check":
                        c["expression"] = canon(c["expression"])
                    cs.append(c)
                y["constraints"] = cs
            elif y["kind"] == "View":
                q = y["query"]
                y["query"] = canon(q)
            elif y["kind"] == "Index":
                y["key_expressions"] = [canon(k) for k in y["key_expressions"]]
            elif y["kind"] == "Sequence":
                y["data_type"] = canon(y["data_type"])
            d["relations"].append(y)
        for _, f in s["functions"]:
            n, a = split_fn(f["name"])
            d["functions"].append(dict(name=n, args=a, body=f["body"], language=canon(f["language"]),
                                       returns=canon(f["returns"]), volatility=f["volatility"]))
        db.schemas.append(d)
    return db


def val_eq(a, b):
    if a is None or b is None:
        return a is b
    if isinstance(a, (str, S)) and isinstance(b, (str, S)):
        return str_eq(a, b)
    if isinstance(a, list):
        if len(a) != len(b):
            return False
        return z3and([val_eq(x, y) for x, y in zip(a, b)])
    if isinstance(a, (str, S)) or isinstance(b, (str, S)):
        return False
    if isinstance(a, bool) and isinstance(b, bool):
        return a == b
    return a == b


def named_eq(a, b, what, keyed=("name",)):
    """lists of records as sets keyed by name -> (condition, description of a certain difference)"""
    conds = []
    if len(a) != len(b):
        return False, "%s: %s instead of %s" % (what, [x["name"] for x in a], [x["name"] for x in b])
    rest = list(b)
    for x in a:
        y = None
        for c in rest:
            if all(same(x[k], c[k]) for k in keyed):
                y = c
                break
        if y is None:
            return False, "%s: unexpected %s" % (what, x["name"])
        rest.remove(y)
        for k in sorted(set(x) | set(y)):
            if k in ("constraints", "columns") and x.get("kind") == "Table":
                continue
            if k == "relations":
                c, why = named_eq(x[k], y[k], "relations")
            elif k == "functions":
                c, why = named_eq(x[k], y[k], "functions", ("name", "args"))
            else:
                c, why = val_eq(x.get(k), y.get(k)), None
            if c is False:
                return False, why or "%s %s: %s is %s instead of %s" % (what, x["name"], k, x.get(k), y.get(k))
            conds.append(c)
        if x.get("kind") == "Table" and y.get("kind") == "Table":
            for k in ("columns", "constraints"):
                c, why = named_eq(x[k], y[k], "%s of %s" % (k, x["name"]))
                if c is False:
                    return False, why
                conds.append(c)
    return z3and(conds), None


def db_eq(a, b):
    return named_eq(a.schemas, b.schemas, "schemas")
