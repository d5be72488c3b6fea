"""A PostgreSQL server as far as podo's bookkeeping needs one: transactions, one kind of table, the SELECT /
INSERT / DELETE / UPDATE statements over it.  Everything else is a user statement, which is recorded.
Works on concrete and symbolic text alike."""
from values import *
import core
import catalog
from pg import SqlError


def M():
    return core.M


def same(a, b):
    if a is None or b is None:
        return False
    return M().branch(str_eq(a, b))


TYPES = {"VARCHAR": "text", "TEXT": "text", "NAME": "text", "CHAR": "text", "JSON": "json", "JSONB": "json", "TIMESTAMP": "time",
         "TIMESTAMPTZ": "time", "INT": "int", "INTEGER": "int", "INT4": "int", "BIGINT": "int8", "INT8": "int8", "SERIAL": "int",
         "BIGSERIAL": "int8", "BOOL": "bool", "BOOLEAN": "bool", "REGCLASS": "oid", "OID": "oid"}


class Col:
    def __init__(self, name, type):
        self.name, self.type = name, type
        self.notnull = self.unique = self.pk = False
        self.default = None
        self.serial = False
        self.ref = None


class Table:
    def __init__(self, schema, name, cols):
        self.schema, self.name, self.cols, self.rows, self.seq = schema, name, cols, [], 0

    def copy(self):
        t = Table(self.schema, self.name, self.cols)
        t.rows = [dict(r) for r in self.rows]
        t.seq = self.seq
        return t

    def col(self, n):
        for c in self.cols:
            if same(c.name, n):
                return c
        raise SqlError("42703", "column %r does not exist" % (n,))


class State:
    def __init__(self):
        self.schemas, self.tables, self.log = [], [], []

    def copy(self):
        s = State()
        s.schemas, s.tables, s.log = list(self.schemas), [t.copy() for t in self.tables], list(self.log)
        return s


class Server:
    def __init__(self, url, is_user=None, fails=None):
        self.url, self.state = url, State()
        self.is_user = is_user
        self.fails = fails            # (statement text) -> bool
        self.nseq = 0
        self.attempts = []
        self.clock = 0
        self.commits = []             # the states after each commit
        self.catalog = None           # the system catalogs (catalog.Builder.done)

    def begin(self):
        return Tx(self)


class Tx:
    """one transaction; the server keeps its state until commit"""

    def __init__(self, srv):
        self.srv, self.st, self.aborted, self.done = srv, srv.state.copy(), False, False
        srv.clock += 1
        self.at = srv.clock           # now(): the same for the whole transaction

    def commit(self):
        """PostgreSQL turns COMMIT of a failed transaction into ROLLBACK without an error"""
        if not self.aborted and not self.done:
            # sequences are not transactional, but rows and objects are
            self.srv.state = self.st
            self.srv.commits.append(self.st.copy())
        self.done = True

    def run(self, sql, params=None, ptypes=None):
        """-> (columns [(name, type)], rows, affected)"""
        if self.aborted:
            raise SqlError("25P02", "current transaction is aborted")
        try:
            return Stmt(self, sql, params, ptypes).run()
        except SqlError:
            self.aborted = True
            raise


class Parser(catalog.Parser):
    """names in FROM are the tables of a state"""

    def __init__(self, sql, st):
        super().__init__(sql)
        self.st = st
        self.tables = {}

    def table_ref(self, schema, name):
        t = find_table(self.st, schema, name)
        for k, x in self.tables.items():
            if x is t:
                return k
        k = "t%d" % len(self.tables)
        self.tables[k] = t
        return k

    def qname(self):
        a = self.ident()
        if self.sym("."):
            return a, self.ident()
        raise SqlError("42601", "name is not schema-qualified: %r" % (a,))

    def names(self):
        self.need("(")
        out = [self.ident()]
        while self.sym(","):
            out.append(self.ident())
        self.need(")")
        return out

    def end(self):
        self.sym(";")
        if self.peek()[0] != "end":
            raise SqlError("42601", "syntax error at %r" % (self.t[self.i:self.i + 4],))


def all_schemas(st):
    return ["pg_catalog", "information_schema", "public"] + st.schemas


def find_table(st, s, n):
    def made(cols, rows):
        t = Table(s, n, [Col(c, ty) for c, ty in cols])
        t.rows = rows
        return t
    if s.__class__ is str and s == "pg_catalog" or s is None:
        if n == "pg_namespace":
            return made([("nspname", "text"), ("oid", "oid")], [{"nspname": x, "oid": i} for i, x in enumerate(all_schemas(st))])
        if n == "pg_class":
            return made([("relname", "text"), ("relnamespace", "oid"), ("oid", "oid"), ("relkind", "text")],
                        [{"relname": t.name, "oid": 1000 + j, "relkind": "r", "relnamespace": [i for i, x in enumerate(all_schemas(st)) if same(t.schema, x)][0]}
                         for j, t in enumerate(st.tables)])
        if n == "pg_tables":
            return made([("schemaname", "text"), ("tablename", "text")], [{"schemaname": x.schema, "tablename": x.name} for x in st.tables])
    if s.__class__ is str and s == "information_schema":
        if n == "schemata":
            return made([("schema_name", "text")], [{"schema_name": x} for x in all_schemas(st)])
        if n == "tables":
            return made([("table_schema", "text"), ("table_name", "text"), ("table_type", "text")],
                        [{"table_schema": x.schema, "table_name": x.name, "table_type": "BASE TABLE"} for x in st.tables])
    if s is None:
        raise SqlError("42P01", "relation %r does not exist" % (n,))
    for t in st.tables:
        if same(t.schema, s) and same(t.name, n):
            return t
    if not any(same(s, x) for x in all_schemas(st)):
        raise SqlError("3F000", "schema %r does not exist" % (s,))
    raise SqlError("42P01", "relation %r.%r does not exist" % (s, n))


class Query(catalog.Query):
    """expressions and SELECT over a state"""

    def __init__(self, stmt):
        self.stmt = stmt
        super().__init__(None, stmt.sql, stmt.params, stmt.given)

    def parse(self, sql):
        self.p = Parser(sql, self.stmt.st)
        self.now = self.stmt.tx.at
        self.ctes = self.p.ctes

    def table_cols(self, name):
        return {c.name: c.type for c in self.p.tables[name].cols}

    def table_rows(self, name):
        return self.p.tables[name].rows

    def to_regclass(self, n):
        try:
            a = Parser(n, self.stmt.st).qname()
            return 1000 + self.stmt.st.tables.index(find_table(self.stmt.st, *a))
        except SqlError:
            return None

    def given_type(self, e, ty):
        """a bare parameter stands for a value of this type"""
        if e[0] == "param":
            self.ptypes.setdefault(e[1], ty)


class Stmt:
    def __init__(self, tx, sql, params, ptypes):
        self.tx, self.st, self.sql = tx, tx.st, sql
        self.params, self.given = params, ptypes
        self.ptypes = {}

    # ---- entry
    def run(self):
        srv = self.tx.srv
        if srv.is_user is not None and srv.is_user(self.sql):
            srv.attempts.append(self.sql)
            if srv.fails is not None and srv.fails(self.sql):
                raise SqlError("XX000", "statement fails")
            if self.params:
                raise SqlError("08P01", "statement takes no parameters")
            self.st.log.append(self.sql)
            return [], [], 0
        if srv.catalog is not None:
            q = catalog.Query(srv.catalog, self.sql, self.params, self.given)
            r = q.execute(self.describe_only())
            self.ptypes = q.ptypes
            return r
        self.q = q = Query(self)
        self.ptypes = q.ptypes
        self.p = p = q.p
        if p.is_select():
            q.q = p.statement()
            return q.execute(self.describe_only())
        if p.kw("CREATE", "SCHEMA"):
            ine = p.kw("IF", "NOT", "EXISTS")
            n = p.ident()
            p.end()
            if self.describe_only():
                return [], [], 0
            if any(same(n, s) for s in all_schemas(self.st)):
                if ine:
                    return [], [], 0
                raise SqlError("42P06", "schema already exists")
            self.st.schemas.append(n)
            return [], [], 0
        if p.kw("CREATE", "TABLE"):
            return self.create_table()
        if p.kw("INSERT", "INTO"):
            return self.insert()
        if p.kw("DELETE", "FROM"):
            return self.delete()
        if p.kw("UPDATE"):
            return self.update()
        if p.kw("LOCK") or p.kw("SET"):
            return [], [], 0
        raise SqlError("42601", "statement not understood: %r" % (self.sql,))

    def describe_only(self):
        return self.params is None

    # ---- INSERT, DELETE, UPDATE
    def target(self):
        p = self.p
        p.kw("ONLY")
        s, n = p.qname()
        return p.tables[self.p.table_ref(s, n)], (p.alias() or n)

    def returning(self, al, t):
        """columns and items of a RETURNING clause"""
        p, q = self.p, self.q
        items = []
        if p.kw("RETURNING"):
            while True:
                e = p.expr()
                items.append((e, p.alias()))
                if not p.sym(","):
                    break
        p.end()
        sc = [[(al, {c.name: c.type for c in t.cols})]]
        cols = []
        for e, a in items:
            if e[0] == "star":
                cols += [(c.name, c.type) for c in t.cols]
            else:
                cols.append((a or q.label(e), q.type_of(e, sc)))
        return cols, items

    def returned(self, items, al, t, rows):
        out = []
        for r in rows if items else ():
            l = []
            for e, _ in items:
                if e[0] == "star":
                    l += [r[c.name] for c in t.cols]
                else:
                    l.append(self.q.val(e, [{al: r}]))
            out.append(l)
        return out

    def check(self, exprs, sc):
        """types of parameters and expressions; -> is this only a description"""
        self.q.param_types(exprs, sc)
        for e in exprs:
            if e is not None and e.__class__ is tuple and e[0] not in ("default", "param"):
                self.q.type_of(e, sc)
        self.q.check_params(self.describe_only())
        return self.describe_only()

    def delete(self):
        p, q = self.p, self.q
        t, al = self.target()
        if p.kw("USING"):
            raise Unsupported("SQL: DELETE USING")
        c = p.expr() if p.kw("WHERE") else None
        cols, items = self.returning(al, t)
        sc = [[(al, {k.name: k.type for k in t.cols})]]
        if self.check([c] + [e for e, _ in items if e[0] != "star"], sc):
            return cols, [], 0
        gone = [r for r in t.rows if c is None or catalog.true(q.val(c, [{al: r}]))]
        keep = [r for r in t.rows if not any(r is g for g in gone)]
        for k in t.cols:
            if k.ref is not None:
                for r in keep:
                    if r[k.name] is not None:
                        for g in gone:
                            if same(g[k.ref], r[k.name]):
                                raise SqlError("23503", "row is still referenced")
        rows = self.returned(items, al, t, gone)
        t.rows = keep
        return cols, rows, len(gone)

    def update(self):
        p, q = self.p, self.q
        t, al = self.target()
        p.needkw("SET")
        sets = []
        while True:
            k = t.col(p.ident())
            p.need("=")
            e = p.expr()
            q.given_type(e, k.type)
            sets.append((k, e))
            if not p.sym(","):
                break
        if p.kw("FROM"):
            raise Unsupported("SQL: UPDATE FROM")
        c = p.expr() if p.kw("WHERE") else None
        cols, items = self.returning(al, t)
        sc = [[(al, {k.name: k.type for k in t.cols})]]
        if self.check([c] + [e for _, e in sets] + [e for e, _ in items if e[0] != "star"], sc):
            return cols, [], 0
        hit, vals = [], []
        for r in t.rows:
            if c is None or catalog.true(q.val(c, [{al: r}])):
                hit.append(r)
                vals.append([self.put(k, q.val(e, [{al: r}]) if e[0] != "default" else self.default(k)) for k, e in sets])
        for r, vs in zip(hit, vals):
            for (k, _), v in zip(sets, vs):
                if k.notnull and v is None:
                    raise SqlError("23502", "null value in column %s" % k.name)
                r[k.name] = v
        for k, _ in sets:
            if k.unique:
                for i, a in enumerate(t.rows):
                    for b in t.rows[:i]:
                        if (any(a is r for r in hit) or any(b is r for r in hit)) and self.eq(a[k.name], b[k.name]):
                            raise SqlError("23505", "duplicate key value in %s" % k.name)
        for k in t.cols:
            if k.ref is not None:
                for r in t.rows:
                    if r[k.name] is not None and not any(self.eq(x[k.ref], r[k.name]) for x in t.rows):
                        raise SqlError("23503", "foreign key violation: %s" % k.name)
        return cols, self.returned(items, al, t, hit), len(hit)

    def put(self, k, v):
        """a value as the column holds it"""
        if v is None or k.type in ("text", "json", "time", "bool") or k.type.endswith("[]"):
            return v
        if v.__class__ in (str, S):
            raise SqlError("42804", "column %s is not of type text" % k.name)
        return v

    def default(self, c):
        if c.serial:
            # sequences survive rollbacks
            self.tx.srv.nseq += 1
            return self.tx.srv.nseq
        return self.tx.at if c.default == "now" else None

    def insert(self):
        p, q = self.p, self.q
        s, n = p.qname()
        t = p.tables[p.table_ref(s, n)]
        al = p.ident(True) if p.kw("AS") else n
        names = p.names() if p.peek() == ("s", "(") and not (p.peek(1)[0] == "w" and p.peek(1)[1].upper() == "SELECT") else [
            c.name for c in t.cols]
        cols = [t.col(n) for n in names]
        sel = lines = None
        if p.kw("DEFAULT", "VALUES"):
            lines = [[]]
        elif p.kw("VALUES"):
            lines = []
            while True:
                p.need("(")
                l = [p.expr()]
                while p.sym(","):
                    l.append(p.expr())
                p.need(")")
                if len(l) > len(cols):
                    raise SqlError("42601", "INSERT has more expressions than target columns")
                for c, e in zip(cols, l):
                    q.given_type(e, c.type)
                lines.append(l)
                if not p.sym(","):
                    break
        else:
            sel = p.select()
            for c, (e, _) in zip(cols, sel["items"]):
                q.given_type(e, c.type)
        conflict = None
        if p.kw("ON", "CONFLICT"):
            conflict = ([], None)
            if p.sym("("):
                l = [t.col(p.ident())]
                while p.sym(","):
                    l.append(t.col(p.ident()))
                p.need(")")
                conflict = (l, None)
            elif p.kw("ON", "CONSTRAINT"):
                raise Unsupported("SQL: ON CONFLICT ON CONSTRAINT")
            p.needkw("DO")
            if not p.kw("NOTHING"):
                p.needkw("UPDATE")
                p.needkw("SET")
                sets = []
                while True:
                    k = t.col(p.ident())
                    p.need("=")
                    e = p.expr()
                    q.given_type(e, k.type)
                    sets.append((k, e))
                    if not p.sym(","):
                        break
                conflict = (conflict[0], sets)
        rcols, items = self.returning(al, t)
        d = {k.name: k.type for k in t.cols}
        if conflict and conflict[1]:
            self.check([e for _, e in conflict[1]], [[(al, d), ("excluded", d)]])
        self.check([e for e, _ in items if e[0] != "star"], [[(al, d)]])
        if self.check([e for l in lines for e in l] if lines is not None else [sel], [[]]):
            return rcols, [], 0
        if sel is not None:
            lines = [[("const", v, None) for v in r] for r in q.run(sel, [])]
        made = []
        for l in lines:
            row = {}
            for c, e in zip(cols, l):
                row[c.name] = self.default(c) if e[0] == "default" else self.put(c, q.val(e, [{}]))
            for c in t.cols:
                if c.name not in row:
                    row[c.name] = self.default(c)
            for c in t.cols:
                if c.notnull and row[c.name] is None:
                    raise SqlError("23502", "null value in column %s" % c.name)
            clash = None
            for c in t.cols:
                if c.unique and clash is None:
                    for r in t.rows:
                        if self.eq(r[c.name], row[c.name]):
                            clash = (c, r)
                            break
            if clash is not None:
                c, r = clash
                if conflict is None or conflict[0] and not any(c is k for k in conflict[0]):
                    raise SqlError("23505", "duplicate key value in %s" % c.name)
                if conflict[1] is not None:
                    vs = [(k, self.put(k, q.val(e, [{al: r, "excluded": row}]))) for k, e in conflict[1]]
                    for k, v in vs:
                        r[k.name] = v
                    made.append(r)
                continue
            for c in t.cols:
                if c.ref is not None and row[c.name] is not None:
                    if not any(self.eq(r[c.ref], row[c.name]) for r in t.rows + [row]):
                        raise SqlError("23503", "foreign key violation: %s" % c.name)
            t.rows.append(row)
            made.append(row)
        return rcols, self.returned(items, al, t, made), len(made)

    def eq(self, a, b):
        if a is None or b is None:
            return False
        if a.__class__ is int or b.__class__ is int:
            return a == b
        return same(a, b)

    # ---- CREATE TABLE
    def type_name(self):
        p = self.p
        k, v = p.peek()
        if k != "w" or v.upper() not in TYPES:
            raise SqlError("42704", "type expected at %r" % (v,))
        p.i += 1
        ty = TYPES[v.upper()]
        serial = v.upper().endswith("SERIAL")
        if p.sym("("):
            p.expr()
            p.need(")")
        if p.kw("WITH", "TIME", "ZONE") or p.kw("WITHOUT", "TIME", "ZONE"):
            pass
        if p.sym("["):
            p.need("]")
            ty += "[]"
        return ty, serial

    def create_table(self):
        p = self.p
        ine = p.kw("IF", "NOT", "EXISTS")
        s, n = p.qname()
        p.need("(")
        cols = []
        refs = []

        def col(x):
            for c in cols:
                if same(c.name, x):
                    return c
            raise SqlError("42703", "column %r does not exist" % (x,))

        def references(c):
            q = p.qname()
            c.ref = "name"
            if p.sym("("):
                c.ref = p.ident()
                p.need(")")
            while p.kw("ON", "DELETE") or p.kw("ON", "UPDATE"):
                if not (p.kw("NO", "ACTION") or p.kw("RESTRICT")):
                    raise Unsupported("SQL: referential action")
            if p.kw("DEFERRABLE"):
                raise Unsupported("SQL: DEFERRABLE")
            refs.append((q, c))
        while True:
            named = False
            if p.is_kw("CONSTRAINT"):
                p.i += 1
                p.ident()
                named = True
            if p.kw("PRIMARY", "KEY") or p.is_kw("UNIQUE") and p.peek(1) == ("s", "("):
                pk = not p.kw("UNIQUE")
                l = [col(x) for x in p.names()]
                if len(l) > 1:
                    raise Unsupported("SQL: key over several columns")
                l[0].unique = True
                if pk:
                    l[0].pk = l[0].notnull = True
            elif p.kw("FOREIGN", "KEY"):
                l = [col(x) for x in p.names()]
                if len(l) > 1:
                    raise Unsupported("SQL: key over several columns")
                p.needkw("REFERENCES")
                references(l[0])
            elif named or p.is_kw("CHECK"):
                raise Unsupported("SQL: constraint of a table")
            else:
                c = Col(p.ident(), None)
                c.type, c.serial = self.type_name()
                while True:
                    if p.kw("NOT", "NULL"):
                        c.notnull = True
                    elif p.kw("NULL"):
                        pass
                    elif p.kw("PRIMARY", "KEY"):
                        c.pk = c.notnull = c.unique = True
                    elif p.kw("UNIQUE"):
                        c.unique = True
                    elif p.kw("DEFAULT"):
                        e = p.expr()
                        if e[0] == "call" and e[1] in ("now", "current_timestamp", "clock_timestamp", "statement_timestamp"):
                            c.default = "now"
                        else:
                            raise Unsupported("SQL: default")
                    elif p.kw("REFERENCES"):
                        references(c)
                    else:
                        break
                cols.append(c)
            if not p.sym(","):
                break
        p.need(")")
        p.end()
        if self.describe_only():
            return [], [], 0
        if not any(same(s, x) for x in all_schemas(self.st)):
            raise SqlError("3F000", "schema does not exist")
        if any(same(t.schema, s) and same(t.name, n) for t in self.st.tables):
            if ine:
                return [], [], 0
            raise SqlError("42P07", "relation already exists")
        for (a, b), c in refs:
            if not (same(a, s) and same(b, n)):
                raise SqlError("42P01", "referenced relation does not exist")
            if not any(same(k.name, c.ref) and k.unique for k in cols):
                raise SqlError("42830", "no unique constraint on the referenced column")
        self.st.tables.append(Table(s, n, cols))
        return [], [], 0


def meta_table(schema):
    """the bookkeeping table as podo creates it"""
    cols = []
    for n, ty, f in (("name", "text", "pk"), ("previous", "text", "ref"), ("changes", "json", "nn"), ("up", "text[]", "nn"),
                     ("down", "text[]", "nn"), ("applied_at", "time", "now"), ("applied_order", "int", "serial")):
        c = Col(n, ty)
        c.notnull = f != "ref"
        c.pk = f == "pk"
        c.unique = f in ("pk", "serial")
        c.ref = "name" if f == "ref" else None
        c.serial = f == "serial"
        c.default = "now" if f == "now" else None
        cols.append(c)
    return Table(schema, "version", cols)
