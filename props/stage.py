"""P09, P12, P13: definitions, what stage makes of them, and what that does to a server."""
import z3
import pg
import runs
from runs import Map, Text, Case, db, eq
from values import *
from props.history import G, INIT, config, file_of, profile, same_files, untouched, version, vpath, ASSUME as HASSUME
from props.defs import Defs, snapshot

ASSUME = HASSUME + (
    "names in definitions do not begin or end with white space; a name in a foreign key's references has no '.'; the table of an index is not named "
    "delete or update or like these followed by white space",
    "column types have no '=' and '!'; types, expressions, queries, bodies and keyword-valued options are opaque text",
)

STAGE = vpath("stage")
DEFS = "/w/defs/x.yaml"
PUBLIC = dict(name="public", relations=[], functions=[])


def steps_case(g, docs, steps, files=(), **kw):
    st = version("stage", "init")
    return Case([("/w/.podo.yaml", config(database=profile())), (vpath("init"), INIT()), (STAGE, st)] + list(docs) + list(files),
                ["/w/hist", "/w/defs"], steps=steps, users=g.users, **kw)


def stage_of(j, o):
    s = file_of(o.files, STAGE)
    j.require(s is not None and s.__class__ is Map, "there is no stage after stage")
    return s


def ok(j, o, what):
    j.require(o.exit == 0, "%s fails: %s" % (what, o.why or repr(o.stderr)))


def server(snap):
    return pg.from_snapshot(snap, strict=True)


def run(j, srv, sqls, what):
    srv.tolerate = set(j.known)
    for q in sqls:
        try:
            srv.run(q)
        except pg.SqlError as e:
            j.require(False, "%s: statement %r fails on the server: %s" % (what, q, e.msg), e.code)
            return False
    for k in srv.tolerated:
        j.tag("KNOWN:" + k)
    return True


def leaves(j, srv, snap, what):
    c, why = pg.db_eq(srv, server(snap))
    j.require(c, "%s (%s)" % (what, why))


# ------------------------------------------------------------------ P09 a definition means what it says

def meaning(build):
    def make(m):
        g = G(m)
        d = Defs(m, g, m.choose(2, "notation"))
        schemas = build(m, d)
        case = steps_case(g, [(DEFS, Map([k for k, _ in schemas]))], [("stage", {})])
        return case, dict(want=snapshot(*[r for _, r in schemas]))
    return make


def judge_meaning(j, case, x, outs):
    o, = outs
    ok(j, o, "stage")
    st = stage_of(j, o)
    up = st.get("up")
    srv = server(snapshot(PUBLIC))
    if run(j, srv, up, "up"):
        leaves(j, srv, x["want"], "the staged statements do not make what the definitions say")
    if up:
        j.tag("statements")


def m_columns(m, d):
    t, a, b = d.name("t"), d.name("a"), d.name("b")
    return [d.schema("public", [d.table(t, [d.column(a), d.column(b)], [])])]


def plain_table(d, t, cols, cons=()):
    return d.table(t, [d.column(c, True, False, "int4") for c in cols], list(cons))


def m_keys(m, d):
    t, a, b, k = d.name("t"), d.name("a"), d.name("b"), d.name("k")
    kind = ("PrimaryKey", "Unique")[m.choose(2, "kind")]
    cols = [[a], [a, b]][m.choose(2, "columns")]
    return [d.schema("public", [plain_table(d, t, [a, b], [d.key_constraint(kind, k, cols)])])]


def m_check(m, d):
    t, a, k = d.name("t"), d.name("a"), d.name("k")
    return [d.schema("public", [plain_table(d, t, [a], [d.check(k)])])]


NODOT = ALLCH - {46}


def m_foreign(m, d):
    t, u = d.name("t"), d.name("u", cs=NODOT)
    a, b, k, f = d.name("a"), d.name("b"), d.name("k"), d.name("f")
    n = 1 + m.choose(2, "columns")
    other = m.choose(2, "other schema") == 1
    s = d.name("s", cs=NODOT) if other else "public"
    if other:
        m.add(z3not(str_eq(s, "public")))
    target = plain_table(d, u, [a, b], [d.key_constraint("Unique", k, [a, b][:n], False)])
    fk = plain_table(d, t, [a, b], [d.foreign_key(f, [a, b][:n], (s, u, [a, b][:n]), True, other)])
    return [d.schema("public", [fk]), d.schema(s, [target])] if other else [d.schema("public", [fk, target])]


def m_index(m, d):
    t, a, i = d.name("t", not_first="du"), d.name("a"), d.name("i")
    return [d.schema("public", [d.index(i, t, 1 + m.choose(2, "keys")), plain_table(d, t, [a])])]


def m_sequence(m, d):
    t, a, q = d.name("t"), d.name("a"), d.name("q")
    own = m.choose(2, "owned") == 1
    return [d.schema("public", [d.sequence(q, (t, a) if own else None), plain_table(d, t, [a])])]


def m_other(m, d):
    v, t, a = d.name("v"), d.name("t"), d.name("a")
    k = m.choose(3, "what")
    if k == 0:
        return [d.schema("public", [d.view(v)])]
    if k == 1:
        return [d.schema("public", [], [d.function(d.fname(m.choose(2, "args") == 1))])]
    s = d.name("s")
    m.add(z3not(str_eq(s, "public")))
    return [d.schema("public", []), d.schema(s, [d.view(v), plain_table(d, t, [a])])]


KINDS = [("columns", m_columns, "a table of two columns, with and without not null and default"),
         ("keys", m_keys, "primary key or unique constraint of one or two columns, with and without deferrability"),
         ("check", m_check, "a check constraint"),
         ("foreign", m_foreign, "a foreign key of one or two columns in the same or another schema, every attribute given or left out"),
         ("index", m_index, "an index of one or two keys, every attribute given or left out"),
         ("sequence", m_sequence, "a sequence, its attributes given or left out, owned or not"),
         ("others", m_other, "a view, a function, a second schema")]


EXPRCH = frozenset(range(32, 127)) | {10}


def make_expression(n):
    """a column whose type, not null and default are any text"""
    def make(m):
        m.any_map_order = False
        g = G(m)
        k = 1 + m.choose(n, "length")
        cs = []
        for _ in range(k):
            e = z3.BitVec(m.fresh("c"), 32)
            m.add(z3.Or(z3.And(z3.UGE(e, 32), z3.ULE(e, 126)), e == 10))
            cs.append(Ch(e, 1))
        is_ = lambda c, t: m.branch(z3.Or([c.e == ord(x) for x in t]))

        def trim(l):
            l = list(l)
            while l and is_(l[0], " \n"):
                l.pop(0)
            while l and is_(l[-1], " \n"):
                l.pop()
            return l
        i = 0
        while i < k and not is_(cs[i], "=!"):
            i += 1
        type_, rest = trim(cs[:i]), cs[i:]
        nn = bool(rest) and is_(rest[0], "!")
        want = None         # not said
        if nn:
            rest = rest[1:]
        body = trim(rest)
        if type_ and not rest:
            want = dict(data_type=mks(type_), not_null=nn, default=None)
        elif type_ and body:
            if is_(body[0], "="):
                d = trim(body[1:])
                if d:
                    want = dict(data_type=mks(type_), not_null=nn, default=mks(d))
            else:
                want = "refused"
        elif not cs[:i]:
            want = "refused"
        doc = Map([("schema public", Map([("table t", Map([("column c", mks(cs))]))]))])
        return steps_case(g, [(DEFS, doc)], [("stage", {})]), dict(want=want)
    return make


def judge_expression(j, case, x, outs):
    o, = outs
    w = x["want"]
    j.require(o.exit not in (101, "hang"), "stage panics")
    if w is None:
        return
    if w == "refused":
        j.require(o.exit != 0, "stage accepts a column that is no type, not null and default")
        j.require(same_files(case.files, o.files), "the failing stage changes files")
        j.tag("refused")
        return
    ok(j, o, "stage")
    ch = stage_of(j, o).get("changes")
    j.require(eq(ch, [Map([("type", "CreateTableChange"), ("change", Map([
        ("schema", "public"), ("table", "t"), ("columns", [Map([("name", "c")] + [(k, w[k]) for k in ("data_type", "not_null", "default")])])]))])]),
        "the column's type, not null and default are not what stands in its definition")
    j.tag("column")


def p09(c):
    c.assume(*ASSUME)
    for n, b, desc in KINDS:
        c.check(n, desc + "; two notations", meaning(b), judge_meaning, tags=("statements",))
    n = 5 if c.quick else 7
    c.check("expression", "a column written as any text of up to %d characters (printable ASCII and line ends)" % n, make_expression(n), judge_expression,
            tags=("refused", "column"))


# ------------------------------------------------------------------ P12, P13 from one state of the definitions to the next

def transition(build, make_, order):
    """stage A; make or not; write B; stage; stage again"""
    def make(m):
        m.any_map_order = order
        g = G(m)
        d = Defs(m, g)
        a, b = build(m, d)
        mk = make_ == 1 or (make_ == 2 and m.choose(2, "make") == 1)
        steps = [("stage", {})] + ([("make", {"version": "one"})] if mk else []) + \
            [("@write", dict(path=DEFS, doc=Map([k for k, _ in b]))), ("stage", {}), ("stage", {})]
        case = steps_case(g, [(DEFS, Map([k for k, _ in a]))], steps)
        return case, dict(a=snapshot(*[r for _, r in a]), b=snapshot(*[r for _, r in b]), made=mk)
    return make


def entries(j, st):
    up, down, ch = st.get("up"), st.get("down"), st.get("changes")
    for n, x in (("up", up), ("down", down), ("changes", ch)):
        j.require(x.__class__ is list, "the stage has no %s" % n)
    j.require(len(up) == len(down) == len(ch), "the stage has %d changes, %d up and %d down statements" % (len(ch), len(up), len(down)))
    return ch, up, down


def starts_with(j, l, head, what):
    j.require(len(l) >= len(head) and eq(l[:len(head)], head), what)


def judge_transition(which):
    def judge(j, case, x, outs):
        for o in outs:
            ok(j, o, "a step")
        o1, o3, o4 = outs[0], outs[-2], outs[-1]
        o2 = outs[1] if x["made"] else o1
        s1, s2, s3 = stage_of(j, o1), stage_of(j, o2), stage_of(j, o3)
        c1, u1, d1 = entries(j, s1)
        c2, u2, d2 = entries(j, s2)
        c3, u3, d3 = entries(j, s3)
        if "P12" in which:
            j.require(eq(stage_of(j, o4), s3), "staging what is staged already changes the stage")
            j.require(same_files(o3.files, o4.files), "staging what is staged already changes a file")
            j.tag("staged" if u3 else "nothing")
        if "P13" not in which:
            return
        starts_with(j, c3, c2, "stage changes what was staged before")
        starts_with(j, u3, u2, "stage changes the up statements staged before")
        n = len(u3) - len(u2)
        j.require(eq(d3[n:], d2), "stage changes the down statements staged before")
        for k in ("name", "previous"):
            j.require(eq(s3.get(k), s2.get(k)), "stage changes the stage's " + k)
        rest = [f for f in o2.files if f[0] != STAGE and f[0] != DEFS]
        j.require(same_files(rest, [f for f in o3.files if f[0] != STAGE and f[0] != DEFS]), "stage changes a file other than the stage")
        srv = server(snapshot(PUBLIC))
        if not run(j, srv, u1, "up"):
            return
        leaves(j, srv, x["a"], "the staged statements do not make what the definitions say")
        new = u3[len(u2):]
        if run(j, srv, new, "up of the second stage"):
            leaves(j, srv, x["b"], "the statements staged after the definitions changed do not make what they now say")
            if run(j, srv, d3[:n], "down of the second stage"):
                leaves(j, srv, x["a"], "the down statements do not lead back to what the definitions said before")
                if run(j, srv, d1, "down of the first stage"):
                    leaves(j, srv, snapshot(PUBLIC), "the down statements of the first stage do not lead back to the empty database")
        j.tag("staged" if new else "nothing")
    return judge


def sides(m, f):
    """an object in the first state, the second, or both (with contents of their own)"""
    k = m.choose(3, "present")
    return ([f()] if k != 1 else []), ([f()] if k != 0 else [])


def t_columns(m, d):
    t, a, b = d.name("t"), d.name("a"), d.name("b")
    x, y = sides(m, lambda: d.column(b))
    return [[d.schema("public", [d.table(t, [d.column(a, True, False, "int4")] + z, [])])] for z in (x, y)]


def t_keys(m, d):
    t, a, b, k = d.name("t"), d.name("a"), d.name("b"), d.name("k")

    def con():
        kind = ("PrimaryKey", "Unique", "Check")[m.choose(3, "kind")]
        if kind == "Check":
            return d.check(k)
        return d.key_constraint(kind, k, [[a], [b, a]][m.choose(2, "columns")])
    x, y = sides(m, con)
    return [[d.schema("public", [plain_table(d, t, [a, b], z)])] for z in (x, y)]


def t_foreign(full):
    def f(m, d):
        t, u = d.name("t"), d.name("u", cs=NODOT)
        a, b, k, f = d.name("a"), d.name("b"), d.name("k"), d.name("f")
        side = [0]

        def fk():
            side[0] += 1
            return d.foreign_key(f, [[a], [b]][m.choose(2, "column")], ("public", u, [a]), full or side[0] == 2)
        x, y = sides(m, fk)
        gone = bool(x) != bool(y) and m.choose(2, "target too") == 1     # the target comes and goes with the key
        return [[d.schema("public", [plain_table(d, t, [a, b], z)] + (
            [plain_table(d, u, [a], [d.key_constraint("PrimaryKey", k, [a], False)])] if z or not gone else []))] for z in (x, y)]
    return f


def t_index(m, d):
    t, a, i = d.name("t", not_first="du"), d.name("a"), d.name("i")
    x, y = sides(m, lambda: d.index(i, t, 1 + m.choose(2, "keys")))
    gone = bool(x) != bool(y) and m.choose(2, "table too") == 1
    return [[d.schema("public", z + ([plain_table(d, t, [a])] if z or not gone else []))] for z in (x, y)]


def t_sequence(full):
    def f(m, d):
        t, a, q = d.name("t"), d.name("a"), d.name("q")
        side = [0]

        def seq():
            side[0] += 1
            return d.sequence(q, (t, a) if m.choose(2, "owned") else None, full=full or (side[0] == 2 and "some"))
        x, y = sides(m, seq)
        return [[d.schema("public", z + [plain_table(d, t, [a])])] for z in (x, y)]
    return f


def t_others(m, d):
    k = m.choose(3, "what")
    v, t, a, f = d.name("v"), d.name("t"), d.name("a"), d.fname(k == 1 and m.choose(2, "args") == 1)
    if k == 0:
        x, y = sides(m, lambda: d.view(v))
        return [[d.schema("public", z)] for z in (x, y)]
    if k == 1:
        x, y = sides(m, lambda: d.function(f))
        return [[d.schema("public", [], z)] for z in (x, y)]
    s = d.name("s")
    m.add(z3not(str_eq(s, "public")))
    x, y = sides(m, lambda: d.schema(s, [d.view(v), plain_table(d, t, [a])][:m.choose(3, "objects")]))
    return [[d.schema("public", [])] + z for z in (x, y)]


TRANS = [("columns", t_columns, "a column that comes, goes or changes"),
         ("keys", t_keys, "a primary key, unique or check constraint that comes, goes or changes"),
         ("foreign", t_foreign(False), "a foreign key that comes, goes or changes, its target with it or not"),
         ("index", t_index, "an index that comes, goes or changes, its table with it or not"),
         ("sequence", t_sequence(False), "a sequence that comes, goes or changes"),
         ("others", t_others, "a view, a function or a schema that comes, goes or changes")]


DEEP = [("foreign", t_foreign(True), "a foreign key whose every attribute may change"),
        ("sequence", t_sequence(True), "a sequence whose every attribute may change")]


def family(which):
    def f(c):
        c.assume(*ASSUME)
        for n, b, desc in TRANS:
            c.check("then/" + n, desc + "; made into a version in between or not; hash maps in insertion order",
                    transition(b, 2, False), judge_transition({which}), tags=("staged", "nothing"))
        if not c.quick:
            for n, b, desc in TRANS + DEEP:
                c.check("any order/" + n, desc + "; made into a version in between; hash maps in any order",
                        transition(b, 1, True), judge_transition({which}), tags=("staged", "nothing"))
    return f


PROPS = {"P09": p09, "P12": family("P12"), "P13": family("P13")}
