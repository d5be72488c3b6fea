"""P16: the changes recorded in version files: what each of them means, and that this is what stage records."""
import z3
import runs
from runs import Map, eq
from values import *
from props.history import G, file_of, same_files, version, vpath
from props.defs import Defs, snapshot
from props.stage import ASSUME, DEFS, NODOT, STAGE, KINDS, ok, plain_table, stage_of, steps_case, entries


def ch(kind, **fields):
    return Map([("type", kind + "Change"), ("change", Map(list(fields.items())))])


# ------------------------------------------------------------------ what makes an object

def col(c):
    return Map([(k, c[k]) for k in ("name", "data_type", "not_null", "default")])


def create_constraint(s, t, c):
    at = dict(schema=s, table=t, constraint=c["name"])
    de = dict(deferrable=c["deferrable"], initially_deferred=c["initially_deferred"])
    k = c["kind"]
    if k == "Check":
        return ch("AddCheck", **at, expression=c["expression"], **de)
    if k == "ForeignKey":
        return ch("AddForeignKey", **at, **{f: c[f] for f in ("columns", "target_schema", "target_table", "target_columns", "match_option",
                                                             "update_rule", "delete_rule")}, **de)
    return ch("Add" + k, **at, columns=c["columns"], **de)


def create_seq(s, r):
    return ch("CreateSequence", schema=s, sequence=r["name"], **{f: r[f] for f in ("data_type", "increment", "min_value", "max_value", "start",
                                                                                "cache", "cycle")})


def own(s, r):
    return ch("AlterSequenceOwnedBy", schema=s, sequence=r["name"], owned_by_table=r["owned_by_table"], owned_by_column=r["owned_by_column"])


def create_index(s, r):
    return ch("CreateIndex", schema=s, table=r["table_name"], index=r["name"],
              **{f: r[f] for f in ("unique", "method", "key_expressions")})


def create_fn(s, f):
    return ch("CreateFunction", schema=s, function=f["name"], **{k: f[k] for k in ("body", "language", "returns", "volatility")})


def creates(snap, new_schemas=True):
    """the changes that make all objects of a snapshot, in an order that works"""
    a, b, c, d = [], [], [], []
    for sn, s in snap["schemas"]:
        if sn.__class__ is not str or sn != "public":
            a.append(ch("CreateSchema", schema_name=sn))
        for _, r in s["relations"]:
            k = r["kind"]
            if k == "Table":
                b.append(ch("CreateTable", schema=sn, table=r["name"], columns=[col(x) for x in r["columns"]]))
                for _, x in r["constraints"]:
                    (d if x["kind"] == "ForeignKey" else c).append(create_constraint(sn, r["name"], x))
            elif k == "View":
                d.append(ch("CreateView", schema=sn, view=r["name"], query=r["query"]))
            elif k == "Index":
                c.append(create_index(sn, r))
            else:
                b.append(create_seq(sn, r))
                if r["owned_by_table"] is not None:
                    c.append(own(sn, r))
        for _, f in s["functions"]:
            b.append(create_fn(sn, f))
    return a + b + c + d


# ------------------------------------------------------------------ one change each

def base(d, n=2):
    """a table of two columns"""
    t, cs = d.name("t"), [d.name("c") for _ in range(n)]
    return t, cs, [d.column(c) for c in cs]


def tab(d, t, cols, cons=()):
    return d.schema("public", [d.table(t, cols, list(cons))])


def con_of(m, d, kind, n, cs):
    if kind == "Check":
        return d.check(n)
    if kind == "ForeignKey":
        return None
    return d.key_constraint(kind, n, [cs[0], cs[1]][:1 + m.choose(2, "columns")])


def f_create(build):
    def f(m, d):
        s = build(m, d)
        return creates(snapshot(*[r for _, r in s])), s
    return f


def f_column(what):
    def f(m, d):
        t, (a, b), cols = base(d)
        old = d.column(b)
        at = dict(schema="public", table=t, column=b)
        if what == "add":
            return creates(snapshot(tab(d, t, cols[:1])[1])) + [ch("AddColumn", schema="public", table=t, column=b, **{
                k: cols[1][1][k] for k in ("data_type", "not_null", "default")})], [tab(d, t, cols)]
        if what == "drop":
            return creates(snapshot(tab(d, t, cols[:1] + [old])[1])) + [ch("DropColumn", **at)], [tab(d, t, cols[:1])]
        if what == "rename":
            c = d.name("c")
            x, r = cols[1]
            new = d.column(c, r["not_null"], r["default"] if r["default"] is not None else False, r["data_type"])
            return creates(snapshot(tab(d, t, cols)[1])) + [ch("RenameColumn", from_schema="public", from_table=t, from_column=b, to_column=c)], \
                [tab(d, t, cols[:1] + [new])]
        o, n = old[1], cols[1][1]
        seq = [ch("AlterColumnSetDataType", **at, data_type=n["data_type"]), ch("AlterColumnSetDefault", **at, default=n["default"]),
               ch("AlterColumnSetNotNull", **at, not_null=n["not_null"])]
        return creates(snapshot(tab(d, t, cols[:1] + [old])[1])) + seq, [tab(d, t, cols)]
    return f


def f_constraint(kind, what):
    def f(m, d):
        t, (a, b), k = d.name("t"), (d.name("a"), d.name("b")), d.name("k")
        at = dict(schema="public", table=t, constraint=k)
        if kind == "ForeignKey":
            u, p = d.name("u", cs=NODOT), d.name("p")
            c = d.foreign_key(k, [a], ("public", u, [b]))
            rest = [plain_table(d, u, [b], [d.key_constraint("PrimaryKey", p, [b], False)])]
        else:
            c = con_of(m, d, kind, k, (a, b))
            rest = []
        x = c[1]
        if what == "drop":
            return creates(snapshot(d.schema("public", [plain_table(d, t, [a, b], [c])] + rest)[1])) + [ch("Drop" + kind, **at)], \
                [d.schema("public", [plain_table(d, t, [a, b])] + rest)]
        old = dict(x)
        old["deferrable"], old["initially_deferred"] = z3.Bool(m.fresh("d")), z3.Bool(m.fresh("i"))
        m.add(z3.Implies(old["initially_deferred"], old["deferrable"]))
        now = [d.schema("public", [plain_table(d, t, [a, b], [c])] + rest)]
        was = d.schema("public", [plain_table(d, t, [a, b], [(None, old)])] + rest) if False else dict(
            name="public", functions=[], relations=[(r["name"], r) for r in
                                                    [dict(plain_table(d, t, [a, b], [])[1], constraints=[(k, old)])] + [r for _, r in rest]])
        return creates(snapshot(was)) + [ch("Alter" + kind, **at, deferrable=x["deferrable"], initially_deferred=x["initially_deferred"])], now
    return f


def f_relation(kind):
    def f(m, d):
        t, (a, b), n = d.name("t", not_first="du"), (d.name("a"), d.name("b")), d.name("n")
        keep = plain_table(d, t, [a, b])
        at = dict(schema="public")
        if kind == "Table":
            o, at["table"] = plain_table(d, n, [a]), n
        elif kind == "View":
            o, at["view"] = d.view(n), n
        elif kind == "Index":
            o, at["index"] = d.index(n, t, 1, False), n
        elif kind == "Sequence":
            o, at["sequence"] = d.sequence(n, None, False), n
        else:
            n = d.fname()
            o, at["function"] = d.function(n, False), n
            return creates(snapshot(d.schema("public", [keep], [o])[1])) + [ch("DropFunction", **at)], [d.schema("public", [keep])]
        return creates(snapshot(d.schema("public", [keep, o])[1])) + [ch("Drop" + kind, **at)], [d.schema("public", [keep])]
    return f


def f_schema(m, d):
    s = d.name("s")
    m.add(z3not(str_eq(s, "public")))
    return [ch("CreateSchema", schema_name=s), ch("DropSchema", schema_name=s)], [d.schema("public", [])]


def f_disown(m, d):
    t, a, q = d.name("t"), d.name("a"), d.name("q")
    k = m.choose(2, "to")
    own_ = (t, a) if k else None
    x = d.sequence(q, own_, False)
    was = dict(x[1], owned_by_table=None, owned_by_column=None) if k else dict(x[1], owned_by_table=t, owned_by_column=a)
    keep = plain_table(d, t, [a])
    return creates(snapshot(dict(name="public", functions=[], relations=[(t, keep[1]), (q, was)]))) + [own("public", x[1])], \
        [d.schema("public", [keep, x])]


READ = [("make/" + n, f_create(b), desc) for n, b, desc in KINDS] + \
    [("column/" + w, f_column(w), "a column that was %s" % x) for w, x in (("add", "added"), ("drop", "dropped"), ("rename", "renamed"),
                                                                          ("alter", "altered"))] + \
    [("%s/%s" % (k, w), f_constraint(k, w), "a constraint that was %s" % x) for k in ("PrimaryKey", "Unique", "Check", "ForeignKey")
     for w, x in (("drop", "dropped"), ("alter", "altered")) if (k, w) != ("Check", "alter")] + \
    [("drop/" + k, f_relation(k), "an object that was dropped") for k in ("Table", "View", "Index", "Sequence", "Function")] + \
    [("drop/Schema", f_schema, "a schema that was dropped"), ("owner", f_disown, "a sequence whose owner was set or unset")]


def reading(f):
    def make(m):
        m.any_map_order = False
        g = G(m)
        d = Defs(m, g)
        changes, schemas = f(m, d)
        split = m.choose(2, "versions") if len(changes) > 1 else 0
        n = len(changes) - 1 if split else len(changes)
        files = [(vpath("one"), version("one", "init", changes[:n]))]
        if split:
            files.append((vpath("two"), version("two", "one", changes[n:])))
        last = "two" if split else "one"
        case = steps_case(g, [(DEFS, Map([k for k, _ in schemas]))], [("stage", {})], files=files)
        case.files = [(p, version("stage", last) if p == STAGE else t) for p, t in case.files]
        return case, None
    return make


def judge_reading(j, case, x, outs):
    o, = outs
    ok(j, o, "stage")
    c, u, d = entries(j, stage_of(j, o))
    j.require(len(c) == 0, "what was recorded is not what it was: stage adds %r" % (c,))
    j.require(same_files(case.files, o.files), "stage changes a file although nothing changed")
    j.tag("read")


def writing(build):
    def make(m):
        m.any_map_order = False
        g = G(m)
        d = Defs(m, g)
        schemas = build(m, d)
        case = steps_case(g, [(DEFS, Map([k for k, _ in schemas]))], [("stage", {})])
        return case, creates(snapshot(*[r for _, r in schemas]))
    return make


def covers(got, want):
    """condition: got has all that want has"""
    if want.__class__ is not Map:
        if want.__class__ is list:
            if got.__class__ is not list or len(got) != len(want):
                return False
            return z3and([covers(a, b) for a, b in zip(got, want)])
        return eq(got, want)
    if got.__class__ is not Map:
        return False
    cs = []
    for k, v in want.l:
        if not any(a == k for a, _ in got.l):
            return False
        cs.append(covers(got.get(k), v))
    return z3and(cs)


def judge_writing(j, case, x, outs):
    o, = outs
    ok(j, o, "stage")
    c, _, _ = entries(j, stage_of(j, o))
    left = list(x)
    j.require(len(c) == len(x), "stage records %d changes where %d make what is defined" % (len(c), len(x)))
    for y in c:
        for i, w in enumerate(left):
            if runs.core.M.branch(covers(y, w)):
                del left[i]
                break
        else:
            j.require(False, "stage records %r" % (y,))
            return
    j.tag("written")


# ------------------------------------------------------------------ changes that cannot have happened

def make_wrong(m):
    """a recorded change about something that is not there"""
    m.any_map_order = False
    g = G(m)
    d = Defs(m, g)
    t, (a, b) = d.name("t"), (d.name("a"), d.name("b"))
    k, n = d.name("k"), d.name("n")
    m.add(z3not(str_eq(n, t)))
    at, col_ = dict(schema="public", table=t), dict(schema="public", table=t, column=b)
    de = dict(deferrable=True, initially_deferred=False)
    miss = dict(schema="public", table=n)
    wrong = [
        ch("DropTable", **miss), ch("DropView", schema="public", view=n), ch("DropIndex", schema="public", index=n),
        ch("DropSequence", schema="public", sequence=n), ch("DropFunction", schema="public", function=n),
        ch("DropColumn", **col_), ch("AlterColumnSetDataType", **col_, data_type="int8"), ch("AlterColumnSetDefault", **col_, default=None),
        ch("AlterColumnSetNotNull", **col_, not_null=True), ch("RenameColumn", from_schema="public", from_table=t, from_column=b, to_column=n),
        ch("AddColumn", **miss, column=a, data_type="int4", not_null=False, default=None),
        ch("AddCheck", **miss, constraint=k, expression="true", **de), ch("AddUnique", **miss, constraint=k, columns=[a], **de),
        ch("DropColumn", **miss, column=a), ch("DropUnique", **miss, constraint=k), ch("AlterUnique", **miss, constraint=k, **de),
        ch("CreateTable", schema=n, table=t, columns=[]), ch("CreateView", schema=n, view=t, query="SELECT 1"), ch("DropTable", schema=n, table=t),
        ch("AlterSequenceOwnedBy", schema="public", sequence=n, owned_by_table=None, owned_by_column=None),
    ] + [ch("Drop" + x, **at, constraint=k) for x in ("PrimaryKey", "Unique", "Check", "ForeignKey")] + \
        [ch("Alter" + x, **at, constraint=k, **de) for x in ("PrimaryKey", "Unique", "ForeignKey")] + [
        ch("Rename", **at), Map([("type", "DropTableChange")]), Map([("change", Map([("schema", "public")]))]), "DropTableChange",
        ch("CreateView", schema="public", view=n), ch("CreateTable", schema="public", table=n, columns=[Map([("name", a)])])]
    m.add(z3not(str_eq(n, "public")))
    w = wrong[m.choose(len(wrong), "change")]
    defs = [d.schema("public", [plain_table(d, t, [a])])]
    changes = creates(snapshot(*[r for _, r in defs]))
    case = steps_case(g, [(DEFS, Map([x for x, _ in defs]))], [(("stage", "status")[m.choose(2, "command")], {})],
                      files=[(vpath("one"), version("one", "init", changes + [w]))])
    case.files = [(p, version("stage", "one") if p == STAGE else f) for p, f in case.files]
    return case, None


def judge_wrong(j, case, x, outs):
    o, = outs
    j.require(o.exit != 101, "the command panics: %s" % o.why)
    j.require(o.exit != 0, "a recorded change that cannot have happened is passed over")
    j.require(o.stderr != "", "the command fails without a message")
    j.require(same_files(case.files, o.files), "the failing command changes files")
    j.tag("refused")


def p16(c):
    c.assume(*ASSUME)
    for n, f, desc in READ:
        c.check("read/" + n, desc + "; recorded in one version or two", reading(f), judge_reading, tags=("read",))
    for n, b, desc in KINDS:
        c.check("write/" + n, desc, writing(b), judge_writing, tags=("written",))
    c.check("wrong", "one recorded change about something that is not there", make_wrong, judge_wrong, tags=("refused",))


PROPS = {"P16": p16}
