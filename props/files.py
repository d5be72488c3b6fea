"""P08, P10: definitions that cannot be understood; definitions spread over files."""
import z3
import runs
from runs import Map, Text
from values import *
from props.history import G, NOSLASH, same_files
from props.defs import Defs, snapshot
from props.stage import ASSUME, DEFS, PUBLIC, STAGE, leaves, ok, plain_table, run, server, stage_of, steps_case

# ------------------------------------------------------------------ P10 definitions spread over files


def parts(m, d):
    """objects of one schema: [(namespace, definition)]"""
    t, a = d.name("t", not_first="du"), d.name("a")
    v, i, q, f = d.name("v"), d.name("i"), d.name("q"), d.fname()
    return [plain_table(d, t, [a]), [d.view(v), d.index(i, t, 1, False), d.sequence(q, (t, a), False), d.function(f, False)][m.choose(4, "second")]]


def is_fun(r):
    return "kind" not in r


def record(s, objs):
    return dict(name=s, relations=[(r["name"], r) for _, r in objs if not is_fun(r)], functions=[(r["name"], r) for _, r in objs if is_fun(r)])


PLACES = ["/w/defs/x.yaml", "/w/defs/y.yaml", "/w/defs/sub/z.yaml", "/w/defs/sub.yaml/w.yaml"]


def make_spread(m):
    m.any_map_order = False
    g = G(m)
    d = Defs(m, g)
    s = "public"
    if m.choose(2, "schema"):
        s = d.name("s")
        m.add(z3not(str_eq(s, "public")))
    objs = parts(m, d)
    n = m.choose(5, "files")
    # the files' names: any text without dots
    dot = NOSLASH - {46}
    first = mks(["/w/defs/", g.name("file", cs=dot, not_=("y", "public", "sub", "notes")), ".yaml"])
    sub = mks(["/w/defs/sub/", g.name("inner", cs=dot, not_=()), ".yaml"])
    places = [first, PLACES[1], sub, PLACES[3]]
    if n == 0:          # one file
        docs = [(places[0], Map([(d.key("schema", s), Map([k for k, _ in objs]))]))]
    elif n == 4:        # one file, the schema given twice
        docs = [(places[0], Map([(mks([("schema ", "Schema  ")[i], s]), Map([k])) for i, (k, _) in enumerate(objs)]))]
    else:
        docs = [(p, Map([(d.key("schema", s), Map([k]))])) for p, (k, _) in zip([places[0], places[n]], objs)]
    noise = m.choose(2, "noise") == 1
    if noise:
        docs += [("/w/defs/notes.txt", Text("a: [")), ("/w/defs/yaml", Text("a: [")), ("/w/defs/x.yaml.bak", Text("a: ["))]
    if s != "public":
        docs.append(("/w/defs/public.yaml", Map([("schema public", None)])))
    case = steps_case(g, docs, [("stage", {})], any_order=not noise)
    rec = record(s, objs)
    return case, dict(want=snapshot(*([rec] if s == "public" else [PUBLIC, rec])))


def judge_spread(j, case, x, outs):
    o, = outs
    ok(j, o, "stage")
    srv = server(snapshot(PUBLIC))
    if run(j, srv, stage_of(j, o).get("up"), "up"):
        leaves(j, srv, x["want"], "the staged statements do not make what the definitions say")
    j.tag("staged")


LAYOUTS = [("x", "a/x", "b/x"), ("a/x", "a/y", "b/x"), ("a/x", "b/x", "c/x"), ("x", "a/x", "a/a/x"), ("x", "y", "z"), ("x", "a/x", "b/x", "b/c/x"),
           ("a/x", "a/y", "b/x", "b/y")]


def make_many(m):
    """a table in each of several files, file names repeated over directories"""
    m.any_map_order = False
    g = G(m)
    d = Defs(m, g)
    files = LAYOUTS[m.choose(len(LAYOUTS), "layout")]
    cols = [d.name("a")] * len(files)
    objs = [plain_table(d, d.name("t", not_first="du"), [a]) for a in cols]
    docs = [("/w/defs/%s.yaml" % p, Map([("schema public", Map([k]))])) for p, (k, _) in zip(files, objs)]
    return steps_case(g, docs, [("stage", {})], any_order=True), dict(want=snapshot(record("public", objs)))


def make_twice(m):
    """two objects of one name where only one can be"""
    m.any_map_order = False
    g = G(m)
    d = Defs(m, g)
    n, t, u, a, b = d.name("n", not_first="du"), d.name("t", not_first="du"), d.name("u"), d.name("a"), d.name("b")
    kinds = [lambda: plain_table(d, n, [a]), lambda: d.view(n), lambda: d.index(n, t, 1, False), lambda: d.sequence(n, None, False)]
    k = m.choose(7, "kind")
    schema = lambda l: (d.key("schema", "public"), Map([x for x, _ in l]))
    base = plain_table(d, t, [a])
    if k < 4:
        l = m.choose(4, "other kind")
        one, two = kinds[k](), kinds[l]()
        spell = k == l
    elif k == 4:
        f = d.fname()
        one, two, spell = d.function(f, False), d.function(f, False), True
    elif k == 5:        # a column twice
        c1, c2 = d.column(a, True, False, "int4"), d.column(a, True, False, "int4")
        (x, y), r = c2
        one, two, spell = d.table(n, [c1, ((mks(["COLUMN ", a]), y), r)], []), None, False
    else:               # a constraint twice
        q = d.check(b)
        (x, y), r = d.check(b)
        one, two, spell = d.table(n, [d.column(a, True, False, "int4")], [q, ((mks(["CONSTRAINT ", b]), y), r)]), None, False
    if two is None:
        docs = [(PLACES[0], Map([schema([base, one])]))]
    else:
        where = m.choose(3, "where")
        if where == 0:
            if spell:   # the same key twice is no YAML: another spelling
                (x, y), r = two
                two = ((mks([x.p[0].upper()] + list(x.p[1:])), y), r)
            docs = [(PLACES[0], Map([schema([base, one, two])]))]
        else:
            docs = [(PLACES[0], Map([schema([base, one])])), (PLACES[where], Map([schema([two])]))]
    return steps_case(g, docs, [(("stage", "status")[m.choose(2, "command")], {})], any_order=True), {}


def judge_refused(j, case, x, outs):
    o, = outs
    j.require(o.exit != 101, "the command panics: %s" % o.why)
    j.require(o.exit != "hang", "the command does not end")
    j.require(o.exit != 0, "%s is accepted" % x.get("what", "an object defined twice"))
    j.require(o.stderr != "" and (o.stderr.__class__ is str or True), "the command fails without a message")
    j.require(same_files(case.files, o.files), "the failing command changes files")
    j.tag("refused")


def p10(c):
    c.assume(*ASSUME)
    c.check("spread", "two objects of a schema (public or another) in one file, two files, a subdirectory, or one file giving the schema twice; "
            "files of other kinds beside them; directories list their entries in any order", make_spread, judge_spread, tags=("staged",))
    c.check("many", "3 or 4 files over up to 4 directories, a table in each, listed in any order", make_many, judge_spread, tags=("staged",))
    c.check("twice", "two relations, functions, columns or constraints of the same name, in one file or two", make_twice, judge_refused,
            tags=("refused",))


# ------------------------------------------------------------------ P08 definitions that cannot be understood

KEYWORDS = ["foreign key", "initially deferred", "not null", "on delete", "on update", "owned by", "primary key", "as", "cache", "check",
            "column", "constraint", "cycle", "default", "deferrable", "function", "volatility", "increment", "index", "language", "match",
            "maxvalue", "method", "minvalue", "on", "references", "returns", "schema", "sequence", "start", "table", "type", "unique",
            "using", "view"]
VALUES = ("null", "bool", "int", "float", "string", "strings", "list", "nested", "map", "empty")
STR, BOOL, INT, STRS, MAP = ("string",), ("bool",), ("int",), ("string", "strings", "empty"), ("map", "null")
DEF = {"deferrable": (BOOL, 0), "initially deferred": (BOOL, 0)}
# what stands where: entries of an object -> (accepted kinds of value, a name is needed)
GRAMMAR = {
    "": {"schema": (MAP, 1)},
    "schema": {k: (MAP, 1) for k in ("table", "view", "sequence", "index", "function")},
    "table": {"column": (STR, 1), "constraint": (MAP, 1)},
    "view": {"as": (STR, 0)},
    "function": {"as": (STR, 0), "language": (STR, 0), "returns": (STR, 0), "volatility": (STR, 0)},
    "index": {"on": (STRS, 1), "unique": (BOOL, 0), "using": (STR, 0)},
    "sequence": dict({"as": (STR, 0), "cycle": (BOOL, 0), "owned by": (STR, 1)},
                     **{k: (INT, 0) for k in ("increment", "minvalue", "maxvalue", "start", "cache")}),
    "primary key": dict(DEF, **{"primary key": (STRS, 0)}),
    "unique": dict(DEF, unique=(STRS, 0)),
    "check": dict(DEF, check=(STR, 0)),
    "foreign key": dict(DEF, **{"foreign key": (STRS, 0), "references": (STRS, 1), "match": (STR, 0), "on update": (STR, 0),
                                "on delete": (STR, 0)}),
}
# what a definition cannot do without
NEEDED = {"view": ("as",), "function": ("as",), "index": ("on",), "foreign key": ("foreign key", "references")}
LEVELS = list(GRAMMAR)


def value(m, kind, some):
    return {"null": None, "bool": z3.Bool(m.fresh("b")), "int": z3.BitVec(m.fresh("i"), 64), "float": 1.5, "string": some, "strings": [some, "x"],
            "list": [some, z3.BitVec(m.fresh("i"), 64)], "nested": [[some], Map([("a", some)])], "map": Map([("a", some)]), "empty": []}[kind]


def base(level, d, n):
    """valid entries of an object: [(keyword, name, document)]"""
    return {
        "": [("schema", "public", Map([]))], "schema": [("view", n[0], Map([("as", "SELECT 1")]))],
        "table": [("column", n[0], "int4")], "view": [("as", None, "SELECT 1")], "function": [("as", None, "SELECT 1")],
        "index": [("on", n[0], n[1])], "sequence": [("as", None, "int4")], "primary key": [("primary key", None, n[0])],
        "unique": [("unique", None, n[0])], "check": [("check", None, "true")],
        "foreign key": [("foreign key", None, n[0]), ("references", n[1], n[0])],
    }[level]


def wrap(level, n, entries):
    e = Map(entries)
    if level == "":
        return e
    if level == "schema":
        return Map([("schema public", e)])
    rels = []
    if level == "index":
        rels = [(mks(["table ", n[0]]), Map([("column x", "int4")]))]
    if level == "foreign key":
        rels = [(mks(["table ", n[1]]), Map([(mks(["column ", n[0]]), "int4"), ("constraint unlike", Map([("primary key", n[0])]))]))]
    if level in ("table", "view", "function", "index", "sequence"):
        return Map([("schema public", Map(rels + [(mks([level, " ", n[2]]), e)]))])
    return Map([("schema public", Map(rels + [(mks(["table ", n[2]]), Map([(mks(["column ", n[0]]), "int4"), (mks(["constraint ", n[3]]), e)]))]))])


def entry(k, name, v):
    return (mks([k, " ", name]) if name is not None else k, v)


def make_odd(m):
    """one entry that may be anything, in an otherwise valid definition"""
    m.any_map_order = False
    g = G(m)
    d = Defs(m, g)
    n = [d.name("n", not_first="du", cs=ALLCH - {46, 40}) for _ in range(4)]
    level = LEVELS[m.choose(len(LEVELS), "level")]
    rules = GRAMMAR[level]
    k = m.choose(len(KEYWORDS) + 5, "key")
    if k == len(KEYWORDS) + 4:          # nothing odd: what is refused elsewhere is refused for its odd entry
        return steps_case(g, [(DEFS, wrap(level, n, [entry(*x) for x in base(level, d, n)]))], [("stage", {})]), dict(what="")
    kind = VALUES[m.choose(len(VALUES), "value")] if k < len(KEYWORDS) else "string"
    some = d.text("type")
    v = value(m, kind, some)
    what = None
    if k < len(KEYWORDS):
        kw = KEYWORDS[k]
        named = m.choose(2, "named") == 1
        rest = [x for x in base(level, d, n) if x[0] != kw]
        odd = entry(kw, d.name("z", not_first="du", cs=ALLCH - {46, 40}) if named else None, v)
        if kw not in rules:
            what = "%s in a definition of %s" % (kw, level or "the database")
        elif kind not in rules[kw][0]:
            what = "%s for %s" % (kind, kw)
        elif rules[kw][1] and not named:
            what = "%s without a name" % kw
    else:
        rest = base(level, d, n)
        odd = [(m.text(m.fresh("key"), cs=ALLCH, trim=False, first=frozenset([48, 95, 128, 120])), v),
               (mks([list(rules)[0], "x"]), v), (7, v), (None, v)][k - len(KEYWORDS)]
        what = "a key that says nothing"
    doc = wrap(level, n, [entry(*x) for x in rest] + [odd])
    case = steps_case(g, [(DEFS, doc)], [(("stage", "status")[m.choose(2, "command")] if what is None else "stage", {})])
    return case, dict(what=what)


def make_lacking(m):
    """a definition lacking something it needs"""
    m.any_map_order = False
    g = G(m)
    d = Defs(m, g)
    n = [d.name("n", not_first="du", cs=ALLCH - {46, 40}) for _ in range(4)]
    levels = ["view", "function", "index", "foreign key", "primary key", "unique", "check"]
    level = levels[m.choose(len(levels), "level")]
    lack = m.choose(2, "lack")
    rest = base(level, d, n)
    if lack == 0:
        rest = rest[1:]
        doc = wrap(level, n, [entry(*x) for x in rest])
    else:
        doc = wrap(level, n, [])
    return steps_case(g, [(DEFS, doc)], [("stage", {})]), dict(what="a definition of %s without what it needs" % level)


def make_document(m):
    """a file that is no mapping"""
    g = G(m)
    d = Defs(m, g)
    kinds = ["bool", "int", "string", "strings", "list"]
    k = m.choose(len(kinds) + 2, "document")
    some = d.text("type")
    doc = Text("a: [") if k == len(kinds) else Text("{") if k > len(kinds) else value(m, kinds[k], some)
    return steps_case(g, [(DEFS, doc)], [("stage", {})]), dict(what="a file that is no mapping")


def judge_odd(j, case, x, outs):
    o, = outs
    if x["what"] == "":
        j.require(o.exit == 0, "a definition that says nothing odd is refused: %r" % (o.stderr,))
        j.tag("plain")
        return
    if x["what"] is not None:
        return judge_refused(j, case, x, outs)
    j.require(o.exit != 101, "the command panics: %s" % o.why)
    j.require(o.exit != "hang", "the command does not end")
    if o.exit != 0:
        j.require(same_files(case.files, o.files), "the failing command changes files")
    j.tag("accepted" if o.exit == 0 else "refused")


def p08(c):
    c.assume(*ASSUME)
    c.check("odd", "definitions of every kind with one entry of any keyword (or none), named or not, with a value of any kind", make_odd, judge_odd,
            tags=("refused", "accepted", "plain"))
    c.check("lacking", "definitions of every kind without what they need", make_lacking, judge_refused, tags=("refused",))
    c.check("document", "a definitions file that is no mapping", make_document, judge_refused, tags=("refused",))


PROPS = {"P08": p08, "P10": p10}
