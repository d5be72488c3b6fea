"""The outside world: documents (YAML, JSON), files, environment, command line, clock, database."""
import re
import z3
from values import *
import core
import models
import models2
from models import FN, fn, simple, isimple, IMPL, text, V, norm, MAPY
import strs
import rx

# ------------------------------------------------------------------ ordered maps (serde_yaml's mappings)

models.MAPY = MAPY = MAPY + ("indexmap::IndexMap", "indexmap::map::IndexMap", "indexmap::IndexSet", "indexmap::set::IndexSet")
for _k, _v in list(FN.items()):
    if _k.startswith("std::collections::HashMap::"):
        _n = _k.rsplit("::", 1)[1]
        for _p in ("indexmap::IndexMap::", "indexmap::map::IndexMap::"):
            FN[_p + _n] = _v
for _p in ("indexmap::IndexMap::", "indexmap::map::IndexMap::"):
    for _n in ("new", "with_capacity", "with_hasher", "with_capacity_and_hasher"):
        FN[_p + _n] = lambda ctx: (lambda *a: MapObj([], "index"))
    FN[_p + "shift_remove"] = FN[_p + "swap_remove"] = FN["std::collections::HashMap::remove"]
for _n in ("new", "with_capacity", "with_hasher", "with_capacity_and_hasher"):
    FN.setdefault("std::collections::HashMap::" + _n, lambda ctx: (lambda *a: MapObj([], "hash")))

# ------------------------------------------------------------------ documents

VAL = {}   # variant names of serde_yaml::Value, in the compiler's order


class Docs:
    def __init__(self, m):
        self.m = m
        self.VT = m.adt("serde_yaml::Value")
        ty = m.ty(self.VT)
        self.var = {v["name"]: i for i, v in enumerate(ty["variants"])}
        self.ST = m.adt("serde_yaml::value::Serializer")
        self.MT = m.adt("serde_yaml::Mapping")
        self.MAPFIELD = m.ty(self.MT)["variants"][0]["fields"][0][1]

    def ser(self, t):
        """T -> callable giving Result<Value, Error> for a pointer to a T"""
        m = self.m
        f = m.c.req("method", "serde::ser::Serialize::serialize", t, self.ST)["fn"]
        g = m.callable_fn(f)
        return lambda p: g(p, Agg(0, []))

    def de(self, t):
        m = self.m
        if t == self.VT:
            return lambda v: ok(v)
        f = m.c.req("method", "serde::de::Deserialize::deserialize", t, self.VT)["fn"]
        return m.callable_fn(f)

    # value constructors
    def null(self):
        return Agg(self.var["Null"], [])

    def bool(self, b):
        return Agg(self.var["Bool"], [b])

    def string(self, s):
        return Agg(self.var["String"], [StringObj(s)])

    def seq(self, l):
        return Agg(self.var["Sequence"], [VecObj(list(l))])

    def int(self, e):
        m = self.m
        nt = m.adt("serde_yaml::Number")
        i = m.c.req("method", "std::convert::From::from", nt, m.prim("i64"))["fn"]
        return Agg(self.var["Number"], [m.callable_fn(i)(e)])

    def float(self, x):
        m = self.m
        nt = m.adt("serde_yaml::Number")
        n = m.ty(m.ty(nt)["variants"][0]["fields"][0][1])
        i = next(i for i, v in enumerate(n["variants"]) if v["name"] == "Float")
        return Agg(self.var["Number"], [Agg(0, [Agg(i, [x])])])

    def map(self, pairs):
        """pairs (key text or value, value)"""
        es = []
        for k, v in pairs:
            if k.__class__ in (str, S):
                k = self.string(k)
            es.append([k, v])
        return Agg(self.var["Mapping"], [Agg(0, [MapObj(es, "index")])])

    def plain_map(self, v):
        """Value::Mapping -> Mapping struct"""
        return v.f[0]

    def copy(self, v):
        return models.clone_fn(self.m, self.VT)(v)

    def dup_keys(self, v):
        """does any mapping of the document repeat a key? (the readers reject that)"""
        m = self.m
        d = m.discr(v)
        if d == self.var["Sequence"]:
            return any(self.dup_keys(x) for x in v.f[0].items)
        if d == self.var["Mapping"]:
            es = v.f[0].f[0].entries
            eq = models.eq_fn(m, self.VT)
            for i in range(len(es)):
                for j in range(i):
                    if m.branch(eq(es[i][0], es[j][0])):
                        return True
            return any(self.dup_keys(x) for _, x in es)
        return False


def docs(m):
    d = getattr(m, "docs", None)
    if d is None:
        d = m.docs = Docs(m)
    return d


def doc_text(m, fmt, tree):
    """the text of a document whose parse is `tree`"""
    a = m.atom(m.fresh(fmt), cs=ALLCH, kind="doc", origin=("doc", fmt, tree))
    return S((a,))


def doc_tree(s):
    """the tree of a document text, or None"""
    if s.__class__ is S and len(s.p) == 1 and s.p[0].__class__ is Atom and s.p[0].origin and s.p[0].origin[0] == "doc":
        return s.p[0].origin[1:]
    return None


def yaml_error(m, msg):
    return Obj("serde_error", msg=msg, display=S((m.atom(m.fresh("docerror"), cs=ALLCH, kind="error"),)))


def do_ser(ctx, fmt, t):
    m = ctx.m

    def f(p):
        r = docs(m).ser(t)(p)
        if m.discr(r) != 0:
            return r, None
        return None, doc_text(m, fmt, r.f[0])
    return f


def do_de(ctx, fmt, t):
    m = ctx.m

    def f(s):
        tr = doc_tree(s)
        if tr is None:
            if s.__class__ is str:
                tr = ("", parse_literal(m, s))
                if tr[1] is None:
                    return err(yaml_error(m, "syntax"))
            else:
                raise Unsupported("parsing opaque text %r" % (s,))
        d = docs(m)
        tree = tr[1]
        if tree is None:
            return err(yaml_error(m, "syntax"))
        if tr[0] == "":
            tr = (fmt, tree)
        if tr[0] != fmt:
            raise Unsupported("%s text read as %s" % (tr[0], fmt))
        if t == d.VT:
            return ok(d.copy(tree))
        if t == d.MT:
            if m.discr(tree) != d.var["Mapping"] and m.discr(tree) != d.var["Null"]:
                return err(yaml_error(m, "invalid type: expected a YAML mapping"))
            if d.dup_keys(tree):
                return err(yaml_error(m, "duplicate entry"))
            if m.discr(tree) == d.var["Null"]:
                return ok(Agg(0, [MapObj([], "index")]))
            return ok(d.copy(tree).f[0])
        return d.de(t)(d.copy(tree))
    return f


def parse_literal(m, s):
    """concrete YAML text (only what the code itself could hold as a constant)"""
    d = docs(m)
    if not s.strip():
        return d.null()
    if re.fullmatch(r"\w+", s) and s not in ("true", "false", "null") and not s.isdigit():
        return d.string(s)
    if s in NO_DOCUMENT:
        return None
    raise Unsupported("parsing literal document text")


NO_DOCUMENT = ("a: [", "{")     # texts that are neither YAML nor JSON


for _f in ("serde_yaml", "serde_json"):
    _fmt = _f.split("_")[1]

    @fn(_f + "::to_string", _f + "::ser::to_string", _f + "::to_string_pretty", _f + "::ser::to_string_pretty")
    def _(ctx, fmt=_fmt):
        g = do_ser(ctx, fmt, ctx.targs[0])

        def f(p):
            e, s = g(p)
            return e if e is not None else ok(StringObj(s))
        return f

    @fn(_f + "::to_writer", _f + "::ser::to_writer", _f + "::to_writer_pretty", _f + "::ser::to_writer_pretty")
    def _(ctx, fmt=_fmt):
        g = do_ser(ctx, fmt, ctx.targs[1])
        m = ctx.m

        def f(w, p):
            e, s = g(p)
            if e is not None:
                return e
            if not write_to(m, w, s):
                return err(yaml_error(m, "write failed"))
            return ok(UNIT)
        return f

    @fn(_f + "::from_str", _f + "::de::from_str")
    def _(ctx, fmt=_fmt):
        g = do_de(ctx, fmt, ctx.targs[-1])
        return lambda s: g(text(s))

    @fn(_f + "::from_slice", _f + "::de::from_slice")
    def _(ctx, fmt=_fmt):
        g = do_de(ctx, fmt, ctx.targs[-1])
        return lambda s: g(content_text(s))

    @fn(_f + "::to_vec", _f + "::ser::to_vec", _f + "::to_vec_pretty", _f + "::ser::to_vec_pretty")
    def _(ctx, fmt=_fmt):
        g = do_ser(ctx, fmt, ctx.targs[0])

        def f(p):
            e, s = g(p)
            return e if e is not None else ok(VecObj(models.bytes_slice(s).l))
        return f

    @fn(_f + "::from_reader", _f + "::de::from_reader")
    def _(ctx, fmt=_fmt):
        g = do_de(ctx, fmt, ctx.targs[-1])
        m = ctx.m

        def f(r):
            s = read_all(m, r)
            if s is None:
                return err(yaml_error(m, "read failed"))
            return g(s)
        return f

    @fn(_f + "::to_value", _f + "::value::to_value")
    def _(ctx, fmt=_fmt):
        if fmt != "yaml":
            return None
        m = ctx.m
        return lambda v: docs(m).ser(ctx.targs[0])(Ptr([v], 0))


def write_to(m, w, s):
    x = w
    while x.__class__ is Ptr:
        x = x.c[x.i]
    if x.__class__ is Obj and x.kind == "file":
        return x.world.write_handle(x, s)
    models.out_write(m, w, s)
    return True


def read_all(m, r):
    x = r
    while x.__class__ is Ptr:
        x = x.c[x.i]
    if x.__class__ is Obj and x.kind == "file":
        return x.world.read_handle(x)
    if x.__class__ is SliceRef:     # &[u8]
        s = content_text(x)
        c, i = r.c, r.i
        c[i] = SliceRef([], 0, 0)
        return s
    raise Unsupported("read from %r" % (x,))


# ------------------------------------------------------------------ paths

SLASH = strs.Pat("set", frozenset([47]))


def comps(p):
    """(absolute?, components) of a path text; '.' and empty components dropped"""
    e, ms = strs.find_all(p, SLASH)
    out, a = [], 0
    for i, j in ms + [(len(e), len(e))]:
        c = mks(e[a:i])
        if not (c == "" or c == "."):
            out.append(c)
        a = j
    return bool(e) and e[0] == "/", out


def unsplit(ab, cs):
    l = []
    for i, c in enumerate(cs):
        if i or ab:
            l.append("/")
        l.append(c)
    return mks(l) if cs else ("/" if ab else "")


def parent_of(p):
    ab, cs = comps(p)
    if not cs:
        return None
    return unsplit(ab, cs[:-1])


def name_of(p):
    ab, cs = comps(p)
    if not cs or cs[-1] == "..":
        return None
    return cs[-1]


def split_ext(n):
    """(stem, extension or None) of a file name"""
    e = strs.explode(n)
    for i in range(len(e) - 1, 0, -1):
        x = e[i]
        if x.__class__ is Atom and 46 in x.cs:
            raise Unsupported("extension of opaque name %r" % (x,))
        if x.__class__ is Ch:
            if core.M.branch(x.e == 46):
                return mks(e[:i]), mks(e[i + 1:])
            continue
        if x == ".":
            return mks(e[:i]), mks(e[i + 1:])
    return n, None


def same(a, b):
    return core.M.branch(str_eq(a, b))


# ------------------------------------------------------------------ the world

class World:
    def __init__(self, m, cwd="/w"):
        self.m = m
        m.world = self
        self.files, self.dirs = [], ["/"]
        self.cwd = cwd
        self.any_order = True     # read_dir: any order
        self.env, self.open_env = [], False
        self.argv = None
        self.dbs = []
        self.stdout, self.stderr = [], []
        self.log = []
        self.fail = None          # (kind, path) -> bool: injected I/O failures
        self.clock = None
        self.exit = None
        self.opens = 0            # files opened; a run that goes on and on is one that hangs
        self.mkdirs(cwd)

    # ---- set-up and inspection
    def canon(self, p):
        ab, cs = comps(p)
        if not ab:
            cs = comps(self.cwd)[1] + cs
        out = []
        for c in cs:
            if c == "..":
                if out:
                    out.pop()
            else:
                out.append(c)
        return unsplit(True, out)

    def mkdirs(self, p):
        cs = comps(self.canon(p))[1]
        for i in range(1, len(cs) + 1):
            q = unsplit(True, cs[:i])
            if self.file(q) is not None:
                return False
            if not self.is_dir(q):
                self.dirs.append(q)
        return True

    def put(self, p, content):
        p = self.canon(p)
        self.mkdirs(parent_of(p))
        self.files.append([p, content])

    def yaml(self, p, tree):
        self.put(p, doc_text(self.m, "yaml", tree))

    def file(self, p):
        """file entry at a canonical path"""
        for f in self.files:
            if same(f[0], p):
                return f
        return None

    def is_dir(self, p):
        return any(same(d, p) for d in self.dirs)

    def failing(self, kind, p):
        return self.fail is not None and self.fail(kind, p)

    def opened(self):
        self.opens += 1
        if self.opens > 200:
            raise core.Diverge("the program opens files without end")

    # ---- handles
    def write_handle(self, h, s):
        if not h.w:
            return False
        if self.failing("write", h.path):
            return False
        h.entry[1] = cat(h.entry[1], s) if not h.entry[1] == "" else s
        self.log.append(("write", h.path, s))
        return True

    def read_handle(self, h):
        if not h.r or self.failing("read", h.path):
            return None
        return h.entry[1]

    def create(self, p):
        """-> entry or error"""
        q = self.canon(p)
        if self.is_dir(q):
            return None, io_error("is a directory")
        if not self.is_dir(parent_of(q)):
            return None, io_error("NotFound")
        if self.failing("create", q):
            return None, io_error("denied")
        f = self.file(q)
        if f is None:
            f = [q, ""]
            self.files.append(f)
        f[1] = ""
        self.log.append(("create", q))
        return f, None

    def children(self, p):
        out = []
        for l, isd in ((self.files, False), (self.dirs, True)):
            for f in l:
                q = f[0] if not isd else f
                if q == "/":
                    continue
                par = parent_of(q)
                if same(par, p):
                    out.append(Obj("direntry", path=q, isd=isd, name=name_of(q)))
        return out


def io_error(what):
    return Obj("io_error", what=what, display=S((core.M.atom(core.M.fresh("io"), cs=ALLCH, kind="error"),)))


KINDS = {"NotFound": "NotFound", "AlreadyExists": "AlreadyExists", "exists": "AlreadyExists", "InvalidInput": "InvalidInput",
         "denied": "PermissionDenied", "full": "StorageFull", "is a directory": "IsADirectory"}


def error_kind(m, out, what):
    if what.__class__ is Agg:
        return what
    for want in (KINDS.get(what, "Other"), "Other"):
        for i, v in enumerate(m.ty(out)["variants"]):
            if v["name"] == want:
                return Agg(i, [])
    raise Unsupported("kind of an I/O error")


@fn("std::io::Error::kind", "std::io::error::kind")
def _(ctx):
    return lambda p: error_kind(ctx.m, ctx.out, V(p).what)


@fn("std::io::Error::new", "std::io::error::new")
def _(ctx):
    m = ctx.m
    t = ctx.targs[0]
    return lambda k, e: Obj("io_error", what=k, display=models.fmt_val(m, t, Ptr([e], 0), "display"))


@fn("std::io::Error::other", "std::io::error::other")
def _(ctx):
    m = ctx.m
    t = ctx.targs[0]
    return lambda e: Obj("io_error", what="other", display=models.fmt_val(m, t, Ptr([e], 0), "display"))


@simple("std::convert::From<std::io::ErrorKind>::from")
def _(k):
    return Obj("io_error", what=k, display=S((core.M.atom(core.M.fresh("io"), cs=ALLCH, kind="error"),)))


def W():
    w = core.M.world
    if w is None:
        raise Unsupported("no outside world in this harness")
    return w


def ptext(p):
    return text(p)


@simple("std::env::current_dir")
def _():
    w = W()
    if w.failing("cwd", ""):
        return err(io_error("NotFound"))
    return ok(StringObj(w.cwd))


@simple("std::env::var", "std::env::var_os")
def _(n):
    w = W()
    m = core.M
    n = ptext(n)
    for k, v in w.env:
        if same(k, n):
            return err(Obj("VarError", display="environment variable not found")) if v is None else ok(StringObj(v))
    if not w.open_env:
        return err(Obj("VarError", display="environment variable not found"))
    v = None
    if m.choose(2, "env is set"):
        v = m.text(m.fresh("envval"), cs=ALLCH - {0}, ne=False, trim=False, kind="env")
    w.env.append([n, v])
    return err(Obj("VarError", display="environment variable not found")) if v is None else ok(StringObj(v))


FN["std::env::var_os"] = lambda ctx: (lambda n, g=FN["std::env::var"](None): (lambda r: some(r.f[0]) if r.v == 0 else none())(g(n)))


@simple("std::path::Path::exists", "std::path::Path::try_exists")
def _(p):
    w = W()
    q = w.canon(ptext(p))
    return w.is_dir(q) or w.file(q) is not None


FN["std::path::Path::try_exists"] = lambda ctx: (lambda p: ok(FN["std::path::Path::exists"](None)(p)))


@simple("std::path::Path::is_dir")
def _(p):
    w = W()
    return w.is_dir(w.canon(ptext(p)))


@simple("std::path::Path::is_file")
def _(p):
    w = W()
    return w.file(w.canon(ptext(p))) is not None


@simple("std::path::Path::extension")
def _(p):
    n = name_of(ptext(p))
    e = split_ext(n)[1] if n is not None else None
    return none() if e is None else some(e)


@simple("std::path::Path::file_stem")
def _(p):
    n = name_of(ptext(p))
    return none() if n is None else some(split_ext(n)[0])


@simple("std::path::Path::file_name")
def _(p):
    n = name_of(ptext(p))
    return none() if n is None else some(n)


@simple("std::path::Path::parent")
def _(p):
    q = parent_of(ptext(p))
    return none() if q is None else some(q)


@simple("std::path::Path::join")
def _(p, q):
    return StringObj(models.path_join(ptext(p), ptext(q)))


@simple("std::path::PathBuf::push")
def _(p, q):
    o = V(p)
    o.s = models.path_join(o.s, ptext(q))
    return UNIT


@simple("std::path::PathBuf::pop")
def _(p):
    o = V(p)
    q = parent_of(o.s)
    if q is None:
        return False
    o.s = q
    return True


@simple("std::path::PathBuf::set_extension")
def _(p, e):
    o = V(p)
    n = name_of(o.s)
    if n is None:
        return False
    st = split_ext(n)[0]
    o.s = models.path_join(parent_of(o.s), mks([st, ".", ptext(e)]) if not ptext(e) == "" else st)
    return True


@simple("std::path::Path::with_extension")
def _(p, e):
    b = StringObj(ptext(p))
    FN["std::path::PathBuf::set_extension"](None)(Ptr([b], 0), e)
    return b


@simple("std::path::Path::to_str", "std::ffi::OsStr::to_str")
def _(p):
    return some(ptext(p))


@simple("std::path::Path::to_string_lossy", "std::ffi::OsStr::to_string_lossy")
def _(p):
    return Agg(0, [ptext(p)])


@simple("std::path::Path::to_path_buf", "std::ffi::OsStr::to_os_string", "std::path::Path::to_owned")
def _(p):
    return StringObj(ptext(p))


@simple("std::ffi::OsString::into_string")
def _(p):
    return ok(StringObj(ptext(p)))


@simple("std::path::Path::as_os_str", "std::ffi::OsString::as_os_str", "std::path::PathBuf::into_os_string")
def _(p):
    return p if p.__class__ is StringObj else ptext(p)


@simple("std::path::Path::display", "std::ffi::OsStr::display")
def _(p):
    return Obj("text", s=ptext(p), display=ptext(p))


@simple("std::path::Path::is_absolute", "std::path::Path::has_root")
def _(p):
    return comps(ptext(p))[0]


@simple("std::path::Path::is_relative")
def _(p):
    return not comps(ptext(p))[0]


@simple("std::path::Path::starts_with")
def _(p, q):
    a, b = comps(ptext(p)), comps(ptext(q))
    return a[0] == b[0] and len(a[1]) >= len(b[1]) and all(same(x, y) for x, y in zip(a[1], b[1]))


@simple("std::path::Path::ends_with")
def _(p, q):
    a, b = comps(ptext(p)), comps(ptext(q))
    n = len(b[1])
    return len(a[1]) >= n and all(same(x, y) for x, y in zip(a[1][len(a[1]) - n:], b[1])) and (not b[0] or (a[0] and len(a[1]) == n))


@simple("std::path::Path::ancestors")
def _(p):
    out, q = [], ptext(p)
    while q is not None:
        out.append(q)
        q = parent_of(q)
    return models.SeqIt(out, 0, len(out), models.by_val)


@simple("std::path::Path::canonicalize", "std::fs::canonicalize", "std::path::absolute")
def _(p):
    w = W()
    q = w.canon(ptext(p))
    if w.is_dir(q) or w.file(q) is not None:
        return ok(StringObj(q))
    return err(io_error("NotFound"))


# ------------------------------------------------------------------ files

def handle(w, entry, path, r, wr):
    return Obj("file", world=w, entry=entry, path=path, r=r, w=wr)


@simple("std::fs::File::open")
def _(p):
    w = W()
    q = w.canon(ptext(p))
    w.opened()
    f = w.file(q)
    if f is None or w.failing("open", q):
        return err(io_error("NotFound"))
    return ok(handle(w, f, q, True, False))


@simple("std::fs::File::create")
def _(p):
    w = W()
    f, e = w.create(ptext(p))
    return err(e) if e is not None else ok(handle(w, f, f[0], False, True))


@simple("std::fs::File::create_new")
def _(p):
    w = W()
    if w.file(w.canon(ptext(p))) is not None:
        return err(io_error("AlreadyExists"))
    f, e = w.create(ptext(p))
    return err(e) if e is not None else ok(handle(w, f, f[0], True, True))


@simple("std::fs::OpenOptions::new", "std::fs::File::options")
def _():
    return Obj("openopts", o={})


for _n in ("read", "write", "append", "truncate", "create", "create_new"):
    def _set(p, b, n=_n):
        V(p).o[n] = core.M.branch(b)
        return p
    simple("std::fs::OpenOptions::" + _n)(_set)


@simple("std::fs::OpenOptions::open")
def _(p, path):
    w = W()
    o = V(p).o
    q = w.canon(ptext(path))
    f = w.file(q)
    wr = o.get("write") or o.get("append")
    if not wr:
        if o.get("truncate") or o.get("create") or o.get("create_new") or not o.get("read"):
            return err(io_error("InvalidInput"))
        w.opened()
        if f is None or w.failing("open", q):
            return err(io_error("NotFound"))
        return ok(handle(w, f, q, True, False))
    if o.get("append") and o.get("truncate"):
        return err(io_error("InvalidInput"))
    if o.get("create_new") and f is not None:
        return err(io_error("AlreadyExists"))
    if f is None and not o.get("create") and not o.get("create_new"):
        return err(io_error("NotFound"))
    if f is None or o.get("truncate"):
        f, e = w.create(q)
        return err(e) if e is not None else ok(handle(w, f, f[0], bool(o.get("read")), True))
    if o.get("append"):
        if w.failing("open", q):
            return err(io_error("NotFound"))
        return ok(handle(w, f, q, bool(o.get("read")), True))
    raise Unsupported("a file opened for writing in place")


@simple("std::fs::read")
def _(p):
    r = file_text(p)
    return r if r.d else ok(VecObj(models.bytes_slice(r.f[0].s).l))


@simple("std::fs::read_to_string")
def _(p):
    return file_text(p)


def file_text(p):
    w = W()
    q = w.canon(ptext(p))
    w.opened()
    f = w.file(q)
    if f is None or w.failing("open", q):
        return err(io_error("NotFound"))
    return ok(StringObj(f[1]))


def content_text(c):
    while c.__class__ is Ptr:
        c = c.c[c.i]
    if c.__class__ in (VecObj, SliceRef):
        return models.text_of(models.seqv(c))
    return text(c)


@simple("std::fs::write")
def _(p, c):
    w = W()
    f, e = w.create(ptext(p))
    if e is not None:
        return err(e)
    s = content_text(c)
    if w.failing("write", f[0]):
        return err(io_error("full"))
    f[1] = s
    w.log.append(("write", f[0], s))
    return ok(UNIT)


@simple("std::fs::create_dir_all")
def _(p):
    w = W()
    q = w.canon(ptext(p))
    if w.failing("mkdir", q) or not w.mkdirs(q):
        return err(io_error("exists"))
    w.log.append(("mkdir", q))
    return ok(UNIT)


@simple("std::fs::create_dir")
def _(p):
    w = W()
    q = w.canon(ptext(p))
    if w.failing("mkdir", q) or w.is_dir(q) or w.file(q) is not None or not w.is_dir(parent_of(q)):
        return err(io_error("exists"))
    w.dirs.append(q)
    return ok(UNIT)


@simple("std::fs::remove_file")
def _(p):
    w = W()
    q = w.canon(ptext(p))
    f = w.file(q)
    if f is None or w.failing("remove", q):
        return err(io_error("NotFound"))
    w.files.remove(f)
    w.log.append(("remove", q))
    return ok(UNIT)


@simple("std::fs::rename")
def _(p, q):
    w = W()
    a, b = w.canon(ptext(p)), w.canon(ptext(q))
    f = w.file(a)
    if f is None or w.failing("rename", a) or not w.is_dir(parent_of(b)):
        return err(io_error("NotFound"))
    g = w.file(b)
    if g is f:
        return ok(UNIT)
    if g is not None:
        w.files.remove(g)
    f[0] = b
    w.log.append(("rename", a, b))
    return ok(UNIT)


@simple("std::fs::copy")
def _(p, q):
    w = W()
    f = w.file(w.canon(ptext(p)))
    if f is None:
        return err(io_error("NotFound"))
    s = f[1]
    g, e = w.create(ptext(q))
    if e is not None:
        return err(e)
    g[1] = s
    w.log.append(("write", g[0], s))
    return ok(0)


@simple("std::fs::metadata", "std::path::Path::metadata", "std::fs::File::metadata", "std::fs::symlink_metadata")
def _(p):
    w = W()
    q = w.canon(ptext(p))
    d = w.is_dir(q)
    if not d and w.file(q) is None:
        return err(io_error("NotFound"))
    return ok(Obj("meta", isd=d))


class DirIt(models.It):
    """directory entries in any order"""

    def __init__(self, l):
        self.l = list(l)

    def next(self):
        if not self.l:
            return models.END
        return ok(self.l.pop(core.M.choose(len(self.l), "directory entry") if W().any_order else 0))

    def clone(self):
        return DirIt(self.l)


@simple("std::fs::read_dir", "std::path::Path::read_dir")
def _(p):
    w = W()
    q = w.canon(ptext(p))
    if not w.is_dir(q) or w.failing("list", q):
        return err(io_error("NotFound"))
    return ok(DirIt(w.children(q)))


@simple("std::fs::DirEntry::path")
def _(p):
    return StringObj(V(p).path)


@simple("std::fs::DirEntry::file_name")
def _(p):
    return StringObj(V(p).name)


@simple("std::fs::DirEntry::file_type", "std::fs::DirEntry::metadata")
def _(p):
    return ok(Obj("meta", isd=V(p).isd))


for _t in ("FileType", "Metadata"):
    FN["std::fs::%s::is_dir" % _t] = lambda ctx: (lambda p: V(p).isd)
    FN["std::fs::%s::is_file" % _t] = lambda ctx: (lambda p: not V(p).isd)
    FN["std::fs::%s::is_symlink" % _t] = lambda ctx: (lambda p: False)
FN["std::fs::Metadata::file_type"] = lambda ctx: (lambda p: V(p))


@simple("std::io::BufReader::new", "std::io::BufWriter::new", "std::io::LineWriter::new")
def _(x):
    return x


@simple("std::io::Read::read_to_string")
def _(p, s):
    t = read_all(core.M, p)
    if t is None:
        return err(io_error("read"))
    o = V(s)
    o.s = cat(o.s, t)
    return ok(0)


@simple("std::io::Read::read_to_end")
def _(p, v):
    t = read_all(core.M, p)
    if t is None:
        return err(io_error("read"))
    models.out_write(core.M, v, t)
    return ok(0)


@simple("std::io::read_to_string")
def _(p):
    t = read_all(core.M, p)
    return err(io_error("read")) if t is None else ok(StringObj(t))


@simple("std::io::Write::write_all")
def _(p, s):
    x = p
    while x.__class__ is Ptr:
        x = x.c[x.i]
    if x.__class__ is Obj and x.kind == "file":
        return ok(UNIT) if x.world.write_handle(x, content_text(s)) else err(io_error("write"))
    models.out_write(core.M, p, content_text(s))
    return ok(UNIT)


@simple("std::io::Write::write_fmt")
def _(p, a):
    s = models.render(core.M, a)
    return ok(UNIT) if write_to(core.M, p, s) else err(io_error("write"))


def stream(name):
    def put(s):
        w = core.M.world
        if w is not None:
            getattr(w, name).append(s)
    return Obj(name, write=put)


simple("std::io::stdout", "std::io::stdio::stdout")(lambda: stream("stdout"))
simple("std::io::stderr", "std::io::stdio::stderr")(lambda: stream("stderr"))
simple("std::io::Stdout::lock", "std::io::Stderr::lock", "std::io::stdio::Stdout::lock", "std::io::stdio::Stderr::lock")(lambda p: V(p))


@simple("std::io::BufRead::lines")
def _(p):
    t = read_all(core.M, p)
    if t is None:
        return models.lit_iter([err(io_error("read"))])
    it = FN["std::str::lines"](None)(t)
    return models.lit_iter([ok(StringObj(x)) for x in it.drain()])


@simple("std::env::set_var")
def _(k, v):
    w = W()
    k, v = ptext(k), ptext(v)
    w.env = [e for e in w.env if not same(e[0], k)] + [[k, v]]
    return UNIT


@simple("std::env::remove_var")
def _(k):
    w = W()
    k = ptext(k)
    w.env = [e for e in w.env if not same(e[0], k)] + [[k, None]]
    return UNIT


@simple("std::io::BufWriter::into_inner")
def _(p):
    return ok(p)


@simple("std::io::BufWriter::get_mut", "std::io::BufWriter::get_ref", "std::io::BufReader::get_ref", "std::io::BufReader::get_mut")
def _(p):
    return p


@simple("std::io::Write::flush", "std::fs::File::sync_all", "std::fs::File::sync_data")
def _(p):
    return ok(UNIT)


# ------------------------------------------------------------------ command line (clap)

@simple("clap::Command::new")
def _(n):
    return Obj("command", name=text(n), subs=[], args=[], required=False, version=False)


for _n in ("bin_name", "author", "about", "long_about", "display_name", "term_width", "propagate_version", "disable_help_subcommand",
           "arg_required_else_help", "color", "after_help", "before_help"):
    FN["clap::Command::" + _n] = lambda ctx: (lambda c, x=None: c)


@simple("clap::Command::version")
def _(c, v):
    c.version = True
    return c


@simple("clap::Command::subcommand_required")
def _(c, b):
    c.required = core.M.branch(b)
    return c


@simple("clap::Command::subcommand")
def _(c, s):
    c.subs.append(s)
    return c


@simple("clap::Command::arg")
def _(c, a):
    c.args.append(a)
    return c


def _arg(n=None):
    return Obj("clap_arg", id=n, long=None, short=None, req=False, default=None, action=None, names=[])


@simple("clap::Arg::new")
def _(n):
    return _arg(text(n))


@fn("std::default::Default::default")
def _(ctx, old=FN["std::default::Default::default"]):
    ty = ctx.m.ty(ctx.targs[0])
    if ty["k"] == "adt" and ty["path"] == "clap::Arg":
        return lambda: _arg()
    return old(ctx)


def idtext(x):
    x = V(x) if x.__class__ is Ptr else x
    while x.__class__ is Agg and len(x.f) == 1:
        x = x.f[0]
    return text(x)


@simple("clap::Arg::id")
def _(a, n):
    a.id = idtext(n)
    return a


@simple("clap::Arg::long")
def _(a, n):
    if n.__class__ is Agg and not n.f:
        return a
    a.long = idtext(n)
    return a


@simple("clap::Arg::short")
def _(a, n):
    a.short = n
    return a


@simple("clap::Arg::value_name")
def _(a, n):
    a.names.append(idtext(n))
    return a


@simple("clap::Arg::required")
def _(a, b):
    a.req = core.M.branch(b)
    return a


@simple("clap::Arg::default_value")
def _(a, n):
    a.default = idtext(n)
    return a


@fn("clap::Arg::action")
def _(ctx):
    t = ctx.m.ty(ctx.ins[1])
    if t["path"] != "clap::ArgAction":
        ts = [v["name"] for v in ctx.m.ty(ctx.m.adt("clap::ArgAction"))["variants"]]
    else:
        ts = [v["name"] for v in t["variants"]]

    def f(a, x):
        while x.__class__ is Agg and x.f:
            x = x.f[0]
        a.action = ts[x.v]
        return a
    return f


for _n in ("help", "long_help", "value_parser", "num_args", "hide", "global", "display_order", "env"):
    FN["clap::Arg::" + _n] = lambda ctx: (lambda a, x=None: a)


@simple("clap::Arg::get_id")
def _(a):
    return Ptr([V(a).id if V(a).id is not None else ""], 0)


@simple("clap::Arg::get_long")
def _(a):
    return none() if V(a).long is None else some(V(a).long)


@simple("clap::Arg::get_short")
def _(a):
    return none() if V(a).short is None else some(V(a).short)


@simple("clap::Arg::get_value_names")
def _(a):
    l = V(a).names
    return some(SliceRef(list(l), 0, len(l))) if l else none()


@simple("clap::Arg::get_action")
def _(a):
    raise Unsupported("ArgAction value")


FN["clap::Arg::get_action"] = lambda ctx: _get_action(ctx)


def _get_action(ctx):
    ts = [v["name"] for v in ctx.m.ty(ctx.m.adt("clap::ArgAction"))["variants"]]
    return lambda a: Ptr([Agg(ts.index(V(a).action or "Set"), [])], 0)


@simple("clap::Command::get_matches", "clap::Command::get_matches_mut")
def _(c):
    c = V(c) if c.__class__ is Ptr else c
    w = W()
    sub, opts = w.argv
    usage = Exit(2)
    if sub is None:
        if c.required:
            raise usage
        return Obj("matches", sub=None, vals={}, ids=[])
    for s in c.subs:
        if s.name == sub:
            vals, ids = {}, [a.id for a in s.args]
            for a in s.args:
                if a.default is not None:
                    vals[a.id] = a.default
            for k, v in opts.items():
                for a in s.args:
                    if a.long == k:
                        vals[a.id] = v
                        break
                else:
                    raise usage
            for a in s.args:
                if a.req and a.id not in vals:
                    raise usage
            return Obj("matches", sub=(s.name, Obj("matches", sub=None, vals=vals, ids=ids)), vals={}, ids=[])
    raise usage


@simple("clap::ArgMatches::subcommand")
def _(p):
    s = V(p).sub
    if s is None:
        return none()
    return some(Agg(0, [s[0], Ptr([s[1]], 0)]))


@simple("clap::ArgMatches::subcommand_name")
def _(p):
    s = V(p).sub
    return none() if s is None else some(s[0])


@simple("clap::ArgMatches::get_one")
def _(p, n):
    o, n = V(p), idtext(n)
    if n not in o.ids:
        raise Panic("argument %s is not defined for this command" % n)
    v = o.vals.get(n)
    return none() if v is None else some(Ptr([StringObj(v)], 0))


@simple("clap::ArgMatches::try_get_one")
def _(p, n):
    o, n = V(p), idtext(n)
    if n not in o.ids:
        return err(Obj("matches_error"))
    v = o.vals.get(n)
    return ok(none() if v is None else some(Ptr([StringObj(v)], 0)))


# ------------------------------------------------------------------ clock, colours

@simple("chrono::Local::now", "chrono::Utc::now")
def _():
    return Obj("now")


@simple("chrono::DateTime::format", "chrono::DateTime::to_rfc3339")
def _(p, f=None):
    w = W()
    if w.clock is None:
        w.clock = S((core.M.atom("clock", cs=DIGIT | {95}, kind="clock"),))
    return Obj("delayed", display=w.clock)


for _n in ("dimmed", "green", "red", "bold", "yellow", "blue", "cyan", "magenta", "white", "black", "italic", "underline", "normal",
           "clear", "bright_red", "bright_green"):
    FN["colored::Colorize::" + _n] = lambda ctx: (lambda s: Obj("text", s=s.s if s.__class__ is Obj else text(s)))


# ------------------------------------------------------------------ database client (postgres)

import minipg
from pg import SqlError


def pg_error(msg):
    return Obj("pg_error", msg=msg, display=S((core.M.atom(core.M.fresh("pgerror"), cs=ALLCH, kind="error"),)))


def sql_of(x):
    while x.__class__ is Ptr:
        x = x.c[x.i]
    if x.__class__ is Obj and x.kind == "prepared":
        return x.sql
    return text(x)


def to_sql(m, d):
    """&dyn ToSql -> (value, type)"""
    t = m.ty(d.ty)
    v = d.p
    nullable = False
    while True:
        k = t["k"]
        if k == "ref":
            v = v.c[v.i] if v.__class__ is Ptr else v
            e = m.ty(t["elem"])
            if e["k"] == "str":
                return text(v), "text"
            if e["k"] == "slice":
                return [text(x) for x in models.seqv(v)], "text[]"
            t = e
            continue
        if k == "str":
            return text(v), "text"
        if k == "adt" and t["path"] == "std::option::Option":
            x = v.c[v.i] if v.__class__ is Ptr else v
            t2 = m.ty(t["args"][0])
            if m.discr(x) == 0:
                while t2["k"] == "ref":
                    t2 = m.ty(t2["elem"])
                return None, sql_type(m, t2)
            v, t = Ptr(x.f, 0), t2
            continue
        if k == "adt" and t["path"] in models.STRINGY:
            return text(v), "text"
        if k == "adt" and t["path"] in models.VECY:
            return [text(x) for x in models.seqv(v)], "text[]"
        x = v.c[v.i] if v.__class__ is Ptr else v
        if k == "bool":
            return x, "bool"
        if k in ("int", "uint"):
            return x, sql_type(m, t)
        raise Unsupported("SQL parameter of type " + t["name"])


def sql_type(m, t):
    if t["k"] == "str" or t.get("path") in models.STRINGY:
        return "text"
    if t["k"] == "int":
        return {32: "int", 64: "int8"}.get(t["bits"], "int%d" % t["bits"])
    if t["k"] == "uint" and t["bits"] == 32:
        return "oid"
    if t["k"] == "bool":
        return "bool"
    if t.get("path") in models.VECY:
        e = m.ty(t["args"][0])
        if e.get("path") == "std::option::Option":
            e = m.ty(e["args"][0])
        return sql_type(m, e) + "[]"
    return "?"


@fn("postgres::Client::connect")
def _(ctx):
    def f(url, tls=None):
        w = W()
        u = text(url)
        for d in w.dbs:
            if same(d.url, u):
                return ok(Obj("client", srv=d))
        return err(pg_error("cannot connect"))
    return f


@simple("postgres::Client::transaction", "postgres::Client::build_transaction", "postgres::TransactionBuilder::start")
def _(p):
    return ok(Obj("tx", tx=V(p).srv.begin()))


@simple("postgres::Transaction::transaction", "postgres::Transaction::savepoint")
def _(p, n=None):
    raise Unsupported("savepoints")


@simple("postgres::Transaction::commit")
def _(t):
    w = W()
    t = V(t) if t.__class__ is Ptr else t
    if w.failing("commit", ""):
        return err(pg_error("commit failed"))
    t.tx.commit()
    return ok(UNIT)


@simple("postgres::Transaction::rollback")
def _(t):
    return ok(UNIT)


@simple("postgres::Client::close")
def _(t):
    return ok(UNIT)


def run_sql(m, p, q, params):
    """-> (columns, rows, count) or error"""
    o = V(p)
    sql = sql_of(q)
    vals, tys = [], []
    if params is not None:
        for d in models.seqv(params):
            while d.__class__ is Ptr:
                d = d.c[d.i]
            v, t = to_sql(m, d)
            vals.append(v)
            tys.append(t)
    auto = o.kind == "client"
    tx = o.srv.begin() if auto else o.tx
    try:
        r = tx.run(sql, vals, tys)
    except SqlError as e:
        return None, pg_error(e.msg)
    if auto:
        tx.commit()
    return r, None


for _c in ("Client", "Transaction", "GenericClient"):
    @fn("postgres::%s::execute" % _c)
    def _(ctx):
        m = ctx.m

        def f(p, q, params):
            r, e = run_sql(m, p, q, params)
            return err(e) if e is not None else ok(r[2])
        return f

    @fn("postgres::%s::batch_execute" % _c)
    def _(ctx):
        m = ctx.m

        def f(p, q):
            r, e = run_sql(m, p, q, None)
            return err(e) if e is not None else ok(UNIT)
        return f

    @fn("postgres::%s::prepare" % _c)
    def _(ctx):
        return lambda p, q: ok(Obj("prepared", sql=sql_of(q)))

    @fn("postgres::%s::query" % _c)
    def _(ctx):
        m = ctx.m

        def f(p, q, params):
            r, e = run_sql(m, p, q, params)
            return err(e) if e is not None else ok(VecObj([Obj("row", cols=r[0], vals=x) for x in r[1]]))
        return f

    @fn("postgres::%s::query_one" % _c)
    def _(ctx):
        m = ctx.m

        def f(p, q, params):
            r, e = run_sql(m, p, q, params)
            if e is None and len(r[1]) != 1:
                e = pg_error("query returned an unexpected number of rows")
            return err(e) if e is not None else ok(Obj("row", cols=r[0], vals=r[1][0]))
        return f

    @fn("postgres::%s::query_opt" % _c)
    def _(ctx):
        m = ctx.m

        def f(p, q, params):
            r, e = run_sql(m, p, q, params)
            if e is None and len(r[1]) > 1:
                e = pg_error("query returned an unexpected number of rows")
            return err(e) if e is not None else ok(some(Obj("row", cols=r[0], vals=r[1][0])) if r[1] else none())
        return f


def from_sql(m, t, v, ty):
    """column value -> Rust value of type t"""
    x = m.ty(t)
    if x["k"] == "adt" and x["path"] == "std::option::Option":
        return none() if v is None else some(from_sql(m, x["args"][0], v, ty))
    if v is None:
        raise Panic("error retrieving column: NULL")
    want = sql_type(m, m.ty(x["elem"]) if x["k"] == "ref" else x)
    if want != ty:
        raise Panic("error retrieving column: cannot convert %s to %s" % (ty, x["name"]))
    if ty == "text":
        return text(v) if x["k"] == "ref" else StringObj(v)
    if ty.endswith("[]"):
        return VecObj([from_sql(m, x["args"][0], y, ty[:-2]) for y in v])
    return v


def row_get(ctx, try_):
    m = ctx.m
    t = ctx.m.ty(ctx.out)
    t = (t["args"][0] if try_ else ctx.out)

    def get(p, i):
        r = V(p)
        while i.__class__ is Ptr:
            i = i.c[i.i]
        if i.__class__ is not int:
            n = text(i)
            for k, c in enumerate(r.cols):
                if same(c[0], n):
                    i = k
                    break
            else:
                raise Panic("no such column")
        if i >= len(r.cols):
            raise Panic("no such column")
        return from_sql(m, t, r.vals[i], r.cols[i][1])

    def try_get(p, i):
        try:
            return ok(get(p, i))
        except Panic as e:
            return err(pg_error(str(e)))
    return try_get if try_ else get


FN["postgres::Row::get"] = lambda ctx: row_get(ctx, False)
FN["postgres::Row::try_get"] = lambda ctx: row_get(ctx, True)


@simple("postgres::Row::len")
def _(p):
    return len(V(p).cols)


@simple("postgres::Row::is_empty")
def _(p):
    return not V(p).cols


@simple("clap::Id::as_str")
def _(p):
    return idtext(p)


@isimple("std::hash::RandomState as std::default::Default::default", "std::collections::hash_map::RandomState as std::default::Default::default")
def _():
    return Obj("hasher")


FN["std::hash::RandomState::new"] = FN["std::collections::hash_map::RandomState::new"] = lambda ctx: (lambda: Obj("hasher"))
