"""Symbolic values of the repository's own types, built from the compiler's type metadata."""
import z3
from values import *
import core


class Types:
    """Repository types reachable from a type, by last path segment."""

    def __init__(self, m, *roots):
        self.m = m
        self.by = {}
        self.seen = set()
        for r in roots:
            self.walk(r)

    def walk(self, t):
        if t in self.seen or t is None:
            return
        self.seen.add(t)
        ty = self.m.ty(t)
        k = ty["k"]
        if k in ("ref", "ptr", "slice", "array"):
            self.walk(ty["elem"])
        elif k == "tuple":
            for e in ty["elems"]:
                self.walk(e)
        elif k == "adt":
            if ty["local"]:
                self.by.setdefault(ty["path"].split("::")[-1], t)
                for v in ty["variants"]:
                    for f in v["fields"]:
                        self.walk(f[1])
            else:
                for a in ty["args"]:
                    self.walk(a)

    def __getitem__(self, n):
        if n not in self.by:
            raise Unsupported("type %s not found in the code" % n)
        return self.by[n]

    def __contains__(self, n):
        return n in self.by


def is_string(ty):
    return ty["k"] == "adt" and ty["path"] == "std::string::String"


class B:
    """Builder of values."""

    def __init__(self, m, types, veclen=2, cs=WORD):
        self.m, self.types = m, types
        self.veclen = veclen
        self.cs = cs
        self.n = 0

    def name(self, p):
        self.n += 1
        return "%s#%d" % (p, self.n)

    def s(self, hint, **kw):
        kw.setdefault("cs", self.cs)
        return self.m.text(self.name(hint), **kw)

    def any(self, t, hint="v", opt=None):
        m = self.m
        ty = m.ty(t)
        k = ty["k"]
        if k == "bool":
            return z3.Bool(self.name(hint))
        if k in ("int", "uint"):
            return z3.BitVec(self.name(hint), ty["bits"])
        if k == "tuple":
            return Agg(0, [self.any(e, hint) for e in ty["elems"]])
        if k == "adt":
            p = ty["path"]
            if p == "std::string::String":
                return StringObj(self.s(hint))
            if p == "std::option::Option":
                tag = z3.Int(self.name(hint + ".some"))
                m.add(z3.Or(tag == 0, tag == 1))
                return LazyEnum(tag, None, {0: [], 1: [self.any(ty["args"][0], hint)]})
            if p == "std::vec::Vec":
                n = m.choose(self.veclen + 1, hint + ".len")
                return VecObj([self.any(ty["args"][0], "%s%d" % (hint, i)) for i in range(n)])
            if ty["local"] and len(ty["variants"]) == 1:
                return self.mk(ty["path"].split("::")[-1], {}, t=t, hint=hint)
            if ty["local"]:
                v = m.choose(len(ty["variants"]), hint + ".variant")
                return Agg(v, [self.any(f[1], hint) for f in ty["variants"][v]["fields"]])
        raise Unsupported("no symbolic value for type %s" % ty["name"])

    def mk(self, name, fields, variant=0, t=None, hint=None):
        """struct value: given fields, everything else symbolic"""
        m = self.m
        if t is None:
            t = self.types[name]
        ty = m.ty(t)
        out = []
        fs = ty["variants"][variant]["fields"]
        names = [f[0] for f in fs]
        for f in fields:
            if f not in names:
                raise Unsupported("field %s.%s not found in the code" % (name, f))
        for fname, ft in fs:
            if fname in fields:
                v = fields[fname]
                if v.__class__ in (str, S) and is_string(m.ty(ft)):
                    v = StringObj(v)
                out.append(v)
            else:
                out.append(self.any(ft, (hint or name) + "." + fname))
        return Agg(variant, out)

    def wrap(self, enum, variant, v):
        ty = self.m.ty(self.types[enum])
        for i, x in enumerate(ty["variants"]):
            if x["name"] == variant:
                return Agg(i, [v] if not isinstance(v, list) else v)
        raise Unsupported("variant %s::%s not found" % (enum, variant))

    def map(self, pairs):
        return MapObj([[StringObj(k), v] for k, v in pairs])


def get(m, v, t, field):
    ty = m.ty(t)
    vi = m.discr(v) if len(ty["variants"]) > 1 else 0
    for i, f in enumerate(ty["variants"][vi]["fields"]):
        if f[0] == field:
            return v.f[i], f[1]
    raise Unsupported("field %s of %s" % (field, ty["name"]))


# ------------------------------------------------------------------ concretisation

POOLS = {
    "expr": ["a%d > 0"], "type": ["int4", "int8", "numeric(%d, 2)"], "query": ["SELECT %d"],
    "match": ["SIMPLE", "FULL", "PARTIAL%d"], "rule": ["NO ACTION", "CASCADE", "SET NULL", "SET DEFAULT", "RESTRICT", "RULE%d"],
    "language": ["sql", "plpgsql", "lang%d"], "method": ["btree", "hash", "gin", "gist", "am%d"],
    "volatility": ["VOLATILE", "STABLE", "IMMUTABLE", "VOLATILITY%d"], "user": ["SELECT 'user%d'"], "body": ["SELECT '%d'"], "args": ["a%d int4"],
}


class Conc:
    """Turns symbolic values into concrete ones under a solver model."""

    def __init__(self, m, model, own=False):
        self.m, self.model, self.own = m, model, own     # own: no text the code compares with unless the model says so
        self.used = {}
        self.pools = {}
        self.cats = None
        self.ranked = None

    def by_rank(self):
        """{identity: text} for the opaque texts whose order the path depends on"""
        out, l = {}, []
        for s, t in getattr(self.m, "ranks", {}).values():
            p = sparts(s)
            r = self.model.eval(t, model_completion=True)
            if s.__class__ is str:
                l.append((r.as_long(), 0, s, None))
            elif len(p) == 1 and p[0].__class__ is Atom:
                l.append((r.as_long(), 1, None, p[0]))
        lo = ""
        for k, (_, _, s, a) in enumerate(sorted(l, key=lambda x: x[:2])):
            if a is None:
                lo = s
                continue
            t = "%s%s%02d" % (lo, "a" if lo else "A", k)
            cs = a.cs
            if all(ord(c) in cs for c in t) and ord(t[0]) in (a.first or cs):
                out[(a.kind, self.model.eval(a.id, model_completion=True).as_long())] = t
        return out

    def b(self, e):
        if e.__class__ in (bool, int):
            return bool(e)
        return z3.is_true(self.model.eval(e, model_completion=True))

    def i(self, e, signed=True):
        if e.__class__ in (bool, int):
            return int(e)
        r = self.model.eval(e, model_completion=True)
        if z3.is_bv_value(r):
            return r.as_signed_long() if signed else r.as_long()
        return r.as_long()

    def s(self, s):
        out = []
        for p in sparts(s):
            if p.__class__ is str:
                out.append(p)
            elif p.__class__ is Atom:
                out.append(self.atom(p))
            elif p.__class__ is Ch:
                c = self.i(p.e, False)
                out.append(chr(c))
            elif p.__class__ is Num:
                out.append(str(self.i(p.e, p.signed)))
        return "".join(out)

    def atom(self, a):
        if a.origin is not None and a.origin[0] == "replace":
            return self.atom(a.origin[1]).replace(a.origin[2], a.origin[3])
        if a.origin is not None and a.origin[0] == "lower":
            return self.atom(a.origin[1]).lower()
        if z3.is_const(a.id) and self.model[a.id] is None:
            v = (a.kind, a.name)        # nothing is known about it: a text of its own
        else:
            v = (a.kind, self.model.eval(a.id, model_completion=True).as_long())
        from values import _lit_rev
        if v[1] in _lit_rev and a.kind != "user":
            return _lit_rev[v[1]]
        if composites:
            if self.cats is None:
                self.cats = {}
                for var, parts in composites.values():
                    x = self.model[var]
                    if x is not None:
                        self.cats.setdefault(x.as_long(), parts)
            parts = self.cats.get(v[1])
            if parts is not None and a not in parts:
                return self.s(mks(parts))
        if self.ranked is None:
            self.ranked = self.by_rank()
        if v in self.ranked:
            return self.ranked[v]
        t = self.used.get(v)
        if t is None:
            base = "".join(c if c.isalnum() else "" for c in a.name.split("#")[0].split(".")[-1]) or "x"
            t = "%s%d" % (base[:12], len(self.used))
            cs = a.cs
            extra = [c for c in '"\'\\ %Q' if ord(c) in cs] if len(cs) > 80 else []
            t = t[:1] + "".join(extra) + t[1:]
            pool = POOLS.get(a.kind)
            if pool is not None:
                from values import _lit_ids
                while True:
                    n = self.pools[a.kind] = self.pools.get(a.kind, -1) + 1
                    t = pool[n % len(pool)] if n < len(pool) or "%d" not in pool[-1] else pool[-1] % n
                    if "%d" in t:
                        t = t % n
                    if not self.own or t not in _lit_ids or n > 50:
                        break
            self.used[v] = t
        return t

    def val(self, v, t):
        """-> python description used by the native replay: ('str',s) ('bool',b) ..."""
        m = self.m
        ty = m.ty(t)
        k = ty["k"]
        if k == "bool":
            return self.b(v)
        if k in ("int", "uint"):
            return self.i(v, k == "int")
        if k == "ref":
            if ty["elem"] and m.ty(ty["elem"])["k"] == "str":
                return self.s(v)
            return self.val(v.c[v.i], ty["elem"])
        if k == "tuple":
            return [self.val(x, e) for x, e in zip(v.f, ty["elems"])]
        if k == "adt":
            p = ty["path"]
            if p in ("std::string::String", "std::path::PathBuf"):
                return self.s(v.s)
            if p == "std::vec::Vec":
                return [self.val(x, ty["args"][0]) for x in v.items]
            if p.endswith(("HashMap", "BTreeMap")):
                return {"map": [[self.val(a, ty["args"][0]), self.val(b, ty["args"][1])] for a, b in v.entries]}
            vi = self.variant(v)
            pay = v.f if v.v is not None else v.pay[vi]
            var = ty["variants"][vi]
            fs = [[f[0], self.val(x, f[1])] for f, x in zip(var["fields"], pay)]
            return {"adt": p.split("::")[-1], "variant": var["name"], "fields": fs}
        raise Unsupported("concretise " + ty["name"])

    def variant(self, v):
        if isinstance(v, LazyEnum) and v.v is None:
            return self.model.eval(v.tag, model_completion=True).as_long()
        if v.v.__class__ is int:
            return v.v
        return self.i(v.v, False)


def rust_str(s):
    out = []
    for c in s:
        if c in '"\\':
            out.append("\\" + c)
        elif 32 <= ord(c) < 127:
            out.append(c)
        else:
            out.append("\\u{%x}" % ord(c))
    return '"' + "".join(out) + '"'


def rust_expr(m, v, t, paths=None):
    """Rust source expression for a concretised value (paths: crate path per type)."""
    ty = m.ty(t)
    k = ty["k"]
    if k == "bool":
        return "true" if v else "false"
    if k in ("int", "uint"):
        return "(%d as %s)" % (v, ty["name"])
    if k == "ref":
        e = m.ty(ty["elem"])
        if e["k"] == "str":
            return rust_str(v)
        return "&" + rust_expr(m, v, ty["elem"])
    if k == "tuple":
        return "(%s,)" % ",".join(rust_expr(m, x, e) for x, e in zip(v, ty["elems"]))
    p = ty["path"]
    if p == "std::string::String":
        return rust_str(v) + ".to_string()"
    if p == "std::path::PathBuf":
        return "std::path::PathBuf::from(%s)" % rust_str(v)
    if p == "std::vec::Vec":
        return "vec![%s]" % ",".join(rust_expr(m, x, ty["args"][0]) for x in v)
    if p.endswith(("HashMap", "BTreeMap")):
        return "[%s].into_iter().collect()" % ",".join(
            "(%s,%s)" % (rust_expr(m, a, ty["args"][0]), rust_expr(m, b, ty["args"][1])) for a, b in v["map"])
    var = [x for x in ty["variants"] if x["name"] == v["variant"]][0]
    if p == "std::option::Option":
        return "None" if v["variant"] == "None" else "Some(%s)" % rust_expr(m, v["fields"][0][1], ty["args"][0])
    path = "crate::" + p if ty["local"] else p
    if ty["kind"] == "enum":
        path += "::" + var["name"]
    fs = [(f[0], rust_expr(m, x[1], f[1])) for f, x in zip(var["fields"], v["fields"])]
    if not fs:
        return path
    if fs[0][0].isdigit():
        return "%s(%s)" % (path, ",".join(x for _, x in fs))
    return "%s{%s}" % (path, ",".join("%s:%s" % x for x in fs))
