"""Models of the standard library, keyed by path."""
import re
import z3
from values import *
import core
from core import cp, deref, gdiscr, FnInst
import strs
from strs import Pat, pat_of
from iters import *

FN = {}      # normalised path -> builder(ctx) -> callable or None
IMPL = {}    # "self as trait::method"
CONST_ADT = {}


def norm(p):
    out = []
    i = 0
    while i < len(p):
        if p.startswith("::<", i):
            d = 0
            j = i + 2
            while j < len(p):
                if p[j] == "<":
                    d += 1
                elif p[j] == ">" and p[j - 1] != "-":
                    d -= 1
                    if d == 0:
                        break
                j += 1
            i = j + 1
            continue
        out.append(p[i])
        i += 1
    p = "".join(out)
    for pre in ("core::", "alloc::"):
        if p.startswith(pre):
            p = "std::" + p[len(pre):]
    return p


def fn(*names):
    def d(b):
        for n in names:
            FN[n] = b
        return b
    return d


def simple(*names):
    """model that needs no type information"""
    def d(g):
        for n in names:
            FN[n] = lambda ctx, g=g: g
        return g
    return d


def impl(*names):
    def d(b):
        for n in names:
            IMPL[n] = b
        return b
    return d


def isimple(*names):
    def d(g):
        for n in names:
            IMPL[n] = lambda ctx, g=g: g
        return g
    return d


class Ctx:
    def __init__(self, m, f, j, i, ii):
        self.m, self.f, self.j, self.i, self.ii = m, f, j, i, ii
        self._sig = None

    @property
    def args(self):
        return self.ii["args"] if self.ii else self.j["args"]

    @property
    def targs(self):
        return self.j["args"] if self.j else self.ii["args"]

    @property
    def sig(self):
        if self._sig is None:
            if self.f is None:
                raise Unsupported("signature of shim")
            self._sig = self.m.c.req("fnty", self.f)
        return self._sig

    @property
    def ins(self):
        return self.sig["in"]

    @property
    def out(self):
        return self.sig["out"]

    def ty(self, k):
        return self.m.ty(self.ins[k])


def lookup(m, i, ii, f):
    j = m.fn(f) if f is not None else None
    ctx = Ctx(m, f, j, i, ii)
    if ii["local"] and not ii["closure"]:
        b = FN.get(norm(ii["path"]))
        if b is not None:
            return b(ctx)
        if not (j and j.get("trait") in NATIVE_TRAITS and (ii.get("derived"))):
            return None
    if ii["closure"]:
        return None
    if ii.get("impl_trait"):
        k = "%s as %s::%s" % (ii.get("impl_self"), ii["impl_trait"], ii.get("method"))
        b = IMPL.get(k)
        if b is not None:
            r = b(ctx)
            if r is not None:
                return r
    if j is not None:
        b = FN.get(norm(j["path"]))
        if b is not None:
            r = b(ctx)
            if r is not None:
                return r
    b = FN.get(norm(ii["path"]))
    if b is not None:
        r = b(ctx)
        if r is not None:
            return r
    if ii["kind"] == "drop" or ii["path"].endswith("drop_in_place"):
        return lambda *a: UNIT
    return None


def lookup_unresolved(m, f, j):
    b = FN.get(norm(j["path"]))
    if b is not None:
        return b(Ctx(m, f, j, None, None))
    return None


def site(m, s, j):
    return None


def static(m, c):
    """pointer to a static: its initialiser is run at first use, once per run of the program"""
    p = m.statics.get(c["static"])
    if p is None:
        if c.get("inst", -1) >= 0:
            v = core.compile_inst(m, c["inst"], m.inst(c["inst"]))()
        else:
            r = m.c.req("val", c["static"])
            if "v" not in r:
                raise Unsupported("static " + c["static"])
            v = core.build_const(m, r["v"], r["ty"])
        p = m.statics[c["static"]] = Ptr([v], 0)
    return p


def const_adt(m, ty):
    if ty["k"] != "adt":
        return None
    return CONST_ADT.get(ty["path"])


CONST_ADT["std::string::String"] = lambda: StringObj("")
CONST_ADT["std::vec::Vec"] = lambda: VecObj([])
CONST_ADT["std::collections::BTreeMap"] = lambda: MapObj([], "btree")
CONST_ADT["std::collections::BTreeSet"] = lambda: MapObj([], "btree")

NATIVE_TRAITS = ("std::clone::Clone", "std::cmp::PartialEq")

# ---------------------------------------------------------------- type-directed helpers

STRINGY = ("std::string::String", "std::path::PathBuf", "std::ffi::OsString", "std::ffi::os_str::OsString")
BOXY = ("std::boxed::Box", "std::rc::Rc", "std::sync::Arc")
VECY = ("std::vec::Vec", "std::collections::VecDeque", "std::collections::vec_deque::VecDeque")
MAPY = ("std::collections::HashMap", "std::collections::HashSet", "std::collections::BTreeMap",
        "std::collections::BTreeSet", "std::collections::hash_map::HashMap", "std::collections::hash_set::HashSet")
STRUCTY = ("std::option::Option", "std::result::Result", "std::cmp::Ordering", "std::ops::ControlFlow", "std::ops::Range")


def map_kind(p):
    return "btree" if "BTree" in p else "index" if "indexmap" in p.lower() else "hash"


def text(v):
    """string content of anything string-like"""
    c = v.__class__
    if c is str or c is S:
        return v
    if c is StringObj:
        return v.s
    if c is Ptr:
        return text(v.c[v.i])
    if c is BoxV:
        return text(v.c[0])
    if c is Agg and len(v.f) == 1:  # Cow
        return text(v.f[0])
    if c is Obj and v.kind == "text":
        return v.s
    raise Unsupported("text of %r" % (v,))


def val(p):
    if p.__class__ is Ptr:
        return p.c[p.i]
    return p


def clone_fn(m, t, seen=()):
    key = ("clone", t)
    r = m.tyc.get(key)
    if r is not None:
        return r
    ty = m.ty(t)
    k = ty["k"]
    r = None
    if k in ("bool", "char", "int", "uint", "ref", "ptr", "fndef", "fnptr", "float", "never", "str", "closure"):
        r = lambda v: cp(v)
        if k == "closure":
            r = lambda v: cp(v)
    elif k == "tuple" or k == "array":
        els = ty["elems"] if k == "tuple" else None
        box = []

        def r(v):
            if not box:
                box.append([clone_fn(m, e) for e in els] if els is not None else clone_fn(m, ty["elem"]))
            fs = box[0]
            if els is None:
                return Agg(0, [fs(x) for x in v.f])
            return Agg(0, [g(x) for g, x in zip(fs, v.f)])
    elif k == "adt":
        p = ty["path"]
        if p in STRINGY:
            r = lambda v: StringObj(v.s)
        elif p in VECY:
            box = []

            def r(v):
                if not box:
                    box.append(clone_fn(m, ty["args"][0]))
                return VecObj([box[0](x) for x in v.items])
        elif p == "std::boxed::Box":
            e = m.ty(ty["args"][0])
            if e["k"] in ("str", "slice", "dyn"):
                r = lambda v: v
            else:
                r = lambda v: BoxV(clone_fn(m, ty["args"][0])(v.c[0]))
        elif p in ("std::rc::Rc", "std::sync::Arc"):
            r = lambda v: v
        elif p in MAPY:
            def r(v):
                ck = clone_fn(m, ty["args"][0])
                cv = clone_fn(m, ty["args"][1]) if p.endswith("Map") else (lambda x: x)
                return MapObj([[ck(a), cv(b)] for a, b in v.entries], v.kind)
        elif p == "std::borrow::Cow":
            r = lambda v: Agg(v.v, [StringObj(text(v.f[0]))] if gdiscr(v) == 1 else list(v.f))
        elif p in STRUCTY or derived(m, "std::clone::Clone::clone", t):
            r = struct_clone(m, ty)
    if r is None:
        f = m.c.req("method", "std::clone::Clone::clone", t)
        j = m.fn(f["fn"])
        ii = m.inst(j["inst"]) if j.get("inst") is not None else None

        def r(v):
            if isinstance(v, It):
                return v.clone()
            if v.__class__ is Obj:
                return v
            if ii and ii["local"]:
                return m.callable_fn(f["fn"])(Ptr([v], 0))
            if v.__class__ in (Agg, LazyEnum) and ii and ii["mir"]:
                return core.compile_inst(m, j["inst"], ii)(Ptr([v], 0))
            if isinstance(v, (core.ClosurePtr, FnVal, FnInst)):
                return v
            raise Unsupported("clone of " + ty["name"])
    m.tyc[key] = r
    return r


def derived(m, meth, t, *more):
    key = ("derived", meth, t)
    r = m.tyc.get(key)
    if r is None:
        f = m.c.req("method", meth, t, *more)
        j = m.fn(f["fn"])
        r = False
        if j.get("inst") is not None:
            ii = m.inst(j["inst"])
            r = bool(ii.get("derived"))
        m.tyc[key] = r
    return r


def struct_clone(m, ty):
    box = {}

    def fields(k, fs):
        g = box.get(k)
        if g is None:
            g = box[k] = [clone_fn(m, f[1]) for f in ty["variants"][k]["fields"]]
        return [h(x) for h, x in zip(g, fs)]

    def r(v):
        if v.__class__ is LazyEnum and v.v is None:
            return LazyEnum(v.tag, None, {k: fields(k, p) for k, p in v.pay.items()})
        if v.v.__class__ is not int:
            return Agg(v.v, [])
        return Agg(v.v, fields(v.v, v.f))
    return r


def eq_fn(m, t, t2=None):
    key = ("eq", t)
    r = m.tyc.get(key)
    if r is not None:
        return r
    ty = m.ty(t)
    k = ty["k"]
    if k in ("bool", "char", "int", "uint"):
        r = core.binop(ty, "eq")
    elif k in ("ref", "ptr"):
        e = m.ty(ty["elem"])
        g = eq_fn(m, ty["elem"])
        if e["k"] in ("str", "slice", "dyn") or (e["k"] == "adt" and e["path"] in ("std::path::Path", "std::ffi::OsStr")):
            r = g
        else:
            r = lambda a, b: g(deref(a), deref(b))
    elif k == "str":
        r = lambda a, b: str_eq(text(a), text(b))
    elif k == "slice":
        def r(a, b):
            if a.n != b.n:
                return False
            g = eq_fn(m, ty["elem"])
            return z3and([g(a.l[a.s + i], b.l[b.s + i]) for i in range(a.n)])
    elif k == "array":
        def r(a, b):
            g = eq_fn(m, ty["elem"])
            return z3and([g(x, y) for x, y in zip(a.f, b.f)]) if len(a.f) == len(b.f) else False
    elif k == "tuple":
        def r(a, b):
            return z3and([eq_fn(m, e)(x, y) for e, x, y in zip(ty["elems"], a.f, b.f)])
    elif k == "adt":
        p = ty["path"]
        if p in STRINGY or p in ("std::borrow::Cow", "std::path::Path", "std::ffi::OsStr"):
            r = lambda a, b: str_eq(text(a), text(b))
        elif p in VECY:
            def r(a, b):
                if len(a.items) != len(b.items):
                    return False
                g = eq_fn(m, ty["args"][0])
                return z3and([g(x, y) for x, y in zip(a.items, b.items)])
        elif p in BOXY:
            r = lambda a, b: eq_fn(m, ty["args"][0])(val2(a), val2(b))
        elif p in MAPY:
            def r(a, b):
                if len(a.entries) != len(b.entries):
                    return False
                gk = eq_fn(m, ty["args"][0])
                gv = eq_fn(m, ty["args"][1]) if p.endswith("Map") else (lambda x, y: True)
                if a.kind == "btree":
                    return z3and([z3and([gk(x, u), gv(y, w)]) for (x, y), (u, w) in zip(a.entries, b.entries)])
                cs = []
                for x, y in a.entries:
                    os = []
                    for u, w in b.entries:
                        c = gk(x, u)
                        if c is False:
                            continue
                        os.append(z3and([c, gv(y, w)]))
                    cs.append(z3or(os))
                return z3and(cs)
        elif p in STRUCTY or derived(m, "std::cmp::PartialEq::eq", t, t):
            r = struct_eq(m, ty)
        else:
            f = m.c.req("method", "std::cmp::PartialEq::eq", t, t)["fn"]
            r = lambda a, b: m.callable_fn(f)(Ptr([a], 0), Ptr([b], 0))
    else:
        raise Unsupported("equality on " + ty["name"])
    m.tyc[key] = r
    return r


def val2(x):
    if x.__class__ is BoxV:
        return x.c[0]
    return x


def struct_eq(m, ty):
    box = {}

    def feq(k, fa, fb):
        g = box.get(k)
        if g is None:
            g = box[k] = [eq_fn(m, f[1]) for f in ty["variants"][k]["fields"]]
        out = []
        for h, x, y in zip(g, fa, fb):
            c = h(x, y)
            if c is False:
                return False
            out.append(c)
        return z3and(out)

    def r(a, b):
        la = a.__class__ is LazyEnum and a.v is None
        lb = b.__class__ is LazyEnum and b.v is None
        if not la and not lb:
            va, vb = a.v, b.v
            if va.__class__ is int and vb.__class__ is int:
                if va != vb:
                    return False
                return feq(va, a.f, b.f)
            return va == vb
        if la and lb:
            os = []
            for k in a.pay:
                if k in b.pay:
                    os.append(z3and([a.tag == k, b.tag == k, feq(k, a.pay[k], b.pay[k])]))
            return z3or(os)
        if lb:
            a, b = b, a
        k = b.v
        if k not in a.pay:
            return False
        return z3and([a.tag == k, feq(k, a.pay[k], b.f)])
    return r


def cmp_fn(m, t):
    """three-way comparison returning -1/0/1 (forks)"""
    key = ("cmp", t)
    r = m.tyc.get(key)
    if r is not None:
        return r
    ty = m.ty(t)
    k = ty["k"]
    if k in ("int", "uint", "char"):
        lt, eq = core.binop(ty, "lt"), core.binop(ty, "eq")
        r = lambda a, b: -1 if m.branch(lt(a, b)) else (0 if m.branch(eq(a, b)) else 1)
    elif k == "bool":
        def r(a, b):
            a, b = m.branch(a), m.branch(b)
            return (a > b) - (a < b)
    elif k in ("ref", "ptr"):
        e = m.ty(ty["elem"])
        g = cmp_fn(m, ty["elem"])
        r = g if e["k"] in ("str", "slice") else (lambda a, b: g(deref(a), deref(b)))
    elif k == "str":
        r = lambda a, b: strs.str_cmp(text(a), text(b))
    elif k == "tuple":
        def r(a, b):
            for e, x, y in zip(ty["elems"], a.f, b.f):
                c = cmp_fn(m, e)(x, y)
                if c:
                    return c
            return 0
    elif k == "adt" and ty["path"] in STRINGY:
        r = lambda a, b: strs.str_cmp(text(a), text(b))
    elif k == "adt" and ty["path"] in VECY or k == "slice":
        def seq(v):
            return v.items if v.__class__ is VecObj else v.l[v.s:v.s + v.n]

        def r(a, b):
            g = cmp_fn(m, ty["args"][0] if k == "adt" else ty["elem"])
            a, b = seq(a), seq(b)
            for x, y in zip(a, b):
                c = g(x, y)
                if c:
                    return c
            return (len(a) > len(b)) - (len(a) < len(b))
    elif k == "adt" and ty["path"] == "std::option::Option":
        def r(a, b):
            x, y = gdiscr(a), gdiscr(b)
            if x != y or x == 0:
                return (x > y) - (x < y)
            return cmp_fn(m, ty["args"][0])(a.f[0], b.f[0])
    elif k == "adt" and ty["path"] == "std::cmp::Reverse":
        r = lambda a, b: -cmp_fn(m, ty["args"][0])(a.f[0], b.f[0])
    elif k == "adt":
        f = m.c.req("method", "std::cmp::Ord::cmp", t)["fn"]

        def r(a, b):
            o = m.callable_fn(f)(Ptr([a], 0), Ptr([b], 0))
            return gdiscr(o) - 1
    else:
        raise Unsupported("ordering on " + ty["name"])
    m.tyc[key] = r
    return r


def fat_elem(m, t):
    e = m.ty(t)
    return e["k"] in ("str", "slice", "dyn") or (e["k"] == "adt" and e["path"] in ("std::path::Path", "std::ffi::OsStr"))


# ---------------------------------------------------------------- core traits

@fn("std::clone::Clone::clone")
def _(ctx):
    t = ctx.targs[0]
    if ctx.ii and ctx.ii["local"] and not ctx.ii.get("derived"):
        return None
    m = ctx.m
    box = []

    def f(p):
        if not box:
            box.append(clone_fn(m, t))
        return box[0](p.c[p.i] if p.__class__ is Ptr else p)
    return f


@fn("std::clone::Clone::clone_from")
def _(ctx):
    g = clone_fn(ctx.m, ctx.targs[0])

    def f(p, q):
        p.c[p.i] = g(val(q))
        return UNIT
    return f


def eq_builder(neg):
    def b(ctx):
        m = ctx.m
        if ctx.ii and ctx.ii["local"] and not ctx.ii.get("derived"):
            if neg and ctx.j["method"] == "ne":
                return None
            return None
        t = ctx.targs[0]
        t2 = ctx.targs[1] if len(ctx.targs) > 1 else t
        if t != t2:
            x, y = peel(m, t), peel(m, t2)
            if x[0] == "str" and y[0] == "str":
                g = lambda a, b: str_eq(text(a), text(b))
            elif x[0] == "seq" and y[0] == "seq":
                def g(a, b):
                    a, b = seqv(a), seqv(b)
                    if len(a) != len(b):
                        return False
                    h = eq_mixed(m, x[1], y[1])
                    return z3and([h(p, q) for p, q in zip(a, b)])
            else:
                return None
            if neg:
                return lambda a, b: z3not(g(a, b))
            return g
        if fat_elem(m, t):
            def f(a, b):
                r = eq_fn(m, t)(a, b)
                return z3not(r) if neg else r
            return f

        def f(a, b):
            r = eq_fn(m, t)(deref(a), deref(b))
            return z3not(r) if neg else r
        return f
    return b


def peel(m, t):
    ty = m.ty(t)
    while ty["k"] in ("ref", "ptr"):
        ty = m.ty(ty["elem"])
    if ty["k"] == "str" or (ty["k"] == "adt" and (ty["path"] in STRINGY or ty["path"] in (
            "std::borrow::Cow", "std::path::Path", "std::ffi::OsStr"))):
        return ("str",)
    if ty["k"] in ("slice", "array"):
        return ("seq", ty["elem"])
    if ty["k"] == "adt" and ty["path"] in VECY:
        return ("seq", ty["args"][0])
    return ("other",)


def eq_mixed(m, a, b):
    if a == b:
        return eq_fn(m, a)
    if peel(m, a)[0] == "str" and peel(m, b)[0] == "str":
        return lambda x, y: str_eq(text(x), text(y))
    raise Unsupported("mixed equality")


def seqv(v):
    v2 = v
    while v2.__class__ is Ptr:
        v2 = v2.c[v2.i]
    if v2.__class__ is VecObj:
        return v2.items
    if v2.__class__ is SliceRef:
        return v2.l if v2.l.__class__ is TextBytes else v2.l[v2.s:v2.s + v2.n]
    if v2.__class__ is Agg:
        return v2.f
    raise Unsupported("sequence expected, got %r" % (v2,))


FN["std::cmp::PartialEq::eq"] = eq_builder(False)
FN["std::cmp::PartialEq::ne"] = eq_builder(True)


def ord_builder(meth):
    def b(ctx):
        m = ctx.m
        if ctx.ii and ctx.ii["local"] and not ctx.ii.get("derived"):
            return None
        t = ctx.targs[0]
        ty = m.ty(t)
        if ty["k"] == "adt" and ctx.ii and ctx.ii.get("derived") and not (
                ty["path"] in STRINGY or ty["path"] in VECY or ty["path"] in ("std::option::Option", "std::cmp::Reverse")):
            return None
        if ty["k"] in ("int", "uint", "char") and meth in ("lt", "le", "gt", "ge"):
            g = core.binop(ty, meth)
            return lambda a, b: g(deref(a), deref(b))
        try:
            g0 = cmp_fn(m, t)
        except Unsupported:
            return None
        fat = fat_elem(m, t)

        def c(a, b):
            return g0(a, b) if fat else g0(deref(a), deref(b))
        if meth == "cmp":
            return lambda a, b: Agg(c(a, b) + 1, [])
        if meth == "partial_cmp":
            return lambda a, b: some(Agg(c(a, b) + 1, []))
        if meth == "lt":
            return lambda a, b: c(a, b) < 0
        if meth == "le":
            return lambda a, b: c(a, b) <= 0
        if meth == "gt":
            return lambda a, b: c(a, b) > 0
        if meth == "ge":
            return lambda a, b: c(a, b) >= 0
        if meth == "max":
            return lambda a, b: b if g0(a, b) <= 0 else a
        if meth == "min":
            return lambda a, b: a if g0(a, b) <= 0 else b
        if meth == "clamp":
            return lambda a, lo, hi: lo if g0(a, lo) < 0 else (hi if g0(a, hi) > 0 else a)
    return b


for _m in ("cmp", "max", "min", "clamp"):
    FN["std::cmp::Ord::" + _m] = ord_builder(_m)
for _m in ("partial_cmp", "lt", "le", "gt", "ge"):
    FN["std::cmp::PartialOrd::" + _m] = ord_builder(_m)
FN["std::cmp::max"] = ord_builder("max")
FN["std::cmp::min"] = ord_builder("min")


@fn("std::convert::Into::into", "std::convert::From::from")
def _(ctx):
    m = ctx.m
    src = ctx.targs[0] if ctx.j["method"] == "into" else ctx.targs[1]
    dst = ctx.targs[1] if ctx.j["method"] == "into" else ctx.targs[0]
    if ctx.ii and ctx.ii["local"]:
        return None
    return convert(m, src, dst)


def convert(m, src, dst):
    if src == dst:
        return lambda x: x
    s, d = m.ty(src), m.ty(dst)
    if d["k"] == "adt":
        p = d["path"]
        if p in STRINGY:
            if peel(m, src)[0] == "str" or s.get("box"):
                return lambda x: StringObj(text(x))
            if s["k"] == "char":
                return lambda x: StringObj(strs.char_text(x))
        if p == "std::boxed::Box":
            e = m.ty(d["args"][0])
            if e["k"] == "dyn":
                if peel(m, src)[0] == "str":
                    return lambda x: DynRef(Ptr([StringObj(text(x))], 0), m.adt("std::string::String"))
                return lambda x: DynRef(Ptr([x], 0), src)
            if e["k"] == "str":
                return lambda x: text(x)
            return lambda x: BoxV(x)
        if p in VECY:
            if s["k"] == "array":
                return lambda x: VecObj(list(x.f))
            if s["k"] == "ref" and m.ty(s["elem"])["k"] in ("slice", "array"):
                g = clone_fn(m, d["args"][0])
                return lambda x: VecObj([g(y) for y in seqv(x)])
            if s["k"] == "adt" and s["path"] in VECY:
                return lambda x: x
            if peel(m, src)[0] == "str":
                return lambda x: VecObj(list(text(x).encode()))
        if p == "std::option::Option" and d["args"][0] == src:
            return lambda x: some(x)
        if p == "std::borrow::Cow":
            return lambda x: Agg(0 if s["k"] == "ref" else 1, [text(x) if s["k"] == "ref" else x])
        if p in MAPY and s["k"] == "array":
            def g(x):
                mp = MapObj([], map_kind(p))
                for y in x.f:
                    if p.endswith("Map"):
                        map_insert(m, d["args"][0], mp, y.f[0], y.f[1])
                    else:
                        map_insert(m, d["args"][0], mp, y, UNIT)
                return mp
            return g
        if p in ("std::rc::Rc", "std::sync::Arc"):
            if m.ty(d["args"][0])["k"] == "str":
                return lambda x: text(x)
            return lambda x: BoxV(x)
    if d["k"] in ("int", "uint") and s["k"] in ("int", "uint", "bool", "char"):
        return lambda x: core.cast_int(x, s, d)
    if d["k"] == "char" and s["k"] == "uint":
        return lambda x: core.cast_int(x, s, d)
    return None


@fn("std::convert::TryFrom::try_from", "std::convert::TryInto::try_into")
def _(ctx):
    m = ctx.m
    a, b = ctx.targs[0], ctx.targs[1]
    src, dst = (b, a) if ctx.j["method"] == "try_from" else (a, b)
    s, d = m.ty(src), m.ty(dst)
    if s["k"] in ("int", "uint") and d["k"] in ("int", "uint"):
        ops = core.IntOps(d["bits"], d["k"] == "int")

        def f(x):
            if x.__class__ is int:
                if ops.lo <= x <= ops.hi:
                    return ok(x)
                return err(Obj("TryFromIntError"))
            v = z3.BV2Int(x, s["k"] == "int")
            if m.branch(z3.And(v >= ops.lo, v <= ops.hi)):
                return ok(core.cast_int(x, s, d))
            return err(Obj("TryFromIntError"))
        return f
    if ctx.ii and ctx.ii["local"]:
        return None
    return None


@fn("std::convert::AsRef::as_ref", "std::borrow::Borrow::borrow", "std::ops::Deref::deref", "std::convert::AsMut::as_mut",
    "std::ops::DerefMut::deref_mut", "std::borrow::BorrowMut::borrow_mut")
def _(ctx):
    m = ctx.m
    t = ctx.targs[0]
    ty = m.ty(t)
    if ctx.ii and ctx.ii["local"]:
        return None
    out = m.ty(ctx.out)
    tgt = out["elem"] if out["k"] == "ref" else None
    if tgt == t:
        return lambda p: p
    te = m.ty(tgt) if tgt is not None else None
    if te and (te["k"] == "str" or (te["k"] == "adt" and te["path"] in ("std::path::Path", "std::ffi::OsStr"))):
        if peel(m, t)[0] == "str":
            return lambda p: text(p)
    if te and te["k"] == "slice":
        if ty["k"] == "adt" and ty["path"] in VECY:
            return lambda p: SliceRef(deref(p).items, 0, len(deref(p).items))
        if ty["k"] == "array":
            return lambda p: SliceRef(deref(p).f, 0, len(deref(p).f))
        if ty["k"] == "ref":
            return lambda p: (lambda q: q if q.__class__ is SliceRef else SliceRef(seqv(q), 0, len(seqv(q))))(deref(p))
        if peel(m, t)[0] == "str":
            return lambda p: bytes_slice(text(p))
    if ty["k"] == "adt" and ty["path"] in BOXY:
        if fat_elem(m, ty["args"][0]):
            return lambda p: deref(p)
        return lambda p: Ptr(deref(p).c, 0)
    if ty["k"] == "ref":
        if te and (te["k"] in ("str", "slice")):
            return None
        if tgt == ty["elem"]:
            return lambda p: deref(p)
    if ty["k"] == "adt" and ty["path"].endswith("LazyLock") or ty["k"] == "adt" and ty["path"].endswith("MutexGuard"):
        return lambda p: lazy_force(m, deref(p))
    return None


def bytes_slice(s):
    l = []
    for e in strs.explode(s):
        if e.__class__ is str:
            l.extend(e.encode())
        elif e.__class__ is Ch and e.w == 1:
            l.append(z3.Extract(7, 0, e.e))
        else:
            return SliceRef(TextBytes(s), 0, NoLen(s))
    return SliceRef(l, 0, len(l))


class NoLen:
    def __init__(self, s):
        self.s = s

    def _no(self, *a):
        raise Opaque("length of symbolic text", *[e for e in strs.sparts(self.s) if e.__class__ is Atom])
    __add__ = __radd__ = __sub__ = __rsub__ = __lt__ = __le__ = __gt__ = __ge__ = __eq__ = __ne__ = __index__ = __bool__ = _no
    __hash__ = None


def lazy_force(m, o):
    raise Unsupported("lazy static")


@fn("std::default::Default::default")
def _(ctx):
    m = ctx.m
    ty = m.ty(ctx.targs[0])
    k = ty["k"]
    if k in ("int", "uint", "char"):
        return lambda: 0
    if k == "bool":
        return lambda: False
    if k == "ref" and m.ty(ty["elem"])["k"] == "str":
        return lambda: ""
    if k == "tuple" and not ty["elems"]:
        return lambda: UNIT
    if k == "adt":
        p = ty["path"]
        if p in STRINGY:
            return lambda: StringObj("")
        if p in VECY:
            return lambda: VecObj([])
        if p in MAPY:
            return lambda: MapObj([], map_kind(p))
        if p == "std::option::Option":
            return lambda: none()
        if p == "std::boxed::Box":
            f = m.c.req("method", "std::default::Default::default", ty["args"][0])["fn"]
            return lambda: BoxV(m.callable_fn(f)())
    return None


@simple("std::hint::must_use", "std::convert::identity", "std::hint::black_box")
def _(x):
    return x


@simple("std::mem::drop", "std::mem::forget")
def _(x):
    return UNIT


@simple("std::mem::swap")
def _(a, b):
    a.c[a.i], b.c[b.i] = b.c[b.i], a.c[a.i]
    return UNIT


@simple("std::mem::replace")
def _(a, v):
    o = a.c[a.i]
    a.c[a.i] = v
    return o


@fn("std::mem::take")
def _(ctx):
    m = ctx.m
    f = m.c.req("method", "std::default::Default::default", ctx.targs[0])["fn"]

    def g(a):
        o = a.c[a.i]
        a.c[a.i] = m.callable_fn(f)()
        return o
    return g


@simple("std::ptr::read")
def _(p):
    return p.c[p.i]


@simple("std::ptr::write")
def _(p, v):
    p.c[p.i] = v
    return UNIT


# ---------------------------------------------------------------- panics

def panic_msg(a):
    try:
        if a.__class__ in (str,):
            return a
        if a.__class__ is Obj and a.kind == "args":
            return str(render(core.M, a))
    except Unsupported:
        pass
    return "panic"


@simple("std::rt::panic_fmt", "std::panicking::panic_fmt", "std::panicking::panic", "std::panicking::panic_display",
        "std::panicking::panic_str_2015", "std::panicking::panic_explicit", "std::rt::begin_panic", "std::panicking::begin_panic",
        "std::option::expect_failed", "std::option::unwrap_failed", "std::result::unwrap_failed", "std::panicking::assert_failed",
        "std::panicking::unreachable_display", "std::panicking::panic_nounwind", "std::panicking::unreachable_default_msg",
        "std::panicking::todo_default_msg", "std::panicking::panic_bounds_check", "std::panicking::assert_matches_failed",
        "std::panicking::unimplemented_default_msg", "std::panicking::panic_fmt_default_msg", "std::str::slice_error_fail")
def _(*a):
    raise Panic(panic_msg(a[0]) if a else "panic")


@simple("std::process::exit")
def _(c):
    raise Exit(c)


@simple("std::process::abort")
def _():
    raise Panic("abort")


# ---------------------------------------------------------------- formatting

@fn("std::fmt::rt::Argument::new_display", "std::fmt::rt::Argument::new_debug", "std::fmt::rt::Argument::new_lower_hex",
    "std::fmt::rt::Argument::new_upper_hex", "std::fmt::rt::Argument::new_pointer", "std::fmt::rt::Argument::new_octal",
    "std::fmt::rt::Argument::new_binary", "std::fmt::rt::Argument::new_lower_exp")
def _(ctx):
    kind = norm(ctx.j["path"]).rsplit("new_", 1)[1]
    t = ctx.m.ty(ctx.ins[0])["elem"]
    return lambda p: Obj("arg", how=kind, p=p, t=t)


@simple("std::fmt::rt::Argument::from_usize")
def _(p):
    return Obj("arg", how="usize", p=p, t=None)


@simple("std::fmt::Arguments::new")
def _(tpl, args):
    return Obj("args", tpl=tpl, args=args)


@simple("std::fmt::Arguments::from_str", "std::fmt::Arguments::from_str_nonconst", "std::fmt::Arguments::new_const")
def _(s):
    return Obj("args", lit=text(s) if s.__class__ in (str, S) else s)


@simple("std::fmt::Arguments::as_str", "std::fmt::Arguments::as_statically_known_str")
def _(p):
    a = val(p)
    if hasattr(a, "lit"):
        return some(a.lit)
    return none()


def render(m, a):
    if hasattr(a, "lit"):
        return a.lit
    tp = seqv(a.tpl)
    args = seqv(a.args)
    out = []
    i = 0
    nxt = 0
    n = len(tp)
    while True:
        b = tp[i]
        i += 1
        if b == 0:
            break
        if b < 0x80:
            out.append(bytes(tp[i:i + b]).decode())
            i += b
            continue
        if b == 0x80:
            ln = tp[i] | tp[i + 1] << 8
            i += 2
            out.append(bytes(tp[i:i + ln]).decode())
            i += ln
            continue
        flags = width = prec = None
        ix = nxt
        if b & 1:
            flags = int.from_bytes(bytes(tp[i:i + 4]), "little")
            i += 4
        if b & 2:
            width = tp[i] | tp[i + 1] << 8
            i += 2
        if b & 4:
            prec = tp[i] | tp[i + 1] << 8
            i += 2
        if b & 8:
            ix = tp[i] | tp[i + 1] << 8
            i += 2
        if b & 0x10 and width is not None:
            width = deref(args[width].p)
        if b & 0x20 and prec is not None:
            prec = deref(args[prec].p)
        nxt = ix + 1
        arg = args[ix]
        out.append(fmt_arg(m, arg, flags, width, prec))
    return mks(out)


def fmt_arg(m, arg, flags, width, prec):
    buf = []
    if width or prec is not None:
        s = fmt_val(m, arg.t, arg.p, arg.how, flags)
        if s.__class__ is str:
            if prec is not None:
                s = s[:prec]
            if width and len(s) < width:
                fill, align = " ", 3
                if flags is not None:
                    fill = chr(flags & 0x1FFFFF) or " "
                    align = (flags >> 29) & 3
                    if flags >> 24 & 1:
                        sgn = "-" if s.startswith("-") else ""
                        return sgn + s[len(sgn):].rjust(width - len(sgn), "0")
                num = m.ty(arg.t)["k"] in ("int", "uint") if arg.t is not None else False
                if align == 3:
                    align = 1 if num else 0
                if align == 2:
                    k = width - len(s)
                    s = fill * (k // 2) + s + fill * (k - k // 2)
                else:
                    s = s.ljust(width, fill) if align == 0 else s.rjust(width, fill)
            return s
        raise Unsupported("padding of symbolic text")
    return fmt_val(m, arg.t, arg.p, arg.how, flags)


def fmt_val(m, t, p, how, flags=None):
    """p: pointer to (or fat value of) the formatted value of type t"""
    ty = m.ty(t)
    k = ty["k"]
    if how == "debug":
        return debug_val(m, t, p, bool(flags is not None and flags >> 23 & 1))
    if how != "display":
        x = val(p)
        if x.__class__ is int:
            return {"lower_hex": "%x", "upper_hex": "%X", "octal": "%o"}.get(how, "%d") % x
        return opaque_text(m, "fmt")
    if k in ("ref", "ptr"):
        e = ty["elem"]
        x = val(p)
        return fmt_val(m, e, x, how, flags)
    if k == "str":
        return text(p)
    if k in ("int", "uint"):
        if flags is not None and flags >> 21 & 1 and not m.branch(core.binop(ty, "lt")(val(p), 0)):
            return cat("+", strs.num_text(val(p), k == "int"))
        return strs.num_text(val(p), k == "int")
    if k == "bool":
        x = val(p)
        return "true" if m.branch(x) else "false"
    if k == "char":
        return strs.char_text(val(p))
    if k == "adt":
        pth = ty["path"]
        if pth in STRINGY or pth == "std::borrow::Cow":
            return text(p)
        if pth in BOXY:
            x = val(p)
            if x.__class__ is DynRef:
                return fmt_dyn(m, x, how)
            if x.__class__ in (str, S):
                return x
            return fmt_val(m, ty["args"][0], Ptr(x.c, 0), how, flags)
        x = val(p)
        if x.__class__ is Obj:
            if x.kind == "args":
                return render(m, x)
            if x.kind in ("text",):
                return x.s
            if hasattr(x, "display"):
                return x.display
        if x.__class__ in (str, S):
            return x
        if not ty["local"]:
            return opaque_text(m, "display " + ty["name"])
    if p.__class__ is DynRef:
        return fmt_dyn(m, p, how)
    f = m.c.req("method", "std::fmt::Display::fmt", t)["fn"]
    j = m.fn(f)
    ii = m.inst(j["inst"]) if j.get("inst") is not None else None
    if ii is not None and (ii["local"] or ii.get("crate") == "podo"):
        fm = Obj("fmt", buf=[], alt=bool(flags is not None and flags >> 23 & 1))
        m.callable_fn(f)(p, Ptr([fm], 0))
        return mks(fm.buf)
    return opaque_text(m, "display " + ty["name"])


def fmt_dyn(m, x, how):
    return fmt_val(m, x.ty, x.p, how)


def opaque_text(m, why):
    return mks([m.atom(m.fresh("text"), cs=ALLCH, ne=False, trim=False)])


def debug_val(m, t, p, alt=False):
    ty = m.ty(t)
    k = ty["k"]
    if k in ("ref", "ptr"):
        return debug_val(m, ty["elem"], val(p))
    if k == "str" or (k == "adt" and ty["path"] in STRINGY):
        s = text(p)
        if s.__class__ is str:
            return '"' + s.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n").replace("\t", "\\t").replace("\r", "\\r").replace("\0", "\\0") + '"'
        return opaque_text(m, "debug")
    if k in ("int", "uint", "bool"):
        return fmt_val(m, t, p, "display")
    return opaque_text(m, "debug")


@simple("std::fmt::format", "std::fmt::format::format_inner")
def _(a):
    return StringObj(render(core.M, a))


@fn("std::string::ToString::to_string", "std::string::SpecToString::spec_to_string")
def _(ctx):
    m = ctx.m
    t = ctx.targs[0]
    if ctx.ii and ctx.ii["local"]:
        return None
    return lambda p: StringObj(fmt_val(m, t, p, "display"))


def out_write(m, p, s):
    x = p
    while x.__class__ is Ptr:
        x = x.c[x.i]
    if x.__class__ is DynRef:
        return out_write(m, x.p, s)
    if x.__class__ is StringObj:
        x.s = cat(x.s, s)
        return
    if x.__class__ is Obj and x.kind == "fmt":
        x.buf.append(s)
        return
    if x.__class__ is Obj and x.kind == "file":
        x.world.write_handle(x, s)
        return
    if x.__class__ is Obj and x.kind in ("stdout", "stderr"):
        x.write(s)
        return
    if x.__class__ is VecObj:   # Vec<u8>
        x.items = TextBytes(s if not isinstance(x.items, TextBytes) and not x.items else cat(text_of(x.items), s))
        return
    if x.__class__ is VecObj:
        x.items.extend(bytes_slice(s).l)
        return
    raise Unsupported("write to %r" % (x,))


@simple("std::fmt::Formatter::write_str", "std::fmt::Write::write_str", "std::fmt::Formatter::pad")
def _(p, s):
    out_write(core.M, p, text(s))
    return ok(UNIT)


@simple("std::fmt::Formatter::write_fmt", "std::fmt::Write::write_fmt", "std::fmt::write", "std::io::Write::write_fmt",
        "std::fmt::Formatter::write_fmt")
def _(p, a):
    out_write(core.M, p, render(core.M, a))
    return ok(UNIT)


@simple("std::fmt::Write::write_char")
def _(p, c):
    out_write(core.M, p, strs.char_text(c))
    return ok(UNIT)


@simple("std::fmt::Formatter::alternate", "std::fmt::Formatter::sign_plus")
def _(p):
    return False


@fn("std::fmt::Display::fmt", "std::fmt::Debug::fmt")
def _(ctx):
    m = ctx.m
    if ctx.ii and ctx.ii["local"] and not ctx.ii.get("derived"):
        return None
    how = "debug" if "Debug" in ctx.j["path"] else "display"
    t = ctx.targs[0]

    def f(p, fm):
        out_write(m, fm, fmt_val(m, t, p, how))
        return ok(UNIT)
    return f


for _n in ("debug_struct_field1_finish", "debug_struct_field2_finish", "debug_struct_field3_finish", "debug_struct_field4_finish",
           "debug_struct_field5_finish", "debug_struct_fields_finish", "debug_tuple_field1_finish", "debug_tuple_field2_finish",
           "debug_tuple_fields_finish"):
    @simple("std::fmt::Formatter::" + _n)
    def _(p, *a):
        out_write(core.M, p, opaque_text(core.M, "debug"))
        return ok(UNIT)


@simple("std::io::_print")
def _(a):
    w = core.M.world
    s = render(core.M, a)
    if w is not None:
        w.stdout.append(s)
    return UNIT


@simple("std::io::_eprint")
def _(a):
    w = core.M.world
    s = render(core.M, a)
    if w is not None:
        w.stderr.append(s)
    return UNIT


# ---------------------------------------------------------------- Box / vec!

@simple("std::boxed::Box::new", "std::rc::Rc::new", "std::sync::Arc::new", "std::boxed::box_new", "std::boxed::Box::pin")
def _(v):
    return BoxV(v)


@simple("std::boxed::Box::new_uninit")
def _():
    return BoxV(None)


class _Uninit:
    pass


@simple("std::boxed::box_assume_init_into_vec_unsafe")
def _(b):
    v = b.c[0]
    # MaybeUninit<ManuallyDrop<[T;N]>> wrappers
    while v.__class__ is Agg and len(v.f) == 1 and v.f[0].__class__ is Agg and getattr(v, "wrap", False):
        v = v.f[0]
    return VecObj(v.f)


@simple("std::boxed::Box::write")
def _(b, v):
    b.c[0] = v
    return b


@simple("std::boxed::Box::leak")
def _(b):
    return Ptr(b.c, 0) if b.__class__ is BoxV else b


@simple("std::boxed::Box::into_inner")
def _(b):
    return b.c[0]


@simple("std::mem::MaybeUninit::as_mut_ptr", "std::mem::maybe_uninit::MaybeUninit::as_mut_ptr")
def _(p):
    return p


@simple("std::mem::MaybeUninit::uninit")
def _():
    return None


@simple("std::slice::into_vec", "std::slice::hack::into_vec")
def _(b):
    if b.__class__ is SliceRef:
        return VecObj(b.l[b.s:b.s + b.n])
    return VecObj(list(seqv(b)))


# ---------------------------------------------------------------- Vec and slices

def V(p):
    x = p
    while x.__class__ is Ptr:
        x = x.c[x.i]
    return x


def conc(i):
    return core.M.concretize(i)


@simple("std::vec::Vec::new", "std::collections::VecDeque::new")
def _():
    return VecObj([])


@simple("std::vec::Vec::with_capacity", "std::collections::VecDeque::with_capacity")
def _(n):
    return VecObj([])


@simple("std::vec::Vec::push", "std::collections::VecDeque::push_back")
def _(p, v):
    V(p).items.append(v)
    return UNIT


@simple("std::vec::Vec::push_mut")
def _(p, v):
    l = V(p).items
    l.append(v)
    return Ptr(l, len(l) - 1)


@simple("std::collections::VecDeque::push_front")
def _(p, v):
    V(p).items.insert(0, v)
    return UNIT


@simple("std::vec::Vec::pop", "std::collections::VecDeque::pop_back")
def _(p):
    l = V(p).items
    return some(l.pop()) if l else none()


@simple("std::collections::VecDeque::pop_front")
def _(p):
    l = V(p).items
    return some(l.pop(0)) if l else none()


@simple("std::vec::Vec::len", "std::collections::VecDeque::len")
def _(p):
    return len(V(p).items)


@simple("std::vec::Vec::is_empty", "std::collections::VecDeque::is_empty")
def _(p):
    return not V(p).items


@simple("std::vec::Vec::clear", "std::collections::VecDeque::clear")
def _(p):
    V(p).items.clear()
    return UNIT


@simple("std::vec::Vec::reserve", "std::vec::Vec::shrink_to_fit", "std::string::String::reserve", "std::collections::HashMap::reserve")
def _(*a):
    return UNIT


@simple("std::vec::Vec::capacity")
def _(p):
    return len(V(p).items)


@simple("std::vec::Vec::append", "std::collections::VecDeque::append")
def _(p, q):
    a, b = V(p), V(q)
    a.items.extend(b.items)
    b.items = []
    return UNIT


@simple("std::vec::Vec::remove")
def _(p, i):
    l = V(p).items
    i = conc(i)
    if i >= len(l):
        raise Panic("removal index out of bounds")
    return l.pop(i)


@simple("std::vec::Vec::swap_remove")
def _(p, i):
    l = V(p).items
    i = conc(i)
    if i >= len(l):
        raise Panic("swap_remove index out of bounds")
    l[i], l[-1] = l[-1], l[i]
    return l.pop()


@simple("std::vec::Vec::insert")
def _(p, i, v):
    l = V(p).items
    i = conc(i)
    if i > len(l):
        raise Panic("insertion index out of bounds")
    l.insert(i, v)
    return UNIT


@simple("std::vec::Vec::truncate")
def _(p, n):
    l = V(p).items
    del l[conc(n):]
    return UNIT


@simple("std::vec::Vec::split_off")
def _(p, n):
    l = V(p).items
    n = conc(n)
    if n > len(l):
        raise Panic("split_off out of bounds")
    r = l[n:]
    del l[n:]
    return VecObj(r)


@simple("std::vec::Vec::into_boxed_slice")
def _(v):
    return SliceRef(v.items, 0, len(v.items))


@simple("std::vec::Vec::as_slice", "std::vec::Vec::as_mut_slice")
def _(p):
    l = V(p).items
    return SliceRef(l, 0, len(l))


def rng(n, r, kind=None):
    """Range-like aggregate -> (a, b)"""
    return r


@fn("std::vec::Vec::drain")
def _(ctx):
    m = ctx.m
    rt = ctx.ins[1]

    def f(p, r):
        v = V(p)
        a, b = range_bounds(m, rt, r, len(v.items))
        out = v.items[a:b]
        del v.items[a:b]
        return SeqIt(out, 0, len(out), by_val)
    return f


def range_bounds(m, rt, r, n):
    name = m.ty(rt)["path"]
    if name.endswith("RangeFull"):
        return 0, n
    f = [conc(x) if not isinstance(x, bool) else x for x in r.f]
    if name.endswith("RangeFrom"):
        a, b = f[0], n
    elif name.endswith("RangeToInclusive"):
        a, b = 0, f[0] + 1
    elif name.endswith("RangeTo"):
        a, b = 0, f[0]
    elif name.endswith("RangeInclusive"):
        a, b = f[0], f[1] + 1
    else:
        a, b = f[0], f[1]
    if a > b or b > n:
        raise Panic("range out of bounds")
    return a, b


@fn("std::vec::Vec::retain", "std::vec::Vec::retain_mut")
def _(ctx):
    m = ctx.m
    ft = ctx.ins[1]

    def f(p, g):
        v = V(p)
        v.items[:] = [x for x in v.items if m.branch(m.call_value(g, ft, [Ptr([x], 0)]))]
        return UNIT
    return f


@fn("std::vec::Vec::dedup")
def _(ctx):
    m = ctx.m
    e = ctx.args[0]

    def f(p):
        v = V(p)
        g = eq_fn(m, e)
        out = []
        for x in v.items:
            if out and m.branch(g(out[-1], x)):
                continue
            out.append(x)
        v.items[:] = out
        return UNIT
    return f


@fn("std::vec::Vec::extend_from_slice")
def _(ctx):
    g = clone_fn(ctx.m, ctx.args[0])

    def f(p, s):
        V(p).items.extend([g(x) for x in seqv(s)])
        return UNIT
    return f


@fn("std::iter::Extend::extend")
def _(ctx):
    m = ctx.m
    ty = m.ty(ctx.targs[0])
    src = ctx.ins[1]
    if ty["k"] != "adt":
        return None
    el = m.ty(ctx.targs[1])

    def f(p, it):
        x = V(p)
        xs = to_iter(m, src, it).drain()
        if x.__class__ is VecObj:
            if el["k"] == "ref":
                g = clone_fn(m, el["elem"])
                xs = [g(val(y)) for y in xs]
            x.items.extend(xs)
        elif x.__class__ is MapObj:
            for y in xs:
                if ty["path"].endswith("Map"):
                    map_insert(m, ty["args"][0], x, y.f[0], y.f[1])
                else:
                    map_insert(m, ty["args"][0], x, y, UNIT)
        elif x.__class__ is StringObj:
            for y in xs:
                x.s = cat(x.s, strs.char_text(y) if el["k"] == "char" else text(y))
        else:
            raise Unsupported("extend")
        return UNIT
    return f


@fn("std::ops::Index::index", "std::ops::IndexMut::index_mut")
def _(ctx):
    m = ctx.m
    if ctx.ii and ctx.ii["local"]:
        return None
    ty = m.ty(ctx.targs[0])
    it = ctx.targs[1]
    ity = m.ty(it)
    if ty["k"] == "str" or (ty["k"] == "adt" and ty["path"] in STRINGY):
        def f(p, r):
            s = text(p)
            name = ity["path"]
            if name.endswith("RangeFull"):
                return s
            if name.endswith("RangeFrom"):
                return strs.slice_bytes(s, r.f[0], None)
            if name.endswith("RangeTo"):
                return strs.slice_bytes(s, 0, r.f[0])
            if name.endswith("RangeInclusive"):
                return strs.slice_bytes(s, r.f[0], r.f[1] + 1)
            return strs.slice_bytes(s, r.f[0], r.f[1])
        return f
    if ty["k"] in ("slice", "array") or (ty["k"] == "adt" and ty["path"] in VECY):
        if ity["k"] == "uint":
            def f(p, i):
                x = V(p)
                l, s, n = (x.items, 0, len(x.items)) if x.__class__ is VecObj else core.seq_of(x)
                i = conc(i)
                if i >= n:
                    raise Panic("index out of bounds")
                return elem_ptr(m, l, s + i)
            return f

        def f(p, r):
            x = V(p)
            l, s, n = (x.items, 0, len(x.items)) if x.__class__ is VecObj else core.seq_of(x)
            a, b = range_bounds(m, it, r, n)
            return SliceRef(l, s + a, b - a)
        return f
    if ty["k"] == "adt" and ty["path"] in MAPY:
        kt = ty["args"][0]

        def f(p, k):
            e = map_find(m, kt, V(p), key_of(m, k))
            if e is None:
                raise Panic("key not found in map")
            return Ptr(e, 1)
        return f
    return None


def elem_ptr(m, l, i):
    return Ptr(l, i)


def sl(x):
    """slice-like -> SliceRef"""
    v = x
    while v.__class__ is Ptr:
        v = v.c[v.i]
    if v.__class__ is SliceRef:
        return v
    if v.__class__ is VecObj:
        return SliceRef(v.items, 0, len(v.items))
    if v.__class__ is Agg:
        return SliceRef(v.f, 0, len(v.f))
    raise Unsupported("slice expected: %r" % (v,))


@simple("std::slice::iter", "std::slice::iter_mut", "std::collections::VecDeque::iter", "std::collections::VecDeque::iter_mut")
def _(s):
    s = sl(s)
    return SeqIt(s.l, s.s, s.s + s.n, by_ptr)


@simple("std::slice::len")
def _(s):
    return sl(s).n


@simple("std::slice::is_empty")
def _(s):
    return sl(s).n == 0


@simple("std::slice::first", "std::slice::first_mut", "std::collections::VecDeque::front")
def _(s):
    s = sl(s)
    return some(Ptr(s.l, s.s)) if s.n else none()


@simple("std::slice::last", "std::slice::last_mut", "std::collections::VecDeque::back")
def _(s):
    s = sl(s)
    return some(Ptr(s.l, s.s + s.n - 1)) if s.n else none()


@fn("std::slice::get", "std::slice::get_mut", "std::collections::VecDeque::get")
def _(ctx):
    m = ctx.m
    it = ctx.ins[1]
    ity = m.ty(it)

    def f(s, i):
        s = sl(s)
        if ity["k"] == "uint":
            i = conc(i)
            return some(Ptr(s.l, s.s + i)) if i < s.n else none()
        try:
            a, b = range_bounds(m, it, i, s.n)
        except Panic:
            return none()
        return some(SliceRef(s.l, s.s + a, b - a))
    return f


@simple("std::slice::split_first", "std::slice::split_first_mut")
def _(s):
    s = sl(s)
    if not s.n:
        return none()
    return some(Agg(0, [Ptr(s.l, s.s), SliceRef(s.l, s.s + 1, s.n - 1)]))


@simple("std::slice::split_last")
def _(s):
    s = sl(s)
    if not s.n:
        return none()
    return some(Agg(0, [Ptr(s.l, s.s + s.n - 1), SliceRef(s.l, s.s, s.n - 1)]))


@simple("std::slice::split_at")
def _(s, k):
    s = sl(s)
    k = conc(k)
    if k > s.n:
        raise Panic("split_at out of bounds")
    return Agg(0, [SliceRef(s.l, s.s, k), SliceRef(s.l, s.s + k, s.n - k)])


@simple("std::slice::reverse")
def _(s):
    s = sl(s)
    s.l[s.s:s.s + s.n] = s.l[s.s:s.s + s.n][::-1]
    return UNIT


@simple("std::slice::swap")
def _(s, a, b):
    s = sl(s)
    a, b = conc(a), conc(b)
    if a >= s.n or b >= s.n:
        raise Panic("index out of bounds")
    s.l[s.s + a], s.l[s.s + b] = s.l[s.s + b], s.l[s.s + a]
    return UNIT


@fn("std::slice::contains")
def _(ctx):
    m = ctx.m
    e = m.ty(m.ty(ctx.ins[0])["elem"])["elem"]

    def f(s, x):
        s = sl(s)
        g = eq_fn(m, e)
        y = val(x) if not fat_elem(m, e) else x
        return z3or([g(s.l[s.s + i], y) for i in range(s.n)])
    return f


@fn("std::slice::to_vec", "std::slice::to_vec_in", "std::slice::into_vec_", "std::slice::to_owned")
def _(ctx):
    m = ctx.m
    e = m.ty(m.ty(ctx.ins[0])["elem"])["elem"]
    g = clone_fn(m, e)
    return lambda s: VecObj([g(x) for x in seqv(s)])


@fn("std::borrow::ToOwned::to_owned")
def _(ctx):
    m = ctx.m
    t = ctx.targs[0]
    ty = m.ty(t)
    if ty["k"] == "str" or (ty["k"] == "adt" and ty["path"] in ("std::path::Path", "std::ffi::OsStr")):
        return lambda p: StringObj(text(p))
    if ty["k"] == "slice":
        g = clone_fn(m, ty["elem"])
        return lambda p: VecObj([g(x) for x in seqv(p)])
    g = clone_fn(m, t)
    return lambda p: g(val(p))


def merge_sort(m, l, less_eq):
    """stable insertion sort using comparison le(a,b)"""
    out = []
    for x in l:
        i = len(out)
        while i > 0 and not less_eq(out[i - 1], x):
            i -= 1
        out.insert(i, x)
    return out


@fn("std::slice::sort", "std::slice::sort_unstable")
def _(ctx):
    m = ctx.m
    e = m.ty(m.ty(ctx.ins[0])["elem"])["elem"]

    def f(s):
        s = sl(s)
        c = cmp_fn(m, e)
        s.l[s.s:s.s + s.n] = merge_sort(m, s.l[s.s:s.s + s.n], lambda a, b: c(a, b) <= 0)
        return UNIT
    return f


@fn("std::slice::sort_by", "std::slice::sort_unstable_by")
def _(ctx):
    m = ctx.m
    ft = ctx.ins[1]

    def f(s, g):
        s = sl(s)

        def le(a, b):
            return gdiscr(m.call_value(g, ft, [Ptr([a], 0), Ptr([b], 0)])) != 2
        s.l[s.s:s.s + s.n] = merge_sort(m, s.l[s.s:s.s + s.n], le)
        return UNIT
    return f


@fn("std::slice::sort_by_key", "std::slice::sort_unstable_by_key", "std::slice::sort_by_cached_key")
def _(ctx):
    m = ctx.m
    ft = ctx.ins[1]
    kt = ctx.targs[1] if len(ctx.targs) > 1 else None

    def f(s, g):
        s = sl(s)
        keyt = [a for a in ctx.targs][1]
        c = cmp_fn(m, keyt)
        ks = [(m.call_value(g, ft, [Ptr([x], 0)]), x) for x in s.l[s.s:s.s + s.n]]
        s.l[s.s:s.s + s.n] = [x for _, x in merge_sort(m, ks, lambda a, b: c(a[0], b[0]) <= 0)]
        return UNIT
    return f


@simple("std::slice::join", "std::slice::concat", "std::slice::Join::join", "std::slice::Concat::concat")
def _(s, sep=""):
    xs = seqv(s)
    if xs and xs[0].__class__ is VecObj:
        out = []
        for x in xs:
            out.extend(x.items)
        return VecObj(out)
    sep = text(sep) if sep.__class__ is not int else chr(sep)
    out = []
    for i, x in enumerate(xs):
        if i:
            out.append(sep)
        out.append(text(x))
    return StringObj(mks(out))


@simple("std::slice::chunks", "std::slice::chunks_exact")
def _(s, n):
    s = sl(s)
    l = [SliceRef(s.l, s.s + i, min(n, s.n - i)) for i in range(0, s.n, n)]
    return SeqIt(l, 0, len(l), by_val)


@simple("std::slice::windows")
def _(s, n):
    s = sl(s)
    l = [SliceRef(s.l, s.s + i, n) for i in range(0, s.n - n + 1)]
    return SeqIt(l, 0, len(l), by_val)


@simple("std::slice::as_ptr", "std::slice::as_mut_ptr")
def _(s):
    return sl(s)


# ---------------------------------------------------------------- iterators

def to_iter(m, t, v):
    """IntoIterator::into_iter for a value of type t"""
    if isinstance(v, It):
        return v
    ty = m.ty(t)
    k = ty["k"]
    if k in ("ref", "ptr"):
        e = m.ty(ty["elem"])
        x = v
        if x.__class__ is Ptr and isinstance(x.c[x.i], It):
            return x.c[x.i]
        if e["k"] == "ref":
            return to_iter(m, ty["elem"], val(v))
        if e["k"] in ("slice", "array") or (e["k"] == "adt" and e["path"] in VECY):
            s = sl(v)
            return SeqIt(s.l, s.s, s.s + s.n, by_ptr)
        if e["k"] == "adt" and e["path"] in MAPY:
            mp = V(v)
            if e["path"].endswith("Map"):
                return MapEntries(mp, lambda en: Agg(0, [Ptr(en, 0), Ptr(en, 1)]))
            return MapEntries(mp, lambda en: Ptr(en, 0))
        if e["k"] == "adt" and e["path"] == "std::option::Option":
            o = val(v)
            l = [Ptr(o.f, 0)] if gdiscr(o) == 1 else []
            return SeqIt(l, 0, len(l), by_val)
        return user_iter(m, t, v, ty)
    if k == "array":
        return SeqIt(v.f, 0, len(v.f), by_val)
    if k == "adt":
        p = ty["path"]
        if p in VECY:
            return SeqIt(v.items, 0, len(v.items), by_val)
        if p in MAPY:
            if p.endswith("Map"):
                return MapEntries(v, lambda en: Agg(0, [en[0], en[1]]))
            return MapEntries(v, lambda en: en[0])
        if p == "std::option::Option":
            l = [v.f[0]] if gdiscr(v) == 1 else []
            return SeqIt(l, 0, len(l), by_val)
        if p == "std::result::Result":
            l = [v.f[0]] if gdiscr(v) == 0 else []
            return SeqIt(l, 0, len(l), by_val)
        if p == "std::ops::Range":
            return RangeIt(v)
        if p == "std::ops::RangeInclusive":
            return RangeIt(v, True)
        if p == "std::ops::RangeFrom":
            st = [v.f[0]]

            def nx():
                st[0] += 1
                return st[0] - 1
            return Adapter(nx)
        if p == "std::boxed::Box":
            x = v
            if x.__class__ is DynRef and isinstance(val(x.p), It):
                return val(x.p)
            if x.__class__ is BoxV and isinstance(x.c[0], It):
                return x.c[0]
    return user_iter(m, t, v, ty)


STDCRATES = ("std", "core", "alloc")


def foreign(m, j):
    """a function with a body of its own outside the standard library"""
    if j.get("inst") is None:
        return False
    ii = m.inst(j["inst"])
    return ii["local"] or ii.get("crate") not in STDCRATES


def own_body(m, f):
    i = m.fn(f)["inst"]
    ii = m.inst(i)
    return m.callable_fn(f) if ii["local"] else core.compile_inst(m, i, ii)


def user_iter(m, t, v, ty):
    if v.__class__ is DynRef and isinstance(val(v.p), It):
        return val(v.p)
    if ty["k"] == "ref":
        base = ty["elem"]
        f = m.c.req("method", "std::iter::Iterator::next", base)
        if foreign(m, m.fn(f["fn"])):
            return UserIt(v, own_body(m, f["fn"]))
        raise Unsupported("iteration over " + ty["name"])
    f = m.c.req("method", "std::iter::Iterator::next", t)
    j = m.fn(f["fn"])
    if foreign(m, j):
        return UserIt(Ptr([v], 0), own_body(m, f["fn"]))
    g = m.c.req("method", "std::iter::IntoIterator::into_iter", t)
    j = m.fn(g["fn"])
    if foreign(m, j):
        r = own_body(m, g["fn"])(v)
        o = m.c.req("fnty", g["fn"])["out"]
        return to_iter(m, o, r)
    raise Unsupported("iteration over " + ty["name"])


@fn("std::iter::IntoIterator::into_iter")
def _(ctx):
    m = ctx.m
    if ctx.ii and ctx.ii["local"]:
        return None
    t = ctx.targs[0]
    return lambda v: to_iter(m, t, v)


@simple("std::iter::once")
def _(x):
    return SeqIt([x], 0, 1, by_val)


@simple("std::iter::empty")
def _():
    return SeqIt([], 0, 0, by_val)


@fn("std::iter::repeat_n", "std::iter::repeat")
def _(ctx):
    g = clone_fn(ctx.m, ctx.targs[0])

    def f(x, n=None):
        if n is None:
            return Adapter(lambda: g(x), cl=None)
        return SeqIt([g(x) for _ in range(conc(n))], 0, conc(n), by_val)
    return f


@fn("std::iter::from_fn")
def _(ctx):
    m = ctx.m
    t = ctx.ins[0]

    def f(g):
        h = Ptr([g], 0)
        rt = m.c.req("mkmut", t)
        return FnIt(lambda: m.call_value(g, t, []))
    return f


@fn("std::iter::successors")
def _(ctx):
    m = ctx.m
    t = ctx.ins[1]

    def f(first, g):
        st = [first]

        def nx():
            o = st[0]
            if gdiscr(o) == 0:
                return END
            x = o.f[0]
            st[0] = m.call_value(g, t, [Ptr([x], 0)])
            return x
        return Adapter(nx)
    return f


@fn("std::iter::zip")
def _(ctx):
    m = ctx.m
    return lambda a, b: ZipIt(to_iter(m, ctx.ins[0], a), to_iter(m, ctx.ins[1], b))


def opt(x):
    return none() if x is END else some(x)


def iter_method(name, g):
    def b(ctx):
        m = ctx.m
        if ctx.ii and ctx.ii["local"]:
            return None
        selft = ctx.ins[0]
        r = g(ctx, m)
        if r is None:
            return None

        def f(slf, *a):
            return r(get_it(m, selft, slf), *a)
        return f
    FN["std::iter::Iterator::" + name] = b
    FN["std::iter::DoubleEndedIterator::" + name] = b
    FN["std::iter::ExactSizeIterator::" + name] = b


def get_it(m, t, v):
    x = v
    while x.__class__ is Ptr:
        x = x.c[x.i]
    if isinstance(x, It):
        return x
    if x.__class__ is DynRef:
        return get_it(m, t, x.p)
    if x.__class__ is BoxV and isinstance(x.c[0], It):
        return x.c[0]
    ty = m.ty(t)
    while ty["k"] in ("ref", "ptr"):
        ty = m.ty(ty["elem"])
    if ty["k"] == "adt" and ty["path"] == "std::ops::Range":
        return RangeIt(x)
    if ty["k"] == "adt" and ty["path"] == "std::ops::RangeInclusive":
        return RangeIt(x, True)
    if ty["k"] == "adt" and ty["path"] == "std::ops::RangeFrom":
        def nx():
            x.f[0] = core.binop(m.ty(ty["args"][0]), "add")(x.f[0], 1)
            return core.binop(m.ty(ty["args"][0]), "sub")(x.f[0], 1)
        return Adapter(nx)
    if x.__class__ is Obj and hasattr(x, "iter"):
        return x.iter
    if v.__class__ is Ptr:
        return user_iter(m, t, v, m.ty(t))
    return user_iter(m, t, v, ty)


def im(*names):
    def d(g):
        for n in names:
            iter_method(n, g)
        return g
    return d


def caller(ctx, k, m):
    t = ctx.ins[k]
    return lambda f: (lambda *a: m.call_value(f, t, list(a)))


im("next")(lambda ctx, m: lambda it: opt(it.next()))
im("next_back")(lambda ctx, m: lambda it: opt(it.back()))
im("by_ref")(lambda ctx, m: lambda it: Ptr([it], 0))
im("rev")(lambda ctx, m: lambda it: RevIt(it))
im("enumerate")(lambda ctx, m: lambda it: EnumIt(it))
im("peekable")(lambda ctx, m: lambda it: PeekIt(it))
im("fuse")(lambda ctx, m: lambda it: it)
im("skip")(lambda ctx, m: lambda it, n: SkipIt(it, conc(n)))
im("take")(lambda ctx, m: lambda it, n: TakeIt(it, conc(n)))
im("zip")(lambda ctx, m: lambda it, o: ZipIt(it, to_iter(m, ctx.ins[1], o)))
im("chain")(lambda ctx, m: lambda it, o: ChainIt(it, to_iter(m, ctx.ins[1], o)))
im("count")(lambda ctx, m: lambda it: len(it.drain()))
im("len")(lambda ctx, m: lambda it: it.length())
im("size_hint")(lambda ctx, m: lambda it: Agg(0, [0, none()]))


@im("last")
def _(ctx, m):
    def f(it):
        l = it.drain()
        return some(l[-1]) if l else none()
    return f


@im("nth")
def _(ctx, m):
    def f(it, n):
        for _ in range(conc(n)):
            if it.next() is END:
                return none()
        return opt(it.next())
    return f


@im("cloned", "copied")
def _(ctx, m):
    out = m.ty(ctx.out)
    # item type: last generic argument of the adapter is the underlying iterator; use Item via fnty of next
    item = iter_item(m, ctx.targs[0])
    g = clone_fn(m, m.ty(item)["elem"])
    return lambda it: MapIt(it, lambda x: g(val(x)))


def iter_item(m, t):
    ty = m.ty(t)
    f = m.c.req("method", "std::iter::Iterator::next", t)["fn"]
    o = m.ty(m.c.req("fnty", f)["out"])
    return o["args"][0]


@im("map")
def _(ctx, m):
    c = caller(ctx, 1, m)
    return lambda it, f: MapIt(it, c(f))


@im("inspect")
def _(ctx, m):
    c = caller(ctx, 1, m)

    def f(it, g):
        h = c(g)

        def w(x):
            h(Ptr([x], 0))
            return x
        return MapIt(it, w)
    return f


@im("filter")
def _(ctx, m):
    c = caller(ctx, 1, m)

    def f(it, g):
        h = c(g)
        return FilterIt(it, lambda x: h(Ptr([x], 0)))
    return f


@im("filter_map")
def _(ctx, m):
    c = caller(ctx, 1, m)
    return lambda it, g: FilterMapIt(it, c(g))


@im("take_while")
def _(ctx, m):
    c = caller(ctx, 1, m)
    return lambda it, g: WhileIt(it, (lambda h: lambda x: h(Ptr([x], 0)))(c(g)), False)


@im("skip_while")
def _(ctx, m):
    c = caller(ctx, 1, m)
    return lambda it, g: WhileIt(it, (lambda h: lambda x: h(Ptr([x], 0)))(c(g)), True)


@im("map_while")
def _(ctx, m):
    c = caller(ctx, 1, m)

    def f(it, g):
        h = c(g)

        def nx():
            x = it.next()
            if x is END:
                return END
            r = h(x)
            return END if gdiscr(r) == 0 else r.f[0]
        return Adapter(nx)
    return f


@im("scan")
def _(ctx, m):
    c = caller(ctx, 2, m)

    def f(it, st, g):
        h = c(g)
        cell = [st]

        def nx():
            x = it.next()
            if x is END:
                return END
            r = h(Ptr(cell, 0), x)
            return END if gdiscr(r) == 0 else r.f[0]
        return Adapter(nx)
    return f


@im("step_by")
def _(ctx, m):
    def f(it, n):
        l = it.drain()[::conc(n)]
        return SeqIt(l, 0, len(l), by_val)
    return f


@im("flat_map")
def _(ctx, m):
    c = caller(ctx, 1, m)
    rt = ctx.targs[1]

    def f(it, g):
        h = c(g)
        return FlatIt(it, lambda x: to_iter(m, rt, h(x)))
    return f


@im("flatten")
def _(ctx, m):
    item = iter_item(m, ctx.targs[0])
    return lambda it: FlatIt(it, lambda x: to_iter(m, item, x))


@im("for_each")
def _(ctx, m):
    c = caller(ctx, 1, m)

    def f(it, g):
        h = c(g)
        while True:
            x = it.next()
            if x is END:
                return UNIT
            h(x)
    return f


@im("fold")
def _(ctx, m):
    c = caller(ctx, 2, m)

    def f(it, acc, g):
        h = c(g)
        while True:
            x = it.next()
            if x is END:
                return acc
            acc = h(acc, x)
    return f


@im("rfold")
def _(ctx, m):
    c = caller(ctx, 2, m)

    def f(it, acc, g):
        h = c(g)
        while True:
            x = it.back()
            if x is END:
                return acc
            acc = h(acc, x)
    return f


@im("reduce")
def _(ctx, m):
    c = caller(ctx, 1, m)

    def f(it, g):
        acc = it.next()
        if acc is END:
            return none()
        h = c(g)
        while True:
            x = it.next()
            if x is END:
                return some(acc)
            acc = h(acc, x)
    return f


def try_parts(m, t, v):
    """(is_continue, payload, residual_builder)"""
    ty = m.ty(t)
    p = ty["path"]
    d = gdiscr(v)
    if p == "std::result::Result":
        return (d == 0, v.f[0])
    if p == "std::option::Option":
        return (d == 1, v.f[0] if d == 1 else None)
    if p == "std::ops::ControlFlow":
        return (d == 0, v.f[0])
    raise Unsupported("try on " + ty["name"])


def try_wrap(m, t, x):
    p = m.ty(t)["path"]
    return some(x) if p == "std::option::Option" else Agg(0, [x])


@im("try_fold")
def _(ctx, m):
    c = caller(ctx, 2, m)
    rt = ctx.out

    def f(it, acc, g):
        h = c(g)
        while True:
            x = it.next()
            if x is END:
                return try_wrap(m, rt, acc)
            r = h(acc, x)
            cont, pay = try_parts(m, rt, r)
            if not cont:
                return r
            acc = pay
    return f


@im("try_for_each")
def _(ctx, m):
    c = caller(ctx, 1, m)
    rt = ctx.out

    def f(it, g):
        h = c(g)
        while True:
            x = it.next()
            if x is END:
                return try_wrap(m, rt, UNIT)
            r = h(x)
            cont, pay = try_parts(m, rt, r)
            if not cont:
                return r
    return f


@im("any")
def _(ctx, m):
    c = caller(ctx, 1, m)

    def f(it, g):
        h = c(g)
        while True:
            x = it.next()
            if x is END:
                return False
            if m.branch(h(x)):
                return True
    return f


@im("all")
def _(ctx, m):
    c = caller(ctx, 1, m)

    def f(it, g):
        h = c(g)
        while True:
            x = it.next()
            if x is END:
                return True
            if not m.branch(h(x)):
                return False
    return f


@im("find")
def _(ctx, m):
    c = caller(ctx, 1, m)

    def f(it, g):
        h = c(g)
        while True:
            x = it.next()
            if x is END:
                return none()
            if m.branch(h(Ptr([x], 0))):
                return some(x)
    return f


@im("rfind")
def _(ctx, m):
    c = caller(ctx, 1, m)

    def f(it, g):
        h = c(g)
        while True:
            x = it.back()
            if x is END:
                return none()
            if m.branch(h(Ptr([x], 0))):
                return some(x)
    return f


@im("find_map")
def _(ctx, m):
    c = caller(ctx, 1, m)

    def f(it, g):
        h = c(g)
        while True:
            x = it.next()
            if x is END:
                return none()
            r = h(x)
            if gdiscr(r) == 1:
                return r
    return f


@im("position")
def _(ctx, m):
    c = caller(ctx, 1, m)

    def f(it, g):
        h = c(g)
        n = 0
        while True:
            x = it.next()
            if x is END:
                return none()
            if m.branch(h(x)):
                return some(n)
            n += 1
    return f


@im("rposition")
def _(ctx, m):
    c = caller(ctx, 1, m)

    def f(it, g):
        h = c(g)
        n = it.length()
        while True:
            x = it.back()
            n -= 1
            if x is END:
                return none()
            if m.branch(h(x)):
                return some(n)
    return f


def best(ctx, m, sign):
    item = iter_item(m, ctx.targs[0])

    def f(it):
        c = cmp_fn(m, item)
        l = it.drain()
        if not l:
            return none()
        b = l[0]
        for x in l[1:]:
            r = c(x, b) * sign
            if r > 0 or (r == 0 and sign > 0):
                b = x
        return some(b)
    return f


im("max")(lambda ctx, m: best(ctx, m, 1))
im("min")(lambda ctx, m: best(ctx, m, -1))


def best_key(ctx, m, sign):
    kt = ctx.targs[1]
    c1 = caller(ctx, 1, m)

    def f(it, g):
        h = c1(g)
        c = cmp_fn(m, kt)
        l = [(h(Ptr([x], 0)), x) for x in it.drain()]
        if not l:
            return none()
        b = l[0]
        for x in l[1:]:
            r = c(x[0], b[0]) * sign
            if r > 0 or (r == 0 and sign > 0):
                b = x
        return some(b[1])
    return f


im("max_by_key")(lambda ctx, m: best_key(ctx, m, 1))
im("min_by_key")(lambda ctx, m: best_key(ctx, m, -1))


@im("sum")
def _(ctx, m):
    ty = m.ty(ctx.out)
    add = core.binop(ty, "addo")

    def f(it):
        acc = 0
        for x in it.drain():
            r = add(acc, val(x))
            if m.branch(r.f[1]):
                raise Panic("attempt to add with overflow")
            acc = r.f[0]
        return acc
    return f


@im("partition")
def _(ctx, m):
    c = caller(ctx, 1, m)
    ct = ctx.targs[1]

    def f(it, g):
        h = c(g)
        a, b = [], []
        for x in it.drain():
            (a if m.branch(h(Ptr([x], 0))) else b).append(x)
        return Agg(0, [collect_into(m, ct, a), collect_into(m, ct, b)])
    return f


@im("unzip")
def _(ctx, m):
    ot = m.ty(ctx.out)["elems"]

    def f(it):
        l = it.drain()
        return Agg(0, [collect_into(m, ot[0], [x.f[0] for x in l]), collect_into(m, ot[1], [x.f[1] for x in l])])
    return f


@im("collect")
def _(ctx, m):
    ct = ctx.out
    item = ctx.targs[0]
    return lambda it: collect_it(m, ct, it, item)


def iter_eq(ctx, m, neg):
    item = iter_item(m, ctx.targs[0])
    ot = ctx.ins[1]

    def f(it, o):
        o = to_iter(m, ot, o)
        g = eq_fn(m, item)
        while True:
            x, y = it.next(), o.next()
            if x is END or y is END:
                return (x is y) != neg
            if not m.branch(g(x, y)):
                return neg
    return f


im("eq")(lambda ctx, m: iter_eq(ctx, m, False))
im("ne")(lambda ctx, m: iter_eq(ctx, m, True))


def collect_it(m, ct, it, src=None):
    """src: the iterator's type"""
    ty = m.ty(ct)
    other = None
    if src is not None:
        def other():
            t = iter_item(m, src)
            return m.ty(t)["args"][0] if ty["k"] == "adt" and ty["path"] in ("std::result::Result", "std::option::Option") else t
    if ty["k"] == "adt" and ty["path"] == "std::result::Result":
        out = []
        while True:
            x = it.next()
            if x is END:
                return ok(collect_into(m, ty["args"][0], out, other))
            if gdiscr(x) == 1:
                return Agg(1, [x.f[0]])
            out.append(x.f[0])
    if ty["k"] == "adt" and ty["path"] == "std::option::Option":
        out = []
        while True:
            x = it.next()
            if x is END:
                return some(collect_into(m, ty["args"][0], out, other))
            if gdiscr(x) == 0:
                return none()
            out.append(x.f[0])
    return collect_into(m, ct, it.drain(), other)


def collect_into(m, ct, xs, item=None):
    ty = m.ty(ct)
    if ty["k"] == "tuple" and not ty["elems"]:
        return UNIT
    if ty["k"] == "adt":
        p = ty["path"]
        if p in VECY:
            return VecObj(xs)
        if p in MAPY:
            mp = MapObj([], map_kind(p))
            for x in xs:
                if p.endswith("Map"):
                    map_insert(m, ty["args"][0], mp, x.f[0], x.f[1])
                else:
                    map_insert(m, ty["args"][0], mp, x, UNIT)
            return mp
        if p in STRINGY:
            if p == "std::path::PathBuf":
                s = ""
                for x in xs:
                    s = path_join(s, text(x))
                return StringObj(s)
            return StringObj(mks([strs.char_text(x) if (x.__class__ is int or z3.is_bv(x)) else
                                  (strs.char_text(val(x)) if x.__class__ is Ptr and (val(x).__class__ is int or z3.is_bv(val(x))) else text(x)) for x in xs]))
        if p == "std::boxed::Box":
            e = m.ty(ty["args"][0])
            if e["k"] == "slice":
                return SliceRef(xs, 0, len(xs))
            if e["k"] == "str":
                return mks([text(x) for x in xs])
        if item is not None:    # the type's own FromIterator, on a vector
            t = item()
            vec = m.c.req("adt", "std::vec::Vec", t, m.c.req("adt", "std::alloc::Global"))
            return m.callable_fn(m.c.req("method", "std::iter::FromIterator::from_iter", ct, t, vec)["fn"])(VecObj(xs))
    raise Unsupported("collect into " + ty["name"])


@fn("std::iter::FromIterator::from_iter")
def _(ctx):
    m = ctx.m
    if ctx.ii and ctx.ii["local"]:
        return None
    ct = ctx.targs[0]
    src = ctx.ins[0]
    return lambda v: collect_it(m, ct, to_iter(m, src, v))


@simple("std::iter::Peekable::peek", "std::iter::Peekable::peek_mut")
def _(p):
    it = V(p)
    b = it.peek()
    if b[0] is END:
        b.pop()
        it.buf = [END]
        return none()
    return some(Ptr(b, 0))


@fn("std::iter::Peekable::next_if")
def _(ctx):
    m = ctx.m
    t = ctx.ins[1]

    def f(p, g):
        it = V(p)
        b = it.peek()
        if b[0] is END:
            return none()
        if m.branch(m.call_value(g, t, [Ptr(b, 0)])):
            return some(it.next())
        return none()
    return f


# ---------------------------------------------------------------- maps

def key_of(m, k):
    """borrowed key -> comparable value"""
    v = k
    while v.__class__ is Ptr:
        v = v.c[v.i]
    return v


def key_eq(m, kt):
    ty = m.ty(kt)
    if peel(m, kt)[0] == "str":
        return lambda a, b: str_eq(text(a), text(b))
    g = eq_fn(m, kt)
    if ty["k"] == "ref":
        e = eq_fn(m, ty["elem"])
        return lambda a, b: e(key_of(m, a), key_of(m, b))
    return g


def map_find(m, kt, mp, k):
    if mp.__class__ is not MapObj:
        raise Unsupported("map expected: %r" % (mp,))
    g = key_eq(m, kt)
    for e in mp.entries:
        if m.branch(g(e[0], k)):
            return e
    return None


def map_insert(m, kt, mp, k, v):
    kk = k
    e = map_find(m, kt, mp, kk)
    if e is not None:
        old = e[1]
        e[1] = v
        return some(old)
    mp.order = None
    if mp.kind == "btree":
        c = cmp_fn(m, kt)
        i = 0
        while i < len(mp.entries) and c(mp.entries[i][0], kk) < 0:
            i += 1
        mp.entries.insert(i, [k, v])
    else:
        mp.entries.append([k, v])
    return none()


def map_remove(m, kt, mp, k):
    e = map_find(m, kt, mp, k)
    if e is None:
        return None
    mp.entries = [x for x in mp.entries if x is not e]
    mp.order = None
    return e


for _c in ("HashMap", "HashSet", "BTreeMap", "BTreeSet"):
    kind = "btree" if "BTree" in _c else "hash"
    B = "std::collections::" + _c

    def mk(kind=kind):
        return lambda *a: MapObj([], kind)
    for _n in ("new", "with_capacity"):
        FN[B + "::" + _n] = lambda ctx, mk=mk: mk()

    def reg(n, g, B=B):
        FN[B + "::" + n] = lambda ctx, g=g: g(ctx, ctx.m, ctx.args[0])
    reg("len", lambda ctx, m, kt: lambda p: len(V(p).entries))
    reg("is_empty", lambda ctx, m, kt: lambda p: not V(p).entries)
    reg("contains_key", lambda ctx, m, kt: lambda p, k: map_find(m, kt, V(p), key_of(m, k)) is not None)
    reg("contains", lambda ctx, m, kt: lambda p, k: map_find(m, kt, V(p), key_of(m, k)) is not None)

    def _clear(ctx, m, kt):
        def f(p):
            mp = V(p)
            mp.entries = []
            mp.order = None
            return UNIT
        return f
    reg("clear", _clear)

    def _get(ctx, m, kt):
        slot = 0 if "Set" in norm(ctx.j["path"]) else 1

        def f(p, k):
            e = map_find(m, kt, V(p), key_of(m, k))
            return none() if e is None else some(Ptr(e, slot))
        return f
    reg("get", _get)
    reg("get_mut", _get)

    def _gkv(ctx, m, kt):
        def f(p, k):
            e = map_find(m, kt, V(p), key_of(m, k))
            return none() if e is None else some(Agg(0, [Ptr(e, 0), Ptr(e, 1)]))
        return f
    reg("get_key_value", _gkv)

    def _ins(ctx, m, kt):
        if "Set" in norm(ctx.j["path"]):
            def f(p, k):
                mp = V(p)
                if map_find(m, kt, mp, k) is not None:
                    return False
                map_insert(m, kt, mp, k, UNIT)
                return True
            return f
        return lambda p, k, v: map_insert(m, kt, V(p), k, v)
    reg("insert", _ins)

    def _rem(ctx, m, kt):
        st = "Set" in norm(ctx.j["path"])

        def f(p, k):
            e = map_remove(m, kt, V(p), key_of(m, k))
            if st:
                return e is not None
            return none() if e is None else some(e[1])
        return f
    reg("remove", _rem)

    def _rement(ctx, m, kt):
        st = "Set" in norm(ctx.j["path"])

        def f(p, k):
            e = map_remove(m, kt, V(p), key_of(m, k))
            return none() if e is None else some(Agg(0, list(e)))
        return f
    reg("remove_entry", _rement)

    def _take(ctx, m, kt):
        def f(p, k):
            e = map_remove(m, kt, V(p), key_of(m, k))
            return none() if e is None else some(e[0])
        return f
    reg("take", _take)
    reg("values", lambda ctx, m, kt: lambda p: MapEntries(V(p), lambda e: Ptr(e, 1)))
    reg("values_mut", lambda ctx, m, kt: lambda p: MapEntries(V(p), lambda e: Ptr(e, 1)))
    reg("keys", lambda ctx, m, kt: lambda p: MapEntries(V(p), lambda e: Ptr(e, 0)))
    reg("into_values", lambda ctx, m, kt: lambda v: MapEntries(v, lambda e: e[1]))
    reg("into_keys", lambda ctx, m, kt: lambda v: MapEntries(v, lambda e: e[0]))

    def _iter(ctx, m, kt):
        if "Set" in norm(ctx.j["path"]):
            return lambda p: MapEntries(V(p), lambda e: Ptr(e, 0))
        return lambda p: MapEntries(V(p), lambda e: Agg(0, [Ptr(e, 0), Ptr(e, 1)]))
    reg("iter", _iter)
    reg("iter_mut", _iter)

    def _drain(ctx, m, kt):
        st = "Set" in norm(ctx.j["path"])

        def f(p):
            mp = V(p)
            old = MapObj(mp.entries, mp.kind)
            old.order = mp.order
            mp.entries, mp.order = [], None
            return MapEntries(old, (lambda e: e[0]) if st else (lambda e: Agg(0, [e[0], e[1]])))
        return f
    reg("drain", _drain)

    def _retain(ctx, m, kt):
        st = "Set" in norm(ctx.j["path"])
        ft = ctx.ins[1]

        def f(p, g):
            mp = V(p)
            keep = []
            for e in mp.entries:
                a = [Ptr(e, 0)] if st else [Ptr(e, 0), Ptr(e, 1)]
                if m.branch(m.call_value(g, ft, a)):
                    keep.append(e)
            mp.entries = keep
            mp.order = None
            return UNIT
        return f
    reg("retain", _retain)
    reg("entry", lambda ctx, m, kt: lambda p, k: Obj("entry", mp=V(p), kt=kt, key=k, e=map_find(m, kt, V(p), k)))

    def _setop(which):
        def g(ctx, m, kt):
            def f(a, b):
                x, y = V(a), V(b)
                if which == "union":
                    return ChainIt(MapEntries(x, lambda e: Ptr(e, 0)),
                                   FilterIt(MapEntries(y, lambda e: Ptr(e, 0)), lambda p: map_find(m, kt, x, val(p)) is None))
                return FilterIt(MapEntries(x, lambda e: Ptr(e, 0)),
                                lambda p: (map_find(m, kt, y, val(p)) is None) == (which == "difference"))
            return f
        return g
    for _w in ("union", "difference", "intersection"):
        reg(_w, _setop(_w))

    def _sub(ctx, m, kt):
        return lambda a, b: all(map_find(m, kt, V(b), e[0]) is not None for e in V(a).entries)
    reg("is_subset", _sub)
    reg("first_key_value", lambda ctx, m, kt: lambda p: (lambda l: some(Agg(0, [Ptr(l[0], 0), Ptr(l[0], 1)])) if l else none())(V(p).entries))
    reg("last_key_value", lambda ctx, m, kt: lambda p: (lambda l: some(Agg(0, [Ptr(l[-1], 0), Ptr(l[-1], 1)])) if l else none())(V(p).entries))

for _mod in ("hash_map", "btree_map"):
    E = "std::collections::%s::" % _mod

    def _entry_model(pre):
        def orins(ctx):
            m = ctx.m
            meth = norm(ctx.j["path"]).rsplit("::", 1)[1]
            ft = ctx.ins[1] if len(ctx.ins) > 1 else None

            def f(en, d=None):
                if en.e is None:
                    if meth == "or_insert":
                        v = d
                    elif meth == "or_insert_with":
                        v = m.call_value(d, ft, [])
                    elif meth == "or_insert_with_key":
                        v = m.call_value(d, ft, [Ptr([en.key], 0)])
                    else:
                        vt = m.ty(ctx.out)["elem"]
                        v = m.callable_fn(m.c.req("method", "std::default::Default::default", vt)["fn"])()
                    map_insert(m, en.kt, en.mp, en.key, v)
                    en.e = map_find(m, en.kt, en.mp, en.key)
                return Ptr(en.e, 1)
            return f
        for n in ("or_insert", "or_insert_with", "or_default", "or_insert_with_key"):
            FN[pre + "Entry::" + n] = orins

        def andmod(ctx):
            m = ctx.m
            ft = ctx.ins[1]

            def f(en, g):
                if en.e is not None:
                    m.call_value(g, ft, [Ptr(en.e, 1)])
                return en
            return f
        FN[pre + "Entry::and_modify"] = andmod
        FN[pre + "Entry::key"] = lambda ctx: (lambda p: Ptr([V(p).key], 0))
    _entry_model(E)


# ---------------------------------------------------------------- strings

@simple("std::string::String::new", "std::path::PathBuf::new")
def _():
    return StringObj("")


@simple("std::string::String::with_capacity")
def _(n):
    return StringObj("")


@simple("std::string::String::from_utf8_lossy")
def _(s):
    return Agg(1, [StringObj(bytes(seqv(s)).decode(errors="replace"))])


@simple("std::string::String::push_str")
def _(p, s):
    o = V(p)
    o.s = cat(o.s, text(s))
    return UNIT


@simple("std::string::String::push")
def _(p, c):
    o = V(p)
    o.s = cat(o.s, strs.char_text(c))
    return UNIT


@simple("std::string::String::insert_str")
def _(p, i, s):
    o = V(p)
    i = conc(i)
    o.s = mks([strs.slice_bytes(o.s, 0, i), text(s), strs.slice_bytes(o.s, i, None)])
    return UNIT


@simple("std::string::String::insert")
def _(p, i, c):
    o = V(p)
    i = conc(i)
    o.s = mks([strs.slice_bytes(o.s, 0, i), strs.char_text(c), strs.slice_bytes(o.s, i, None)])
    return UNIT


@simple("std::string::String::pop")
def _(p):
    o = V(p)
    e = strs.explode(o.s)
    if not e:
        return none()
    x = e.pop()
    if x.__class__ not in (str, Ch):
        raise Opaque("pop of opaque text", x)
    o.s = mks(e)
    return some(ord(x) if x.__class__ is str else x.e)


@simple("std::string::String::truncate")
def _(p, n):
    o = V(p)
    o.s = strs.slice_bytes(o.s, 0, n)
    return UNIT


@simple("std::string::String::clear")
def _(p):
    V(p).s = ""
    return UNIT


@simple("std::string::String::as_str", "std::string::String::as_mut_str", "std::string::String::deref", "std::path::PathBuf::as_path",
        "std::string::String::into_boxed_str", "std::path::Path::as_os_str", "std::path::PathBuf::into_os_string_",
        "std::ffi::OsString::as_os_str")
def _(p):
    return text(p)


@simple("std::path::Path::new", "std::ffi::OsStr::new")
def _(p):
    return text(p)


@simple("std::string::String::len", "std::str::len")
def _(p):
    return strs.byte_len(text(p))


@simple("std::string::String::is_empty", "std::str::is_empty", "std::ffi::OsStr::is_empty")
def _(p):
    return strs.is_empty(text(p))


@simple("std::string::String::as_bytes", "std::str::as_bytes")
def _(p):
    return bytes_slice(text(p))


@simple("std::string::String::into_bytes")
def _(p):
    return VecObj(bytes_slice(text(p)).l)


def text_of(l):
    if l.__class__ is TextBytes:
        return l.s
    import models2
    return models2.text_of_bytes(l)


@isimple("std::string::String as std::ops::Add::add")
def _(a, b):
    return StringObj(cat(a.s, text(b)))


@isimple("std::string::String as std::ops::AddAssign::add_assign")
def _(p, b):
    o = V(p)
    o.s = cat(o.s, text(b))
    return UNIT


simple("std::str::trim")(lambda s: strs.trim(text(s)))
simple("std::str::trim_start", "std::str::trim_left")(lambda s: strs.trim(text(s), True, False))
simple("std::str::trim_end", "std::str::trim_right")(lambda s: strs.trim(text(s), False, True))
simple("std::str::to_lowercase", "std::str::to_ascii_lowercase")(lambda s: StringObj(strs.lower(text(s))))


@simple("std::str::to_uppercase", "std::str::to_ascii_uppercase")
def _(s):
    s = text(s)
    out = []
    for x in strs.explode(s):
        if x.__class__ is str:
            out.append(x.upper())
        elif x.__class__ is Num:
            out.append(x)
        elif x.__class__ is Ch and x.w == 1:
            out.append(Ch(z3.simplify(x.e - 32)) if core.M.branch(z3.And(x.e >= 97, x.e <= 122)) else x)
        elif x.__class__ is Atom and not (x.cs & (frozenset(range(97, 123)) | {128})):
            out.append(x)
        else:
            raise Opaque("to_uppercase of opaque text", x)
    return StringObj(mks(out))


@simple("std::str::to_string", "std::str::into_string", "std::str::to_owned")
def _(s):
    return StringObj(text(s))


@simple("std::str::repeat")
def _(s, n):
    return StringObj(mks([text(s)] * conc(n)))


@simple("std::str::eq_ignore_ascii_case")
def _(a, b):
    return str_eq(strs.lower(text(a)), strs.lower(text(b)))


def patfn(names, g, out=None):
    def b(ctx):
        m = ctx.m
        pt = ctx.ins[1]
        return lambda s, p, *a: g(m, text(s), pat_of(m, p, pt), *a)
    for n in names:
        FN["std::str::" + n] = b


patfn(["starts_with"], lambda m, s, p: strs.starts_with(s, p) is not None)
patfn(["ends_with"], lambda m, s, p: strs.ends_with(s, p) is not None)
patfn(["contains"], lambda m, s, p: strs.contains(s, p))
patfn(["strip_prefix"], lambda m, s, p: (lambda r: none() if r is None else some(r))(strs.starts_with(s, p)))
patfn(["strip_suffix"], lambda m, s, p: (lambda r: none() if r is None else some(r))(strs.ends_with(s, p)))
patfn(["trim_matches"], lambda m, s, p: strs.trim_matches(s, p))
patfn(["trim_start_matches", "trim_left_matches"], lambda m, s, p: strs.trim_matches(s, p, True, False))
patfn(["trim_end_matches", "trim_right_matches"], lambda m, s, p: strs.trim_matches(s, p, False, True))


def lit_iter(l):
    return SeqIt(l, 0, len(l), by_val)


patfn(["split"], lambda m, s, p: lit_iter(strs.split(s, p)))
patfn(["rsplit"], lambda m, s, p: lit_iter(strs.split(s, p)[::-1]))
patfn(["split_terminator"], lambda m, s, p: lit_iter((lambda l: l[:-1] if l and l[-1] == "" else l)(strs.split(s, p))))


@fn("std::str::splitn")
def _(ctx):
    m = ctx.m
    pt = ctx.ins[2]
    return lambda s, n, p: lit_iter(strs.split(text(s), pat_of(m, p, pt), conc(n)))


@fn("std::str::rsplitn")
def _(ctx):
    m = ctx.m
    pt = ctx.ins[2]

    def f(s, n, p):
        l = _rsplitn(text(s), pat_of(m, p, pt), conc(n))
        return lit_iter(l)
    return f


def _rsplitn(s, p, n):
    e, ms = strs.find_all(s, p)
    ms = ms[-(n - 1):] if n > 1 else []
    out = []
    end = len(e)
    for a, b in reversed(ms):
        out.append(mks(e[b:end]))
        end = a
    out.append(mks(e[:end]))
    return out


@fn("std::str::replace", "std::str::replacen")
def _(ctx):
    m = ctx.m
    pt = ctx.ins[1]
    return lambda s, p, to, *n: StringObj(strs.replace(text(s), pat_of(m, p, pt), text(to)))


def _split_once(m, s, p, last=False):
    e, ms = strs.find_all(s, p)
    if not ms:
        return none()
    a, b = ms[-1 if last else 0]
    return some(Agg(0, [mks(e[:a]), mks(e[b:])]))


patfn(["split_once"], lambda m, s, p: _split_once(m, s, p))
patfn(["rsplit_once"], lambda m, s, p: _split_once(m, s, p, True))


def _find(m, s, p, last=False):
    e, ms = strs.find_all(s, p)
    if not ms:
        return none()
    return some(strs.byte_len(mks(e[:ms[-1 if last else 0][0]])))


patfn(["find"], lambda m, s, p: _find(m, s, p))
patfn(["rfind"], lambda m, s, p: _find(m, s, p, True))
patfn(["matches"], lambda m, s, p: (lambda r: lit_iter([mks(r[0][a:b]) for a, b in r[1]]))(strs.find_all(s, p)))


@simple("std::str::lines")
def _(s):
    s = text(s)
    l = strs.split(s, Pat("set", frozenset([10])))
    if l and l[-1] == "":
        l.pop()
    out = []
    for x in l:
        r = strs.ends_with(x, Pat("set", frozenset([13])))
        out.append(x if r is None else r)
    return lit_iter(out)


@simple("std::str::split_whitespace", "std::str::split_ascii_whitespace")
def _(s):
    s = text(s)
    out, cur = [], []
    for e in strs.explode(s):
        w = strs.el_ws(e)
        if w is None:
            if e.__class__ is Atom and not (e.cs & WS) and 128 not in e.cs:
                w = False
            else:
                raise Opaque("split_whitespace of opaque text", e)
        if w:
            if cur:
                out.append(mks(cur))
                cur = []
        else:
            cur.append(e)
    if cur:
        out.append(mks(cur))
    return lit_iter(out)


def char_list(s):
    out = []
    for e in strs.explode(s):
        if e.__class__ is str:
            out.append(ord(e))
        elif e.__class__ is Ch:
            out.append(e.e)
        else:
            raise Opaque("chars of opaque text", e)
    return out


class CharsIt(It):
    """the characters of a text; opaque text is taken apart only as far as it is looked at"""

    def __init__(self, e):
        self.e = e
        self.taken = []

    def next(self):
        if not self.e:
            return END
        e = self.e[0]
        if e.__class__ is str:
            self.e = self.e[1:]
            return ord(e)
        if e.__class__ is Ch:
            self.e = self.e[1:]
            return e.e
        if e.__class__ is not Atom:
            raise Opaque("chars of opaque text", e)
        if not e.ne and core.M.branch(e.id == lit_id("")):
            self.e = self.e[1:]
            return self.next()
        self.taken.append(e)
        if len(self.taken) > 4:
            # all of it is looked at: better written out
            raise Opaque("chars of opaque text", self.taken[0])
        c, rest = strs.uncons(e)
        self.e = [rest] + self.e[1:]
        return c

    def back(self):
        if not self.e:
            return END
        e = self.e[-1]
        if e.__class__ not in (str, Ch):
            raise Opaque("last character of opaque text", e)
        self.e = self.e[:-1]
        return ord(e) if e.__class__ is str else e.e

    def clone(self):
        x = CharsIt(self.e)
        x.taken = list(self.taken)
        return x


@simple("std::str::chars")
def _(s):
    return CharsIt(strs.explode(text(s)))


@simple("std::str::Chars::as_str")
def _(it):
    return mks(val(it).e)


@simple("std::str::char_indices")
def _(s):
    out = []
    n = 0
    for e in strs.explode(text(s)):
        if e.__class__ is str:
            out.append(Agg(0, [n, ord(e)]))
            n += len(e.encode())
        elif e.__class__ is Ch:
            out.append(Agg(0, [n, e.e]))
            n += e.w
        else:
            raise Opaque("chars of opaque text", e)
    return lit_iter(out)


@simple("std::str::bytes")
def _(s):
    return lit_iter(bytes_slice(text(s)).l)


@fn("std::str::get")
def _(ctx):
    m = ctx.m
    rt = ctx.ins[1]
    name = m.ty(rt)["path"]

    def f(s, r):
        s = text(s)
        try:
            if name.endswith("RangeFrom"):
                return some(strs.slice_bytes(s, r.f[0], None))
            if name.endswith("RangeTo"):
                return some(strs.slice_bytes(s, 0, r.f[0]))
            if name.endswith("RangeFull"):
                return some(s)
            return some(strs.slice_bytes(s, r.f[0], r.f[1]))
        except Panic:
            return none()
    return f


@simple("std::str::split_at")
def _(s, i):
    s = text(s)
    return Agg(0, [strs.slice_bytes(s, 0, i), strs.slice_bytes(s, i, None)])


@simple("std::str::is_char_boundary")
def _(s, i):
    try:
        strs.slice_bytes(text(s), i, None)
        return True
    except Panic:
        return False


def int_error(s, t):
    if s == "":
        return "cannot parse integer from empty string"
    if not re.fullmatch(r"[+-]?[0-9]+", s) or (t["k"] != "int" and s.startswith("-")):
        return "invalid digit found in string"
    return "number too %s to fit in target type" % ("small" if s.startswith("-") else "large")


@fn("std::str::parse", "std::str::FromStr::from_str")
def _(ctx):
    m = ctx.m
    rt = m.ty(ctx.out)
    t = m.ty(rt["args"][0])
    if t["k"] in ("int", "uint"):
        ops = core.IntOps(t["bits"], t["k"] == "int")

        def f(s):
            s = text(s)
            if s.__class__ is str:
                if re.fullmatch(r"[+-]?[0-9]+", s) and (t["k"] == "int" or not s.startswith("-")):
                    v = int(s)
                    if ops.lo <= v <= ops.hi:
                        return ok(v)
                return err(Obj("ParseIntError", display=int_error(s, t)))
            if len(s.p) == 1 and s.p[0].__class__ is Num:
                nmb = s.p[0]
                v = z3.BV2Int(nmb.e, nmb.signed)
                if nmb.e.size() == t["bits"] and nmb.signed == (t["k"] == "int"):
                    return ok(nmb.e)
                if m.branch(z3.And(v >= ops.lo, v <= ops.hi)):
                    return ok(core.cast_int(nmb.e, {"k": "int" if nmb.signed else "uint"}, t))
                return err(Obj("ParseIntError"))
            raise Unsupported("parse of symbolic text")
        return f
    if t["k"] == "bool":
        def f(s):
            s = text(s)
            if m.branch(str_eq(s, "true")):
                return ok(True)
            if m.branch(str_eq(s, "false")):
                return ok(False)
            return err(Obj("ParseBoolError", display="provided string was not `true` or `false`"))
        return f
    if t["k"] == "adt" and t["path"] in STRINGY:
        return lambda s: ok(StringObj(text(s)))
    return None


# chars

def chpred(name, cs, py):
    @simple("std::char::methods::" + name, "std::char::" + name)
    def _(c, *a):
        c = val(c)
        if c.__class__ is int:
            return py(chr(c))
        return strs.ch_is_ws(Ch(c, 4)) if name == "is_whitespace" else strs.ch_in(Ch(c, 4), cs)


ALPHA = frozenset(c for c in range(128) if chr(c).isalpha())
chpred("is_whitespace", WS, lambda c: c.isspace() and c not in "\x1c\x1d\x1e\x1f")
chpred("is_ascii_whitespace", WS - {11}, lambda c: c in " \t\n\r\x0c")
chpred("is_ascii_digit", DIGIT, lambda c: c in "0123456789")
chpred("is_numeric", DIGIT, lambda c: c.isnumeric())
chpred("is_alphabetic", ALPHA, lambda c: c.isalpha())
chpred("is_ascii_alphabetic", ALPHA, lambda c: c.isascii() and c.isalpha())
chpred("is_alphanumeric", WORD - {95}, lambda c: c.isalnum())
chpred("is_ascii_alphanumeric", WORD - {95}, lambda c: c.isascii() and c.isalnum())
chpred("is_ascii_uppercase", frozenset(range(65, 91)), lambda c: "A" <= c <= "Z")
chpred("is_ascii_lowercase", frozenset(range(97, 123)), lambda c: "a" <= c <= "z")
chpred("is_uppercase", frozenset(range(65, 91)), lambda c: c.isupper())
chpred("is_lowercase", frozenset(range(97, 123)), lambda c: c.islower())
chpred("is_ascii", ASCII, lambda c: c.isascii())
chpred("is_ascii_punctuation", frozenset(c for c in range(33, 127) if not chr(c).isalnum()), lambda c: c.isascii() and c.isprintable() and not c.isalnum() and c != " ")
chpred("is_control", frozenset(list(range(32)) + [127]), lambda c: ord(c) < 32 or 127 <= ord(c) < 160)
chpred("is_ascii_control", frozenset(list(range(32)) + [127]), lambda c: ord(c) < 32 or ord(c) == 127)


@simple("std::char::methods::len_utf8", "std::char::len_utf8")
def _(c):
    if c.__class__ is int:
        return len(chr(c).encode())
    return strs.byte_len(strs.char_text(c))


@simple("std::char::methods::to_ascii_lowercase", "std::char::methods::to_ascii_uppercase")
def _(c):
    c = val(c)
    if c.__class__ is int:
        return ord(chr(c).lower()) if c < 128 else c
    raise Unsupported("case of symbolic char")


@simple("std::char::methods::to_lowercase")
def _(c):
    if c.__class__ is int:
        return lit_iter([ord(x) for x in chr(c).lower()])
    raise Unsupported("case of symbolic char")


@simple("std::char::methods::to_uppercase")
def _(c):
    if c.__class__ is int:
        return lit_iter([ord(x) for x in chr(c).upper()])
    raise Unsupported("case of symbolic char")


# Cow
@simple("std::borrow::Cow::into_owned", "std::borrow::Cow::to_mut_")
def _(c):
    return StringObj(text(c))


@simple("std::borrow::Cow::is_borrowed")
def _(c):
    return gdiscr(V(c)) == 0


# ---------------------------------------------------------------- Option extras needing natives

@simple("std::option::Option::take")
def _(p):
    o = p.c[p.i]
    p.c[p.i] = none()
    return o


@simple("std::option::Option::replace")
def _(p, v):
    o = p.c[p.i]
    p.c[p.i] = some(v)
    return o


@simple("std::option::Option::insert")
def _(p, v):
    p.c[p.i] = some(v)
    return Ptr(p.c[p.i].f, 0)


@fn("std::option::Option::get_or_insert_with")
def _(ctx):
    m = ctx.m
    ft = ctx.ins[1]

    def f(p, g):
        o = p.c[p.i]
        if gdiscr(o) == 0:
            o = p.c[p.i] = some(m.call_value(g, ft, []))
        return Ptr(o.f, 0)
    return f


@fn("std::option::Option::as_deref", "std::option::Option::as_deref_mut", "std::option::Option::as_ref", "std::option::Option::as_mut")
def _(ctx):
    m = ctx.m
    it = m.ty(ctx.out)["args"][0]
    inner = ctx.args[0]
    ity = m.ty(inner)
    if "as_deref" in ctx.j["path"]:
        if ity["k"] == "adt" and ity["path"] in STRINGY:
            g = lambda o: text(o.f[0])
        elif ity["k"] == "adt" and ity["path"] in VECY:
            g = lambda o: sl(o.f[0])
        elif ity["k"] == "adt" and ity["path"] in BOXY:
            g = lambda o: Ptr(o.f[0].c, 0) if o.f[0].__class__ is BoxV else o.f[0]
        else:
            return None
    else:
        g = lambda o: Ptr(o.f, 0)

    def f(p):
        o = p.c[p.i]
        if o.__class__ is LazyEnum and o.v is None and 1 in o.pay:
            class _H:
                pass
            h = Agg(1, o.pay[1])
            return LazyEnum(o.tag, None, {0: [], 1: [g(h)]})
        if gdiscr(o) == 0:
            return none()
        return some(g(o))
    return f


@fn("std::option::Option::is_some", "std::option::Option::is_none")
def _(ctx):
    neg = ctx.j["path"].endswith("is_none")

    def f(p):
        o = p.c[p.i]
        if o.__class__ is LazyEnum and o.v is None:
            c = o.tag == 1
            return z3not(c) if neg else c
        return (gdiscr(o) == 1) != neg
    return f


@fn("std::option::Option::cloned", "std::option::Option::copied")
def _(ctx):
    m = ctx.m
    inner = m.ty(ctx.out)["args"][0]
    g = clone_fn(m, inner)

    def f(o):
        if gdiscr(o) == 0:
            return none()
        return some(g(val(o.f[0])))
    return f


@simple("std::rc::Rc::strong_count", "std::rc::Rc::weak_count", "std::sync::Arc::strong_count")
def _(p):
    raise Unsupported("reference counts")


@simple("std::rc::Rc::clone", "std::sync::Arc::clone")
def _(p):
    return val(p)


# ---------------------------------------------------------------- intrinsics and numeric helpers

def num(name, g):
    """inherent integer method by name for all widths"""
    for t in ("i8", "i16", "i32", "i64", "isize", "u8", "u16", "u32", "u64", "usize", "i128", "u128"):
        FN["std::num::%s" % name] = lambda ctx, g=g: g(ctx, ctx.m, ctx.m.ty(ctx.ins[0]))


def _checked(op):
    def g(ctx, m, ty):
        o = core.binop(ty, op + "o")

        def f(a, b):
            r = o(a, b)
            if m.branch(r.f[1]):
                return none()
            return some(r.f[0])
        return f
    return g


for _o in ("add", "sub", "mul"):
    num("checked_" + _o, _checked(_o))

    def _w(op=_o):
        def g(ctx, m, ty):
            return core.binop(ty, op)
        return g
    num("wrapping_" + _o, _w())

    def _sat(op=_o):
        def g(ctx, m, ty):
            o = core.binop(ty, op + "o")
            k = core.IntOps(ty["bits"], ty["k"] == "int")

            def f(a, b):
                r = o(a, b)
                if m.branch(r.f[1]):
                    if op == "add":
                        neg = ty["k"] == "int" and m.branch(core.binop(ty, "lt")(b, 0))
                        return k.lo if neg else k.hi
                    if op == "sub":
                        neg = ty["k"] == "int" and m.branch(core.binop(ty, "lt")(b, 0))
                        return k.hi if neg else k.lo
                    raise Unsupported("saturating_mul")
                return r.f[0]
            return f
        return g
    num("saturating_" + _o, _sat())


def _abs(ctx, m, ty):
    def f(x):
        if x.__class__ is int:
            return abs(x)
        if m.branch(x < 0):
            if m.branch(x == core.IntOps(ty["bits"], True).lo):
                raise Panic("attempt to negate with overflow")
            return -x
        return x
    return f


num("abs", _abs)
num("is_negative", lambda ctx, m, ty: lambda x: core.binop(ty, "lt")(x, 0))
num("is_positive", lambda ctx, m, ty: lambda x: core.binop(ty, "gt")(x, 0))
num("signum", lambda ctx, m, ty: lambda x: (0 if m.branch(core.binop(ty, "eq")(x, 0)) else (-1 if m.branch(core.binop(ty, "lt")(x, 0)) else 1)))


def path_join(a, b):
    if b == "":
        return cat(a, "") if (a == "" or (a.__class__ is str and a.endswith("/"))) else cat(a, "/")
    b0 = strs.explode(b)[0]
    if b0.__class__ is str and b0 == "/":
        return b
    if b0.__class__ is Atom and 47 in b0.first:
        raise Unsupported("path join with possibly absolute part")
    if b0.__class__ is Ch:
        if core.M.branch(b0.e == 47):
            return b
    if a == "" or (a.__class__ is str and a.endswith("/")):
        return cat(a, b)
    return mks([a, "/", b])


core_models = True
