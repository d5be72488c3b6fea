"""More of the standard library: what code may use as well as what the current code uses."""
import z3
from values import *
import core
import models
from core import cp, deref, gdiscr
from iters import *
import strs
from strs import Pat, pat_of
from models import (FN, IMPL, fn, simple, isimple, impl, im, V, sl, val, text, conc, caller, cmp_fn, eq_fn, clone_fn, map_find,
                    map_insert, map_remove, range_bounds, to_iter, lit_iter, patfn, norm, seqv, key_of, opt, merge_sort,
                    collect_into, iter_item, bytes_slice)

M = lambda: core.M


def rng_text(m, rt, r, s):
    """bounds of a range over a text, in bytes; None for its ends"""
    name = m.ty(rt)["path"]
    if name.endswith("RangeFull"):
        return 0, None
    if name.endswith("RangeFrom"):
        return r.f[0], None
    if name.endswith("RangeToInclusive"):
        return 0, r.f[0] + 1
    if name.endswith("RangeTo"):
        return 0, r.f[0]
    if name.endswith("RangeInclusive"):
        return r.f[0], r.f[1] + 1
    return r.f[0], r.f[1]


# ------------------------------------------------------------------ text

patfn(["split_inclusive"], lambda m, s, p: lit_iter(split_incl(s, p)))
patfn(["match_indices"], lambda m, s, p: lit_iter(indices(s, p)))
patfn(["rmatch_indices"], lambda m, s, p: lit_iter(indices(s, p)[::-1]))
patfn(["rmatches"], lambda m, s, p: (lambda r: lit_iter([mks(r[0][a:b]) for a, b in r[1]][::-1]))(strs.find_all(s, p)))
patfn(["rsplit_terminator"], lambda m, s, p: lit_iter((lambda l: l[:-1] if l and l[-1] == "" else l)(strs.split(s, p))[::-1]))


def split_incl(s, p):
    e, ms = strs.find_all(s, p)
    out, at = [], 0
    for a, b in ms:
        out.append(mks(e[at:b]))
        at = b
    if at < len(e):
        out.append(mks(e[at:]))
    return out


def indices(s, p):
    e, ms = strs.find_all(s, p)
    return [Agg(0, [strs.byte_len(mks(e[:a])), mks(e[a:b])]) for a, b in ms]


@fn("std::str::replacen")
def _(ctx):
    m = ctx.m
    pt = ctx.ins[1]

    def f(s, p, to, n):
        p = pat_of(m, p, pt)
        s, to, n = text(s), text(to), conc(n)
        return StringObj(to.join(strs.split(s, p, n + 1)) if s.__class__ is str and to.__class__ is str
                         else join(strs.split(s, p, n + 1), to))
    return f


def join(xs, sep):
    out = []
    for i, x in enumerate(xs):
        if i:
            out.append(sep)
        out.append(x)
    return mks(out)


def map_case(s, up, ascii_only):
    """upper / lower case of a text"""
    out = []
    lo, hi, d = (97, 122, -32) if up else (65, 90, 32)
    rs = frozenset(range(lo, hi + 1))
    for x in strs.explode(s):
        if x.__class__ is str:
            out.append(x if ascii_only and ord(x) > 127 else x.upper() if up else x.lower())
        elif x.__class__ is Num:
            out.append(x)
        elif x.__class__ is Ch:
            if x.w > 1:
                if not ascii_only:
                    raise Opaque("case of a non-ASCII character", x)
                out.append(x)
            else:
                out.append(Ch(z3.simplify(x.e + d), 1) if M().branch(z3.And(z3.UGE(x.e, lo), z3.ULE(x.e, hi))) else x)
        elif x.__class__ is Atom and not (x.cs & (rs | (frozenset() if ascii_only else {128}))):
            out.append(x)
        elif x.__class__ is Atom and not up and not (ascii_only and 128 in x.cs):
            return strs.lower(s)
        else:
            raise Opaque("case of opaque text", x)
    return mks(out)


simple("std::str::to_ascii_lowercase")(lambda s: StringObj(map_case(text(s), False, True)))
simple("std::str::to_lowercase")(lambda s: StringObj(map_case(text(s), False, False)))
simple("std::str::to_ascii_uppercase")(lambda s: StringObj(map_case(text(s), True, True)))
simple("std::str::to_uppercase")(lambda s: StringObj(map_case(text(s), True, False)))


@simple("std::str::eq_ignore_ascii_case")
def _(a, b):
    return str_eq(map_case(text(a), False, True), map_case(text(b), False, True))


@simple("std::str::make_ascii_lowercase", "std::string::String::make_ascii_lowercase")
def _(p):
    raise Unsupported("make_ascii_lowercase of a slice")


def in_place(up):
    def f(p):
        o = V(p)
        if o.__class__ is not StringObj:
            raise Unsupported("case change in place")
        o.s = map_case(o.s, up, True)
        return UNIT
    return f


simple("std::str::make_ascii_lowercase", "std::string::String::make_ascii_lowercase")(in_place(False))
simple("std::str::make_ascii_uppercase", "std::string::String::make_ascii_uppercase")(in_place(True))
# the receiver keeps the string object: (&mut String) derefs to (&mut str) without losing it
_dm = FN["std::ops::DerefMut::deref_mut"]


@fn("std::ops::DerefMut::deref_mut")
def _(ctx):
    ty = ctx.m.ty(ctx.targs[0])
    if ty["k"] == "adt" and ty["path"] == "std::string::String":
        return lambda p: V(p)
    g = guard_deref(ctx)
    return g or _dm(ctx)


simple("std::string::String::as_mut_str")(lambda p: V(p))


def char_case(up, ascii_only):
    def f(c):
        c = val(c)
        if c.__class__ is int:
            if ascii_only:
                x = chr(c)
                return ord(x.upper() if up else x.lower()) if c < 128 else c
            return lit_iter([ord(x) for x in (chr(c).upper() if up else chr(c).lower())])
        lo, hi, d = (97, 122, -32) if up else (65, 90, 32)
        if M().branch(z3.And(z3.UGE(c, lo), z3.ULE(c, hi))):
            r = z3.simplify(c + d)
        elif not ascii_only and M().branch(z3.UGE(c, 128)):
            raise Unsupported("case of a symbolic non-ASCII character")
        else:
            r = c
        return r if ascii_only else lit_iter([r])
    return f


for _p in ("std::char::methods::", "std::char::"):
    simple(_p + "to_ascii_lowercase")(char_case(False, True))
    simple(_p + "to_ascii_uppercase")(char_case(True, True))
    simple(_p + "to_lowercase")(char_case(False, False))
    simple(_p + "to_uppercase")(char_case(True, False))


@simple("std::char::methods::eq_ignore_ascii_case")
def _(a, b):
    f = char_case(False, True)
    a, b = f(val(a)), f(val(b))
    return a == b


@fn("std::string::String::retain")
def _(ctx):
    m = ctx.m
    ft = ctx.ins[1]

    def f(p, g):
        o = V(p)
        out = []
        for e in strs.explode(o.s):
            if e.__class__ is str:
                c = ord(e)
            elif e.__class__ is Ch:
                c = e.e
            else:
                raise Opaque("characters of opaque text", e)
            if m.branch(m.call_value(g, ft, [c])):
                out.append(e)
        o.s = mks(out)
        return UNIT
    return f


def first_char(s, what):
    e = strs.explode(s)
    if not e:
        raise Panic("cannot remove a char from the end of a string")
    x = e[0]
    if x.__class__ is str:
        return ord(x), mks(e[1:])
    if x.__class__ is Ch:
        return x.e, mks(e[1:])
    raise Opaque(what, x)


@simple("std::string::String::remove")
def _(p, i):
    o = V(p)
    c, rest = first_char(strs.slice_bytes(o.s, i, None), "character of opaque text")
    o.s = cat(strs.slice_bytes(o.s, 0, i), rest)
    return c


@fn("std::string::String::drain")
def _(ctx):
    m = ctx.m
    rt = ctx.ins[1]

    def f(p, r):
        o = V(p)
        a, b = rng_text(m, rt, r, o.s)
        mid = strs.slice_bytes(o.s, a, b)
        o.s = cat(strs.slice_bytes(o.s, 0, a), strs.slice_bytes(o.s, b, None) if b is not None else "")
        return models.CharsIt(strs.explode(mid))
    return f


@fn("std::string::String::replace_range")
def _(ctx):
    m = ctx.m
    rt = ctx.ins[1]

    def f(p, r, w):
        o = V(p)
        a, b = rng_text(m, rt, r, o.s)
        strs.slice_bytes(o.s, a, b)
        o.s = mks([strs.slice_bytes(o.s, 0, a), text(w), strs.slice_bytes(o.s, b, None) if b is not None else ""])
        return UNIT
    return f


@simple("std::string::String::split_off")
def _(p, i):
    o = V(p)
    r = strs.slice_bytes(o.s, i, None)
    o.s = strs.slice_bytes(o.s, 0, i)
    return StringObj(r)


@fn("std::string::String::extend_from_within")
def _(ctx):
    m = ctx.m
    rt = ctx.ins[1]

    def f(p, r):
        o = V(p)
        a, b = rng_text(m, rt, r, o.s)
        o.s = cat(o.s, strs.slice_bytes(o.s, a, b))
        return UNIT
    return f


def text_of_bytes(l):
    """text of a list of bytes, None when it is not UTF-8"""
    if l.__class__ is TextBytes:
        return l.s
    out, run = [], bytearray()

    def flush():
        out.append(run.decode())
        run.clear()
    try:
        for b in l:
            if b.__class__ is int:
                run.append(b)
            else:
                flush()
                if not M().branch(z3.ULE(b, 127)):
                    raise Unsupported("symbolic byte beyond ASCII")
                out.append(Ch(z3.simplify(z3.ZeroExt(24, b)), 1))
        flush()
    except UnicodeDecodeError:
        return None
    return mks(out)


@simple("std::string::String::from_utf8")
def _(v):
    s = text_of_bytes(seqv(v))
    return err(Obj("FromUtf8Error", display="invalid utf-8 sequence")) if s is None else ok(StringObj(s))


@simple("std::str::from_utf8", "std::str::converts::from_utf8")
def _(v):
    s = text_of_bytes(seqv(v))
    return err(Obj("Utf8Error", display="invalid utf-8 sequence")) if s is None else ok(s)


@simple("std::string::String::from_utf8_unchecked")
def _(v):
    return StringObj(text_of_bytes(seqv(v)))


@simple("std::str::from_utf8_unchecked", "std::str::converts::from_utf8_unchecked")
def _(v):
    return text_of_bytes(seqv(v))


@simple("std::string::String::from_utf8_lossy")
def _(v):
    s = text_of_bytes(seqv(v))
    if s is None:
        return Agg(1, [StringObj(bytes(seqv(v)).decode(errors="replace"))])
    return Agg(0, [s])


def escape(s, more):
    out = []
    for x in strs.explode(s):
        if x.__class__ is not str:
            raise Opaque("escape of opaque text", x)
        out.append({"\\": "\\\\", '"': '\\"', "'": more and "\\'" or "'", "\n": "\\n", "\t": "\\t", "\r": "\\r"}.get(x) or
                   (("\\0" if x == "\0" and not more else "\\u{%x}" % ord(x)) if (more and not (32 <= ord(x) < 127)) or ord(x) < 32
                    or ord(x) == 127 else x))
    return models.CharsIt(list("".join(out)))


simple("std::str::escape_default")(lambda s: escape(text(s), True))
simple("std::str::escape_debug")(lambda s: escape(text(s), False))


# ------------------------------------------------------------------ sequences

@fn("std::vec::Vec::dedup_by", "std::vec::Vec::dedup_by_key")
def _(ctx):
    m = ctx.m
    ft = ctx.ins[1]
    key = ctx.j["path"].endswith("_key")
    kt = ctx.targs[2] if key and len(ctx.targs) > 2 else None

    def f(p, g):
        v = V(p)
        out = []
        for x in v.items:
            if out:
                if key:
                    k = m.call_value(g, ft, [Ptr([x], 0)])
                    o = m.call_value(g, ft, [Ptr(out, len(out) - 1)])
                    same = eq_fn(m, key_type(ctx))(k, o)
                else:
                    c = [x]
                    same = m.call_value(g, ft, [Ptr(c, 0), Ptr(out, len(out) - 1)])
                    x = c[0]
                if m.branch(same):
                    continue
            out.append(x)
        v.items[:] = out
        return UNIT
    return f


def key_type(ctx):
    """the key type K among a method's own type arguments: the last one that is no closure"""
    m = ctx.m
    for t in reversed(ctx.targs):
        if isinstance(t, int) and m.ty(t)["k"] not in ("closure", "fndef", "fnptr"):
            return t
    raise Unsupported("key type")


@fn("std::vec::Vec::retain_mut")
def _(ctx):
    m = ctx.m
    ft = ctx.ins[1]

    def f(p, g):
        v = V(p)
        keep = [m.branch(m.call_value(g, ft, [Ptr(v.items, i)])) for i in range(len(v.items))]
        v.items[:] = [x for x, k in zip(v.items, keep) if k]
        return UNIT
    return f


FN["std::vec::Vec::retain"] = FN["std::collections::VecDeque::retain"] = FN["std::vec::Vec::retain_mut"]
FN["std::collections::VecDeque::retain_mut"] = FN["std::vec::Vec::retain_mut"]


@fn("std::vec::Vec::resize", "std::collections::VecDeque::resize")
def _(ctx):
    g = clone_fn(ctx.m, ctx.args[0])

    def f(p, n, x):
        v = V(p)
        n = conc(n)
        while len(v.items) < n:
            v.items.append(g(x))
        del v.items[n:]
        return UNIT
    return f


@fn("std::vec::Vec::resize_with", "std::collections::VecDeque::resize_with")
def _(ctx):
    ft = ctx.ins[2]

    def f(p, n, g):
        v = V(p)
        n = conc(n)
        while len(v.items) < n:
            v.items.append(ctx.m.call_value(g, ft, []))
        del v.items[n:]
        return UNIT
    return f


@fn("std::vec::Vec::splice")
def _(ctx):
    m = ctx.m
    rt, it = ctx.ins[1], ctx.ins[2]

    def f(p, r, xs):
        v = V(p)
        a, b = range_bounds(m, rt, r, len(v.items))
        old = v.items[a:b]
        v.items[a:b] = to_iter(m, it, xs).drain()
        return lit_iter(old)
    return f


class ExtractIt(It):
    def __init__(self, v, a, b, f):
        self.v, self.k, self.b, self.f = v, a, b, f

    def next(self):
        while self.k < self.b:
            if M().branch(self.f(Ptr(self.v.items, self.k))):
                self.b -= 1
                return self.v.items.pop(self.k)
            self.k += 1
        return END


@fn("std::vec::Vec::extract_if")
def _(ctx):
    m = ctx.m
    rt, ft = ctx.ins[1], ctx.ins[2]

    def f(p, r, g):
        v = V(p)
        a, b = range_bounds(m, rt, r, len(v.items))
        return ExtractIt(v, a, b, lambda x: m.call_value(g, ft, [x]))
    return f


@fn("std::vec::Vec::extend_from_within")
def _(ctx):
    m = ctx.m
    rt = ctx.ins[1]
    g = clone_fn(m, ctx.args[0])

    def f(p, r):
        v = V(p)
        a, b = range_bounds(m, rt, r, len(v.items))
        v.items.extend([g(x) for x in v.items[a:b]])
        return UNIT
    return f


@fn("std::vec::Vec::pop_if")
def _(ctx):
    m = ctx.m
    ft = ctx.ins[1]

    def f(p, g):
        v = V(p)
        if v.items and m.branch(m.call_value(g, ft, [Ptr(v.items, len(v.items) - 1)])):
            return some(v.items.pop())
        return none()
    return f


@simple("std::slice::rotate_left", "std::collections::VecDeque::rotate_left")
def _(s, n):
    s, n = sl(s), conc(n)
    if n > s.n:
        raise Panic("rotation beyond the slice")
    x = s.l[s.s:s.s + s.n]
    s.l[s.s:s.s + s.n] = x[n:] + x[:n]
    return UNIT


@simple("std::slice::rotate_right", "std::collections::VecDeque::rotate_right")
def _(s, n):
    s, n = sl(s), conc(n)
    if n > s.n:
        raise Panic("rotation beyond the slice")
    x = s.l[s.s:s.s + s.n]
    k = s.n - n
    s.l[s.s:s.s + s.n] = x[k:] + x[:k]
    return UNIT


def bsearch(s, c):
    size, base = s.n, 0
    if size == 0:
        return err(0)
    while size > 1:
        half = size // 2
        if c(Ptr(s.l, s.s + base + half)) <= 0:
            base += half
        size -= half
    r = c(Ptr(s.l, s.s + base))
    return ok(base) if r == 0 else err(base + (1 if r < 0 else 0))


@fn("std::slice::binary_search")
def _(ctx):
    m = ctx.m
    c = cmp_fn(m, m.ty(m.ty(ctx.ins[0])["elem"])["elem"])
    return lambda s, x: bsearch(sl(s), lambda p: c(val(p), val(x)))


@fn("std::slice::binary_search_by")
def _(ctx):
    m = ctx.m
    ft = ctx.ins[1]
    return lambda s, g: bsearch(sl(s), lambda p: gdiscr(m.call_value(g, ft, [p])) - 1)


@fn("std::slice::binary_search_by_key")
def _(ctx):
    m = ctx.m
    kt, ft = m.ty(ctx.ins[1])["elem"], ctx.ins[2]
    return lambda s, k, g: bsearch(sl(s), lambda p: cmp_fn(m, kt)(m.call_value(g, ft, [p]), val(k)))


@fn("std::slice::partition_point")
def _(ctx):
    m = ctx.m
    ft = ctx.ins[1]
    return lambda s, g: bsearch(sl(s), lambda p: -1 if m.branch(m.call_value(g, ft, [p])) else 1).f[0]


def ends(last):
    def b(ctx):
        m = ctx.m
        e = m.ty(m.ty(ctx.ins[0])["elem"])["elem"]

        def f(s, t):
            s, t = sl(s), sl(t)
            if t.n > s.n:
                return False
            o = s.s + (s.n - t.n if last else 0)
            g = eq_fn(m, e)
            return z3and([g(s.l[o + i], t.l[t.s + i]) for i in range(t.n)])
        return f
    return b


FN["std::slice::starts_with"] = ends(False)
FN["std::slice::ends_with"] = ends(True)


@fn("std::slice::fill")
def _(ctx):
    m = ctx.m
    g = clone_fn(m, m.ty(m.ty(ctx.ins[0])["elem"])["elem"])

    def f(s, x):
        s = sl(s)
        for i in range(s.n):
            s.l[s.s + i] = g(x)
        return UNIT
    return f


@fn("std::slice::repeat")
def _(ctx):
    m = ctx.m
    g = clone_fn(m, m.ty(m.ty(ctx.ins[0])["elem"])["elem"])

    def f(s, n):
        s = sl(s)
        return VecObj([g(s.l[s.s + i]) for _ in range(conc(n)) for i in range(s.n)])
    return f


@simple("std::slice::copy_from_slice", "std::slice::clone_from_slice")
def _(s, t):
    s, t = sl(s), sl(t)
    if s.n != t.n:
        raise Panic("source slice length does not match destination slice length")
    s.l[s.s:s.s + s.n] = t.l[t.s:t.s + t.n]
    return UNIT


def slice_split(s, f, incl):
    out, at = [], 0
    for i in range(s.n):
        if M().branch(f(Ptr(s.l, s.s + i))):
            out.append(SliceRef(s.l, s.s + at, i - at + (1 if incl else 0)))
            at = i + 1
    if not (incl and at == s.n):
        out.append(SliceRef(s.l, s.s + at, s.n - at))
    return out


@fn("std::slice::split", "std::slice::split_inclusive", "std::slice::split_mut", "std::slice::rsplit")
def _(ctx):
    m = ctx.m
    ft = ctx.ins[1]
    incl, rev = ctx.j["path"].endswith("inclusive"), ctx.j["path"].endswith("rsplit")

    def f(s, g):
        l = slice_split(sl(s), lambda p: m.call_value(g, ft, [p]), incl)
        return lit_iter(l[::-1] if rev else l)
    return f


@fn("std::slice::splitn")
def _(ctx):
    m = ctx.m
    ft = ctx.ins[2]

    def f(s, n, g):
        s, n = sl(s), conc(n)
        if n == 0:
            return lit_iter([])
        out, at = [], 0
        for i in range(s.n):
            if len(out) == n - 1:
                break
            if M().branch(m.call_value(g, ft, [Ptr(s.l, s.s + i)])):
                out.append(SliceRef(s.l, s.s + at, i - at))
                at = i + 1
        out.append(SliceRef(s.l, s.s + at, s.n - at))
        return lit_iter(out)
    return f


@fn("std::slice::chunk_by", "std::slice::chunk_by_mut")
def _(ctx):
    m = ctx.m
    ft = ctx.ins[1]

    def f(s, g):
        s = sl(s)
        out, at = [], 0
        for i in range(1, s.n + 1):
            if i == s.n or not m.branch(m.call_value(g, ft, [Ptr(s.l, s.s + i - 1), Ptr(s.l, s.s + i)])):
                out.append(SliceRef(s.l, s.s + at, i - at))
                at = i
        return lit_iter(out)
    return f


class ChunksExact(SeqIt):
    def __init__(self, l, rest):
        SeqIt.__init__(self, l, 0, len(l), by_val)
        self.rest = rest


@simple("std::slice::chunks_exact", "std::slice::chunks_exact_mut")
def _(s, n):
    s, n = sl(s), conc(n)
    if n == 0:
        raise Panic("chunk size must be non-zero")
    k = s.n // n
    return ChunksExact([SliceRef(s.l, s.s + i * n, n) for i in range(k)], SliceRef(s.l, s.s + k * n, s.n - k * n))


@simple("std::slice::ChunksExact::remainder", "std::slice::ChunksExactMut::into_remainder")
def _(p):
    return V(p).rest


@simple("std::slice::rchunks")
def _(s, n):
    s, n = sl(s), conc(n)
    if n == 0:
        raise Panic("chunk size must be non-zero")
    out, e = [], s.n
    while e > 0:
        b = max(0, e - n)
        out.append(SliceRef(s.l, s.s + b, e - b))
        e = b
    return lit_iter(out)


@simple("std::slice::chunks_mut")
def _(s, n):
    return FN["std::slice::chunks"](None)(s, n)


def sorted_pairs(xs, c):
    return all(c(a, b) <= 0 for a, b in zip(xs, xs[1:]))


@fn("std::slice::is_sorted")
def _(ctx):
    m = ctx.m
    c = cmp_fn(m, m.ty(m.ty(ctx.ins[0])["elem"])["elem"])
    return lambda s: sorted_pairs(seqv(sl(s)), c)


@fn("std::slice::is_sorted_by_key")
def _(ctx):
    m = ctx.m
    ft = ctx.ins[1]
    c = cmp_fn(m, key_type(ctx))
    return lambda s, g: sorted_pairs([m.call_value(g, ft, [Ptr([x], 0)]) for x in seqv(sl(s))], c)


@fn("std::slice::is_sorted_by")
def _(ctx):
    m = ctx.m
    ft = ctx.ins[1]
    return lambda s, g: (lambda l: all(m.branch(m.call_value(g, ft, [Ptr([a], 0), Ptr([b], 0)])) for a, b in zip(l, l[1:])))(seqv(sl(s)))


im("is_sorted")(lambda ctx, m: lambda it: sorted_pairs([x for x in it.drain()], cmp_fn(m, iter_item(m, ctx.ins[0]))))


@im("is_sorted_by_key")
def _(ctx, m):
    c = cmp_fn(m, key_type(ctx))
    return lambda it, g: sorted_pairs([m.call_value(g, ctx.ins[1], [x]) for x in it.drain()], c)


@fn("std::slice::concat_", "std::array::map")
def _(ctx):
    m = ctx.m
    ft = ctx.ins[1]
    return lambda a, g: Agg(0, [m.call_value(g, ft, [x]) for x in a.f])


@simple("std::array::as_slice", "std::array::as_mut_slice")
def _(p):
    return sl(p)


@simple("std::array::each_ref")
def _(p):
    a = V(p)
    return Agg(0, [Ptr(a.f, i) for i in range(len(a.f))])


@fn("std::array::from_fn")
def _(ctx):
    m = ctx.m
    n = array_len(m, ctx.out)
    return lambda g: Agg(0, [m.call_value(g, ctx.ins[0], [i]) for i in range(n)])


def array_len(m, t):
    ty = m.ty(t)
    n = ty.get("len")
    if n.__class__ is not int:
        raise Unsupported("array length")
    return n


_tf = FN["std::convert::TryInto::try_into"]


def try_conv(old):
    def b(ctx):
        m = ctx.m
        into = ctx.j["method"] == "try_into"
        src, dst = (ctx.targs[0], ctx.targs[1]) if into else (ctx.targs[1], ctx.targs[0])
        d, s = m.ty(dst), m.ty(src)
        if d["k"] == "ref" and m.ty(d["elem"])["k"] == "array":
            n = array_len(m, d["elem"])
            return lambda v: (lambda x: ok(Ptr([Agg(0, x.l[x.s:x.s + x.n])], 0)) if x.n == n else err(Obj("TryFromSliceError")))(sl(v))
        if d["k"] == "array":
            n = array_len(m, dst)
            owned = s["k"] == "adt"

            def f(v):
                xs = seqv(v)
                if len(xs) != n:
                    return err(v if owned else Obj("TryFromSliceError"))
                g = (lambda x: x) if owned else clone_fn(m, d["elem"])
                return ok(Agg(0, [g(x) for x in xs]))
            return f
        return old(ctx)
    return b


for _n in ("std::convert::TryInto::try_into", "std::convert::TryFrom::try_from"):
    FN[_n] = try_conv(FN[_n])


# VecDeque
D = "std::collections::VecDeque::"
for _a, _b in (("contains", "std::slice::contains"), ("swap", "std::slice::swap"), ("get_mut", "std::slice::get_mut"),
               ("insert", "std::vec::Vec::insert"), ("truncate", "std::vec::Vec::truncate"), ("front_mut", "std::slice::first_mut"),
               ("back_mut", "std::slice::last_mut"), ("drain", "std::vec::Vec::drain"), ("split_off", "std::vec::Vec::split_off"),
               ("binary_search", "std::slice::binary_search")):
    if _b in FN and D + _a not in FN:
        FN[D + _a] = FN[_b]


@fn(D + "contains")
def _(ctx):
    m = ctx.m
    g = eq_fn(m, ctx.args[0])
    return lambda p, x: any(m.branch(g(y, val(x))) for y in V(p).items)


@simple(D + "remove")
def _(p, i):
    v, i = V(p), conc(i)
    return some(v.items.pop(i)) if i < len(v.items) else none()


@simple(D + "make_contiguous", D + "as_slices_")
def _(p):
    return sl(p)


# binary heaps: the order is only visible through pop and peek
H = "std::collections::BinaryHeap::"
HM = "std::collections::binary_heap::BinaryHeap::"


def heap(*names):
    def d(g):
        for n in names:
            FN[H + n] = FN[HM + n] = g
        return g
    return d


heap("new", "with_capacity")(lambda ctx: lambda *a: VecObj([]))
heap("len")(lambda ctx: lambda p: len(V(p).items))
heap("is_empty")(lambda ctx: lambda p: not V(p).items)


@heap("push")
def _(ctx):
    return lambda p, x: (V(p).items.append(x), UNIT)[1]


def top(m, t, v):
    c = cmp_fn(m, t)
    best = 0
    for i in range(1, len(v.items)):
        if c(v.items[i], v.items[best]) > 0:
            best = i
    return best


@heap("pop")
def _(ctx):
    def f(p):
        v = V(p)
        return some(v.items.pop(top(ctx.m, ctx.args[0], v))) if v.items else none()
    return f


@heap("peek")
def _(ctx):
    def f(p):
        v = V(p)
        return some(Ptr(v.items, top(ctx.m, ctx.args[0], v))) if v.items else none()
    return f


@heap("into_sorted_vec")
def _(ctx):
    c = cmp_fn(ctx.m, ctx.args[0])
    return lambda v: VecObj(merge_sort(ctx.m, v.items, lambda a, b: c(a, b) <= 0))


# ------------------------------------------------------------------ iterators

def flat_back(self):
    while True:
        e = getattr(self, "last", None)
        if e is not None:
            x = e.back()
            if x is not END:
                return x
            self.last = None
        x = self.it.back()
        if x is END:
            if self.cur is not None:
                y = self.cur.back()
                if y is not END:
                    return y
                self.cur = None
            return END
        self.last = self.conv(x)


FlatIt.back = flat_back
_fn = FlatIt.next


def flat_next(self):
    x = _fn(self)
    if x is END and getattr(self, "last", None) is not None:
        x = self.last.next()
        if x is END:
            self.last = None
    return x


FlatIt.next = flat_next


def take_back(self):
    n = self.it.length()
    if n > self.n:
        for _ in range(n - self.n):
            self.it.back()
        n = self.n
    if n == 0:
        return END
    self.n = n - 1
    return self.it.back()


TakeIt.back = take_back
TakeIt.length = lambda self: min(self.n, self.it.length())


def zip_back(self):
    a, b = self.a.length(), self.b.length()
    while a > b:
        self.a.back()
        a -= 1
    while b > a:
        self.b.back()
        b -= 1
    if a == 0:
        return END
    return Agg(0, [self.a.back(), self.b.back()])


ZipIt.back = zip_back
_rb = RangeIt.back


def range_back(self):
    f = self.a.f
    if not self.incl:
        return _rb(self)
    if f[0].__class__ is not int or f[1].__class__ is not int:
        raise Unsupported("range next_back")
    if (len(f) > 2 and f[2]) or f[0] > f[1]:
        return END
    x = f[1]
    if f[0] == f[1] and len(f) > 2:
        f[2] = True
    else:
        f[1] -= 1
    return x


RangeIt.back = range_back


def peek_back(self):
    x = self.it.back()
    if x is END and self.buf:
        return self.buf.pop()
    return x


PeekIt.back = peek_back
PeekIt.length = lambda self: self.it.length() + sum(1 for b in self.buf if b is not END)


def entries_back(self):
    if self.mp.kind == "hash":
        raise Unsupported("map next_back")
    e = getattr(self, "end", None)
    e = len(self.mp.entries) if e is None else e
    if self.k >= e:
        return END
    self.end = e - 1
    return self.f(self.mp.entries[e - 1])


_mn = MapEntries.next
_mc = MapEntries.clone


def entries_next(self):
    if getattr(self, "end", None) is not None and self.k >= self.end:
        return END
    return _mn(self)


def entries_clone(self):
    c = _mc(self)
    if getattr(self, "end", None) is not None:
        c.end = self.end
    return c


MapEntries.back = entries_back
MapEntries.next = entries_next
MapEntries.clone = entries_clone
MapEntries.length = lambda self: (getattr(self, "end", None) if getattr(self, "end", None) is not None else len(self.mp.entries)) - self.k


class CycleIt(It):
    def __init__(self, it):
        self.o, self.it = it.clone(), it

    def next(self):
        x = self.it.next()
        if x is END:
            self.it = self.o.clone()
            x = self.it.next()
        return x

    def clone(self):
        c = CycleIt(self.o)
        c.it = self.it.clone()
        return c


im("cycle")(lambda ctx, m: CycleIt)


@fn("std::iter::repeat_with")
def _(ctx):
    return lambda g: Adapter(lambda: ctx.m.call_value(g, ctx.ins[0], []))


@fn("std::iter::once_with")
def _(ctx):
    return lambda g: lit_iter([ctx.m.call_value(g, ctx.ins[0], [])])


@simple("std::option::Option::iter", "std::option::Option::iter_mut")
def _(p):
    o = val(p)
    l = [Ptr(o.f, 0)] if gdiscr(o) == 1 else []
    return lit_iter(l)


@simple("std::result::Result::iter", "std::result::Result::iter_mut")
def _(p):
    o = val(p)
    l = [Ptr(o.f, 0)] if gdiscr(o) == 0 else []
    return lit_iter(l)


def compare_iters(ctx, m, res):
    t = iter_item(m, ctx.ins[0])

    def f(it, o):
        o = to_iter(m, ctx.ins[1], o)
        c = cmp_fn(m, t)
        while True:
            a, b = it.next(), o.next()
            if a is END or b is END:
                return res((a is not END) - (b is not END))
            r = c(a, b)
            if r:
                return res(r)
    return f


im("cmp")(lambda ctx, m: compare_iters(ctx, m, lambda r: Agg(r + 1, [])))
im("partial_cmp")(lambda ctx, m: compare_iters(ctx, m, lambda r: some(Agg(r + 1, []))))
im("lt")(lambda ctx, m: compare_iters(ctx, m, lambda r: r < 0))
im("le")(lambda ctx, m: compare_iters(ctx, m, lambda r: r <= 0))
im("gt")(lambda ctx, m: compare_iters(ctx, m, lambda r: r > 0))
im("ge")(lambda ctx, m: compare_iters(ctx, m, lambda r: r >= 0))


def best_by(sign):
    def b(ctx, m):
        ft = ctx.ins[1]

        def f(it, g):
            xs = it.drain()
            if not xs:
                return none()
            r = xs[0]
            for x in xs[1:]:
                c = (gdiscr(m.call_value(g, ft, [Ptr([r], 0), Ptr([x], 0)])) - 1) * sign
                # max_by keeps the last of equal ones, min_by the first
                if c < 0 or (c == 0 and sign > 0):
                    r = x
            return some(r)
        return f
    return b


im("max_by")(best_by(1))
im("min_by")(best_by(-1))


# ------------------------------------------------------------------ maps: entries as values, ordered ranges, operators

for _mod in ("hash_map", "btree_map"):
    E = "std::collections::%s::" % _mod

    def en_of(x):
        return V(x).f[0] if V(x).__class__ is Agg else V(x)

    def wrapd(b):
        def w(ctx):
            g = b(ctx)
            return lambda en, *a: g(en_of(en), *a)
        return w
    for _n in ("or_insert", "or_insert_with", "or_default", "or_insert_with_key"):
        FN[E + "Entry::" + _n] = wrapd(FN[E + "Entry::" + _n])

    def _and_modify(ctx):
        m = ctx.m
        ft = ctx.ins[1]

        def f(en, g):
            o = en_of(en)
            if o.e is not None:
                m.call_value(g, ft, [Ptr(o.e, 1)])
            return en
        return f
    FN[E + "Entry::and_modify"] = _and_modify

    def _key(ctx):
        def f(p):
            o = en_of(p)
            return Ptr(o.e, 0) if o.e is not None else Ptr([o.key], 0)
        return f
    FN[E + "Entry::key"] = _key

    def _occ(g, E=E):
        def d(ctx):
            return lambda p, *a: g(ctx.m, V(p), *a)
        return d

    def _put(m, o, v):
        map_insert(m, o.kt, o.mp, o.key, v)
        o.e = map_find(m, o.kt, o.mp, o.key)
        return o

    def _swap(m, o, v):
        old, o.e[1] = o.e[1], v
        return old
    for _n, _g in (("get", lambda m, o: Ptr(o.e, 1)), ("get_mut", lambda m, o: Ptr(o.e, 1)), ("into_mut", lambda m, o: Ptr(o.e, 1)),
                   ("key", lambda m, o: Ptr(o.e, 0)), ("insert", _swap),
                   ("remove", lambda m, o: map_remove(m, o.kt, o.mp, o.key)[1]),
                   ("remove_entry", lambda m, o: Agg(0, list(map_remove(m, o.kt, o.mp, o.key))))):
        FN[E + "OccupiedEntry::" + _n] = _occ(_g)
    for _n, _g in (("insert", lambda m, o, v: Ptr(_put(m, o, v).e, 1)), ("insert_entry", lambda m, o, v: _put(m, o, v)),
                   ("key", lambda m, o: Ptr([o.key], 0)), ("into_key", lambda m, o: o.key)):
        FN[E + "VacantEntry::" + _n] = _occ(_g)

    def _insent(ctx):
        return lambda en, v: _put(ctx.m, en_of(en), v)
    FN[E + "Entry::insert_entry"] = _insent


def _entry(ctx):
    m, kt = ctx.m, ctx.args[0]
    vs = [v["name"] for v in m.ty(ctx.out)["variants"]]
    oc, va = vs.index("Occupied"), vs.index("Vacant")

    def f(p, k):
        e = map_find(m, kt, V(p), k)
        return Agg(va if e is None else oc, [Obj("entry", mp=V(p), kt=kt, key=k, e=e)])
    return f


for _c in ("HashMap", "BTreeMap"):
    FN["std::collections::%s::entry" % _c] = _entry


@fn("std::collections::HashMap::extract_if", "std::collections::HashSet::extract_if")
def _(ctx):
    raise Unsupported("extract_if on a map")


def sub_entries(mp, es):
    r = MapObj(list(es), mp.kind)
    return r


for _c in ("BTreeMap", "BTreeSet"):
    B = "std::collections::" + _c
    st = _c.endswith("Set")

    def reg(n, g, B=B, st=st):
        FN[B + "::" + n] = lambda ctx, g=g, st=st: g(ctx, ctx.m, ctx.args[0], st)

    def item(e, st):
        return Ptr(e, 0) if st else Agg(0, [Ptr(e, 0), Ptr(e, 1)])

    def owned(e, st):
        return e[0] if st else Agg(0, [e[0], e[1]])

    def popper(k):
        def g(ctx, m, kt, st):
            def f(p):
                mp = V(p)
                if not mp.entries:
                    return none()
                e = mp.entries[k]
                mp.entries = [x for x in mp.entries if x is not e]
                return some(owned(e, st))
            return f
        return g
    reg("pop_first", popper(0))
    reg("pop_last", popper(-1))

    def peeker(k):
        return lambda ctx, m, kt, st: lambda p: some(item(V(p).entries[k], st)) if V(p).entries else none()
    reg("first", peeker(0))
    reg("last", peeker(-1))
    reg("first_key_value", peeker(0))
    reg("last_key_value", peeker(-1))

    def ranger(ctx, m, kt, st):
        rt = m.ty(ctx.ins[1])
        name = rt["path"] if rt["k"] == "adt" else "tuple"

        def f(p, r):
            mp = V(p)
            c = cmp_fn(m, kt)

            def cmpk(e, k):
                return key_cmp(m, kt, c, e[0], k)
            lo, hi = bounds(m, name, r)
            es = [e for e in mp.entries if (lo is None or (lambda d: d > 0 or (d == 0 and lo[1]))(cmpk(e, lo[0])))
                  and (hi is None or (lambda d: d < 0 or (d == 0 and hi[1]))(cmpk(e, hi[0])))]
            return lit_iter([item(e, st) for e in es])
        return f
    reg("range", ranger)
    reg("range_mut", ranger)

    def appender(ctx, m, kt, st):
        def f(p, q):
            a, b = V(p), V(q)
            for k, v in b.entries:
                map_insert(m, kt, a, k, v)
            b.entries = []
            return UNIT
        return f
    reg("append", appender)

    def splitoff(ctx, m, kt, st):
        def f(p, k):
            mp = V(p)
            c = cmp_fn(m, kt)
            hi = [e for e in mp.entries if key_cmp(m, kt, c, e[0], k) >= 0]
            mp.entries = [e for e in mp.entries if not any(e is h for h in hi)]
            return MapObj(hi, "btree")
        return f
    reg("split_off", splitoff)


def key_cmp(m, kt, c, a, k):
    if models.peel(m, kt)[0] == "str":
        return strs.str_cmp(text(a), text(k))
    return c(a, key_of(m, k)) if m.ty(kt)["k"] != "ref" else c(a, val(k))


def bounds(m, name, r):
    """(value, included) of the two bounds of a range of keys, None when there is none"""
    if name == "tuple":
        def one(b):
            k = gdiscr(b)       # Included, Excluded, Unbounded
            return None if k == 2 else (b.f[0], k == 0)
        return one(r.f[0]), one(r.f[1])
    if name.endswith("RangeFull"):
        return None, None
    if name.endswith("RangeFrom"):
        return (r.f[0], True), None
    if name.endswith("RangeToInclusive"):
        return None, (r.f[0], True)
    if name.endswith("RangeTo"):
        return None, (r.f[0], False)
    if name.endswith("RangeInclusive"):
        return (r.f[0], True), (r.f[1], True)
    return (r.f[0], True), (r.f[1], False)


def set_list(m, kt, x, y, which):
    """entries of a set operation, in the order of the sets' iteration"""
    X = MapEntries(x, lambda e: e).drain()
    Y = MapEntries(y, lambda e: e).drain()
    if which in ("union", "symmetric_difference"):
        r = [e for e in X if which == "union" or map_find(m, kt, y, e[0]) is None]
        r += [e for e in Y if map_find(m, kt, x, e[0]) is None]
        if x.kind == "btree":
            c = cmp_fn(m, kt)
            r = merge_sort(m, r, lambda a, b: c(a[0], b[0]) <= 0)
        return r
    return [e for e in X if (map_find(m, kt, y, e[0]) is None) == (which == "difference")]


for _c in ("HashSet", "BTreeSet"):
    for _w in ("union", "difference", "intersection", "symmetric_difference"):
        FN["std::collections::%s::%s" % (_c, _w)] = lambda ctx, w=_w: (
            lambda a, b: lit_iter([Ptr(e, 0) for e in set_list(ctx.m, ctx.args[0], V(a), V(b), w)]))
    FN["std::collections::%s::is_superset" % _c] = lambda ctx: (
        lambda a, b: all(map_find(ctx.m, ctx.args[0], V(a), e[0]) is not None for e in V(b).entries))
    FN["std::collections::%s::is_disjoint" % _c] = lambda ctx: (
        lambda a, b: all(map_find(ctx.m, ctx.args[0], V(a), e[0]) is None for e in V(b).entries))

    def _repl(ctx):
        def f(p, k):
            old = map_remove(ctx.m, ctx.args[0], V(p), k)
            map_insert(ctx.m, ctx.args[0], V(p), k, UNIT)
            return none() if old is None else some(old[0])
        return f
    FN["std::collections::%s::replace" % _c] = _repl

for _op, _meth, _w in (("BitOr", "bitor", "union"), ("BitAnd", "bitand", "intersection"), ("BitXor", "bitxor", "symmetric_difference"),
                       ("Sub", "sub", "difference")):
    _old = FN.get("std::ops::%s::%s" % (_op, _meth))

    def _b(ctx, w=_w, old=_old):
        m = ctx.m
        t = m.ty(ctx.ins[0])
        e = m.ty(t["elem"]) if t["k"] == "ref" else t
        if e["k"] == "adt" and e["path"] in models.MAPY and e["path"].endswith("Set"):
            kt = e["args"][0]
            cl = clone_fn(m, kt)

            def f(a, b):
                x = V(a)
                return MapObj([[cl(q[0]), UNIT] for q in set_list(m, kt, x, V(b), w)], x.kind)
            return f
        return old(ctx) if old else None
    FN["std::ops::%s::%s" % (_op, _meth)] = _b


# ------------------------------------------------------------------ cells, locks, lazily built values

GUARDS = ("std::cell::Ref", "std::cell::RefMut", "std::sync::MutexGuard", "std::sync::RwLockReadGuard", "std::sync::RwLockWriteGuard",
          "std::sync::poison::mutex::MutexGuard", "std::sync::nonpoison::MutexGuard")


def guard_deref(ctx):
    """dereference of a guard or of a lazily built value"""
    ty = ctx.m.ty(ctx.targs[0])
    if ty["k"] != "adt":
        return None
    last = ty["path"].rsplit("::", 1)[-1]
    if last in ("Ref", "RefMut", "MutexGuard", "RwLockReadGuard", "RwLockWriteGuard") and ty["path"].startswith("std::"):
        return lambda p: deref(p)
    if last in ("LazyLock", "LazyCell") and ty["path"].startswith("std::"):
        return lambda p: force(ctx.m, V(p))
    return None


_dd = FN["std::ops::Deref::deref"]


@fn("std::ops::Deref::deref")
def _(ctx):
    return guard_deref(ctx) or _dd(ctx)


def force(m, o):
    if o.__class__ is not Obj or o.kind != "lazy":
        raise Unsupported("lazy value %r" % (o,))
    if not o.c:
        if o.busy:
            raise Panic("lazy value needs itself")
        o.busy = True
        o.c.append(m.call_value(o.f, o.t, []))
        o.busy = False
    return Ptr(o.c, 0)


def both(mods, name):
    return ["std::%s::%s" % (x, name) for x in mods]


@fn("std::sync::LazyLock::new", "std::cell::LazyCell::new", "std::sync::lazy_lock::LazyLock::new", "std::cell::lazy::LazyCell::new")
def _(ctx):
    return lambda f: Obj("lazy", f=f, t=ctx.ins[0], c=[], busy=False)


@fn("std::sync::LazyLock::force", "std::cell::LazyCell::force")
def _(ctx):
    return lambda p: force(ctx.m, V(p))


for _p in ("std::sync::OnceLock::", "std::cell::OnceCell::"):
    simple(_p + "new")(lambda: Obj("once", c=[]))
    simple(_p + "get", _p + "get_mut")(lambda p: some(Ptr(V(p).c, 0)) if V(p).c else none())
    simple(_p + "into_inner")(lambda o: some(o.c[0]) if o.c else none())

    def _set(p, v):
        o = V(p)
        if o.c:
            return err(v)
        o.c.append(v)
        return ok(UNIT)
    simple(_p + "set")(_set)

    def _init(ctx):
        def f(p, g):
            o = V(p)
            if not o.c:
                v = ctx.m.call_value(g, ctx.ins[1], [])
                o.c.append(v)
            return Ptr(o.c, 0)
        return f
    fn(_p + "get_or_init")(_init)

    def _take(p):
        o = V(p)
        c, o.c = o.c, []
        return some(c[0]) if c else none()
    simple(_p + "take")(_take)

for _p in ("std::cell::Cell::", "std::cell::RefCell::", "std::sync::Mutex::", "std::sync::RwLock::", "std::sync::poison::mutex::Mutex::",
           "std::sync::poison::rwlock::RwLock::"):
    simple(_p + "new")(lambda v: Obj("cell", c=[v]))
    simple(_p + "get_mut")((lambda p: ok(Ptr(V(p).c, 0))) if "sync" in _p else (lambda p: Ptr(V(p).c, 0)))
    simple(_p + "into_inner")((lambda o: ok(o.c[0])) if "sync" in _p else (lambda o: o.c[0]))

    def _repl2(p, v):
        o = V(p)
        old, o.c[0] = o.c[0], v
        return old
    if "sync" not in _p:
        simple(_p + "replace")(_repl2)
        simple(_p + "set")(lambda p, v: (_repl2(p, v), UNIT)[1])

        def _ctake(ctx):
            f = ctx.m.c.req("method", "std::default::Default::default", ctx.args[0])["fn"]
            return lambda p: _repl2(p, ctx.m.callable_fn(f)())
        fn(_p + "take")(_ctake)
    if "Cell::" in _p and "RefCell" not in _p:
        simple(_p + "get")(lambda p: cp(V(p).c[0]))
    simple(_p + "borrow", _p + "borrow_mut")(lambda p: Ptr(V(p).c, 0))
    simple(_p + "try_borrow", _p + "try_borrow_mut", _p + "lock", _p + "read", _p + "write", _p + "try_lock")(lambda p: ok(Ptr(V(p).c, 0)))
    simple(_p + "is_poisoned")(lambda p: False)

for _t in ("Atomic", "AtomicBool", "AtomicUsize", "AtomicIsize", "AtomicU64", "AtomicI64", "AtomicU32", "AtomicI32", "AtomicU8"):
    _p = "std::sync::atomic::%s::" % _t
    simple(_p + "new")(lambda v: Obj("cell", c=[v]))
    simple(_p + "load")(lambda p, o: V(p).c[0])
    simple(_p + "into_inner")(lambda o: o.c[0])
    simple(_p + "store")(lambda p, v, o: (V(p).c.__setitem__(0, v), UNIT)[1])

    def _sw(p, v, o):
        c = V(p).c
        old, c[0] = c[0], v
        return old
    simple(_p + "swap")(_sw)

    def _fetch(op):
        def b(ctx):
            ty = ctx.m.ty(ctx.ins[1])
            g = core.binop(ty, op) if ty["k"] != "bool" else {"or": lambda a, b: z3or([a, b]), "and": lambda a, b: z3and([a, b])}[op]

            def f(p, v, o):
                c = V(p).c
                old = c[0]
                c[0] = g(old, v)
                return old
            return f
        return b
    for _n, _o in (("fetch_add", "add"), ("fetch_sub", "sub"), ("fetch_or", "or"), ("fetch_and", "and")):
        fn(_p + _n)(_fetch(_o))

    def _cx(p, a, b, o1, o2):
        c = V(p).c
        old = c[0]
        if M().branch(old == a):
            c[0] = b
            return ok(old)
        return err(old)
    simple(_p + "compare_exchange", _p + "compare_exchange_weak")(_cx)


@simple("std::intrinsics::is_val_statically_known")
def _(x):
    return False


@simple("std::intrinsics::likely", "std::intrinsics::unlikely")
def _(x):
    return x


# ------------------------------------------------------------------ paths

def comps(s):
    """components of a path, as Path::components has them"""
    e = text(s)
    parts = strs.split(e, Pat("set", frozenset([47])))
    out = []
    n = len(parts)
    if n > 1 and parts[0] == "":
        out.append(("root", "/"))
    for i, p in enumerate(parts):
        if p == "":
            continue
        if p.__class__ is S and M().branch(strs.is_empty(p)):
            continue
        if p == ".":
            if i == 0:
                out.append(("cur", "."))
            continue
        out.append(("up", "..") if p == ".." else ("name", p))
    return out


COMP = {"root": 1, "cur": 2, "up": 3, "name": 4}


def comp_val(c):
    k = COMP[c[0]]
    return Agg(k, [c[1]] if k == 4 else [])


def comp_text(a):
    a = val(a)
    k = gdiscr(a)
    return text(a.f[0]) if k == 4 else {1: "/", 2: ".", 3: ".."}[k]


def comp_join(cs):
    out = ""
    for k, t in cs:
        out = t if k == "root" else cat(out, t) if out in ("", "/") else mks([out, "/", t])
    return out


class CompIt(SeqIt):
    def __init__(self, l, s, e, plain):
        SeqIt.__init__(self, l, s, e, (lambda l, i: l[i][1]) if plain else (lambda l, i: comp_val(l[i])))
        self.plain = plain

    def clone(self):
        return CompIt(self.l, self.s, self.e, self.plain)


@simple("std::path::Path::components")
def _(p):
    l = comps(p)
    return CompIt(l, 0, len(l), False)


@simple("std::path::Path::iter")
def _(p):
    l = comps(p)
    return CompIt(l, 0, len(l), True)


@simple("std::path::Components::as_path", "std::path::Iter::as_path")
def _(p):
    it = V(p)
    return comp_join(it.l[it.s:it.e])


@simple("std::path::Component::as_os_str")
def _(c):
    return comp_text(c)


def strip(p, base):
    a, b = comps(p), comps(base)
    if len(b) > len(a):
        return None
    for x, y in zip(a, b):
        if x[0] != y[0] or not M().branch(str_eq(x[1], y[1])):
            return None
    return comp_join(a[len(b):])


@simple("std::path::Path::_strip_prefix")
def _(p, base):
    r = strip(p, base)
    return err(Obj("StripPrefixError", display="prefix not found")) if r is None else ok(r)


@simple("std::path::Path::_starts_with")
def _(p, base):
    return strip(p, base) is not None


@simple("std::path::Path::_ends_with")
def _(p, end):
    a, b = comps(p), comps(end)
    if len(b) > len(a):
        return False
    for x, y in zip(a[len(a) - len(b):], b):
        if x[0] != y[0] or not M().branch(str_eq(x[1], y[1])):
            return False
    return True


@simple("std::path::Path::_with_file_name")
def _(p, name):
    cs = comps(p)
    if cs and cs[-1][0] == "name":
        cs.pop()
    return StringObj(models.path_join(comp_join(cs), text(name)))


@simple("std::intrinsics::ctlz", "std::intrinsics::cttz", "std::intrinsics::ctpop")
def _(x):
    raise Unsupported("bit counting")


# ------------------------------------------------------------------ {:?}

def quote(s):
    """debug form of a text, None when its characters are not known well enough"""
    out = ['"']
    esc = frozenset(list(range(32)) + [34, 92, 127, 128])
    for x in strs.explode(s):
        if x.__class__ is str:
            o = ord(x)
            y = {"\\": "\\\\", '"': '\\"', "\n": "\\n", "\t": "\\t", "\r": "\\r", "\0": "\\0"}.get(x)
            if y is None:
                y = "\\u{%x}" % o if (o < 32 or o == 127 or (o > 127 and not x.isprintable())) else x
            out.append(y)
        elif x.__class__ is Num:
            out.append(x)
        elif x.__class__ is Atom and not (x.cs & esc):
            out.append(x)
        else:
            return None
    out.append('"')
    return mks(out)


def pad(s):
    """the indentation of {:#?}: every line of the text"""
    out = []
    at = True
    for x in strs.explode(s):
        if x.__class__ is not str and x.__class__ is not Num and (x.__class__ is Ch or 10 in x.cs):
            return None
        if at:
            out.append("    ")
        out.append(x)
        at = x == "\n"
    return mks(out)


class NoForm(Exception):
    pass


def debug_val(m, t, p, alt=False):
    try:
        return debug_form(m, t, p, alt)
    except NoForm:
        return models.opaque_text(m, "debug")


def group(name, items, op, cl, alt, named=None):
    """name(a, b) and the like"""
    if not items:
        return cat(name, op + cl) if op != " { " else name
    if alt:
        out = [name, op.rstrip(), "\n"] if op != " { " else [name, " {\n"]
        for x in items:
            y = pad(cat(x, ",\n"))
            if y is None:
                raise NoForm
            out.append(y)
        out.append(cl.strip())
        return mks(out)
    return mks([name, op, join(items, ", "), cl])


def debug_form(m, t, p, alt):
    """debug form of the value p points at (or is, when it is fat)"""
    ty = m.ty(t)
    k = ty["k"]
    D = lambda et, q: debug_form(m, et, q, alt)
    fat = lambda et: models.fat_elem(m, et)
    at = lambda et, l, i: Ptr(l, i)
    if k in ("ref", "ptr"):
        return D(ty["elem"], val(p))
    if k == "str" or (k == "adt" and (ty["path"] in models.STRINGY or ty["path"] in ("std::path::Path", "std::ffi::OsStr", "std::borrow::Cow"))):
        if k == "adt" and ty["path"] == "std::borrow::Cow" and models.peel(m, ty["args"][0])[0] != "str":
            raise NoForm
        q = quote(text(p))
        if q is None:
            raise NoForm
        return q
    if k in ("int", "uint", "bool"):
        return models.fmt_val(m, t, p, "display")
    if k == "char":
        c = val(p)
        if c.__class__ is not int:
            raise NoForm
        q = quote(chr(c))[1:-1]
        return "'%s'" % {'\\"': '"', "'": "\\'"}.get(q, q)
    if k == "tuple":
        a = val(p)
        xs = [D(e, at(e, a.f, i)) for i, e in enumerate(ty["elems"])]
        return "()" if not xs else group("", xs, "(", ",)" if len(xs) == 1 and not alt else ")", alt)
    if k in ("array", "slice"):
        s = sl(p)
        return group("", [D(ty["elem"], Ptr(s.l, s.s + i)) for i in range(s.n)], "[", "]", alt)
    if k == "dyn" or p.__class__ is DynRef:
        if p.__class__ is DynRef:
            return D(p.ty, p.p)
        raise NoForm
    if k != "adt":
        raise NoForm
    path = ty["path"]
    x = val(p)
    if path in models.VECY:
        return group("", [D(ty["args"][0], Ptr(x.items, i)) for i in range(len(x.items))], "[", "]", alt)
    if path in models.BOXY:
        if x.__class__ is BoxV:
            return D(ty["args"][0], Ptr(x.c, 0))
        return D(ty["args"][0], x)
    if path in models.MAPY and x.__class__ is MapObj:
        es = MapEntries(x, lambda e: e).drain()
        if path.endswith("Map"):
            return group("", [mks([D(ty["args"][0], Ptr(e, 0)), ": ", D(ty["args"][1], Ptr(e, 1))]) for e in es], "{", "}", alt)
        return group("", [D(ty["args"][0], Ptr(e, 0)) for e in es], "{", "}", alt)
    if path == "std::ops::Range":
        return mks([D(ty["args"][0], Ptr(x.f, 0)), "..", D(ty["args"][0], Ptr(x.f, 1))])
    if path == "std::ops::RangeInclusive":
        return mks([D(ty["args"][0], Ptr(x.f, 0)), "..=", D(ty["args"][0], Ptr(x.f, 1))])
    if not isinstance(x, Agg):
        raise NoForm
    if path not in models.STRUCTY and path not in ("std::cmp::Reverse",):
        f = m.c.req("method", "std::fmt::Debug::fmt", t)["fn"]
        j = m.fn(f)
        ii = m.inst(j["inst"]) if j.get("inst") is not None else None
        if not (ii and ii.get("derived")):
            if ii and ii["local"]:
                fm = Obj("fmt", buf=[], alt=alt)
                m.callable_fn(f)(p, Ptr([fm], 0))
                return mks(fm.buf)
            raise NoForm
    vi = gdiscr_index(x)
    v = ty["variants"][vi]
    fs = v["fields"]
    if not fs:
        return v["name"]
    xs = [D(ft, Ptr(x.f, i)) for i, (_, ft) in enumerate(fs)]
    if fs[0][0] == "0":
        return group(v["name"], xs, "(", ")", alt)
    return group(v["name"], [mks([n[0], ": ", y]) for n, y in zip(fs, xs)], " { ", " }", alt)


def gdiscr_index(x):
    return gdiscr(x)


models.debug_val = debug_val


# builders of {:?} written by hand
@simple("std::fmt::Formatter::debug_struct", "std::fmt::Formatter::debug_tuple")
def _(p, name):
    return Obj("dbg", fm=p, name=text(name), items=[], named=None)


def _dlist(op, cl):
    return lambda p: Obj("dbg", fm=p, name="", items=[], named=None, op=op, cl=cl)


simple("std::fmt::Formatter::debug_list")(_dlist("[", "]"))
simple("std::fmt::Formatter::debug_set", "std::fmt::Formatter::debug_map")(_dlist("{", "}"))


def alt_of(fm):
    o = V(fm)
    return bool(getattr(o, "alt", False))


def dval(m, x, t, alt):
    return debug_val(m, t, x, alt)


@fn("std::fmt::DebugStruct::field", "std::fmt::builders::DebugStruct::field")
def _(ctx):
    m = ctx.m

    def f(p, name, x):
        o = V(p)
        o.named = True
        o.items.append(mks([text(name), ": ", dval(m, x, m.ty(ctx.ins[2])["elem"], alt_of(o.fm))]))
        return p
    return f


@fn("std::fmt::DebugTuple::field", "std::fmt::DebugList::entry", "std::fmt::DebugSet::entry")
def _(ctx):
    m = ctx.m

    def f(p, x):
        o = V(p)
        o.items.append(dval(m, x, m.ty(ctx.ins[1])["elem"], alt_of(o.fm)))
        return p
    return f


@fn("std::fmt::DebugMap::entry")
def _(ctx):
    m = ctx.m

    def f(p, k, x):
        o = V(p)
        a = alt_of(o.fm)
        o.items.append(mks([dval(m, k, m.ty(ctx.ins[1])["elem"], a), ": ", dval(m, x, m.ty(ctx.ins[2])["elem"], a)]))
        return p
    return f


@fn("std::fmt::DebugList::entries", "std::fmt::DebugSet::entries")
def _(ctx):
    m = ctx.m

    def f(p, it):
        o = V(p)
        et = ctx.targs[0]
        for x in to_iter(m, ctx.ins[1], it).drain():
            o.items.append(dval(m, x if models.fat_elem(m, et) else Ptr([x], 0), et, alt_of(o.fm)))
        return p
    return f


@simple("std::fmt::DebugStruct::finish", "std::fmt::DebugTuple::finish", "std::fmt::DebugList::finish", "std::fmt::DebugSet::finish",
        "std::fmt::DebugMap::finish")
def _(p):
    o = V(p)
    a = alt_of(o.fm)
    try:
        if hasattr(o, "op"):
            s = group("", o.items, o.op, o.cl, a)
        elif o.named:
            s = group(o.name, o.items, " { ", " }", a)
        else:
            s = group(o.name, o.items, "(", ")", a) if o.items else o.name
    except NoForm:
        s = models.opaque_text(M(), "debug")
    models.out_write(M(), o.fm, s)
    return ok(UNIT)


@simple("std::fmt::Formatter::alternate")
def _(p):
    return alt_of(p)
