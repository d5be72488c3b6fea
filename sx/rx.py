"""Regular expressions of the `regex` crate on symbolic text: leftmost-first backtracking over text
elements.  An opaque part is consumed whole, or the match is decided not to touch it; when the
outcome could depend on where inside an opaque part a match starts or ends, the run gives up."""
import re
import re._parser as rp
import re._constants as rc
from values import *
import core
import models
from models import FN, fn, simple, text, V
import strs

_cache = {}


class Tail(object):
    """some non-empty rest of an opaque part"""
    __slots__ = ("a",)

    def __init__(self, a):
        self.a = a


def untail(x):
    return x.a if x.__class__ is Tail else x


def charset(items):
    """set of ASCII codes; 128 stands for the non-ASCII ones. A class that splits them is not supported."""
    neg = False
    cs = set()
    for op, av in items:
        if op is rc.NEGATE:
            neg = True
        elif op is rc.LITERAL:
            if av > 127:
                raise Unsupported("regex: non-ASCII class")
            cs.add(av)
        elif op is rc.RANGE:
            lo, hi = av
            cs |= set(range(lo, min(hi, 127) + 1))
            if hi > 127:
                raise Unsupported("regex: non-ASCII class")
        elif op is rc.CATEGORY:
            cs |= category(av)
        else:
            raise Unsupported("regex: class item %s" % (op,))
    if neg:
        if "?" in cs:
            raise Unsupported("regex: negated unicode class")
        cs = set(range(129)) - cs
    return frozenset(cs)


# "?" : some of the non-ASCII characters
CATS = {
    rc.CATEGORY_DIGIT: frozenset(DIGIT) | {"?"},
    rc.CATEGORY_SPACE: frozenset(WS) | {"?"},
    rc.CATEGORY_WORD: frozenset(c for c in range(128) if chr(c).isalnum() or c == 95) | {"?"},
}
NOTS = {rc.CATEGORY_NOT_DIGIT: rc.CATEGORY_DIGIT, rc.CATEGORY_NOT_SPACE: rc.CATEGORY_SPACE, rc.CATEGORY_NOT_WORD: rc.CATEGORY_WORD}


def category(av):
    if av in CATS:
        return CATS[av]
    return (frozenset(range(128)) - CATS[NOTS[av]]) | {"?"}


class Rx:
    def __init__(self, src):
        self.src = src
        t = re.sub(r"\(\?<([A-Za-z_])", r"(?P<\1", src)
        flags = 0
        mm = re.match(r"^\(\?([a-z]+)\)", t)
        if mm:
            for f in mm.group(1):
                flags |= {"s": re.S, "i": re.I, "m": re.M, "x": re.X}[f]
            t = t[mm.end():]
        if flags & (re.I | re.M | re.X):
            raise Unsupported("regex flags")
        self.dotall = bool(flags & re.S)
        self.src_py = t
        self.py = re.compile(t, flags)
        p = rp.parse(t, flags)
        self.names = dict(p.state.groupdict)
        self.n = p.state.groups
        self.prog = list(p)


def compile_rx(src):
    r = _cache.get(src)
    if r is None:
        r = _cache[src] = Rx(src)
    return r


class Matcher:
    def __init__(self, rx, els):
        self.rx, self.e = rx, els

    def one(self, cs, i):
        """one character of class cs at element i: True / False / 'whole' (opaque part inside the class) / None"""
        if i >= len(self.e):
            return False
        x = self.e[i]
        m = core.M
        if x.__class__ is str:
            o = ord(x)
            if o > 127:
                if 128 in cs:
                    return True
                if "?" in cs:
                    return x.isalnum() if 48 in cs or 97 in cs else x.isspace()
                return False
            return o in cs
        if x.__class__ is Ch:
            if "?" in cs:
                if x.w > 1:
                    raise Unsupported("regex: unicode class on a symbolic character")
                cs = cs - {"?"}
            return m.branch(strs.ch_in(x, cs - {"?"} if "?" in cs else cs))
        a = x.a if x.__class__ is Tail else x
        acs = a.cs if a.__class__ is Atom else ((DIGIT | {45}) if a.signed else DIGIT)
        if acs <= cs:
            return "whole"
        if not (acs & cs) and not ("?" in cs and 128 in acs):
            return False
        # the first character may decide
        if a.__class__ is Atom and x.__class__ is not Tail:
            first = a.first
            if a.trim:
                first = first - WS
                if cs <= (WS | {"?"}):
                    return False        # the part neither starts nor ends with white space
            if not (first & cs) and not ("?" in cs and 128 in first):
                return False
        return None

    def skip_empty(self, i):
        while i < len(self.e):
            x = self.e[i]
            if x.__class__ is Atom and not x.ne and core.M.branch(strs.is_empty(mks([x]))):
                i += 1
            else:
                break
        return i

    def run(self, prog, k, i, caps, cont):
        """leftmost-first: call cont(i, caps) for each way to match prog[k:] at i, until it returns non-None"""
        i = self.skip_empty(i)
        if k == len(prog):
            return cont(i, caps)
        op, av = prog[k]
        nxt = lambda j, c: self.run(prog, k + 1, j, c, cont)
        cs = self.cls(op, av)
        if cs is not None:
            r = self.one(cs, i)
            if r is True:
                return nxt(i + 1, caps)
            if r is False:
                return None
            if r == "whole" and self.e[i].__class__ in (Atom, Num):
                # exactly one character of an opaque part
                raise Opaque("regex: one character of opaque text", untail(self.e[i]))
            raise Opaque("regex: opaque text", untail(self.e[i]))
        if op is rc.SUBPATTERN:
            g, add, dele, sub = av
            if add or dele:
                raise Unsupported("regex: inline flags")
            sub = list(sub)

            def done(j, c, i=i):
                if g is not None:
                    c = dict(c)
                    c[g] = (i, j)
                return nxt(j, c)
            return self.run(sub, 0, i, caps, done)
        if op is rc.BRANCH:
            for alt in av[1]:
                r = self.run(list(alt), 0, i, caps, nxt)
                if r is not None:
                    return r
            return None
        if op is rc.AT:
            if av in (rc.AT_BEGINNING, rc.AT_BEGINNING_STRING):
                return nxt(i, caps) if i == 0 else None
            if av in (rc.AT_END, rc.AT_END_STRING):
                return nxt(i, caps) if i >= len(self.e) else None
            raise Unsupported("regex: %s" % av)
        if op is rc.MAX_REPEAT or op is rc.MIN_REPEAT:
            lo, hi, sub = av
            return self.repeat(list(sub), lo, hi, op is rc.MAX_REPEAT, i, caps, nxt, 0)
        raise Unsupported("regex: %s" % (op,))

    def cls(self, op, av):
        if op is rc.LITERAL:
            if av > 127:
                raise Unsupported("regex: non-ASCII literal")
            return frozenset([av])
        if op is rc.NOT_LITERAL:
            return ALLCH - {av}
        if op is rc.IN:
            return charset(av)
        if op is rc.ANY:
            return ALLCH if self.rx.dotall else ALLCH - {10}
        return None

    def repeat(self, sub, lo, hi, greedy, i, caps, nxt, n):
        i = self.skip_empty(i)
        cs = self.cls(*sub[0]) if len(sub) == 1 else None

        def more():
            if hi is not rc.MAXREPEAT and n >= hi:
                return None
            if cs is not None:
                r = self.one(cs, i)
                if r is False:
                    return None
                if r is None:
                    raise Opaque("regex: opaque text", untail(self.e[i]))
                if r == "whole" and (hi is not rc.MAXREPEAT or lo > 1 or not greedy):
                    raise Opaque("regex: bounded or lazy repetition of opaque text", untail(self.e[i]))
                res = self.repeat(sub, lo, hi, greedy, i + 1, caps, nxt, n + 1)
                if res is not None or r is True or n + 1 < lo:
                    return res
                # matching stops inside the opaque part: the rest would have to go on there
                x = self.e[i]
                self.e[i] = x if x.__class__ is Tail else Tail(x)
                try:
                    t = nxt(i, caps)
                finally:
                    self.e[i] = x
                if t is not None:
                    raise Opaque("regex: match ends inside opaque text", untail(x))
                return None

            def again(j, c):
                if j == i:
                    return None
                return self.repeat(sub, lo, hi, greedy, j, c, nxt, n + 1)
            return self.run(sub, 0, i, caps, again)

        if n < lo:
            return more()
        if greedy:
            r = more()
            return r if r is not None else nxt(i, caps)
        r = nxt(i, caps)
        return r if r is not None else more()


def match_from(rx, els, start):
    """leftmost match at or after start -> (i, j, caps) or None"""
    mt = Matcher(rx, els)
    p = rx.prog
    anchored = bool(p) and p[0] == (rc.AT, rc.AT_BEGINNING)
    i = start
    while i <= len(els):
        r = mt.run(p, 0, i, {}, lambda j, c: (j, c))
        if r is not None:
            return i, r[0], r[1]
        if anchored:
            return None
        if i < len(els) and els[i].__class__ in (Atom, Num):
            x = els[i]
            els[i] = Tail(x)
            try:
                t = mt.run(p, 0, i, {}, lambda j, c: (j, c))
            finally:
                els[i] = x
            if t is not None:
                raise Opaque("regex: match starts inside opaque text", untail(x))
        i += 1
    return None


def els_of(s):
    return strs.explode(s)


def rx_obj(p):
    return V(p).rx


def mk_match(els, i, j):
    return Obj("rxmatch", s=mks(els[i:j]), els=els, i=i, j=j)


def caps_obj(rx, els, r):
    i, j, c = r
    groups = [None] * rx.n
    groups[0] = mk_match(els, i, j)
    for g, (a, b) in c.items():
        groups[g] = mk_match(els, a, b)
    return Obj("captures", rx=rx, groups=groups)


@simple("regex::Regex::new")
def _(p):
    s = text(p)
    if s.__class__ is not str:
        raise Unsupported("regex: symbolic pattern")
    return ok(Obj("regex", rx=compile_rx(s)))


@simple("regex::Regex::is_match")
def _(p, s):
    return match_from(rx_obj(p), els_of(text(s)), 0) is not None


@simple("regex::Regex::captures")
def _(p, s):
    rx, e = rx_obj(p), els_of(text(s))
    r = match_from(rx, e, 0)
    return none() if r is None else some(caps_obj(rx, e, r))


@simple("regex::Regex::find")
def _(p, s):
    rx, e = rx_obj(p), els_of(text(s))
    r = match_from(rx, e, 0)
    return none() if r is None else some(mk_match(e, r[0], r[1]))


def all_matches(rx, e, limit=None):
    out, k = [], 0
    last = -1
    while k <= len(e) and (limit is None or len(out) < limit):
        r = match_from(rx, e, k)
        if r is None:
            break
        if r[1] == r[0]:
            if r[0] != last:
                out.append(r)
            k = r[1] + 1
        else:
            out.append(r)
            k = r[1]
        last = r[1]
    return out


@simple("regex::Regex::captures_iter")
def _(p, s):
    rx, e = rx_obj(p), els_of(text(s))
    l = [caps_obj(rx, e, r) for r in all_matches(rx, e)]
    return models.SeqIt(l, 0, len(l), models.by_val)


@simple("regex::Regex::find_iter")
def _(p, s):
    rx, e = rx_obj(p), els_of(text(s))
    l = [mk_match(e, r[0], r[1]) for r in all_matches(rx, e)]
    return models.SeqIt(l, 0, len(l), models.by_val)


def do_replace(ctx, limit):
    m = ctx.m
    targs = ctx.targs
    rt = ctx.ins[2] if len(ctx.ins) > 2 else None
    limit = limit if limit != "n" else None

    def f(p, s, r):
        rx, e = rx_obj(p), els_of(text(s))
        ty = m.ty(rt)
        while ty["k"] == "ref":
            ty = m.ty(ty["elem"])
        lit = None
        if ty["k"] != "closure" and ty["k"] not in ("fndef", "fnptr"):
            noexp = ty["k"] == "adt" and ty["path"].endswith("NoExpand")
            lit = text(r.f[0] if noexp else r)
        out, k = [], 0
        for q in all_matches(rx, e, limit):
            out += e[k:q[0]]
            if lit is not None:
                out.append(lit if noexp else expand(caps_obj(rx, e, q), lit))
            else:
                out.append(text(m.call_value(r, rt, [Ptr([caps_obj(rx, e, q)], 0)])))
            k = q[1]
        if not out and k == 0:
            return Agg(0, [text(s)])
        out += e[k:]
        return Agg(1, [StringObj(mks(out))])
    return f


def expand(c, tpl):
    """the replacement text with its $name and ${name} put in"""
    if tpl.__class__ is not str:
        if strs.contains(tpl, strs.Pat("lit", "$")):
            raise Unsupported("regex: replacement with a group reference")
        return tpl
    out, k = [], 0
    for q in re.finditer(r"\$(?:(\$)|(\w+)|\{([^}]*)\})", tpl):
        out.append(tpl[k:q.start()])
        k = q.end()
        if q.group(1):
            out.append("$")
            continue
        n = q.group(2) or q.group(3) or ""
        g = int(n) if n.isdigit() else c.rx.names.get(n)
        if g is not None and g < len(c.groups) and c.groups[g] is not None:
            out.append(c.groups[g].s)
    return mks(out + [tpl[k:]])


FN["regex::Regex::replace_all"] = lambda ctx: do_replace(ctx, None)
FN["regex::Regex::replace"] = lambda ctx: do_replace(ctx, 1)


@simple("regex::Captures::name")
def _(p, n):
    c = V(p)
    g = c.rx.names.get(text(n))
    if g is None or c.groups[g] is None:
        return none()
    return some(c.groups[g])


@simple("regex::Captures::get")
def _(p, n):
    c = V(p)
    if n >= len(c.groups) or c.groups[n] is None:
        return none()
    return some(c.groups[n])


@simple("regex::Captures::len")
def _(p):
    return len(V(p).groups)


def index(p, n):
    c = V(p)
    g = n if n.__class__ is int else c.rx.names.get(text(n))
    if g is None or g >= len(c.groups) or c.groups[g] is None:
        raise Panic("no group %s" % (n,))
    return c.groups[g].s


@fn("std::ops::Index::index")
def _(ctx, old=FN["std::ops::Index::index"]):
    ty = ctx.m.ty(ctx.targs[0])
    if ty["k"] == "adt" and ty["path"] in ("regex::Captures", "regex::regex::string::Captures"):
        return index
    return old(ctx)


@simple("regex::Match::as_str")
def _(p):
    return V(p).s


def at(o, k):
    return strs.byte_len(mks(o.els[:k]))


@simple("regex::Match::start")
def _(p):
    return at(V(p), V(p).i)


@simple("regex::Match::end")
def _(p):
    return at(V(p), V(p).j)


@simple("regex::Match::range")
def _(p):
    o = V(p)
    return Agg(0, [at(o, o.i), at(o, o.j)])


@simple("regex::Match::len")
def _(p):
    return strs.byte_len(V(p).s)


@simple("regex::Captures::get_match")
def _(p):
    return V(p).groups[0]


@simple("regex::Captures::iter")
def _(p):
    l = [none() if g is None else some(g) for g in V(p).groups]
    return models.SeqIt(l, 0, len(l), models.by_val)


@simple("regex::Captures::extract")
def _(p):
    gs = V(p).groups
    if any(g is None for g in gs[1:]):
        raise Panic("a group did not take part in the match")
    return Agg(0, [gs[0].s, Agg(0, [g.s for g in gs[1:]])])


@simple("regex::Captures::expand")
def _(p, tpl, dst):
    d = V(dst)
    d.s = cat(d.s, expand(V(p), text(tpl)))
    return UNIT


@simple("regex::Regex::split", "regex::Regex::splitn")
def _(p, s, n=None):
    rx, e = rx_obj(p), els_of(text(s))
    out, k = [], 0
    for r in all_matches(rx, e, None if n is None else max(n - 1, 0)):
        out.append(mks(e[k:r[0]]))
        k = r[1]
    out.append(mks(e[k:]))
    if n == 0:
        out = []
    return models.lit_iter(out)


@simple("regex::Regex::as_str")
def _(p):
    raise Unsupported("text of a regex")


@simple("regex::Match::is_empty")
def _(p):
    return strs.is_empty(V(p).s)


@simple("regex::escape")
def _(s):
    s = text(s)
    if s.__class__ is not str:
        raise Unsupported("regex: symbolic escape")
    return StringObj(re.sub(r"([\\.+*?()|\[\]{}^$#&\-~])", r"\\\1", s))
