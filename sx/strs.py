"""Operations on concrete / symbolic strings."""
import z3
from values import *
import core


def M():
    return core.M


def explode(s):
    out = []
    for p in sparts(s):
        if p.__class__ is str:
            out.extend(p)
        else:
            out.append(p)
    return out


def byte_len(s):
    if s.__class__ is str:
        return len(s.encode())
    n = 0
    m = M()
    for p in s.p:
        if p.__class__ is str:
            n += len(p.encode())
        elif p.__class__ is Ch:
            n += p.w
        else:
            k = str(p)
            e = m.lens.get(k)
            if e is None:
                e = m.lens[k] = z3.BitVec("len!%s" % k, 64)
                lo = 1 if (p.__class__ is Num or p.ne) else 0
                m.add(z3.ULE(e, 1 << 20))
                m.add(z3.UGE(e, lo))
                if lo == 0:
                    m.add((e == 0) == (p.id == lit_id("")))
            n = n + e
    return n


def is_empty(s):
    if s.__class__ is str:
        return s == ""
    c = []
    for p in s.p:
        if p.__class__ is Atom and not p.ne:
            c.append(p.id == lit_id(""))
        else:
            return False
    return z3and(c)


def el_in(el, cs):
    """is every character of this element in cs (True) / none (False); forks for symbolic chars;
    None when undetermined (an opaque part mixing both)"""
    if el.__class__ is str:
        return part_char_ok(cs, el)
    if el.__class__ is Ch:
        return M().branch(ch_in(el, cs))
    acs = el.cs if el.__class__ is Atom else (DIGIT | {45} if el.signed else DIGIT)
    if acs <= cs:
        return True
    if not (acs & cs):
        return False
    return None


def ch_in(c, cs):
    if cs >= ALLCH:
        return True
    if not cs:
        return False
    pos = cs
    neg = False
    if 128 in cs:
        pos = ALLCH - cs
        neg = True
    conds = []
    pos = sorted(pos)
    i = 0
    while i < len(pos):
        j = i
        while j + 1 < len(pos) and pos[j + 1] == pos[j] + 1:
            j += 1
        a, b = pos[i], pos[j]
        if a == b:
            conds.append(c.e == a)
        elif a == 0:
            conds.append(z3.ULE(c.e, b))
        else:
            conds.append(z3.And(z3.UGE(c.e, a), z3.ULE(c.e, b)))
        i = j + 1
    r = z3or(conds)
    return z3not(r) if neg else r


UWS = [0x85, 0xA0, 0x1680] + list(range(0x2000, 0x200B)) + [0x2028, 0x2029, 0x202F, 0x205F, 0x3000]


def ch_is_ws(c):
    r = ch_in(c, WS)
    if c.w > 1:
        r = z3or([r] + [c.e == u for u in UWS])
    return r


def el_ws(el):
    if el.__class__ is str:
        return el.isspace() and el not in "\x1c\x1d\x1e\x1f"
    if el.__class__ is Ch:
        return M().branch(ch_is_ws(el))
    if el.__class__ is Num:
        return False
    return None


def trim(s, left=True, right=True):
    if s.__class__ is str:
        ws = "".join(chr(c) for c in WS) + "".join(map(chr, UWS))
        if left:
            s = s.lstrip(ws)
        if right:
            s = s.rstrip(ws)
        return s
    e = explode(s)
    if left:
        trim_end(e, 0)
    if right:
        trim_end(e, -1)
    return mks(e)


def trim_end(e, k):
    while e:
        x = e[k]
        r = el_ws(x)
        if r is None:
            if M().branch(is_empty(mks([x]))):
                e.pop(k)
                continue
            if not x.trim and (x.cs & WS or 128 in x.cs):
                e[k] = padding(x, k)
            return
        if not r:
            return
        e.pop(k)


def padding(a, k):
    """an opaque text without the white space it may have at its start (k = 0) or end (k = -1): none, or one character"""
    m = M()
    key = "pad%d!%s" % (k, a.name)
    t = m.splits.get(key)
    if t is None:
        if not m.branch(z3.Bool(key)):
            t = Atom(a.name, cs=a.cs, ne=a.ne, trim=False, first=a.first, kind=a.kind, grp=a.grp, origin=a.origin, id=a.id)
            m.splits[key] = t
            return t
        c = Ch(z3.BitVec("ws!" + key, 32), 1)
        m.add(ch_in(c, WS & (a.cs if k else a.first)))
        t = Atom("rest!%s" % key, cs=a.cs, ne=False, trim=True, first=a.first if k else a.cs, kind=a.kind)
        m.splits[key] = t
        m.add(a.id == composite_id([t, c] if k else [c, t]))
    return t


class Pat:
    """string pattern: kind 'set' (per character predicate) or 'lit'"""

    def __init__(self, kind, v):
        self.kind, self.v = kind, v

    def el(self, e):
        """does element match (single character patterns)"""
        if self.kind == "set":
            r = el_in(e, self.v)
        else:
            f = self.v
            if e.__class__ is str:
                return M().branch(f(ord(e)))
            if e.__class__ is Ch:
                return M().branch(f(e.e))
            cs = e.cs if e.__class__ is Atom else DIGIT | {45}
            rs = set(bool(M().branch(f(c))) for c in cs if c < 128)
            r = rs.pop() if len(rs) == 1 else None
        if r is None:
            raise Opaque("pattern on opaque text", e)
        return r


def pat_of(m, v, tid):
    """Pattern argument -> Pat"""
    t = m.ty(tid)
    if t["k"] == "char":
        if v.__class__ is int:
            if v < 128:
                return Pat("set", frozenset([v]))
            return Pat("lit", chr(v))
        return Pat("lit", mks([Ch(v, 4)]))
    if t["k"] in ("ref", "ptr"):
        e = m.ty(t["elem"])
        if e["k"] == "str":
            if v.__class__ is str and len(v) == 1 and ord(v) < 128:
                return Pat("set", frozenset([ord(v)]))
            return Pat("lit", v)
        x = core.deref(v) if v.__class__ is Ptr else v
        if x.__class__ is StringObj:
            return pat_of(m, x.s, m.c.req("mkref", m.prim("str")))
        if x.__class__ is SliceRef:
            l = x.l[x.s:x.s + x.n]
            return Pat("set", frozenset(m.concretize(c) for c in l))
        if e["k"] in ("ref", "char"):
            return pat_of(m, x, t["elem"])
        if e["k"] == "array":
            return Pat("set", frozenset(m.concretize(c) for c in x.f))
    if t["k"] == "array":
        return Pat("set", frozenset(m.concretize(c) for c in v.f))
    if t["k"] in ("closure", "fndef", "fnptr"):
        return Pat("fn", lambda c: m.call_value(v, tid, [c]))
    raise Unsupported("pattern type " + t["name"])


def match_lit_at(e, i, pat):
    """does literal element list pat occur at e[i:]? forks on symbolic chars."""
    if pat and all(p.__class__ is str for p in pat):
        pass
    k = 0
    n = len(pat)
    if i + n > len(e) and all(x.__class__ in (str, Ch) for x in e[i:]):
        return False
    # cheap refutation first
    conds = []
    j = i
    while k < n:
        if j >= len(e):
            return False
        x, p = e[j], pat[k]
        if x.__class__ is str and p.__class__ is str:
            if x != p:
                return False
        elif x.__class__ in (str, Ch) and p.__class__ in (str, Ch):
            c = str_eq(mks([x]), mks([p]))
            if c is False:
                return False
            if c is not True:
                conds.append(c)
        elif x is p:
            pass
        elif x.__class__ is Atom and p.__class__ is Atom:
            raise Opaque("pattern over opaque text", x, lit=mks(pat))
        else:
            # opaque text against a literal character
            a, l = (x, p) if x.__class__ is not str else (p, x)
            if l.__class__ is str and a.__class__ in (Atom, Num):
                acs = a.cs if a.__class__ is Atom else DIGIT | {45}
                first = a.first if a.__class__ is Atom else acs
                if not part_char_ok(first, l) and (a.__class__ is Num or a.ne):
                    return False
            raise Opaque("pattern over opaque text", a, lit=mks(pat))
        j += 1
        k += 1
    return M().branch(z3and(conds))


def find_all(s, pat):
    """yield (start, end) element positions of non-overlapping matches; returns (elements, list)"""
    e = explode(s)
    out = []
    i = 0
    if pat.kind == "lit":
        p = explode(pat.v)
        if not p:
            raise Unsupported("empty pattern")
        pcs = None
        if all(x.__class__ is str for x in p):
            pcs = frozenset(min(ord(x), 128) for x in p)
        while i < len(e):
            x = e[i]
            if x.__class__ in (Atom, Num):
                acs = x.cs if x.__class__ is Atom else DIGIT | {45}
                if pcs is not None and not (acs & pcs):
                    i += 1
                    continue
                if pcs is not None and len(p) > 1 and _no_overlap(e, i, p, acs):
                    i += 1
                    continue
                raise Opaque("search in opaque text", x, lit=pat.v)
            if match_lit_at(e, i, p):
                out.append((i, i + len(p)))
                i += len(p)
            else:
                i += 1
        return e, out
    while i < len(e):
        if pat.el(e[i]):
            if e[i].__class__ in (Atom, Num):
                raise Opaque("character search inside opaque text", e[i])
            out.append((i, i + 1))
        i += 1
    return e, out


def _no_overlap(e, i, p, acs):
    """no occurrence of literal p can overlap opaque element e[i]"""
    def inn(ch):
        return part_char_ok(acs, ch)
    n = len(p)
    nxt = e[i + 1] if i + 1 < len(e) else None
    prv = e[i - 1] if i > 0 else None
    if all(inn(c) for c in p):
        return False
    for k in range(n):
        # p[k:] begins inside atom ... p[:k] before the atom (suffix of previous), atom matches p[k:k2]
        for k2 in range(k + 1, n + 1):
            if not all(inn(c) for c in p[k:k2]):
                break
            okp = k == 0 or (prv is not None and (prv.__class__ is not str or prv == p[k - 1]))
            okn = k2 == n or (nxt is not None and (nxt.__class__ is not str or nxt == p[k2]))
            if okp and okn:
                return False
    return True


def split(s, pat, limit=None):
    e, ms = find_all(s, pat)
    if limit is not None:
        ms = ms[:limit - 1]
    out, p = [], 0
    for a, b in ms:
        out.append(mks(e[p:a]))
        p = b
    out.append(mks(e[p:]))
    return out


def derived_atom(a, frm, to):
    """text of `a` with every occurrence of the character `frm` replaced by `to`"""
    m = M()
    name = "replace(%s,%r,%r)" % (a.name, frm, to)
    r = m.atoms.get(name)
    if r is None:
        f = z3.Function("replace:%r:%r" % (frm, to), z3.IntSort(), z3.IntSort())
        cs = (a.cs - {ord(frm)}) | {min(ord(c), 128) for c in to}
        r = Atom(name, cs=cs, ne=a.ne and bool(to), trim=a.trim and not (WS & {ord(c) for c in to}),
                 kind=a.kind, origin=("replace", a, frm, to), id=f(a.id))
        m.atoms[name] = r
    return r


def replace(s, pat, to):
    fr = None
    if pat.kind == "lit" and pat.v.__class__ is str and len(pat.v) == 1:
        fr = pat.v
    elif pat.kind == "set" and len(pat.v) == 1 and 128 not in pat.v:
        fr = chr(min(pat.v))
    if s.__class__ is S and fr is not None and to.__class__ is str and ord(fr) < 128 \
            and any(x.__class__ is Atom and ord(fr) in x.cs for x in s.p):
        out = []
        for x in s.p:
            if x.__class__ is Atom and ord(fr) in x.cs:
                out.append(derived_atom(x, fr, to))
            else:
                out.append(replace(mks([x]), pat, to))
        return mks(out)
    e, ms = find_all(s, pat)
    out, p = [], 0
    for a, b in ms:
        out += e[p:a]
        out += explode(to)
        p = b
    out += e[p:]
    return mks(out)


def contains(s, pat):
    if pat.kind == "lit" and pat.v == "":
        return True
    return bool(find_all(s, pat)[1])


def starts_with(s, pat):
    """-> remaining string or None"""
    e = explode(s)
    if pat.kind == "lit":
        p = explode(pat.v)
        if not p:
            return s
        while e and e[0].__class__ is Atom and not e[0].ne and M().branch(is_empty(mks([e[0]]))):
            e.pop(0)
        if match_lit_at(e, 0, p):
            return mks(e[len(p):])
        return None
    while e and e[0].__class__ is Atom and not e[0].ne and M().branch(is_empty(mks([e[0]]))):
        e.pop(0)
    if not e:
        return None
    x = e[0]
    if x.__class__ is Atom and pat.kind == "set" and not (x.first & pat.v):
        return None
    if pat.el(x):
        if x.__class__ in (Atom, Num):
            raise Opaque("prefix inside opaque text", x)
        return mks(e[1:])
    return None


SUFFIXLESS = set()   # kinds of text assumed not to end in a file extension


def ends_with(s, pat):
    e = explode(s)
    while e and e[-1].__class__ is Atom and not e[-1].ne and M().branch(is_empty(mks([e[-1]]))):
        e.pop()
    if pat.kind == "lit":
        p = explode(pat.v)
        if not p:
            return s
        n = len(p)
        # trailing elements
        i, k = len(e) - 1, n - 1
        conds = []
        while k >= 0:
            if i < 0:
                return None
            x, q = e[i], p[k]
            if x.__class__ in (Atom, Num) and q.__class__ is str:
                acs = x.cs if x.__class__ is Atom else DIGIT
                if not part_char_ok(acs, q):
                    return None
                j = k
                while j > 0 and part_char_ok(acs, p[j - 1]):
                    j -= 1
                if j == 0:
                    if x.__class__ is Num:
                        raise Opaque("suffix of opaque text", x, lit=pat.v)
                    if M().branch(z3and(conds + [part_is_lit(x, "".join(p[:k + 1]))])):
                        return mks(e[:i])
                    if x.kind in SUFFIXLESS:
                        return None
                    raise Opaque("suffix of opaque text", x, lit=pat.v)
                # the pattern goes on with a character that x lacks: x is exactly that part of it
                conds.append(part_is_lit(x, "".join(p[j:k + 1])))
                if i == 0 or z3and(conds) is False:
                    return None
                i -= 1
                k = j - 1
                continue
            c = str_eq(mks([x]), mks([q]))
            if c is False:
                return None
            conds.append(c)
            i -= 1
            k -= 1
        if M().branch(z3and(conds)):
            return mks(e[:i + 1])
        return None
    if not e:
        return None
    if pat.el(e[-1]):
        if e[-1].__class__ in (Atom, Num):
            raise Opaque("suffix inside opaque text", e[-1])
        return mks(e[:-1])
    return None


def trim_matches(s, pat, left=True, right=True):
    if left:
        while True:
            if s == "":
                return s
            if s.__class__ is S and pat.kind == "set" and s.p[0].__class__ is Atom and s.p[0].cs <= pat.v:
                raise Opaque("trim of opaque text", s.p[0])
            r = starts_with(s, pat)
            if r is None:
                break
            s = r
    if right:
        while True:
            if s == "":
                return s
            r = ends_with(s, pat)
            if r is None:
                break
            s = r
    return s


def lower_atom(a):
    m = M()
    name = "lower(%s)" % a.name
    r = m.atoms.get(name)
    if r is None:
        f = z3.Function("lower", z3.IntSort(), z3.IntSort())
        cs = frozenset(c + 32 if 65 <= c <= 90 else c for c in a.cs) | (frozenset((105, 107)) if 128 in a.cs else NOCHARS)
        r = Atom(name, cs=cs, ne=a.ne, trim=a.trim, kind=a.kind, origin=("lower", a), id=f(a.id))
        m.atoms[name] = r
    return r


def lower(s):
    if s.__class__ is str:
        return s.lower()
    out = []
    for x in explode(s):
        if x.__class__ is str:
            out.append(x.lower())
        elif x.__class__ is Ch:
            if x.w == 1:
                if M().branch(z3.And(x.e >= 65, x.e <= 90)):
                    out.append(Ch(z3.simplify(x.e + 32)))
                else:
                    out.append(x)
            else:
                # non-ASCII: lower-casing may change the byte length; decided by fork over
                # representative classes: unchanged, or a capital whose lower case is longer
                if M().branch(x.e == 0x130):
                    out.append("i\u0307")
                elif M().branch(ch_in(Ch(x.e), frozenset(range(65, 91)))):
                    out.append(Ch(z3.simplify(x.e + 32), x.w))
                else:
                    raise Unsupported("to_lowercase of arbitrary non-ASCII character")
        elif x.__class__ is Num:
            out.append(x)
        else:
            up = x.cs & frozenset(range(65, 91))
            if up or 128 in x.cs:
                out.append(lower_atom(x))
            out.append(x)
    return mks(out)


def boundary(e, a):
    """index k with byte length of e[:k] equal to the offset a, or None"""
    n = 0
    for k in range(len(e) + 1):
        if a.__class__ is int and n.__class__ is int:
            if a == n:
                return k
        else:
            d = z3.simplify(core.tobv(a, 64) - core.tobv(n, 64))
            if z3.is_bv_value(d) and d.as_long() == 0:
                return k
        if k < len(e):
            w = byte_len(mks([e[k]]))
            n = n + w
    return None


def uncons(a):
    """first character and rest of a non-empty opaque text"""
    m = M()
    r = m.splits.get(a.name)
    if r is None:
        e = z3.BitVec("first!" + a.name, 32)
        m.add(z3.And(z3.UGT(e, 0), z3.ULE(e, 0x10FFFF), z3.Or(z3.ULT(e, 0xD800), z3.UGT(e, 0xDFFF))))
        c = ch_in(Ch(e, 4), a.first)
        if c is not True:
            m.add(c)
        if a.trim:
            m.add(z3not(ch_is_ws(Ch(e, 4))))
        rest = Atom("rest!" + a.name, cs=a.cs, ne=False, trim=a.trim and not (a.cs & WS), kind=a.kind)
        r = m.splits[a.name] = (e, rest)
        m.add(a.id == composite_id([Ch(e, 4), rest]))
    return r


def slice_bytes(s, a, b):
    """s[a..b] by byte offsets; b None = to the end. Panics like Rust."""
    m = M()
    if s.__class__ is str:
        bs = s.encode()
        a = m.concretize(a)
        b = len(bs) if b is None else m.concretize(b)
        if a > b or b > len(bs):
            raise Panic("byte index out of bounds")
        for i in (a, b):
            if i < len(bs) and (bs[i] & 0xC0) == 0x80:
                raise Panic("byte index is not a char boundary")
        return bs[a:b].decode()
    e = explode(s)
    if a.__class__ is not int or (b is not None and b.__class__ is not int):
        # symbolic offsets: boundaries between parts, recognised by their byte length
        i = boundary(e, a)
        j = len(e) if b is None else boundary(e, b)
        if i is None or j is None:
            raise Opaque("string slice at symbolic offset", *e)
        if i > j:
            raise Panic("slice index order")
        return mks(e[i:j])
    out = []
    pos = 0
    i = 0
    started = False
    while True:
        if pos == a and not started:
            started = True
            start_i = i
        if b is not None and pos == b:
            if not started:
                raise Panic("slice index order")
            return mks(e[start_i:i])
        if i >= len(e):
            break
        x = e[i]
        if x.__class__ is str:
            w = len(x.encode())
        elif x.__class__ is Ch:
            w = x.w
        else:
            if started and b is None:
                return mks(e[start_i:])
            raise Opaque("string slice through opaque text", x)
        if pos < a < pos + w or (b is not None and pos < b < pos + w):
            raise Panic("byte index is not a char boundary")
        pos += w
        i += 1
    if not started or b is not None:
        raise Panic("byte index out of bounds")
    return mks(e[start_i:])


def num_text(v, signed):
    if v.__class__ in core.INTC:
        return str(int(v))
    return mks([Num(v, signed)])


def char_text(v):
    if v.__class__ is int:
        return chr(v)
    # width by fork
    m = M()
    if m.branch(z3.ULT(v, 128)):
        return mks([Ch(v, 1)])
    if m.branch(z3.ULT(v, 0x800)):
        return mks([Ch(v, 2)])
    if m.branch(z3.ULT(v, 0x10000)):
        return mks([Ch(v, 3)])
    return mks([Ch(v, 4)])


def rank(m, s):
    """integer term ordering strings; literals concrete relative order"""
    pass


def str_cmp(a, b):
    """-1/0/1, forking"""
    m = M()
    if a.__class__ is str and b.__class__ is str:
        x, y = a.encode(), b.encode()
        return -1 if x < y else (1 if x > y else 0)
    if m.branch(str_eq(a, b)):
        return 0
    A, B = explode(a), explode(b)
    i = 0
    while i < len(A) and i < len(B):
        x, y = A[i], B[i]
        if x.__class__ in (str, Ch) and y.__class__ in (str, Ch):
            if m.branch(str_eq(mks([x]), mks([y]))):
                i += 1
                continue
            ex = ord(x) if x.__class__ is str else x.e
            ey = ord(y) if y.__class__ is str else y.e
            if ex.__class__ is int and ey.__class__ is int:
                return -1 if ex < ey else 1
            ex, ey = core.tobv(ex, 32), core.tobv(ey, 32)
            return -1 if m.branch(z3.ULT(ex, ey)) else 1
        if x is y or (x.__class__ is Atom and y.__class__ is Atom and x.name == y.name):
            i += 1
            continue
        break
    ra, rb = mks(A[i:]), mks(B[i:])
    if ra == "":
        return -1
    if rb == "":
        return 1
    fa, fb = rank_term(m, ra), rank_term(m, rb)
    return -1 if m.branch(fa < fb) else 1


def rank_term(m, s):
    key = repr(s)
    if key not in m.ranks:
        t = z3.Int("rank!%s" % key)
        for k2, (s2, t2) in list(m.ranks.items()):
            if s.__class__ is str and s2.__class__ is str:
                m.add(t < t2 if s.encode() < s2.encode() else t > t2)
            else:
                try:
                    m.add(iff(str_eq(s, s2), t == t2))
                except Unsupported:
                    pass
        m.ranks[key] = (s, t)
        m.model = None
    return m.ranks[key][1]
