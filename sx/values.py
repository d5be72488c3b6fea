"""Runtime values of the symbolic executor.

Integers, booleans and characters are Python ints/bools when concrete and z3
bit-vectors / Bools when symbolic.  Strings are Python str when concrete and
`S` (a sequence of literal and symbolic parts) otherwise."""
import z3


class Unsupported(Exception):
    """Construct outside the executor's reach: the check gives no verdict."""


class Opaque(Unsupported):
    """The code looks inside a text that is kept opaque: the exploration starts again with texts of
    that origin written out (m.text). hints: their origins; lit: what the code looks for in them."""

    def __init__(self, msg, *els, lit=None):
        super().__init__("%s %s" % (msg, " ".join(map(repr, els))))
        self.hints = [h for h in map(hint_of, els) if h]
        self.lit = lit if lit.__class__ is str and 1 < len(lit) < 16 and lit.isascii() else None


def hint_of(a):
    if a.__class__ is not Atom:
        return None
    while a.origin is not None and a.origin[0] in ("replace", "lower"):
        a = a.origin[1]
    n = a.name
    while n.startswith(("rest!", "pad0!", "pad-1!")):
        n = n.split("!", 1)[1]
    for c in "!#:":
        n = n.split(c)[0]
    return n


class Panic(Exception):
    """The executed Rust code panics."""

    def __init__(self, msg, line=None):
        Exception.__init__(self, msg)
        self.msg, self.line = msg, line


class Infeasible(Exception):
    """Current path turned out infeasible (assume failed)."""


class Exit(Exception):
    """std::process::exit."""

    def __init__(self, code):
        self.code = code


class Agg:
    """struct / tuple / enum / closure / array value. `v` is the variant index."""
    __slots__ = ("v", "f")

    def __init__(self, v, f):
        self.v, self.f = v, f

    def __repr__(self):
        return "<%s %r>" % (self.v, self.f)


class LazyEnum(Agg):
    """Enum whose variant has not been decided. tag: z3 Int; alts: {variant: thunk->fields}"""
    __slots__ = ("tag", "alts", "thunk", "pay")

    def __init__(self, tag, alts, pay):
        # pay: {variant: [fields]} (fields generated eagerly, guarded by the tag)
        self.v, self.f, self.tag, self.alts, self.pay = None, None, tag, alts, pay


class Ptr:
    """Thin reference/raw pointer: slot i of list c."""
    __slots__ = ("c", "i")

    def __init__(self, c, i):
        self.c, self.i = c, i

    def __repr__(self):
        try:
            return "&%r" % (self.c[self.i],)
        except Exception:
            return "&?"


class BoxV:
    __slots__ = ("c",)

    def __init__(self, v):
        self.c = [v]

    def __repr__(self):
        return "Box(%r)" % (self.c[0],)


class SliceRef:
    __slots__ = ("l", "s", "n")

    def __init__(self, l, s, n):
        self.l, self.s, self.n = l, s, n

    def __repr__(self):
        return "&%r" % (self.l[self.s:self.s + self.n],)


class TextBytes(list):
    """the bytes of a text the code has not looked at one by one"""
    __slots__ = ("s",)

    def __init__(self, s):
        self.s = s

    def _no(self, *a):
        raise Opaque("bytes of symbolic text", *[e for e in sparts(self.s) if e.__class__ is Atom])

    __len__ = __iter__ = __getitem__ = __setitem__ = __delitem__ = __contains__ = __eq__ = append = extend = insert = pop = clear = sort = copy = _no

    def __repr__(self):
        return "bytes of %r" % (self.s,)


class DynRef:
    """&dyn Trait / Box<dyn Trait>: data pointer plus concrete type id."""
    __slots__ = ("p", "ty")

    def __init__(self, p, ty):
        self.p, self.ty = p, ty


class FnVal:
    __slots__ = ("fn",)

    def __init__(self, fn):
        self.fn = fn


class StringObj:
    __slots__ = ("s",)

    def __init__(self, s):
        self.s = s

    def __repr__(self):
        return "S%r" % (self.s,)


class VecObj:
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = items

    def __repr__(self):
        return "vec%r" % (self.items,)


class MapObj:
    """HashMap / HashSet (value = unit). entries: list of [key, value]."""
    __slots__ = ("entries", "order", "kind")

    def __init__(self, entries=None, kind="hash"):
        self.entries, self.order, self.kind = entries if entries is not None else [], None, kind

    def __repr__(self):
        return "map%r" % (self.entries,)


class Obj:
    """Opaque model object (iterators, environment handles...)."""

    def __init__(self, kind, **kw):
        self.kind = kind
        self.__dict__.update(kw)

    def __repr__(self):
        return "<%s>" % self.kind


UNIT = Agg(0, [])


def unit():
    return UNIT


def some(x):
    return Agg(1, [x])


def none():
    return Agg(0, [])


def ok(x):
    return Agg(0, [x])


def err(x):
    return Agg(1, [x])


# ---------------------------------------------------------------- strings

ASCII = frozenset(range(128))
ALLCH = frozenset(range(129))  # 128 stands for every non-ASCII character
WS = frozenset([9, 10, 11, 12, 13, 32])
WORD = frozenset([c for c in range(128) if chr(c).isalnum() or c == 95])
DIGIT = frozenset(range(48, 58))
NOCHARS = frozenset()


class Atom:
    """Opaque string of unknown content: z3 Int `id` (equality of ids = equality of
    contents), `cs` the set of characters it may contain, `ne` non-empty."""
    __slots__ = ("id", "cs", "ne", "name", "trim", "first", "kind", "grp", "origin")

    def __init__(self, name, cs=WORD, ne=True, trim=True, first=None, kind=None, grp=None, origin=None, id=None):
        self.id = z3.Int(name) if id is None else id
        # kind: what the text stands for; grp: atoms of one group are pairwise different;
        # origin: ("replace", atom, from, to) for text derived from another atom
        self.kind, self.grp, self.origin = kind, grp, origin
        self.name, self.cs, self.ne, self.trim = name, cs, ne, trim
        self.first = first if first is not None else cs

    def __repr__(self):
        return "<%s>" % self.name


class Ch:
    """One symbolic character (32-bit bit-vector)."""
    __slots__ = ("e", "w")

    def __init__(self, e, w=1):
        self.e, self.w = e, w  # w: utf8 width (1: constrained to ASCII)

    def __repr__(self):
        return "<ch %s>" % self.e


class Num:
    """Decimal rendering of a symbolic integer."""
    __slots__ = ("e", "signed")

    def __init__(self, e, signed):
        self.e, self.signed = e, signed

    def __repr__(self):
        return "<num %s>" % self.e


class S:
    __slots__ = ("p",)

    def __init__(self, p):
        self.p = p

    def __repr__(self):
        return "`" + "".join(x if isinstance(x, str) else repr(x) for x in self.p) + "`"


def mks(parts):
    out = []
    for x in parts:
        if x.__class__ is str:
            if x:
                if out and out[-1].__class__ is str:
                    out[-1] += x
                else:
                    out.append(x)
        elif x.__class__ is S:
            for y in x.p:
                if y.__class__ is str and out and out[-1].__class__ is str:
                    out[-1] += y
                else:
                    out.append(y)
        else:
            out.append(x)
    if not out:
        return ""
    if len(out) == 1 and out[0].__class__ is str:
        return out[0]
    return S(tuple(out))


def sparts(s):
    if s.__class__ is str:
        return (s,) if s else ()
    return s.p


def cat(a, b):
    if a.__class__ is str and b.__class__ is str:
        return a + b
    return mks(sparts(a) + sparts(b))


# literal ids: literals get negative-free unique Int constants shared by atoms
_lit_ids = {}
_lit_rev = {}


def lit_id(s):
    k = _lit_ids.get(s)
    if k is None:
        k = 1000 + len(_lit_ids)
        _lit_ids[s] = k
        _lit_rev[k] = s
    return k


def part_char_ok(cs, ch):
    o = ord(ch)
    return (o if o < 128 else 128) in cs


def _norm(p):
    return [x for x in p if not (x.__class__ is str and not x)]


def z3and(cs):
    cs = [c for c in cs if c is not True]
    for c in cs:
        if c is False:
            return False
    if not cs:
        return True
    if len(cs) == 1:
        return cs[0]
    return z3.And(*cs)


def z3or(cs):
    cs = [c for c in cs if c is not False]
    for c in cs:
        if c is True:
            return True
    if not cs:
        return False
    if len(cs) == 1:
        return cs[0]
    return z3.Or(*cs)


def z3not(c):
    if c is True:
        return False
    if c is False:
        return True
    return z3.Not(c)


def implies(a, b):
    return z3or([z3not(a), b])


def iff(a, b):
    if a is True:
        return b
    if b is True:
        return a
    if a is False:
        return z3not(b)
    if b is False:
        return z3not(a)
    return a == b


def atom_is_lit(a, lit):
    """condition: atom equals literal text"""
    if lit == "":
        if a.ne:
            return False
        return a.id == lit_id("")
    for i, ch in enumerate(lit):
        if not part_char_ok(a.cs if i else a.first, ch):
            return False
    if a.trim and (lit != lit.strip()):
        return False
    return a.id == lit_id(lit)


def str_eq(a, b):
    """-> True / False / z3 Bool"""
    if a.__class__ is str and b.__class__ is str:
        return a == b
    if a is b:
        return True
    A = list(sparts(a))
    B = list(sparts(b))
    conds = []
    r = _eq_strip(A, B, conds, False)
    if r is False:
        return False
    r = _eq_strip(A, B, conds, True)
    if r is False:
        return False
    if not A and not B:
        return z3and(conds)
    r = _eq_core(A, B)
    if r is None:
        raise Unsupported("string equality %r == %r" % (a, b))
    conds.append(r)
    return z3and(conds)


def _eq_strip(A, B, conds, rev):
    """strip equal prefixes (suffixes when rev) in place; False when certainly different"""
    k = -1 if rev else 0

    def setp(L, v):
        L[k] = v

    def pop(L):
        L.pop(k)

    while A and B:
        x, y = A[k], B[k]
        if x.__class__ is str and y.__class__ is str:
            n = min(len(x), len(y))
            if rev:
                if x[-n:] != y[-n:]:
                    return False
                xr, yr = x[:-n], y[:-n]
            else:
                if x[:n] != y[:n]:
                    return False
                xr, yr = x[n:], y[n:]
            if xr:
                setp(A, xr)
            else:
                pop(A)
            if yr:
                setp(B, yr)
            else:
                pop(B)
            continue
        if x.__class__ is Ch or y.__class__ is Ch:
            if x.__class__ is str or y.__class__ is str:
                c, l, L, C = (y, x, A, B) if x.__class__ is str else (x, y, B, A)
                ch = l[-1] if rev else l[0]
                if c.w == 1 and ord(ch) >= 128:
                    return False
                conds.append(c.e == ord(ch))
                rest = l[:-1] if rev else l[1:]
                if rest:
                    setp(L, rest)
                else:
                    pop(L)
                pop(C)
                continue
            if x.__class__ is Ch and y.__class__ is Ch:
                if x.e is not y.e:
                    conds.append(x.e == y.e)
                pop(A)
                pop(B)
                continue
            return None
        if x is y:
            pop(A)
            pop(B)
            continue
        if x.__class__ is Atom and y.__class__ is Atom and x.name == y.name:
            pop(A)
            pop(B)
            continue
        if x.__class__ is Num and y.__class__ is Num and x.e.eq(y.e):
            pop(A)
            pop(B)
            continue
        # delimited tokens
        r = _eq_token(A, B, rev)
        if r is None:
            return None
        if r is False:
            return False
        conds.append(r)
    return True


def _delim(L, rev):
    """next literal character after the head part of L; '' at the end; None if unknown"""
    k = -2 if rev else 1
    if len(L) < 2:
        return ""
    n = L[k]
    if n.__class__ is str:
        return n[-1] if rev else n[0]
    return None


def _cs(x):
    if x.__class__ is Atom:
        return x.cs
    if x.__class__ is Num:
        return DIGIT | frozenset([45])
    return None


def _eq_token(A, B, rev):
    k = -1 if rev else 0
    x, y = A[k], B[k]
    if x.__class__ is not str and y.__class__ is not str:
        dx, dy = _delim(A, rev), _delim(B, rev)
        if dx is None or dy is None:
            return None
        cx, cy = _cs(x), _cs(y)
        if (dx == "" and dy == "") or ((dx == "" or not part_char_ok(cy, dx)) and (dy == "" or not part_char_ok(cx, dy))
                                       and dx != "" and dy != ""):
            A.pop(k)
            B.pop(k)
            return part_eq(x, y)
        if dx == "" and dy != "" and not part_char_ok(cx, dy):
            return False
        if dy == "" and dx != "" and not part_char_ok(cy, dx):
            return False
        return None
    if x.__class__ is str:
        t, l, T, L = y, x, B, A
    else:
        t, l, T, L = x, y, A, B
    d = _delim(T, rev)
    if d is None:
        return None
    cs = _cs(t)
    # maximal run of characters in cs at this end of the literal
    n = len(l)
    run = 0
    if rev:
        while run < n and part_char_ok(cs, l[n - 1 - run]):
            run += 1
    else:
        while run < n and part_char_ok(cs, l[run]):
            run += 1
    whole = run == n
    if d != "" and part_char_ok(cs, d):
        return None
    if whole and len(L) > 1:
        nxt = _delim(L, rev)
        return None
    # token must be exactly the run, when followed by delimiter d or by the end
    tok = (l[n - run:] if rev else l[:run])
    if d == "" and not whole:
        return False
    T.pop(k)
    rest = (l[:n - run] if rev else l[run:])
    if rest:
        L[k] = rest
    else:
        L.pop(k)
    return part_is_lit(t, tok)


def part_is_lit(t, lit):
    if t.__class__ is Atom:
        return atom_is_lit(t, lit)
    if t.__class__ is Num:
        try:
            v = int(lit)
        except ValueError:
            return False
        if str(v) != lit:
            return False
        w = t.e.size()
        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if t.signed else (0, (1 << w) - 1)
        if not lo <= v <= hi:
            return False
        return t.e == v
    raise Unsupported("part_is_lit")


def part_eq(x, y):
    if x.__class__ is Atom and y.__class__ is Atom:
        if x.name == y.name:
            return True
        if x.grp is not None and x.grp == y.grp:
            return False
        return x.id == y.id
    if x.__class__ is Num and y.__class__ is Num:
        if x.e.size() == y.e.size() and x.signed == y.signed:
            return x.e == y.e
        ex = z3.BV2Int(x.e, x.signed)
        ey = z3.BV2Int(y.e, y.signed)
        return ex == ey
    if x.__class__ is Num:
        x, y = y, x
    if y.__class__ is Ch:
        x, y = y, x
    if x.__class__ is Ch and y.__class__ is Atom:
        return y.id == composite_id([x])
    if x.__class__ is Ch:
        raise Unsupported("character/number comparison")
    if not (x.cs & (DIGIT | frozenset([45]))):
        return False
    raise Unsupported("atom/number comparison")


def _eq_core(A, B):
    if not A or not B:
        R = A or B
        # all remaining parts must be empty
        c = []
        for x in R:
            if x.__class__ is Atom and not x.ne:
                c.append(x.id == lit_id(""))
            else:
                return False
        return z3and(c)
    if len(A) == 1 and len(B) == 1 and A[0].__class__ is not str and B[0].__class__ is not str:
        return part_eq(A[0], B[0])
    for X, Y in ((A, B), (B, A)):
        if len(X) == 1 and X[0].__class__ is Atom:
            if all(y.__class__ is str for y in Y):
                return atom_is_lit(X[0], "".join(Y))
            # literal pieces on the other side incompatible with the atom's alphabet
            for y in Y:
                if y.__class__ is str and not all(part_char_ok(X[0].cs, ch) for ch in y):
                    return False
        if len(X) == 1 and X[0].__class__ is Num:
            if all(y.__class__ is str for y in Y):
                return part_is_lit(X[0], "".join(Y))
            for y in Y:
                if y.__class__ is str and not all(part_char_ok(_cs(X[0]), ch) for ch in y):
                    return False
    # minimal length argument: a literal character absent from the other side
    for X, Y in ((A, B), (B, A)):
        if all(y.__class__ is not str for y in Y):
            for x in X:
                if x.__class__ is str:
                    for ch in x:
                        if not any(part_char_ok(_cs(y) or ALLCH, ch) for y in Y):
                            return False
    for X, Y in ((A, B), (B, A)):
        if len(X) == 1 and X[0].__class__ is Atom and X[0].ne and any(y.__class__ is not str and getattr(y, "ne", True) for y in Y):
            return X[0].id == composite_id(Y)
    for X, Y in ((A, B), (B, A)):
        if all(y.__class__ is str for y in Y) and len(X) > 1 and any(x.__class__ is not str and getattr(x, "ne", True) for x in X):
            return composite_id(X) == lit_id("".join(Y))
    return None


composites = {}


def composite_id(parts):
    """identity of a text put together from several parts (not related to the identities of other texts: the solver may
    choose texts equal that no characters make equal, never the other way round)"""
    key = "cat!" + "|".join(p.__repr__() if p.__class__ is str else p.id.sexpr() if p.__class__ is Atom else p.e.sexpr() for p in parts)
    r = composites.get(key)
    if r is None:
        r = composites[key] = (z3.Int(key), tuple(parts))
    return r[0]
