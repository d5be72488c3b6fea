"""Native iterators standing for the standard library's."""
from values import *
import core

END = object()


class It:
    def next(self):
        raise NotImplementedError

    def back(self):
        raise Unsupported("next_back on " + type(self).__name__)

    def clone(self):
        raise Unsupported("clone of " + type(self).__name__)

    def drain(self):
        out = []
        n = 0
        while True:
            x = self.next()
            if x is END:
                return out
            out.append(x)
            n += 1
            if n > core.LOOP_LIMIT:
                raise core.Diverge("iterator")

    def length(self):
        c = self.clone()
        return len(c.drain())


class SeqIt(It):
    """over a Python list: f maps (list, index) to the yielded value"""

    def __init__(self, l, s, e, f):
        self.l, self.s, self.e, self.f = l, s, e, f

    def next(self):
        if self.s >= self.e:
            return END
        self.s += 1
        return self.f(self.l, self.s - 1)

    def back(self):
        if self.s >= self.e:
            return END
        self.e -= 1
        return self.f(self.l, self.e)

    def clone(self):
        return SeqIt(self.l, self.s, self.e, self.f)

    def length(self):
        return self.e - self.s


def by_ptr(l, i):
    return Ptr(l, i)


def by_val(l, i):
    return l[i]


class MapEntries(It):
    """hash map iteration in a nondeterministic (but per-map stable) order"""

    def __init__(self, mp, f, k=0):
        self.mp, self.f, self.k = mp, f, k

    def next(self):
        mp = self.mp
        n = len(mp.entries)
        if self.k >= n:
            return END
        if mp.kind != "hash":
            e = mp.entries[self.k]
            self.k += 1
            return self.f(e)
        if mp.order is None:
            mp.order = []
        if self.k >= len(mp.order):
            rest = [e for e in mp.entries if not any(e is o for o in mp.order)]
            mp.order.append(rest[core.M.choose(len(rest), "order") if core.M.any_map_order else 0])
        e = mp.order[self.k]
        self.k += 1
        return self.f(e)

    def back(self):
        raise Unsupported("map next_back")

    def clone(self):
        return MapEntries(self.mp, self.f, self.k)

    def length(self):
        return len(self.mp.entries) - self.k


class Adapter(It):
    def __init__(self, nxt, bck=None, cl=None):
        self.next = nxt
        if bck:
            self.back = bck
        if cl:
            self.clone = cl


class MapIt(It):
    def __init__(self, it, f):
        self.it, self.f = it, f

    def next(self):
        x = self.it.next()
        return END if x is END else self.f(x)

    def back(self):
        x = self.it.back()
        return END if x is END else self.f(x)

    def clone(self):
        return MapIt(self.it.clone(), self.f)

    def length(self):
        return self.it.length()


class FilterIt(It):
    def __init__(self, it, f):
        self.it, self.f = it, f

    def next(self):
        while True:
            x = self.it.next()
            if x is END:
                return END
            if core.M.branch(self.f(x)):
                return x

    def back(self):
        while True:
            x = self.it.back()
            if x is END:
                return END
            if core.M.branch(self.f(x)):
                return x

    def clone(self):
        return FilterIt(self.it.clone(), self.f)


class FilterMapIt(It):
    def __init__(self, it, f):
        self.it, self.f = it, f

    def next(self):
        while True:
            x = self.it.next()
            if x is END:
                return END
            r = self.f(x)
            if core.gdiscr(r) == 1:
                return r.f[0]

    def back(self):
        while True:
            x = self.it.back()
            if x is END:
                return END
            r = self.f(x)
            if core.gdiscr(r) == 1:
                return r.f[0]

    def clone(self):
        return FilterMapIt(self.it.clone(), self.f)


class RevIt(It):
    def __init__(self, it):
        self.it = it

    def next(self):
        return self.it.back()

    def back(self):
        return self.it.next()

    def clone(self):
        return RevIt(self.it.clone())

    def length(self):
        return self.it.length()


class EnumIt(It):
    def __init__(self, it, n=0):
        self.it, self.n = it, n

    def next(self):
        x = self.it.next()
        if x is END:
            return END
        self.n += 1
        return Agg(0, [self.n - 1, x])

    def back(self):
        k = self.it.length()
        x = self.it.back()
        if x is END:
            return END
        return Agg(0, [self.n + k - 1, x])

    def clone(self):
        return EnumIt(self.it.clone(), self.n)

    def length(self):
        return self.it.length()


class ZipIt(It):
    def __init__(self, a, b):
        self.a, self.b = a, b

    def next(self):
        x = self.a.next()
        if x is END:
            return END
        y = self.b.next()
        if y is END:
            return END
        return Agg(0, [x, y])

    def clone(self):
        return ZipIt(self.a.clone(), self.b.clone())

    def length(self):
        return min(self.a.length(), self.b.length())


class ChainIt(It):
    def __init__(self, a, b):
        self.a, self.b = a, b

    def next(self):
        if self.a is not None:
            x = self.a.next()
            if x is not END:
                return x
            self.a = None
        return self.b.next()

    def back(self):
        x = self.b.back()
        if x is not END:
            return x
        return self.a.back() if self.a is not None else END

    def clone(self):
        return ChainIt(self.a.clone() if self.a else None, self.b.clone())

    def length(self):
        return (self.a.length() if self.a else 0) + self.b.length()


class TakeIt(It):
    def __init__(self, it, n):
        self.it, self.n = it, n

    def next(self):
        if self.n <= 0:
            return END
        self.n -= 1
        return self.it.next()

    def clone(self):
        return TakeIt(self.it.clone(), self.n)


class SkipIt(It):
    def __init__(self, it, n):
        self.it, self.n = it, n

    def next(self):
        while self.n > 0:
            self.n -= 1
            if self.it.next() is END:
                return END
        return self.it.next()

    def back(self):
        if self.it.length() <= self.n:
            return END
        return self.it.back()

    def clone(self):
        return SkipIt(self.it.clone(), self.n)

    def length(self):
        return max(0, self.it.length() - self.n)


class WhileIt(It):
    def __init__(self, it, f, skip):
        self.it, self.f, self.skip, self.done = it, f, skip, False

    def next(self):
        if self.skip:
            if self.done:
                return self.it.next()
            while True:
                x = self.it.next()
                if x is END:
                    return END
                if not core.M.branch(self.f(x)):
                    self.done = True
                    return x
        if self.done:
            return END
        x = self.it.next()
        if x is END:
            return END
        if core.M.branch(self.f(x)):
            return x
        self.done = True
        return END

    def clone(self):
        c = WhileIt(self.it.clone(), self.f, self.skip)
        c.done = self.done
        return c


class PeekIt(It):
    def __init__(self, it):
        self.it, self.buf = it, []

    def next(self):
        if self.buf:
            return self.buf.pop()
        return self.it.next()

    def peek(self):
        if not self.buf:
            self.buf.append(self.it.next())
        return self.buf

    def clone(self):
        c = PeekIt(self.it.clone())
        c.buf = list(self.buf)
        return c


class FlatIt(It):
    def __init__(self, it, conv):
        self.it, self.conv, self.cur = it, conv, None

    def next(self):
        while True:
            if self.cur is not None:
                x = self.cur.next()
                if x is not END:
                    return x
                self.cur = None
            x = self.it.next()
            if x is END:
                return END
            self.cur = self.conv(x)

    def clone(self):
        c = FlatIt(self.it.clone(), self.conv)
        c.cur = self.cur.clone() if self.cur else None
        return c


class RangeIt(It):
    """over a core::ops::Range<int> aggregate held in place"""

    def __init__(self, agg, incl=False):
        self.a, self.incl = agg, incl

    def next(self):
        f = self.a.f
        lo, hi = f[0], f[1]
        if lo.__class__ is not int or hi.__class__ is not int:
            lt = core.M.branch((core.tobv(lo, 64) <= core.tobv(hi, 64)) if self.incl else (core.tobv(lo, 64) < core.tobv(hi, 64)))
            if not lt:
                return END
            f[0] = core.tobv(lo, 64) + 1
            return lo
        if self.incl:
            if len(f) > 2 and f[2]:
                return END
            if lo > hi:
                return END
            if lo == hi and len(f) > 2:
                f[2] = True
            else:
                f[0] = lo + 1
            return lo
        if lo >= hi:
            return END
        f[0] = lo + 1
        return lo

    def back(self):
        f = self.a.f
        if self.incl or f[0].__class__ is not int or f[1].__class__ is not int:
            raise Unsupported("range next_back")
        if f[0] >= f[1]:
            return END
        f[1] -= 1
        return f[1]

    def clone(self):
        return RangeIt(Agg(0, list(self.a.f)), self.incl)

    def length(self):
        return max(0, self.a.f[1] - self.a.f[0] + (1 if self.incl else 0))


class UserIt(It):
    def __init__(self, ptr, fn):
        self.ptr, self.fn = ptr, fn

    def next(self):
        r = self.fn(self.ptr)
        if core.gdiscr(r) == 0:
            return END
        return r.f[0]


class FnIt(It):
    """from_fn / successors / generic closure producing Option"""

    def __init__(self, f):
        self.f = f

    def next(self):
        r = self.f()
        if r is END or core.gdiscr(r) == 0:
            return END
        return r.f[0]
