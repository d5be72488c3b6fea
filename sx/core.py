"""Machine (decisions, path condition, solver) and MIR -> Python translation."""
import sys, time, os, struct
import z3
from values import *
from values import _lit_ids, _lit_rev

sys.setrecursionlimit(60000)
sys.set_int_max_str_digits(0)
INTC = (int, bool)
LOOP_LIMIT = 40000


EXEC = ("serde", "serde_yaml")   # dependencies whose own code is executed rather than modelled


tie_round = 0       # which order a server of a native run gives rows in that the query leaves unordered


def concrete_order(l):
    import random
    if tie_round < 2:
        return l[::-1] if tie_round == 0 else list(l)
    return random.Random(tie_round).sample(list(l), len(l))


class Diverge(Exception):
    pass


class SolverTimeout(Unsupported):
    pass


class Machine:
    def __init__(self, client):
        self.c = client
        self.tyc, self.fnc, self.instc = {}, {}, {}
        self.fns = {}          # inst id -> python callable
        self.encoded = set()   # paths of repository functions translated
        self.modelled = set()  # library functions replaced by models
        self.asserts = 0
        self.tags = []
        self.any_map_order = True
        self.known_codes = set()
        self.want_samples = True
        self.sampler = None
        self.solver = z3.Solver()
        self.timeout_ms = 60000
        self.spell = {}
        self.solver.set("timeout", self.timeout_ms)
        self.stats = dict(queries=0, solver_s=0.0, paths=0, forks=0)
        self.models = None
        self.world = None
        self.depth = 0
        self.reset([])

    # ---------- metadata
    def ty(self, t):
        r = self.tyc.get(t)
        if r is None:
            r = self.c.req("ty", t)
            r["id"] = t
            self.tyc[t] = r
        return r

    def fn(self, f):
        r = self.fnc.get(f)
        if r is None:
            r = self.fnc[f] = self.c.req("fn", f)
        return r

    def inst(self, i):
        r = self.instc.get(i)
        if r is None:
            r = self.instc[i] = self.c.req("inst", i)
            if r.get("crate") in EXEC:
                r["local"] = True
        return r

    def adt(self, path, *args):
        r = self.c.req("adt", path, *args)
        if not isinstance(r, int):
            raise Unsupported("type %s not found" % path)
        return r

    def prim(self, n):
        return self.c.req("prim", n)

    def root(self, path, *args):
        r = self.c.req("root", path, *args)
        if "fn" not in r:
            raise Unsupported("function %s not found" % path)
        return self.callable_fn(r["fn"])

    # ---------- path state
    def reset(self, prefix):
        self.prefix, self.pos, self.dec = prefix, 0, []
        self.path, self.pending = [], []
        self.alts = []
        self.model = None
        self.cache = {}
        self.nfresh = 0
        self.keep = []
        self.atoms = {}
        self.lens = {}
        self.splits = {}
        self.notes = []
        self.tostr = {}
        self.steps = 0
        self.checked_sat = False
        self.ranks = {}
        self.texts = {}
        self.spelled = []
        self.statics = {}
        self.special = False

    def start_path(self, prefix):
        self.solver.reset()
        self.solver.set("timeout", self.timeout_ms)
        self.reset(list(prefix))
        self.stats["paths"] += 1

    def fresh(self, name):
        self.nfresh += 1
        return "%s!%d" % (name, self.nfresh)

    def add(self, c):
        if c is True:
            return
        self._push(c)
        if self.model is not None and not z3.is_true(self.model.eval(c, model_completion=True)):
            self.model = None

    def _push(self, c):
        self.path.append(c)
        self.pending.append(c)

    def _check(self, *extra):
        s = self.solver
        if self.pending:
            for c in self.pending:
                s.add(c)
            self.pending = []
        t = time.time()
        r = s.check(*extra)
        self.stats["queries"] += 1
        self.stats["solver_s"] += time.time() - t
        if r == z3.unknown:
            raise SolverTimeout("solver returned unknown: %s" % s.reason_unknown())
        return r == z3.sat

    def assume(self, c):
        """Restrict the current path; Infeasible when nothing is left."""
        if c is True:
            return
        if c is False:
            raise Infeasible()
        self.add(c)
        if self.model is not None and z3.is_true(self.model.eval(c, model_completion=True)):
            return
        self.model = None
        if self.pos < len(self.prefix):
            return
        if not self._check():
            raise Infeasible()
        self.model = self.solver.model()

    def _ensure_model(self):
        if self.model is None:
            if not self._check():
                raise Infeasible()
            self.model = self.solver.model()

    def branch(self, c):
        if c is True or c is False:
            return c
        if c.__class__ is int:
            return bool(c)
        c = z3.simplify(c)
        neg = False
        b = c
        h = True if z3.is_true(c) else False if z3.is_false(c) else None
        if h is None:
            if z3.is_not(b):
                b = b.arg(0)
                neg = True
            k = b.get_id()
            h = self.cache.get(k)
        if h is not None:
            # decided already. It takes its place among the decisions all the same: the order in which z3 puts the parts
            # of a condition, and so what counts as decided already, is not the same in every execution
            h = h != neg
            if self.pos < len(self.prefix) and self.prefix[self.pos] is not h:
                raise Unsupported("an execution does not repeat its decisions")
            self.pos += 1
            self.dec.append(h)
            return h
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.model = None
        else:
            self._ensure_model()
            d = z3.is_true(self.model.eval(c, model_completion=True))
            other = z3.Not(c) if d else c
            if self._check(other):
                self.alts.append(self.dec + [not d])
                self.stats["forks"] += 1
        self.pos += 1
        self.dec.append(d)
        self.cache[k] = d != neg
        self.keep.append(b)
        self._push(c if d else z3.Not(c))
        return d

    def choose(self, n, label="choice"):
        """Nondeterministic choice in 0..n-1 (a symbolic variable decided by forking)."""
        if n <= 0:
            raise Infeasible()
        if n == 1:
            return 0
        v = z3.Int(self.fresh(label))
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
        else:
            d = 0
            for k in range(n - 1, 0, -1):
                self.alts.append(self.dec + [k])
            self.stats["forks"] += n - 1
        self.pos += 1
        self.dec.append(d)
        self._push(v == d)
        self.model = None
        return d

    def entails(self, c):
        """Is c true on every value of the current path?"""
        if c is True:
            return True
        if c is False:
            return False
        if self.model is not None and z3.is_false(self.model.eval(c, model_completion=True)):
            return False
        return not self._check(z3.Not(c))

    def possible(self, c):
        if c is True:
            return True
        if c is False:
            return False
        if self.model is not None and z3.is_true(self.model.eval(c, model_completion=True)):
            return True
        return self._check(c)

    def violation_model(self, prop):
        """None when prop holds for all values on this path, else a model."""
        if prop is True:
            if self.pending and not self.model:
                pass
            return None
        if prop is False:
            if not self._check():
                return None
            return self.solver.model()
        if self._check(z3.Not(prop)):
            return self.solver.model()
        return None

    def require(self, cond, msg, info=None, code=None):
        """Property assertion: must hold for every value on this path. info(model) describes
        the counterexample."""
        self.asserts += 1
        if cond is True:
            return
        mod = self.violation_model(cond)
        if mod is None:
            return
        from explore import Found
        raise Found(dict(msg=msg, code=code, info=info(mod) if info else None, path=list(self.dec)))

    # ---------- symbolic values
    def atom(self, name, **kw):
        a = Atom(name, **kw)
        if a.ne:
            self.add(a.id != lit_id(""))
        if a.grp is not None:
            for b in self.atoms.values():
                if b.grp == a.grp:
                    self.add(a.id != b.id)
        self.atoms[name] = a
        return a

    def text(self, name, **kw):
        """a text of any content: opaque, unless the code looks inside texts of this origin (m.spell), where it is
        written out: one or two ASCII characters, in at most one text of a path around something the code looks for"""
        s = self.texts.get(name)
        if s is not None:
            return s
        kind = kw.get("kind")
        h = hint_of(Atom(name))
        if h not in self.spell or kind in ("user", "doc", "error"):
            s = S((self.atom(name, **kw),))
            g = kw.get("grp")
            if g is not None:
                for g2, t in self.spelled:
                    if g2 == g:
                        self.add(z3not(str_eq(s, t)))
        else:
            s = self.spelling(name, h, kind, kw)
        self.texts[name] = s
        return s

    def spelling(self, name, h, kind, kw):
        cs = kw.get("cs", WORD) - {0, 128}
        if kind in ("expr", "type", "query", "args"):
            cs = cs & frozenset(range(97, 123))
        trim, ne, grp = kw.get("trim", True), kw.get("ne", True), kw.get("grp")
        shapes = ["", "c", "cc"]
        lits = [l for l in self.spell[h] if all(ord(c) in kw.get("cs", WORD) for c in l)]
        n = len(self.spelled)
        if n >= 3:
            opts = ["cc"]
        else:
            opts = shapes[0 if not ne else 1:]
        if lits and not self.special and n < 4:
            opts = opts + [x for l in lits for x in (l, "c" + l, l + "c", "c" + l + "c")]
        if kind == "body":   # any characters at all: the first such text of a path in all its shapes, the second as one
            k = sum(g2 == "body!" + h for g2, t in self.spelled)   # such character, further ones as one letter
            if k:
                opts = ["c"]
            if k > 1:
                cs = cs & frozenset(range(97, 123))
            grp = "body!" + h
        i = self.choose(len(opts), "length of " + h) if len(opts) > 1 else 0
        o = opts[i]
        parts = []
        if o in shapes:
            seq = o
        else:
            self.special = True
            l = max((l for l in lits if l in o), key=len)
            a, b = o.split(l, 1) if o.count(l) == 1 else ("", "")
            seq = (a, l, b)
        if seq.__class__ is str:
            seq = list(seq)
        for x in seq:
            if x == "c":
                parts.append(Ch(z3.BitVec(self.fresh("ch!" + h), 32), 1))
            elif x:
                parts.append(x)
        for k, x in enumerate(parts):
            if x.__class__ is not Ch:
                continue
            self.add(z3.ULT(x.e, 128))
            c = cs
            if k == 0 and kw.get("first") is not None:
                c = c & kw["first"]
            if trim and k in (0, len(parts) - 1):
                c = c - WS
            from strs import ch_in
            self.add(ch_in(x, c))
        s = mks(parts)
        if grp is not None and kind != "body":
            for b in self.atoms.values():
                if b.grp == grp:
                    self.add(z3not(str_eq(s, S((b,)))))
            for g2, t in self.spelled:
                if g2 == grp:
                    self.add(z3not(str_eq(s, t)))
        self.spelled.append((grp, s))
        return s

    def bool(self, name):
        return z3.Bool(name)

    # ---------- discriminants / switches
    def discr(self, x):
        """variant index of an enum value (forks when undecided)"""
        v = x.v
        if v.__class__ is int:
            return v
        if isinstance(x, LazyEnum):
            ks = sorted(x.pay)
            for i, k in enumerate(ks):
                if i == len(ks) - 1 or self.branch(x.tag == k):
                    x.v, x.f = k, x.pay[k]
                    return k
        # plain symbolic variant (C-like)
        return self.concretize(v)

    def concretize(self, e):
        if e.__class__ in INTC:
            return e
        e = z3.simplify(e)
        if z3.is_bv_value(e) or z3.is_int_value(e):
            return e.as_long()
        while True:
            if self.pos < len(self.prefix):
                # recorded as [value guess] decisions
                v = self.prefix[self.pos]
                # guesses are stored as ('=', value, bool)
                d = v[2]
                val = v[1]
            else:
                self._ensure_model()
                val = self.model.eval(e, model_completion=True).as_long()
                d = True
                if self._check(e != val):
                    self.alts.append(self.dec + [("=", val, False)])
                    self.stats["forks"] += 1
            self.pos += 1
            self.dec.append(("=", val, d))
            self._push(e == val if d else e != val)
            if not d or self.pos <= len(self.prefix):
                self.model = None
            if d:
                return val

    def sw(self, t, vals):
        """switch on symbolic integer: returns matching value or None"""
        for v in vals:
            if z3.is_bv(t):
                c = t == z3.BitVecVal(v, t.size())
            elif z3.is_bool(t):
                if v == 0:
                    c = z3.Not(t)
                else:
                    c = t
            else:
                c = t == v
            if self.branch(c):
                return v
        return None

    # ---------- functions
    def callable_fn(self, f):
        j = self.fn(f)
        i = j.get("inst")
        if j.get("ctor"):
            return ctor_callable(j)
        if i is None:
            m = self.models.lookup_unresolved(self, f, j)
            if m is None:
                raise Unsupported("unresolved function %s" % j["path"])
            return m
        return self.callable_inst(i, f)

    def callable_inst(self, i, f=None):
        key = i if f is None else (i, f)
        r = self.fns.get(i)
        if r is not None:
            return r
        ii = self.inst(i)
        m = self.models.lookup(self, i, ii, f)
        if m is not None:
            self.fns[i] = m
            self.modelled.add(ii["path"])
            return m
        if ii["kind"] == "virtual":
            raise Unsupported("virtual call outside call terminator")
        if not ii["mir"]:
            raise Unsupported("no MIR and no model for %s (%s)" % (ii["path"], ii["kind"]))
        r = compile_inst(self, i, ii)
        self.fns[i] = r
        return r

    def call_value(self, fv, fty, args):
        """Call a closure/function value. fv: value (or Ptr to it), fty: its type id."""
        t = self.ty(fty)
        while t["k"] in ("ref", "ptr"):
            e = self.ty(t["elem"])
            if e["k"] == "dyn":
                break
            fv = fv.c[fv.i]
            t = e
        if t["k"] == "adt" and t.get("box"):
            e = self.ty(t["args"][0])
            if e["k"] == "dyn":
                t = e
            else:
                fv = fv.c[0]
                return self.call_value(fv, t["args"][0], args)
        if fv.__class__ is DynRef:
            return self.call_value(fv.p, self.c.req("mkref", fv.ty), args)
        if t["k"] == "fndef":
            return self.callable_fn(t["fn"])(*args)
        if isinstance(fv, FnVal):
            return fv.call(self, args) if fv.fn.__class__ is tuple else self.callable_fn(fv.fn)(*args)
        if t["k"] == "closure":
            ci = self.tyc.get(("cl", t["id"]))
            if ci is None:
                ci = self.tyc[("cl", t["id"])] = self.c.req("closure", t["id"])
            body = self.callable_inst(ci["inst"])
            env = fv if ci["kind"] == "FnOnce" else Ptr([fv], 0)
            return body(env, *args)
        if fv.__class__ is FnInst:
            return self.callable_inst(fv.inst)(*args)
        raise Unsupported("call of %s" % t["name"])


class FnInst:
    __slots__ = ("inst",)

    def __init__(self, i):
        self.inst = i


def ctor_callable(j):
    ty, v = j["ctor"]
    return lambda *a: Agg(v, list(a))


def cp(x):
    if x.__class__ is Agg:
        f = x.f
        return Agg(x.v, [cp(y) for y in f]) if f else x
    if x.__class__ is LazyEnum:
        if x.v is not None:
            return Agg(x.v, [cp(y) for y in x.f])
        return LazyEnum(x.tag, None, {k: [cp(y) for y in v] for k, v in x.pay.items()})
    return x


def tobv(x, w):
    if x.__class__ in INTC:
        return z3.BitVecVal(int(x), w)
    return x


def wrap(v, bits, signed):
    v &= (1 << bits) - 1
    if signed and v >> (bits - 1):
        v -= 1 << bits
    return v


class IntOps:
    """arithmetic for one integer type"""

    def __init__(self, bits, signed):
        self.b, self.s = bits, signed
        self.lo = -(1 << (bits - 1)) if signed else 0
        self.hi = (1 << (bits - 1)) - 1 if signed else (1 << bits) - 1

    def bin(self, op):
        b, s = self.b, self.s
        lo, hi = self.lo, self.hi

        def w(v):
            return v if lo <= v <= hi else wrap(v, b, s)
        if op == "add":
            return lambda x, y: w(x + y) if x.__class__ is int and y.__class__ is int else tobv(x, b) + tobv(y, b)
        if op == "sub":
            return lambda x, y: w(x - y) if x.__class__ is int and y.__class__ is int else tobv(x, b) - tobv(y, b)
        if op == "mul":
            return lambda x, y: w(x * y) if x.__class__ is int and y.__class__ is int else tobv(x, b) * tobv(y, b)
        if op in ("addo", "subo", "mulo"):
            o = op[:3]

            def f(x, y):
                if x.__class__ is int and y.__class__ is int:
                    v = x + y if o == "add" else x - y if o == "sub" else x * y
                    return Agg(0, [w(v), not lo <= v <= hi])
                x, y = tobv(x, b), tobv(y, b)
                if o == "add":
                    r = x + y
                    k = z3.And(z3.BVAddNoOverflow(x, y, s), z3.BVAddNoUnderflow(x, y)) if s else z3.BVAddNoOverflow(x, y, False)
                elif o == "sub":
                    r = x - y
                    k = z3.And(z3.BVSubNoOverflow(x, y), z3.BVSubNoUnderflow(x, y, s)) if s else z3.UGE(x, y)
                else:
                    r = x * y
                    k = z3.And(z3.BVMulNoOverflow(x, y, s), z3.BVMulNoUnderflow(x, y)) if s else z3.BVMulNoOverflow(x, y, False)
                return Agg(0, [r, z3.Not(k)])
            return f
        if op in ("div", "rem"):
            def f(x, y):
                if x.__class__ is int and y.__class__ is int:
                    q = abs(x) // abs(y)
                    if (x < 0) != (y < 0):
                        q = -q
                    return w(q) if op == "div" else x - q * y
                x, y = tobv(x, b), tobv(y, b)
                if s:
                    return x / y if op == "div" else z3.SRem(x, y)
                return z3.UDiv(x, y) if op == "div" else z3.URem(x, y)
            return f
        if op in ("and", "or", "xor"):
            def f(x, y):
                if x.__class__ is int and y.__class__ is int:
                    return x & y if op == "and" else x | y if op == "or" else x ^ y
                x, y = tobv(x, b), tobv(y, b)
                return x & y if op == "and" else x | y if op == "or" else x ^ y
            return f
        if op in ("shl", "shr"):
            def f(x, y):
                if x.__class__ is int and y.__class__ is int:
                    y %= b
                    return wrap(x << y, b, s) if op == "shl" else x >> y
                y = tobv(y, b)
                if y.size() < b:
                    y = z3.ZeroExt(b - y.size(), y)
                elif y.size() > b:
                    y = z3.Extract(b - 1, 0, y)
                x = tobv(x, b)
                y = y & (b - 1)
                return x << y if op == "shl" else (x >> y if s else z3.LShR(x, y))
            return f
        cmpop = {"lt": 0, "le": 1, "ge": 2, "gt": 3}
        if op == "eq":
            return lambda x, y: x == y if x.__class__ is int and y.__class__ is int else tobv(x, b) == tobv(y, b)
        if op == "ne":
            return lambda x, y: x != y if x.__class__ is int and y.__class__ is int else tobv(x, b) != tobv(y, b)
        if op in cmpop:
            k = cmpop[op]
            uf = [z3.ULT, z3.ULE, z3.UGE, z3.UGT][k]
            import operator
            sf = [operator.lt, operator.le, operator.ge, operator.gt][k]

            def f(x, y):
                if x.__class__ is int and y.__class__ is int:
                    return sf(x, y)
                x, y = tobv(x, b), tobv(y, b)
                return sf(x, y) if s else uf(x, y)
            return f
        if op == "cmp":
            lt, eq = self.bin("lt"), self.bin("eq")

            def f(x, y):
                if M.branch(lt(x, y)):
                    return Agg(0, [])
                return Agg(1 if M.branch(eq(x, y)) else 2, [])
            return f
        raise Unsupported("binary op " + op)


_ops = {}


def binop(t, op):
    """t: type json"""
    k = t["k"]
    if k in ("int", "uint"):
        key = (t["bits"], k == "int", op)
        r = _ops.get(key)
        if r is None:
            r = _ops[key] = IntOps(t["bits"], k == "int").bin(op)
        return r
    if k == "char":
        r = _ops.get(("char", op))
        if r is None:
            r = _ops[("char", op)] = IntOps(32, False).bin(op)
        return r
    if k == "bool":
        def f(x, y):
            if x.__class__ is bool and y.__class__ is bool:
                return {"eq": x == y, "ne": x != y, "and": x and y, "or": x or y, "xor": x != y,
                        "lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y}[op]
            if op == "eq":
                return iff(x, y)
            if op in ("ne", "xor"):
                return z3not(iff(x, y))
            if op == "and":
                return z3and([x, y])
            if op == "or":
                return z3or([x, y])
            raise Unsupported("bool " + op)
        return f
    if k in ("ptr", "ref"):
        def f(x, y):
            if op in ("eq", "ne"):
                same = (x.__class__ is Ptr and y.__class__ is Ptr and x.c is y.c and x.i == y.i) or x is y
                return same if op == "eq" else not same
            raise Unsupported("pointer op " + op)
        return f
    if k == "tuple" and not t["elems"]:
        return lambda x, y: op in ("eq", "le", "ge")
    if k == "float":
        import operator
        fo = {"eq": operator.eq, "ne": operator.ne, "lt": operator.lt, "le": operator.le, "gt": operator.gt, "ge": operator.ge,
              "add": operator.add, "sub": operator.sub, "mul": operator.mul}.get(op)

        def f(x, y):
            if fo and x.__class__ is float and y.__class__ is float:
                return fo(x, y)
            raise Unsupported("float arithmetic")
        return f
    raise Unsupported("binop %s on %s" % (op, t["name"]))


def cast_int(x, ft, tt):
    """integer-like cast"""
    tb = 32 if tt["k"] == "char" else tt["bits"]
    ts = tt["k"] == "int"
    if x.__class__ in INTC:
        return wrap(int(x), tb, ts)
    if z3.is_bool(x):
        return z3.If(x, z3.BitVecVal(1, tb), z3.BitVecVal(0, tb))
    fb = x.size()
    if fb == tb:
        return x
    if fb > tb:
        return z3.Extract(tb - 1, 0, x)
    return z3.SignExt(tb - fb, x) if ft["k"] == "int" else z3.ZeroExt(tb - fb, x)


M = None


def set_machine(m):
    global M
    M = m


# ------------------------------------------------------------------ codegen

WRAPPERS = ("std::mem::MaybeUninit", "std::mem::ManuallyDrop", "std::mem::MaybeDangling",
            "std::mem::maybe_uninit::MaybeUninit", "core::mem::maybe_dangling::MaybeDangling",
            "std::mem::maybe_dangling::MaybeDangling")
AGGK = ("adt", "tuple", "array", "closure")


class Gen:
    def __init__(self, m, i, ii):
        self.m, self.i, self.ii = m, i, ii
        b = m.c.req("body", i)
        if "err" in b:
            raise Unsupported("body of %s: %s" % (ii["path"], b))
        self.b = b
        self.ns = dict(_BASE_NS)
        self.ns["M"] = m
        self.nk = 0
        self.cells = set()
        for bl in b["blocks"]:
            for s in bl["s"]:
                if s[0] == "=" and s[2][0] in ("ref", "addr_of", "rawptr"):
                    p = s[2][1]
                    if not any(e[0] in ("*", ".", "i", "c", "s") for e in p[1]):
                        self.cells.add(p[0])
        self.lt = b["locals"]

    def k(self, v, pre="K"):
        self.nk += 1
        n = "%s%d" % (pre, self.nk)
        self.ns[n] = v
        return n

    def lv(self, l):
        return ("c%d[0]" if l in self.cells else "L%d") % l

    # returns (expr, typeid) of reading the place
    def place(self, p):
        e = self.lv(p[0])
        t = self.lt[p[0]]
        for x in p[1]:
            e, t = self.step(e, t, x)
        return e, t

    def step(self, e, t, x):
        m = self.m
        k = x[0]
        if k == "*":
            ty = m.ty(t)
            if ty["k"] in ("ref", "ptr"):
                el = ty["elem"]
                if self.fat(el):
                    return e, el
                return "deref(%s)" % e, el
            if ty["k"] == "adt" and ty.get("box"):
                el = ty["args"][0]
                if self.fat(el):
                    return e, el
                return "%s.c[0]" % e, el
            raise Unsupported("deref of " + ty["name"])
        if k == ".":
            ty = m.ty(t)
            if ty["k"] == "adt" and self.transparent(ty):
                return e, x[2]
            return "%s.f[%d]" % (e, x[1]), x[2]
        if k == "d" or k == "o":
            return e, t
        ty = m.ty(t)
        el = ty.get("elem")
        if k == "i":
            return "idx(%s,%s)" % (e, self.lv(x[1])), el
        if k == "c":
            return "cidx(%s,%d,%d)" % (e, x[1], 1 if x[3] else 0), el
        if k == "s":
            if ty["k"] == "array":
                raise Unsupported("array subslice")
            return "sub(%s,%d,%d,%d)" % (e, x[1], x[2], 1 if x[3] else 0), t
        raise Unsupported("projection " + k)

    def transparent(self, ty):
        p = ty["path"]
        return ty.get("box") or p in WRAPPERS or p.endswith("ptr::Unique") or p.endswith("NonNull") or p in (
            "std::ptr::unique::Unique", "core::ptr::unique::Unique")

    def fat(self, el):
        t = self.m.ty(el)
        return t["k"] in ("str", "slice", "dyn") or (t["k"] == "adt" and t.get("path") in (
            "std::path::Path", "std::ffi::OsStr", "std::ffi::os_str::OsStr"))

    def strip(self, l, proj):
        """drop trailing projections that have no representation"""
        while proj:
            if proj[-1][0] in ("d", "o"):
                proj = proj[:-1]
                continue
            if proj[-1][0] == ".":
                t = self.lt[l]
                for x in proj[:-1]:
                    _, t = self.step("", t, x)
                ty = self.m.ty(t)
                if ty["k"] == "adt" and ty["path"] in WRAPPERS:
                    proj = proj[:-1]
                    continue
            break
        return proj

    # container, index expressions for writing / taking a reference
    def lval(self, p):
        proj = list(p[1])
        proj = self.strip(p[0], proj)
        if not proj:
            if p[0] in self.cells:
                return "c%d" % p[0], "0"
            return None
        e = self.lv(p[0])
        t = self.lt[p[0]]
        for x in proj[:-1]:
            e, t = self.step(e, t, x)
        x = proj[-1]
        ty = self.m.ty(t)
        if x[0] == "*":
            if ty["k"] == "adt":
                return "%s.c" % e, "0"
            return ("PTR", e)
        if x[0] == ".":
            if ty["k"] == "adt" and self.transparent(ty):
                raise Unsupported("write to pointer field")
            return "%s.f" % e, str(x[1])
        if x[0] == "i":
            return ("IDX", "idxp(%s,%s)" % (e, self.lv(x[1])))
        if x[0] == "c":
            return ("IDX", "cidxp(%s,%d,%d)" % (e, x[1], 1 if x[3] else 0))
        raise Unsupported("lval " + x[0])

    def assign(self, p, val):
        """python statements storing expression `val`"""
        proj = self.strip(p[0], list(p[1]))
        if not proj:
            return ["%s=%s" % (self.lv(p[0]), val)]
        lv = self.lval(p)
        if lv[0] in ("PTR", "IDX"):
            return ["_p=%s" % lv[1], "_p.c[_p.i]=%s" % val] if "_p" not in val else ["_v=%s" % val, "_p=%s" % lv[1], "_p.c[_p.i]=_v"]
        return ["%s[%s]=%s" % (lv[0], lv[1], val)]

    def const(self, c, t):
        if c is True or c is False or isinstance(c, int):
            return repr(c)
        if isinstance(c, dict):
            if "str" in c and len(c) == 1:
                return self.k(c["str"])
            if "agg" in c and not c["agg"][1]:
                ty = self.m.ty(t)
                if ty["k"] in ("tuple", "closure") or ty["k"] == "adt":
                    mk = self.m.models.const_adt(self.m, ty)
                    if mk is None:
                        if c["agg"][0] == 0 and ty["k"] != "adt":
                            return "UNIT"
                        return "Agg(%d,[])" % c["agg"][0]
            if "fn" in c:
                return self.k(FnVal(c["fn"]))
            if "fnptr" in c:
                return self.k(FnInst(c["fnptr"]))
            return "%s()" % self.k(self.mkconst(c, t))
        raise Unsupported("const %r" % (c,))

    def mkconst(self, c, t):
        m = self.m
        ty = m.ty(t)
        # references: built once and shared
        if isinstance(c, dict) and ("ref" in c or "slice" in c or "dyn" in c):
            cache = []

            def g():
                if not cache:
                    cache.append(build_const(m, c, t))
                return cache[0]
            return g
        return lambda: build_const(m, c, t)

    def operand(self, o):
        if o[0] == "const":
            return self.const(o[2], o[1]), o[1]
        if o[0] == "rtcheck":
            return "True", None
        e, t = self.place(o[1])
        if o[0] == "copy" and self.m.ty(t)["k"] in AGGK:
            return "cp(%s)" % e, t
        return e, t

    def rvalue(self, r, dty):
        m = self.m
        k = r[0]
        if k == "use":
            return self.operand(r[1])[0]
        if k in ("ref", "addr_of"):
            p = r[1]
            if p[1] and p[1][-1][0] == "*":
                # reborrow
                q = [p[0], p[1][:-1]]
                e, t = self.place(q)
                ty = m.ty(t)
                if ty["k"] == "adt":
                    if self.fat(ty["args"][0]):
                        return e
                    return "Ptr(%s.c,0)" % e
                return e
            e, t = self.place(p) if p[1] else (None, self.lt[p[0]])
            if self.fat(t) or (p[1] and p[1][-1][0] == "s"):
                return e
            lv = self.lval(p)
            if lv is None:
                raise Unsupported("ref of non-cell local")
            if lv[0] == "PTR":
                return lv[1]
            if lv[0] == "IDX":
                return lv[1]
            return "Ptr(%s,%s)" % lv
        if k == "discr":
            e, t = self.place(r[1])
            ty = m.ty(t)
            if ty["k"] != "adt":
                return "0"
            vs = ty["variants"]
            if all(v["discr"] == i for i, v in enumerate(vs)):
                return "discr(%s)" % e
            tab = self.k([v["discr"] for v in vs])
            return "%s[discr(%s)]" % (tab, e)
        if k == "agg":
            ops = [self.operand(o)[0] for o in r[3]]
            kind = r[1]
            if kind == "adt":
                ty = m.ty(dty)
                if ty["k"] == "adt" and (self.transparent(ty)):
                    return ops[0]
                return "Agg(%d,[%s])" % (r[2], ",".join(ops))
            if kind in ("tuple", "closure", "array"):
                if not ops and kind == "tuple":
                    return "UNIT"
                return "Agg(0,[%s])" % ",".join(ops)
            if kind == "rawptr":
                return "mkraw(%s)" % ",".join(ops)
            if kind == "union":
                return "Agg(0,[%s])" % ",".join(ops)
            return "unsup(%r)" % ("aggregate " + kind)
        if k == "bin":
            a, b = self.operand(r[2])[0], self.operand(r[3])[0]
            ty = m.ty(r[4])
            try:
                f = self.k(binop(ty, r[1]), "B")
            except Unsupported as ex:
                return "unsup(%r)" % str(ex)
            return "%s(%s,%s)" % (f, a, b)
        if k == "un":
            a, at = self.operand(r[2])
            ty = m.ty(r[3])
            if r[1] == "not":
                if ty["k"] == "bool":
                    return "bnot(%s)" % a
                return "inot(%s,%d,%s)" % (a, ty["bits"], ty["k"] == "int")
            if r[1] == "neg":
                return "ineg(%s,%d)" % (a, ty["bits"]) if ty["k"] == "int" else "unsup('float neg')"
            if r[1] == "meta":
                return "meta(%s)" % a
            return "unsup('unop')"
        if k == "cast":
            kind = r[1]
            a, _ = self.operand(r[2])
            if kind == "int":
                ft, tt = m.ty(r[3]), m.ty(r[4])
                if ft["k"] == "adt":
                    tab = [v["discr"] for v in ft["variants"]]
                    return "cast_int(%s[discr(%s)],%s,%s)" % (self.k(tab), a, self.k({"k": "int", "bits": 64}), self.k(tt))
                return "cast_int(%s,%s,%s)" % (a, self.k(ft), self.k(tt))
            if kind in ("ptr", "closurefn", "reify"):
                if kind == "closurefn" or kind == "reify":
                    return "fnptr(%s,%d)" % (a, r[3])
                return a
            if kind == "transmute":
                return "transmute(%s,%d,%d)" % (a, r[3], r[4])
            if kind == "unsize":
                return "unsize(%s,%d,%d)" % (a, r[3], r[4])
            if kind == "i2f":
                return "i2f(%s)" % a
            if kind == "f2f":
                return a
            return "unsup(%r)" % ("cast " + kind)
        if k == "repeat":
            a, t = self.operand(r[1])
            return "Agg(0,[cp(x) for x in [%s]*%s])" % (a, r[2])
        if k == "rawptr":
            raise Unsupported("rawptr rvalue")
        return "unsup(%r)" % (json_s(r),)

    # -------------------------------------------------------------- blocks
    def build(self):
        b = self.b
        blocks = b["blocks"]
        # reachable blocks (no unwinding) and predecessor counts
        preds = {0: 1}
        seen, todo = set(), [0]
        back = set()
        while todo:
            n = todo.pop()
            if n in seen:
                continue
            seen.add(n)
            for s in self.succs(blocks[n]["t"]):
                preds[s] = preds.get(s, 0) + 1
                todo.append(s)
        heads = sorted([n for n in seen if preds.get(n, 0) > 1 or n == 0])
        self.headset = set(heads)
        out = []
        self.out = out
        argc = b["argc"]
        args = ["a%d" % i for i in range(1, argc + 1)]
        out.append("def f(%s):" % ",".join(args))
        for i in sorted(self.cells):
            out.append("  c%d=[None]" % i)
        for i in range(1, argc + 1):
            out.append("  %s=a%d" % (self.lv(i), i))
        rt = self.m.ty(self.lt[0])
        if rt["k"] == "tuple" and not rt.get("elems"):
            out.append("  %s=UNIT" % self.lv(0))
        self.hidx = {h: i for i, h in enumerate(heads)}
        if len(heads) == 1 and preds[0] == 1:
            self.emit(0, 1, set())
        else:
            out.append("  bb=0")
            out.append("  n=0")
            out.append("  while True:")
            out.append("    n+=1")
            out.append("    if n>%d: raise Diverge(FNAME)" % LOOP_LIMIT)
            self.tree(heads, 0, len(heads), 2)
        src = "\n".join(out)
        self.src = src
        self.ns["FNAME"] = self.ii["path"]
        try:
            code = compile(src, "<%s>" % self.ii["path"], "exec")
        except SyntaxError as ex:
            raise Unsupported("codegen of %s: %s\n%s" % (self.ii["path"], ex, src))
        exec(code, self.ns)
        return self.ns["f"]

    def tree(self, heads, lo, hi, ind):
        pad = "  " * ind
        if hi - lo == 1:
            self.emit(heads[lo], ind, set(), True)
            return
        mid = (lo + hi) // 2
        self.out.append("%sif bb<%d:" % (pad, mid))
        self.tree(heads, lo, mid, ind + 1)
        self.out.append("%selse:" % pad)
        self.tree(heads, mid, hi, ind + 1)

    def succs(self, t):
        k = t[0]
        if k == "goto":
            return [t[1]]
        if k == "switch":
            return [x[1] for x in t[2]] + [t[3]]
        if k == "drop":
            return [t[2]]
        if k == "call":
            return [] if t[4] is None else [t[4]]
        if k == "assert":
            return [t[4]]
        return []

    def w(self, ind, s):
        self.out.append("  " * ind + s)

    def jump(self, n, ind):
        if n in self.headset:
            self.w(ind, "bb=%d" % self.hidx[n])
            self.w(ind, "continue")
        else:
            self.emit(n, ind, None)

    def emit(self, n, ind, _s, head=False):
        m = self.m
        while True:
            bl = self.b["blocks"][n]
            for s in bl["s"]:
                try:
                    if s[0] == "=":
                        for l in self.assign(s[1], self.rvalue(s[2], s[3])):
                            self.w(ind, l)
                    elif s[0] == "setd":
                        e, _ = self.place(s[1])
                        self.w(ind, "%s.v=%d" % (e, s[2]))
                except Unsupported as ex:
                    self.w(ind, "unsup(%r)" % str(ex))
            t = bl["t"]
            k = t[0]
            nxt = None
            if k == "goto":
                nxt = t[1]
            elif k == "return":
                self.w(ind, "return %s" % self.lv(0))
                return
            elif k == "unreachable":
                self.w(ind, "unreachable(FNAME)")
                return
            elif k == "drop":
                d = self.dropcode(t)
                if d:
                    self.w(ind, d)
                nxt = t[2]
            elif k == "assert":
                c, _ = self.operand(t[1])
                self.w(ind, "if %s M.branch(%s): raise Panic(%r,%d)" % (
                    "not" if t[2] else "", c, "assertion: " + str(t[3]), t[5] or 0))
                nxt = t[4]
            elif k == "call":
                try:
                    self.call(t, ind)
                except Unsupported as ex:
                    self.w(ind, "unsup(%r)" % str(ex))
                if t[4] is None:
                    self.w(ind, "unreachable(FNAME)")
                    return
                nxt = t[4]
            elif k == "switch":
                self.switch(t, ind)
                return
            else:
                self.w(ind, "unsup(%r)" % ("terminator " + k))
                return
            if nxt in self.headset:
                self.w(ind, "bb=%d" % self.hidx[nxt])
                self.w(ind, "continue")
                return
            n = nxt

    def dropcode(self, t):
        return None

    def switch(self, t, ind):
        ty = self.m.ty(t[4])
        e, _ = self.operand(t[1])
        cases, other = t[2], t[3]
        if ty["k"] == "bool" and len(cases) == 1:
            v, bb = cases[0]
            # value v -> bb, else other
            self.w(ind, "if M.branch(%s):" % e if e not in ("True", "False") else "if %s:" % e)
            yes, no = (other, bb) if v == 0 else (bb, other)
            self.branch_body(yes, ind + 1)
            self.w(ind, "else:")
            self.branch_body(no, ind + 1)
            return
        vals = [wrap(c[0], ty["bits"], True) if ty["k"] == "int" else c[0] for c in cases]
        self.nk += 1
        tv = "t%d" % self.nk
        self.w(ind, "%s=%s" % (tv, e))
        self.w(ind, "if %s.__class__ not in INTC: %s=M.sw(%s,%s)" % (tv, tv, tv, self.k(vals)))
        kw = "if"
        for v, bb in cases:
            if ty["k"] == "int":
                v = wrap(v, ty["bits"], True)
            self.w(ind, "%s %s==%d:" % (kw, tv, v))
            self.branch_body(bb, ind + 1)
            kw = "elif"
        self.w(ind, "else:")
        self.branch_body(other, ind + 1)

    def branch_body(self, bb, ind):
        if ind > 60:
            raise Unsupported("nesting too deep")
        self.jump(bb, ind)

    def call(self, t, ind):
        m = self.m
        _, fo, args, dest, target, argtys, destty, line = t
        av = [self.operand(a)[0] for a in args]
        if fo[0] == "const":
            fty = m.ty(fo[1])
            fid = fo[2].get("fn") if isinstance(fo[2], dict) else None
            if fid is None:
                raise Unsupported("call of constant")
            name = "F%d" % self.bump()
            site = CallSite(m, fid, argtys, destty, self.ns, name, line, self.ii["path"])
            self.ns[name] = site
            val = "%s(%s)" % (name, ",".join(av))
        else:
            e, ft = self.operand(fo)
            val = "M.call_value(%s,%d,[%s])" % (e, ft, ",".join(av))
        if target is None:
            self.w(ind, val)
            return
        for l in self.assign(dest, val):
            self.w(ind, l)

    def bump(self):
        self.nk += 1
        return self.nk


def json_s(r):
    import json
    return json.dumps(r)[:200]


class CallSite:
    """Unresolved call; replaces itself in the namespace on first use."""

    def __init__(self, m, fid, argtys, destty, ns, name, line, caller):
        self.m, self.fid, self.argtys, self.destty = m, fid, argtys, destty
        self.ns, self.name, self.line, self.caller = ns, name, line, caller

    def __call__(self, *a):
        f = self.resolve()
        self.ns[self.name] = f
        return f(*a)

    def resolve(self):
        m = self.m
        j = m.fn(self.fid)
        meth, tr = j.get("method"), j.get("trait")
        i = j.get("inst")
        if j.get("ctor"):
            return ctor_callable(j)
        m_site = m.models.site(m, self, j)
        if m_site is not None:
            return m_site
        ii = m.inst(i) if i is not None else None
        if tr in ("std::ops::FnOnce", "std::ops::FnMut", "std::ops::Fn") and meth in ("call", "call_mut", "call_once"):
            sty = m.ty(self.argtys[0])
            base = sty
            if meth != "call_once":
                base = m.ty(sty["elem"])
            if base["k"] == "closure":
                ci = m.c.req("closure", base["id"])
                body = m.callable_inst(ci["inst"])
                if meth == "call_once":
                    if ci["kind"] == "FnOnce":
                        return lambda env, tup: body(env, *tup.f)
                    return lambda env, tup: body(Ptr([env], 0), *tup.f)
                return lambda env, tup: body(env, *tup.f)
            if base["k"] in ("fndef",):
                g = m.callable_fn(base["fn"])
                return lambda env, tup: g(*tup.f)
            bid = base["id"]
            if meth == "call_once":
                return lambda env, tup: m.call_value(env, bid, tup.f)
            return lambda env, tup: m.call_value(env if base["k"] == "dyn" else env.c[env.i], bid if base["k"] != "dyn" else sty["id"], tup.f)
        if ii is not None and ii["kind"] == "virtual":
            return self.virtual()
        return m.callable_fn(self.fid)

    def virtual(self):
        m, fid = self.m, self.fid
        cache = {}

        def v(d, *rest):
            x = d
            while x.__class__ is Ptr and x.c[x.i].__class__ in (DynRef, Ptr):
                x = x.c[x.i]
            if x.__class__ is BoxV and x.c[0].__class__ is DynRef:
                x = x.c[0]
            if x.__class__ is not DynRef:
                raise Unsupported("virtual call on %r" % (x,))
            g = cache.get(x.ty)
            if g is None:
                g = cache[x.ty] = m.callable_fn(m.c.req("virt", fid, x.ty)["fn"])
            return g(x.p, *rest)
        return v


def build_const(m, c, t):
    if c is True or c is False or isinstance(c, int):
        return c
    if "str" in c:
        return c["str"]
    if "fn" in c:
        return FnVal(c["fn"])
    if "fnptr" in c:
        return FnInst(c["fnptr"])
    if "ref" in c:
        ty = m.ty(t)
        return Ptr([build_const(m, c["ref"], ty["elem"])], 0)
    if "slice" in c:
        ty = m.ty(t)
        el = m.ty(ty["elem"])
        et = el.get("elem")
        l = [build_const(m, x, et) for x in c["slice"]]
        return SliceRef(l, 0, len(l))
    if "agg" in c:
        ty = m.ty(c["ty"])
        mk = m.models.const_adt(m, ty)
        if mk is not None:
            return mk()
        v, fs = c["agg"]
        if ty["k"] == "tuple":
            ft = ty["elems"]
        elif ty["k"] == "adt":
            ft = [f[1] for f in ty["variants"][v]["fields"]]
            if ty.get("box") or ty["path"].endswith("Unique") or ty["path"].endswith("NonNull"):
                raise Unsupported("const pointer")
        else:
            ft = [None] * len(fs)
        return Agg(v, [build_const(m, x, y) for x, y in zip(fs, ft)])
    if "arr" in c:
        ty = m.ty(c["ty"])
        return Agg(0, [build_const(m, x, ty["elem"]) for x in c["arr"]])
    if "dyn" in c:
        return DynRef(Ptr([build_const(m, c["dyn"], c["ty"])], 0), c["ty"])
    if "static" in c:
        return m.models.static(m, c)
    if "float" in c:
        b = c["float"]
        return struct.unpack("<d", struct.pack("<Q", b))[0] if b >> 32 or not b else struct.unpack("<f", struct.pack("<I", b))[0]
    if "union" in c:
        return Agg(0, [build_const(m, c["union"], None)])
    raise Unsupported("constant %r" % (c,))


def deref(p):
    if p.__class__ is Ptr:
        return p.c[p.i]
    if p.__class__ is BoxV:
        return p.c[0]
    raise Unsupported("deref of %r" % (p,))


def bnot(x):
    if x.__class__ is bool:
        return not x
    return z3.Not(x)


def inot(x, b, s):
    if x.__class__ is int:
        return wrap(~x, b, s)
    return ~x


def ineg(x, b):
    if x.__class__ is int:
        return wrap(-x, b, True)
    return -x


def meta(x):
    if x.__class__ is SliceRef:
        return x.n
    if x.__class__ is str:
        return len(x.encode())
    return unsup("meta")


def i2f(x):
    """a float; of an undecided integer it is a value that can be carried, not calculated with"""
    return float(x) if x.__class__ is int else Obj("float", of=x)


def unsup(msg):
    raise Unsupported(msg)


def unreachable(name):
    raise Unsupported("reached unreachable MIR in " + name)


def seq_of(x):
    if x.__class__ is SliceRef:
        return x.l, x.s, x.n
    if x.__class__ is Agg:
        return x.f, 0, len(x.f)
    raise Unsupported("index of %r" % (x,))


def idxp(x, i):
    l, s, n = seq_of(x)
    i = M.concretize(i)
    if not 0 <= i < n:
        raise Panic("index out of bounds")
    return Ptr(l, s + i)


def idx(x, i):
    p = idxp(x, i)
    return p.c[p.i]


def cidxp(x, o, fe):
    l, s, n = seq_of(x)
    return Ptr(l, s + (n - o if fe else o))


def cidx(x, o, fe):
    p = cidxp(x, o, fe)
    return p.c[p.i]


def sub(x, a, b, fe):
    l, s, n = seq_of(x)
    e = n - b if fe else b
    return SliceRef(l, s + a, e - a)


def mkraw(p, meta):
    if p.__class__ is Ptr and meta.__class__ is int:
        return SliceRef(p.c, p.i, meta)
    if p.__class__ is Ptr:
        return p
    raise Unsupported("raw pointer from parts")


def transmute(x, ft, tt):
    f, t = M.ty(ft), M.ty(tt)
    if x.__class__ is BoxV and t["k"] in ("ptr", "ref"):
        return Ptr(x.c, 0)
    if x.__class__ in (Ptr, SliceRef, DynRef, str, S) and t["k"] in ("ptr", "ref", "adt"):
        return x
    if f["k"] == t["k"] and f["k"] in ("int", "uint"):
        return x
    if f["k"] in ("int", "uint") and t["k"] in ("int", "uint", "char"):
        return cast_int(x, f, t)
    if f["k"] == "adt" and t["k"] == "adt":
        return x
    raise Unsupported("transmute %s -> %s" % (f["name"], t["name"]))


def unsize(x, ft, tt):
    f, t = M.ty(ft), M.ty(tt)
    if t["k"] in ("ref", "ptr") or t.get("box") or (t["k"] == "adt" and t["args"]):
        te = M.ty(t["elem"] if t["k"] in ("ref", "ptr") else t["args"][0])
        fe = M.ty(f["elem"] if f["k"] in ("ref", "ptr") else f["args"][0])
        if te["k"] == "slice":
            if x.__class__ is Ptr:
                a = x.c[x.i]
                return SliceRef(a.f, 0, len(a.f))
            if x.__class__ is BoxV:
                a = x.c[0]
                return SliceRef(a.f, 0, len(a.f))
        if te["k"] == "dyn":
            if fe["k"] == "dyn":
                return x
            if x.__class__ is BoxV:
                return DynRef(Ptr(x.c, 0), fe["id"])
            if x.__class__ in (Ptr,):
                return DynRef(x, fe["id"])
            return DynRef(x, fe["id"])
    raise Unsupported("unsize %s -> %s" % (f["name"], t["name"]))


def fnptr(x, ft):
    t = M.ty(ft)
    if t["k"] == "fndef":
        return FnVal(t["fn"])
    if t["k"] == "closure":
        return ClosurePtr(x, ft)
    return x


class ClosurePtr(FnVal):
    __slots__ = ("env", "ty")

    def __init__(self, env, ty):
        self.fn = ("closure",)
        self.env, self.ty = env, ty

    def call(self, m, args):
        return m.call_value(self.env, self.ty, args)


def gdiscr(x):
    v = x.v
    if v.__class__ is int:
        return v
    return M.discr(x)


_BASE_NS = dict(
    Agg=Agg, Ptr=Ptr, BoxV=BoxV, SliceRef=SliceRef, UNIT=UNIT, cp=cp, deref=deref, bnot=bnot, inot=inot,
    ineg=ineg, meta=meta, unsup=unsup, i2f=i2f, unreachable=unreachable, idx=idx, idxp=idxp, cidx=cidx,
    cidxp=cidxp, sub=sub, mkraw=mkraw, transmute=transmute, unsize=unsize, fnptr=fnptr, discr=gdiscr,
    cast_int=cast_int, Panic=Panic, Diverge=Diverge, INTC=INTC)


def compile_inst(m, i, ii):
    g = Gen(m, i, ii)
    f = g.build()
    if ii.get("crate") == "podo":
        m.encoded.add(ii["path"])
    if os.environ.get("SX_DUMP") and os.environ["SX_DUMP"] in ii["path"]:
        sys.stderr.write(g.src + "\n")
    return f
