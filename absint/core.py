"""Abstract values and the path context of the abstract interpreter."""
from . import rx


class Infeasible(Exception):
    """the abstract path denotes no concrete input"""


class Unsupported(Exception):
    """construct outside the modelled subset: the path is undecided (never an alarm)"""


class PyRaise(Exception):
    """an exception of the analysed program"""

    def __init__(self, exc):
        self.exc = exc


# ------------------------------------------------------------------ path context
class Ctx:
    def __init__(self, prefix=()):
        self.prefix = list(prefix)
        self.pos = 0
        self.trace = []  # (index, n, label)
        self.taint = []
        self.steps = 0
        self.effects = []
        self.constraints = []
        self.loc = None
        self.stack = []
        self.depth_limit = None     # calls nested deeper raise RecursionError
        self.depth_hit = False
        self.funcs = {}
        self.sym = 0
        self.memo = {}
        self.trail = []
        self.mutlog = None
        self.seg_k = 1
        self.max_steps = 400000
        self.notes = []
        self.thread = 0             # thread that runs (thread_switch)
        self.on_call = None         # called with every function of the package that is entered
        self.tlocals = []           # threading.local objects made during the path
        self.tstore = {}            # (id of a local, thread) -> its attributes there
        self.cvars = {}             # (id of a context variable, thread) -> value

    def choose(self, n, label, taint=None):
        if n <= 0:
            raise Infeasible()
        if n == 1:
            return 0
        if self.pos < len(self.prefix):
            i = self.prefix[self.pos]
        else:
            i = 0
        self.pos += 1
        self.trace.append((i, n, label, self.loc))
        if taint:
            self.taint.append((taint, self.loc))
        return i


class _NoCtx(Ctx):
    """module-load phase: everything must be concrete"""

    def choose(self, n, label, taint=None):
        if n == 1:
            return 0
        raise Unsupported(f"choice while loading modules: {label}")


class State:
    ctx = _NoCtx()
    loading = True
    tlocals = []                    # threading.local objects of modules: (object, arguments)


def ctx():
    return State.ctx


def choose(n, label, taint=None):
    return State.ctx.choose(n, label, taint)


def taint(reason):
    State.ctx.taint.append((reason, State.ctx.loc))


# ------------------------------------------------------------------ heap objects
class Obj:
    __slots__ = ("gen",)


def newgen():
    return 0 if State.loading else 1


def log_mut(o, undo):
    """record a mutation of an object that exists before the analysed call (module state)"""
    if o.gen == 0 and not State.loading:
        State.ctx.trail.append((o, undo))


def thread_switch(t):
    """let thread t run: installs its values of all threading.local objects"""
    c = State.ctx
    old = c.thread
    if t == old:
        return
    locs = State.tlocals + c.tlocals
    c.thread = t
    for o, a, k in locs:
        c.tstore[(id(o), old)] = o.attrs
        new = (id(o), t) not in c.tstore
        o.attrs = {} if new else c.tstore[(id(o), t)]
        if old == 0:
            c.tstore[(id(o), "gen")] = o.gen
        # what other threads store vanishes with the path
        o.gen = c.tstore[(id(o), "gen")] if t == 0 else 1
        if new and o.cls.lookup("__init__") is not None:
            State.interp.init(o, o.cls, a, k)


class Count:
    """number of elements of a summarised list segment"""
    __slots__ = ("lo", "hi", "name")

    def __init__(self, lo=0, hi=None, name="n"):
        self.lo = lo
        self.hi = hi
        self.name = name

    def refine(self, lo=None, hi=None):
        if lo is not None and lo > self.lo:
            self.lo = lo
        if hi is not None and (self.hi is None or hi < self.hi):
            self.hi = hi
        if self.hi is not None and self.lo > self.hi:
            raise Infeasible()
        propagate()


def propagate():
    cs = State.ctx.constraints
    changed = True
    while changed:
        changed = False
        for counts, lo, hi in cs:
            tot_lo = sum(c.lo for c in counts)
            tot_hi = None if any(c.hi is None for c in counts) else sum(c.hi for c in counts)
            if hi is not None and tot_lo > hi:
                raise Infeasible()
            if tot_hi is not None and tot_hi < lo:
                raise Infeasible()
            for c in counts:
                if hi is not None:
                    nh = hi - (tot_lo - c.lo)
                    if c.hi is None or nh < c.hi:
                        c.hi = nh
                        changed = True
                if c.hi is not None and c.hi < c.lo:
                    raise Infeasible()
                others_hi = None
                if all(x.hi is not None for x in counts if x is not c):
                    others_hi = sum(x.hi for x in counts if x is not c)
                if others_hi is not None and lo - others_hi > c.lo:
                    c.lo = lo - others_hi
                    changed = True
                if c.hi is not None and c.hi < c.lo:
                    raise Infeasible()


class Seg:
    """`count` further list elements drawn from one abstract class; made[] = the ones looked at"""
    __slots__ = ("count", "factory", "made", "closed")

    def __init__(self, factory, lo=0, hi=None, name="n", count=None):
        self.count = count or Count(lo, hi, name)
        self.factory = factory
        self.made = []
        self.closed = False

    def get(self, i):
        while len(self.made) <= i:
            if self.factory is None:
                raise Unsupported("element of summarised list")
            self.made.append(self.factory(len(self.made)))
        return self.made[i]


class PyList(Obj):
    __slots__ = ("items", "sub")

    def __init__(self, items=()):
        self.gen = newgen()
        self.items = list(items)
        self.sub = None

    def has_seg(self):
        for i in self.items:
            if isinstance(i, Seg):
                return True
        return False


class PyDict(Obj):
    """insertion ordered; token -> [key, value]; value may be Maybe(...)"""
    __slots__ = ("d", "nabs", "default", "cls")

    def __init__(self, pairs=()):
        self.gen = newgen()
        self.d = {}
        self.nabs = 0
        self.default = None
        self.cls = None
        for k, v in pairs:
            self.put(k, v)

    def put(self, k, v):
        if isinstance(k, (AbsStr, StrCat)):
            self.nabs += 1
        self.d[k] = [k, v]


class Maybe:
    """value of an optional dict entry whose presence is not yet decided"""
    __slots__ = ("value", "label")

    def __init__(self, value, label="?"):
        self.value = value
        self.label = label


class PySet(Obj):
    __slots__ = ("d", "nabs", "frozen")

    def __init__(self, keys=(), frozen=False):
        self.gen = newgen()
        self.d = {}
        self.nabs = 0
        self.frozen = frozen
        for k in keys:
            self.put(k)

    def put(self, k):
        if isinstance(k, (AbsStr, StrCat)):
            self.nabs += 1
        self.d[k] = k


class Inst(Obj):
    __slots__ = ("cls", "attrs", "data")

    def __init__(self, cls, attrs=None, data=None):
        self.gen = newgen()
        self.cls = cls
        self.attrs = attrs if attrs is not None else {}
        self.data = data

    def __repr__(self):
        return f"<{self.cls.name}>"


class PyClass(Obj):
    def __init__(self, name, bases, ns, module="builtins", meta=None, qualname=None):
        self.gen = newgen()
        self.name = name
        self.qualname = qualname or name
        self.module = module
        self.bases = list(bases)
        self.ns = ns
        self.meta = meta
        self.subclasses = []
        self.members = None  # enum
        self.dcfields = None
        self.orig_bases = None
        self.host = None
        self.native_new = None
        self.mro = self._mro()
        for b in self.bases:
            log_mut(b, ("subclasses",))
            b.subclasses.append(self)

    def _mro(self):
        seqs = [list(b.mro) for b in self.bases] + [list(self.bases)]
        out = [self]
        while True:
            seqs = [s for s in seqs if s]
            if not seqs:
                return out
            for s in seqs:
                c = s[0]
                if not any(c in t[1:] for t in seqs):
                    break
            else:
                raise Unsupported("inconsistent MRO")
            out.append(c)
            for s in seqs:
                if s[0] is c:
                    del s[0]

    def lookup(self, name):
        for c in self.mro:
            if name in c.ns:
                return c.ns[name]
        return None

    def has(self, name):
        for c in self.mro:
            if name in c.ns:
                return True
        return False

    def issub(self, other):
        return other in self.mro

    def __repr__(self):
        return f"<class {self.module}.{self.qualname}>"


class PyFunc(Obj):
    def __init__(self):
        self.gen = newgen()

    def __repr__(self):
        return f"<function {self.qualname}>"


class BoundMethod:
    __slots__ = ("func", "self")

    def __init__(self, func, self_):
        self.func = func
        self.self = self_


class Native:
    __slots__ = ("name", "fn", "attrs", "pure")

    def __init__(self, name, fn, **attrs):
        self.name = name
        self.fn = fn
        self.attrs = attrs
        self.pure = True

    def __repr__(self):
        return f"<native {self.name}>"


class Prop:
    def __init__(self, fget, fset=None, fdel=None):
        self.fget = fget
        self.fset = fset
        self.fdel = fdel


class CMeth:
    def __init__(self, f):
        self.f = f


class SMeth:
    def __init__(self, f):
        self.f = f


class PyModule(Obj):
    def __init__(self, name, ns=None):
        self.gen = 0
        self.name = name
        self.ns = ns if ns is not None else {}
        self.repo = False
        self.fallback = None

    def __repr__(self):
        return f"<module {self.name}>"


class Alias:
    """typing generic alias"""
    _intern = {}

    def __init__(self, origin, args, text):
        self.origin = origin
        self.args = args
        self.text = text


class Special:
    """typing special form (Union, Optional, ...)"""

    def __init__(self, name):
        self.name = name


class FwdRef:
    def __init__(self, name):
        self.name = name
        self.value = None


class PyGen:
    __slots__ = ("it", "name")

    def __init__(self, it, name="gen"):
        self.it = it
        self.name = name


class SuperObj:
    def __init__(self, cls, obj):
        self.cls = cls
        self.obj = obj


class Opaque:
    """value about which nothing is known, because the construct producing it is not modelled"""

    def __init__(self, reason):
        self.reason = reason

    def __repr__(self):
        return f"<opaque {self.reason}>"


class Rest:
    """marker yielded by iteration: the unexamined remainder of a summarised segment"""
    __slots__ = ("count",)

    def __init__(self, count):
        self.count = count


class Lazy:
    """input value whose kind is decided on first use"""
    __slots__ = ("opts", "val", "done", "label")

    def __init__(self, opts, label="value"):
        self.opts = opts
        self.done = False
        self.val = None
        self.label = label

    def force(self):
        if not self.done:
            i = choose(len(self.opts), "|".join(o[0] for o in self.opts) + f" for {self.label}")
            self.val = self.opts[i][1]()
            self.done = True
        return self.val


def force(v):
    while isinstance(v, Lazy):
        v = v.force()
    return v


class AbsBool:
    __slots__ = ("val", "label", "on")

    def __init__(self, label="bool"):
        self.val = None
        self.label = label

    def get(self):
        if self.val is None:
            self.val = choose(2, f"{self.label} true?") == 0
        return self.val


# ------------------------------------------------------------------ integer sets
class ISet:
    """finite union of closed intervals, None = infinite end"""
    __slots__ = ("iv",)

    def __init__(self, iv):
        self.iv = self._norm(iv)

    @staticmethod
    def _norm(iv):
        INF = float("inf")
        l = sorted(((-INF if a is None else a), (INF if b is None else b)) for a, b in iv)
        l = [(a, b) for a, b in l if a <= b]
        out = []
        for a, b in l:
            if out and a <= out[-1][1] + 1:
                if b > out[-1][1]:
                    out[-1] = (out[-1][0], b)
            else:
                out.append((a, b))
        return tuple((None if a == -INF else a, None if b == INF else b) for a, b in out)

    def neg(self):
        out = []
        p = None  # start
        first = True
        INF = float("inf")
        cur = -INF
        for a, b in self.iv:
            a2 = -INF if a is None else a
            b2 = INF if b is None else b
            if cur < a2:
                out.append((None if cur == -INF else cur, a2 - 1 if a2 != -INF else None))
            cur = b2 + 1
            if b2 == INF:
                cur = INF
                break
        if cur != INF:
            out.append((None if cur == -INF else cur, None))
        return ISet(out)

    def inter(self, o):
        out = []
        for a, b in self.iv:
            for c, d in o.iv:
                lo = c if a is None else (a if c is None else max(a, c))
                hi = d if b is None else (b if d is None else min(b, d))
                if lo is None or hi is None or lo <= hi:
                    out.append((lo, hi))
        return ISet(out)

    def empty(self):
        return not self.iv

    def single(self):
        if len(self.iv) == 1 and self.iv[0][0] is not None and self.iv[0][0] == self.iv[0][1]:
            return self.iv[0][0]
        return None

    def lo(self):
        return self.iv[0][0]

    def hi(self):
        return self.iv[-1][1]

    def has(self, n):
        return any((a is None or a <= n) and (b is None or n <= b) for a, b in self.iv)

    def map_affine(self, a, b):
        """{ a*x+b } for a = +-1"""
        out = []
        for lo, hi in self.iv:
            l = None if lo is None else a * lo + b
            h = None if hi is None else a * hi + b
            out.append((l, h) if a > 0 else (h, l))
        return ISet(out)

    def __repr__(self):
        return "{" + ",".join(f"{'-inf' if a is None else a}..{'inf' if b is None else b}" for a, b in self.iv) + "}"


class ModSet:
    """{ x : x mod m in residues } (python semantics)"""
    __slots__ = ("m", "res")

    def __init__(self, m, res):
        self.m = m
        self.res = frozenset(res)

    def neg(self):
        return ModSet(self.m, set(range(self.m)) - self.res)


def cmp_set(op, c):
    """integers x with x op c (c int or float)"""
    import math
    if isinstance(c, float):
        if math.isinf(c):
            if op in ("<", "<="):
                return ISet([(None, None)]) if c > 0 else ISet([])
            if op in (">", ">="):
                return ISet([(None, None)]) if c < 0 else ISet([])
            return ISet([]) if op == "==" else ISet([(None, None)])
        if c != int(c):
            f = math.floor(c)
            return {"<": ISet([(None, f)]), "<=": ISet([(None, f)]), ">": ISet([(f + 1, None)]), ">=": ISet([(f + 1, None)]), "==": ISet([]), "!=": ISet([(None, None)])}[op]
        c = int(c)
    return {
        "<": ISet([(None, c - 1)]),
        "<=": ISet([(None, c)]),
        ">": ISet([(c + 1, None)]),
        ">=": ISet([(c, None)]),
        "==": ISet([(c, c)]),
        "!=": ISet([(None, c - 1), (c + 1, None)]),
    }[op]


class AbsInt:
    """op chain over a source: value = f(src)"""
    __slots__ = ("src", "ops", "label")

    def __init__(self, src, ops=(), label="int"):
        self.src = src
        self.ops = tuple(ops)
        self.label = label

    def pre(self, s):
        """preimage of integer set s through the op chain"""
        for op in reversed(self.ops):
            k = op[0]
            if k == "affine":
                a, b = op[1], op[2]
                if isinstance(s, ModSet):
                    # residues r with (a*x+b) % m in res
                    s = ModSet(s.m, {x for x in range(s.m) if (a * x + b) % s.m in s.res})
                else:
                    # a*x+b in s  ->  x in (s-b)/a
                    s = s.map_affine(a, -b * a)
            elif k == "abs":
                if isinstance(s, ModSet):
                    raise Unsupported("mod of abs")
                p = s.inter(ISet([(0, None)]))
                s = ISet(list(p.iv) + list(p.map_affine(-1, 0).iv))
            elif k == "mod":
                m = op[1]
                if isinstance(s, ModSet):
                    if m <= 0 or m > 10000:
                        raise Unsupported("mod of mod")
                    s = ModSet(m, {r for r in range(m) if r % s.m in s.res})
                else:
                    s = ModSet(m, {r for r in range(m) if s.has(r)})
            elif k == "div":
                m = op[1]
                if isinstance(s, ModSet):
                    raise Unsupported("mod of div")
                s = ISet([(None if a is None else a * m, None if b is None else b * m + m - 1) for a, b in s.iv])
            elif k == "mul":
                m = op[1]
                if isinstance(s, ModSet) or m == 0:
                    raise Unsupported("mod of mul")
                out = []
                for a, b in s.iv:
                    if m > 0:
                        lo = None if a is None else -((-a) // m)
                        hi = None if b is None else b // m
                    else:
                        lo = None if b is None else -((-b) // m)
                        hi = None if a is None else a // m
                    out.append((lo, hi))
                s = ISet(out)
            else:
                raise Unsupported(f"int op {k}")
        return s

    def test(self, s, label=None):
        s = self.pre(s)
        return self.src.test(s, label or self.label)

    def range(self):
        """enclosing interval of the value"""
        r = self.src.range()
        for op in self.ops:
            k = op[0]
            if k == "affine":
                r = r.map_affine(op[1], op[2])
            elif k == "abs":
                lo, hi = r.lo(), r.hi()
                m = None if lo is None or hi is None else max(abs(lo), abs(hi))
                r = ISet([(0, m)])
            elif k == "mod":
                r = ISet([(0, op[1] - 1)])
            elif k == "div":
                r = ISet([(None if a is None else a // op[1], None if b is None else b // op[1]) for a, b in r.iv])
            else:
                r = ISet([(None, None)])
        return r

    def single(self):
        return self.range().single()

    def then(self, *op):
        return AbsInt(self.src, self.ops + (op,), self.label)


class FreeInt:
    __slots__ = ("dom", "mods")

    def __init__(self, dom):
        self.dom = dom
        self.mods = {}

    def range(self):
        return self.dom

    def test(self, s, label):
        if isinstance(s, ModSet):
            key = (s.m, s.res)
            if key not in self.mods:
                self.mods[key] = choose(2, f"{label} mod {s.m} in {sorted(s.res)}") == 0
            return self.mods[key]
        t = self.dom.inter(s)
        f = self.dom.inter(s.neg())
        if t.empty():
            return False
        if f.empty():
            return True
        r = choose(2, f"{label} in {s}") == 0
        self.dom = t if r else f
        return r


class SumCount:
    """k + sum of segment counts"""
    __slots__ = ("counts", "k")

    def __init__(self, counts, k):
        self.counts = tuple(counts)
        self.k = k

    def range(self):
        lo = sum(c.lo for c in self.counts)
        hi = None if any(c.hi is None for c in self.counts) else sum(c.hi for c in self.counts)
        return ISet([(lo + self.k, None if hi is None else hi + self.k)])

    def test(self, s, label):
        if isinstance(s, ModSet):
            return choose(2, f"{label} mod", taint="list length modulo") == 0
        r = self.range()
        t = r.inter(s)
        f = r.inter(s.neg())
        if t.empty():
            return False
        if f.empty():
            return True
        # pick one interval
        opts = [(True, iv) for iv in t.iv] + [(False, iv) for iv in f.iv]
        i = choose(len(opts), f"{label} in {s}")
        b, (lo, hi) = opts[i]
        ctx().constraints.append((self.counts, lo - self.k if lo is not None else 0, None if hi is None else hi - self.k))
        propagate()
        return b


# ------------------------------------------------------------------ strings
class Root:
    """regular language x length interval"""
    __slots__ = ("lang", "lo", "hi")

    def __init__(self, lang=None, lo=0, hi=None):
        self.lang = lang if lang is not None else rx.ANY
        self.lo = lo
        self.hi = hi

    def feasible(self, lang, lo, hi):
        if hi is not None and lo > hi:
            return False
        if lang.empty():
            return False
        if lo == 0 and hi is None:
            return True
        return lang.has_len_in(lo, hi)


class AbsStr:
    """a string input: f(root), with exact pre-images of regular sets under f"""
    __slots__ = ("root", "pres", "name", "alias", "noteq", "sid", "tag")

    def __init__(self, lang=None, lo=0, hi=None, name="s", root=None, pres=()):
        self.root = root if root is not None else Root(lang, lo, hi)
        self.pres = pres
        self.name = name
        self.alias = None
        self.noteq = None
        c = State.ctx
        c.sym += 1
        self.sid = c.sym
        self.tag = None

    def find(self):
        s = self
        while s.alias is not None:
            s = s.alias
        return s

    def pre(self, lang):
        for f in reversed(self.pres):
            lang = f(lang)
        return lang

    def test(self, lang, label=None):
        """decide membership in a regular set, splitting and refining when both are possible"""
        s = self.find()
        if s is not self:
            return s.test(lang, label)
        r = self.root
        p = self.pre(lang)
        t = rx.inter(r.lang, p)
        ft = r.feasible(t, r.lo, r.hi)
        if not ft:
            return False
        f = rx.minus(r.lang, p)
        ff = r.feasible(f, r.lo, r.hi)
        if not ff:
            r.lang = t
            return True
        if choose(2, label or f"{self.name} in language") == 0:
            r.lang = t
            return True
        r.lang = f
        return False

    def must(self, lang):
        s = self.find()
        r = s.root
        t = rx.inter(r.lang, s.pre(lang))
        if not r.feasible(t, r.lo, r.hi):
            raise Infeasible()
        r.lang = t

    def can(self, lang):
        s = self.find()
        r = s.root
        return r.feasible(rx.inter(r.lang, s.pre(lang)), r.lo, r.hi)

    def single(self):
        s = self.find()
        if s.pres:
            return None
        r = s.root
        w = r.lang.single()
        if w is None and r.hi is not None and r.hi == 0:
            return "" if r.lang.accepts("") else None
        return w

    def derive(self, pre, name):
        s = self.find()
        return AbsStr(root=s.root, pres=s.pres + (pre,), name=name)

    def example(self):
        s = self.find()
        r = s.root
        try:
            lang = r.lang
            w = lang.shortest(min(r.lo, 3000)) if r.lo else lang.shortest()
        except Exception:
            w = None
        return w

    def __repr__(self):
        return f"<{self.name}>"


class LenStr:
    __slots__ = ("s",)

    def __init__(self, s):
        self.s = s

    def range(self):
        s = self.s.find()
        r = s.root
        if s.pres:
            return ISet([(0, None)])
        mn = r.lang.minlen() or 0
        mx = r.lang.finite()
        lo = max(mn, r.lo)
        hi = r.hi if mx is None else (mx if r.hi is None else min(mx, r.hi))
        return ISet([(lo, hi)])

    def test(self, s, label):
        st = self.s.find()
        if isinstance(s, ModSet):
            l = rx.DFA([0], [((i + 1) % s.m,) for i in range(s.m)], {i for i in range(s.m) if i in s.res})
            return st.test(l, label)
        s = s.inter(ISet([(0, None)]))
        if st.pres:
            if s.empty():
                return False
            l = None
            for a, b in s.iv:
                x = rx.length(a, b)
                l = x if l is None else rx.union(l, x)
            return st.test(l, label)
        r = st.root
        opts = []
        for val, ss in ((True, s), (False, s.neg().inter(ISet([(0, None)])))):
            for a, b in ss.iv:
                lo = max(a, r.lo)
                hi = b if r.hi is None else (r.hi if b is None else min(b, r.hi))
                if r.feasible(r.lang, lo, hi):
                    opts.append((val, lo, hi))
        if not opts:
            raise Infeasible()
        vals = {o[0] for o in opts}
        if len(vals) == 1:
            return opts[0][0]
        i = choose(len(opts), f"len({st.name}) in {s}")
        val, lo, hi = opts[i]
        r.lo, r.hi = lo, hi
        return val


class IntOfStr:
    """int(s) for s already restricted to int()'s lexical space"""
    __slots__ = ("s",)

    def __init__(self, s):
        self.s = s

    def range(self):
        # digits bounded length -> interval
        st = self.s.find()
        mx = None
        if not st.pres:
            mx = st.root.lang.finite()
        if mx is not None and mx >= 0:
            # find exact extremes by bisection is overkill; use 10^len
            neg = st.can(rx.contains("-"))
            b = 10 ** mx - 1
            return ISet([(-b if neg else 0, b)])
        neg = st.can(rx.contains("-"))
        return ISet([(None if neg else 0, None)])

    def lang(self, s):
        from .strlang import int_value_lang
        return int_value_lang(s)

    def test(self, s, label):
        return self.s.test(self.lang(s), label)


class Part:
    """non-constant piece of a text"""
    __slots__ = ("kind", "value")

    def __init__(self, kind, value):
        self.kind = kind
        self.value = value

    def __repr__(self):
        return f"{{{self.kind}:{self.value}}}"


class StrCat:
    """text assembled from constants, input strings and rendered values"""
    __slots__ = ("parts",)

    def __init__(self, parts):
        self.parts = tuple(parts)

    def __repr__(self):
        return "".join(p if isinstance(p, str) else repr(p) for p in self.parts)


def cat(*vals):
    parts = []
    for v in vals:
        if isinstance(v, StrCat):
            src = v.parts
        else:
            src = (v,)
        for p in src:
            if isinstance(p, AbsStr):
                w = p.single()
                if w is not None:
                    p = w
            if isinstance(p, str):
                if not p:
                    continue
                if parts and isinstance(parts[-1], str):
                    parts[-1] += p
                    continue
            parts.append(p)
    if not parts:
        return ""
    if len(parts) == 1 and isinstance(parts[0], (str, AbsStr)):
        return parts[0]
    return StrCat(parts)


class AbsFloat:
    __slots__ = ("s", "lo", "hi")

    def __init__(self, s=None, lo=None, hi=None):
        self.s = s
        self.lo = lo
        self.hi = hi


class AbsEnum:
    """one of several members of an enumeration, tied to the string it was built from"""
    __slots__ = ("cls", "members", "src", "label")

    def __init__(self, cls, members, src=None, label="enum"):
        self.cls = cls
        self.members = list(members)
        self.src = src
        self.label = label

    def restrict(self, ms):
        if not ms:
            raise Infeasible()
        self.members = ms
        if self.src is not None:
            self.src.must(rx.words([m.attrs["_value_"] for m in ms]))

    def sync(self):
        if self.src is not None:
            ms = [m for m in self.members if self.src.can(rx.word(m.attrs["_value_"]))]
            if len(ms) != len(self.members):
                self.members = ms
        if not self.members:
            raise Infeasible()

    def test(self, ms):
        """is the value one of ms"""
        self.sync()
        t = [m for m in self.members if m in ms]
        f = [m for m in self.members if m not in ms]
        if not t:
            return False
        if not f:
            return True
        if choose(2, f"{self.label} in {{{','.join(m.attrs['_name_'] for m in t)}}}") == 0:
            self.restrict(t)
            return True
        self.restrict(f)
        return False

    def pick(self):
        self.sync()
        i = choose(len(self.members), f"{self.label} member")
        self.restrict([self.members[i]])
        return self.members[0]


class AbsBytes:
    """bytes input; `text` = the str it decodes to (or None if undecodable/unknown)"""
    __slots__ = ("text", "name")

    def __init__(self, name="bytes", text=None):
        self.name = name
        self.text = text
