"""Transfer functions for builtin types and functions over the abstract domain."""
import builtins as hb
import sys
import operator
from . import rx
from . import strlang
from . import core
from .core import *
from .core import State, Part, cat

STR = (str, AbsStr, StrCat)
NUM = (int, float)


def isnum(v):
    return isinstance(v, (int, float))


# ------------------------------------------------------------------ strings
def lang_first_end(sep):
    """{ x.sep : sep occurs in x.sep only at the end }"""
    w = rx.word(sep)
    if len(sep) == 1:
        cs = rx.cs_neg(rx.cs_of(sep))
        return rx.concat(rx.over(cs), w)
    return rx.minus(rx.concat(rx.ANY, w), rx.concat(rx.ANY, w, rx.NONEMPTY))


_nosep = {}


def nosep(sep):
    if sep not in _nosep:
        _nosep[sep] = rx.contains(sep).neg()
    return _nosep[sep]


class SplitList:
    """lazy result of splitting an abstract string"""
    __slots__ = ("s", "sep", "maxsplit", "right", "done")

    def __init__(self, s, sep, maxsplit=-1, right=False):
        self.s = s
        self.sep = sep
        self.maxsplit = maxsplit
        self.right = right
        self.done = None

    def part(self, i, n, last_open):
        F = lang_first_end(self.sep)
        s = self.s
        w = rx.word(self.sep)
        if self.right:
            # only maxsplit=1, n==2: last occurrence
            G = rx.minus(rx.concat(w, rx.ANY), rx.concat(rx.NONEMPTY, w, rx.ANY)) if len(self.sep) > 1 else rx.concat(w, nosep(self.sep))
            if i == 0:
                return s.derive(lambda P: rx.concat(P, G), f"{s.name}.rsplit[0]")
            return s.derive(lambda P: rx.concat(rx.ANY, rx.inter(rx.concat(w, P), G)), f"{s.name}.rsplit[-1]")
        pre = [F] * i

        def f(P):
            if i < n - 1:
                return rx.concat(*pre, rx.inter(rx.concat(P, w), F), rx.ANY)
            if last_open:
                return rx.concat(*pre, P)
            return rx.concat(*pre, rx.inter(P, nosep(self.sep)))
        return s.derive(f, f"{s.name}.split({self.sep!r})[{i}]")

    def count_lang(self, n):
        """strings with exactly n parts"""
        F = lang_first_end(self.sep)
        return rx.concat(*([F] * (n - 1)), nosep(self.sep))

    def atleast(self, n):
        F = lang_first_end(self.sep)
        return rx.concat(*([F] * (n - 1)), rx.ANY)

    def resolve(self, interp, want=None):
        if self.done is not None:
            return self.done
        s = self.s
        ms = self.maxsplit
        if ms is not None and ms >= 0:
            top = ms + 1
        else:
            top = None
        K = max(want or 0, 3)
        n = None
        for k in range(1, (top or K) + 1):
            if top is not None and k == top:
                n = k
                break
            if s.test(self.count_lang(k), f"{s.name} has {k} part(s)"):
                n = k
                break
        if n is None:
            n = K + 1
            if want is None:
                taint(f"split of {s.name} into more than {K} parts")
            self.done = PyList([self.part(i, n + 1, False) for i in range(n)])
            return self.done
        if n == 1:
            self.done = PyList([s])
            return self.done
        self.done = PyList([self.part(i, n, top is not None and n == top) for i in range(n)])
        return self.done


def str_test(s, lang, label=None):
    """decide membership of a (possibly abstract) text in a regular set"""
    if isinstance(s, str):
        return lang.accepts(s)
    if isinstance(s, AbsStr):
        return s.test(lang, label)
    parts = list(s.parts)
    # over-approximate quickly when unknown parts exist
    if any(isinstance(p, Part) for p in parts):
        return _approx_test(parts, lang, label)
    d = lang
    for i, p in enumerate(parts):
        if isinstance(p, str):
            d = rx.left_quot(p, d)
            continue
        rest = parts[i + 1:]
        if all(isinstance(q, str) for q in rest):
            d2 = rx.right_quot(d, "".join(rest))
            return p.test(d2, label or "text in language")
        # choose the state reached after this part
        d = d.minimize()
        opts = []
        for q in range(len(d.trans)):
            l = rx.DFA(d.bounds, d.trans, {q})
            if not l.empty() and p.can(l):
                opts.append((q, l))
        if len(opts) > 400:
            return choose(2, "text test", taint="text test with many states") == 0
        j = choose(len(opts), label or "text prefix state")
        q, l = opts[j]
        p.must(l)
        idx = [q] + [i2 for i2 in range(len(d.trans)) if i2 != q]
        pos = {x: k for k, x in enumerate(idx)}
        d = rx.DFA(d.bounds, [tuple(pos[r] for r in d.trans[x]) for x in idx], {pos[x] for x in d.acc}).minimize()
    return 0 in d.acc


def part_lang(p):
    if isinstance(p, str):
        return rx.word(p)
    if isinstance(p, AbsStr):
        q = p.find()
        return q.root.lang if not q.pres else rx.ANY
    if p.kind == "int":
        return rx.compile_spec("-?[0-9]+")
    if p.kind == "repr":
        return rx.compile_spec("(.|\n)+")
    return rx.ANY


def _approx_test(parts, lang, label):
    try:
        over = rx.concat(*[part_lang(p) for p in parts])
        if rx.inter(over, lang).empty():
            return False
        if rx.minus(over, lang).empty():
            return True
    except rx.TooComplex:
        pass
    return choose(2, label or "text test", taint="text with rendered part") == 0


def str_eq(a, b):
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    if isinstance(a, str):
        a, b = b, a
    if isinstance(b, str):
        return str_test(a, rx.word(b), f"text == {b!r}")
    if isinstance(a, AbsStr) and isinstance(b, AbsStr):
        return abs_eq(a, b)
    wa, wb = const_of(a), const_of(b)
    if wa is not None:
        return str_eq(b, wa)
    if wb is not None:
        return str_eq(a, wb)
    pa = a.parts if isinstance(a, StrCat) else (a,)
    pb = b.parts if isinstance(b, StrCat) else (b,)
    pa, pb = list(pa), list(pb)
    # cancel common ends
    while pa and pb:
        x, y = pa[0], pb[0]
        if same_part(x, y):
            pa.pop(0)
            pb.pop(0)
            continue
        if isinstance(x, str) and isinstance(y, str):
            n = min(len(x), len(y))
            if x[:n] != y[:n]:
                return False
            pa[0], pb[0] = x[n:], y[n:]
            if not pa[0]:
                pa.pop(0)
            if not pb[0]:
                pb.pop(0)
            continue
        break
    while pa and pb:
        x, y = pa[-1], pb[-1]
        if same_part(x, y):
            pa.pop()
            pb.pop()
            continue
        if isinstance(x, str) and isinstance(y, str):
            n = min(len(x), len(y))
            if x[-n:] != y[-n:]:
                return False
            pa[-1], pb[-1] = x[:-n], y[:-n]
            if not pa[-1]:
                pa.pop()
            if not pb[-1]:
                pb.pop()
            continue
        break
    if not pa and not pb:
        return True
    a2, b2 = cat(*pa), cat(*pb)
    if isinstance(a2, str) or isinstance(b2, str) or (isinstance(a2, AbsStr) and isinstance(b2, AbsStr)):
        return str_eq(a2, b2)
    try:
        la = rx.concat(*[part_lang(p) for p in pa])
        lb = rx.concat(*[part_lang(p) for p in pb])
        if rx.inter(la, lb).empty():
            return False
    except rx.TooComplex:
        pass
    return choose(2, "texts equal", taint="equality of assembled texts") == 0


def same_part(x, y):
    if isinstance(x, AbsStr) and isinstance(y, AbsStr):
        return x is y or (x.find() is y.find()) or (x.root is y.root and x.pres == y.pres)
    if isinstance(x, Part) and isinstance(y, Part):
        return x is y or (x.kind == y.kind and (x.value is y.value))
    return False


def const_of(s):
    if isinstance(s, str):
        return s
    if isinstance(s, AbsStr):
        return s.single()
    if isinstance(s, StrCat):
        out = []
        for p in s.parts:
            w = p if isinstance(p, str) else (p.single() if isinstance(p, AbsStr) else None)
            if w is None:
                return None
            out.append(w)
        return "".join(out)
    return None


def abs_eq(a, b):
    if same_part(a, b):
        return True
    a, b = a.find(), b.find()
    wa, wb = a.single(), b.single()
    if wa is not None:
        return b.test(rx.word(wa), f"{b.name} == {wa!r}")
    if wb is not None:
        return a.test(rx.word(wb), f"{a.name} == {wb!r}")
    c = ctx()
    ne = c.__dict__.setdefault("noteq", [])
    for x, y in ne:
        fx, fy = x.find(), y.find()
        if (fx is a and fy is b) or (fx is b and fy is a):
            return False
    if a.pres or b.pres:
        if not a.pres and b.root is not a.root or not b.pres and a.root is not b.root:
            pass
        r = choose(2, f"{a.name} == {b.name}", taint="equality of derived strings") == 0
        return r
    t = rx.inter(a.root.lang, b.root.lang)
    lo = max(a.root.lo, b.root.lo)
    his = [h for h in (a.root.hi, b.root.hi) if h is not None]
    hi = min(his) if his else None
    if not a.root.feasible(t, lo, hi):
        return False
    if choose(2, f"{a.name} == {b.name}") == 0:
        a.root.lang, a.root.lo, a.root.hi = t, lo, hi
        b.alias = a
        # derived strings share the root
        b.root.lang = t
        c.__dict__.setdefault("aliases", []).append((a, b))
        return True
    ne.append((a, b))
    return False


def final_check():
    """drop paths whose disequality constraints cannot be satisfied"""
    c = ctx()
    ne = c.__dict__.get("noteq") or []
    adj = {}
    for x, y in ne:
        x, y = x.find(), y.find()
        if x is y:
            raise Infeasible()
        wx, wy = x.single(), y.single()
        if wx is not None and wx == wy:
            raise Infeasible()
        adj.setdefault(id(x), (x, []))[1].append(y)
        adj.setdefault(id(y), (y, []))[1].append(x)
    # pigeonhole on small finite languages
    for x, ys in adj.values():
        if x.pres:
            continue
        lang = x.root.lang
        used = [y.single() for y in ys if y.single() is not None]
        if used:
            r = rx.minus(lang, rx.words(sorted(set(used))))
            if not x.root.feasible(r, x.root.lo, x.root.hi):
                raise Infeasible()


def split_parts(interp, parts, n, back=False):
    """(left, right) parts around position n (counted from the end when back); None when a length is unknown"""
    left, rest = [], list(parts)
    if back:
        rest.reverse()
    while n > 0 and rest:
        p = rest.pop(0)
        if isinstance(p, str):
            if len(p) >= n:
                h, t = (p[-n:], p[:-n]) if back else (p[:n], p[n:])
                left.append(h)
                rest.insert(0, t)
                n = 0
            else:
                left.append(p)
                n -= len(p)
            continue
        if not isinstance(p, AbsStr) or n > 12:
            return None
        if p.test(rx.length(n, None), "text reaches the position"):
            if back:
                left.append(slice_str(interp, p, -n, None, None))
                rest.insert(0, slice_str(interp, p, None, -n, None))
            else:
                left.append(slice_str(interp, p, None, n, None))
                rest.insert(0, slice_str(interp, p, n, None, None))
            n = 0
            continue
        for k in range(n):
            if k == n - 1 or p.test(rx.length(k, k), "length of text"):
                if k == n - 1:
                    p.must(rx.length(k, k))
                left.append(p if k else "")
                n -= k
                break
    if back:
        left.reverse()
        rest.reverse()
        return rest, left
    return left, rest


def slice_str(interp, s, a, b, st):
    if isinstance(s, StrCat):
        w = const_of(s)
        if w is not None:
            return w[a:b:st]
        if isinstance(a, AbsInt) and a.single() is not None:
            a = a.single()
        if isinstance(b, AbsInt) and b.single() is not None:
            b = b.single()
        if st in (None, 1) and not isinstance(a, AbsInt) and not isinstance(b, AbsInt):
            if not a and b is None:
                return s
            ps = list(s.parts)
            r = None
            if b is not None and (b >= 0) == ((a or 0) >= 0) and a:
                if a >= b:
                    return ""
            if a and a > 0:
                r = split_parts(interp, ps, a)
                if r is not None and b is None:
                    return cat(*r[1])
                if r is not None and b < 0:
                    q = split_parts(interp, r[1], -b, True)
                    if q is not None:
                        return cat(*q[0])
                elif r is not None:
                    q = split_parts(interp, r[1], b - a)
                    if q is not None:
                        return cat(*q[0])
            elif a and a < 0:
                r = split_parts(interp, ps, -a, True)
                if r is not None and b is None:
                    return cat(*r[1])
            elif b is not None:
                r = split_parts(interp, ps, abs(b), b < 0)
                if r is not None:
                    return cat(*r[0])
        if st in (None, 1) and not isinstance(a, AbsInt) and not isinstance(b, AbsInt):
            # constant prefix / suffix handling
            ps = list(s.parts)
            if (a or 0) >= 0 and b is None and isinstance(ps[0], str) and (a or 0) <= len(ps[0]):
                return cat(ps[0][(a or 0):], *ps[1:])
            if a in (None, 0) and isinstance(b, int) and b >= 0 and isinstance(ps[0], str) and b <= len(ps[0]):
                return ps[0][:b]
            if a in (None, 0) and isinstance(b, int) and b < 0 and isinstance(ps[-1], str) and -b <= len(ps[-1]):
                return cat(*ps[:-1], ps[-1][:b])
            if isinstance(a, int) and a < 0 and b is None and isinstance(ps[-1], str) and -a <= len(ps[-1]):
                return ps[-1][a:]
        return StrCat([Part("slice", s)])
    if st not in (None, 1):
        return StrCat([Part("slice", s)])
    if isinstance(a, AbsInt) or isinstance(b, AbsInt):
        va = a.single() if isinstance(a, AbsInt) else a
        vb = b.single() if isinstance(b, AbsInt) else b
        if (a is None or va is not None) and (b is None or vb is not None):
            a, b = va, vb
        else:
            return StrCat([Part("slice", s)])
    if a is not None and a < 0:
        if b is None:
            k = -a
            return s.derive(lambda P: rx.union(rx.concat(rx.ANY, rx.inter(P, rx.length(k, k))), rx.inter(P, rx.length(0, k - 1))), f"{s.name}[{a}:]")
        return StrCat([Part("slice", s)])
    if b is not None and b < 0:
        k = -b

        def f(P):
            r = rx.concat(P, rx.length(k, k))
            if P.accepts(""):
                r = rx.union(r, rx.length(0, k - 1)) if k > 0 else r
            return r
        r = s.derive(f, f"{s.name}[:{b}]")
        if a:
            return slice_str(interp, r, a, None, None)
        return r
    r = s
    if a:
        k = a

        def g(P):
            x = rx.concat(rx.length(k, k), P)
            if P.accepts(""):
                x = rx.union(x, rx.length(0, k - 1))
            return x
        r = r.derive(g, f"{s.name}[{a}:]")
        if b is not None:
            b = b - a
            if b <= 0:
                return ""
    if b is not None:
        kb = b
        if kb == 0:
            return ""
        r = r.derive(lambda P: rx.union(rx.concat(rx.inter(P, rx.length(kb, kb)), rx.ANY), rx.inter(P, rx.length(0, kb - 1))), f"{r.name}[:{b}]")
    return r


def index_str(interp, s, i):
    w = const_of(s)
    if w is not None and isinstance(i, int):
        try:
            return w[i]
        except IndexError:
            interp.throw("IndexError", "string index out of range")
    if isinstance(i, AbsInt):
        v = i.single()
        if v is None:
            if isinstance(s, AbsStr):
                return StrCat([Part("char", s)])
            return StrCat([Part("char", s)])
        i = v
    if isinstance(s, StrCat):
        p = s.parts[0]
        if i >= 0 and isinstance(p, str) and i < len(p):
            return p[i]
        p = s.parts[-1]
        if i < 0 and isinstance(p, str) and -i <= len(p):
            return p[i]
        r = split_parts(interp, s.parts, i if i >= 0 else -i - 1, i < 0)
        if r is not None:
            q = split_parts(interp, r[1] if i >= 0 else r[0], 1, i < 0)
            if q is not None:
                c = cat(*q[0 if i >= 0 else 1])
                if const_of(c) == "":
                    interp.throw("IndexError", "string index out of range")
                return c
        k = i + 1 if i >= 0 else -i
        if not str_test(s, rx.length(k, None), "index in range"):
            interp.throw("IndexError", "string index out of range")
        return StrCat([Part("char", s)])
    if not isinstance(i, int):
        interp.throw("TypeError", "string indices must be integers")
    k = i + 1 if i >= 0 else -i
    if not truth(interp, compare(interp, ">=", len_(interp, s), k)):
        interp.throw("IndexError", "string index out of range")
    if i >= 0:
        return s.derive(lambda P: rx.concat(rx.length(i, i), rx.inter(P, rx.SIGMA), rx.ANY), f"{s.name}[{i}]")
    return s.derive(lambda P: rx.concat(rx.ANY, rx.inter(P, rx.SIGMA), rx.length(k - 1, k - 1)), f"{s.name}[{i}]")


class PosOfStr:
    """index of the first (last) occurrence of sub, known to occur"""
    __slots__ = ("s", "sub", "last")

    def __init__(self, s, sub, last=False):
        self.s, self.sub, self.last = s, sub, last

    def range(self):
        return ISet([(0, None)])

    def test(self, s, label):
        if isinstance(s, ModSet) or self.last:
            return choose(2, label, taint="position of substring") == 0
        F = lang_first_end(self.sub)
        l = rx.EMPTY
        n = len(self.sub)
        for a, b in s.inter(ISet([(0, None)])).iv:
            l = rx.union(l, rx.concat(rx.inter(F, rx.length(a + n, None if b is None else b + n)), rx.ANY))
        return self.s.test(l, label)


class TaintInt:
    """integer about which nothing is known"""
    __slots__ = ("reason",)

    def __init__(self, reason):
        self.reason = reason

    def range(self):
        return ISet([(None, None)])

    def test(self, s, label):
        return choose(2, label, taint=self.reason) == 0


def unknown_int(reason):
    return AbsInt(TaintInt(reason))


# ------------------------------------------------------------------ floats
def float_sure(c):
    """(strings surely > c, surely < c) for the magnitude of c, both regular under-approximations"""
    key = ("fs", c)
    if key in strlang._c:
        return strlang._c[key]
    import math
    pre = strlang._num_pre

    def sure_abs(c):
        # (surely |v| < c, surely |v| > c)
        if c <= 0:
            return rx.EMPTY, rx.EMPTY
        e = math.floor(math.log10(c))  # 10^e <= c
        if e < 0:
            return rx.compile_spec("0+\\.?0*|\\.0+"), rx.compile_spec("0*[1-9][0-9]*(\\.[0-9]*)?")
        frac = "(\\.[0-9]*)?"
        small = "0*[0-9]{0,%d}" % min(max(e, 1), 12)
        lt = rx.compile_spec(f"({small}{frac})([eE]-[0-9]+|[eE][+-]?0+)?")
        zero = rx.compile_spec("(0+\\.?0*|\\.0+)([eE][+-]?[0-9]+)?")
        lt = rx.union(lt, zero)
        if e > 12:
            lt = rx.union(lt, rx.concat(rx.compile_spec(f"0*[0-9]{{0,8}}{frac}[eE][+]?"), rx.digits_le(e - 8)))
        gt = rx.compile_spec("0*[1-9][0-9]{%d,}%s([eE][+]?[0-9]+)?" % (e + 1, frac)) if e < 20 else rx.EMPTY
        gt = rx.union(gt, rx.concat(rx.compile_spec(f"0*[1-9][0-9]*{frac}[eE][+]?"), rx.minus(rx.digits(), rx.digits_le(e))))
        return rx.inter(lt, num), rx.inter(gt, num)
    num = rx.compile_spec("([0-9]+\\.?[0-9]*|\\.[0-9]+)([eE][+-]?[0-9]+)?")
    plus = rx.words(["", "+"])
    minus = rx.word("-")
    small, big = sure_abs(abs(c))
    inf = strlang.float_inf_lang(1)
    ninf = strlang.float_inf_lang(-1)
    if c > 0:
        gt = rx.union(pre(rx.concat(plus, big)), inf)
        lt = rx.union(rx.union(pre(rx.concat(plus, small)), pre(rx.concat(minus, num))), ninf)
    elif c < 0:
        gt = rx.union(rx.union(pre(rx.concat(minus, small)), pre(rx.concat(plus, num))), inf)
        lt = rx.union(pre(rx.concat(minus, big)), ninf)
    else:
        nz = rx.compile_spec("[0-9]*[1-9][0-9]{0,20}(\\.[0-9]*)?([eE][+]?[0-9]+)?")
        gt = rx.union(pre(rx.concat(plus, nz)), inf)
        lt = rx.union(pre(rx.concat(minus, nz)), ninf)
    strlang._c[key] = (gt, lt)
    return gt, lt


def float_compare(f, op, c):
    """AbsFloat op constant"""
    s = f.s
    if s is None:
        return choose(2, f"float {op} {c}", taint="float comparison") == 0
    if s.test(strlang.float_nan_lang(), f"{s.name} is NaN"):
        return op == "!="
    import math
    if math.isinf(c):
        eq = s.test(strlang.float_inf_lang(1 if c > 0 else -1), f"{s.name} is {c}")
        if not eq and op in ("==", "!=", "<", "<=", ">", ">="):
            # overflowing decimals also give infinity
            if s.can(float_sure(1.7976931348623158e308)[0 if c > 0 else 1]):
                gt = s.test(float_sure(1.7976931348623158e308)[0 if c > 0 else 1], f"{s.name} overflows")
                eq = gt
        return {"==": eq, "!=": not eq, "<": (not eq) if c > 0 else False, "<=": True if c > 0 else eq, ">": (not eq) if c < 0 else False, ">=": True if c < 0 else eq}[op]
    gt, lt = float_sure(float(c))
    if s.test(gt, f"{s.name} > {c} surely"):
        return op in (">", ">=", "!=")
    if s.test(lt, f"{s.name} < {c} surely"):
        return op in ("<", "<=", "!=")
    return choose(2, f"{s.name} {op} {c}", taint="float comparison near the bound") == 0


# ------------------------------------------------------------------ types
def type_of(interp, v):
    v = force(v)
    b = interp.builtins
    t = type(v)
    if t is Inst:
        return v.cls
    if t in (str, AbsStr, StrCat):
        return b["str"]
    if t in (bool, AbsBool):
        return b["bool"]
    if t in (int, AbsInt):
        return b["int"]
    if t in (float, AbsFloat):
        return b["float"]
    if v is None:
        return b["NoneType"]
    if t is PyList:
        return v.sub or b["list"]
    if t is SplitList:
        return b["list"]
    if t is PyDict:
        return v.cls or b["dict"]
    if t.__name__ == "NsDict":
        return b["dict"]
    if t is tuple:
        return b["tuple"]
    if t is PySet:
        return b["frozenset"] if v.frozen else b["set"]
    if t is PyClass:
        for c in v.mro:
            if c.meta is not None:
                return c.meta
        return b["EnumMeta"] if v.members is not None else b["type"]
    if t in (PyFunc,):
        return b["function"]
    if t is BoundMethod:
        return b["method"]
    if t is Native:
        return b["builtin_function_or_method"]
    if t is PyModule:
        return b["module"]
    if t in (bytes, AbsBytes):
        return b["bytes"]
    if t is AbsEnum:
        return v.cls
    if t is PyGen:
        return b["generator"]
    if t is FwdRef:
        return b["ForwardRef"]
    if t is Alias:
        return b["GenericAlias"]
    if t is Special:
        return b["SpecialForm"]
    if v is NotImplemented:
        return b["NotImplementedType"]
    if v is Ellipsis:
        return b["ellipsis"]
    if t is Opaque:
        return b["opaque"]
    if t.__name__ == "SliceV":
        return b["slice"]
    return b["object"]


def isinstance_(interp, v, t):
    v = force(v)
    t = force(t)
    if isinstance(t, tuple):
        for x in t:
            if isinstance_(interp, v, x):
                return True
        return False
    if isinstance(t, Alias):
        if t.origin is interp.builtins.get("Union"):
            return any(isinstance_(interp, v, x) for x in t.args)
        if isinstance(t.origin, PyClass):
            t = t.origin
        elif isinstance(t.origin, Special) and t.origin.name == "Union":
            return any(isinstance_(interp, v, x) for x in t.args)
        else:
            raise Unsupported("isinstance of alias")
    if t is None:
        return v is None
    if isinstance(v, Opaque) or isinstance(t, Opaque):
        r = v.reason if isinstance(v, Opaque) else t.reason
        return choose(2, "isinstance " + r, taint="isinstance of unmodelled value " + r) == 0
    if isinstance(t, Special):
        nm = t.name
        m = {"Callable": lambda: callable_(interp, v)}.get(nm)
        if m:
            return m()
        raise Unsupported("isinstance with " + nm)
    if not isinstance(t, PyClass):
        interp.throw("TypeError", "isinstance() arg 2 must be a type, a tuple of types, or a union")
    hook = t.ns.get("__ai_instancecheck__")
    if hook is not None:
        return hook(interp, v)
    c = type_of(interp, v)
    return c.issub(t)


def issubclass_(interp, c, t):
    c, t = force(c), force(t)
    if isinstance(t, tuple):
        return any(issubclass_(interp, c, x) for x in t)
    if isinstance(t, Alias):
        t = t.origin
    if not isinstance(c, PyClass):
        if isinstance(c, Opaque):
            return choose(2, "issubclass", taint="issubclass of unmodelled") == 0
        interp.throw("TypeError", "issubclass() arg 1 must be a class")
    if isinstance(t, Opaque):
        return choose(2, "issubclass", taint="issubclass of unmodelled") == 0
    if not isinstance(t, PyClass):
        interp.throw("TypeError", "issubclass() arg 2 must be a class")
    return c.issub(t)


def callable_(interp, v):
    v = force(v)
    if isinstance(v, Inst):
        return v.cls.has("__call__")
    return isinstance(v, (PyFunc, BoundMethod, Native, PyClass, Alias))


def truth(interp, v):
    v = force(v)
    t = type(v)
    if t is bool:
        return v
    if v is None:
        return False
    if t in (int, float, str, tuple, bytes):
        return bool(v)
    if t is AbsBool:
        return v.get()
    if t is AbsStr:
        return not v.test(rx.EPS, f"{v.name} is empty")
    if t is StrCat:
        if any(isinstance(p, str) and p for p in v.parts):
            return True
        for p in v.parts:
            if isinstance(p, AbsStr):
                if truth(interp, p):
                    return True
            elif isinstance(p, Part):
                if p.kind in ("int", "repr", "enum", "exc"):
                    return True
                return choose(2, "text empty", taint="emptiness of rendered text") == 1
        return False
    if t is PyList:
        if not v.items:
            return False
        for x in v.items:
            if not isinstance(x, Seg):
                return True
        return truth(interp, compare(interp, ">", len_(interp, v), 0))
    if t is SplitList:
        return True
    if t is PyDict:
        resolve_all(v)
        return bool(v.d)
    if t is PySet:
        return bool(v.d)
    if t is AbsInt:
        return not v.test(ISet([(0, 0)]))
    if t is AbsFloat:
        return not float_compare(v, "==", 0.0)
    if t is Inst:
        f = v.cls.lookup("__bool__")
        if f is not None:
            return truth(interp, interp.call(interp.bind(f, v, v.cls), [], {}))
        f = v.cls.lookup("__len__")
        if f is not None:
            n = interp.call(interp.bind(f, v, v.cls), [], {})
            return truth(interp, compare(interp, "!=", n, 0))
        if v.cls.members is not None:
            for c in v.cls.mro:
                if c.host in (int, str):
                    return bool(v.attrs["_value_"])
        return True
    if t is Opaque:
        return choose(2, "truth of " + v.reason, taint="truth of unmodelled value " + v.reason) == 0
    if t is AbsEnum:
        f = v.cls.lookup("__bool__")
        if f is not None:
            return truth(interp, interp.call(interp.bind(f, v, v.cls), [], {}))
        return True
    if issubclass(t, AbsBytes):
        if v.text is not None:
            return truth(interp, v.text)
        return choose(2, "bytes empty", taint="emptiness of bytes") == 1
    if t.__name__ == "NsDict":
        return bool(v.d)
    return True


def is_(interp, a, b):
    a, b = force(a), force(b)
    if a is b:
        return True
    if isinstance(a, AbsBool) and isinstance(b, bool):
        return a.get() is b
    if isinstance(b, AbsBool) and isinstance(a, bool):
        return b.get() is a
    if isinstance(a, AbsEnum) and isinstance(b, Inst):
        return a.test([b])
    if isinstance(b, AbsEnum) and isinstance(a, Inst):
        return b.test([a])
    if isinstance(a, AbsEnum) and isinstance(b, AbsEnum):
        return eq(interp, a, b)
    if isinstance(a, Opaque) or isinstance(b, Opaque):
        o = a if isinstance(a, Opaque) else b
        other = b if o is a else a
        return choose(2, "is " + o.reason, taint="identity of unmodelled value " + o.reason) == 0
    if isinstance(a, (int, str, bool, float)) and type(a) is type(b) and a == b:
        return True
    if isinstance(a, BoundMethod) and isinstance(b, BoundMethod):
        return False
    if isinstance(a, Alias) and isinstance(b, Alias):
        return a.text == b.text
    return False


def eq(interp, a, b):
    a, b = force(a), force(b)
    if a is b and not isinstance(a, (float, AbsFloat)):
        if not isinstance(a, Inst) or not isinstance(a.cls.lookup("__eq__"), PyFunc):
            return True
    ta, tb = type(a), type(b)
    if ta is str and tb is str:
        return a == b
    sa, sb = isinstance(a, STR), isinstance(b, STR)
    if sa and sb:
        return str_eq(a, b)
    if isinstance(a, Opaque) or isinstance(b, Opaque):
        r = a.reason if isinstance(a, Opaque) else b.reason
        return choose(2, "== " + r, taint="comparison with unmodelled value " + r) == 0
    if isinstance(a, Inst) or isinstance(b, Inst):
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Inst):
                f = x.cls.lookup("__eq__")
                if f is not None:
                    r = interp.call(interp.bind(f, x, x.cls), [y], {})
                    if r is not NotImplemented:
                        return truth(interp, r)
        # str/int mixin enums
        va, vb = mixin_value(a), mixin_value(b)
        if va is not a or vb is not b:
            return eq(interp, va, vb)
        if isinstance(a, AbsEnum):
            return a.test([b]) if b.cls is a.cls else False
        if isinstance(b, AbsEnum):
            return b.test([a]) if a.cls is b.cls else False
        return a is b
    if isinstance(a, AbsEnum) and isinstance(b, AbsEnum):
        if a.cls is not b.cls:
            return False
        a.sync()
        b.sync()
        if len(a.members) == 1:
            return b.test(a.members)
        if len(b.members) == 1:
            return a.test(b.members)
        return b.test([a.pick()])
    if isinstance(a, AbsEnum) or isinstance(b, AbsEnum):
        return False
    if isinstance(a, AbsBool):
        a = a.get()
    if isinstance(b, AbsBool):
        b = b.get()
    if isinstance(a, (AbsInt, AbsFloat, int, float)) and isinstance(b, (AbsInt, AbsFloat, int, float)):
        return truth(interp, num_compare(interp, "==", a, b))
    if isinstance(a, SplitList):
        a = a.resolve(interp)
    if isinstance(b, SplitList):
        b = b.resolve(interp)
    if isinstance(a, PyList) and isinstance(b, PyList):
        return seq_eq(interp, a, b)
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return False
        for x, y in zip(a, b):
            if not eq(interp, x, y):
                return False
        return True
    if isinstance(a, PyDict) and isinstance(b, PyDict):
        resolve_all(a)
        resolve_all(b)
        if len(a.d) != len(b.d):
            return False
        for k, v in list(a.d.values()):
            e = dict_find(interp, b, k)
            if e is None or not eq(interp, v, e[1]):
                return False
        return True
    if isinstance(a, PySet) and isinstance(b, PySet):
        if not a.nabs and not b.nabs:
            return set(a.d) == set(b.d)
        return set_sub(interp, a, b) and set_sub(interp, b, a)
    if isinstance(a, bytes) and isinstance(b, bytes):
        return a == b
    if isinstance(a, (bytes, AbsBytes)) and isinstance(b, (bytes, AbsBytes)):
        ta = a.text if isinstance(a, AbsBytes) else _try_dec(a)
        tb = b.text if isinstance(b, AbsBytes) else _try_dec(b)
        if ta is not None and tb is not None:
            return str_eq(ta, tb)
        return choose(2, "bytes equal", taint="equality of bytes") == 0
    if isinstance(a, Alias) and isinstance(b, Alias):
        return a.text == b.text
    if isinstance(a, BoundMethod) and isinstance(b, BoundMethod):
        return a.func is b.func and a.self is b.self
    return False


def _try_dec(b):
    try:
        return b.decode()
    except UnicodeDecodeError:
        return None


def mixin_value(a):
    if isinstance(a, Inst) and a.cls.members is not None:
        for c in a.cls.mro:
            if c.host in (int, str):
                return a.attrs["_value_"]
    return a


def seq_eq(interp, a, b):
    if a.has_seg() or b.has_seg():
        if a is b:
            return True
        if not truth(interp, compare(interp, "==", len_(interp, a), len_(interp, b))):
            return False
        xs = [x for x in iterate(interp, a)]
        ys = [x for x in iterate(interp, b)]
        if any(isinstance(x, Rest) for x in xs + ys):
            return choose(2, "lists equal", taint="equality of summarised lists") == 0
    else:
        xs, ys = a.items, b.items
    if len(xs) != len(ys):
        return False
    for x, y in zip(list(xs), list(ys)):
        if not eq(interp, x, y):
            return False
    return True


def set_sub(interp, a, b):
    for k in list(a.d.values()):
        if not set_has(interp, b, k):
            return False
    return True


def num_compare(interp, op, a, b):
    f = {"==": operator.eq, "!=": operator.ne, "<": operator.lt, "<=": operator.le, ">": operator.gt, ">=": operator.ge}
    flip = {"==": "==", "!=": "!=", "<": ">", "<=": ">=", ">": "<", ">=": "<="}
    if isnum(a) and isnum(b):
        return f[op](a, b)
    if isnum(a):
        return num_compare(interp, flip[op], b, a)
    if isnum(b):
        if isinstance(a, AbsInt):
            if isinstance(b, float) and b != b:
                return op == "!="
            return a.test(cmp_set(op, b), f"{a.label} {op} {b}")
        return float_compare(a, op, b)
    if isinstance(a, AbsInt) and isinstance(b, AbsInt):
        if a.src is b.src or (isinstance(a.src, LenStr) and isinstance(b.src, LenStr) and a.src.s.find() is b.src.s.find()):
            if a.ops == b.ops:
                return f[op](0, 0)
            ra = _affine(a)
            rb = _affine(b)
            if ra and rb and ra[0] == rb[0]:
                return f[op](ra[1], rb[1])
        if isinstance(a.src, SumCount) and isinstance(b.src, SumCount):
            ra, rb = _affine(a), _affine(b)
            if ra and rb and ra[0] == 1 and rb[0] == 1 and set(map(id, a.src.counts)) == set(map(id, b.src.counts)) and len(a.src.counts) == len(b.src.counts):
                return f[op](ra[1] + a.src.k, rb[1] + b.src.k)
        va, vb = a.single(), b.single()
        if va is not None:
            return num_compare(interp, flip[op], b, va)
        if vb is not None:
            return num_compare(interp, op, a, vb)
        ra, rb = a.range(), b.range()
        if op in ("<", "<=", ">", ">="):
            if op in (">", ">="):
                return num_compare(interp, flip[op], b, a)
            if ra.hi() is not None and rb.lo() is not None and f[op](ra.hi(), rb.lo()):
                return True
            if ra.lo() is not None and rb.hi() is not None and not f[op](ra.lo(), rb.hi()):
                return False
        elif ra.inter(rb).empty():
            return op == "!="
        return choose(2, f"{a.label} {op} {b.label}", taint="relation between two unknown integers") == 0
    return choose(2, f"float {op}", taint="relation between unknown numbers") == 0


def _affine(a):
    s, k = 1, 0
    for op in a.ops:
        if op[0] != "affine":
            return None
        s, k = s * op[1], k * op[1] + op[2]
    return s, k


def less_lang(c, incl):
    """the texts that are smaller than c (or equal to it)"""
    out = rx.words([c[:i] for i in range(len(c))] + ([c] if incl else [])) if c or incl else rx.minus(rx.ANY, rx.ANY)
    for i, ch in enumerate(c):
        if ord(ch):
            out = rx.union(out, rx.concat(rx.word(c[:i]), rx.chars([(0, ord(ch) - 1)]), rx.ANY))
    return out


def text_less(a, b, strict):
    """a < b or a <= b of two abstract texts: any order of unrestricted texts is possible unless earlier decisions imply it"""
    xs = [x.find() if isinstance(x, AbsStr) else x for x in (a, b)]
    if xs[0] is xs[1]:
        return not strict
    if not all(isinstance(x, AbsStr) and not x.pres and x.root.lo == 0 and x.root.hi is None and rx.equal(x.root.lang, rx.ANY) for x in xs):
        return choose(2, "text < text", taint="ordering of texts") == 0
    order = ctx().memo.setdefault("text order", [])  # (smaller, larger, strict)

    def path(p, q):
        """None, or whether some chain p <= ... <= q contains a strict step"""
        best, todo, seen = None, [(p, False)], set()
        while todo:
            n, st = todo.pop()
            if (id(n), st) in seen:
                continue
            seen.add((id(n), st))
            if n is q:
                best = best or st
            todo += [(y, st or s) for x, y, s in order if x is n]
        return best
    up, down = path(xs[0], xs[1]), path(xs[1], xs[0])
    if up or up is not None and not strict:
        return True
    if down or down is not None and strict:
        return False
    r = choose(2, "text < text", taint=None if up is None and down is None else "ordering of texts") == 0
    order.append((xs[0], xs[1], strict) if r else (xs[1], xs[0], not strict))
    return r


def compare(interp, op, a, b):
    if op == "is":
        return is_(interp, a, b)
    if op == "is not":
        return not is_(interp, a, b)
    if op == "==":
        a, b = force(a), force(b)
        if isinstance(a, Inst):
            f = a.cls.lookup("__eq__")
            if isinstance(f, PyFunc):
                r = interp.call(interp.bind(f, a, a.cls), [b], {})
                if r is not NotImplemented:
                    return r
        return eq(interp, a, b)
    if op == "!=":
        a, b = force(a), force(b)
        if isinstance(a, Inst):
            f = a.cls.lookup("__ne__")
            if f is not None:
                r = interp.call(interp.bind(f, a, a.cls), [b], {})
                if r is not NotImplemented:
                    return r
        return not eq(interp, a, b)
    if op == "in":
        return contains(interp, b, a)
    if op == "not in":
        return not contains(interp, b, a)
    a, b = force(a), force(b)
    if isinstance(a, AbsBool):
        a = a.get()
    if isinstance(b, AbsBool):
        b = b.get()
    if isinstance(a, (int, float, AbsInt, AbsFloat)) and isinstance(b, (int, float, AbsInt, AbsFloat)):
        return num_compare(interp, op, a, b)
    f = {"<": operator.lt, "<=": operator.le, ">": operator.gt, ">=": operator.ge}[op]
    if isinstance(a, str) and isinstance(b, str) or isinstance(a, bytes) and isinstance(b, bytes):
        return f(a, b)
    if isinstance(a, STR) and isinstance(b, STR):
        if op in (">", ">="):
            a, b, op = b, a, {">": "<", ">=": "<="}[op]
        ca, cb = const_of(a), const_of(b)
        if ca is not None and cb is not None:
            return ca < cb if op == "<" else ca <= cb
        if cb is not None:
            return str_test(a, less_lang(cb, op == "<="), f"text {op} {cb[:20]!r}")
        if ca is not None:
            return not str_test(b, less_lang(ca, op == "<"), f"{ca[:20]!r} {op} text")
        return text_less(a, b, op == "<")
    if isinstance(a, PySet) and isinstance(b, PySet):
        sub, sup = set_sub(interp, a, b), set_sub(interp, b, a)
        return {"<": sub and not sup, "<=": sub, ">": sup and not sub, ">=": sup}[op]
    if isinstance(a, Inst) or isinstance(b, Inst):
        names = {"<": ("__lt__", "__gt__"), "<=": ("__le__", "__ge__"), ">": ("__gt__", "__lt__"), ">=": ("__ge__", "__le__")}[op]
        if isinstance(a, Inst) and a.cls.lookup(names[0]) is not None:
            r = interp.call(interp.bind(a.cls.lookup(names[0]), a, a.cls), [b], {})
            if r is not NotImplemented:
                return r
        if isinstance(b, Inst) and b.cls.lookup(names[1]) is not None:
            r = interp.call(interp.bind(b.cls.lookup(names[1]), b, b.cls), [a], {})
            if r is not NotImplemented:
                return r
        va, vb = mixin_value(a), mixin_value(b)
        if va is not a or vb is not b:
            return compare(interp, op, va, vb)
    if isinstance(a, (tuple, PyList)) and type(a) is type(b):
        xs = a if isinstance(a, tuple) else a.items
        ys = b if isinstance(b, tuple) else b.items
        for x, y in zip(xs, ys):
            if isinstance(x, Seg) or isinstance(y, Seg):
                raise Unsupported("ordering of summarised lists")
            if not eq(interp, x, y):
                return compare(interp, op, x, y)
        return f(len(xs), len(ys))
    if isinstance(a, Opaque) or isinstance(b, Opaque):
        r = a.reason if isinstance(a, Opaque) else b.reason
        return choose(2, f"{op} {r}", taint="comparison with unmodelled value " + r) == 0
    for x in (a, b):
        need_host(x, {"<": "__lt__", "<=": "__le__", ">": "__gt__", ">=": "__ge__"}.get(op, "?"))
    interp.throw("TypeError", f"'{op}' not supported between instances of '{type_of(interp, a).name}' and '{type_of(interp, b).name}'")


def contains(interp, c, x):
    c = force(c)
    x = force(x)
    if isinstance(c, STR):
        if not isinstance(x, STR):
            interp.throw("TypeError", "'in <string>' requires string as left operand, not " + type_of(interp, x).name)
        wx = const_of(x)
        if isinstance(c, str) and wx is not None:
            return wx in c
        if wx is not None:
            return str_test(c, rx.contains(wx), f"{wx!r} in text")
        wc = const_of(c)
        if wc is not None and len(wc) < 200:
            subs = sorted({wc[i:j] for i in range(len(wc) + 1) for j in range(i, len(wc) + 1)})
            return str_test(x, rx.words(subs), f"text in {wc!r}")
        if isinstance(c, StrCat) and any(same_part(p, x) for p in c.parts):
            return True
        if isinstance(x, AbsStr) and isinstance(c, AbsStr) and same_part(x, c):
            return True
        return choose(2, "text in text", taint="containment of unknown texts") == 0
    if isinstance(c, PyDict):
        return dict_find(interp, c, x) is not None
    if isinstance(c, PySet):
        return set_has(interp, c, x)
    if isinstance(c, SplitList):
        c = c.resolve(interp)
    if isinstance(c, (PyList, tuple)):
        items = c if isinstance(c, tuple) else c.items
        if isinstance(x, AbsStr) and items and all(isinstance(i, str) for i in items):
            return x.test(rx.words(sorted(set(items))), f"{x.name} in {{{','.join(sorted(set(items))[:4])}}}")
        if isinstance(x, AbsEnum) and all(isinstance(i, Inst) for i in items) and not x.cls.has("__eq__"):
            return x.test([i for i in items])
        for i in iterate(interp, c):
            if isinstance(i, Rest):
                if i.count.hi != 0:
                    taint("membership in the remainder of a summarised list")
                continue
            if i is x or eq(interp, i, x):
                return True
        return False
    if type(c).__name__ == "NsDict":
        return x in c.d
    if isinstance(c, PyClass) and c.members is not None:
        if isinstance(x, (Inst, AbsEnum)):
            return x.cls is c
        for m in c.members:
            if eq(interp, m.attrs["_value_"], x):
                return True
        return False
    if isinstance(c, Inst):
        f = c.cls.lookup("__contains__")
        if f is not None:
            return truth(interp, interp.call(interp.bind(f, c, c.cls), [x], {}))
    if isinstance(c, Opaque):
        return choose(2, "in " + c.reason, taint="membership in unmodelled value " + c.reason) == 0
    if isinstance(c, (bytes, AbsBytes)):
        if isinstance(c, bytes) and isinstance(x, bytes):
            return x in c
        return choose(2, "in bytes", taint="membership in bytes") == 0
    if isinstance(c, HostView):
        if isinstance(x, AbsBool):
            x = x.get()
        if isinstance(x, AbsInt):
            w = x.single()
            if w is not None:
                return w in c.v
            if not isinstance(c.v, range):
                raise Unsupported("unknown integer in host value")
            r = c.v if c.v.step > 0 else c.v[::-1]
            if not r or not truth(interp, compare(interp, ">=", x, r[0])) or not truth(interp, compare(interp, "<=", x, r[-1])):
                return False
            return r.step == 1 or truth(interp, eq(interp, binop(interp, "Mod", x, r.step), r[0] % r.step))
        if isinstance(x, (AbsFloat, Opaque)):
            raise Unsupported("unknown number in host value")
        return x in c.v if isinstance(x, (int, float, str, bytes, tuple, type(None))) else False
    if c is None or isinstance(c, (int, float, bool, AbsInt, AbsFloat, AbsBool, PyFunc, Native, PyModule)):
        interp.throw("TypeError", f"argument of type '{type_of(interp, c).name}' is not iterable")
    for i in iterate(interp, c):
        if isinstance(i, Rest):
            continue
        if eq(interp, i, x):
            return True
    return False


class HostView:
    """immutable host value without a dedicated model (range, slices of constants)"""
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v


# ------------------------------------------------------------------ arithmetic
HOSTOP = {"Add": operator.add, "Sub": operator.sub, "Mult": operator.mul, "Div": operator.truediv, "FloorDiv": operator.floordiv, "Mod": operator.mod, "Pow": operator.pow, "BitOr": operator.or_, "BitAnd": operator.and_, "BitXor": operator.xor, "LShift": operator.lshift, "RShift": operator.rshift}
RD = {"Add": "__radd__", "Sub": "__rsub__", "Mult": "__rmul__", "Div": "__rtruediv__", "FloorDiv": "__rfloordiv__", "Mod": "__rmod__", "Pow": "__rpow__", "BitOr": "__ror__", "BitAnd": "__rand__", "BitXor": "__rxor__"}
SYM = {"Add": "+", "Sub": "-", "Mult": "*", "Div": "/", "FloorDiv": "//", "Mod": "%", "Pow": "**", "BitOr": "|", "BitAnd": "&", "BitXor": "^", "LShift": "<<", "RShift": ">>"}


def host_call(interp, f, *a, **k):
    try:
        return f(*a, **k)
    except Exception as e:
        n = type(e).__name__
        if n in interp.builtins:
            if isinstance(e, UnicodeError):
                interp.throw(n, str(e))
            interp.throw(n, *[x for x in e.args if isinstance(x, (str, int))])
        raise Unsupported(f"host exception {n}")


def binop(interp, op, a, b):
    a, b = force(a), force(b)
    if isinstance(a, AbsBool):
        a = a.get()
    if isinstance(b, AbsBool):
        b = b.get()
    if isnum(a) and isnum(b):
        return host_call(interp, HOSTOP[op], a, b)
    if isinstance(a, Inst) or isinstance(b, Inst):
        from .interp import DUNDER
        if isinstance(a, Inst):
            f = a.cls.lookup(DUNDER[op])
            if f is not None:
                r = interp.call(interp.bind(f, a, a.cls), [b], {})
                if r is not NotImplemented:
                    return r
        if isinstance(b, Inst):
            f = b.cls.lookup(RD.get(op, "__none__"))
            if f is not None:
                r = interp.call(interp.bind(f, b, b.cls), [a], {})
                if r is not NotImplemented:
                    return r
        va, vb = mixin_value(a), mixin_value(b)
        if va is not a or vb is not b:
            return binop(interp, op, va, vb)
    if isinstance(a, AbsEnum):
        from .interp import DUNDER
        f = a.cls.lookup(DUNDER[op])
        if f is not None:
            return interp.call(interp.bind(f, a, a.cls), [b], {})
    if op == "Add":
        if isinstance(a, STR) and isinstance(b, STR):
            return cat(a, b)
        if isinstance(a, SplitList):
            a = a.resolve(interp)
        if isinstance(b, SplitList):
            b = b.resolve(interp)
        if isinstance(a, PyList) and isinstance(b, PyList):
            return PyList(list(a.items) + list(b.items))
        if isinstance(a, tuple) and isinstance(b, tuple):
            return a + b
        if isinstance(a, bytes) and isinstance(b, bytes):
            return a + b
        if isinstance(a, (bytes, AbsBytes)) and isinstance(b, (bytes, AbsBytes)):
            return AbsBytes("bytes")
    if op == "Mult":
        if isinstance(b, STR + (PyList, tuple)) and isinstance(a, (int, AbsInt)):
            a, b = b, a
        if isinstance(a, str) and isinstance(b, int):
            return a * b
        if isinstance(a, (AbsStr, StrCat)) and isinstance(b, int):
            return cat(*([a] * b))
        if isinstance(a, STR) and isinstance(b, AbsInt):
            v = b.single()
            if v is not None:
                return binop(interp, op, a, v)
            return StrCat([Part("repeat", (a, b))])
        if isinstance(a, PyList) and isinstance(b, int):
            return PyList(list(a.items) * b)
        if isinstance(a, tuple) and isinstance(b, int):
            return a * b
    if op == "Mod" and isinstance(a, STR):
        return percent_format(interp, a, b)
    if isinstance(a, (AbsInt, int)) and isinstance(b, (AbsInt, int)):
        return int_op(interp, op, a, b)
    if isinstance(a, (AbsInt, AbsFloat, int, float)) and isinstance(b, (AbsInt, AbsFloat, int, float)):
        return AbsFloat()
    if op in ("BitOr", "BitAnd", "Sub", "BitXor"):
        if isinstance(a, DictView):
            a = a.as_set(interp)
        if isinstance(b, DictView):
            b = b.as_set(interp)
    if isinstance(a, PySet) and isinstance(b, PySet):
        out = PySet(frozen=a.frozen)
        if op == "BitOr":
            for k in list(a.d.values()) + list(b.d.values()):
                set_add(interp, out, k)
            return out
        if op == "BitAnd":
            for k in list(a.d.values()):
                if set_has(interp, b, k):
                    set_add(interp, out, k)
            return out
        if op == "Sub":
            for k in list(a.d.values()):
                if not set_has(interp, b, k):
                    set_add(interp, out, k)
            return out
        if op == "BitXor":
            for k in list(a.d.values()):
                if not set_has(interp, b, k):
                    set_add(interp, out, k)
            for k in list(b.d.values()):
                if not set_has(interp, a, k):
                    set_add(interp, out, k)
            return out
    if op == "BitOr" and isinstance(a, PyDict) and isinstance(b, PyDict):
        out = PyDict()
        for d in (a, b):
            for k, v in dict_items(interp, d):
                setitem(interp, out, k, v)
        return out
    if op == "BitOr" and isinstance(a, (PyClass, Alias, type(None))) and isinstance(b, (PyClass, Alias, type(None))):
        return interp.L.union(interp, [a, b])
    if isinstance(a, Opaque) or isinstance(b, Opaque):
        return Opaque((a.reason if isinstance(a, Opaque) else b.reason) + " " + SYM.get(op, op))
    ta, tb = type_of(interp, a).name, type_of(interp, b).name
    if op == "Add" and isinstance(a, STR):
        interp.throw("TypeError", f'can only concatenate str (not "{tb}") to str')
    from .interp import DUNDER
    for x in (a, b):
        need_host(x, DUNDER.get(op, "?"))
    interp.throw("TypeError", f"unsupported operand type(s) for {SYM.get(op, op)}: '{ta}' and '{tb}'")


def int_op(interp, op, a, b):
    if isinstance(a, AbsInt):
        v = a.single()
        if v is not None and isinstance(b, int):
            return host_call(interp, HOSTOP[op], v, b)
    if isinstance(b, AbsInt):
        v = b.single()
        if v is not None:
            return int_op(interp, op, a, v) if isinstance(a, AbsInt) else host_call(interp, HOSTOP[op], a, v)
    if isinstance(a, AbsInt) and isinstance(b, int):
        if op == "Add":
            return a.then("affine", 1, b)
        if op == "Sub":
            return a.then("affine", 1, -b)
        if op == "Mult":
            if b == 0:
                return 0
            return a.then("mul", b)
        if op == "Mod":
            if b == 0:
                interp.throw("ZeroDivisionError", "integer modulo by zero")
            if b > 0:
                return a.then("mod", b)
        if op == "FloorDiv":
            if b == 0:
                interp.throw("ZeroDivisionError", "integer division or modulo by zero")
            if b > 0:
                return a.then("div", b)
    elif isinstance(b, AbsInt) and isinstance(a, int):
        if op == "Add":
            return b.then("affine", 1, a)
        if op == "Sub":
            return b.then("affine", -1, a)
        if op == "Mult":
            if a == 0:
                return 0
            return b.then("mul", a)
    if isinstance(a, AbsInt) and isinstance(b, AbsInt) and op in ("Add", "Sub"):
        if isinstance(a.src, SumCount) and isinstance(b.src, SumCount) and op == "Add":
            ra, rb = _affine(a), _affine(b)
            if ra and rb and ra[0] == 1 and rb[0] == 1:
                return AbsInt(SumCount(a.src.counts + b.src.counts, a.src.k + b.src.k + ra[1] + rb[1]))
    if op == "Div":
        return AbsFloat()
    return unknown_int(f"integer {SYM.get(op, op)}")


def percent_format(interp, a, b):
    w = const_of(a)
    if w is None:
        return StrCat([Part("format", a)])
    import re
    args = list(b) if isinstance(b, tuple) else [b]
    out = []
    pos = 0
    i = 0
    for m in re.finditer(r"%(?:(%)|([sdr])|(\((\w+)\)s)|([-+ #0]*\d*(?:\.\d+)?[sdrifeEgGxXoc]))|%", w):
        out.append(w[pos: m.start()])
        pos = m.end()
        if m.group(1):
            out.append("%")
        elif m.group(2):
            if i >= len(args):
                interp.throw("TypeError", "not enough arguments for format string")
            v = args[i]
            i += 1
            out.append(repr_(interp, v) if m.group(2) == "r" else str_(interp, v))
        elif m.group(3):
            out.append(str_(interp, getitem(interp, b, m.group(4))))
            i = len(args)
        elif m.group(5):
            if i >= len(args):
                interp.throw("TypeError", "not enough arguments for format string")
            v = force(args[i])
            i += 1
            kind = m.group(5)[-1]
            v = repr_(interp, v) if kind == "r" else str_(interp, v) if kind == "s" else v
            cw = const_of(v) if not isinstance(v, (int, float)) else v
            if cw is None:
                return StrCat([Part("format", a)])
            out.append(host_call(interp, lambda q, x: q % x, "%" + m.group(5)[:-1] + ("s" if kind in "rs" else kind), cw))
        else:
            return StrCat([Part("format", a)])
    out.append(w[pos:])
    if i < len(args) and not isinstance(b, PyDict):
        interp.throw("TypeError", "not all arguments converted during string formatting")
    return cat(*out)


# ------------------------------------------------------------------ containers
def snap(o):
    if o.gen == 0 and not State.loading:
        if isinstance(o, PyList):
            State.ctx.trail.append((o, ("items", list(o.items))))
        elif isinstance(o, PyDict):
            State.ctx.trail.append((o, ("dict", {k: list(v) for k, v in o.d.items()}, o.nabs)))
        elif isinstance(o, PySet):
            State.ctx.trail.append((o, ("set", dict(o.d), o.nabs)))


def hashable(interp, k):
    k = force(k)
    if isinstance(k, (PyList, PyDict, SplitList)) or (isinstance(k, PySet) and not k.frozen):
        interp.throw("TypeError", f"unhashable type: '{type_of(interp, k).name}'")
    if isinstance(k, tuple):
        return tuple(hashable(interp, x) for x in k)
    if isinstance(k, Inst):
        for c in k.cls.mro:
            if "__hash__" in c.ns:
                h = c.ns["__hash__"]
                if h is None:
                    interp.throw("TypeError", f"unhashable type: '{k.cls.name}'")
                break
        if k.cls.members is not None:
            k = mixin_value(k)
    if isinstance(k, AbsBool):
        return k.get()
    if isinstance(k, (AbsStr, StrCat)):
        w = const_of(k)
        if w is not None:
            return w
    if isinstance(k, AbsInt):
        w = k.single()
        if w is not None:
            return w
    if isinstance(k, AbsEnum):
        k.sync()
        if len(k.members) == 1:
            return k.members[0]
    return k


def is_abs(k):
    if isinstance(k, (AbsStr, StrCat, AbsInt, AbsEnum, AbsFloat, AbsBytes, Opaque, PySet)):
        return True
    if isinstance(k, tuple):
        return any(is_abs(x) for x in k)
    if isinstance(k, Inst) and k.cls.members is None and isinstance(k.cls.lookup("__eq__"), (PyFunc, Native)):
        return True
    return False


NOKEY = object()


def _find(interp, d, k):
    """token of the entry equal to k, or None; d: dict token -> ..."""
    nabs = None
    if not is_abs(k):
        try:
            if k in d:
                return k
        except TypeError:
            raise Unsupported("host-unhashable key")
        for t in list(d):
            if is_abs(t) and eq(interp, t, k):
                return t
        return NOKEY
    if k in d:
        return k
    if isinstance(k, AbsStr):
        ks = [t for t in d if isinstance(t, str)]
        if len(ks) > 3:
            # decide in one step whether it is any of the constants
            cand = [t for t in ks if k.can(rx.word(t))]
            if cand:
                rest = rx.words(cand).neg()
                opts = [(t, rx.word(t)) for t in cand]
                if k.can(rest):
                    opts.append((NOKEY, rest))
                i = choose(len(opts), f"{k.name} among {len(cand)} keys")
                k.must(opts[i][1])
                if opts[i][0] is not NOKEY:
                    return opts[i][0]
            for t in list(d):
                if is_abs(t) and eq(interp, t, k):
                    return t
            return NOKEY
    if isinstance(k, AbsEnum):
        k.sync()
        cand = [t for t in d if isinstance(t, Inst) and t in k.members]
        oth = [m for m in k.members if m not in cand]
        opts = [[t] for t in cand] + ([oth] if oth else [])
        if opts:
            i = choose(len(opts), f"{k.label} among keys")
            k.restrict(opts[i])
            if i < len(cand):
                return cand[i]
        return NOKEY
    for t in list(d):
        if eq(interp, t, k):
            return t
    return NOKEY


def dict_find(interp, d, k):
    k = hashable(interp, k)
    t = _find(interp, d.d, k)
    if t is NOKEY:
        return None
    e = d.d[t]
    if isinstance(e[1], Maybe):
        m = e[1]
        if choose(2, f"{m.label} present") == 0:
            e[1] = m.value
        else:
            del d.d[t]
            return None
    return e


def resolve_all(d):
    for t in list(d.d):
        e = d.d[t]
        if isinstance(e[1], Maybe):
            m = e[1]
            if choose(2, f"{m.label} present") == 0:
                e[1] = m.value
            else:
                del d.d[t]


def dict_items(interp, v):
    v = force(v)
    if isinstance(v, PyDict):
        resolve_all(v)
        return [(e[0], e[1]) for e in v.d.values()]
    if type(v).__name__ == "NsDict":
        return list(v.d.items())
    if isinstance(v, Inst) and v.cls.has("keys"):
        ks = list(iterate(interp, interp.call(interp.getattr_(v, "keys"), [], {})))
        return [(k, getitem(interp, v, k)) for k in ks]
    if isinstance(v, Opaque):
        raise Unsupported("** of " + v.reason)
    interp.throw("TypeError", "argument after ** must be a mapping")


def set_has(interp, s, x):
    x = hashable(interp, x)
    if isinstance(x, AbsStr) and s.d and all(isinstance(k, str) for k in s.d):
        return x.test(rx.words(sorted(s.d)), f"{x.name} in set")
    if isinstance(x, AbsEnum) and all(isinstance(k, (Inst, str)) for k in s.d):
        return x.test([k for k in s.d if isinstance(k, Inst)])
    return _find(interp, s.d, x) is not NOKEY


def set_add(interp, s, x):
    x = hashable(interp, x)
    if _find(interp, s.d, x) is NOKEY:
        snap(s)
        s.put(x)


def len_(interp, v):
    v = force(v)
    if isinstance(v, (str, tuple, bytes)):
        return len(v)
    if isinstance(v, AbsStr):
        w = v.single()
        if w is not None:
            return len(w)
        return AbsInt(LenStr(v), (), f"len({v.name})")
    if isinstance(v, StrCat):
        w = const_of(v)
        if w is not None:
            return len(w)
        ab = [p for p in v.parts if not isinstance(p, str)]
        k = sum(len(p) for p in v.parts if isinstance(p, str))
        if len(ab) == 1 and isinstance(ab[0], AbsStr):
            return AbsInt(LenStr(ab[0]), (("affine", 1, k),), "len")
        return AbsInt(CatLen(v), (), "len(text)")
    if isinstance(v, SplitList):
        v = v.resolve(interp)
    if isinstance(v, PyList):
        cs = [x.count for x in v.items if isinstance(x, Seg)]
        n = len(v.items) - len(cs)
        if not cs:
            return n
        r = AbsInt(SumCount(cs, n), (), "len(list)")
        s = r.single()
        return s if s is not None else r
    if isinstance(v, PyDict):
        resolve_all(v)
        return len(v.d)
    if isinstance(v, PySet):
        return len(v.d)
    if type(v).__name__ == "NsDict":
        return len(v.d)
    if isinstance(v, DictView):
        return len(v.items(interp))
    if isinstance(v, HostView):
        return len(v.v)
    if isinstance(v, PyClass) and v.members is not None:
        return len(v.members)
    if isinstance(v, AbsBytes):
        if v.text is not None:
            return unknown_int("length of bytes")
        return unknown_int("length of bytes")
    if isinstance(v, Inst):
        f = v.cls.lookup("__len__")
        if f is not None:
            return interp.call(interp.bind(f, v, v.cls), [], {})
    if isinstance(v, Opaque):
        return unknown_int("len of unmodelled value " + v.reason)
    interp.throw("TypeError", f"object of type '{type_of(interp, v).name}' has no len()")


class CatLen:
    __slots__ = ("s",)

    def __init__(self, s):
        self.s = s

    def range(self):
        return ISet([(0, None)])

    def test(self, s, label):
        if isinstance(s, ModSet):
            return choose(2, label, taint="length of text") == 0
        s = s.inter(ISet([(0, None)]))
        l = rx.EMPTY
        for a, b in s.iv:
            l = rx.union(l, rx.length(a, b))
        return str_test(self.s, l, label)


def iterate(interp, v):
    """yields elements; Rest marks the unexamined remainder of a summarised segment"""
    v = force(v)
    if isinstance(v, SplitList):
        v = v.resolve(interp)
    t = type(v)
    if t is PyList:
        return _iter_list(v)
    if t is tuple:
        return iter(v)
    if t is str:
        return iter(v)
    if t is PyDict:
        return _iter_dict(v)
    if t is PySet:
        return iter(list(v.d.values()))
    if t is PyGen:
        return v.it
    if t is DictView:
        return iter(v.items(interp))
    if t is HostView:
        return iter(v.v)
    if t.__name__ == "NsDict":
        return iter(list(v.d))
    if t in (AbsStr, StrCat):
        w = const_of(v)
        if w is not None:
            return iter(w)
        return _iter_str(interp, v)
    if t is PyClass:
        if v.members is not None:
            return iter(list(v.members))
        m = v.meta.lookup("__iter__") if v.meta is not None else None
        if m is not None:
            return iterate(interp, interp.call(interp.bind(m, v, v.meta), [], {}))
    if t is bytes:
        return iter(v)
    if t is Inst:
        f = v.cls.lookup("__iter__")
        if f is not None:
            r = force(interp.call(interp.bind(f, v, v.cls), [], {}))
            if isinstance(r, Inst) and r.cls.has("__next__"):
                return _iter_next(interp, r, r.cls.lookup("__next__"))
            return iterate(interp, r)
        f = v.cls.lookup("__next__")
        if f is not None:
            return _iter_next(interp, v, f)
        f = v.cls.lookup("__getitem__")
        if f is not None:
            return _iter_getitem(interp, v, f)
    if t is Opaque:
        raise Unsupported("iteration over unmodelled value " + v.reason)
    if issubclass(t, AbsBytes):
        raise Unsupported("iteration over bytes")
    interp.throw("TypeError", f"'{type_of(interp, v).name}' object is not iterable")


def _iter_next(interp, v, f):
    n = 0
    while True:
        try:
            x = interp.call(interp.bind(f, v, v.cls), [], {})
        except PyRaise as pr:
            if pr.exc.cls.name == "StopIteration":
                return
            raise
        n += 1
        if n > 5000:
            raise Unsupported("iterator bound")
        yield x


def _iter_getitem(interp, v, f):
    n = 0
    while n < 5000:
        try:
            x = interp.call(interp.bind(f, v, v.cls), [n], {})
        except PyRaise as pr:
            if pr.exc.cls.name == "IndexError":
                return
            raise
        n += 1
        yield x
    raise Unsupported("iterator bound")


def _iter_str(interp, v):
    """characters of an abstract string: up to 3, then undecided"""
    if isinstance(v, StrCat):
        for p in v.parts:
            if isinstance(p, str):
                yield from p
            elif isinstance(p, AbsStr):
                yield from _iter_str(interp, p)
            else:
                raise Unsupported("iteration over rendered text")
        return
    i = 0
    while True:
        if not truth(interp, compare(interp, ">", len_(interp, v), i)):
            return
        if i >= 3:
            taint("iteration over more than 3 characters")
            return
        yield index_str(interp, v, i)
        i += 1


def _split_seg(lst, i):
    s = lst.items[i]
    c = s.count
    K = State.ctx.seg_k
    made = []
    while len(made) < K:
        if c.hi is not None and c.hi <= len(made):
            break
        if c.lo <= len(made):
            if choose(2, f"another element ({c.name})") == 1:
                c.refine(hi=len(made))
                break
            c.refine(lo=len(made) + 1)
        made.append(s.get(len(made)))
    n = len(made)
    rest = Seg(s.factory, count=Count(max(0, c.lo - n), None if c.hi is None else c.hi - n, c.name + f"-{n}"))
    rest.closed = True
    rest.made = []
    repl = list(made)
    if rest.count.hi != 0:
        repl.append(rest)
    lst.items[i: i + 1] = repl


def _iter_list(l):
    i = 0
    while i < len(l.items):
        x = l.items[i]
        if isinstance(x, Seg):
            if x.closed or x.factory is None:
                yield Rest(x.count)
                i += 1
                continue
            _split_seg(l, i)
            continue
        yield x
        i += 1


def _iter_dict(d):
    resolve_all(d)
    n = len(d.d)
    for e in list(d.d.values()):
        yield e[0]
        if len(d.d) != n:
            State.interp.throw("RuntimeError", "dictionary changed size during iteration")


class DictView:
    __slots__ = ("d", "kind")

    def __init__(self, d, kind):
        self.d = d
        self.kind = kind

    def items(self, interp):
        it = dict_items(interp, self.d)
        if self.kind == "keys":
            return [k for k, v in it]
        if self.kind == "values":
            return [v for k, v in it]
        return [(k, v) for k, v in it]

    def as_set(self, interp):
        s = PySet()
        for x in self.items(interp):
            set_add(interp, s, x)
        return s


def pick_index(interp, n, i):
    """the valid index that an unknown integer equals (case distinction); n if it is out of range"""
    if truth(interp, compare(interp, ">=", i, 0)):
        for v in range(n):
            if truth(interp, compare(interp, "==", i, v)):
                return v
        return n
    for v in range(-n, 0):
        if truth(interp, compare(interp, "==", i, v)):
            return v
    return n


def list_get(interp, l, i):
    """element i of a list that may contain summarised segments"""
    if isinstance(i, AbsInt):
        v = i.single()
        if v is None:
            if l.has_seg() or len(l.items) > 64:
                raise Unsupported("list index unknown")
            v = pick_index(interp, len(l.items), i)
        i = v
    if not l.has_seg():
        try:
            return l.items[i]
        except IndexError:
            interp.throw("IndexError", "list index out of range")
    n = len_(interp, l)
    k = i + 1 if i >= 0 else -i
    if not truth(interp, compare(interp, ">=", n, k)):
        interp.throw("IndexError", "list index out of range")
    if i >= 0:
        j = 0
        p = 0
        while p < len(l.items):
            x = l.items[p]
            if isinstance(x, Seg):
                if x.closed or x.factory is None:
                    raise Unsupported("element of summarised remainder")
                old = State.ctx.seg_k
                State.ctx.seg_k = max(old, i - j + 1)
                _split_seg(l, p)
                State.ctx.seg_k = old
                continue
            if j == i:
                return x
            j += 1
            p += 1
        interp.throw("IndexError", "list index out of range")
    raise Unsupported("negative index into summarised list")


def getitem(interp, o, k):
    o = force(o)
    k = force(k)
    t = type(o)
    if t is PyDict:
        e = dict_find(interp, o, k)
        if e is None:
            if o.default is not None:
                v = interp.call(o.default, [], {})
                setitem(interp, o, k, v)
                return v
            ms = o.cls.lookup("__missing__") if o.cls is not None else None
            if ms is not None:
                return interp.call(interp.bind(ms, o, o.cls), [k], {})
            interp.throw("KeyError", k)
        return e[1]
    if type(k) is Inst and k.cls.members is not None and k.cls.issub(interp.builtins["int"]) and t is not PyClass:
        k = force(k.attrs["_value_"])
    from .interp import SliceV, NsDict
    if isinstance(k, SliceV):
        a, b, c = force(k.a), force(k.b), force(k.c)
        if t in (str, tuple, bytes) and not any(isinstance(x, AbsInt) and x.single() is None for x in (a, b, c)):
            f = lambda x: x.single() if isinstance(x, AbsInt) else x
            return host_call(interp, operator.getitem, o, slice(f(a), f(b), f(c)))
        if t in (str,):
            return StrCat([Part("slice", o)])
        if t in (AbsStr, StrCat):
            return slice_str(interp, o, a, b, c)
        if t is SplitList:
            o = o.resolve(interp)
            t = PyList
        if t is PyList:
            if o.has_seg():
                if a in (None, 0) and b is None and c is None:
                    return PyList(o.items)
                if isinstance(a, int) and a > 0 and b is None and c is None and all(not isinstance(x, Seg) for x in o.items[:a]):
                    return PyList(o.items[a:])
                if a in (None, 0) and isinstance(b, int) and b >= 0 and all(not isinstance(x, Seg) for x in o.items[:b]):
                    return PyList(o.items[:b])
                raise Unsupported("slice of summarised list")
            if any(isinstance(x, AbsInt) for x in (a, b, c)):
                raise Unsupported("slice with unknown bounds")
            return PyList(o.items[a:b:c])
        if t is HostView:
            return HostView(o.v[a:b:c])
        if issubclass(t, AbsBytes):
            return AbsBytes(o.name)
        if t is Opaque:
            return Opaque(o.reason + "[]")
    if t in (str, AbsStr, StrCat):
        if not isinstance(k, (int, AbsInt)):
            interp.throw("TypeError", "string indices must be integers, not '" + type_of(interp, k).name + "'")
        return index_str(interp, o, k)
    if t is SplitList:
        if isinstance(k, int) and k in (0,):
            # first part is defined whatever the count
            F = lang_first_end(o.sep)
            s = o.s
            if o.done is None and not o.right:
                if not s.can(rx.contains(o.sep)):
                    return s
                w = rx.word(o.sep)
                return s.derive(lambda P: rx.union(rx.concat(rx.inter(rx.concat(P, w), F), rx.ANY), rx.inter(P, nosep(o.sep))), f"{s.name}.split[0]")
        if isinstance(k, int) and k == -1 and o.done is None and not o.right and (o.maxsplit is None or o.maxsplit < 0):
            s = o.s
            if not s.can(rx.contains(o.sep)):
                return s
            w = rx.word(o.sep)
            if len(o.sep) == 1:
                return s.derive(lambda P: rx.union(rx.concat(rx.ANY, w, rx.inter(P, nosep(o.sep))), rx.inter(P, nosep(o.sep))), f"{s.name}.split[-1]")
        o = o.resolve(interp)
        t = PyList
    if t is PyList:
        if isinstance(k, (int, AbsInt)):
            return list_get(interp, o, k)
        if isinstance(k, AbsBool):
            return list_get(interp, o, int(k.get()))
        interp.throw("TypeError", "list indices must be integers or slices, not " + type_of(interp, k).name)
    if t is tuple:
        if isinstance(k, AbsInt):
            v = k.single()
            if v is None:
                if len(o) > 64:
                    raise Unsupported("tuple index unknown")
                v = pick_index(interp, len(o), k)
            k = v
        if isinstance(k, AbsBool):
            k = k.get()
        if not isinstance(k, int):
            interp.throw("TypeError", "tuple indices must be integers or slices")
        try:
            return o[k]
        except IndexError:
            interp.throw("IndexError", "tuple index out of range")
    if t is NsDict:
        kk = const_of(k) if isinstance(k, STR) else k
        if kk in o.d:
            return o.d[kk]
        interp.throw("KeyError", k)
    if t is Special or t is Alias or (t is PyClass and o.ns.get("__class_getitem__") is None and o.members is None and not (o.meta is not None and o.meta.has("__getitem__"))):
        return interp.L.subscript(interp, o, k)
    if t is PyClass:
        if o.members is not None:
            for m in o.members:
                if isinstance(k, str):
                    if m.attrs["_name_"] == k:
                        return m
                elif isinstance(k, AbsStr):
                    if k.test(rx.word(m.attrs["_name_"]), f"{k.name} == {m.attrs['_name_']}"):
                        return m
            al = getattr(o, "enum_aliases", {})
            if isinstance(k, str) and k in al:
                return al[k]
            interp.throw("KeyError", k)
        f = o.lookup("__class_getitem__")
        return interp.call(interp.bind(f, o, o), [k], {})
    if t is Inst:
        f = o.cls.lookup("__getitem__")
        if f is not None:
            return interp.call(interp.bind(f, o, o.cls), [k], {})
    if t is Opaque:
        return Opaque(o.reason + "[]")
    if t is bytes and isinstance(k, int):
        return host_call(interp, operator.getitem, o, k)
    if issubclass(t, AbsBytes):
        return unknown_int("byte")
    if t is HostView:
        if isinstance(k, AbsInt) and k.single() is None:
            if len(o.v) > 64:
                raise Unsupported("range index unknown")
            k = pick_index(interp, len(o.v), k)
        elif isinstance(k, AbsInt):
            k = k.single()
        return host_call(interp, operator.getitem, o.v, k)
    interp.throw("TypeError", f"'{type_of(interp, o).name}' object is not subscriptable")


def setitem(interp, o, k, v):
    o = force(o)
    k = force(k)
    t = type(o)
    if t is PyDict:
        k = hashable(interp, k)
        e = None
        if not o.nabs and not is_abs(k):
            e = o.d.get(k)
            snap(o)
            if e is None:
                o.d[k] = [k, v]
            else:
                e[1] = v
            return
        tok = _find(interp, o.d, k)
        snap(o)
        if tok is NOKEY:
            if is_abs(k):
                o.nabs += 1
            o.d[k] = [k, v]
        else:
            o.d[tok][1] = v
        return
    if t is PyList:
        if isinstance(k, AbsInt):
            kk = k.single()
            if kk is None:
                raise Unsupported("list assignment at unknown index")
            k = kk
        if o.has_seg():
            list_get(interp, o, k)
        if type(k).__name__ == "SliceV":
            lim = []
            for x in (k.a, k.b, k.c):
                x = force(x)
                if isinstance(x, AbsInt):
                    x = x.single()
                    if x is None:
                        raise Unsupported("slice assignment")
                lim.append(x)
            if o.has_seg() and lim != [None, None, None]:
                raise Unsupported("slice assignment")
            v = force(v)
            new = list(v.items) if isinstance(v, PyList) else list(iterate(interp, v))
            snap(o)
            if lim == [None, None, None]:
                o.items[:] = new
            else:
                try:
                    o.items[slice(*lim)] = new
                except ValueError as e:
                    interp.throw("ValueError", str(e))
            return
        if not isinstance(k, int):
            interp.throw("TypeError", f"list indices must be integers or slices, not {type_of(interp, k).name}")
        snap(o)
        try:
            o.items[k] = v
        except IndexError:
            interp.throw("IndexError", "list assignment index out of range")
        return
    if t.__name__ == "NsDict":
        ns_put(interp, o, k, v)
        return
    if t is Inst:
        f = o.cls.lookup("__setitem__")
        if f is not None:
            interp.call(interp.bind(f, o, o.cls), [k, v], {})
            return
    if t is Opaque:
        return
    interp.throw("TypeError", f"'{type_of(interp, o).name}' object does not support item assignment")


def ns_put(interp, o, k, v):
    if o.owner is None:
        raise Unsupported("writing into a namespace dict")
    w = const_of(k)
    if not isinstance(w, str):
        raise Unsupported("namespace key")
    kind = "attr" if isinstance(o.owner, (Inst, PyFunc)) else "ns"
    log_mut(o.owner, (kind, w, w in o.d, o.d.get(w)))
    o.d[w] = v


def ns_del(interp, o, k, *dflt):
    w = const_of(k)
    if w not in o.d:
        if dflt:
            return dflt[0]
        interp.throw("KeyError", k)
    if o.owner is None or not isinstance(w, str):
        raise Unsupported("deleting from a namespace dict")
    kind = "attr" if isinstance(o.owner, (Inst, PyFunc)) else "ns"
    log_mut(o.owner, (kind, w, True, o.d[w]))
    return o.d.pop(w)


def delitem(interp, o, k):
    o = force(o)
    k = force(k)
    if type(o).__name__ == "NsDict":
        ns_del(interp, o, k)
        return
    if isinstance(o, PyDict):
        e = dict_find(interp, o, k)
        if e is None:
            interp.throw("KeyError", k)
        snap(o)
        tok = next(t for t, x in o.d.items() if x is e)
        del o.d[tok]
        return
    if isinstance(o, PyList):
        from .interp import SliceV
        if isinstance(k, SliceV):
            if o.has_seg():
                raise Unsupported("del slice of summarised list")
            snap(o)
            del o.items[k.a:k.b:k.c]
            return
        list_get(interp, o, k)
        snap(o)
        del o.items[k if isinstance(k, int) else k.single()]
        return
    if isinstance(o, Inst):
        f = o.cls.lookup("__delitem__")
        if f is not None:
            interp.call(interp.bind(f, o, o.cls), [k], {})
            return
    if isinstance(o, Opaque):
        return
    interp.throw("TypeError", f"'{type_of(interp, o).name}' object doesn't support item deletion")


def ascii_(it, v):
    r = repr_(it, v)
    w = const_of(r)
    if w is None:
        raise Unsupported("ascii() of abstract text")
    return "".join(c if ord(c) < 128 else ascii(c)[1:-1] for c in w)


def missing_args(fn, names):
    q = [f"'{n}'" for n in names]
    t = q[0] if len(q) == 1 else " and ".join(q) if len(q) == 2 else ", ".join(q[:-1]) + ", and " + q[-1]
    return f"{fn}() missing {len(q)} required positional argument{'s' if len(q) > 1 else ''}: {t}"


def list_append(interp, l, v):
    snap(l)
    l.items.append(v)
    c = State.ctx
    if c.mutlog is not None:
        o = c.mutlog.get(id(l))
        c.mutlog[id(l)] = (l, (o[1] if o else 0) + 1)


def list_extend(interp, l, v):
    v = force(v)
    if isinstance(v, SplitList):
        v = v.resolve(interp)
    if isinstance(v, PyList):
        snap(l)
        l.items.extend(list(v.items))
        c = State.ctx
        if c.mutlog is not None:
            o = c.mutlog.get(id(l))
            c.mutlog[id(l)] = (l, (o[1] if o else 0) + len(v.items))
        return
    for x in iterate(interp, v):
        if isinstance(x, Rest):
            s = Seg(None, count=x.count)
            s.closed = True
            snap(l)
            l.items.append(s)
        else:
            list_append(interp, l, x)


def to_list(interp, v):
    """materialised host list of elements, with Seg kept for remainders"""
    v = force(v)
    if isinstance(v, PyList):
        return list(v.items)
    out = []
    for x in iterate(interp, v):
        if isinstance(x, Rest):
            s = Seg(None, count=x.count)
            s.closed = True
            out.append(s)
        else:
            out.append(x)
    return out


def nonrest(interp, v, what="sequence"):
    out = []
    for x in iterate(interp, v):
        if isinstance(x, Rest):
            if x.count.hi != 0:
                taint("remainder of summarised list in " + what)
            continue
        out.append(x)
    return out


# ------------------------------------------------------------------ text rendering
def str_(interp, v):
    v = force(v)
    t = type(v)
    if t in (str, AbsStr, StrCat):
        return v
    if t in (int, float, bool) or v is None:
        return str(v)
    if t is AbsBool:
        return str(v.get())
    if t is AbsInt:
        w = v.single()
        if w is not None:
            return str(w)
        return StrCat([Part("int", v)])
    if t is AbsFloat:
        return StrCat([Part("float", v)])
    if t is AbsEnum:
        f = v.cls.lookup("__str__")
        if isinstance(f, PyFunc):
            return interp.call(interp.bind(f, v, v.cls), [], {})
        v.sync()
        if len(v.members) == 1:
            return str_(interp, v.members[0])
        return StrCat([Part("enum", v)])
    if t is Inst:
        f = v.cls.lookup("__str__")
        if f is not None:
            return interp.call(interp.bind(f, v, v.cls), [], {})
        if v.cls.issub(interp.builtins["BaseException"]):
            a = v.attrs.get("args", ())
            if not a:
                return ""
            if len(a) >= 2 and v.cls.issub(interp.builtins["OSError"]):
                return cat("[Errno ", str_(interp, a[0]), "] ", str_(interp, a[1]), *([": ", repr_(interp, a[2])] if len(a) > 2 else []))
            if len(a) == 1:
                if v.cls.issub(interp.builtins["KeyError"]):
                    return repr_(interp, a[0])
                return str_(interp, a[0])
            return repr_(interp, a)
        if v.cls.members is not None:
            if any(c.name in ("IntEnum", "IntFlag", "StrEnum") and c.module == "enum" for c in v.cls.mro):
                return str_(interp, v.attrs["_value_"])
            return f"{v.cls.name}.{v.attrs['_name_']}"
    return repr_(interp, v)


def repr_(interp, v):
    v = force(v)
    t = type(v)
    if t in (str, int, float, bool, bytes) or v is None or v is Ellipsis:
        return repr(v)
    if t in (AbsStr, StrCat):
        w = const_of(v)
        if w is not None:
            return repr(w)
        return StrCat([Part("repr", v)])
    if t in (AbsBool, AbsInt, AbsFloat):
        return str_(interp, v)
    if t is AbsEnum:
        return StrCat([Part("enum", v)])
    if t is SplitList:
        v = v.resolve(interp)
        t = PyList
    if t is tuple or t is PyList:
        items = v if t is tuple else v.items
        out = ["(" if t is tuple else "["]
        for i, x in enumerate(items):
            if i:
                out.append(", ")
            out.append(StrCat([Part("rest", x)]) if isinstance(x, Seg) else repr_(interp, x))
        if t is tuple and len(items) == 1:
            out.append(",")
        out.append(")" if t is tuple else "]")
        return cat(*out)
    if t is PySet:
        if not v.d:
            return "frozenset()" if v.frozen else "set()"
        out = ["frozenset({" if v.frozen else "{"]
        for i, x in enumerate(v.d.values()):
            if i:
                out.append(", ")
            out.append(repr_(interp, x))
        out.append("})" if v.frozen else "}")
        return cat(*out)
    if t is PyDict:
        out = ["{"]
        for i, (k, x) in enumerate(dict_items(interp, v)):
            if i:
                out.append(", ")
            out += [repr_(interp, k), ": ", repr_(interp, x)]
        out.append("}")
        return cat(*out)
    if t is DictView:
        return cat(f"dict_{v.kind}(", repr_(interp, PyList(v.items(interp))), ")")
    if t is PyClass:
        if v.module in ("builtins", None):
            return f"<class '{v.qualname}'>"
        if v.members is not None and v.members:
            return f"<enum '{v.name}'>"
        return f"<class '{v.module}.{v.qualname}'>"
    if t is Alias:
        return v.text
    if t is Special:
        return "typing." + v.name
    if t is FwdRef:
        return f"ForwardRef({v.name!r})"
    if t is Inst:
        f = v.cls.lookup("__repr__")
        if f is not None:
            return interp.call(interp.bind(f, v, v.cls), [], {})
        if v.cls.members is not None:
            return cat("<", v.cls.name, ".", v.attrs["_name_"], ": ", repr_(interp, v.attrs["_value_"]), ">")
        if v.cls.issub(interp.builtins["BaseException"]):
            out = []
            for a in v.attrs.get("args", ()):
                out += [", ", repr_(interp, a)]
            return cat(v.cls.name, "(", *out[1:], ")")
        return f"<{v.cls.module}.{v.cls.qualname} object>"
    if t is PyFunc:
        return f"<function {v.qualname}>"
    if t is BoundMethod:
        return "<bound method>"
    if t is Opaque:
        return StrCat([Part("opaque", v.reason)])
    if issubclass(t, AbsBytes):
        return StrCat([Part("repr", v)])
    if t is PyModule:
        return f"<module '{v.name}'>"
    if t is HostView:
        return repr(v.v)
    return f"<{t.__name__}>"


def format_value(interp, v, conv, spec):
    v = force(v)
    if conv == 114:
        v = repr_(interp, v)
    elif conv == 115:
        v = str_(interp, v)
    elif conv == 97:
        v = ascii_(interp, v)
    if not spec:
        if isinstance(v, Inst):
            f = v.cls.lookup("__format__")
            if f is not None:
                return interp.call(interp.bind(f, v, v.cls), [""], {})
        return str_(interp, v)
    if isinstance(spec, str):
        if isinstance(v, (int, float, str)):
            return host_call(interp, format, v, spec)
        if isinstance(v, Inst) and v.cls.lookup("__format__") is not None:
            return interp.call(interp.bind(v.cls.lookup("__format__"), v, v.cls), [spec], {})
        w = const_of(v) if isinstance(v, STR) else None
        if w is not None:
            return host_call(interp, format, w, spec)
        if isinstance(v, AbsInt) and v.single() is not None:
            return host_call(interp, format, v.single(), spec)
    return StrCat([Part("format", v)])


# ------------------------------------------------------------------ classes
def set_defcls(v, cls):
    if isinstance(v, PyFunc):
        if v.defcls is None:
            v.defcls = cls
    elif isinstance(v, Prop):
        for f in (v.fget, v.fset):
            if f is not None:
                set_defcls(f, cls)
    elif isinstance(v, (CMeth, SMeth)):
        set_defcls(v.f, cls)


def make_class(interp, name, bases, ns, kw, module, qualname):
    real = []
    orig = None
    for b in bases:
        if isinstance(b, Alias):
            orig = bases
            o = b.origin
            if isinstance(o, PyClass):
                if o not in real:
                    real.append(o)
            elif isinstance(o, Special):
                if o.name in ("Generic", "Protocol"):
                    pass
                else:
                    raise Unsupported("base class " + b.text)
        elif isinstance(b, Special):
            if b.name in ("Generic", "Protocol"):
                continue
            raise Unsupported("base class typing." + b.name)
        elif isinstance(b, PyClass):
            real.append(b)
        elif isinstance(b, Opaque):
            raise Unsupported("base class " + b.reason)
        elif isinstance(b, Native) and b.name == "NamedTuple":
            return interp.L.namedtuple_class(interp, name, ns, module)
        else:
            interp.throw("TypeError", "bases must be types")
    meta = kw.pop("metaclass", None)
    if meta is not None:
        meta = force(meta)
        if not isinstance(meta, PyClass):
            raise Unsupported("metaclass")
        for mc in meta.mro:
            if mc.module not in ("builtins", "abc", "enum", None) and any(isinstance(mc.ns.get(x), (PyFunc, SMeth)) for x in ("__new__", "__init__", "__call__", "__prepare__")):
                raise Unsupported("metaclass with its own construction")
    for b in real:
        for c in b.mro:
            if c.meta is not None and meta is None:
                meta = c.meta
    if not real:
        real = [interp.builtins["object"]]
    isenum = any(b.members is not None for b in real)
    if "__eq__" in ns and "__hash__" not in ns:
        ns["__hash__"] = None
    if isenum:
        return make_enum(interp, name, real, ns, module, qualname, meta)
    cls = PyClass(name, real, ns, module, meta, qualname)
    cls.orig_bases = orig
    for v in list(ns.values()):
        set_defcls(v, cls)
    ab = set()
    for c in cls.mro[1:]:
        ab |= getattr(c, "abstract_own", set())
    own = {k for k, v in ns.items() if is_abstract_fn(v)}
    cls.abstract_own = own
    if any(c.name == "ABC" or (c.meta is not None and c.meta.name == "ABCMeta") for c in cls.mro) or (meta is not None and meta.name == "ABCMeta"):
        cls.abstract_methods = bool(abstract_names(cls))
    for k, v in list(ns.items()):
        if isinstance(v, Inst) and v.cls.has("__set_name__"):
            interp.call(interp.bind(v.cls.lookup("__set_name__"), v, v.cls), [cls, k], {})
    for c in cls.mro[1:]:
        if "__init_subclass__" in c.ns:
            f = c.ns["__init_subclass__"]
            f = f.f if isinstance(f, (CMeth, SMeth)) else f
            interp.call(BoundMethod(f, cls), [], kw)
            break
    return cls


def is_abstract_fn(v):
    if isinstance(v, PyFunc):
        return bool(v.attrs.get("__isabstractmethod__"))
    if isinstance(v, Prop):
        return is_abstract_fn(v.fget)
    if isinstance(v, (CMeth, SMeth)):
        return is_abstract_fn(v.f)
    return False


def abstract_names(cls):
    out = []
    seen = set()
    for c in cls.mro:
        for k in getattr(c, "abstract_own", set()):
            if k not in seen:
                v = cls.lookup(k)
                if is_abstract_fn(v):
                    out.append(k)
            seen.add(k)
    return sorted(out)


def make_enum(interp, name, bases, ns, module, qualname, meta):
    members = {}
    rest = {}
    for k, v in ns.items():
        if k.startswith("__") and k.endswith("__") or (k.startswith("_") and k.endswith("_")):
            rest[k] = v
        elif isinstance(v, (PyFunc, Prop, CMeth, SMeth, Native)) or (isinstance(v, PyClass)) or (isinstance(v, Inst) and v.cls.has("__get__")):
            if isinstance(v, Inst) and v.cls.name == "nonmember":
                v = v.attrs["value"]
            rest[k] = v
        else:
            members[k] = v
    cls = PyClass(name, bases, rest, module, meta, qualname)
    cls.members = []
    cls.enum_aliases = {}
    for v in rest.values():
        set_defcls(v, cls)
    mixin = None
    for c in cls.mro:
        if c.host in (str, int):
            mixin = c.host
            break
    strenum = any(c.name == "StrEnum" for c in cls.mro)
    last = 0
    init = cls.lookup("__init__")
    for k, v in members.items():
        if isinstance(v, Inst) and v.cls.name == "auto":
            if strenum:
                v = k.lower()
            else:
                v = last + 1
        if isinstance(v, int):
            last = v
        same = [m for m in cls.members if type(m.attrs["_value_"]) is type(v) and eq(interp, m.attrs["_value_"], v)]
        if same:
            cls.enum_aliases[k] = same[0]
            cls.ns[k] = same[0]
            continue
        m = Inst(cls, {"_value_": v, "_name_": k})
        cls.members.append(m)
        cls.ns[k] = m
        if isinstance(init, PyFunc):
            interp.call(BoundMethod(init, m), list(v) if isinstance(v, tuple) else [v], {})
    return cls


def enum_call(interp, cls, args, kw):
    if len(args) != 1:
        if not cls.members and len(args) == 2:
            raise Unsupported("functional enum")
        interp.throw("TypeError", "enum call")
    v = force(args[0])
    if isinstance(v, AbsEnum) and v.cls is cls:
        return v
    if isinstance(v, Inst) and v.cls is cls:
        return v
    if isinstance(v, AbsStr):
        w = v.single()
        if w is None:
            sm = [m for m in cls.members if isinstance(m.attrs["_value_"], str)]
            if sm and v.test(rx.words([m.attrs["_value_"] for m in sm]), f"{v.name} is a value of {cls.name}"):
                ms = [m for m in sm if v.can(rx.word(m.attrs["_value_"]))]
                if len(ms) == 1:
                    return ms[0]
                return AbsEnum(cls, ms, v, v.name)
            v2 = v
        else:
            v = w
    if isinstance(v, PyList) or isinstance(v, PyDict):
        pass
    elif not (isinstance(v, AbsStr) and v.single() is None):
        for m in cls.members:
            mv = m.attrs["_value_"]
            if isinstance(mv, bool) != isinstance(v, bool) and not isinstance(v, (int, AbsInt)):
                continue
            if eq(interp, mv, v):
                return m
    f = cls.lookup("_missing_")
    if f is not None:
        r = interp.call(interp.bind(f, cls, cls), [v], {})
        if r is not None:
            return r
    interp.throw("ValueError", cat(repr_(interp, v), f" is not a valid {cls.qualname}"))


# ------------------------------------------------------------------ attributes of native values
def N(name, fn):
    return Native(name, fn)


def inst_attr(interp, o, name):
    b = interp.builtins
    if name in ("__init__", "__init_subclass__"):
        return N(name, lambda it, a, k: None)
    if name == "__setattr__":
        def sa(it, a, k):
            log_mut(o, ("attr", a[0], a[0] in o.attrs, o.attrs.get(a[0])))
            o.attrs[a[0]] = a[1]
        return N(name, sa)
    if name == "__getattribute__":
        return N(name, lambda it, a, k: it.getattr_(o, a[0]))
    if o.cls.issub(b["BaseException"]):
        if name in ("errno", "strerror", "filename") and o.cls.issub(b["OSError"]):
            ix = {"errno": 0, "strerror": 1, "filename": 2}[name]
            ar = o.attrs.get("args", ())
            return ar[ix] if len(ar) >= 2 and len(ar) > ix else None
        if name in ("__traceback__", "__cause__", "__context__"):
            return None
        if name == "with_traceback":
            return N(name, lambda it, a, k: o)
        if name == "add_note":
            return N(name, lambda it, a, k: None)
        if name == "value" and o.cls.name == "StopIteration":
            return o.attrs["args"][0] if o.attrs["args"] else None
        if name == "code" and o.cls.name == "SystemExit":
            return o.attrs["args"][0] if o.attrs["args"] else None
    if name == "__str__":
        return N(name, lambda it, a, k: str_(it, o))
    if name == "__repr__":
        return N(name, lambda it, a, k: repr_(it, o))
    if name == "__eq__":
        return N(name, lambda it, a, k: o is a[0])
    if name == "__hash__":
        return N(name, lambda it, a, k: id(o))
    if name == "__module__":
        return o.cls.module
    mv = mixin_value(o)
    if mv is not o:
        return builtin_attr(interp, mv, name)
    if o.data is not None and isinstance(o.data, PyList):
        return builtin_attr(interp, o.data, name)
    return NotImplemented


def super_attr(interp, so, name):
    o = so.obj
    if isinstance(o, (PyList, PyDict)):
        return container_super(interp, o, name)
    if name in ("__init__",):
        def init(it, a, k):
            if isinstance(o, Inst) and o.cls.issub(it.builtins["BaseException"]):
                o.attrs["args"] = tuple(a)
        return N(name, init)
    if name in ("__init_subclass__",):
        return N(name, lambda it, a, k: None)
    if name == "__new__":
        return N(name, lambda it, a, k: Inst(a[0]))
    if name == "__setattr__":
        def sa(it, a, k):
            log_mut(o, ("attr", a[0], a[0] in o.attrs, o.attrs.get(a[0])))
            o.attrs[a[0]] = a[1]
        return N(name, sa)
    if name == "__eq__":
        return N(name, lambda it, a, k: True if o is a[0] else NotImplemented)
    if name in ("__str__", "__repr__"):
        if isinstance(o, Inst) and o.cls.issub(interp.builtins["BaseException"]):
            def es(it, a, k):
                aa = o.attrs.get("args", ())
                if not aa:
                    return ""
                return str_(it, aa[0]) if len(aa) == 1 else repr_(it, aa)
            return N(name, es)
        return N(name, lambda it, a, k: f"<{o.cls.qualname} object>")
    if name == "__exit__":
        return N(name, lambda it, a, k: None)
    if name == "__hash__":
        return N(name, lambda it, a, k: id(o))
    return NotImplemented


def container_super(interp, o, name):
    """method of the built-in list or dict below the overriding ones of a subclass"""
    f = (LIST_METHODS if isinstance(o, PyList) else DICT_METHODS).get(name)
    if f is not None:
        return N(name, lambda it, a, k: f(it, o, a, k))

    def raw(op):
        def run(it, a, k):
            attr = "sub" if isinstance(o, PyList) else "cls"
            c = getattr(o, attr)
            setattr(o, attr, None)
            try:
                return op(it, a)
            finally:
                setattr(o, attr, c)
        return N(name, run)
    ops = {"__getitem__": lambda it, a: getitem(it, o, a[0]), "__setitem__": lambda it, a: setitem(it, o, a[0], a[1]), "__delitem__": lambda it, a: it.delitem(o, a[0]),
           "__len__": lambda it, a: len_(it, o), "__iter__": lambda it, a: PyGen(iter(list(iterate(it, o)))), "__contains__": lambda it, a: contains(it, o, a[0]),
           "__eq__": lambda it, a: compare(it, "==", o, a[0]), "__repr__": lambda it, a: repr_(it, o), "__str__": lambda it, a: repr_(it, o)}
    if name in ops:
        return raw(ops[name])
    if name == "__init__":
        def init(it, a, k):
            if isinstance(o, PyDict):
                d_update(it, o, a, k)
            elif a:
                LIST_METHODS["extend"](it, o, [a[0]], {})
        return N(name, init)
    if name == "__init_subclass__":
        return N(name, lambda it, a, k: None)
    return NotImplemented


def unbound(interp, cls, name):
    """str.lower, dict.get, bytes.fromhex, ... accessed on the class"""
    if cls.host is bytes and name == "fromhex":
        return N("bytes.fromhex", bytes_fromhex)
    if cls.host is dict and name == "fromkeys":
        def fromkeys(it, a, k):
            d = PyDict()
            for x in iterate(it, a[0]):
                if isinstance(x, Rest):
                    continue
                setitem(it, d, x, a[1] if len(a) > 1 else None)
            return d
        return N("dict.fromkeys", fromkeys)
    if cls.host is str and name == "maketrans":
        def mt(it, a, k):
            aa = []
            for x in a:
                x = force(x)
                if isinstance(x, PyDict):
                    x = {const_of(kk): (const_of(vv) if force(vv) is not None else None) for kk, vv in dict_items(it, x)}
                aa.append(x if isinstance(x, dict) else const_of(x))
            r = host_call(it, str.maketrans, *aa)
            return PyDict(r.items())
        return N("str.maketrans", mt)
    if cls.host is object and name in ("__new__",):
        return N(name, lambda it, a, k: Inst(a[0]))
    if cls.host is object and name in ("__setattr__",):
        def sa(it, a, k):
            o = a[0]
            log_mut(o, ("attr", a[1], a[1] in o.attrs, o.attrs.get(a[1])))
            o.attrs[a[1]] = a[2]
        return N(name, sa)
    if cls.host is object:
        if name in ("__init__", "__init_subclass__"):
            return N(name, lambda it, a, k: None)
        if name in ("__str__", "__repr__"):
            return N(name, lambda it, a, k: repr_(it, a[0]))

    def f(it, a, k):
        if not a:
            it.throw("TypeError", f"unbound method {cls.name}.{name}() needs an argument")
        m = builtin_attr(it, force(a[0]), name)
        if m is NotImplemented:
            it.throw("TypeError", f"descriptor '{name}' requires a '{cls.name}' object")
        return it.call(m, a[1:], k)
    return N(f"{cls.name}.{name}", f)


def bytes_fromhex(it, a, k):
    s = force(a[0])
    if isinstance(s, str):
        return host_call(it, bytes.fromhex, s)
    if isinstance(s, AbsStr):
        if s.test(strlang.hex_lang(), f"{s.name} is a hex string"):
            return AbsBytes("fromhex")
        it.throw("ValueError", "non-hexadecimal number found in fromhex() arg")
    if isinstance(s, StrCat):
        if str_test(s, strlang.hex_lang()):
            return AbsBytes("fromhex")
        it.throw("ValueError", "non-hexadecimal number found in fromhex() arg")
    it.throw("TypeError", "fromhex() argument must be str")


_surr = ((0xD800, 0xE000),)


def builtin_attr(interp, o, name):
    t = type(o)
    if t in (str, AbsStr, StrCat):
        f = STR_METHODS.get(name)
        if f is not None:
            return N("str." + name, lambda it, a, k: f(it, o, a, k))
        if hasattr(str, name):
            if name == "__class__":
                return interp.builtins["str"]
            return N("str." + name, lambda it, a, k: str_generic(it, o, name, a, k))
        return NotImplemented
    if t is SplitList:
        o = o.resolve(interp)
        t = PyList
    tab = {PyList: LIST_METHODS, PyDict: DICT_METHODS, PySet: SET_METHODS, tuple: TUPLE_METHODS}.get(t)
    if tab is not None:
        sub = o.cls if t is PyDict else o.sub if t is PyList else None
        if sub is not None:
            for c in sub.mro:
                if c.module == "builtins":
                    break
                if name in c.ns:
                    return interp.bind(c.ns[name], o, sub)
        if t is PyList and o.sub is not None and o.sub.name == "deque":
            tab = DEQUE_METHODS
        f = tab.get(name)
        if f is not None:
            return N(name, lambda it, a, k: f(it, o, a, k))
        if name == "__class__":
            return type_of(interp, o)
        if sub is not None and isinstance(sub.lookup("__getattr__"), PyFunc):
            return interp.call(interp.bind(sub.lookup("__getattr__"), o, sub), [name], {})
        if sub is None:
            op = {"__contains__": lambda it, a, k: contains(it, o, a[0]), "__getitem__": lambda it, a, k: getitem(it, o, a[0]), "__len__": lambda it, a, k: len_(it, o),
                  "__setitem__": lambda it, a, k: setitem(it, o, a[0], a[1]), "__delitem__": lambda it, a, k: it.delitem(o, a[0]), "__iter__": lambda it, a, k: iter_(it, [o], {}),
                  "__eq__": lambda it, a, k: compare(it, "==", o, a[0])}.get(name)
            if op is not None and hasattr({PyList: list, PyDict: dict, PySet: set, tuple: tuple}[t], name):
                return N(name, op)
        host = {PyList: list, PyDict: dict, PySet: set, tuple: tuple}[t]
        if hasattr(host, name):
            def uns(it, a, k):
                raise Unsupported(f"{host.__name__}.{name}")
            return N(name, uns)
        return NotImplemented
    if t.__name__ == "NsDict":
        d = o.d
        if name == "update":
            def upd(it, a, k):
                for kk, vv in (list(dict_items(it, a[0])) if a else []) + list(k.items()):
                    ns_put(it, o, kk, vv)
            return N(name, upd)
        if name == "pop":
            return N(name, lambda it, a, k: ns_del(it, o, *a))
        if name == "setdefault":
            def sd(it, a, k):
                w = const_of(a[0])
                if w not in d:
                    ns_put(it, o, w, a[1] if len(a) > 1 else None)
                return d[w]
            return N(name, sd)
        if name in ("clear", "popitem"):
            raise Unsupported("namespace." + name)
        return builtin_attr(interp, PyDict(d.items()), name)
    if t in (bool, int, float):
        if name == "__class__":
            return type_of(interp, o)
        if name in ("real",):
            return o
        if hasattr(o, name) and not name.startswith("__"):
            return N(name, lambda it, a, k: host_call(it, getattr(o, name), *a, **k))
        if name in ("__str__", "__repr__"):
            return N(name, lambda it, a, k: str(o))
        if name == "__eq__":
            return N(name, lambda it, a, k: eq(it, o, a[0]))
        if name == "__hash__":
            return N(name, lambda it, a, k: hash(o))
        return NotImplemented
    if t in (AbsInt, AbsBool, AbsFloat):
        if name == "__class__":
            return type_of(interp, o)
        if name == "is_integer" and t is AbsFloat:
            return N(name, lambda it, a, k: choose(2, "is_integer", taint="is_integer") == 0)
        if hasattr(int, name) or hasattr(float, name):
            def uns(it, a, k):
                raise Unsupported(f"int.{name}")
            return N(name, uns)
        return NotImplemented
    if t is bytes:
        if name == "decode":
            def dec(it, a, k):
                return host_call(it, o.decode, *a, **k)
            return N(name, dec)
        if hasattr(o, name) and not name.startswith("__"):
            def bm(it, a, k):
                if name == "join":
                    xs = [force(x) for x in iterate(it, a[0])]
                    if any(not isinstance(x, bytes) for x in xs):
                        return AbsBytes("joined bytes")
                    return o.join(xs)
                r = host_call(it, getattr(o, name), *[tuple(force(x)) if isinstance(force(x), tuple) else force(x) for x in a], **k)
                return PyList(r) if isinstance(r, list) else r
            return N(name, bm)
        return NotImplemented
    if issubclass(t, AbsBytes):
        if name == "decode":
            def dec(it, a, k):
                if o.text is None and getattr(o, "src", None) is not None and not k and len(a) < 2 and (not a or a[0] in ("utf-8", "utf8", "utf_8")):
                    from . import stdlib
                    return stdlib.text_of(it, o.src)
                if o.text is not None:
                    return o.text
                if a and isinstance(a[0], str) and a[0].lower().replace("-", "") in ("latin1", "iso88591"):
                    return AbsStr(name=o.name)
                if "errors" in k or len(a) > 1:
                    return AbsStr(name=o.name)
                if choose(2, f"{o.name} decodes as text") == 0:
                    o.text = AbsStr(name=o.name)
                    return o.text
                it.throw("UnicodeDecodeError", "invalid start byte")
            return N(name, dec)
        if hasattr(bytes, name):
            def uns(it, a, k):
                if name in ("startswith", "endswith"):
                    return choose(2, "bytes." + name, taint="bytes." + name) == 0
                if name in ("strip", "lstrip", "rstrip", "replace"):
                    if o.text is not None and a and isinstance(a[0], bytes) and a[0] == b"=" and (name != "replace" or a[1:] == [b""]):
                        u = b64_unpad(o.text, name, "=")
                        if u is not None:
                            return AbsBytes(o.name, u)
                    if name == "replace" and o.text is not None and len(a) == 2 and all(isinstance(x, bytes) and x.isascii() for x in a):
                        u = b64_map(o.text, {a[0].decode(): a[1].decode()})
                        if u is not None:
                            return AbsBytes(o.name, u)
                    return AbsBytes(o.name)
                raise Unsupported("bytes." + name)
            return N(name, uns)
        return NotImplemented
    if t is PyGen:
        if name == "__next__":
            return N(name, lambda it, a, k: next_(it, [o], {}))
        if name == "__iter__":
            return N(name, lambda it, a, k: o)
        if name == "close":
            def gen_close(it, a, k):
                State.ctx.closing = True
                try:
                    if hasattr(o.it, "close"):
                        o.it.close()
                finally:
                    State.ctx.closing = False
            return N(name, gen_close)
        if name == "send":
            def send(it, a, k):
                if not hasattr(o.it, "send"):
                    raise Unsupported("generator.send")
                if force(a[0]) is None:
                    return next_(it, [o], {})
                try:
                    return o.it.send(a[0])
                except StopIteration as e:
                    stop_(it, e)
            return N(name, send)
        if name == "throw":
            def gthrow(it, a, k):
                if not hasattr(o.it, "throw"):
                    raise Unsupported("generator." + name)
                e = force(a[0])
                if isinstance(e, PyClass):
                    e = it.call(e, list(a[1:2]), {})
                if not isinstance(e, Inst):
                    raise Unsupported("generator." + name)
                try:
                    return o.it.throw(PyRaise(e))
                except StopIteration as x:
                    stop_(it, x)
            return N(name, gthrow)
        return NotImplemented
    if t is Native:
        if name in o.attrs:
            return o.attrs[name]
        if name in ("__name__", "__qualname__"):
            return o.name
        if name == "__doc__":
            return None
        return NotImplemented
    if t is DictView:
        if name == "isdisjoint":
            return N(name, lambda it, a, k: not any(contains(it, a[0], x) for x in o.items(it)))
        if name == "__iter__":
            return N(name, lambda it, a, k: PyGen(iter(o.items(it))))
        return NotImplemented
    if t is HostView:
        if hasattr(o.v, name):
            v = getattr(o.v, name)
            if callable(v):
                return N(name, lambda it, a, k: host_call(it, v, *a, **k))
            return v
        return NotImplemented
    if t is Special:
        if name in ("__name__", "_name"):
            return o.name
        return NotImplemented
    if t is FwdRef:
        if name in ("__forward_arg__",):
            return o.name
        if name in ("_evaluate", "evaluate"):
            def ev(it, a, k):
                # typing.ForwardRef remembers its value when globals is locals
                parts = o.name.split(".")
                srcs = list(a[:2])
                for kw in ("globalns", "localns")[len(srcs):]:
                    if kw not in k:
                        it.throw("TypeError", f"ForwardRef._evaluate() missing required argument: {kw!r}")
                    srcs.append(k[kw])
                if name == "_evaluate" and "recursive_guard" not in k and len(a) < 3 and not State.loading:
                    it.throw("TypeError", "ForwardRef._evaluate() missing required argument: 'recursive_guard'")
                same = len(srcs) == 2 and (srcs[0] is srcs[1] or (
                    getattr(srcs[0], "d", 0) is getattr(srcs[1], "d", 1)) or srcs[0] is None or srcs[1] is None)
                if o.value is not None and same:
                    return o.value
                for src in reversed(srcs):
                    if src is None:
                        continue
                    e = src.d.get(parts[0]) if type(src).__name__ == "NsDict" else (src.d.get(parts[0]) if isinstance(src, PyDict) else None)
                    if isinstance(src, PyDict) and e is not None:
                        e = e[1]
                    if e is not None:
                        for p in parts[1:]:
                            e = it.getattr_(e, p)
                        if State.loading:
                            o.value = e
                        return e
                if parts[0] in it.builtins:
                    return it.builtins[parts[0]]
                it.throw("NameError", f"name '{parts[0]}' is not defined")
            return N(name, ev)
        return NotImplemented
    if t is PyFunc or t is BoundMethod:
        return NotImplemented
    if t in (Prop,):
        if name == "setter":
            return N(name, lambda it, a, k: Prop(o.fget, a[0], o.fdel))
        if name == "deleter":
            return N(name, lambda it, a, k: Prop(o.fget, o.fset, a[0]))
        if name in ("fset", "fdel"):
            return getattr(o, name)
        if name == "fget":
            return o.fget
        if name == "getter":
            return N(name, lambda it, a, k: Prop(a[0], o.fset, o.fdel))
        return NotImplemented
    if t in (CMeth, SMeth):
        if name == "__func__":
            return o.f
        return interp._getattr(o.f, name)
    if o is None or o is NotImplemented:
        if name == "__class__":
            return type_of(interp, o)
        if name == "__str__" or name == "__repr__":
            return N(name, lambda it, a, k: str(o))
        return NotImplemented
    return NotImplemented


# ---- str methods
def _arg_str(it, v, what):
    v = force(v)
    if isinstance(v, STR):
        return v
    if isinstance(v, Inst):
        m = mixin_value(v)
        if isinstance(m, str):
            return m
    if isinstance(v, Opaque):
        raise Unsupported(what + " with unmodelled argument")
    it.throw("TypeError", f"{what}: must be str, not {type_of(it, v).name}")


def str_generic(it, s, name, a, k):
    w = const_of(s)
    args = [force(x) for x in a]
    cargs = [const_of(x) if isinstance(x, STR) else x for x in args]
    if w is not None and all(c is not None or x is None for c, x in zip(cargs, args)) and all(isinstance(x, (str, int, tuple, type(None))) for x in cargs):
        r = host_call(it, getattr(w, name), *cargs, **k)
        if isinstance(r, list):
            return PyList(r)
        if isinstance(r, (str, int, bool, tuple, bytes)):
            return r
    if name in ("__eq__", "__ne__"):
        r = eq(it, s, args[0])
        return r if name == "__eq__" else not r
    if name == "__len__":
        return len_(it, s)
    if name in ("__str__",):
        return s
    if name == "__contains__":
        return contains(it, s, args[0])
    if name == "__hash__":
        return unknown_int("hash of text")
    if name in ("capitalize", "title", "swapcase", "center", "ljust", "rjust", "zfill", "expandtabs", "translate", "__format__", "__getitem__", "__mod__", "__mul__"):
        w = const_of(s)
        aa = [const_of(x) if not isinstance(x, int) else x for x in args]
        if name == "translate" and (w is not None or b64_text(s)) and isinstance(args[0], PyDict):
            tab = {}
            for kk, vv in dict_items(it, args[0]):
                kk, vv = force(kk), force(vv)
                tab[kk if isinstance(kk, int) else const_of(kk)] = vv if vv is None or isinstance(vv, int) else const_of(vv)
            if w is None:
                u = b64_map(s, {chr(kk) if isinstance(kk, int) else kk: "" if vv is None else chr(vv) if isinstance(vv, int) else vv for kk, vv in tab.items()})
                if u is not None:
                    return u
                return StrCat([Part(name, (s, tuple(args)))])
            return w.translate(tab)
        if w is not None and name != "translate" and None not in aa:
            return host_call(it, getattr(w, name), *aa)
        return StrCat([Part(name, (s, tuple(args)))])
    if name in ("count",):
        return unknown_int("count in text")
    raise Unsupported(f"str.{name} on abstract text")


def _simple(fn):
    """wrap a method with constant folding"""
    def g(it, s, a, k):
        args = [force(x) for x in a]
        return fn(it, s, args, k)
    return g


_B64 = {("+", "/", "="): "b64", ("-", "_", "="): "b64url", ("+", "/", ""): "b64-nopad", ("-", "_", ""): "b64url-nopad"}
_B64R = {v: k for k, v in _B64.items()}


def b64_text(s):
    """(value, the texts standing for 62, 63 and padding) when s is exactly one base64 text, else None"""
    if isinstance(s, StrCat) and len(s.parts) == 1 and isinstance(s.parts[0], Part):
        p = s.parts[0]
        if p.kind in _B64R:
            return p.value, _B64R[p.kind]
        if p.kind == "b64:":
            return p.value
    return None


def b64_map(s, table):
    """replace characters of a base64 text; None when s is none or alphanumeric characters are affected"""
    t = b64_text(s)
    if t is None or any(len(c) != 1 or c.isascii() and c.isalnum() for c in table):
        return None
    v, st = t
    st = tuple("".join(table.get(c, c) for c in x) for x in st)
    return StrCat([Part(_B64[st], v)]) if st in _B64 else StrCat([Part("b64:", (v, st))])


def b64_unpad(s, kind, ch):
    t = b64_text(s)
    if t is None or ch != "=" or t[1][2] not in ("=", "") or "=" in t[1][0] + t[1][1]:
        return None
    return s if kind == "lstrip" else b64_map(s, {"=": ""})


def s_strip(kind):
    pre = {"strip": strlang.strip_pre, "lstrip": strlang.lstrip_pre, "rstrip": strlang.rstrip_pre}[kind]

    def f(it, s, a, k):
        ch = a[0] if a else None
        if ch is not None:
            ch = const_of(ch) if isinstance(ch, STR) else it.throw("TypeError", "strip arg must be None or str")
        w = const_of(s)
        if w is not None:
            return getattr(w, kind)(ch)
        u = b64_unpad(s, kind, ch)
        if u is not None:
            return u
        cs = strlang.py_space() if ch is None else rx.cs_of(ch)
        if isinstance(s, AbsStr):
            C = rx.chars(cs)
            if not s.can(rx.union(rx.concat(C, rx.ANY), rx.concat(rx.ANY, C)) if kind == "strip" else (rx.concat(C, rx.ANY) if kind == "lstrip" else rx.concat(rx.ANY, C))):
                return s
            return s.derive(pre(cs), f"{s.name}.{kind}()")
        parts = list(s.parts)
        inset = lambda c: any(lo <= ord(c) < hi for lo, hi in cs)
        if kind in ("strip", "lstrip"):
            while parts and isinstance(parts[0], str):
                x = parts[0]
                i = 0
                while i < len(x) and inset(x[i]):
                    i += 1
                if i < len(x):
                    parts[0] = x[i:]
                    break
                parts.pop(0)
            else:
                if parts:
                    p = parts[0]
                    C = rx.chars(cs)
                    if isinstance(p, AbsStr) and not p.can(rx.EPS) and not p.can(rx.concat(C, rx.ANY)):
                        pass
                    elif isinstance(p, AbsStr) and not p.can(rx.over(cs)):
                        parts[0] = p.derive(strlang.lstrip_pre(cs), f"{p.name}.lstrip()")
                    else:
                        return StrCat([Part(kind, s)])
        if kind in ("strip", "rstrip"):
            while parts and isinstance(parts[-1], str):
                x = parts[-1]
                i = len(x)
                while i > 0 and inset(x[i - 1]):
                    i -= 1
                if i > 0:
                    parts[-1] = x[:i]
                    break
                parts.pop()
            else:
                if parts:
                    p = parts[-1]
                    C = rx.chars(cs)
                    if isinstance(p, AbsStr) and not p.can(rx.EPS) and not p.can(rx.concat(rx.ANY, C)):
                        pass
                    elif isinstance(p, AbsStr) and not p.can(rx.over(cs)):
                        parts[-1] = p.derive(strlang.rstrip_pre(cs), f"{p.name}.rstrip()")
                    else:
                        return StrCat([Part(kind, s)])
        return cat(*parts)
    return _simple(f)


def s_case(kind):
    def f(it, s, a, k):
        w = const_of(s)
        if w is not None:
            return getattr(w, kind)()
        if isinstance(s, StrCat):
            return cat(*[getattr(p, kind)() if isinstance(p, str) else (f(it, p, a, k) if isinstance(p, AbsStr) else StrCat([Part(kind, p)])) for p in s.parts])
        m = rx.case_map(kind)
        return s.derive(lambda P: rx.inverse_hom(P, m), f"{s.name}.{kind}()")
    return _simple(f)


def s_split(right):
    def f(it, s, a, k):
        sep = a[0] if a else k.get("sep")
        ms = a[1] if len(a) > 1 else k.get("maxsplit", -1)
        w = const_of(s)
        if sep is not None:
            sep = const_of(_arg_str(it, sep, "split"))
        if w is not None:
            if sep == "":
                it.throw("ValueError", "empty separator")
            return PyList(w.rsplit(sep, ms) if right else w.split(sep, ms))
        if sep is None:
            if isinstance(s, AbsStr) and not (a and a[0] is not None):
                raise Unsupported("whitespace split of abstract text")
            raise Unsupported("split")
        if sep == "":
            it.throw("ValueError", "empty separator")
        if isinstance(s, AbsStr):
            if not s.can(rx.contains(sep)):
                return PyList([s])
            if ms == 0:
                return PyList([s])
            if right:
                if ms == 1:
                    return SplitList(s, sep, 1, True)
                if ms is None or ms < 0:
                    return SplitList(s, sep)
                raise Unsupported("rsplit with maxsplit")
            return SplitList(s, sep, ms)
        # StrCat: abstract pieces must not contain the separator
        for p in s.parts:
            if isinstance(p, Part):
                raise Unsupported("split of rendered text")
            if isinstance(p, AbsStr) and (len(sep) > 1 or p.test(rx.contains(sep), f"{p.name} contains {sep!r}")):
                raise Unsupported("split of assembled text")
        out = [[]]
        for p in s.parts:
            if isinstance(p, str):
                xs = p.split(sep)
                out[-1].append(xs[0])
                for x in xs[1:]:
                    out.append([x])
            else:
                out[-1].append(p)
        res = [cat(*x) for x in out]
        if ms is not None and ms >= 0 and len(res) > ms + 1:
            def join(xs):
                o = [xs[0]]
                for x in xs[1:]:
                    o += [sep, x]
                return cat(*o)
            if right:
                n = len(res) - ms
                res = [join(res[:n])] + res[n:]
            else:
                res = res[:ms] + [join(res[ms:])]
        return PyList(res)
    return _simple(f)


def s_partition(right):
    def f(it, s, a, k):
        sep = const_of(_arg_str(it, a[0], "partition"))
        if sep is None:
            raise Unsupported("partition by abstract text")
        w = const_of(s)
        if w is not None:
            return w.rpartition(sep) if right else w.partition(sep)
        if isinstance(s, StrCat):
            l = s_split(right)(it, s, [sep, 1], {})
            xs = l.items
            if len(xs) == 1:
                return ("", "", s) if right else (s, "", "")
            return (xs[0], sep, xs[1])
        if not s.test(rx.contains(sep), f"{s.name} contains {sep!r}"):
            return ("", "", s) if right else (s, "", "")
        sl = SplitList(s, sep, 1, right)
        return (sl.part(0, 2, True), sep, sl.part(1, 2, True))
    return _simple(f)


def s_affix(kind):
    def f(it, s, a, k):
        x = a[0]
        if len(a) > 1:
            if const_of(s) is not None and all(isinstance(y, (str, int, tuple)) for y in a):
                return getattr(const_of(s), kind)(*a)
            if kind == "startswith" and len(a) == 2 and isinstance(a[1], int):
                return f(it, slice_str(it, s, a[1], None, None), [x], {})
            raise Unsupported(kind + " with bounds")
        xs = list(x) if isinstance(x, tuple) else [x]
        for y in xs:
            y = _arg_str(it, y, kind)
            w = const_of(y)
            ws = const_of(s)
            if w is not None and ws is not None:
                if getattr(ws, kind)(w):
                    return True
                continue
            if w is not None:
                if str_test(s, rx.starts(w) if kind == "startswith" else rx.ends(w), f"text {kind} {w!r}"):
                    return True
                continue
            if isinstance(s, StrCat):
                yp = list(y.parts) if isinstance(y, StrCat) else [y]
                sp = list(s.parts)
                if kind == "startswith" and len(yp) <= len(sp) and all(same_part(p, q) or p == q for p, q in zip(yp, sp)):
                    return True
                if kind == "endswith" and len(yp) <= len(sp) and all(same_part(p, q) or p == q for p, q in zip(yp[::-1], sp[::-1])):
                    return True
            if isinstance(s, AbsStr) and isinstance(y, AbsStr) and same_part(s, y):
                return True
            # memoised: relation between two unknown texts
            key = (kind, _tid(s), _tid(y))
            m = ctx().memo
            if key not in m:
                if ws is not None and len(ws) < 300 and isinstance(y, AbsStr):
                    opts = sorted({ws[:i] for i in range(len(ws) + 1)} if kind == "startswith" else {ws[i:] for i in range(len(ws) + 1)})
                    m[key] = y.test(rx.words(opts), f"{ws!r} {kind} {y.name}")
                else:
                    m[key] = choose(2, f"text {kind} text", taint=f"{kind} between unknown texts") == 0
            if m[key]:
                return True
        return False
    return _simple(f)


def _tid(s):
    if isinstance(s, AbsStr):
        return ("a", s.find().sid)
    if isinstance(s, StrCat):
        return tuple(_tid(p) if not isinstance(p, Part) else id(p) for p in s.parts)
    return s


def s_replace(it, s, a, k):
    old, new = const_of(_arg_str(it, a[0], "replace")), _arg_str(it, a[1], "replace")
    w = const_of(s)
    wn = const_of(new)
    if w is not None and old is not None and wn is not None:
        return w.replace(old, wn, *a[2:])
    if old is not None and wn is not None and len(a) == 2:
        u = b64_map(s, {old: wn})
        if u is not None:
            return u
    if old is None:
        return StrCat([Part("replace", (s, tuple(a)))])
    if w is not None and old and len(a) == 2:
        xs = w.split(old)
        out = [xs[0]]
        for x in xs[1:]:
            out += [new, x]
        return cat(*out)
    if old == "" and wn == "":
        return s
    if isinstance(s, StrCat):
        p0 = s.parts[0]
        if len(a) > 2 and const_of(a[2]) is None and force(a[2]) == 1 and isinstance(p0, str) and old and old in p0:
            return cat(s_replace(it, p0, a, k), *s.parts[1:])
        if len(a) > 2:
            if not str_test(s, rx.contains(old), f"{old!r} in text"):
                return s
            return StrCat([Part("replace", (s, old, new))])
        if len(old) != 1:
            if not str_test(s, rx.contains(old), f"{old!r} in text"):
                return s
            if len(s.parts) > 1:
                taint("replace in composed text")
        out = []
        for p in s.parts:
            if isinstance(p, str):
                out.append(s_replace(it, p, a, k))
            elif isinstance(p, AbsStr) and len(old) == 1:
                out.append(s_replace(it, p, a, k))
            elif isinstance(p, AbsStr) and not p.can(rx.contains(old)):
                out.append(p)
            else:
                out.append(StrCat([Part("replace", (p, old, new))]))
        return cat(*out)
    if not s.can(rx.contains(old)):
        return s
    if len(old) == 1 and wn is not None and len(a) == 2:
        c = ord(old)
        return s.derive(lambda P: rx.inverse_hom(P, {c: wn}), f"{s.name}.replace({old!r},{wn!r})")
    if not s.test(rx.contains(old), f"{s.name} contains {old!r}"):
        return s
    return StrCat([Part("replace", (s, old, new))])


def s_find(kind):
    def f(it, s, a, k):
        sub = const_of(_arg_str(it, a[0], kind))
        w = const_of(s)
        if w is not None and sub is not None:
            return host_call(it, getattr(w, kind), sub, *a[1:])
        if sub is None or len(a) > 1 or sub == "":
            return unknown_int(kind)
        if not str_test(s, rx.contains(sub), f"{sub!r} in text"):
            if kind in ("index", "rindex"):
                it.throw("ValueError", "substring not found")
            return -1
        if isinstance(s, StrCat):
            return AbsInt(TaintInt(kind), ())
        return AbsInt(PosOfStr(s, sub, kind[0] == "r"), (), kind)
    return _simple(f)


def s_join(it, s, a, k):
    xs = []
    v = force(a[0])
    for x in iterate(it, v):
        if isinstance(x, Rest):
            if x.count.hi != 0:
                xs.append(StrCat([Part("joinrest", x)]))
            continue
        x = force(x)
        if not isinstance(x, STR):
            if isinstance(x, Inst) and isinstance(mixin_value(x), str):
                x = mixin_value(x)
            elif isinstance(x, Opaque):
                x = StrCat([Part("opaque", x.reason)])
            else:
                it.throw("TypeError", f"sequence item {len(xs)}: expected str instance, {type_of(it, x).name} found")
        xs.append(x)
    out = []
    for i, x in enumerate(xs):
        if i:
            out.append(s)
        out.append(x)
    return cat(*out)


def s_encode(it, s, a, k):
    w = const_of(s)
    enc = (const_of(a[0]) if a else k.get("encoding", "utf-8")) or "utf-8"
    if w is not None:
        err = const_of(a[1]) if len(a) > 1 else const_of(k["errors"]) if "errors" in k else "strict"
        try:
            return w.encode(enc, err)
        except UnicodeEncodeError as e:
            it.throw("UnicodeEncodeError", str(e))
        except LookupError as e:
            it.throw("LookupError", str(e))
    if enc.lower().replace("-", "") == "utf8":
        bad = rx.concat(rx.ANY, rx.chars(_surr), rx.ANY)
    elif enc.lower() == "ascii":
        bad = rx.over(((0, 128),)).neg()
    elif enc.lower().replace("-", "").replace("_", "") in ("latin1", "iso88591"):
        bad = rx.over(((0, 256),)).neg()
    else:
        return AbsBytes("encoded", s)
    if len(a) >= 2 or "errors" in k:
        if isinstance(s, AbsStr) and s.can(bad) and s.test(bad, f"{s.name} has unencodable characters"):
            return AbsBytes("encoded", StrCat([Part("unencodable", s)]))
    if len(a) < 2 and "errors" not in k:
        if isinstance(s, AbsStr):
            if s.test(bad, f"{s.name} has unencodable characters"):
                it.throw("UnicodeEncodeError", "surrogates not allowed")
        else:
            for p in s.parts:
                if isinstance(p, AbsStr) and p.test(bad, f"{p.name} has unencodable characters"):
                    it.throw("UnicodeEncodeError", "surrogates not allowed")
    return AbsBytes("encoded", s)


def s_is(kind):
    pred = getattr(str, kind)

    def f(it, s, a, k):
        w = const_of(s)
        if w is not None:
            return pred(w)
        if kind == "isascii":
            return str_test(s, rx.over(((0, 128),)), kind)
        if kind in ("isdigit", "isdecimal", "isnumeric", "isalpha", "isalnum", "isspace"):
            cs = rx.cs_pred(kind, pred)
            return str_test(s, rx.inter(rx.over(cs), rx.NONEMPTY), kind)
        if kind in ("isupper", "islower"):
            up = rx.cs_pred("isupper", str.isupper)
            lo = rx.cs_pred("islower", str.islower)
            ti = rx.cs_pred("istitle1", lambda c: c.istitle() and not c.isupper())
            good, bad = (up, rx.cs_or(lo, ti)) if kind == "isupper" else (lo, rx.cs_or(up, ti))
            return str_test(s, rx.inter(rx.over(rx.cs_neg(bad)), rx.concat(rx.ANY, rx.chars(good), rx.ANY)), kind)
        return choose(2, kind, taint="str." + kind) == 0
    return _simple(f)


def s_rmfix(kind):
    def f(it, s, a, k):
        w = const_of(s)
        x = const_of(_arg_str(it, a[0], kind))
        if w is not None and x is not None:
            return getattr(w, kind)(x)
        if x is None:
            raise Unsupported(kind)
        if kind == "removeprefix":
            return slice_str(it, s, len(x), None, None) if x and s_affix("startswith")(it, s, [x], {}) else s
        return slice_str(it, s, None, -len(x), None) if x and s_affix("endswith")(it, s, [x], {}) else s
    return _simple(f)


def s_format(it, s, a, k):
    w = const_of(s)
    if w is None:
        return StrCat([Part("format", s)])
    return _vformat(it, w, a, k, [0])


def _vformat(it, w, a, k, auto):
    import string, _string
    out = []
    try:
        fields = list(string.Formatter().parse(w))
    except ValueError as e:
        it.throw("ValueError", str(e))

    def pos(n):
        if n >= len(a):
            it.throw("IndexError", f"Replacement index {n} out of range for positional args tuple")
        return a[n]
    for lit, fld, spec, conv in fields:
        if lit:
            out.append(lit)
        if fld is None:
            continue
        try:
            first, rest = _string.formatter_field_name_split(fld)
            rest = list(rest)
        except ValueError as e:
            it.throw("ValueError", str(e))
        if first == "":
            if auto[0] is None:
                it.throw("ValueError", "cannot switch from manual field specification to automatic field numbering")
            v = pos(auto[0])
            auto[0] += 1
        elif isinstance(first, int):
            if auto[0]:
                it.throw("ValueError", "cannot switch from automatic field numbering to manual field specification")
            auto[0] = None
            v = pos(first)
        else:
            if first not in k:
                it.throw("KeyError", first)
            v = k[first]
        for isattr, p in rest:
            v = it.getattr_(v, p) if isattr else getitem(it, v, p)
        sp = _vformat(it, spec, a, k, auto) if spec and "{" in spec else spec or ""
        out.append(format_value(it, v, ord(conv) if conv else -1, sp))
    return cat(*out)


def s_splitlines(it, s, a, k):
    w = const_of(s)
    if w is not None:
        return PyList(w.splitlines(*a, **k))
    raise Unsupported("splitlines of abstract text")


STR_METHODS = {
    "strip": s_strip("strip"), "lstrip": s_strip("lstrip"), "rstrip": s_strip("rstrip"),
    "lower": s_case("lower"), "upper": s_case("upper"), "casefold": s_case("casefold"),
    "split": s_split(False), "rsplit": s_split(True), "partition": s_partition(False), "rpartition": s_partition(True),
    "startswith": s_affix("startswith"), "endswith": s_affix("endswith"),
    "replace": _simple(s_replace), "find": s_find("find"), "rfind": s_find("rfind"), "index": s_find("index"), "rindex": s_find("rindex"),
    "join": s_join, "encode": _simple(s_encode), "removeprefix": s_rmfix("removeprefix"), "removesuffix": s_rmfix("removesuffix"),
    "format": s_format, "splitlines": _simple(s_splitlines),
}
for _k in ("isdigit", "isdecimal", "isnumeric", "isalpha", "isalnum", "isspace", "isupper", "islower", "isascii", "isidentifier", "istitle", "isprintable"):
    STR_METHODS[_k] = s_is(_k)


# ---- list methods
def l_pop(it, o, a, k):
    i = a[0] if a else -1
    if not o.items:
        it.throw("IndexError", "pop from empty list")
    if o.has_seg():
        if i == -1 and not isinstance(o.items[-1], Seg):
            snap(o)
            return o.items.pop()
        v = list_get(it, o, i)
        snap(o)
        o.items.remove(v)
        return v
    snap(o)
    try:
        return o.items.pop(i)
    except IndexError:
        it.throw("IndexError", "pop index out of range")


def l_insert(it, o, a, k):
    snap(o)
    o.items.insert(a[0], a[1])


def l_remove(it, o, a, k):
    for i, x in enumerate(o.items):
        if isinstance(x, Seg):
            raise Unsupported("remove from summarised list")
        if x is a[0] or eq(it, x, a[0]):
            snap(o)
            del o.items[i]
            return
    it.throw("ValueError", "list.remove(x): x not in list")


def l_index(it, o, a, k):
    items = o if isinstance(o, tuple) else o.items
    for i, x in enumerate(items):
        if isinstance(x, Seg):
            raise Unsupported("index in summarised list")
        if x is a[0] or eq(it, x, a[0]):
            return i
    if isinstance(o, tuple):
        it.throw("ValueError", "tuple.index(x): x not in tuple")
    it.throw("ValueError", cat(repr_(it, a[0]), " is not in list"))


def l_count(it, o, a, k):
    n = 0
    for x in iterate(it, o):
        if isinstance(x, Rest):
            return unknown_int("count in summarised list")
        if x is a[0] or eq(it, x, a[0]):
            n += 1
    return n


def l_clear(it, o, a, k):
    snap(o)
    o.items.clear()


def l_reverse(it, o, a, k):
    snap(o)
    o.items.reverse()


def sort_items(it, items, k):
    key = k.get("key")
    rev = k.get("reverse", False)
    if any(isinstance(x, Seg) for x in items):
        raise Unsupported("sort of summarised list")
    if len(items) <= 1:
        return list(items)
    ks = [force(it.call(key, [x], {})) if key is not None else force(x) for x in items]
    import functools

    def c(i, j):
        if truth(it, compare(it, "<", ks[i], ks[j])):
            return -1
        if truth(it, compare(it, "<", ks[j], ks[i])):
            return 1
        return 0
    idx = sorted(range(len(items)), key=functools.cmp_to_key(c), reverse=bool(rev))
    return [items[i] for i in idx]


def l_sort(it, o, a, k):
    r = sort_items(it, o.items, k)
    snap(o)
    o.items[:] = r


LIST_METHODS = {
    "append": lambda it, o, a, k: list_append(it, o, a[0]),
    "extend": lambda it, o, a, k: list_extend(it, o, a[0]),
    "pop": l_pop, "insert": l_insert, "remove": l_remove, "index": l_index, "count": l_count,
    "clear": l_clear, "reverse": l_reverse, "sort": l_sort,
    "copy": lambda it, o, a, k: PyList(o.items),
    "__len__": lambda it, o, a, k: len_(it, o),
    "__iter__": lambda it, o, a, k: PyGen(iterate(it, o)),
    "__getitem__": lambda it, o, a, k: getitem(it, o, a[0]),
    "__contains__": lambda it, o, a, k: contains(it, o, a[0]),
    "__eq__": lambda it, o, a, k: eq(it, o, a[0]),
}


def dq_popleft(it, o, a, k):
    if not o.items:
        it.throw("IndexError", "pop from an empty deque")
    return l_pop(it, o, [0], {})


def dq_extendleft(it, o, a, k):
    for x in iterate(it, a[0]):
        if isinstance(x, Rest):
            raise Unsupported("extendleft of a summarised list")
        l_insert(it, o, [0, x], {})


def dq_rotate(it, o, a, k):
    if o.has_seg():
        raise Unsupported("rotate of a summarised list")
    n = (force(a[0]) if a else 1)
    snap(o)
    if o.items:
        n %= len(o.items)
        o.items[:] = o.items[-n:] + o.items[:-n] if n else o.items


DEQUE_METHODS = dict(LIST_METHODS, appendleft=lambda it, o, a, k: l_insert(it, o, [0, a[0]], {}), popleft=dq_popleft, extendleft=dq_extendleft, rotate=dq_rotate)
TUPLE_METHODS = {"index": l_index, "count": l_count, "__len__": lambda it, o, a, k: len(o), "__iter__": lambda it, o, a, k: PyGen(iter(o))}


# ---- dict methods
def d_get(it, o, a, k):
    e = dict_find(it, o, a[0])
    if e is None:
        return a[1] if len(a) > 1 else k.get("default")
    return e[1]


def d_pop(it, o, a, k):
    e = dict_find(it, o, a[0])
    if e is None:
        if len(a) > 1:
            return a[1]
        it.throw("KeyError", a[0])
    snap(o)
    tok = next(t for t, x in o.d.items() if x is e)
    del o.d[tok]
    return e[1]


def d_setdefault(it, o, a, k):
    e = dict_find(it, o, a[0])
    if e is None:
        v = a[1] if len(a) > 1 else None
        setitem(it, o, a[0], v)
        return v
    return e[1]


def d_update(it, o, a, k):
    if a:
        src = force(a[0])
        if isinstance(src, PyDict) or type(src).__name__ == "NsDict" or isinstance(src, Inst) and src.cls.has("keys"):
            for kk, vv in dict_items(it, src):
                setitem(it, o, kk, vv)
        elif isinstance(src, Opaque):
            raise Unsupported("update with " + src.reason)
        else:
            for kv in iterate(it, src):
                if isinstance(kv, Rest):
                    continue
                kv = list(iterate(it, kv))
                setitem(it, o, kv[0], kv[1])
    for kk, vv in k.items():
        setitem(it, o, kk, vv)


def d_clear(it, o, a, k):
    snap(o)
    o.d.clear()
    o.nabs = 0


def d_copy(it, o, a, k):
    d = PyDict()
    d.d = {t: list(e) for t, e in o.d.items()}
    d.nabs = o.nabs
    d.default = o.default
    d.cls = o.cls
    return d


def d_popitem(it, o, a, k):
    resolve_all(o)
    if not o.d:
        it.throw("KeyError", "popitem(): dictionary is empty")
    snap(o)
    t = list(o.d)[-1]
    e = o.d.pop(t)
    return (e[0], e[1])


DICT_METHODS = {
    "get": d_get, "pop": d_pop, "setdefault": d_setdefault, "update": d_update, "clear": d_clear, "copy": d_copy, "popitem": d_popitem,
    "items": lambda it, o, a, k: DictView(o, "items"),
    "keys": lambda it, o, a, k: DictView(o, "keys"),
    "values": lambda it, o, a, k: DictView(o, "values"),
    "__getitem__": lambda it, o, a, k: getitem(it, o, a[0]),
    "__contains__": lambda it, o, a, k: contains(it, o, a[0]),
    "__len__": lambda it, o, a, k: len_(it, o),
    "__iter__": lambda it, o, a, k: PyGen(iterate(it, o)),
    "__setitem__": lambda it, o, a, k: setitem(it, o, a[0], a[1]),
}


# ---- set methods
def se_op(op):
    def f(it, o, a, k):
        r = o
        for x in a:
            x = force(x)
            if not isinstance(x, PySet):
                s = PySet()
                for y in nonrest(it, x, "set"):
                    set_add(it, s, y)
                x = s
            r = binop(it, op, r, x)
        if r is o:
            r = PySet(list(o.d.values()), o.frozen)
        return r
    return f


def se_update(it, o, a, k):
    for x in a:
        for y in nonrest(it, x, "set"):
            set_add(it, o, y)


def se_remove(it, o, a, k):
    t = _find(it, o.d, hashable(it, a[0]))
    if t is NOKEY:
        it.throw("KeyError", a[0])
    snap(o)
    del o.d[t]


def se_discard(it, o, a, k):
    t = _find(it, o.d, hashable(it, a[0]))
    if t is not NOKEY:
        snap(o)
        del o.d[t]


def se_pop(it, o, a, k):
    if not o.d:
        it.throw("KeyError", "pop from an empty set")
    snap(o)
    t = next(iter(o.d))
    return o.d.pop(t)


def _as_set(it, x):
    x = force(x)
    if isinstance(x, PySet):
        return x
    s = PySet()
    for y in nonrest(it, x, "set"):
        set_add(it, s, y)
    return s


def se_clear(it, o, a, k):
    snap(o)
    o.d.clear()
    o.nabs = 0


SET_METHODS = {
    "add": lambda it, o, a, k: set_add(it, o, a[0]),
    "update": se_update, "remove": se_remove, "discard": se_discard, "pop": se_pop, "clear": se_clear,
    "union": se_op("BitOr"), "intersection": se_op("BitAnd"), "difference": se_op("Sub"), "symmetric_difference": se_op("BitXor"),
    "issubset": lambda it, o, a, k: set_sub(it, o, _as_set(it, a[0])),
    "issuperset": lambda it, o, a, k: set_sub(it, _as_set(it, a[0]), o),
    "isdisjoint": lambda it, o, a, k: not any(set_has(it, o, x) for x in _as_set(it, a[0]).d.values()),
    "copy": lambda it, o, a, k: PySet(list(o.d.values()), o.frozen),
    "__contains__": lambda it, o, a, k: set_has(it, o, a[0]),
    "__len__": lambda it, o, a, k: len(o.d),
    "__iter__": lambda it, o, a, k: PyGen(iterate(it, o)),
}


# ------------------------------------------------------------------ builtin functions
_HOST = {}


def need_host(o, name):
    """an attribute that the modelled class lacks but the real one of the standard library has is not modelled (rather than missing)"""
    o = force(o)
    if not isinstance(o, Inst) or not isinstance(name, str):
        return
    for c in o.cls.mro:
        key = (c.module, c.name)
        if key not in _HOST:
            h = None
            if isinstance(c.module, str) and c.module.split(".")[0] in sys.stdlib_module_names and c.module != "__main__" and c.name != "object":
                import importlib
                try:
                    h = getattr(importlib.import_module(c.module), c.name, None)
                except Exception:
                    h = None
            _HOST[key] = h if isinstance(h, type) else None
        h = _HOST[key]
        if h is not None and getattr(h, name, None) is not None and getattr(h, name) is not getattr(object, name, None):
            raise Unsupported(f"{c.module}.{c.name}.{name}")


def check_slot(it, o, name):
    names = set()
    for c in o.cls.mro:
        if c.name == "object" and c.host is object:
            continue
        if "__slots__" not in c.ns:
            return
        sl = force(c.ns["__slots__"])
        for x in [sl] if isinstance(sl, str) else iterate(it, sl):
            names.add(const_of(x) if isinstance(x, STR) else x)
    if name not in names and "__dict__" not in names:
        it.throw("AttributeError", f"'{o.cls.name}' object has no attribute '{name}' and no __dict__ for setting new attributes")


def stop_(it, e):
    """StopIteration of a generator, with the value it returned"""
    v = e.value[1] if isinstance(e.value, tuple) and len(e.value) == 2 and e.value[0] == "ret" else None
    x = it.make_exc(it.builtins["StopIteration"], [] if v is None else [v])
    x.attrs["value"] = v
    raise PyRaise(x)


def next_(it, a, k):
    g = force(a[0])
    if isinstance(g, Inst) and g.cls.has("__next__"):
        try:
            return it.call(it.getattr_(g, "__next__"), [], {})
        except PyRaise as pr:
            if len(a) > 1 and pr.exc.cls.name == "StopIteration":
                return a[1]
            raise
    if not isinstance(g, PyGen):
        if isinstance(g, Opaque):
            return Opaque("next(" + g.reason + ")")
        it.throw("TypeError", f"'{type_of(it, g).name}' object is not an iterator")
    while True:
        try:
            v = next(g.it)
        except StopIteration as e:
            if len(a) > 1:
                return a[1]
            stop_(it, e)
        if isinstance(v, Rest):
            continue
        return v


def iter_(it, a, k):
    v = force(a[0])
    if len(a) > 1:
        def until():
            while True:
                try:
                    x = it.call(v, [], {})
                except PyRaise as pr:
                    if pr.exc.cls.name == "StopIteration":
                        return
                    raise
                if it.truth(it.compare("==", x, a[1])):
                    return
                yield x
        return PyGen(until())
    if isinstance(v, PyGen):
        return v
    if isinstance(v, Inst):
        f = v.cls.lookup("__iter__")
        if f is not None:
            return it.call(it.bind(f, v, v.cls), [], {})
    return PyGen(iter(iterate(it, v)))


def enumerate_(it, a, k):
    st = k.get("start", a[1] if len(a) > 1 else 0)

    def g():
        i = st
        for x in iterate(it, a[0]):
            if isinstance(x, Rest):
                yield x
                if x.count.hi != 0:
                    i = unknown_int("enumerate after summarised segment")
                continue
            yield (i, x)
            i = binop(it, "Add", i, 1)
    force(a[0])
    return PyGen(g())


def zip_(it, a, k):
    def g():
        its = [iterate(it, x) for x in a]
        while True:
            row = []
            for x in its:
                v = NotImplemented
                for v in x:
                    if isinstance(v, Rest):
                        if v.count.hi != 0:
                            taint("zip over summarised list")
                        v = NotImplemented
                        continue
                    break
                else:
                    v = NotImplemented
                if v is NotImplemented:
                    if k.get("strict"):
                        n = len(row) + 1
                        if row:
                            it.throw("ValueError", f"zip() argument {n} is shorter than argument" + (" 1" if n == 2 else f"s 1-{n - 1}"))
                        for j, y in enumerate(its[1:]):
                            for w in y:
                                if not isinstance(w, Rest):
                                    it.throw("ValueError", f"zip() argument {j + 2} is longer than argument" + (" 1" if j == 0 else f"s 1-{j + 1}"))
                                if w.count.hi != 0:
                                    taint("zip over summarised list")
                    return
                row.append(v)
            yield tuple(row)
    return PyGen(g())


def map_(it, a, k):
    f = a[0]

    def g():
        if len(a) == 2:
            for x in iterate(it, a[1]):
                yield x if isinstance(x, Rest) else it.call(f, [x], {})
        else:
            for x in zip_(it, a[1:], {}).it:
                yield it.call(f, list(x), {})
    return PyGen(g())


def filter_(it, a, k):
    f = force(a[0])

    def g():
        for x in iterate(it, a[1]):
            if isinstance(x, Rest):
                yield Rest(Count(0, x.count.hi))
            elif truth(it, x if f is None else it.call(f, [x], {})):
                yield x
    return PyGen(g())


def any_(it, a, k):
    for x in iterate(it, a[0]):
        if isinstance(x, Rest):
            continue
        if truth(it, x):
            return True
    return False


def all_(it, a, k):
    for x in iterate(it, a[0]):
        if isinstance(x, Rest):
            continue
        if not truth(it, x):
            return False
    return True


def sum_(it, a, k):
    r = a[1] if len(a) > 1 else k.get("start", 0)
    for x in iterate(it, a[0]):
        if isinstance(x, Rest):
            if x.count.hi != 0:
                r = unknown_int("sum over summarised list") if isinstance(r, (int, AbsInt)) else r
            continue
        r = binop(it, "Add", r, x)
    return r


def minmax(op):
    def f(it, a, k):
        key = k.get("key")
        if len(a) == 1:
            items = nonrest(it, a[0], "min/max")
        else:
            items = list(a)
        if not items:
            if "default" in k:
                return k["default"]
            it.throw("ValueError", "arg is an empty sequence")
        best = items[0]
        bk = it.call(key, [best], {}) if key is not None else best
        for x in items[1:]:
            xk = it.call(key, [x], {}) if key is not None else x
            if truth(it, compare(it, op, xk, bk)):
                best, bk = x, xk
        return best
    return f


def sorted_(it, a, k):
    return PyList(sort_items(it, to_list(it, a[0]), k))


def reversed_(it, a, k):
    v = force(a[0])
    if isinstance(v, Inst) and v.cls.has("__reversed__"):
        return it.call(it.getattr_(v, "__reversed__"), [], {})
    xs = to_list(it, v)
    return PyGen(iterate(it, PyList(xs[::-1])))


def range_(it, a, k):
    vs = []
    for x in a:
        x = force(x)
        if isinstance(x, AbsInt):
            s = x.single()
            if s is None:
                return abs_range(it, [force(y) for y in a])
            x = s
        vs.append(x)
    return HostView(host_call(it, range, *vs))


def abs_range(it, a):
    """range with an unknown bound: a summarised list of indices"""
    if len(a) == 1 and isinstance(a[0], AbsInt):
        n = a[0]

        def g():
            i = 0
            while truth(it, compare(it, ">", n, i)):
                if i >= 3:
                    taint("range with unknown bound")
                    return
                yield i
                i += 1
        return PyGen(g())
    raise Unsupported("range with unknown bounds")


def getattr_fn(it, a, k):
    if len(a) > 2:
        return it.getattr_(a[0], a[1], a[2])
    return it.getattr_(a[0], a[1])


def dir_(it, a, k):
    if not a:
        raise Unsupported("dir()")
    o = force(a[0])
    names = set(n for n in hb.dir(object))
    if isinstance(o, Inst):
        names |= set(o.attrs) - {"_value_", "_name_"} if o.cls.members is not None else set(o.attrs)
        for c in o.cls.mro:
            names |= set(c.ns)
    elif isinstance(o, PyClass):
        for c in o.mro:
            names |= set(c.ns)
    elif isinstance(o, PyModule):
        names = set(o.ns)
    elif isinstance(o, (str, AbsStr)):
        names = set(dir(str))
    return PyList(sorted(x for x in names if isinstance(x, str)))


def to_stdout(it, text):
    """one text for the standard output; a strict one (State.ctx.strict_out) cannot take lone surrogates"""
    if getattr(State.ctx, "strict_out", False):
        bad = rx.concat(rx.ANY, rx.chars(_surr), rx.ANY)
        for p in text.parts if isinstance(text, StrCat) else [text]:
            while isinstance(p, Part) and p.kind != "json":
                p = p.value
            if isinstance(p, str) and any(0xD800 <= ord(c) < 0xE000 for c in p) or isinstance(p, AbsStr) and p.test(bad, f"{p.name} has unencodable characters"):
                it.throw("UnicodeEncodeError", "'utf-8' codec can't encode character: surrogates not allowed")
    State.ctx.effects.append(("print", text))


def print_(it, a, k):
    sep = k.get("sep", " ")
    out = []
    for i, x in enumerate(a):
        if i:
            out.append(sep if sep is not None else " ")
        out.append(str_(it, x))
    f = k.get("file")
    end = k.get("end", "\n")
    text = cat(*out, end if end is not None else "\n")
    if f is not None:
        f = force(f)
        if isinstance(f, Inst) or isinstance(f, Opaque):
            it.call(it.getattr_(f, "write"), [text], {})
            return
    m = it.modules.get("sys")
    f = m.ns.get("stdout") if m is not None else None
    if f is not None and f is not m.ns.get("__stdout__"):
        it.call(it.getattr_(f, "write"), [text], {})
        return
    to_stdout(it, text)


def setup(interp):
    State.interp = interp
    b = interp.builtins
    obj = PyClass("object", [], {})
    obj.host = object
    b["object"] = obj

    def cls(name, base=None, host=None, new=None, **kw):
        c = PyClass(name, [base or obj], {})
        c.host = host
        c.native_new = new
        b[name] = c
        return c

    typ = cls("type", host=None)

    def type_new(it, c, a, k):
        if len(a) == 1:
            return type_of(it, a[0])
        if len(a) == 3:
            ns = {kk: vv for kk, vv in dict_items(it, a[2])}
            return make_class(it, a[0], list(iterate(it, a[1])), ns, dict(k), "dynamic", a[0])
        it.throw("TypeError", "type() takes 1 or 3 arguments")
    typ.native_new = type_new
    em = PyClass("EnumType", [typ], {}, "enum")
    b["EnumMeta"] = em

    def str_new(it, c, a, k):
        if not a:
            return ""
        if isinstance(force(a[0]), (bytes, AbsBytes)) and (len(a) > 1 or "encoding" in k):
            return it.call(builtin_attr(it, force(a[0]), "decode"), a[1:], k)
        if c.module != "builtins":
            raise Unsupported("subclass of str")
        r = str_(it, a[0])
        return r
    cls("str", host=str, new=str_new)

    def int_new(it, c, a, k):
        if c.module != "builtins":
            raise Unsupported("subclass of int")
        if not a:
            return 0
        v = force(a[0])
        if "base" in k:
            a = [a[0], force(k["base"])]
        if isinstance(v, AbsBool):
            v = v.get()
        if isinstance(v, STR):
            w = const_of(v)
            if w is not None:
                return host_call(it, int, w, *[force(x) for x in a[1:]])
            if len(a) > 1 and a[1] != 10:
                raise Unsupported("int(text, base)")
            if not str_test(v, strlang.int_lang(), "text is an integer literal"):
                it.throw("ValueError", cat("invalid literal for int() with base 10: ", repr_(it, v)))
            if isinstance(v, StrCat):
                return unknown_int("int of assembled text")
            return AbsInt(IntOfStr(v), (), f"int({v.name})")
        if isinstance(v, (int, float)):
            return host_call(it, int, v)
        if isinstance(v, AbsInt):
            return v
        if isinstance(v, AbsFloat):
            return unknown_int("int of float")
        if isinstance(v, Inst):
            m = mixin_value(v)
            if m is not v:
                return int_new(it, c, [m], k)
            f = v.cls.lookup("__int__") or v.cls.lookup("__index__")
            if f is not None:
                return it.call(it.bind(f, v, v.cls), [], {})
        if isinstance(v, Opaque):
            return unknown_int("int of " + v.reason)
        if isinstance(v, bytes):
            return host_call(it, int, v)
        it.throw("TypeError", f"int() argument must be a string, a bytes-like object or a real number, not '{type_of(it, v).name}'")
    ic = cls("int", host=int, new=int_new)

    def bool_new(it, c, a, k):
        return truth(it, a[0]) if a else False
    cls("bool", ic, bool, bool_new)

    def float_new(it, c, a, k):
        if not a:
            return 0.0
        v = force(a[0])
        if isinstance(v, STR):
            w = const_of(v)
            if w is not None:
                return host_call(it, float, w)
            if not str_test(v, strlang.float_lang(), "text is a float literal"):
                it.throw("ValueError", cat("could not convert string to float: ", repr_(it, v)))
            return AbsFloat(v if isinstance(v, AbsStr) else None)
        if isinstance(v, (int, float)):
            return host_call(it, float, v)
        if isinstance(v, AbsBool):
            return float(v.get())
        if isinstance(v, (AbsInt, AbsFloat)):
            return v if isinstance(v, AbsFloat) else AbsFloat()
        if isinstance(v, Opaque):
            return AbsFloat()
        it.throw("TypeError", "float() argument must be a string or a real number")
    cls("float", host=float, new=float_new)

    def odd(c):
        for x in c.mro:
            if x.module == "builtins":
                return
            for n in ("__setitem__", "__getitem__", "__contains__", "__iter__", "__init__", "__new__", "__len__", "__eq__", "__bool__", "__delitem__", "__setattr__"):
                if n in x.ns:
                    raise Unsupported(f"subclass of a container with its own {n}")

    def list_new(it, c, a, k):
        if not a:
            l = PyList()
        else:
            l = PyList(to_list(it, a[0]))
        if c.name != "list":
            l.sub = c
            odd(c)
        return l
    cls("list", host=list, new=list_new)
    cls("tuple", host=tuple, new=lambda it, c, a, k: tuple(nonrest(it, a[0], "tuple")) if a else ())

    def dict_new(it, c, a, k):
        d = PyDict()
        if c.name != "dict":
            d.cls = c
            odd(c)
        d_update(it, d, a, k)
        return d
    cls("dict", host=dict, new=dict_new)

    def set_new(frozen):
        def f(it, c, a, k):
            s = PySet(frozen=frozen)
            if a:
                for x in nonrest(it, a[0], "set"):
                    x = hashable(it, x)
                    if _find(it, s.d, x) is NOKEY:
                        s.put(x)
            return s
        return f
    cls("set", host=set, new=set_new(False))
    cls("frozenset", host=frozenset, new=set_new(True))

    def bytes_new(it, c, a, k):
        if not a:
            return b""
        v = force(a[0])
        if isinstance(v, STR):
            if len(a) < 2 and "encoding" not in k:
                it.throw("TypeError", "string argument without an encoding")
            return s_encode(it, v, [force(x) for x in a[1:]], k)
        if isinstance(v, (bytes, AbsBytes)):
            return v
        if isinstance(v, PyList) and all(isinstance(x, int) for x in v.items):
            return host_call(it, bytes, v.items)
        if isinstance(v, int):
            return host_call(it, bytes, v)
        return AbsBytes("bytes")
    cls("bytes", host=bytes, new=bytes_new)
    cls("bytearray", host=bytearray, new=lambda it, c, a, k: AbsBytes("bytearray"))
    for n in ("NoneType", "function", "method", "builtin_function_or_method", "module", "generator", "ForwardRef", "GenericAlias", "SpecialForm", "NotImplementedType", "ellipsis", "opaque", "complex", "memoryview", "range_t"):
        cls(n)

    def slice_new(it, c, a, k):
        from .interp import SliceV
        a = [force(x) for x in a]
        return SliceV(*([None] + a + [None] if len(a) == 1 else a + [None] * (3 - len(a))))
    cls("slice", new=slice_new)
    # exceptions
    for n in sorted(dir(hb)):
        o = getattr(hb, n)
        if isinstance(o, type) and issubclass(o, BaseException):
            _exc(interp, o)
    b["IOError"] = b["EnvironmentError"] = b["OSError"]
    b["BaseException"].native_new = exc_new
    b["BaseException"].ns["__init__"] = Native("BaseException.__init__", exc_init)
    ns = {
        "next": next_, "iter": iter_, "enumerate": enumerate_, "zip": zip_, "map": map_, "filter": filter_, "any": any_, "all": all_, "sum": sum_,
        "min": minmax("<"), "max": minmax(">"), "sorted": sorted_, "reversed": reversed_, "range": range_, "getattr": getattr_fn,
        "len": lambda it, a, k: len_(it, a[0]),
        "repr": lambda it, a, k: repr_(it, a[0]),
        "isinstance": lambda it, a, k: isinstance_(it, a[0], a[1]),
        "issubclass": lambda it, a, k: issubclass_(it, a[0], a[1]),
        "hasattr": lambda it, a, k: it.hasattr_(a[0], a[1]),
        "setattr": lambda it, a, k: it.setattr_(a[0], a[1], a[2]),
        "delattr": lambda it, a, k: it.delattr_(a[0], a[1]),
        "callable": lambda it, a, k: callable_(it, a[0]),
        "dir": dir_, "print": print_,
        "id": lambda it, a, k: id(force(a[0])),
        "hash": lambda it, a, k: hash_(it, a[0]),
        "abs": lambda it, a, k: abs_(it, force(a[0])),
        "ord": lambda it, a, k: ord_(it, force(a[0])),
        "chr": lambda it, a, k: host_call(it, chr, a[0]),
        "round": lambda it, a, k: host_call(it, round, *a) if isnum(a[0]) else unknown_int("round"),
        "divmod": lambda it, a, k: (binop(it, "FloorDiv", a[0], a[1]), binop(it, "Mod", a[0], a[1])),
        "pow": lambda it, a, k: binop(it, "Pow", a[0], a[1]) if len(a) < 3 else host_call(it, pow, *[force(x) for x in a]),
        "vars": lambda it, a, k: it.getattr_(a[0], "__dict__"),
        "format": lambda it, a, k: format_value(it, a[0], -1, a[1] if len(a) > 1 else ""),
        "ascii": lambda it, a, k: ascii_(it, a[0]),
        "bin": lambda it, a, k: host_call(it, bin, a[0]), "hex": lambda it, a, k: host_call(it, hex, a[0]), "oct": lambda it, a, k: host_call(it, oct, a[0]),
        "input": lambda it, a, k: (State.ctx.effects.append(("input",)), AbsStr(name="stdin"))[1],
    }
    for n, f in ns.items():
        b[n] = Native(n, f)

    def uns(n):
        def f(it, a, k):
            State.ctx.effects.append(("call", n))
            raise Unsupported(n)
        return f
    for n in ("eval", "exec", "compile", "__import__"):
        b[n] = Native(n, uns(n))
    b["property"] = Native("property", lambda it, a, k: Prop(a[0] if a else k.get("fget"), a[1] if len(a) > 1 else None))
    b["classmethod"] = Native("classmethod", lambda it, a, k: CMeth(a[0]))
    b["staticmethod"] = Native("staticmethod", lambda it, a, k: SMeth(a[0]))

    def super_(it, a, k):
        return SuperObj(a[0], a[1])
    b["super"] = Native("super", super_)
    b["NotImplemented"] = NotImplemented
    b["Ellipsis"] = Ellipsis
    b["__debug__"] = True
    b["__name__"] = "builtins"
    b["__build_class__"] = Opaque("__build_class__")


def hash_(it, v):
    v = hashable(it, v)
    if is_abs(v):
        return unknown_int("hash")
    if isinstance(v, Inst):
        f = v.cls.lookup("__hash__")
        if isinstance(f, PyFunc):
            return it.call(BoundMethod(f, v), [], {})
    return hash(v) if isinstance(v, (str, int, float, tuple, bool)) else id(v)


def abs_(it, v):
    if isinstance(v, AbsInt):
        return v if v.test(ISet([(0, None)]), f"{v.label} >= 0") else v.then("affine", -1, 0)
    if isnum(v):
        return abs(v)
    if isinstance(v, AbsFloat):
        return AbsFloat()
    it.throw("TypeError", "bad operand type for abs()")


def ord_(it, v):
    w = const_of(v) if isinstance(v, STR) else None
    if w is not None:
        return host_call(it, ord, w)
    return unknown_int("ord")


def _exc(interp, o):
    b = interp.builtins
    if o.__name__ in b:
        return b[o.__name__]
    bases = [_exc(interp, x) if issubclass(x, BaseException) else b["object"] for x in o.__bases__]
    c = PyClass(o.__name__, bases, {})
    b[o.__name__] = c
    return c


def exc_new(it, cls, args, kw):
    e = Inst(cls, {"args": tuple(args)})
    e.data = {"loc": State.ctx.loc, "stack": list(State.ctx.stack)}
    i = cls.lookup("__init__")
    if isinstance(i, PyFunc):
        it.call(BoundMethod(i, e), list(args), kw)
    elif isinstance(i, Native) and i.name != "BaseException.__init__":
        it.call(BoundMethod(i, e), list(args), kw)
    elif kw and not cls.issub(it.builtins["ImportError"]) and not cls.issub(it.builtins["AttributeError"]) and not cls.issub(it.builtins["NameError"]):
        it.throw("TypeError", f"{cls.name}() takes no keyword arguments")
    return e


def exc_init(it, a, k):
    a[0].attrs["args"] = tuple(a[1:])
