class D(dict):
    def hi(self): return len(self)
    def __getattr__(self, n): return self[n]
class L(list):
    def last(self): return self[-1]
class S(str):
    def loud(self): return self.upper() + "!"
class I(int):
    def dbl(self): return self * 2
class M(dict):
    def __missing__(self, k): return "m" + k
class W(dict):
    def __setitem__(self, k, v): super().__setitem__(k, v * 2)
class E(Exception):
    def __init__(self, a, b):
        super().__init__(f"{a}-{b}")
        self.a = a
class E2(E):
    def __str__(self): return "E2:" + super().__str__()
class Desc:
    def __set_name__(self, o, n): self.n = "_" + n
    def __get__(self, i, o=None): return self if i is None else getattr(i, self.n, "unset")
    def __set__(self, i, v): setattr(i, self.n, v * 2)
class HasDesc:
    x = Desc()
class It:
    def __init__(self): self.n = 0
    def __iter__(self): return self
    def __next__(self):
        self.n += 1
        if self.n > 3: raise StopIteration
        return self.n
class Ctx:
    def __init__(self, log, sw=False): self.log, self.sw = log, sw
    def __enter__(self):
        self.log.append("in")
        return self
    def __exit__(self, t, v, tb):
        self.log.append(t.__name__ if t else None)
        return self.sw
class Priv:
    def __init__(self): self.__v = 1
    def get(self): return self.__v
class Cmp:
    def __init__(self, v): self.v = v
    def __eq__(self, o): return NotImplemented
    def __gt__(self, o): return self.v > o.v
class Num:
    def __init__(self, v): self.v = v
    def __radd__(self, o): return o + self.v
    def __index__(self): return self.v
    def __int__(self): return self.v
    def __float__(self): return float(self.v)
    def __neg__(self): return -self.v
    def __format__(self, s): return f"<{s}>"
    def __round__(self, n=0): return 9
    def __abs__(self): return 5
def t_d():
    d = D(a=1)
    d["b"] = 2
    return d.hi(), d.b, dict(d), isinstance(d, dict), type(d).__name__, list(d.items()), d == {"a": 1, "b": 2}
def t_l():
    l = L([1, 2])
    l.append(3)
    return l.last(), len(l), list(l), isinstance(l, list), l == [1, 2, 3]
def t_s():
    s = S("ab")
    return s.loud(), s + "c", s == "ab", isinstance(s, str), len(s), s.upper()
def t_i(): return I(3).dbl(), I(3) + 1, I(3) == 3, isinstance(I(3), int)
def t_m(): return M(a=1)["a"], M()["z"], M().get("z")
def t_w():
    w = W()
    w["a"] = 2
    return dict(w)
def t_e():
    try:
        raise E2(1, 2)
    except E as e:
        return str(e), e.a, e.args, repr(e)
def t_desc():
    h = HasDesc()
    a = h.x
    h.x = 3
    return a, h.x, h.__dict__
def t_iter(): return list(It()), [x * 2 for x in It()], next(It()), 2 in It(), sum(It()), max(It()), dict(enumerate(It())), [*It()], tuple(It())
def t_ctx():
    log = []
    with Ctx(log) as c, Ctx(log):
        log.append("body")
    try:
        with Ctx(log):
            raise KeyError("x")
    except KeyError:
        log.append("caught")
    with Ctx(log, True):
        raise ValueError
    def f():
        with Ctx(log):
            return 3
    return log, f(), log[-1]
def t_priv(): return Priv().get(), Priv().__dict__
def t_cmp2(): return Cmp(1) == Cmp(1), Cmp(2) > Cmp(1), Cmp(1) < Cmp(2), Cmp(1) != Cmp(1)
def t_num(): return 3 + Num(4), [1, 2, 3][Num(1)], int(Num(3)), float(Num(2)), -Num(2), f"{Num(1):abc}", round(Num(1)), abs(Num(1))
def t_sum(): return sum([[1], [2]], []), sum((0.5, 1)), sum([Num(1), Num(2)])
def t_supercall():
    class A:
        def __init__(self, **k): self.k = k
        @classmethod
        def mk(cls): return cls(x=1)
        @staticmethod
        def st(): return "st"
    class B(A):
        def __init__(self, **k):
            super().__init__(**k)
            super(B, self).__init__(**k, y=2)
        @classmethod
        def mk(cls): return super().mk()
        def st2(self): return super().st()
    return B.mk().k, B().st2()
def t_clsattr():
    class A:
        n = 0
        items = []
        def inc(self): type(self).n += 1
    a, b = A(), A()
    a.inc()
    b.inc()
    a.items.append(1)
    a.n = 50
    return A.n, b.n, a.n, b.items, hasattr(a, "q"), getattr(A, "n"), A.__dict__["n"]
def t_prop2():
    class A:
        def __init__(self): self._x = 1
        x = property(lambda s: s._x, lambda s, v: setattr(s, "_x", v + 1))
        @property
        def y(self): return self.x
        @y.setter
        def y(self, v): self.x = v
        @y.deleter
        def y(self): self._x = None
    a = A()
    a.x = 5
    b = a.y
    a.y = 7
    c = a.x
    del a.y
    return b, c, a._x
def t_callable(): return callable(t_d), callable(D), callable(3), callable(Ctx([]))
def t_issub(): return issubclass(E2, (int, E)), isinstance(True, int), isinstance(3, (str, float)), isinstance(None, type(None)), issubclass(bool, int), type(3) is int, type("a") == str, type([]) in (list, tuple), isinstance(D(), (list, dict)), isinstance(3, int | str)
def t_dyn():
    C = type("C", (E,), {"z": 5, "f": lambda self: self.z})
    return C.__name__, C.z, C(1, 2).f(), issubclass(C, E)
def t_objrepr(): return repr(object())[:7], str(Ctx)[:6], repr(len), repr(t_d)[:14]
def t_iterunpack():
    a, b, c = It()
    x, *y = {"k": 1, "l": 2}
    for i, (j, k) in enumerate([(1, 2)]): pass
    return a, b, c, x, y, i, j, k
def t_exc_ctx():
    try:
        try:
            1 / 0
        except ZeroDivisionError:
            raise ValueError("v")
    except ValueError as e:
        return type(e.__context__).__name__, e.__cause__
def t_reraise():
    log = []
    try:
        try:
            raise KeyError("a")
        except KeyError:
            log.append(1)
            raise
        finally:
            log.append(2)
    except KeyError as e:
        log.append(e.args[0])
    return log
def t_finret():
    def f():
        for i in range(3):
            try:
                if i == 1: continue
                if i == 2: return "x"
            finally:
                log.append(i)
    log = []
    return f(), log
def t_excgroup():
    try:
        raise OSError(2, "nope")
    except (IOError, ValueError) as e:
        return e.errno, str(e), e.strerror
def t_sysexit():
    raise SystemExit(3)
def t_kbd():
    try:
        raise KeyboardInterrupt
    except Exception:
        return "no"
    except BaseException as e:
        return type(e).__name__
def t_stop():
    def g():
        yield 1
    it = g()
    next(it)
    try:
        next(it)
    except StopIteration as e:
        return e.value
def t_recur():
    def f(n): return 1 if n < 2 else n * f(n - 1)
    return f(10)
def t_lambda(): return (lambda x, *a, y=2, **k: (x, a, y, k))(1, 2, 3, y=4, z=5)
def t_cond(): return [("a" if x else "b") for x in (0, 1, "", "x", None, [], [0])], 1 and 0 or 2, None or "d", not 0, 0 if [] else 1
def t_fstr():
    x, w = 3.14159, 8
    return f"{x:.{2}f}|{x:>{w}.1f}|{'a'!r}|{{}}|{x=:.1f}|{[1, 2][0]}|{'q':<3}|{1_000:,}"
def t_tern_chain():
    def f(x): return "neg" if x < 0 else "zero" if x == 0 else "pos"
    return f(-1), f(0), f(1)
def t_dictcomp(): return {k: [v for v in vs if v] for k, vs in {"a": [0, 1], "b": []}.items() if k}, {x % 2 for x in range(5)}, [(x, y) for x in range(3) for y in range(x) if x != y]
def t_sort(): return sorted(["b", "A", "c"], key=str.lower), sorted({"b": 1, "a": 2}.items()), sorted([(1, "b"), (1, "a")], reverse=True), sorted("hello"), min(["bb", "a"], key=len), max({"a": 1, "b": 3}, key={"a": 1, "b": 3}.get), sorted([3, 1, 2], key=lambda x: (x % 2, x))
def t_strings_cmp(): return "a" in "abc", "abc" == "ab" + "c", "a" * 0, "".join(reversed("abc")), list("ab"), tuple("ab"), set("aa"), "abc"[1], "a b c".split(" ", 1), "A".lower() in ("a",), "x".join("abc"), "abc".startswith("b", 1), "é".encode("utf-8").decode("utf-8")


class LS(list):
    def append(self, x):
        super().append(x + 1)

    def extend(self, xs):
        for x in xs:
            self.append(x)

    def total(self):
        return sum(self)


def t_ls1():
    l = LS()
    l.append(1)
    l.extend([2, 3])
    return l.total(), l == [2, 3, 4], len(l), bool(l), [x for x in l], l[0], l[-1:]


class DS(dict):
    def get(self, k, d=None):
        r = super().get(k, d)
        return ("got", r)

    def __getitem__(self, k):
        return super().__getitem__(k) * 2


def t_ds1():
    d = DS(a=1)
    return d.get("a"), d["a"], d.get("z"), "a" in d, len(d)
