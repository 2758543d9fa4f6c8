import collections, contextlib, copy, enum, functools, io, itertools, json, operator, os, re, string, textwrap, html, base64
from abc import ABC, abstractmethod
from collections import OrderedDict, defaultdict, deque, namedtuple, Counter
from dataclasses import dataclass, field, fields, asdict, replace, is_dataclass
from enum import Enum, IntEnum, Flag, auto
from typing import *
from collections import Counter, OrderedDict


class A:
    k = 1
    def __init__(self, x=0): self.x = x
    def m(self): return "A.m", self.x
    @property
    def p(self): return self.x * 2
    @p.setter
    def p(self, v): self.x = v
    @classmethod
    def c(cls, x): return cls(x)
    @staticmethod
    def s(x): return x + 1
    def __repr__(self): return f"A({self.x})"
    def __eq__(self, o): return isinstance(o, A) and self.x == o.x
    def __hash__(self): return hash(self.x)
    def __lt__(self, o): return self.x < o.x
    def __len__(self): return self.x
    def __iter__(self): return iter(range(self.x))
    def __contains__(self, y): return y == self.x
    def __getitem__(self, i): return i * 2
    def __call__(self, *a): return a
    def __bool__(self): return self.x != 0
    def __add__(self, o): return A(self.x + o.x)
    def __iadd__(self, o):
        self.x += o
        return self
class Bb(A):
    def m(self): return ("B",) + super().m()
    def __str__(self): return "B!"
class Cc(Bb):
    k = 2
    def __init__(self, x, y):
        super().__init__(x)
        self.y = y
def t_cls1():
    a, b = A(2), Bb(3)
    a.p = 5
    return a.m(), b.m(), a.p, A.c(4).x, Bb.c(1).m(), A.s(1), a.s(2), repr(a), str(b), a == A(5), a != A(5), a == 3, a < b, len(a), list(b), 3 in b, a[4], a(1, 2), bool(A(0)), (a + b).x, sorted([A(3), A(1)]), Cc(1, 2).m(), Cc.k, Cc(1, 2).k, isinstance(Cc(1, 2), A), issubclass(Cc, A), Cc.__name__, Cc.__mro__[1].__name__, type(b).__name__, {A(1): "x"}[A(1)]
def t_cls2():
    a = A(1)
    a += 5
    m = a.m
    f = A.m
    return a.x, m(), f(a), A.__subclasses__()[0].__name__, Cc.__bases__[0].__name__
def t_propset():
    class P:
        @property
        def q(self): return 1
    P().q = 2
def t_getattr_():
    class D:
        def __getattr__(self, n):
            if n.startswith("x"): return n
            raise AttributeError(n)
    return D().xy, getattr(D(), "z", None)
def t_mixin():
    class M:
        def go(self): return "M" + super().go()
    class R:
        def go(self): return "R"
    class Z(M, R): pass
    return Z().go(), [c.__name__ for c in Z.__mro__]
def t_abc():
    class I(ABC):
        @abstractmethod
        def f(self): ...
    class J(I):
        def f(self): return 1
    try:
        I()
    except TypeError:
        return "abstract", J().f()
def t_slots():
    class S:
        __slots__ = ("a",)
        def __init__(self): self.a = 1
    s = S()
    return s.a
def t_initsub():
    reg = []
    class Base:
        def __init_subclass__(cls, **k): reg.append(cls.__name__)
    class X1(Base): pass
    class X2(X1): pass
    return reg
def t_clsdeco():
    reg = {}
    def deco(name):
        def w(c):
            reg[name] = c
            return c
        return w
    @deco("q")
    class Q: pass
    return reg["q"] is Q
def t_new():
    class N:
        def __new__(cls, x):
            o = super().__new__(cls)
            o.z = x
            return o
        def __init__(self, x): self.w = x
    return N(3).z, N(3).w
def t_nested():
    class O:
        class I:
            v = 1
        def f(self): return self.I.v
    return O().f(), O.I.__qualname__.endswith("O.I")
def t_strcls(): return str(A), str(int), repr(A.c)[:13], A.__module__, str(type(None))
@dataclass
class P:
    a: int
    b: str = "x"
    c: List[int] = field(default_factory=list)
    def tot(self): return self.a + len(self.c)
@dataclass
class Q(P):
    d: Optional[int] = None
    def __post_init__(self): self.e = self.a * 2
@dataclass(frozen=True)
class F:
    a: int
    b: int = 0
@dataclass(order=True)
class O1:
    a: int
    b: str = field(default="", compare=False)
def t_dc1():
    p, q = P(1), Q(2, "y", [3], d=4)
    p.c.append(9)
    return repr(p), repr(q), p == P(1, "x", [9]), p != P(2), P(1).c, q.tot(), q.e, [f.name for f in fields(Q)], asdict(q), replace(p, a=7), is_dataclass(P), is_dataclass(p), F(1) == F(1), hash(F(1)) == hash(F(1)), O1(1) < O1(2), O1(1, "a") == O1(1, "b"), {F(1): 2}[F(1)]
def t_dcerr(): return P()
def t_dcerr2():
    f = F(1)
    f.a = 2
def t_dcerr3(): return P(1, z=2)
def t_dcfields(): return [(f.name, f.type, f.default if f.name == "b" else None) for f in fields(P)][1][2], fields(P)[0].metadata.get("x"), P.__dataclass_fields__["a"].name
def t_dcmeta():
    @dataclass
    class M:
        a: int = field(metadata={"k": 1})
        b: int = field(default=3, metadata={"k": 2}, repr=False)
        c: int = field(init=False, default=5)
    return [dict(f.metadata) for f in fields(M)], repr(M(1)), M(1).c
class Col(Enum):
    R = "r"
    G = "g"
    ALIAS = "r"
    def hi(self): return self.name + "!"
    @property
    def low(self): return self.value * 2
    @classmethod
    def first(cls): return next(iter(cls))
class Num(IntEnum):
    ONE = 1
    TWO = 2
class Au(Enum):
    X = auto()
    Y = auto()
class StrE(str, Enum):
    A = "a"
def t_enum(): return Col.R.name, Col.R.value, Col("g") is Col.G, Col["G"] is Col.G, [c.name for c in Col], Col.ALIAS is Col.R, Col.R.hi(), Col.R.low, Col.first().name, len(Col), Col.R == Col.R, Col.R != Col.G, Col.R in Col, str(Col.R), repr(Col.R), f"{Col.G}", isinstance(Col.R, Col), Col.__members__["R"].value, sorted(Num)[0].name, Num.ONE < Num.TWO, Num.TWO + 1, Au.Y.value, StrE.A == "a", StrE.A.value, {Col.R: 1}[Col.R], Num(2).name, max(Num).name, list(Col.__members__)
def t_enumerr(): return Col("zz")
def t_enumerr2(): return Col["zz"]
def t_enumcmp(): return Col.R < Col.G
def t_intenumf(): return f"{Num.ONE}", str(Num.TWO), Num.ONE == 1, max(Num.ONE, Num.TWO).value, int(Num.TWO), [Num.ONE, Num.TWO].index(2), repr(Num.ONE)
def t_enuminit():
    class Lv(Enum):
        A = (0, "x")
        B = (1, "y")
        def __init__(self, n, s):
            self.n = n
            self.s = s
    return Lv.B.n, Lv.A.s, Lv((1, "y")).name
def t_enumorder():
    @functools.total_ordering
    class L(Enum):
        A = 1
        B = 2
        def __lt__(self, o): return self.value < o.value
    return L.A < L.B, L.A >= L.B, max(L.A, L.B).name, sorted([L.B, L.A])[0].name
def t_nt():
    T = namedtuple("T", "a b")
    t = T(1, b=2)
    return t.a, t[1], t._asdict(), t == (1, 2), t._replace(a=5), repr(t), [*t], T._fields
class NT(NamedTuple):
    a: int
    b: str = "x"
def t_nt2(): return NT(1).b, tuple(NT(1)), NT(1) == (1, "x")
def t_td():
    class D(TypedDict):
        a: int
    return D(a=1)
class MyErr(Exception):
    pass
class MyErr2(MyErr):
    def __init__(self, m, code=0):
        super().__init__(m)
        self.code = code
class MyErr3(Exception):
    def __init__(self, a, b): self.a = a; self.b = b
    def __str__(self): return f"{self.a}:{self.b}"
def t_exc1():
    out = []
    for f in (lambda: 1 / 0, lambda: {}["k"], lambda: [][0], lambda: int("q"), lambda: None.x, lambda: (_ for _ in ()).throw(MyErr2("m", 3))):
        try:
            f()
        except (ZeroDivisionError, KeyError) as e:
            out.append((type(e).__name__, str(e), e.args))
        except LookupError as e:
            out.append(("lookup", str(e)))
        except MyErr as e:
            out.append((str(e), e.code, isinstance(e, MyErr2), repr(e)))
        except Exception as e:
            out.append((type(e).__name__, str(e)))
    return out
def t_exc2():
    try:
        try:
            raise ValueError("a")
        except ValueError as e:
            raise MyErr("b") from e
    except MyErr as e:
        return str(e.__cause__), repr(e), e.args
def t_exc3():
    try:
        try:
            raise ValueError("a")
        except ValueError:
            raise
    except Exception as e:
        return type(e).__name__
def t_exc4(): return str(MyErr3(1, 2)), str(Exception()), str(Exception("a", "b")), repr(KeyError("x")), str(KeyError("x")), str(Exception(5))
def t_exc5():
    raise MyErr("top")
def t_exc6():
    assert 1 == 2, "msg"
def t_exc7():
    try:
        raise MyErr
    except MyErr as e:
        return e.args
def t_exc8():
    e = None
    try:
        raise ValueError("x")
    except ValueError as e:
        pass
    try:
        return e
    except UnboundLocalError:
        return "unbound"
def t_excnotimpl():
    raise NotImplementedError
def t_excexit():
    try:
        raise SystemExit(3)
    except Exception:
        return "exc"
    except BaseException as e:
        return "base", e.code
def t_ctx1():
    log = []
    class Cm:
        def __enter__(self):
            log.append("in")
            return self
        def __exit__(self, t, v, tb):
            log.append((t.__name__ if t else None, str(v)))
            return t is ValueError
    with Cm() as c, Cm():
        log.append("body")
    with Cm():
        raise ValueError("v")
    try:
        with Cm():
            raise KeyError("k")
    except KeyError:
        log.append("out")
    return log
def t_ctx2():
    log = []
    @contextlib.contextmanager
    def cm(x):
        log.append("a")
        try:
            yield x
        except ValueError as e:
            log.append(str(e))
        finally:
            log.append("z")
    with cm(5) as y:
        log.append(y)
    with cm(1):
        raise ValueError("boom")
    try:
        with cm(1):
            raise KeyError("k")
    except KeyError:
        log.append("k")
    return log
def t_ctx3():
    with contextlib.suppress(KeyError, ValueError):
        {}["x"]
    with contextlib.nullcontext(3) as x:
        pass
    return x
def t_ctx4():
    log = []
    with contextlib.ExitStack() as st:
        st.callback(log.append, 1)
        st.callback(lambda: log.append(2))
    return log
def t_ctxreturn():
    class Cm:
        def __enter__(self): return 1
        def __exit__(self, *a): return True
    def f():
        with Cm():
            return "r"
    def g():
        with Cm():
            raise ValueError
        return "after"
    def h():
        for i in range(3):
            with Cm():
                if i == 1: continue
                if i == 2: break
        return i
    return f(), g(), h()
def t_deco():
    def d(f):
        @functools.wraps(f)
        def w(*a, **k): return ("w", f(*a, **k))
        return w
    @d
    def foo(x): return x
    return foo(1), foo.__name__
def t_deco2():
    def rep(n):
        def d(f):
            def w(): return [f() for _ in range(n)]
            return w
        return d
    @rep(2)
    @rep(3)
    def one(): return 1
    return one()
def t_functools(): return functools.reduce(lambda a, b: a * b, [1, 2, 3], 2), functools.reduce(operator.add, "abc"), functools.partial(int, base=2)("101"), functools.partial(max, 3)(5)
def t_lru():
    n = []
    @functools.lru_cache(maxsize=None)
    def f(x):
        n.append(x)
        return x * 2
    return f(1), f(1), n
def t_cachedprop():
    class K:
        @functools.cached_property
        def v(self):
            return [1]
    k = K()
    return k.v is k.v
def t_itertools(): return list(itertools.chain([1], [2])), list(itertools.chain.from_iterable([[1], [2, 3]])), list(itertools.islice("abcdef", 1, 4)), list(itertools.product("ab", [1, 2])), list(itertools.combinations("abc", 2)), list(itertools.permutations([1, 2])), list(itertools.takewhile(lambda x: x < 3, [1, 2, 3, 1])), list(itertools.dropwhile(lambda x: x < 3, [1, 3, 1])), [(k, list(g)) for k, g in itertools.groupby("aabc")], list(itertools.accumulate([1, 2, 3])), list(itertools.zip_longest([1, 2], [3])), list(itertools.repeat(1, 2)), list(itertools.starmap(pow, [(2, 3)])), next(itertools.count(5)), list(itertools.filterfalse(None, [0, 1])), list(itertools.compress("abc", [1, 0, 1]))
def t_pairwise(): return list(zip("abc", "abc"[1:]))
def t_coll():
    dd = defaultdict(list)
    dd["a"].append(1)
    dq = deque([2, 3])
    dq.append(4)
    dq.appendleft(0)
    c = Counter("aab")
    od = OrderedDict(a=1)
    od["b"] = 2
    return dict(dd), list(dq), dq.popleft(), dq.pop(), c["a"], c["z"], c.most_common(1), list(od.items()), len(dq)
def t_operator(): return operator.itemgetter(1)([1, 2]), operator.attrgetter("real")(5), operator.methodcaller("upper")("a"), operator.or_(1, 2), operator.not_(0), operator.contains([1], 1), operator.itemgetter("a", "b")({"a": 1, "b": 2})
def t_copy():
    a = [1, [2]]
    b, c = copy.copy(a), copy.deepcopy(a)
    a[1].append(3)
    o = A(1)
    p = copy.copy(o)
    p.x = 9
    return b, c, o.x, p.x, type(p).__name__
def t_match():
    def f(x):
        match x:
            case 0: return "zero"
            case "a" | "b": return "ab"
            case [x, y]: return ("two", x, y)
            case {"k": v, **rest}: return ("map", v, rest)
            case int(n) if n > 10: return "big"
            case Col.R: return "red"
            case P(a=z): return ("P", z)
            case (1, *r): return r
            case None: return "none"
            case _: return "other"
    return [f(x) for x in (0, "a", [1, 2], {"k": 1, "z": 2}, 11, Col.R, P(4), (1, 2, 3), None, 3.5)]
def t_lambda(): return (lambda *a, **k: (a, k))(1, b=2), (lambda x, y=2: x + y)(1), sorted([3, -1], key=lambda v: -v)
def t_annot():
    def f(a: int, b: "str" = "x") -> None: pass
    x: int = 3
    y: str
    return f.__annotations__, f.__name__, f.__doc__, x
def t_doc():
    def f():
        "doc"
    return f.__doc__
def t_fstrconv():
    class Z:
        def __format__(self, s): return "F" + s
        def __str__(self): return "S"
        def __repr__(self): return "R"
    z = Z()
    return f"{z}", f"{z!s}", f"{z!r}", f"{z:abc}", "%s %r" % (z, z), "{} {!r}".format(z, z), str([z])
