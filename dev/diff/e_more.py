import abc, ast, base64, bisect, calendar, collections, contextlib, copy, dataclasses, datetime, decimal, enum, fractions, functools, html, inspect, io, itertools, json, math, operator, re, string, sys, textwrap, types, typing, unicodedata, urllib.parse, uuid, weakref
from collections import ChainMap, Counter, OrderedDict, defaultdict, deque, namedtuple
from dataclasses import dataclass, field
from typing import NamedTuple, Optional, Union


def t_match_seq():
    out = []
    for v in ([1, 2, 3], (1,), {"a": 1, "b": 2}, "x", None, 3, 3.5, [], [[1], 2]):
        match v:
            case [a, *rest]:
                out.append(("seq", a, rest))
            case {"a": x, **kw}:
                out.append(("map", x, kw))
            case None:
                out.append("none")
            case str() as s:
                out.append("str" + s)
            case int(n) if n > 2:
                out.append(n)
            case float() | int():
                out.append("num")
            case _:
                out.append("other")
    return out


def t_match_class():
    @dataclass
    class P:
        x: int
        y: int = 0

    r = []
    for p in (P(1), P(0, 2), P(3, 3)):
        match p:
            case P(x=0, y=y):
                r.append(y)
            case P(a, b) if a == b:
                r.append("eq")
            case P():
                r.append("p")
    return r


def t_partition():
    return ["a/b/c".partition("/"), "abc".partition("/"), "a/b/c".rpartition("/"), "abc".rpartition("/"), "".partition("x")]


def t_removeprefix():
    return ["/api/x".removeprefix("/api"), "x".removeprefix("y"), "x.json".removesuffix(".json"), "abc".removesuffix("")]


def t_reduce():
    return functools.reduce(lambda a, b: a * 10 + b, [1, 2, 3], 0), functools.reduce(operator.add, ["a", "b"])


def t_reduce_empty():
    try:
        functools.reduce(operator.add, [])
    except TypeError as e:
        return str(e)


def t_chain():
    return list(itertools.chain.from_iterable([[1, 2], [3]])), list(itertools.chain("ab", [1])), list(itertools.accumulate([1, 2, 3])), list(itertools.takewhile(lambda x: x < 3, [1, 2, 3, 1])), list(itertools.dropwhile(lambda x: x < 3, [1, 2, 3, 1])), list(itertools.zip_longest([1, 2], [3], fillvalue=0)), list(itertools.islice(itertools.count(5), 3)), list(itertools.product("ab", [1, 2])), list(itertools.starmap(pow, [(2, 3), (3, 2)])), list(itertools.compress("abc", [1, 0, 1])), list(itertools.filterfalse(None, [0, 1, 2])), list(itertools.pairwise([1, 2, 3]))


def t_groupby():
    return [(k, list(g)) for k, g in itertools.groupby("aabbca")]


def t_deque():
    d = deque([1, 2, 3])
    d.appendleft(0)
    d.append(4)
    a = d.popleft(), d.pop()
    d.rotate(1)
    d.extend([7])
    return a, list(d), len(d), d[0], 7 in d


def t_deque_maxlen():
    d = deque(maxlen=2)
    for i in range(4):
        d.append(i)
    return list(d)


def t_counter():
    c = Counter("abca")
    c.update("aa")
    return c["a"], c["z"], c.most_common(1), sorted(c.items()), sum(c.values())


def t_chainmap():
    m = ChainMap({"a": 1}, {"a": 2, "b": 3})
    return m["a"], m["b"], "c" in m, sorted(m), m.get("c", 9)


def t_namedtuple():
    P = namedtuple("P", "x y")
    p = P(1, y=2)
    x, y = p
    return p.x, p._replace(x=5), p._asdict(), x + y, p == (1, 2), P._fields


def t_typed_namedtuple():
    class R(NamedTuple):
        name: str
        n: int = 3

        @property
        def twice(self):
            return self.n * 2

    r = R("a")
    return r, r.twice, r.name, r[1], tuple(r)


def t_enum_more():
    class E(enum.Enum):
        A = enum.auto()
        B = enum.auto()

        @property
        def low(self):
            return self.name.lower()

        @classmethod
        def parse(cls, s):
            return cls[s]

    class I(enum.IntEnum):
        X = 1
        Y = 2

    return E.A.value, E.B.low, E.parse("A") is E.A, [e.name for e in E], I.X < I.Y, max(I).name, I(2).name, E.A in E, len(E), E.__members__["B"].value


def t_enum_bad():
    class E(enum.Enum):
        A = "a"

    r = []
    try:
        E("z")
    except ValueError as e:
        r.append(str(e))
    try:
        E["z"]
    except KeyError as e:
        r.append(str(e))
    return r


def t_ctxmgr():
    log = []

    @contextlib.contextmanager
    def cm(n):
        log.append("in")
        try:
            yield n + 1
        except ValueError as e:
            log.append(str(e))
        finally:
            log.append("out")

    with cm(1) as v:
        log.append(v)
        raise ValueError("x")
    return log


def t_ctx_class():
    log = []

    class C(contextlib.AbstractContextManager):
        def __exit__(self, t, v, tb):
            log.append(t is None)
            return True

    with C() as c:
        raise KeyError(1)
    return log


def t_ctx_decorator():
    log = []

    @contextlib.contextmanager
    def cm():
        log.append("a")
        yield
        log.append("b")

    @cm()
    def f():
        log.append("f")
        return 3

    return f(), log


def t_exitstack():
    log = []
    with contextlib.ExitStack() as s:
        s.callback(log.append, 1)
        s.callback(log.append, 2)
        s.push(lambda *a: log.append(3))
        s.pop_all().close()
    return log


def t_singledispatch():
    @functools.singledispatch
    def f(x):
        return "o"

    @f.register
    def _(x: int):
        return "i"

    @f.register(str)
    def _(x):
        return "s"

    return f(1), f("a"), f(2.0), f(True)


def t_singledispatchmethod():
    class A:
        @functools.singledispatchmethod
        def f(self, x):
            return "o"

        @f.register
        def _(self, x: list):
            return "l"

    return A().f(1), A().f([])


def t_total_ordering():
    @functools.total_ordering
    class A:
        def __init__(self, v):
            self.v = v

        def __eq__(self, o):
            return self.v == o.v

        def __lt__(self, o):
            return self.v < o.v

    return A(1) <= A(1), A(2) > A(1), A(1) >= A(2), max([A(1), A(3)], key=lambda a: a.v).v


def t_cached_property():
    class A:
        n = 0

        @functools.cached_property
        def p(self):
            self.n += 1
            return self.n

    a = A()
    return a.p, a.p


def t_lru():
    calls = []

    @functools.lru_cache(maxsize=None)
    def f(x):
        calls.append(x)
        return x * 2

    return f(1), f(1), f(2), calls


def t_partial():
    f = functools.partial(int, base=2)
    g = functools.partialmethod
    return f("101"), f.func is int


def t_wraps():
    def deco(fn):
        @functools.wraps(fn)
        def inner(*a, **k):
            return fn(*a, **k) + 1
        return inner

    @deco
    def add(a, b=1):
        "doc"
        return a + b

    return add(1), add.__name__, add.__doc__


def t_getters():
    return sorted([(1, "b"), (0, "c")], key=operator.itemgetter(1)), list(map(operator.attrgetter("real"), [1, 2])), operator.methodcaller("upper")("a"), operator.itemgetter(0, 2)("abc")


def t_walrus():
    r = []
    it = iter([1, 2, 0, 5])
    while (x := next(it)):
        r.append(x)
    return r, [y for z in range(4) if (y := z * 2) > 2]


def t_iter_sentinel():
    f = io.StringIO("a\nb\n")
    return list(iter(f.readline, ""))


def t_generator_send():
    def g():
        t = 0
        while True:
            x = yield t
            if x is None:
                return t
            t += x

    c = g()
    next(c)
    c.send(2)
    c.send(3)
    try:
        c.send(None)
    except StopIteration as e:
        return e.value


def t_yield_from():
    def a():
        x = yield 1
        return 7

    def b():
        r = yield from a()
        yield r

    return list(b())


def t_gen_throw():
    def g():
        try:
            yield 1
        except KeyError:
            yield "caught"
        finally:
            pass

    x = g()
    next(x)
    return x.throw(KeyError("a"))


def t_fmt():
    x = 3.14159
    n = 42
    return f"{x:.2f} {n:05d} {n:>6} {n:<6}| {n:^6} {n:x} {n:,} {'a':*^5} {n!r:>4} {x=:.1f}", "{0}-{a}-{1[0]}".format(1, "z", a=2), "%s %d %5.1f %r %%" % ("a", 3, 2.5, "q"), format(10, "b"), "{:>{w}}".format("a", w=3)


def t_str_methods():
    s = "Hello World"
    return s.swapcase(), s.title(), s.casefold(), s.center(15, "-"), s.zfill(13), s.find("o", 5), s.rfind("o"), s.index("W"), s.count("l"), s.isalpha(), s.split(None, 1), "a,b,,c".split(","), "a  b".split(), "x\ny\r\nz".splitlines(), s.translate(str.maketrans("lo", "01")), s.expandtabs(), "abc".islower(), "12".isdigit(), "a1".isalnum(), " ".isspace(), "A".isupper(), "²".isdigit(), "²".isdecimal(), "ab" * 2, "-".join("abc"), s[::-1], s[-3:], "a\tb".encode().hex()


def t_bytes():
    b = b"abc"
    return b[0], b[1:], b.decode(), bytes([65, 66]), b + b"d", b.startswith(b"a"), list(b), bytearray(b"x") + b"y", b.hex(), bytes.fromhex("6162"), b.find(b"c"), b.split(b"b"), base64.b64encode(b), base64.b64decode("YWJj"), base64.urlsafe_b64encode(b"\xff\xfe\xfd").decode()


def t_ints():
    return divmod(-7, 3), -7 // 3, -7 % 3, 7 ** 2, pow(2, 5, 7), int("0x1f", 16), int(" 12 "), int("1_000"), (5).bit_length(), 0b101, 1 << 4, 6 & 3, 6 | 1, 6 ^ 2, ~5, round(2.5), round(3.14159, 2), abs(-3), int(-3.7), hex(255), oct(8), bin(5), float("1e3"), float("inf") > 1


def t_slices():
    l = list(range(10))
    l[2:5] = [0]
    del l[::3]
    l[-1:] = [8, 9]
    return l, l[::-2], l[slice(1, 3)]


def t_dicts():
    d = {"a": 1, **{"b": 2}}
    d |= {"c": 3}
    e = d | {"a": 9}
    p = d.pop("a")
    q = d.pop("zz", None)
    s = d.setdefault("n", [])
    s.append(1)
    i = d.popitem()
    return d, e, p, q, i, dict(zip("ab", [1, 2])), dict.fromkeys("ab", 0), {v: k for k, v in e.items()}, list(reversed(e)), d.keys() & e.keys(), e.keys() - {"a"}, d == dict(d)


def t_sets():
    a, b = {1, 2, 3}, frozenset([3, 4])
    return a & b, a | b, a - b, a ^ b, a >= {1}, a.isdisjoint({9}), {x % 2 for x in a}, sorted(a.symmetric_difference(b)), b.issubset({3, 4, 5})


def t_star():
    def f(a, /, b, *c, d=1, **e):
        return a, b, c, d, e

    a, *b, c = range(5)
    (x, y), z = (1, 2), 3
    return f(1, 2, 3, d=4, q=5), f(*[1, 2], **{"d": 3}), a, b, c, x, y, z, [*range(2), *"a"], {**{"a": 1}}, (*[1], 2)


def t_badcall():
    def f(a, b=1, *, c):
        pass

    r = []
    for args, kw in (((), {}), ((1, 2, 3), {"c": 1}), ((1,), {}), ((1,), {"c": 1, "z": 2}), ((1,), {"a": 2, "c": 1})):
        try:
            f(*args, **kw)
        except TypeError as e:
            r.append(str(e).split("f()")[-1])
    return r


def t_nonlocal():
    n = 0

    def inc():
        nonlocal n
        n += 1
        return n

    return inc(), inc(), n


def t_try():
    r = []

    def f(k):
        try:
            if k == 0:
                raise ValueError("v")
            if k == 1:
                return "ret"
            if k == 2:
                {}["x"]
        except (ValueError, KeyError) as e:
            r.append(repr(e))
        else:
            r.append("else")
        finally:
            r.append("fin")
        return "end"

    return [f(0), f(1), f(2), f(3)], r


def t_raise_from():
    try:
        try:
            1 / 0
        except ZeroDivisionError as e:
            raise ValueError("x") from e
    except ValueError as e:
        return repr(e.__cause__), type(e).__name__, e.args


def t_exc_group():
    r = []
    try:
        raise ExceptionGroup("g", [ValueError(1), KeyError(2)])
    except* ValueError as g:
        r.append([repr(x) for x in g.exceptions])
    except* KeyError as g:
        r.append([repr(x) for x in g.exceptions])
    return r


def t_loops():
    r = []
    for i in range(5):
        if i == 1:
            continue
        if i == 3:
            break
        r.append(i)
    else:
        r.append("no")
    for i in []:
        pass
    else:
        r.append("else")
    while True:
        break
    else:
        r.append("bad")
    return r


def t_protocol():
    class Seq:
        def __init__(self, *a):
            self.a = a

        def __len__(self):
            return len(self.a)

        def __getitem__(self, i):
            return self.a[i]

        def __contains__(self, x):
            return x == 42 or x in self.a

        def __bool__(self):
            return bool(self.a)

        def __call__(self, x):
            return x + 1

        def __add__(self, o):
            return Seq(*self.a, *o.a)

        def __iadd__(self, o):
            self.a += (o,)
            return self

        def __eq__(self, o):
            return isinstance(o, Seq) and self.a == o.a

        def __hash__(self):
            return hash(self.a)

    s = Seq(1, 2)
    t = s + Seq(3)
    s += 9
    return list(s), len(t), 42 in s, bool(Seq()), s(1), t == Seq(1, 2, 3), {Seq(1): 2}[Seq(1)], list(reversed(t)), s[-1]


def t_descr():
    class D:
        def __set_name__(self, o, n):
            self.n = "_" + n

        def __get__(self, i, o=None):
            return self if i is None else getattr(i, self.n, 0)

        def __set__(self, i, v):
            if v < 0:
                raise ValueError("neg")
            setattr(i, self.n, v)

    class A:
        x = D()

    a = A()
    a.x = 3
    try:
        a.x = -1
    except ValueError as e:
        return a.x, str(e)


def t_meta():
    class M(type):
        reg = []

        def __new__(m, n, b, d):
            c = super().__new__(m, n, b, d)
            m.reg.append(n)
            return c

        def __call__(cls, *a):
            o = super().__call__(*a)
            o.tag = 1
            return o

    class A(metaclass=M):
        pass

    class B(A):
        pass

    return M.reg, B().tag


def t_init_subclass():
    reg = {}

    class Base:
        def __init_subclass__(cls, key=None, **kw):
            super().__init_subclass__(**kw)
            reg[key] = cls

        def run(self):
            return "base"

    class X(Base, key="x"):
        def run(self):
            return "x" + super().run()

    return reg["x"]().run(), list(reg)


def t_getattr():
    class A:
        def __init__(self):
            self.d = {"k": 1}

        def __getattr__(self, n):
            try:
                return self.d[n]
            except KeyError:
                raise AttributeError(n) from None

    a = A()
    return a.k, getattr(a, "z", 5), hasattr(a, "q"), vars(a), "d" in dir(a)


def t_slots():
    class A:
        __slots__ = ("x",)

        def __init__(self, x):
            self.x = x

    a = A(1)
    try:
        a.y = 2
    except AttributeError:
        return a.x


def t_dc():
    @dataclass(frozen=True, order=True)
    class P:
        a: int
        b: list = field(default_factory=list, compare=False)

        def __post_init__(self):
            object.__setattr__(self, "c", self.a + 1)

    p = P(1)
    r = [p, p.c, P(1) < P(2), dataclasses.replace(p, a=5).a, dataclasses.asdict(p), dataclasses.astuple(p), [f.name for f in dataclasses.fields(p)], dataclasses.is_dataclass(p)]
    try:
        p.a = 2
    except dataclasses.FrozenInstanceError as e:
        r.append("frozen")
    return [repr(x) for x in r], hash(P(1)) == hash(P(1))


def t_dc_inherit():
    @dataclass
    class A:
        x: int
        y: int = 2

    @dataclass
    class B(A):
        z: int = field(default=3, repr=False)
        k: int = field(default=4, init=False)

    @dataclass(kw_only=True)
    class C:
        a: int
        b: int = 1

    return repr(B(1)), B(1) == B(1), B(1) == A(1), repr(C(a=3)), B(1, 5, 6).z


def t_abc():
    class A(abc.ABC):
        @abc.abstractmethod
        def f(self): ...

        @staticmethod
        def s():
            return 1

        @classmethod
        def c(cls):
            return cls.__name__

        @property
        def p(self):
            return self.f()

    class B(A):
        def f(self):
            return 2

    try:
        A()
    except TypeError:
        return B().p, B.s(), B.c(), isinstance(B(), A), issubclass(B, A)


def t_mro():
    class A:
        def f(self):
            return ["A"]

    class B(A):
        def f(self):
            return ["B"] + super().f()

    class C(A):
        def f(self):
            return ["C"] + super().f()

    class D(B, C):
        pass

    return D().f(), [c.__name__ for c in D.__mro__], D.__bases__[0].__name__


def t_copy():
    a = [[1], {"a": [2]}]
    b = copy.copy(a)
    c = copy.deepcopy(a)
    a[0].append(9)
    return b, c


def t_sorting():
    l = [(2, "b"), (1, "z"), (2, "a")]
    l.sort(key=lambda t: (-t[0], t[1]))
    return l, sorted("bca", reverse=True), min(l), max([1, 3], default=0), max([], default=0), min("b", "a"), sorted({"b": 1, "a": 2}.items(), key=lambda kv: kv[1])


def t_misc_builtins():
    return list(zip([1, 2], "ab")), list(enumerate("ab", 1)), list(map(lambda a, b: a + b, [1], [2])), list(filter(None, [0, 1])), sum([[1], [2]], []), any([]), all([]), callable(len), chr(97), ord("a"), repr("a'b"), ascii("ä"), isinstance(1, (str, int)), list(range(5, 0, -2)), next(iter([]), "d"), id(1) == id(1), type(1).__name__, bool("0"), tuple(reversed([1, 2])), hash("a") == hash("a"), len({1: 2})


def t_zip_strict():
    try:
        list(zip([1], [1, 2], strict=True))
    except ValueError as e:
        return str(e)


def t_ns():
    n = types.SimpleNamespace(a=1)
    n.b = 2
    m = types.MappingProxyType({"a": 1})
    try:
        m["b"] = 2
    except TypeError as e:
        return n.a + n.b, m["a"], repr(n)


def t_type3():
    T = type("T", (object,), {"x": 1, "f": lambda self: self.x + 1})
    return T().f(), T.__name__


def t_url():
    u = urllib.parse.urlparse("http://h:1/p/a?q=1&r=%20#f")
    return u.scheme, u.netloc, u.path, u.query, urllib.parse.parse_qs(u.query), urllib.parse.quote("a b/ä"), urllib.parse.quote("a/b", safe=""), urllib.parse.unquote("%41+"), urllib.parse.quote_plus("a b"), urllib.parse.urlencode([("a", 1), ("b", "x y")]), urllib.parse.urljoin("http://h/a/b", "c"), urllib.parse.urlencode({"a": [1, 2]}, doseq=True)


def t_html():
    return html.escape("<a b='c'>&\""), html.unescape("&lt;&amp;"), html.escape("'", quote=False)


def t_json():
    return json.dumps({"a": [1, None, True, "ü\n"], "b": {}}), json.dumps([1, 2], separators=(",", ":")), json.dumps({"b": 1, "a": 2}, sort_keys=True), json.loads('{"a": [1, 2.5, "x", null]}'), json.dumps("ü", ensure_ascii=False), json.dumps({"a": [1]}, indent=2)


def t_json_err():
    r = []
    for s in ("", "{", '{"a" 1}', "[1,]"):
        try:
            json.loads(s)
        except json.JSONDecodeError as e:
            r.append(type(e).__name__)
    return r


def t_re():
    m = re.match(r"(?P<y>\d+)-(\d+)", "2020-12x")
    return m.group("y"), m.groups(), m.groupdict(), m.end(), m[2], re.findall(r"\d", "a1b2"), re.sub(r"(\d)", r"<\1>", "a1"), re.split(r"[,;]", "a,b;c"), bool(re.fullmatch("a+", "aab")), re.search("b", "abc").start(), re.compile("x", re.I).match("X") is not None, re.escape("a.b"), [x.group() for x in re.finditer("a.", "abac")], re.sub("a", lambda m: m.group().upper(), "banana", count=2), m.span(1)


def t_dt():
    d = datetime.date(2020, 2, 29)
    return calendar.isleap(2020), calendar.monthrange(2021, 2)[1], d.isoformat(), datetime.timedelta(minutes=90).total_seconds()


def t_dec():
    try:
        datetime.date(2021, 2, 29)
    except ValueError as e:
        return str(e), decimal.Decimal("1.50") + 1 == decimal.Decimal("2.5")


def t_text():
    return textwrap.dedent("  a\n    b\n"), textwrap.indent("a\nb", "> "), string.ascii_lowercase[:3], string.Template("$a b").substitute(a=1), string.capwords("a b")


def t_io():
    b = io.StringIO()
    print("a", 1, sep="-", end="!", file=b)
    b.write("z")
    with io.BytesIO(b"ab\ncd") as f:
        x = f.readline()
        y = f.read()
    return b.getvalue(), x, y


def t_redirect():
    b = io.StringIO()
    with contextlib.redirect_stdout(b):
        print("hi")
    return b.getvalue()


def t_bisect():
    l = [1, 3, 5]
    bisect.insort(l, 4)
    return l, bisect.bisect_left(l, 3), bisect.bisect(l, 3)


def t_inspect():
    def f(a, b=2, *c, **d):
        pass

    s = inspect.signature(f)
    return list(s.parameters), s.parameters["b"].default, inspect.isclass(int), inspect.isfunction(f), s.parameters["a"].default is inspect.Parameter.empty


def t_typing():
    @dataclass
    class A:
        x: Optional[int]
        y: typing.List[str]

    h = typing.get_type_hints(A)
    return typing.get_origin(h["y"]) is list, typing.get_args(h["x"]), typing.get_origin(h["x"]) is Union, typing.cast(int, "a"), typing.get_args(typing.Dict[str, int])


def t_weak():
    class A:
        pass

    a = A()
    d = weakref.WeakKeyDictionary()
    d[a] = 1
    return weakref.ref(a)() is a, d[a], len(d)


def t_uni():
    return unicodedata.normalize("NFC", "e\u0301") == "é", unicodedata.category("a"), "ß".upper(), "İ".lower() == "i̇"


def t_math():
    return math.floor(2.7), math.ceil(2.1), math.isinf(float("inf")), math.isnan(float("nan")), math.gcd(12, 8), math.trunc(-2.5), math.copysign(1, -0.0), math.prod([2, 3])


def t_frac():
    return fractions.Fraction(1, 2) + fractions.Fraction(1, 3) == fractions.Fraction(5, 6)


def t_literal_eval():
    return ast.literal_eval("[1, 'a', None]")


def t_global_decl():
    global _G
    _G = 5
    return _G


def t_lambda_default():
    return [f() for f in [lambda i=i: i for i in range(3)]], [f() for f in [lambda: i for i in range(3)]]


def t_cond_chain():
    return [1 < x < 4 for x in range(6)], 1 if not [] else 2, None or "d", 0 and 1, not None, "a" is not None


def t_del():
    d = {"a": 1, "b": 2}
    del d["a"]
    l = [1, 2, 3]
    del l[0]
    x = 1
    del x
    try:
        x
    except UnboundLocalError as e:
        return d, l, "unbound"


def t_aug():
    l = [1]
    m = l
    l += [2]
    d = defaultdict(list)
    d["a"].append(1)
    d["b"] += [2]
    s = {1}
    s |= {2}
    return m, dict(d), s


def t_strict_rec():
    def f(n):
        return 0 if n == 0 else 1 + f(n - 1)
    return f(50)


def t_inf_rec():
    def f():
        return f()
    try:
        f()
    except RecursionError:
        return "rec"


def t_assert():
    try:
        assert 1 == 2, "msg"
    except AssertionError as e:
        return str(e)


def t_od():
    d = OrderedDict(a=1, b=2)
    d.move_to_end("a")
    return list(d), d.popitem(last=False)


def t_uuid():
    return str(uuid.UUID("12345678123456781234567812345678"))


def t_userdict():
    class D(collections.UserDict):
        def __getitem__(self, k):
            return super().__getitem__(k.lower())

    d = D()
    d["a"] = 1
    return d["A"], len(d), list(d)


def t_mapping_abc():
    class M(collections.abc.Mapping):
        def __init__(self, d):
            self._d = d

        def __getitem__(self, k):
            return self._d[k]

        def __iter__(self):
            return iter(self._d)

        def __len__(self):
            return len(self._d)

    m = M({"a": 1})
    return m.get("a"), m.get("z", 0), "a" in m, list(m.items()), list(m.keys()), isinstance(m, collections.abc.Mapping), m == {"a": 1}


def t_list_sub():
    class L(list):
        def first(self):
            return self[0]

        def append(self, x):
            super().append(x * 2)

    l = L([1])
    l.append(2)
    return l.first(), l, len(l), isinstance(l, list), l + [1]


def t_dict_sub():
    class D(dict):
        def __missing__(self, k):
            self[k] = k * 2
            return self[k]

    d = D(a=1)
    return d["b"], d, d.get("c")


def t_str_sub():
    class S(str):
        def shout(self):
            return self.upper() + "!"

    return S("a").shout(), S("a") == "a", S("a") + "b", {S("k"): 1}["k"]


def t_int_sub():
    class N(int):
        pass

    return N(3) + 1, isinstance(N(3), int), N("4") * 2


def t_exc_sub():
    class E(Exception):
        def __init__(self, a, b):
            super().__init__(f"{a}:{b}")
            self.b = b

    try:
        raise E(1, 2)
    except E as e:
        return str(e), e.b, e.args, isinstance(e, Exception)


def t_complex_comp():
    m = [[1, 2], [3, 4]]
    return [x for r in m for x in r if x % 2], {k: [v for v in r] for k, r in enumerate(m)}, [[r[i] for r in m] for i in range(2)], list(zip(*m)), sum(x for r in m for x in r), {(a, b) for a in "ab" for b in (1,)}


def t_proxy():
    m = types.MappingProxyType({"a": 1, "b": 2})
    return dict(m), {**m}, list(m), sorted(m.items()), "a" in m, m.get("z"), len(m), (lambda **k: k)(**m), isinstance(m, dict)


def t_proxy_set():
    m = types.MappingProxyType({"a": 1})
    try:
        m["b"] = 1
    except TypeError as e:
        return str(e)


def t_format_err():
    r = []
    for f in ("{}", "{0} {}", "{a}", "{:d}", "{"):
        try:
            r.append(f.format())
        except (IndexError, KeyError, ValueError) as e:
            r.append(type(e).__name__)
    return r


def t_frozen_key():
    @dataclass(frozen=True)
    class P:
        a: int
        b: str = "x"

    d = {P(1): "one"}
    return d[P(1)], P(2) in d, P(1) in {P(1), P(2)}, len({P(1), P(1)})


def t_unhashable_dc():
    @dataclass
    class P:
        a: int

    try:
        {P(1): 1}
    except TypeError as e:
        return str(e)


def t_timedelta():
    a = datetime.timedelta(hours=13, minutes=30)
    return a > datetime.timedelta(hours=13), a <= datetime.timedelta(hours=14), a.total_seconds() / 60, abs(-a) == a


def t_dec2():
    D = decimal.Decimal
    return D("1.5") > 1, D("1E+3") == 1000, D("-0").is_signed(), D("1.50").is_finite(), int(D("12.7")), D(2) * 3 == 6, D("1") + 1 == 2


class Fmt(str, enum.Enum):
    xml = "xml"
    json = "json"

    def __str__(self):
        return self.value


class Lv(enum.IntEnum):
    LOW = 0
    HIGH = 5


class Se(enum.StrEnum):
    A = enum.auto()
    B = "bee"


class Fl(enum.Flag):
    R = 1
    W = 2


def t_strenum():
    return Fmt("xml") is Fmt.xml, Fmt.xml == "xml", str(Fmt.json), f"{Fmt.json}", [f.value for f in Fmt], Fmt.xml.upper(), "x" + Fmt.xml, {"xml": 1}[Fmt.xml], isinstance(Fmt.xml, str), json.dumps({"a": Fmt.xml}), repr(Fmt.xml), Fmt.xml in ("xml",)


def t_intenum():
    return Lv.LOW < Lv.HIGH, max(Lv.LOW, Lv.HIGH).name, Lv.HIGH + 1, Lv(5) is Lv.HIGH, f"{Lv.HIGH}", str(Lv.HIGH), [1, 2, 3, 4, 5, 6][Lv.HIGH], Lv.HIGH == 5, sorted([Lv.HIGH, Lv.LOW])[0].name, int(Lv.HIGH), json.dumps(Lv.HIGH), bool(Lv.LOW)


def t_strenum2():
    return Se.A.value, str(Se.B), Se("bee") is Se.B, Se.A + "x"


def t_flag():
    return (Fl.R | Fl.W).value, Fl.R in (Fl.R | Fl.W), bool(Fl.R & Fl.W)


def t_enum_val():
    class L(enum.Enum):
        A = (0, "a")
        B = (1, "b")

        def __init__(self, n, s):
            self.n = n
            self.s = s

        def __lt__(self, o):
            return self.n < o.n

    return L.B.s, L.A < L.B, max(L.A, L.B, key=lambda x: x.n).name, L((0, "a")) is L.A, sorted([L.B, L.A])[0].s


def t_enum_cls():
    class L(enum.Enum):
        A = 0
        B = 1

        @classmethod
        def worst(cls, xs):
            return max(xs, key=lambda x: x.value, default=cls.A)

        @staticmethod
        def z():
            return 3

        def __le__(self, o):
            return self.value <= o.value

    return L.worst([L.A, L.B]).name, L.worst([]).name, L.z(), L.A <= L.B, L.A.__class__ is L, list(L)[1].name, L.B != L.A, {L.A: 1}[L.A], hash(L.A) == hash(L.A), L.A.name.title()


def t_dunder_bound():
    l = [3, 1]
    d = {"a": 1}
    list(map(l.__setitem__, [0], [9]))
    return (1, 2).__contains__(1), list(map({"a", "b"}.__contains__, "ac")), d.__getitem__("a"), l.__len__(), "abc".__contains__("b"), sorted("ba", key={"a": 2, "b": 1}.__getitem__), l, list(filter(frozenset("a").__contains__, "ab"))
