import base64, binascii, collections, contextlib, copy, datetime, fnmatch, functools, hashlib, html, io, itertools, json, logging, math, operator, os, pathlib, posixpath, re, string, sys, textwrap, time, types, typing, urllib.parse, uuid, warnings
from urllib.parse import urlencode, quote, unquote, urljoin, urlparse, urlsplit, parse_qs, quote_plus, urlunsplit
from pathlib import Path, PurePosixPath
import xml.etree.ElementTree as ET


def t_re1():
    m = re.match(r"(?P<a>\d+)-(\w+)?", "12-ab c")
    return m.group(), m.group(1), m.group("a"), m.groups(), m.groupdict(), m.start(), m.end(), m.span(1), m[2], bool(re.fullmatch(r"\d+", "12a")), re.search("b", "abc").start()
def t_re2(): return re.sub(r"\s+", " ", "a  b\t c"), re.sub(r"(\w)(\d)", r"\2\1", "a1 b2"), re.sub("a", lambda m: m.group().upper(), "banana"), re.split(r"[,;]", "a,b;c"), re.findall(r"\d+", "1 22 3"), [m.group() for m in re.finditer("a.", "abac")], re.escape("a.b"), re.compile("x", re.I).match("X") is not None
def t_re3():
    p = re.compile(r"^([a-z]+):(.*)$")
    return p.pattern, p.match("ab:c").groups(), p.match("1"), p.sub("x", "ab:c"), re.subn("a", "b", "aa")
def t_json1(): return json.loads('{"a": [1, 2.5, null, true, "x"]}'), json.dumps({"a": [1, None, True, "é"]}), json.dumps({"b": 1, "a": 2}, sort_keys=True), json.dumps([1, {"a": 2}], indent=2), json.dumps("é", ensure_ascii=False), json.dumps({"a": 1}, separators=(",", ":"))
def t_json2():
    try:
        json.loads("{")
    except json.JSONDecodeError as e:
        return isinstance(e, ValueError)
def t_json3(): return json.load(io.StringIO('[1]'))
def t_json4(): return json.loads('{"a": 1, "a": 2}', object_pairs_hook=lambda p: p)
def t_html(): return html.escape("<a href='x'>&\"</a>"), html.escape("'\"", quote=False), html.unescape("&lt;&amp;")
def t_textwrap(): return textwrap.dedent("  a\n    b\n"), textwrap.indent("a\nb", "  "), textwrap.shorten("hello world foo", 10), textwrap.fill("aa bb cc", 5)
def t_io1():
    b = io.StringIO()
    b.write("a")
    b.write("b\n")
    print("x", "y", sep="-", end="!", file=b)
    v = b.getvalue()
    b.seek(0)
    return v, b.read(), b.read(), io.StringIO("a\nb").readlines(), [l for l in io.StringIO("a\nb\n")]
def t_io2():
    b = io.BytesIO(b"abc")
    return b.read(1), b.read(), b.tell(), b.seek(0), b.getvalue(), io.BytesIO(b"q").readline()
def t_io3():
    with io.StringIO() as f:
        f.write("x")
        return f.getvalue()
def t_osp(): return os.path.join("a", "b", "c.txt"), os.path.join("a", "/b"), os.path.basename("/a/b.c"), os.path.dirname("/a/b.c"), os.path.splitext("a/b.tar.gz"), os.path.normpath("a/../b/./c//d"), os.path.split("/a/b"), os.path.isabs("/a"), os.sep, posixpath.join("a", "b"), os.path.relpath("/a/b", "/a"), os.path.commonprefix(["abc", "abd"])
def t_path(): return str(Path("a") / "b.txt"), Path("a/b.tar.gz").suffix, Path("a/b.txt").stem, Path("a/b.txt").name, str(Path("a/b.txt").parent), Path("a/b").parts, PurePosixPath("/a/../b").as_posix(), str(Path("a/b.txt").with_suffix(".x")), Path("/a").is_absolute()
def t_b64(): return base64.b64encode(b"ab?>"), base64.urlsafe_b64encode(b"ab?>\xff").decode(), base64.b64decode("YWI="), base64.urlsafe_b64decode("YWI="), base64.b64encode("é".encode()).decode("ascii"), base64.urlsafe_b64encode(b"x").rstrip(b"=")
def t_b64err():
    try:
        base64.b64decode("a")
    except binascii.Error as e:
        return str(e), isinstance(e, ValueError)
def t_b64v():
    out = []
    for x in ("YWI=", "Y!WI=", "YW", ""):
        try:
            out.append(base64.b64decode(x, validate=True))
        except Exception as e:
            out.append(type(e).__name__)
    return out
def t_url1(): return quote("a b/ü?&=+"), quote("a/b", safe=""), unquote("a%20b%2F"), quote_plus("a b"), urlencode({"a": "x y", "b": [1, 2]}), urlencode({"b": [1, 2]}, doseq=True), urlencode([("a", "1"), ("a", "2")])
def t_url2():
    p = urlparse("http://u@h:80/p/q;x?a=1&b=2#f")
    q = urlsplit("https://h/p?x=1#z")
    return p.scheme, p.netloc, p.path, p.query, p.fragment, p.hostname, p.port, parse_qs(p.query), q.path, urlunsplit(q), p.geturl()
def t_url3(): return urljoin("http://a/b/", "c"), urljoin("http://a/b", "c"), urljoin("http://a/b/c", "/d"), urljoin("http://a/b/", "../d")
def t_url4(): return urlencode({"a": "x y/z"}, quote_via=quote), urlencode({"a": True, "n": None, "i": 3})
def t_dt():
    d = datetime.datetime(2020, 1, 2, 3, 4, 5)
    return d.isoformat(), d.strftime("%Y-%m-%d"), (d + datetime.timedelta(days=1)).day, d.year, datetime.date(2020, 2, 29).isoformat(), datetime.datetime.fromisoformat("2020-01-01T00:00:00").year
def t_dt2():
    try:
        datetime.datetime(2021, 2, 29)
    except ValueError as e:
        return str(e)
def t_dt3(): return datetime.datetime.strptime("2020-01-02", "%Y-%m-%d").day
def t_string(): return string.ascii_letters[:3], string.digits, string.hexdigits, string.Template("$a b").substitute(a=1), string.punctuation[:3], string.capwords("a bc")
def t_math(): return math.floor(1.5), math.ceil(1.2), math.inf > 1, math.isnan(float("nan")), math.sqrt(4.0), math.isfinite(1.0), math.gcd(4, 6)
def t_op(): return operator.itemgetter(1)([1, 2]), operator.attrgetter("real")(3), operator.add(1, 2), operator.itemgetter("a", "b")({"a": 1, "b": 2}), operator.methodcaller("upper")("a"), operator.eq(1, 1), operator.contains([1], 1), operator.not_(0)
def t_ctx():
    log = []
    with contextlib.suppress(KeyError):
        {}["a"]
    with contextlib.ExitStack() as st:
        st.callback(log.append, 1)
        st.enter_context(contextlib.nullcontext(2))
    return log
def t_ctx3():
    b = io.StringIO()
    with contextlib.redirect_stdout(b):
        print("hi")
    return b.getvalue()
def t_copy():
    a = {"x": [1]}
    b, c = copy.copy(a), copy.deepcopy(a)
    a["x"].append(2)
    return b, c
def t_fn(): return fnmatch.fnmatch("abc.txt", "*.txt"), fnmatch.fnmatchcase("A", "a"), fnmatch.filter(["a.b", "c"], "*.b"), fnmatch.fnmatch("a", "[!b]")
def t_uuid(): return len(str(uuid.uuid4())), str(uuid.UUID(int=1))
def t_types():
    n = types.SimpleNamespace(a=1)
    n.b = 2
    return n.a + n.b, isinstance(t_types, types.FunctionType), types.MappingProxyType({"a": 1})["a"]
def t_et1():
    e = ET.fromstring("<r xmlns='u'><a k='v'>t</a>x<b/></r>")
    return e.tag, len(e), e[0].tag, e[0].text, e[0].attrib, e[0].get("k"), e[0].get("z"), e[0].tail, [c.tag for c in e], e.find("{u}a").text, e.find("zz"), e.text, [x.tag for x in e.iter()], e.findall("{u}b")[0].text, e.findtext("{u}a")
def t_et2():
    try:
        ET.fromstring("<a>")
    except ET.ParseError as e:
        return isinstance(e, SyntaxError)
def t_et3():
    r = ET.Element("r", {"a": "1"})
    c = ET.SubElement(r, "c")
    c.text = "x<"
    c.set("k", "v")
    return ET.tostring(r), ET.tostring(r, encoding="unicode"), r.attrib
def t_et4():
    t = ET.parse(io.StringIO("<a><b/></a>"))
    return t.getroot().tag, [(ev, el.tag) for ev, el in ET.iterparse(io.BytesIO(b"<a><b/></a>"), events=("start", "end"))]
def t_typing(): return typing.get_origin(typing.List[int]) is list, typing.get_args(typing.Dict[str, int]) == (str, int), typing.get_origin(typing.Optional[int]) is typing.Union, typing.get_args(typing.Optional[int]) == (int, type(None)), typing.cast(int, "x"), typing.get_origin(list[int]) is list, typing.get_args(int | None) == (int, type(None)), typing.get_origin(int) is None, typing.get_args(typing.Callable[[int], str])[1] is str
def t_typing2():
    T = typing.TypeVar("T")
    class G(typing.Generic[T]):
        def f(self, x: T) -> T: return x
    return G[int]().f(3), G().f(4)
def t_warn():
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        warnings.warn("x")
    return 1
def t_log():
    logging.getLogger("x").debug("a %s", 1)
    return logging.INFO
def t_hash(): return hashlib.sha256(b"a").hexdigest()[:4]
def t_print():
    print("a", 1, None)
    sys.stdout.write("x")
    return sys.version_info >= (3, 8), sys.maxsize > 1
def t_lists():
    a = [3, 1, 2]
    b = sorted(a, key=lambda x: -x)
    a.sort(reverse=True)
    a.extend(x for x in (7, 8))
    a.insert(0, 9)
    a.remove(3)
    del a[0]
    a += [4]
    a *= 1
    return a, b, a[::-1], a[1:3], a[-1], [1, 2] + [3], [0] * 3, 3 in a, a.count(2), list(reversed(a)), max(a), min(a, key=lambda x: x % 3), sum(a), any(x > 7 for x in a), all(a), list(zip(a, "abc")), list(enumerate(a, 1))[:2], list(map(str, a)), list(filter(lambda x: x > 2, a)), [x for y in [[1], [2]] for x in y], (lambda *z: z)(*a)
def t_dicts():
    d = {"a": 1, **{"b": 2}}
    d |= {"c": 3}
    e = d | {"a": 9}
    d.setdefault("z", []).append(1)
    k = d.pop("a"), d.pop("nope", None)
    f = dict(zip("ab", [1, 2]))
    f.update(b=5, q=6)
    return d, e, k, f, list(d), d.get("b"), list(d.values()), {v: k for k, v in f.items()}, dict(sorted(f.items(), key=lambda kv: -kv[1])), "b" in d, len(d), dict.fromkeys("ab", 0), d.popitem(), {**f}, next(iter(f)), list(reversed(f)), f == {"a": 1, "b": 5, "q": 6}, d.keys() & f.keys()
def t_sets():
    s = {1, 2}
    s.add(3)
    s.discard(9)
    s |= {4}
    return sorted(s), s - {1}, s & {1, 9}, s ^ {1, 10}, s <= {1, 2, 3, 4, 5}, {1} < s, s.issuperset({1}), s.isdisjoint({8}), len(s), frozenset([1]) in {frozenset([1])}, sorted(s.union([7], [8])), s.difference([1, 2, 3]), s.symmetric_difference([4, 5])
def t_bytes(): return b"ab" + b"c", b"abc"[0], b"abc"[1:], b"a,b".split(b","), b"abc".decode(), bytes([65, 66]), bytes(2), bytearray(b"x") == b"x", b"abc".hex(), b"a" in b"abc", b"abc".startswith(b"ab"), "é".encode("latin-1"), b"ab".replace(b"a", b"z"), b" a ".strip(), b"".join([b"a", b"b"]), int.from_bytes(b"\x01\x00", "big"), (256).to_bytes(2, "big"), b"a" == "a", len(b"abc"), list(b"ab")
def t_str(): return "a,b,,c".split(","), "a b  c".split(), "a-b-c".rsplit("-", 1), "x=1=2".partition("="), "abc".find("z"), "aXbX".count("X"), "abc".index("c"), "ab" * 2, "Hello"[1:-1], "a\nb\r\nc".splitlines(), "abc".replace("b", ""), "  x ".strip(), "xxabxx".strip("x"), "abc".upper(), "a".join(["1", "2"]), "abc".startswith(("z", "a")), "{:>4}|{!r}".format(1, "a"), f"{3:03d} {'x'!r:>5} {1.5:.2f} {'a':*^5}", "abc"[::-1], "tEsT".title(), "a\tb".expandtabs(4), "é".isalpha(), "12".isdigit(), "a" < "b", "abc" > "abd", ord("a"), chr(98), "ab".encode().hex(), "x".zfill(3), "ß".casefold(), "abc".removeprefix("a"), "%s-%s" % (1, "a"), "%(k)s" % {"k": 2}, "a" "b", r"\n", "\x41", "a".isidentifier(), "A".islower()
def t_walrus():
    out = []
    it = iter([1, 2, 0, 3])
    while (x := next(it)):
        out.append(x)
    if (n := len(out)) > 1:
        out.append(n)
    return out
def t_star():
    a, *b, c = range(5)
    (d, e), f = (1, 2), 3
    g = [*b, *"xy"]
    def h(p, /, q, *, r=1, **s): return p, q, r, s
    return a, b, c, d, e, f, g, h(1, 2), h(1, q=2, r=3, t=4), h(*[1], **{"q": 5})
def t_loops():
    out = []
    for i in range(5):
        if i == 1: continue
        if i == 4: break
        out.append(i)
    else:
        out.append("never")
    for i in []:
        pass
    else:
        out.append("else")
    n = 3
    while n:
        n -= 1
        if n == 1: continue
        out.append(n)
    else:
        out.append("done")
    return out
def t_try():
    out = []
    def f(x):
        try:
            if x == 0: return "r"
            if x == 1: raise ValueError("v")
            if x == 2: raise KeyError("k")
            out.append("body")
        except ValueError as e:
            out.append(str(e))
            return "h"
        else:
            out.append("else")
        finally:
            out.append("fin")
        return "end"
    r = [f(0), f(1), f(3)]
    try:
        f(2)
    except KeyError as e:
        r.append(e.args)
    return r, out
def t_closure():
    fs = [lambda i=i: i for i in range(3)]
    gs = [lambda: i for i in range(3)]
    c = 0
    def inc():
        nonlocal c
        c += 1
        return c
    return [f() for f in fs], [g() for g in gs], inc(), inc(), c
def t_numfmt(): return str(1e16), str(1.0), repr(0.1 + 0.2), str(-0.0), f"{1e-7}", str(123456789012345680.0), float("1e5"), int(-1.5), round(2.5), round(-1.567, 1), 7 // -2, 7 % -2, divmod(7, 2), 2 ** -1, True + 1, int("0x1f", 16), int(" 12 "), float("inf"), 1 / 3, 10 ** 20, bool(0.0), complex(1, 2).real if False else 0
def t_slices():
    l = list(range(10))
    l[2:4] = ["a"]
    del l[-2:]
    l[::3] = [0] * len(l[::3])
    return l, l[-3:], l[:-3], l[8:2:-2], l[100:], "abc"[-2:]
def t_cmp(): return [1, 2] < [1, 3], (1, "a") < (1, "b"), 1 < 2 < 3, 1 == 1.0, None is None, not [], [] == (), "a" != "b", 1 in (1, 2), {1: 2} == {1: 2}, {1} == {1}, True == 1, None == 0
def t_gen():
    def g(n):
        for i in range(n):
            yield i
        return
    def h():
        yield from g(2)
        yield "x"
    a = g(3)
    return next(a), list(a), next(a, "dflt"), list(h()), sum(g(4)), dict((i, i) for i in g(2)), tuple(h()), "".join(str(i) for i in g(3))
def t_global():
    global ZZ
    ZZ = 5
    return ZZ
def t_dec():
    def twice(f):
        @functools.wraps(f)
        def w(*a, **k): return f(*a, **k) * 2
        return w
    @twice
    def q(x):
        "doc"
        return x
    return q(2), q.__name__, q.__doc__
def t_assert():
    assert 1 == 2, "msg"
def t_del():
    x = 1
    del x
    return x
def t_unb():
    if False:
        y = 1
    return y
def t_unpackerr():
    a, b = [1]
def t_unpackerr2():
    a, b = [1, 2, 3]
def t_keyerr(): return {"a": 1}["b"]
def t_attr(): return (1).foo
def t_attr2(): return "a".foo
def t_inderr(): return [1][5]
def t_nameerr(): return undefined_name
def t_zdiv(): return 1 / 0
def t_typ(): return "a" + 1
def t_typ2(): return 1 + "a"
def t_typ3(): return len(5)
def t_typ4(): return int("x")
def t_typ5(): return float("x")
def t_typ6(): return int(None)
def t_typ7(): return [] < {}
def t_typ8(): return {[]: 1}
def t_typ9(): return iter(5)
def t_typ10(): return max([])
def t_typ11(): return next(iter([]))
def t_typ12(): return "abc".index("z")
def t_typ13(): return [1].remove(2)
def t_typ14(): return {}.popitem()
def t_typ15(): return (lambda a: a)(1, 2)
def t_typ16(): return "".join([1])
def t_typ17(): return sorted([1, "a"])
def t_typ18(): return bytes("a")
def t_typ19(): return "a"[5]
def t_typ20(): return getattr(1, "zz")
def t_typ21(): return [].pop()
def t_typ22(): return set().pop()
def t_typ23(): return b"\xff".decode()
def t_typ24(): return "é".encode("ascii")
def t_typ25(): return 5 in 5
def t_typ26(): return None + 1
def t_typ27(): return -"a"
def t_typ28(): return open("/nonexistent/zz")
