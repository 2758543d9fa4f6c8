"""C19: every request reaches exactly the addressed resource, with its parameters, headers, body and TLS setting."""
import itertools
import json as _json
from .common import *
from . import docs as D, pkg as P, c02

LEVEL = "other"
R_URL = "request URL = host without its trailing slash + prefixes in order + path (+ query)"
R_CUT = "the configured path prefix is removed exactly when it ends at a segment boundary"
R_QRY = "query parameters: each given value once, percent-encoded, booleans as true/false, absent values left out"
R_HDR = "headers of the request and of the client are all sent"
R_BODY = "the body is sent as the JSON text of exactly the given value, and nothing is sent when there is none"
R_PASS = "method, TLS setting, answer and connection errors are passed on unchanged"
R_ISO = "descending and sending change neither the client nor the request"
R_B64 = "identifiers are encoded as base64url of their UTF-8 text without padding"
CLIENT = '''
from aas_test_engines.http import HttpClient, Request
from aas_test_engines.reflect import StringFormattedValue
from aas_test_engines.data_types import base64_urlsafe
import requests

class Id(StringFormattedValue):
    base64 = True

class Plain(StringFormattedValue):
    pass

def mk(host, verify=False, remove="", headers={}):
    return HttpClient(host, verify, remove, headers)

class Own(HttpClient):
    def send(self, request):
        self.log.append(request)
        return HttpClient.send(self, request)

def own(host):
    c = Own(host)
    c.log = []
    return c

def fail(kind):
    raise getattr(requests.exceptions, kind)("failed")
'''
SEG = "/[A-Za-z0-9_.-]+"


def flatten(v):
    """parts with neighbouring constants merged"""
    v = core.force(v)
    ps = []
    for p in c02.flat(v):
        p = core.force(p) if not isinstance(p, str) else p
        if isinstance(p, AbsStr) and p.find().single() is not None:
            p = p.find().single()
        if ps and isinstance(ps[-1], str) and isinstance(p, str):
            ps[-1] += p
        elif p != "":
            ps.append(p)
    return ps


def same(got, exp):
    P.known(got)
    a, b = flatten(got), flatten(exp)
    return len(a) == len(b) and all((x == y) if isinstance(x, str) or isinstance(y, str) else P.same_value(x, y) for x, y in zip(a, b))


def split_query(url):
    """(parts of the path, [parts of each parameter])"""
    base, params, cur = [], None, None
    for p in flatten(url):
        if isinstance(p, str):
            if params is None:
                h, sep, t = p.partition("?")
                if h:
                    base.append(h)
                if not sep:
                    continue
                params, cur, p = [], [], t
            xs = p.split("&")
            for i, x in enumerate(xs):
                if i:
                    params.append(cur)
                    cur = []
                if x:
                    cur.append(x)
        elif params is None:
            base.append(p)
        else:
            cur.append(p)
    if params is not None:
        params.append(cur)
    return base, params


def eqparts(a, b):
    return len(a) == len(b) and all((x == y) if isinstance(x, str) or isinstance(y, str) else P.same_value(x, y) for x, y in zip(a, b))


def decoded(parts):
    """what a server reads from one query parameter"""
    from urllib.parse import unquote_plus
    out = []
    for p in parts:
        if isinstance(p, core.Part) and p.kind.startswith(("urlq", "urlquote")):
            kind, _, safe = p.kind.partition(":")
            p = core.Part("urlq" if not set(safe) & set("&=+#%") else p.kind, p.value)
        elif isinstance(p, str):
            p = unquote_plus(p)
        out.append(p)
    return out


def abspath(name, lang=f"({SEG})*/?", lo=0, hi=None):
    return AbsStr(rx.compile_spec(lang), lo, hi, name=name)


def send(it, client, request, answer=None):
    """the single request sent on the wire"""
    n0 = len(State.ctx.effects)
    State.ctx.server = answer or (lambda i, r: L.response(i, 200, L.Src("body", json=[("ok", "ok", lambda: lift({}))])))
    try:
        meth(client, "send", request)
    except core.PyRaise as e:
        raise_violation("sending a request", e.exc)
    rs = [e[1] for e in State.ctx.effects[n0:] if e[0] == "http"]
    if len(rs) != 1:
        raise Violation(f"{len(rs)} requests are sent for one", key="count")
    r = dict(rs[0])
    if r.get("params") is not None:
        raise core.Unsupported("query passed by params=")
    return r


def obligations(tier):
    obs = []
    ns = client(CLIENT)
    mk, Request = ns["mk"], ns["Request"]

    def add(name, rule, fn, **k):
        obs.append(Ob(name, fn, rule, **k))

    def cmp(got, exp, what, key):
        if not same(got, exp):
            raise Violation(f"{what}: the request goes to {show(got)!r} instead of {show(exp)!r}", key=key)

    # ---------------------------------------------------------------- host, prefixes, path
    HOST = "https?://[a-z0-9.:/-]*[a-z0-9]"
    for slash, n, how in itertools.product((False, True), range(4), ("abstract", "const")):
        def url(it, slash=slash, n=n, how=how):
            if how == "const":
                h, pre, p = "http://h:1/api", [f"/p{i}" for i in range(n)], "/shells"
            else:
                h = AbsStr(rx.compile_spec(HOST), name="host")
                pre = [abspath(f"prefix{i}", SEG) for i in range(n)]
                p = abspath("path")
            c = call(mk, B.cat(h, "/") if slash else h)
            for x in pre:
                c = meth(c, "descend", x)
            r = send(it, c, call(Request, p))
            cmp(r["url"], B.cat(h, *pre, p), f"{n} prefixes{', host with trailing slash' if slash else ''}", "url")
        add(f"url:{n} prefixes:{'slash' if slash else 'plain'}:{how}", R_URL, url)
    for h in ("http://h", "https://h:8080/api/v3", "http://h/api/v3/", "HTTP://Host/Api", "http://[::1]:80", "http://u:p@h", "http://h/x//y", "h"):
        for p in ("/a//b", "//a", "/a/", "/a%2Fb", "/\u00e9", "/./a", "/a/../b", "/A/a", "/a;b", "/a:b@c", "/$value", "/api/v3/x", "/h/h", "/a+b", "/true", "/a|b"):
            def odd(it, h=h, p=p):
                for pre in ([], ["/p"], ["/p", "/P/q"], ["/api"]):
                    c = call(mk, h)
                    for x in pre:
                        c = meth(c, "descend", x)
                    want = (h[:-1] if h.endswith("/") else h) + "".join(pre) + p
                    cmp(send(it, c, call(Request, p))["url"], want, f"host {h}, prefixes {pre}, path {p}", "url")
            add(f"url:{h}:{p}", R_URL, odd)
    for n in range(3):
        def empty(it, n=n):
            c = call(mk, "http://h/api/")
            for i in range(n):
                c = meth(c, "descend", "")
            cmp(send(it, c, call(Request, ""))["url"], "http://h/api", "empty path", "url")
        add(f"url:empty path:{n}", R_URL, empty)

    # ---------------------------------------------------------------- removal of the prefix
    REMOVE = ["/aas", "/submodel", "/api/v3.0", "/shells"]
    for rm in REMOVE:
        for where in ("path", "descend", "split", "deep"):
            for kind, lang, cut in (("exact", None, True), ("segment", "/[A-Za-z0-9/$_.-]*", True), ("longer segment", "[A-Za-z0-9$_.-][A-Za-z0-9/$_.-]*", False)):
                for q in (False, True):
                    for how in ("abstract", "const"):
                        if how == "const" and lang is None:
                            continue

                        def cutf(it, rm=rm, where=where, kind=kind, lang=lang, cut=cut, q=q, how=how):
                            tail = "" if lang is None else AbsStr(rx.compile_spec(lang), 1, None, name="rest") if how == "abstract" else {"segment": "/x/y", "longer segment": "-x/y"}[kind]
                            c = call(mk, "http://h", remove=rm)
                            if where == "path":
                                p = B.cat(rm, tail)
                            elif where == "descend":
                                c = meth(c, "descend", rm)
                                p = tail
                            elif where == "split":
                                k = rm.rindex("/") if rm.count("/") > 1 else 2
                                c = meth(c, "descend", rm[:k])
                                p = B.cat(rm[k:], tail)
                            else:
                                c = meth(meth(c, "descend", rm), "descend", "/inner")
                                p = tail
                                if not cut:
                                    c = meth(meth(call(mk, "http://h", remove=rm), "descend", B.cat(rm, tail)), "descend", "/inner")
                                    p = ""
                            par = {"level": "core"} if q else {}
                            r = send(it, c, call(Request, p, query_parameters=lift(par)))
                            mid = "/inner" if where == "deep" else ""
                            rest = B.cat(mid, tail) if cut else B.cat(rm, tail, mid)
                            cmp(r["url"], B.cat("http://h", rest, "?level=core" if q else ""), f"removing {rm} from {show(B.cat(rm, tail))!r}", "cut")
                        add(f"remove {rm}:{where}:{kind}{':query' if q else ''}:{how}", R_CUT, cutf)

        def other(it, rm=rm):
            p = AbsStr(rx.minus(rx.compile_spec(f"({SEG})*/?"), rx.concat(rx.word(rm), rx.ANY)), name="path")
            c = call(mk, "http://h", remove=rm)
            cmp(send(it, c, call(Request, p))["url"], B.cat("http://h", p), f"{rm} is no prefix", "cut")
        add(f"remove {rm}:no prefix", R_CUT, other)

        def inner(it, rm=rm):
            c = meth(call(mk, "http://h", remove=rm), "descend", "/x")
            cmp(send(it, c, call(Request, rm + "/y"))["url"], "http://h/x" + rm + "/y", f"{rm} occurs inside of the path", "cut")
        add(f"remove {rm}:inner", R_CUT, inner)

        def twice(it, rm=rm):
            c = call(mk, "http://h", remove=rm)
            cmp(send(it, c, call(Request, rm + rm + "/y"))["url"], "http://h" + rm + "/y", f"{rm} occurs twice", "cut")
        add(f"remove {rm}:twice", R_CUT, twice)

        def case(it, rm=rm):
            c = call(mk, "http://h", remove=rm)
            cmp(send(it, c, call(Request, rm.upper() + "/y"))["url"], "http://h" + rm.upper() + "/y", "case differs", "cut")
        add(f"remove {rm}:case", R_CUT, case)

    # ---------------------------------------------------------------- query parameters
    def values(i):
        s = AbsStr(rx.ANY, name=f"value{i}")
        n = AbsInt(FreeInt(ISet([(None, None)])), label=f"number{i}") if False else None
        return [("text", s, lambda: [f"p{i}=", core.Part("urlq", s)]),
                ("const", "a b&c=d/ä?", lambda: [f"p{i}=a+b%26c%3Dd%2F%C3%A4%3F"]),
                ("empty", "", lambda: [f"p{i}="]),
                ("zero", 0, lambda: [f"p{i}=0"]),
                ("number", -1, lambda: [f"p{i}=-1"]),
                ("true", True, lambda: [f"p{i}=true"]),
                ("false", False, lambda: [f"p{i}=false"]),
                ("none", None, None)]
    names = [v[0] for v in values(0)]
    combos = [(a,) for a in names] + list(itertools.product(names, names)) + ([c for c in itertools.product(names, repeat=3)] if tier != "quick" else
                                                                             [("none", "text", "none"), ("text", "none", "text"), ("false", "none", "zero"), ("none", "none", "none"), ("text", "text", "text")])
    for combo in [()] + combos:
        def query(it, combo=combo):
            vs = [next(v for v in values(i) if v[0] == n) for i, n in enumerate(combo)]
            par = PyDict([(f"p{i}", v[1]) for i, v in enumerate(vs)])
            req = call(Request, "/x", query_parameters=par)
            r = send(it, call(mk, "http://h"), req)
            P.known(r["url"])
            base, params = split_query(r["url"])
            want = [v[2]() for v in vs if v[2]]
            want = [[x if isinstance(x, str) else x for x in w] for w in want]
            if not eqparts(base, ["http://h/x"]):
                raise Violation(f"parameters {combo} change the path: {show(r['url'])!r}", key="query")
            got = list(params or [])
            if bool(want) != (params is not None):
                raise Violation(f"parameters {combo} give {show(r['url'])!r}", key="query")
            for w in want:
                m = next((g for g in got if eqparts(decoded(g), decoded(w))), None)
                if m is None:
                    raise Violation(f"parameters {combo}: {show(core.StrCat(w))!r} is missing in {show(r['url'])!r}", key="query")
                got.remove(m)
            if got:
                raise Violation(f"parameters {combo}: unexpected parameter in {show(r['url'])!r}", key="query")
        add("query:" + ",".join(combo), R_QRY, query)

    # ---------------------------------------------------------------- headers
    def hdrs(it, r):
        h = {}
        for src in (r.get("session_headers"), r.get("headers")):
            if isinstance(src, PyDict):
                for k, v in it.dict_items(src):
                    h[B.const_of(k) if not isinstance(k, str) else k] = v
        return h
    for own, extra, depth in itertools.product((0, 1, 2), (0, 1, 2), (0, 1, 2)):
        def headers(it, own=own, extra=extra, depth=depth):
            a = {f"R{i}": AbsStr(rx.ANY, name=f"r{i}") for i in range(own)}
            b = {f"C{i}": AbsStr(rx.ANY, name=f"c{i}") for i in range(extra)}
            c = call(mk, "http://h", headers=lift(b))
            for i in range(depth):
                c = meth(c, "descend", f"/d{i}")
            h = hdrs(it, send(it, c, call(Request, "/x", headers=lift(a))))
            for n, v in {**a, **b}.items():
                if n not in h or not P.same_value(h[n], v):
                    raise Violation(f"header {n} of the {'request' if n in a else 'client'} is {'not sent' if n not in h else 'changed'}", key="header")
            extra_names = set(h) - set(a) - set(b) - {"Content-Type", "Accept", "User-Agent"}
            if extra_names:
                raise Violation(f"unexpected headers {sorted(extra_names)}", key="header")
        add(f"headers:{own}+{extra}:{depth}", R_HDR, headers)

    for hname in ("X", "Accept", "Content-Type"):
        def collide(it, same=hname):
            v = AbsStr(rx.ANY, name="configured")
            c = call(mk, "http://h", headers=lift({same: v}))
            h = hdrs(it, send(it, c, call(Request, "/x", method="post", body=lift({"a": 1}), headers=lift({same: "own", "Y": "1"}))))
            if same not in h or not P.same_value(h[same], v):
                raise Violation(f"the configured header {same} is not sent with a request that has its own", key="header")
            if h.get("Y") != "1":
                raise Violation("another header of the request is lost", key="header")
        add(f"headers:configured {hname}", R_HDR, collide)

    def leak(it):
        x = call(mk, "http://h", headers=lift({"A": "1"}))
        send(it, x, call(Request, "/x", headers=lift({"B": "2"})))
        h = hdrs(it, send(it, x, call(Request, "/y")))
        if "B" in h:
            raise Violation("a header of one request is sent with the next", key="header")
        h = hdrs(it, send(it, call(mk, "http://h"), call(Request, "/y")))
        if "A" in h or "B" in h:
            raise Violation("a header of one client is sent by another", key="header")
    add("headers:leak", R_HDR, leak)

    # ---------------------------------------------------------------- body, method, verify
    for nm, body in (("object", {"a": [1, None, True, "ä"]}), ("empty object", {}), ("empty list", []), ("list", [1, 2]), ("zero", 0), ("false", False), ("empty text", ""), ("text", "x"), ("none", None)):
        for m in ("get", "post", "put", "patch", "delete"):
            def bodyf(it, body=body, m=m):
                r = send(it, call(mk, "http://h"), call(Request, "/x", m, lift(body)))
                if core.force(r["method"]) not in (m, m.upper()):
                    raise Violation(f"method {m} is sent as {show(r['method'])}", key="method")
                d, j = core.force(r.get("data")), core.force(r.get("json"))
                if body is None:
                    if d is not None or j is not None:
                        raise Violation(f"a body is sent although there is none: {show(d)}", key="body")
                    return
                if j is not None:
                    raise core.Unsupported("json=")
                if isinstance(d, bytes):
                    d = d.decode()
                w = d if isinstance(d, str) else B.const_of(d) if d is not None else None
                if d is None:
                    raise Violation(f"body {body!r} is not sent", key="body")
                if w is None:
                    raise core.Unsupported("abstract body")
                try:
                    back = _json.loads(w)
                except ValueError:
                    raise Violation(f"body {body!r} is sent as {w!r}", key="body")
                if back != body or type(back) is not type(body):
                    raise Violation(f"body {body!r} is sent as {w!r}", key="body")
            add(f"body:{nm}:{m}", R_BODY, bodyf)
    for v, host in itertools.product((True, False), ("https://h", "HTTPS://h/", "http://h", "https://localhost:8443", "https://127.0.0.1/api")):
        for d in range(3):
            def ver(it, v=v, d=d, host=host):
                c = call(mk, host, v)
                for i in range(d):
                    c = meth(c, "descend", "/p")
                r = send(it, c, call(Request, "/x"))
                if core.force(r.get("verify", True)) is not v:
                    raise Violation(f"TLS verification {v} is sent as {show(r.get('verify', True))}", key="verify")
            add(f"verify:{v}:{d}:{host}", R_PASS, ver)

    def answer(it):
        box = []

        def srv(i, r):
            box.append(L.response(i, 418, L.Src("body", json=[("ok", "ok", lambda: lift({}))])))
            return box[0]
        State.ctx.server = srv
        got = meth(call(mk, "http://h"), "send", call(Request, "/x"))
        if core.force(got) is not box[0]:
            raise Violation("the answer of the server is not returned", key="answer")
    add("answer", R_PASS, answer)
    for e in ("ConnectionError", "Timeout", "TooManyRedirects", "SSLError", "ChunkedEncodingError", "InvalidURL"):
        def failing(it, e=e):
            def srv(i, r):
                i.throw(i.import_module("requests.exceptions").ns[e], "failed")
            State.ctx.server = srv
            try:
                meth(call(mk, "http://h"), "send", call(Request, "/x"))
            except core.PyRaise as x:
                if not is_exc(x.exc, e):
                    raise_violation(f"a {e}", x.exc)
                return
            raise Violation(f"a {e} is swallowed", key="swallow")
        add(f"failure:{e}", R_PASS, failing)

    # ---------------------------------------------------------------- isolation
    def siblings(it):
        a = call(mk, "http://h")
        b = meth(a, "descend", "/b")
        c = meth(a, "descend", "/c")
        d = meth(b, "descend", "/d")
        for x, p in ((a, ""), (b, "/b"), (c, "/c"), (d, "/b/d"), (a, ""), (b, "/b")):
            cmp(send(it, x, call(Request, "/x"))["url"], f"http://h{p}/x", "sub-clients of one client", "iso")
    add("isolation:siblings", R_ISO, siblings)

    def again(it):
        par = PyDict([("a", None), ("b", True), ("c", "x")])
        h = PyDict([("H", "1")])
        r = call(Request, "/x", "post", lift({"k": 1}), par, h)
        c = call(mk, "http://h/", headers=lift({"C": "2"}))
        one = send(it, c, r)
        two = send(it, c, r)
        for k in ("url", "method", "data", "verify"):
            if not P.same_value(one.get(k), two.get(k)):
                raise Violation(f"sending the same request again changes its {k}: {show(one.get(k))} -> {show(two.get(k))}", key="iso")
        if [k for k, _ in it.dict_items(par)] != ["a", "b", "c"] or [k for k, _ in it.dict_items(h)] != ["H"]:
            raise Violation("sending changes the request", key="iso")
    add("isolation:repeat", R_ISO, again)

    def defaults(it):
        a, b = call(Request, "/a"), call(Request, "/b")
        it.setitem(it.getattr_(a, "query_parameters"), "q", "1")
        it.setitem(it.getattr_(a, "headers"), "h", "1")
        r = send(it, call(mk, "http://h"), b)
        cmp(r["url"], "http://h/b", "parameters of another request", "iso")
        if "h" in hdrs(it, r):
            raise Violation("headers of another request are sent", key="iso")
    add("isolation:defaults", R_ISO, defaults)

    def subclass(it):
        c = call(ns["own"], "http://h")
        d = meth(c, "descend", "/x")
        if d.cls is not c.cls:
            raise Violation("descending replaces a client of an own class", key="class")
        cmp(send(it, d, call(Request, "/y"))["url"], "http://h/x/y", "own client class", "iso")
    add("isolation:own class", R_ISO, subclass)

    # ---------------------------------------------------------------- encoded identifiers
    import base64 as b64
    fns = [("function", lambda s: call(ns["base64_urlsafe"], s)), ("identifier", lambda s: interp().str_(call(ns["Id"], s)))]
    for nm, f in fns:
        def enc(it, f=f):
            s = AbsStr(D.xml_chars(), name="id")
            got = f(s)
            if not same(got, core.StrCat([core.Part("b64url-nopad", s)])):
                raise Violation(f"identifiers are encoded as {show(got)!r}", key="b64")
        add(f"base64:{nm}", R_B64, enc)
        for n in range(0, 8):
            for t in ("a" * n, "?" * n, "~" * n, "ä" * n, "\U0001f600" * n, ">>?" * n, "=" * n):
                def encc(it, f=f, t=t):
                    got = core.force(f(t))
                    got = got if isinstance(got, str) else B.const_of(got)
                    exp = b64.urlsafe_b64encode(t.encode()).decode().rstrip("=")
                    if got != exp:
                        raise Violation(f"{t!r} is encoded as {got!r} instead of {exp!r}", key="b64")
                if n:
                    add(f"base64:{nm}:{t!r}", R_B64, encc)

    def plain(it):
        s = AbsStr(D.xml_chars(), name="text")
        if not same(it.str_(call(ns["Plain"], s)), s):
            raise Violation("plain strings are changed", key="b64")
    add("base64:plain", R_B64, plain)
    return obs
