"""C01: a verdict covers everything below it; nothing recorded in a context is lost; aborting is always an error."""
import itertools
from .common import *
from . import docs as D, meta as M, c11

LEVEL = "other"
NAMES = ["INFO", "WARNING", "ERROR", "CRITICAL"]
R_OK = "ok() <=> no entry of level ERROR or above"
R_AGG = "the level of a result is the maximum of its own level and of all its descendants"
R_APP = "appending keeps all earlier entries and adds the new one last"
R_CTX = "leaving a context attaches its result to the enclosing one exactly once, in order"
R_ABORT = "aborting records an ERROR, ends the innermost context only and never escapes it"
R_EXC = "an exception in a catch-all context becomes a CRITICAL entry; in any other it propagates"
R_STACK = "the context stack is restored however a context is left"
R_DICT = "the dictionary form restores messages, levels and structure"
R_TREE = "no file check returns an ok verdict above an ERROR entry, or a failing one without any"

CLIENT = '''
from aas_test_engines.result import start, write, abort, AasTestResult, Level, ResultException

def act(spec):
    kind, arg = spec
    if kind == "write":
        write(arg)
    elif kind == "abort":
        abort(arg)
    elif kind == "raise":
        raise ValueError(arg)
    elif kind == "nest":
        msg, catch, body = arg
        with start(msg, catch):
            for b in body:
                act(b)

def combine(a, b):
    return a | b

def run(msg, catch, body):
    with start(msg, catch) as r:
        for b in body:
            act(b)
    return r
'''


def lv(name):
    it = interp()
    return it.getattr_(sym("result", "Level"), name)


def anylevel(label="level"):
    return lv(NAMES[choose(4, "INFO|WARNING|ERROR|CRITICAL for " + label)])


def res(msg, level):
    return call(sym("result", "AasTestResult"), msg, level)


def shape(r, up=()):
    """(message, level, children) of a result"""
    it = interp()
    if any(x is r for x in up):
        raise Violation(f"entry {show(it.getattr_(r, 'message'))!r} contains itself", key="cycle")
    return (it.getattr_(r, "message"), level_of(r), [shape(s, up + (r,)) for s in B.iterate(it, it.getattr_(r, "sub_results"))])


def tree_ok(r, top, up=()):
    """aggregation on a whole result tree"""
    it = interp()
    if any(x is r for x in up):
        raise Violation(f"entry {show(it.getattr_(r, 'message'))!r} contains itself", key="cycle")
    kids = list(B.iterate(it, it.getattr_(r, "sub_results")))
    lvl = NAMES.index(level_of(r))
    for k in kids:
        n = tree_ok(k, False, up + (r,))
        if n > lvl:
            raise Violation(f"entry {show(it.getattr_(k, 'message'))[:120]!r} has level {NAMES[n]} below "
                            f"{show(it.getattr_(r, 'message'))[:120]!r} of level {NAMES[lvl]}", key="aggregate")
    if bool(ok_of(r)) != (lvl < 2):
        raise Violation(f"ok() is {ok_of(r)} at level {NAMES[lvl]}", key="ok")
    return lvl


def same(a, b, what):
    if a != b:
        raise Violation(f"{what}: expected {b}, got {a}", key=what)


def expected(msg, body, catch):
    """reference semantics of a context: (tree, escaping exception or None)"""
    kids = []
    exc = None
    for kind, arg in body:
        if kind == "write":
            kids.append(arg)
        elif kind == "abort":
            kids.append(arg if isinstance(arg, tuple) else (arg, "ERROR", []))
            break
        elif kind == "raise":
            if catch:
                kids.append((None, "CRITICAL", []))
            else:
                exc = arg
            break
        else:
            m, c, b = arg
            t, e = expected(m, b, c)
            if e is not None:
                if catch:
                    kids.append((None, "CRITICAL", []))
                else:
                    exc = e
                break
            kids.append(t)
    kids = [k if isinstance(k, tuple) else (k, "INFO", []) for k in kids]
    base, pre = 0, []
    if isinstance(msg, tuple):
        msg, base, pre = msg[0], NAMES.index(msg[1]), msg[2]
    kids = list(pre) + kids
    top = max([base] + [NAMES.index(k[1]) for k in kids])
    return (msg, NAMES[top], kids), exc


def match(got, want, what):
    m, l, k = want
    if m is not None and not (got[0].find() is m.find() if isinstance(got[0], AbsStr) and isinstance(m, AbsStr) else got[0] == m):
        raise Violation(f"{what}: entry {got[0]!r} where {m!r} was recorded", key="message")
    if got[1] != l:
        raise Violation(f"{what}: entry {m!r} has level {got[1]}, expected {l}", key="level")
    if len(got[2]) != len(k):
        raise Violation(f"{what}: entry {m!r} has {len(got[2])} sub-entries, expected {len(k)}", key="count")
    for a, b in zip(got[2], k):
        match(a, b, what)


def build(t):
    r = res(t[0], lv(t[1]))
    for k in t[2]:
        meth(r, "append", build(k))
    return r


def lower(body):
    """client argument: results become result objects"""
    out = []
    for kind, arg in body:
        if kind in ("write", "abort") and isinstance(arg, tuple):
            arg = build(arg)
        if kind == "nest":
            arg = (build(arg[0]) if isinstance(arg[0], tuple) else arg[0], arg[1], PyList(lower(arg[2])))
        out.append((kind, arg))
    return out


def free(t):
    """the same recorded tree with arbitrary messages"""
    if t is None or isinstance(t, str):
        return t if t is None else AbsStr(rx.ANY, name=t)
    return (free(t[0]), t[1], [free(k) for k in t[2]])


def free_body(body):
    out = []
    for kind, arg in body:
        if kind == "nest":
            out.append((kind, (free(arg[0]), arg[1], free_body(arg[2]))))
        else:
            out.append((kind, free(arg)))
    return out


def bodies(depth, tier):
    """all bodies of one context up to the given nesting depth"""
    leaf = [("write", "w"), ("write", ("r", "WARNING", [])), ("write", ("r", "ERROR", [])), ("write", ("r", "CRITICAL", [])),
            ("abort", "a"), ("abort", ("ar", "CRITICAL", [])), ("raise", "x")]
    yield from ([a] for a in leaf)
    yield []
    for a in leaf[:3]:
        for b in leaf:
            yield [a, b]
    if depth:
        for catch in (False, True):
            for inner in bodies(depth - 1, tier):
                n = ("nest", ("inner%d" % depth, catch, inner))
                yield [n]
                yield [n, ("write", "after")]
                if depth == 1 or tier == "thorough":
                    yield [("write", "before"), n, n]
                    yield [n, ("abort", "a")]


def started(tier):
    """contexts opened with a result: of any level, with or without entries, left in any way"""
    leaf = [[], [("write", "w")], [("write", ("r", "WARNING", []))], [("write", ("r", "INFO", [("k", "INFO", [])]))], [("write", ("r", "CRITICAL", [("k", "ERROR", []), ("l", "CRITICAL", [])]))],
            [("abort", "a")], [("abort", ("ar", "ERROR", [("k", "ERROR", [])]))], [("raise", "x")], [("write", "w"), ("raise", "x")]]
    for l in NAMES:
        for pre in ([], [("p", "INFO", [])], [("p", l, []), ("q", "INFO", [])]):
            lvl = max([l] + [p[1] for p in pre], key=NAMES.index)
            for catch in (False, True):
                for body in leaf:
                    n = ("nest", (("step", lvl, pre), catch, body))
                    yield [n]
                    yield [("write", "before"), n, ("write", "after")]
                    yield [("nest", ("mid", True, [n]))]


def obligations(tier):
    obs = []
    R = sym("result", "AasTestResult")
    ns = client(CLIENT)

    def add(name, rule, fn, **k):
        obs.append(Ob(name, fn, rule, **k))

    def levels(it):
        l = anylevel()
        r = res("m", l)
        same(level_of(r), it.getattr_(l, "name"), "level of a new result")
        same(bool(ok_of(r)), it.getattr_(l, "name") in ("INFO", "WARNING"), "ok() at level " + it.getattr_(l, "name"))
        same(level_of(call(R, "m")), "INFO", "default level")
    add("levels", R_OK, levels)

    def join(it):
        a, b = anylevel("a"), anylevel("b")
        c = it.getattr_(call(ns["combine"], a, b), "name")
        same(c, max(it.getattr_(a, "name"), it.getattr_(b, "name"), key=NAMES.index), "combined level")
    add("combine", R_AGG, join)

    def appends(n):
        def fn(it):
            own = anylevel("own level")
            r = res(AbsStr(rx.ANY, name="message"), own)
            top = NAMES.index(it.getattr_(own, "name"))
            kids = []
            for i in range(n):
                l = anylevel(f"entry {i}")
                k = res(AbsStr(rx.ANY, name="entry"), l)
                meth(r, "append", k)
                kids.append(k)
                top = max(top, NAMES.index(it.getattr_(l, "name")))
                same(level_of(r), NAMES[top], f"level after entry {i}")
                got = list(B.iterate(it, it.getattr_(r, "sub_results")))
                if len(got) != len(kids) or any(x is not y for x, y in zip(got, kids)):
                    raise Violation(f"entries after appending {i + 1}", key="entries")
        return fn
    for n in (1, 2, 3):
        add(f"append {n}", R_APP if n == 1 else R_AGG, appends(n))

    def deep(it):
        """any entry at any position of a three-level tree decides the verdict of the root"""
        ls = [anylevel(f"leaf {i}") for i in range(3)]
        root, mid, mid2 = res("root", lv("INFO")), res("mid", lv("INFO")), res("mid2", lv("INFO"))
        meth(mid2, "append", res("l0", ls[0]))
        meth(mid, "append", mid2)
        meth(mid, "append", res("l1", ls[1]))
        meth(root, "append", mid)
        meth(root, "append", res("l2", ls[2]))
        same(level_of(root), max((it.getattr_(l, "name") for l in ls), key=NAMES.index), "level of the root")
    add("deep", R_AGG, deep)

    def many(it):
        """arbitrarily many entries: the invariant step from an arbitrary reachable state"""
        r = res("root", anylevel("reached level"))
        before = level_of(r)
        it.getattr_(r, "sub_results").items.append(Seg(lambda i: res("k", lv("INFO")), 0, None))
        l = anylevel("entry")
        k = res("k", l)
        meth(r, "append", k)
        same(level_of(r), max(before, it.getattr_(l, "name"), key=NAMES.index), "level")
        items = it.getattr_(r, "sub_results").items
        if len(items) != 2 or items[-1] is not k or not isinstance(items[0], Seg):
            raise Violation("entries after appending", key="entries")
    add("append to any", R_APP, many)

    def roundtrip(it):
        def build(d):
            r = res(AbsStr(rx.ANY, name="message"), anylevel("level"))
            if d:
                for i in range(choose(3, "0|1|2 children")):
                    meth(r, "append", build(d - 1))
            return r
        r = build(1)
        r2 = call(it.getattr_(R, "from_json"), meth(r, "to_dict"))
        match(shape(r2), shape(r), "restored result")
    add("round trip", R_DICT, roundtrip)

    def roundtrip2(it):
        r = res("root", lv("INFO"))
        m = res(AbsStr(rx.ANY, name="message"), anylevel("middle"))
        meth(m, "append", res(AbsStr(rx.ANY, name="message"), anylevel("leaf")))
        meth(r, "append", m)
        meth(r, "append", res("z", lv("INFO")))
        r2 = call(it.getattr_(R, "from_json"), meth(r, "to_dict"))
        match(shape(r2), shape(r), "restored result")
    add("round trip 3 levels", R_DICT, roundtrip2)

    def trees():
        def leaf(m, l):
            return res(m, lv(l))

        def node(m, l, *kids):
            r = res(m, lv(l))
            for k in kids:
                meth(r, "append", k)
            return r
        yield "long list", lambda: node("r", "INFO", *[leaf(f"e{i}", NAMES[i % 4]) for i in range(40)])
        yield "list of passing", lambda: node("r", "INFO", *[leaf(f"e{i}", NAMES[i % 2]) for i in range(33)])
        yield "equal messages", lambda: node("m", "INFO", leaf("m", "INFO"), leaf("m", "INFO"), leaf("m", "ERROR"), leaf("m", "ERROR"), node("m", "INFO", leaf("m", "WARNING")), leaf("m", "INFO"))
        yield "empty messages", lambda: node("", "INFO", leaf("", "INFO"), leaf(" ", "ERROR"), node("", "WARNING", leaf("", "INFO")), leaf("0", "INFO"))
        yield "own level", lambda: node("r", "CRITICAL", leaf("a", "INFO"), node("b", "ERROR", leaf("c", "WARNING")), node("d", "WARNING", leaf("e", "INFO")))

        def chain():
            r = leaf("end", "ERROR")
            for i in range(40):
                r = node(f"c{i}", "INFO", leaf(f"b{i}", "INFO"), r, leaf(f"a{i}", NAMES[i % 2]))
            return r
        yield "deep", chain

        def shared():
            x = node("x", "INFO", leaf("y", "WARNING"))
            return node("r", "INFO", x, x, node("z", "INFO", x))
        yield "shared entry", shared
    for nm, mk in trees():
        def rt(it, mk=mk):
            r = mk()
            want = shape(r)
            for text in (False, True):
                d = meth(r, "to_dict")
                if text:
                    j = it.import_module("json").ns
                    d = call(j["loads"], call(j["dumps"], d))
                r2 = call(it.getattr_(R, "from_json"), d)
                match(shape(r2), want, "restored result")
            match(shape(r), want, "result after its conversion")
        add(f"round trip {nm}", R_DICT, rt)
    for up, down in itertools.product(NAMES, NAMES):
        for pos in range(3):
            def raised(it, up=up, down=down, pos=pos):
                d = meth(res("r", lv(up)), "to_dict")
                kids = [v for _, v in B.dict_items(it, d) if isinstance(v, PyList)]
                if len(kids) != 1:
                    raise Unsupported("dictionary form")
                for i in range(3):
                    kids[0].items.append(meth(res("k", lv(down if i == pos else "INFO")), "to_dict"))
                r = call(it.getattr_(R, "from_json"), d)
                want = max(up, down, key=NAMES.index)
                same(level_of(r), want, "level")
                if bool(ok_of(r)) != (want in NAMES[:2]):
                    raise Violation(f"a restored result with an entry of level {down} below level {up}: ok() is {bool(ok_of(r))}", key="ok")
            add(f"restored level:{up}:{down}:{pos}", R_AGG, raised)

    # contexts: every body up to the nesting depth against the reference semantics
    for i, (catch, body) in enumerate(itertools.product((False, True), list(bodies(2, "thorough")) + list(started(tier)))):
        def ctx(it, catch=catch, body=body):
            mgr = sym("result", "managers") if has_sym("result", "managers") else None
            d0 = len(mgr.items) if isinstance(mgr, PyList) else None
            texts = free_body(body)
            outer = AbsStr(rx.ANY, name="outer")
            want, exc = expected(outer, texts, catch)
            k, v = attempt(ns["run"], outer, catch, PyList(lower(texts)))
            if d0 is not None and len(mgr.items) != d0:
                raise Violation(f"{len(mgr.items) - d0} contexts still open after {body}", key="stack")
            if exc is not None:
                if k != "raise" or not is_exc(v, "ValueError"):
                    raise Violation(f"the exception of {body} is swallowed by a context that does not catch", key="swallowed")
                return
            if k == "raise":
                raise_violation(f"context with body {body} (catch_all={catch})", v)
            match(shape(v), want, f"context with body {body} (catch_all={catch})")
        add(f"context {i}: {'catch ' if catch else ''}{body}"[:160], R_CTX, ctx)

    def outside(it):
        k, v = attempt(sym("result", "write"), "m")
        if k != "raise":
            raise Violation("writing without a context is silently dropped", key="dropped")
    add("write outside", R_CTX, outside)

    def aborts(it):
        arg = Lazy([("text", lambda: AbsStr(rx.ANY, name="message")), ("result", lambda: res("r", lv("ERROR")))], "argument")
        k, v = attempt(sym("result", "abort"), arg)
        if k != "raise":
            raise Violation("abort returns", key="abort")
        if not is_exc(v, "ResultException"):
            raise_violation("abort", v)
    add("abort", R_ABORT, aborts)

    # aggregation and verdict on the trees the file checks build
    docs = []
    for cls in M.CLASSES:
        docs.append((f"{cls}:full", lambda it, cls=cls: D.embed(cls, D.full(cls))))
        for v in c11.violations(cls):
            docs.append((f"{cls}:{v}", lambda it, cls=cls, v=v: D.embed(cls, c11.violations(cls)[v])))
        docs.append((f"{cls}:unknown", lambda it, cls=cls: D.embed(cls, {**D.minimal(cls), "unknownAttribute": "x"})))
    for name, mk in docs:
        for form in ("json", "xml"):
            def tree(it, mk=mk, form=form):
                doc = mk(it)
                k, v = D.check_json(doc) if form == "json" else D.check_xml(D.xdoc(it, "Environment", doc))
                if k == "raise":
                    raise_violation("the check does not return a verdict", v)
                lvl = tree_ok(v, True)
                if lvl >= 2 and not any(l in ("ERROR", "CRITICAL") and not list(B.iterate(it, it.getattr_(n, "sub_results"))) for _, _, l, n in walk(v)):
                    raise Violation("failing verdict without a finding that explains it", key="unexplained")
            add(f"{form}:{name}", R_TREE, tree)
    return obs


def lints(tier):
    return []
