"""C20: a filter selects exactly the operations its patterns describe, and only those are tested."""
import functools
import itertools
from .common import *
from . import docs as D, pkg as P

LEVEL = "other"
R_SEL = "selected <=> (no inclusion pattern or one matches) and no exclusion pattern matches"
R_GLOB = "patterns match the whole name, case-sensitively, with * ? [..] [!..] as only wildcards"
R_BAD = "a second separator is rejected with InvalidFilterException"
R_RUN = "a check with a filter reports exactly the selected operations and sends no request for others"
CLIENT = '''
from aas_test_engines.config import TestCaseFilter, CheckApiConfig
from aas_test_engines.http import HttpClient
from aas_test_engines import api
from aas_test_engines.exception import InvalidFilterException, AasTestToolsException

def run(suite, pattern, dry):
    conf = CheckApiConfig(suite, filter=TestCaseFilter(pattern), dry=dry)
    return api.execute_tests(HttpClient("http://h"), conf)

def run_all(suite, dry):
    return api.execute_tests(HttpClient("http://h"), CheckApiConfig(suite, dry=dry))
'''
# (pattern, equivalent regular expression over the whole name)
GLOBS = [("A", "A"), ("*", "(.|\\n)*"), ("Get*", "Get(.|\\n)*"), ("*Id", "(.|\\n)*Id"), ("*ll*", "(.|\\n)*ll(.|\\n)*"), ("?", "(.|\\n)"), ("G?t", "G(.|\\n)t"), ("[ab]", "[ab]"), ("[!ab]", "[^ab]"),
         ("[a-c]x", "[a-c]x"), ("a.b", "a\\.b"), ("a+", "a\\+"), ("(a|b)", "\\(a\\|b\\)"), ("a$", "a\\$"), ("^a", "\\^a"), ("[", "\\["), ("a b", "a b"), ("\\d", "\\\\d"), ("**", "(.|\\n)*"), ("*-v?", "(.|\\n)*-v(.|\\n)"),
         ("GetAll*Reference", "GetAll(.|\\n)*Reference"), ("a{2}", "a\\{2\\}"), ("-a", "-a"), ("!a", "!a"), ("#", "#")]
BLANK = ["", " ", "  \t"]


def selects(f, name):
    return B.truth(interp(), meth(f, "selects", name))


def obligations(tier):
    obs = []
    ns = client(CLIENT)
    F = ns["TestCaseFilter"]

    def add(name, rule, fn, **k):
        obs.append(Ob(name, fn, rule, **k))

    # structure: arbitrary patterns, arbitrary name
    tok = rx.inter(rx.compile_spec("[^:~]+"), rx.compile_spec("(.|\\n)*[A-Za-z*](.|\\n)*"))
    for n, m in itertools.product(range(4), (None, 0, 1, 2, 3)):
        if n + (m or 0) > (4 if tier == "quick" else 6):
            continue

        def struct(it, n=n, m=m):
            inc = [AbsStr(tok, name=f"inc{i}") for i in range(n)]
            exc = [AbsStr(tok, name=f"exc{i}") for i in range(m or 0)]

            def join(xs):
                out = []
                for i, x in enumerate(xs):
                    if i:
                        out.append(":")
                    out.append(x)
                return out
            text = B.cat(*join(inc), *(["~"] + join(exc) if m is not None else []))
            name = AbsStr(rx.ANY, name="operation")
            k, f = attempt(F, text)
            if k == "raise":
                raise_violation(f"filter with {n} inclusions and {m} exclusions", f)
            got = selects(f, name)
            hit = any([L.glob_match(it, p, name, "match") for p in inc])
            out = any([L.glob_match(it, p, name, "match") for p in exc])
            want = (not n or hit) and not out
            if bool(got) != want:
                raise Violation(f"filter with {n} inclusions ({'one matches' if hit else 'none matches'}) and {m or 0} exclusions ({'one matches' if out else 'none matches'}): selected={got}", key="select")
        add(f"structure:{n}~{m}", R_SEL, struct, max_paths=20000)

    # concrete patterns, every name
    def glob(text, inc, exc, tag=None):
        def fn(it):
            k, f = attempt(F, text)
            if k == "raise":
                raise_violation(f"filter {text!r}", f)
            want = functools.reduce(rx.union, [rx.compile_spec(r) for r in inc]) if inc else rx.ANY
            for r in exc:
                want = rx.minus(want, rx.compile_spec(r))
            for sel, lang in ((True, want), (False, want.neg())):
                if lang.empty():
                    continue
                name = AbsStr(lang, name="operation")
                if bool(selects(f, name)) != sel:
                    raise Violation(f"filter {text!r} {'does not select' if sel else 'selects'} {name.example()!r}", key="glob")
        add(f"glob:{text!r}", R_GLOB, fn)
    for p, r in GLOBS:
        glob(p, [r], [])
        glob("~" + p, [], [r])
        glob("*~" + p, [".|\\n", "(.|\\n)*"], [r])
        glob(p + ":zz", [r, "zz"], [])
        glob("zz:" + p + "~zz", [r, "zz"], ["zz"])
        glob("zz~" + p + ":q", ["zz"], [r, "q"])
        glob("z*~q:" + p, ["z(.|\\n)*"], ["q", r])
    for b in BLANK:
        glob(b, [], [])
        glob(b + "~" + b, [], [])
        glob(f"A:{b}", ["A"], [])
        glob(f"{b}:A", ["A"], [])
        glob(f"A:{b}:B", ["A", "B"], [])
        glob(f"A~{b}", ["A"], [])
        glob(f"{b}~A", [], ["A"])
        glob(f"{b}~A:{b}:B", [], ["A", "B"])
        glob(f"A~{b}:B", ["A"], ["B"])

    # invalid filters
    def bad(text, tag):
        def fn(it):
            k, f = attempt(F, text() if callable(text) else text)
            if k == "ok":
                raise Violation(f"filter with more than one separator is accepted", key="accepted")
            if not is_exc(f, "InvalidFilterException") or not is_exc(f, "AasTestToolsException"):
                raise_violation("filter with more than one separator", f)
        add(f"invalid:{tag}", R_BAD, fn)
    for t in ("~~", "A~B~C", "~A~", "~~A", "A~~", "A~B~", "a:b~c:d~e", "~~~", "A~B~C~D"):
        bad(t, t)
    part = rx.compile_spec("[^~]*")
    bad(lambda: B.cat(AbsStr(part, name="a"), "~", AbsStr(part, name="b"), "~", AbsStr(part, name="c")), "abstract")

    # whole run
    api = sym("api", "supported_versions")
    it = interp()
    suites = [x for x in B.iterate(it, it.getitem(call(api), "3.0"))]
    av = sym("test_cases.v3_0.api", "available_suites")
    for s in suites:
        ops = []
        for e in B.iterate(it, it.getitem(av, s)):
            ops.append(it.getattr_(it.getitem(e, 1), "operation"))
        short = s.split("/")[-2]

        def names(result, ops=ops):
            out = []
            for d, m, lv, node in walk(result):
                if d == 1:
                    m = B.const_of(m) if not isinstance(m, str) else m
                    if isinstance(m, str):
                        for o in set(ops):
                            if m.split()[-1:] == [o]:
                                out.append(o)
            return out
        cases = [("none", "NoSuchOperation", []), ("all", "*", ops), ("blank", " ", ops)]
        for o in sorted(set(ops)):
            cases.append((f"only {o}", o, [o]))
            cases.append((f"without {o}", "~" + o, [x for x in ops if x != o]))
        cases.append(("two", f"{ops[0]}:{ops[-1]}", [ops[0], ops[-1]]))
        cases.append(("prefix", "GetAll*~*Reference*", [o for o in ops if o.startswith("GetAll") and "Reference" not in o]))
        for tag, pat, want in cases:
            def run(it, s=s, pat=pat, want=want, names=names):
                def srv(i, r):
                    raise Violation("a dry run sends a request", key="request")
                State.ctx.server = srv
                k, r = attempt(ns["run"], s, pat, True)
                if k == "raise":
                    raise_violation(f"dry run with filter {pat!r}", r)
                got = names(it.getitem(r, 0))
                w = [o for o in ops_of(s) if o in want]
                if got != w:
                    miss = [x for x in w if x not in got]
                    extra = [x for x in got if x not in w]
                    raise Violation(f"filter {pat!r}: missing {miss[:3]}, unexpected {extra[:3]}", key="run")
            add(f"run:{short}:{tag}", R_RUN, run)
        _ops[s] = ops

        def unfiltered(it, s=s, names=names):
            State.ctx.server = lambda i, r: (_ for _ in ()).throw(Violation("a dry run sends a request", key="request"))
            k, r = attempt(ns["run_all"], s, True)
            if k == "raise":
                raise_violation("dry run", r)
            if names(it.getitem(r, 0)) != ops_of(s):
                raise Violation("without a filter not every operation is run", key="run")
        add(f"run:{short}:no filter", R_RUN, unfiltered)

    # no request for operations that are not selected
    SSP = suites[0]

    def only(it):
        seen = []

        def srv(i, r):
            seen.append(r["url"])
            return L.response(i, 200, L.Src("body", json=[("ok", "ok", lambda: lift({"profiles": []}))]))
        State.ctx.server = srv
        k, r = attempt(ns["run"], SSP, "GetDescription", False)
        if k == "raise":
            raise_violation("run with filter", r)
        for u in seen:
            w = u if isinstance(u, str) else B.const_of(u)
            if w not in ("http://h", "http://h/", "http://h/description"):
                raise Violation(f"filter GetDescription sends a request to {show(u)}", key="request")
        if "http://h/description" not in [u if isinstance(u, str) else B.const_of(u) for u in seen]:
            raise Violation("the selected operation is not tested", key="request")
    add("run:requests", R_RUN, only)

    def nothing(it):
        seen = []

        def srv(i, r):
            seen.append(r["url"])
            return L.response(i, 200, L.Src("body", json=[("ok", "ok", lambda: lift({}))]))
        State.ctx.server = srv
        k, r = attempt(ns["run"], SSP, "Nothing", False)
        if k == "raise":
            raise_violation("run with filter", r)
        if len(seen) > 1:
            raise Violation(f"nothing is selected, but a request is sent to {show(seen[1])}", key="request")
    add("run:nothing", R_RUN, nothing)
    return obs


_ops = {}


def ops_of(s):
    return _ops[s]
