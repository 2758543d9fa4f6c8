"""C03: the command line checks the given file or server as requested and its exit status is the verdict."""
import itertools
from .common import *
from . import docs as D, pkg as P, c02

LEVEL = "other"
SSP = "https://admin-shell.io/aas/API/3/0/AssetAdministrationShellRepositoryServiceSpecification/SSP-002"
R_EXIT = "exit status 0 <=> the library's verdict on the same input is ok"
R_OUT = "the report printed is the complete result in the requested format"
R_FMT = "the file is judged in the requested format and as the requested model type"
R_ARG = "invalid invocations end with a non-zero status and check nothing"
R_SRV = "check_server hands host, headers, TLS, prefix, suite, version, filter and dry run to the check"
R_GEN = "generate_files refuses existing directories and writes only into the new one"


def cli(*argv):
    """('exit', code) | ('raise', exc) of one invocation; plus what it printed"""
    it = interp()
    it.import_module("sys").ns["argv"].items[:] = ["aas_test_engines"] + list(argv)
    n0 = len(State.ctx.effects)
    State.ctx.strict_out = True  # like the standard output of a process
    k, v = attempt(sym("__main__", "main"))
    State.ctx.strict_out = False
    eff = State.ctx.effects[n0:]
    if k == "raise" and is_exc(v, "SystemExit"):
        a = v.attrs.get("args", ())
        code = core.force(a[0]) if a else None
        return ("exit", 0 if code is None else int(code) % 256 if isinstance(code, (int, bool)) else 1), eff, None  # the system keeps eight bits
    if k == "raise":
        return ("exit", 1), eff, v
    return ("exit", 0), eff, None


def out(eff):
    ps = []
    for e in eff:
        if e[0] == "print":
            for p in c02.flat(e[1]):
                if ps and isinstance(ps[-1], str) and isinstance(p, str):
                    ps[-1] += p
                elif p != "":
                    ps.append(p)
    return core.StrCat(ps) if len(ps) != 1 else ps[0]


def writes(eff):
    return [e for e in eff if e[0] in ("open-write", "write", "zip-write") or e[0].startswith("os.") and e[0] not in ("os.exists",)]


def rendered(result, form):
    """what the library renders for this result"""
    n0 = len(State.ctx.effects)
    if form == "text":
        meth(result, "dump")
        return out(State.ctx.effects[n0:])
    if form == "html":
        call(interp().builtins["print"], meth(result, "to_html"))
    else:
        call(interp().builtins["print"], call(interp().import_module("json").ns["dumps"], meth(result, "to_dict")))
    return out(State.ctx.effects[n0:])


def obligations(tier):
    obs = []
    main = sym("__main__", "main")

    def add(name, rule, fn, **k):
        obs.append(Ob(name, fn, rule, **k))

    def doc_of(kind):
        return {"valid": lambda: P.env(), "invalid": lambda: P.env(True)}[kind]

    def source(it, form, kind):
        if kind == "broken":
            return L.Src("in", json=P.JSON_FAIL, xml=P.XML_FAIL, zip=P.ZIP_FAIL)
        d = doc_of(kind)()
        if form == "json":
            return L.Src("in", json=[("ok", "ok", lambda: D.jdoc(d))], xml=P.XML_FAIL[:1], zip=P.ZIP_FAIL[:1])
        if form == "xml":
            return L.Src("in", xml=[("ok", "ok", lambda: D.xdoc(it, "Environment", d))], json=P.JSON_FAIL[:1], zip=P.ZIP_FAIL[:1])
        spec = L.Src("spec", json=[("ok", "ok", lambda: D.jdoc(d))])
        return L.Src("in", zip=[("ok", "ok", lambda: P.zip_inst(it, P.standard(it, spec)))], json=P.JSON_FAIL[:1], xml=P.XML_FAIL[:1])
    FN = {"json": "check_json_file", "xml": "check_xml_file", "aasx": "check_aasx_file"}
    for form, kind, output, default in itertools.product(("json", "xml", "aasx"), ("valid", "invalid", "broken"), ("text", "json", "html"), (False, True)):
        if default and output != "text" and form != "aasx":
            continue

        def run(it, form=form, kind=kind, output=output, default=default):
            src = source(it, form, kind)
            State.ctx.files = {"in": src}
            argv = ["check_file", "in"]
            if not (default and form == "aasx"):
                argv += ["--format", form]
            if not (default and output == "text"):
                argv += ["--output", output]
            (_, code), eff, exc = cli(*argv)
            if exc is not None:
                raise_violation(f"check_file {' '.join(argv[1:])}", exc)
            want = call(sym("file", FN[form]), P.file_of(src))
            ok = ok_of(want)
            if (kind == "valid") != bool(ok):
                raise Violation(f"a {kind} {form} file has verdict ok={ok}", key="verdict")
            if (code == 0) != bool(ok):
                raise Violation(f"check_file exits with {code} although the verdict is {'ok' if ok else 'not ok'}", key="exit")
            if writes(eff):
                raise Violation(f"check_file writes: {writes(eff)[0]}", key="write")
            got = out(eff)
            exp = rendered(want, output)
            P.known(got)
            if not P.same_value(got, exp):
                raise Violation(f"check_file --output {output} prints {show(got)[:150]!r}, the result renders as {show(exp)[:150]!r}", key="output")
        add(f"file:{form}:{kind}:{output}{':default' if default else ''}", R_EXIT, run)
    # findings quote the content, whatever characters it has
    for where, output in itertools.product(("attribute", "literal"), ("text", "json", "html")):
        def odd(it, where=where, output=output):
            d = P.env()
            if where == "attribute":
                d["a\ud800"] = "x"
            else:
                d["submodels"][0]["modelType"] = "a\ud800"
            State.ctx.files = {"in": L.Src("in", json=[("ok", "ok", lambda: D.jdoc(d))])}
            (_, code), eff, exc = cli("check_file", "in", "--format", "json", "--output", output)
            if exc is not None:
                raise_violation(f"check_file --output {output} of a file with a lone surrogate in its content", exc)
            want = call(sym("file", "check_json_file"), P.file_of(State.ctx.files["in"]))
            if (code == 0) != bool(ok_of(want)):
                raise Violation(f"check_file exits with {code} although the verdict is {'ok' if ok_of(want) else 'not ok'}", key="exit")
            got, exp = out(eff), rendered(want, output)
            P.known(got)
            if not P.same_value(got, exp):
                raise Violation(f"check_file --output {output} prints {show(got)[:150]!r}, the result renders as {show(exp)[:150]!r}", key="output")
        add(f"file:surrogate:{where}:{output}", R_EXIT, odd)
    # wrong format: a json file is no xml file, ...
    for form, other in itertools.permutations(("json", "xml", "aasx"), 2):
        def wrong(it, form=form, other=other):
            State.ctx.files = {"in": source(it, form, "valid")}
            (_, code), eff, exc = cli("check_file", "in", "--format", other)
            if exc is not None:
                raise_violation("check_file", exc)
            if code == 0:
                raise Violation(f"a {form} file passes as {other}", key="format")
        add(f"file:{form} as {other}", R_FMT, wrong)
    # model types
    for form, mt in itertools.product(("json", "xml"), ("Environment", "Submodel", "AssetAdministrationShell", "ConceptDescription", "Property")):
        for doc in ("Environment", "Submodel", "AssetAdministrationShell", "Property"):
            def model(it, form=form, mt=mt, doc=doc):
                o = P.env() if doc == "Environment" else D.minimal(doc)
                src = L.Src("in", json=[("ok", "ok", lambda: D.jdoc(o))], xml=[("ok", "ok", lambda: D.xdoc(it, doc, o))])
                State.ctx.files = {"in": src}
                (_, code), eff, exc = cli("check_file", "in", "--format", form, "--model_type", mt)
                if exc is not None:
                    raise_violation(f"check_file --model_type {mt}", exc)
                want = call(sym("file", FN[form]), P.file_of(src), model_type=mt)
                if (code == 0) != bool(ok_of(want)):
                    raise Violation(f"--model_type {mt} on a {doc}: exit status {code}, verdict ok={ok_of(want)}", key="model")
                if doc == mt and code != 0:
                    raise Violation(f"a valid {doc} is rejected as {mt}", key="model")
                if doc != mt and code == 0:
                    raise Violation(f"a {doc} is accepted as {mt}", key="model")
            add(f"model:{form}:{doc} as {mt}", R_FMT, model)

    for n in (1, 2, 255, 256, 257, 512):
        def many(it, n=n):
            State.ctx.files = {"in": L.Src("in", json=[("ok", "ok", lambda: lift({f"unknown{i}": 1 for i in range(n)}))])}
            (_, code), eff, exc = cli("check_file", "in", "--format", "json")
            if code == 0:
                raise Violation(f"a document with {n} unknown attributes: exit status 0", key="exit")
        add(f"number of errors:{n}", R_EXIT, many)

    def bad(name, argv, files=None):
        def fn(it):
            State.ctx.files = files(it) if files else {"in": source(it, "json", "valid")}
            State.ctx.server = lambda i, r: (_ for _ in ()).throw(Violation(f"a request is sent: {show(r['url'])}", key="request"))
            (_, code), eff, exc = cli(*argv)
            if code == 0:
                raise Violation(f"{' '.join(str(x) for x in argv)} exits with status 0", key="exit")
            if writes(eff):
                raise Violation(f"writes: {writes(eff)[0]}", key="write")
        add(name, R_ARG, fn)
    bad("no command", [])
    bad("unknown command", [AbsStr(rx.minus(rx.compile_spec("[a-z_-]*"), rx.words(["check_file", "check_server", "generate_files"])), name="command")] if False else ["check"])
    bad("missing file", ["check_file", "missing", "--format", "json"])
    bad("no file", ["check_file"])
    bad("bad format", ["check_file", "in", "--format", "yaml"])
    bad("bad output", ["check_file", "in", "--format", "json", "--output", "pdf"])
    bad("aasx model type", ["check_file", "in", "--model_type", "Submodel"])
    for mt in ("Submodel", "environment", "Environmen", "", "NoSuchModel", "Property"):
        bad(f"aasx model type:{mt}", ["check_file", "in", "--model_type", mt], lambda it: {"in": source(it, "aasx", "valid")})
        bad(f"aasx model type 2:{mt}", ["check_file", "in", "--format", "aasx", "--model_type", mt], lambda it: {"in": source(it, "aasx", "valid")})
    for form in ("json", "xml"):
        for mt in ("environment", "Environmen", "", "NoSuchModel", "Submode"):
            bad(f"{form} model type:{mt}", ["check_file", "in", "--format", form, "--model_type", mt], lambda it, form=form: {"in": source(it, form, "valid")})
    bad("server:no suite", ["check_server", "http://h"])
    bad("server:unknown suite", ["check_server", "http://h", "NoSuchSuite"])
    bad("server:ambiguous suite", ["check_server", "http://h", "SSP-002"])
    bad("server:ambiguous suite 2", ["check_server", "http://h", "RepositoryServiceSpecification"])
    for c in ("submodelservicespecification/ssp-001", SSP.upper(), SSP.lower(), SSP + " ", " " + SSP, SSP + "/", "SSP-001", "001", "2", "/", "", "s", "Specification", "https://admin-shell.io/aas/API/3/0/", "*", SSP.replace(".", "?"), ".*", SSP[:-1] + "."):
        bad(f"server:suite {c!r}", ["check_server", "http://h", c])
        bad(f"server:suite {c!r}:dry", ["check_server", "http://h", c, "--dry"])
    bad("server:unknown version", ["check_server", "http://h", SSP, "--version", "2.0"])
    bad("server:bad filter", ["check_server", "http://h", SSP, "--filter", "a~b~c"])
    bad("server:bad header", ["check_server", "http://h", SSP, "--header", "NoColon"])
    bad("server:bad output", ["check_server", "http://h", SSP, "--output", "pdf"])

    # server
    def answers(it, profiles=None, status=200):
        def srv(i, req):
            src = L.Src("body", json=[("ok", "ok", lambda: lift({"profiles": [SSP] if profiles is None else profiles}))], text=[("ok", "ok", lambda: "body text")])
            return L.response(i, status, src)
        return srv

    def down(i, req):
        i.throw(i.import_module("requests.exceptions").ns["ConnectionError"], "refused")
    base = ["check_server", "http://h/api", SSP, "--filter", "GetDescription"]
    for name, srv, ok in (("good", lambda it: answers(it), True), ("other profile", lambda it: answers(it, ["x"]), True), ("404", lambda it: answers(it, None, 404), False),
                          ("500", lambda it: answers(it, None, 500), False), ("unreachable", lambda it: down, False)):
        for output in ("text", "json", "html"):
            def server(it, srv=srv, ok=ok, output=output, name=name):
                State.ctx.server = srv(it)
                (_, code), eff, exc = cli(*base, "--output", output)
                if exc is not None:
                    raise_violation("check_server", exc)
                if (code == 0) != ok:
                    raise Violation(f"check_server exits with {code} when the server answers: {name}", key="exit")
                # the report is that of the library call
                hc = call(sym("http", "HttpClient"), "http://h/api", verify=True)
                conf = call(sym("config", "CheckApiConfig"), SSP, filter=call(sym("config", "TestCaseFilter"), "GetDescription"))
                res = call(sym("api", "execute_tests"), hc, conf)
                r = it.getitem(res, 0)
                if bool(ok_of(r)) != ok:
                    raise Violation(f"verdict is ok={ok_of(r)} when the server answers: {name}", key="verdict")
                if not P.same_value(out(eff), rendered(r, output)):
                    raise Violation(f"check_server --output {output} does not print the result", key="output")
            add(f"server:{name}:{output}", R_EXIT, server)

    def requests_of(eff):
        return [e[1] for e in eff if e[0] == "http"]

    def opts(name, argv, judge, n=None):
        def fn(it):
            State.ctx.server = answers(it)
            (_, code), eff, exc = cli(*(argv() if callable(argv) else argv))
            if exc is not None:
                raise_violation("check_server", exc)
            rs = requests_of(eff)
            if n is None and not rs:
                raise Violation("no request is sent", key="none")
            judge(it, rs, code)
        add(f"option:{name}", R_SRV, fn)

    def const(v):
        v = core.force(v)
        return v if isinstance(v, (str, bool, int)) or v is None else B.const_of(v) if hasattr(B, "const_of") else v

    def dry(it, rs, code):
        if rs:
            raise Violation(f"a dry run sends a request to {show(rs[0]['url'])}", key="dry")
        if code != 0:
            raise Violation("a dry run fails", key="dry")
    for s in ("AssetAdministrationShellRepositoryServiceSpecification", "SubmodelRepositoryServiceSpecification", "AssetAdministrationShellServiceSpecification", "3/0/SubmodelServiceSpecification"):
        opts(f"dry:{s}", ["check_server", "http://h", s, "--dry"], dry, 0)
    opts("dry:filter", ["check_server", "http://h", SSP, "--dry", "--filter", "Get*"], dry, 0)

    def hosts(it, rs, code):
        for r in rs:
            u = const(r["url"])
            if not isinstance(u, str) or not (u == "http://h/api" or u.startswith("http://h/api/")):
                raise Violation(f"request to {show(r['url'])} instead of the given server", key="host")
    opts("host", base, hosts)
    opts("host slash", ["check_server", "http://h/api/", SSP, "--filter", "GetDescription"], hosts)

    for h in ("http://h", "https://h:8080", "http://h/api/v3.0", "http://h/api/api/", "http://H/Api", "http://[::1]:80/x", "https://u:p@h/y", "http://h/a%20b", "http://localhost"):
        def where(it, rs, code, h=h):
            for r in rs:
                u = const(r["url"])
                if u not in (h, h.rstrip("/"), h.rstrip("/") + "/", h.rstrip("/") + "/description"):
                    raise Violation(f"request to {show(r['url'])} instead of the given server {h}", key="host")
        opts(f"host:{h}", ["check_server", h, SSP, "--filter", "GetDescription"], where)

    def tls(flag):
        def j(it, rs, code):
            for r in rs:
                v = r.get("verify", True)
                if const(v) is not flag:
                    raise Violation(f"TLS verification is {v} where {flag} was requested", key="verify")
        return j
    opts("verify", base, tls(True))
    opts("no-verify", base + ["--no-verify"], tls(False))

    def header(names):
        def j(it, rs, code):
            for r in rs:
                h = {}
                for src in (r.get("session_headers"), r.get("headers")):
                    if isinstance(src, PyDict):
                        for k, v in it.dict_items(src):
                            h[const(k)] = v
                for n, v in names.items():
                    if n not in h:
                        raise Violation(f"header {n} is not sent", key="header")
                    if v is not None and const(h[n]) != v:
                        raise Violation(f"header {n} is sent as {show(h[n])}", key="header")
        return j
    opts("header", base + ["--header", "Authorization: Basic abc"], header({"Authorization": "Basic abc"}))
    opts("header colon", base + ["--header", "X-Url:http://a:8080/x"], header({"X-Url": "http://a:8080/x"}))
    opts("header blanks", base + ["--header", " X-Key \t:  v w  "], header({"X-Key": "v w"}))
    opts("header empty", base + ["--header", "X-Key:"], header({"X-Key": ""}))
    opts("headers:three", base + ["--header", "A:1", "B:2", "C:3"], header({"A": "1", "B": "2", "C": "3"}))
    opts("headers", base + ["--header", "A: 1", "B:2"], header({"A": "1", "B": "2"}))

    def prefix(it, rs, code):
        us = [const(r["url"]) for r in rs]
        if "http://h/api" + "/description" in us:
            raise Violation("--remove-path-prefix is not applied", key="prefix")
    opts("remove-path-prefix", base + ["--remove-path-prefix", "/description"], prefix)

    def only(it, rs, code):
        for r in rs:
            u = const(r["url"])
            if u not in ("http://h/api", "http://h/api/", "http://h/api/description"):
                raise Violation(f"--filter GetDescription sends a request to {show(r['url'])}", key="filter")
    opts("filter", base, only)
    opts("suite substring", ["check_server", "http://h/api", "AssetAdministrationShellRepository", "--filter", "GetDescription"], only)

    # generate_files
    def gen(kind):
        def fn(it):
            State.ctx.memo[("path", L.val_key("/tmp/target"))] = kind
            (_, code), eff, exc = cli("generate_files", "/tmp/target")
            if kind:
                if code == 0 or writes(eff):
                    raise Violation("an existing path is accepted", key="exists")
                return
            for w in writes(eff):
                p = const(w[1])
                if not isinstance(p, str) or not (p == "/tmp/target" or p.startswith("/tmp/target/")):
                    raise Violation(f"writes outside of the directory: {show(w[1])}", key="outside")
            if exc is not None:
                raise_violation("generate_files", exc)
        return fn
    add("generate_files", R_GEN, gen(0))
    add("generate_files:existing file", R_GEN, gen(1))
    add("generate_files:existing directory", R_GEN, gen(2))
    return obs
