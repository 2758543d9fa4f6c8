"""C23: the announced versions and suites are exactly those that are accepted."""
import itertools
from .common import *
from . import docs as D, pkg as P

LEVEL = "other"
R_ANN = "the latest version is announced, and it is the default"
R_UNK = "a version that is not announced => AasTestToolsException, nothing is judged or sent"
R_KNOWN = "every announced version is accepted and gives a verdict on the content"
R_SUITE = "every announced suite can be run; any other => AasTestToolsException and no request"
CLIENT = '''
from aas_test_engines import api, file
from aas_test_engines.config import CheckApiConfig
from aas_test_engines.http import HttpClient

def run(suite, version, dry):
    return api.execute_tests(HttpClient("http://h"), CheckApiConfig(suite, version=version, dry=dry))

def run_default(suite, dry):
    return api.execute_tests(HttpClient("http://h"), CheckApiConfig(suite, dry=dry))
'''
SUITE = "https://admin-shell.io/aas/API/3/0/AssetAdministrationShellRepositoryServiceSpecification/SSP-002"


def text(v):
    w = v if isinstance(v, str) else B.const_of(v)
    if not isinstance(w, str):
        raise core.Unsupported("non-constant version")
    return w


def announced(modname):
    it = interp()
    d = core.force(call(sym(modname, "supported_versions")))
    return {text(k): v for k, v in it.dict_items(d)}


def no_request(i, r):
    raise Violation(f"a request is sent to {show(r['url'])}", key="request")


def obligations(tier):
    obs = []
    ns = client(CLIENT)
    vf, va = announced("file"), announced("api")

    def add(name, rule, fn, **k):
        obs.append(Ob(name, fn, rule, **k))

    for modname, vs in (("file", vf), ("api", va)):
        def ann(it, modname=modname, vs=vs):
            l = text(call(sym(modname, "latest_version")))
            if l not in vs:
                raise Violation(f"{modname}.latest_version() is {l!r}, announced are {sorted(vs)}", key="latest")
        add(f"latest:{modname}", R_ANN, ann)

    # ---------------------------------------------------------------- files
    def inputs(it, form, kind):
        """argument for the data and for the file function"""
        bad = kind == "invalid"
        d = P.env(bad)
        if form == "json":
            return ("check_json_data", lambda: D.jdoc(d)), ("check_json_file", lambda: P.file_of(P.json_src("in", lambda: d)))
        if form == "xml":
            return ("check_xml_data", lambda: D.xdoc(it, "Environment", d)), ("check_xml_file", lambda: P.file_of(P.xml_src(it, "in", lambda: d)))
        z = lambda: P.zip_inst(it, P.standard(it, P.json_src("aasx/data.json", lambda: d), spec_name="aasx/data.json"))
        return ("check_aasx_data", z), ("check_aasx_file", lambda: P.file_of(L.Src("in", zip=[("ok", "ok", z)])))
    others = rx.minus(rx.ANY, rx.words(sorted(vf)))
    # unreadable content is no excuse for an unknown version
    for form, fails in (("json", P.JSON_FAIL), ("xml", P.XML_FAIL), ("aasx", P.ZIP_FAIL)):
        for f in fails:
            def garbage(it, form=form, f=f):
                fn = f"check_{form}_file"
                v = AbsStr(others, name="version")
                k, r = attempt(sym("file", fn), L.model_file(it, L.Src("in", **{"zip" if form == "aasx" else form: [f]})), v)
                if k == "ok":
                    raise Violation(f"{fn} gives a verdict on a file ({f[0]}) with version {v.example()!r}, which is not announced", key="accepted")
                if not is_exc(r, "AasTestToolsException"):
                    raise_violation(f"{fn} with an unknown version", r)
            add(f"unknown:{form}:unreadable:{f[0]}", R_UNK, garbage)

    def empty_package(it):
        v = AbsStr(others, name="version")
        k, r = attempt(sym("file", "check_aasx_data"), P.zip_inst(it, []), v)
        if k == "ok" or not is_exc(r, "AasTestToolsException"):
            raise Violation(f"check_aasx_data gives a verdict on a package without parts with version {v.example()!r}, which is not announced", key="accepted")
    add("unknown:aasx:no parts", R_UNK, empty_package)
    for form, kind, which in itertools.product(("json", "xml", "aasx"), ("valid", "invalid"), (0, 1)):
        def unknown(it, form=form, kind=kind, which=which):
            fn, mk = inputs(it, form, kind)[which]
            v = AbsStr(others, name="version")
            k, r = attempt(sym("file", fn), mk(), v)
            if k == "ok":
                raise Violation(f"{fn} accepts version {v.example()!r}, which is not announced", key="accepted")
            if not is_exc(r, "AasTestToolsException"):
                raise_violation(f"{fn} with an unknown version", r)
        add(f"unknown:{form}:{kind}:{'file' if which else 'data'}", R_UNK, unknown)
        for v in sorted(vf) + [None]:
            def known(it, form=form, kind=kind, which=which, v=v):
                fn, mk = inputs(it, form, kind)[which]
                k, r = attempt(sym("file", fn), mk(), **({} if v is None else {"version": v}))
                if k == "raise":
                    raise_violation(f"{fn} with version {v}", r)
                if bool(ok_of(r)) != (kind == "valid"):
                    raise Violation(f"{fn} with version {v}: {kind} content has verdict ok={ok_of(r)}", key="verdict")
            add(f"known:{form}:{kind}:{'file' if which else 'data'}:{v or 'default'}", R_KNOWN, known)

    # the package check hands its version on
    def near(it):
        for v in ("3", "3.0 ", "3.00", "2.0", "3.1", "", "3.0.0", "v3.0"):
            if v in vf:
                continue
            for form in ("json", "xml", "aasx"):
                for fn, mk in inputs(it, form, "valid"):
                    k, r = attempt(sym("file", fn), mk(), version=v)
                    if k == "ok" or not is_exc(r, "AasTestToolsException"):
                        raise Violation(f"{fn} with version {v!r} does not raise AasTestToolsException", key="accepted")
    add("unknown:similar", R_UNK, near)

    # ---------------------------------------------------------------- servers
    oth = rx.minus(rx.ANY, rx.words(sorted(va) + [""]))
    for dry in (False, True):
        def unk(it, dry=dry):
            State.ctx.server = no_request
            v = AbsStr(oth, name="version")
            k, r = attempt(ns["run"], SUITE, v, dry)
            if k == "ok":
                raise Violation(f"a server check accepts version {v.example()!r}", key="accepted")
            if not is_exc(r, "AasTestToolsException"):
                raise_violation("server check with an unknown version", r)
        add(f"server:unknown version:{'dry' if dry else 'real'}", R_UNK, unk)
        for v, ss in sorted(va.items()):
            names = [text(s) for s in B.iterate(interp(), ss)]

            def unks(it, dry=dry, v=v, names=names):
                State.ctx.server = no_request
                s = AbsStr(rx.minus(rx.ANY, rx.words(names)), name="suite")
                k, r = attempt(ns["run"], s, v, dry)
                if k == "ok":
                    raise Violation(f"an unknown suite is accepted", key="accepted")
                if not is_exc(r, "AasTestToolsException"):
                    raise_violation("server check with an unknown suite", r)
            add(f"server:unknown suite:{v}:{'dry' if dry else 'real'}", R_SUITE, unks)
            if not dry:
                continue
            for n in names:
                for explicit in (True, False):
                    def suite(it, n=n, v=v, explicit=explicit):
                        State.ctx.server = no_request
                        k, r = attempt(ns["run"], n, v, True) if explicit else attempt(ns["run_default"], n, True)
                        if k == "raise":
                            raise_violation(f"dry run of suite {n}", r)
                        res = it.getitem(r, 0)
                        if not ok_of(res):
                            raise Violation(f"dry run of suite {n} fails", key="suite")
                        if not text_has(it.getattr_(res, "message"), n.rsplit("/", 2)[-2]):
                            raise Violation(f"the result of suite {n} is titled {show(it.getattr_(res, 'message'))}", key="suite")
                    add(f"server:suite:{v}:{n.split('/')[-2]}/{n.split('/')[-1]}:{'explicit' if explicit else 'default'}", R_SUITE, suite)

    def count(it):
        if not va or any(not [x for x in B.iterate(it, s)] for s in va.values()):
            raise Violation("no suite is announced", key="suite")
        names = [text(s) for ss in va.values() for s in B.iterate(it, ss)]
        for need in SPECS:
            if need not in names:
                raise Violation(f"suite {need} is not announced", key="suite")
    add("server:announced", R_SUITE, count)
    return obs


# README: supported suites
SPECS = [f"https://admin-shell.io/aas/API/3/0/{n}ServiceSpecification/SSP-002" for n in ("AssetAdministrationShellRepository", "AssetAdministrationShell", "SubmodelRepository", "Submodel")]
