"""C21: checks leave no trace - neither their input nor later checks nor the system are affected."""
import itertools
from absint import explore as X
from .common import *
from . import docs as D, pkg as P, c13

LEVEL = "other"
R_IND = "the result of a check is the same whatever was checked before"
R_IN = "a check leaves its input as it was"
R_NOW = "a check judges the content its input has now, not at an earlier check"
R_EFF = "a file check writes nothing, opens no other file and sends nothing"
R_RES = "results are independent objects: changing one changes no other, whatever check it came from"
R_SRV = "repeating a server check sends the same requests and gives the same result; client and configuration stay as they were"
CLIENT = '''
from aas_test_engines import api, file
from aas_test_engines.config import CheckApiConfig, TestCaseFilter
from aas_test_engines.http import HttpClient, Request
from aas_test_engines.result import AasTestResult, Level, start, write, abort

def spoil(result):
    for i in list(result.sub_results):
        spoil(i)
    result.append(AasTestResult("added by the user", Level.CRITICAL))

def fresh(message):
    return AasTestResult(message)

def nested(message, inner):
    with start(message) as r:
        with start(inner):
            write("x")
    return r

def failing(message, inner):
    with start(message, True) as r:
        with start(inner):
            raise ValueError("x")
    return r
'''
SSP = "https://admin-shell.io/aas/API/3/0/"


def environments():
    """plain documents: valid, structurally wrong, violating constraints of various kinds"""
    q = D.minimal
    sm = lambda *els, **k: {"submodels": [{**q("Submodel"), **({"submodelElements": list(els)} if els else {}), **k}]}
    prop = lambda **k: {**q("Property"), **k}
    out = {
        "empty": {},
        "submodel": sm(),
        "full": D.embed("Property", D.full("Property")),
        "shell": {"assetAdministrationShells": [D.full("AssetAdministrationShell")]},
        "concept": {"conceptDescriptions": [D.full("ConceptDescription")]},
        "unknown attribute": sm(x="y"),
        "missing id": {"submodels": [{k: v for k, v in q("Submodel").items() if k != "id"}]},
        "bad idShort": sm(idShort="1 x"),
        "same idShort": sm(prop(idShort="a"), prop(idShort="a")),
        "one idShort": sm(prop(idShort="a"), prop(idShort="b")),
        "bad value": sm(prop(idShort="a", valueType="xs:int", value="x")),
        "good value": sm(prop(idShort="a", valueType="xs:int", value="1")),
        "bad type": {"submodels": [{**q("Submodel"), "modelType": "Nothing"}]},
        "no list": {"submodels": []},
        "wrong kind": {"submodels": "x"},
        "bad version": sm(administration={"version": "x"}),
        "good version": sm(administration={"version": "1", "revision": "2"}),
        "text as version": sm(prop(idShort="a", valueType="xs:string", value="x"), administration={"version": "1"}),
        "long version": sm(administration={"version": "12345"}),
        "long value": sm(prop(idShort="a", valueType="xs:string", value="12345")),
        "empty id": {"submodels": [{**q("Submodel"), "id": ""}]},
        "spaces": sm(prop(idShort="a", valueType="xs:string", value=" x\t")),
        "null": {"submodels": None},
        "mixed case": {"Submodels": [q("Submodel")], "$schema": "x"},
        "bad lang": {"submodels": [{**q("Submodel"), "description": [{"language": "??", "text": "x"}]}]},
        "good lang": {"submodels": [{**q("Submodel"), "description": [{"language": "de", "text": "x"}]}]},
    }
    return out


def snap(v):
    """immutable copy of a document, element tree or object"""
    v = core.force(v)
    if isinstance(v, core.PyDict):
        return ("dict", tuple((snap(k), snap(x)) for k, x in interp().dict_items(v)))
    if isinstance(v, core.PyList):
        return ("list", tuple(snap(x) for x in B.iterate(interp(), v)))
    if isinstance(v, tuple):
        return tuple(snap(x) for x in v)
    if isinstance(v, core.Inst) and v.cls.name == "Element":
        return ("element",) + tuple(snap(v.attrs.get(n)) for n in ("tag", "text", "tail", "attrib")) + (snap(v.data),)
    if isinstance(v, core.Inst):
        return ("object", v.cls.name, tuple((k, snap(x)) for k, x in v.attrs.items()))
    if isinstance(v, AbsStr):
        return ("text", id(v.find()))
    if isinstance(v, (str, int, float, bool, type(None), bytes)):
        return v
    return ("other", id(v))


def tree(r, up=()):
    it = interp()
    if any(x is r for x in up) or len(up) > 200:
        raise Violation(f"entry {show(it.getattr_(r, 'message'))!r} contains itself", key="shared")
    return (show(it.getattr_(r, "message")), level_of(r), tuple(tree(x, up + (r,)) for x in B.iterate(it, it.getattr_(r, "sub_results"))))


def raw(k, v):
    """outcome whose texts are rendered later, when the partition of abstract texts is final"""
    if k == "raise":
        return ("raise", v.cls.name)
    it = interp()
    return ("tree", it.getattr_(v, "message"), level_of(v), [raw("ok", x) for x in B.iterate(it, it.getattr_(v, "sub_results"))])


def text(m):
    if isinstance(m, str):
        return m
    if isinstance(m, core.StrCat):
        return "".join(text(x) for x in m.parts)
    if isinstance(m, AbsStr):
        c = B.const_of(m)
        return c if c is not None else f"<{m.name}>"
    if isinstance(m, core.Part) and isinstance(m.value, AbsStr) and m.kind == "repr":
        c = B.const_of(m.value)
        return repr(c) if c is not None else f"<{m.value.name}!r>"
    return show(m)


def rendered(r):
    return r if r[0] == "raise" else (text(r[1]), r[2], tuple(rendered(x) for x in r[3]))


def outcome(k, v):
    return ("raise", v.cls.name) if k == "raise" else tree(v)


def diff(a, b, path=()):
    if a[0] == "raise" or b[0] == "raise":
        return f"{a[:2]} instead of {b[:2]}"
    if a[:2] != b[:2]:
        return f"entry {a[0]!r} ({a[1]}) instead of {b[0]!r} ({b[1]})"
    for x, y in zip(a[2], b[2]):
        if x != y:
            return diff(x, y)
    return f"{len(a[2])} entries instead of {len(b[2])} below {a[0]!r}"


def pretty(e, depth=0):
    """the same element tree with indentation"""
    kids = e.data.items
    if kids:
        e.attrs["text"] = "\n" + "  " * (depth + 1)
        for k in kids:
            pretty(k, depth + 1)
            k.attrs["tail"] = "\n" + "  " * (depth + 1)
        kids[-1].attrs["tail"] = "\n" + "  " * depth
    return e


FORMS = {
    "json": ("check_json_data", lambda it, d: D.jdoc(d)),
    "xml": ("check_xml_data", lambda it, d: D.xdoc(it, "Environment", d)),
    "indented xml": ("check_xml_data", lambda it, d: pretty(D.xdoc(it, "Environment", d))),
    "json file": ("check_json_file", lambda it, d: P.file_of(P.json_src("in", lambda: d))),
    "xml file": ("check_xml_file", lambda it, d: P.file_of(P.xml_src(it, "in", lambda: d))),
    "aasx": ("check_aasx_data", lambda it, d: P.zip_inst(it, P.standard(it, P.json_src("aasx/data.json", lambda: d), spec_name="aasx/data.json"))),
}
O, S = "aasx/aasx-origin", "aasx/data.json"


def packages(it):
    """packages that share part names but differ in their relationships and contents"""
    T = c13
    R1, R2 = {"": [(T.T_ORIGIN, "/" + O)]}, {O: [(T.T_SPEC, "/" + S)]}
    good = lambda n=S: P.json_src(n, lambda: {"submodels": [D.minimal("Submodel")]})
    bad = lambda n=S: P.json_src(n, lambda: {"submodels": [{**D.minimal("Submodel"), "idShort": "1 x"}]})
    X2 = "aasx/more.json"
    return {
        "good": lambda: T.package(it, {**R1, **R2}, [O], {S: good()}),
        "invalid specification": lambda: T.package(it, {**R1, **R2}, [O], {S: bad()}),
        "no specification": lambda: T.package(it, R1, [O]),
        "missing target": lambda: T.package(it, {**R1, **R2}, [O]),
        "no origin": lambda: T.package(it, {"": []}, [O], {S: bad()}),
        "no root": lambda: T.package(it, {**R2}, [O], {S: good()}),
        "deprecated": lambda: T.package(it, {"": [(P.OLD + "aasx-origin", "/" + O)], O: [(P.OLD + "aas-spec", "/" + S)]}, [O], {S: good()}),
        "two specifications": lambda: T.package(it, {**R1, O: [(T.T_SPEC, "/" + S), (T.T_SPEC, "/" + X2)]}, [O], {S: good(), X2: bad(X2)}),
        "no content types": lambda: T.package(it, {**R1, **R2}, [O], {S: good()}, {T.CT: None}),
        "cycle": lambda: T.package(it, {**R1, O: [(T.T_SPEC, "/" + S), (T.T_SUPPL, "/" + O)], S: [(T.T_SUPPL, "/" + S)]}, [O], {S: good()}),
    }


PACKAGES = ["good", "invalid specification", "no specification", "missing target", "no origin", "no root", "deprecated", "two specifications", "no content types", "cycle"]
BROKEN = {
    "json file": lambda it: P.file_of(L.Src("in", json=P.JSON_FAIL[:1])),
    "xml file": lambda it: P.file_of(L.Src("in", xml=P.XML_FAIL[:1])),
    "aasx file": lambda it: P.file_of(L.Src("in", zip=P.ZIP_FAIL[:1])),
}
BROKEN_FN = {"json file": "check_json_file", "xml file": "check_xml_file", "aasx file": "check_aasx_file"}
HARMLESS = {"cache", "log", "warn", "module-setattr", "mutate-element", "call"}


def obligations(tier):
    obs = []
    ns = client(CLIENT)
    envs = environments()

    def add(name, rule, fn, **k):
        obs.append(Ob(name, fn, rule, **k))

    for n in PACKAGES:
        def pack(it, n=n):
            fn = sym("file", "check_aasx_data")
            want = outcome(*attempt(fn, packages(it)[n]()))
            for p in PACKAGES:
                X.undo(State.ctx.trail)
                del State.ctx.trail[:]
                attempt(fn, packages(it)[p]())
                z = packages(it)[n]()
                for again in ("", " again"):
                    k, v = attempt(fn, z)
                    got = outcome(k, v)
                    if got != want:
                        raise Violation(f"package '{n}' checked{again} after package '{p}': {diff(got, want)}", key="history")
                    if k == "ok":
                        call(ns["spoil"], v)
        add(f"package:{n}", R_IND, pack, max_steps=4000000)

    # any relationship type, any target
    for place in ("origin", "specification", "target"):
        for p in PACKAGES:
            def anyrel(it, place=place, p=p):
                x = AbsStr(rx.compile_spec("[!-~]+" if place != "target" else "[A-Za-z0-9_.-]+"), name=place)
                fn = sym("file", "check_aasx_data")
                O1 = (x if place == "origin" else c13.T_ORIGIN, "/" + O)
                S1 = (x if place == "specification" else c13.T_SPEC, core.cat("/aasx/", x) if place == "target" else "/" + S)
                mk = lambda: c13.package(it, {"": [O1], O: [S1]}, [O], {S: P.json_src(S, lambda: {"submodels": [{**D.minimal("Submodel"), "idShort": "1 x"}]})})
                want = raw(*attempt(fn, mk()))
                X.undo(State.ctx.trail)
                del State.ctx.trail[:]
                attempt(fn, packages(it)[p]())
                got = raw(*attempt(fn, mk()))
                got, want = rendered(got), rendered(want)
                if got != want:
                    raise Violation(f"a package with any {place} is judged differently after package '{p}': {diff(got, want)}", key="history")
            add(f"package:any {place}:after {p}", R_IND, anyrel, max_steps=4000000)

    # the same text at two places
    def place_value(name, x):
        e = {"modelType": "Property", "idShort": "p", "valueType": "xs:string"}
        sm = {"modelType": "Submodel", "id": "urn:s", "submodelElements": [e]}
        if name.startswith("xs:"):
            e.update(valueType=name, value=x)
        elif name in ("idShort", "id"):
            sm[name] = x
        elif name == "key":
            e["valueId"] = {"type": "ExternalReference", "keys": [{"type": "GlobalReference", "value": x}]}
        elif name == "language":
            sm["description"] = [{"language": x, "text": "t"}]
        elif name == "text":
            sm["displayName"] = [{"language": "en", "text": x}]
        elif name == "contentType":
            sm["submodelElements"] = [{"modelType": "Blob", "idShort": "b", "contentType": x}]
        elif name == "base64":
            sm["submodelElements"] = [{"modelType": "Blob", "idShort": "b", "contentType": "a/b", "value": x}]
        elif name == "version":
            sm["administration"] = {"version": x}
        elif name == "enumeration":
            sm["kind"] = x
        return {"submodels": [sm]}
    PLACES = ["idShort", "id", "key", "language", "text", "contentType", "base64", "version", "enumeration", "xs:string", "xs:int", "xs:unsignedByte", "xs:boolean", "xs:decimal", "xs:anyURI", "xs:hexBinary"]
    for a in PLACES:
        for b in PLACES:
            for form in ("json", "xml"):
                if a == b or tier == "quick" and form == "xml" and (PLACES.index(a) + PLACES.index(b)) % 4:
                    continue

                def same(it, a=a, b=b, form=form):
                    x = AbsStr(rx.compile_spec("[ -~]{0,8}"), name="text")
                    want = raw(*check(it, form, place_value(b, x)))
                    X.undo(State.ctx.trail)
                    del State.ctx.trail[:]
                    check(it, form, place_value(a, x))
                    got = raw(*check(it, form, place_value(b, x)))
                    got, want = rendered(got), rendered(want)
                    if got != want:
                        raise Violation(f"a text as {b} is judged differently after the same text as {a}: {diff(got, want)}", key="history")
                add(f"text:{form}:{b}:after {a}", R_IND, same, max_paths=2000, max_steps=4000000)

    def check(it, form, d):
        fn, mk = FORMS[form]
        x = mk(it, d)
        return attempt(sym("file", fn), x)

    def xml_able(form, name):
        return "xml" not in form or name not in ("wrong kind", "bad type", "null", "mixed case")
    docs = [(f, n) for f in FORMS for n in envs if xml_able(f, n)]

    # the documents that are judged, after each of the documents that come before
    before = [("json", n) for n in envs] + [("xml", n) for n in ("submodel", "full", "bad idShort", "same idShort", "missing id", "unknown attribute")]
    before += [("aasx", "submodel"), ("aasx", "bad idShort"), ("json file", "same idShort"), ("xml file", "bad value")]
    for f, n in docs:
        def independent(it, f=f, n=n):
            want = outcome(*check(it, f, envs[n]))
            alone = list(State.ctx.trail)
            X.undo(State.ctx.trail)
            del State.ctx.trail[:]
            prev = []
            for pf, pn in before:
                check(it, pf, envs[pn])
                prev.append(f"{pf} {pn}")
                got = outcome(*check(it, f, envs[n]))
                if got != want:
                    raise Violation(f"{f} document '{n}' after {prev[-1]}: {diff(got, want)}", key="history")
            for b in BROKEN:
                attempt(sym("file", BROKEN_FN[b]), BROKEN[b](it))
                got = outcome(*check(it, f, envs[n]))
                if got != want:
                    raise Violation(f"{f} document '{n}' after an unreadable {b}: {diff(got, want)}", key="history")
        add(f"independent:{f}:{n}", R_IND, independent, max_steps=40000000)

        def first(it, f=f, n=n):
            """every single predecessor, without the document itself having been checked before"""
            want = outcome(*check(it, f, envs[n]))
            pf, pn = before[choose(len(before), "earlier document")]
            X.undo(State.ctx.trail)
            del State.ctx.trail[:]
            check(it, pf, envs[pn])
            got = outcome(*check(it, f, envs[n]))
            if got != want:
                raise Violation(f"{f} document '{n}' after {pf} '{pn}': {diff(got, want)}", key="history")
        if f in ("json", "xml"):
            add(f"first:{f}:{n}", R_IND, first, max_steps=4000000)

    # the input
    for f, n in docs:
        if f.endswith("file"):
            continue

        def unchanged(it, f=f, n=n):
            fn, mk = FORMS[f]
            x = mk(it, envs[n])
            s = snap(x) if f != "aasx" else None
            want = outcome(*attempt(sym("file", fn), x))
            if s is not None and snap(x) != s:
                raise Violation(f"checking the {f} document '{n}' changes it", key="input")
            got = outcome(*attempt(sym("file", fn), x))
            if got != want:
                raise Violation(f"checking the same {f} object '{n}' again: {diff(got, want)}", key="again")
        add(f"input:{f}:{n}", R_IN, unchanged)

    def edited(it):
        x = D.jdoc(envs["good value"])
        a = outcome(*attempt(sym("file", "check_json_data"), x))
        el = it.getitem(it.getitem(it.getitem(it.getitem(x, "submodels"), 0), "submodelElements"), 0)
        B.setitem(it, el, "value", "no number")
        b = outcome(*attempt(sym("file", "check_json_data"), x))
        if a[1] in ("ERROR", "CRITICAL") or b[1] not in ("ERROR", "CRITICAL"):
            raise Violation(f"a document that is made invalid after it was checked has level {b[1]} (before: {a[1]})", key="stale")
        B.setitem(it, el, "value", "2")
        c = outcome(*attempt(sym("file", "check_json_data"), x))
        if c[1] in ("ERROR", "CRITICAL"):
            raise Violation("a document that is made valid after it was checked still fails", key="stale")
    add("edited:json", R_NOW, edited)

    def edited_xml(it):
        x = D.xdoc(it, "Environment", envs["good value"])
        fn = sym("file", "check_xml_data")
        a = outcome(*attempt(fn, x))

        def find(e):
            if e.attrs["tag"].endswith("}value"):
                return e
            for k in B.iterate(it, e.data):
                r = find(k)
                if r is not None:
                    return r
        v = find(x)
        v.attrs["text"] = "no number"
        b = outcome(*attempt(fn, x))
        v.attrs["text"] = "2"
        c = outcome(*attempt(fn, x))
        if a[1] in ("ERROR", "CRITICAL") or b[1] not in ("ERROR", "CRITICAL") or c[1] in ("ERROR", "CRITICAL"):
            raise Violation(f"levels {a[1]}, {b[1]}, {c[1]} of an element tree edited to be valid, invalid and valid", key="stale")
    add("edited:xml", R_NOW, edited_xml)

    # effects
    for f, n in docs:
        def effects(it, f=f, n=n):
            fn, mk = FORMS[f]
            x = mk(it, envs[n])
            n0 = len(State.ctx.effects)
            attempt(sym("file", fn), x)
            for e in State.ctx.effects[n0:]:
                if e[0] not in HARMLESS:
                    raise Violation(f"checking a {f} document has the effect {e[0]} {show(e[1]) if len(e) > 1 and isinstance(e[1], (str, AbsStr, core.StrCat)) else ''}", key="effect")
        add(f"effects:{f}:{n}", R_EFF, effects)
    for b in BROKEN:
        def broken(it, b=b):
            n0 = len(State.ctx.effects)
            attempt(sym("file", BROKEN_FN[b]), BROKEN[b](it))
            for e in State.ctx.effects[n0:]:
                if e[0] not in HARMLESS:
                    raise Violation(f"checking an unreadable {b} has the effect {e[0]}", key="effect")
        add(f"effects:unreadable {b}", R_EFF, broken)

    # results
    for f, n in docs:
        def results(it, f=f, n=n):
            k, v = check(it, f, envs[n])
            if k == "raise":
                return
            want = tree(v)
            call(ns["spoil"], v)
            got = outcome(*check(it, f, envs[n]))
            if got != want:
                raise Violation(f"{f} document '{n}' after the result of an earlier check was changed: {diff(got, want)}", key="shared")
        add(f"results:{f}:{n}", R_RES, results)
    for fnn, args in (("fresh", ("m",)), ("nested", ("m", "i")), ("failing", ("m", "i"))):
        def fresh(it, fnn=fnn, args=args):
            a = call(ns[fnn], *args)
            want = tree(a)
            b = call(ns[fnn], *args)
            call(ns["spoil"], b)
            if tree(a) != want:
                raise Violation(f"changing one result changes another: {diff(tree(a), want)}", key="shared")
            c = call(ns[fnn], *args)
            if tree(c) != want:
                raise Violation(f"a new result is affected by changes of an earlier one: {diff(tree(c), want)}", key="shared")
        add(f"results:{fnn}", R_RES, fresh)

    # servers
    def answer(kind):
        def srv(i, req):
            if kind == "down":
                i.throw(i.import_module("requests.exceptions").ns["ConnectionError"], "refused")
            status = {"good": 200, "missing": 404}[kind]
            src = L.Src("body", json=[("ok", "ok", lambda: lift({"profiles": [SSP + "x"]}))], text=[("ok", "ok", lambda: "body text")])
            return L.response(i, status, src)
        return srv
    suites = [s + "ServiceSpecification/SSP-002" for s in ("AssetAdministrationShellRepository", "AssetAdministrationShell", "SubmodelRepository", "Submodel")]
    for s, kind, flt, dry in itertools.product(suites, ("good", "missing", "down"), (None, "GetDescription", "*Description:*Serial*~Get*Ref*"), (False, True)):
        def server(it, s=s, kind=kind, flt=flt, dry=dry):
            State.ctx.server = answer(kind)
            hc = call(sym("http", "HttpClient"), "http://h/api", remove_path_prefix="/x", additional_headers=lift({"a": "b"}))
            conf = call(sym("config", "CheckApiConfig"), SSP + s, dry=dry, filter=call(sym("config", "TestCaseFilter"), flt) if flt else None)
            s1, s2 = snap(hc), snap(conf)

            def go():
                n0 = len(State.ctx.effects)
                k, v = attempt(sym("api", "execute_tests"), hc, conf)
                reqs = [(e[1]["method"], show(e[1]["url"]), snap(e[1].get("headers")), e[1].get("verify")) for e in State.ctx.effects[n0:] if e[0] == "http"]
                return (("raise", v.cls.name) if k == "raise" else tree(it.getitem(v, 0))), reqs, v
            a, ra, v = go()
            if a[0] != "raise":
                call(ns["spoil"], it.getitem(v, 0))
            if snap(hc) != s1 or snap(conf) != s2:
                raise Violation("a server check changes its client or configuration", key="client")
            b, rb, _ = go()
            if a != b:
                raise Violation(f"repeated server check: {diff(b, a)}", key="history")
            if ra != rb:
                raise Violation(f"repeated server check sends {len(rb)} requests instead of {len(ra)}, or others", key="requests")
            if dry and ra:
                raise Violation(f"a dry run sends {ra[0][1]}", key="dry")
        add(f"server:{s.split('Service')[0]}:{kind}:{flt}:{'dry' if dry else 'real'}", R_SRV, server, max_steps=4000000)
    return obs
