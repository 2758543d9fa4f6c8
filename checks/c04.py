"""C04: checking a file always ends with a verdict, and what cannot be read is never compliant."""
import itertools
from .common import *
from . import docs as D, meta as M, pkg as P
from .c05 import any_json

LEVEL = "other"
R_READ = "a file that cannot be read or parsed => a result with a failing verdict, never an exception"
R_JSON = "every JSON value, as a document or in any place of one => a verdict, never an exception"
R_XML = "every element tree, as a document or in any place of one => a verdict, never an exception"
R_AASX = "every package, whatever its parts contain => a verdict, never an exception"
R_DEEP = "content that is nested deeper than the interpreter can recurse => a failing verdict, never an exception"
R_EDGE = "the verdict on a file equals the verdict on its parsed content"
TYPES = ["Environment", "Submodel", "AssetAdministrationShell", "ConceptDescription", "Property", "Reference"]
FN = {"json": "check_json_file", "xml": "check_xml_file", "aasx": "check_aasx_file"}


def deep_any(label, depth=2):
    """any JSON value with arbitrary members"""
    def obj():
        d = PyDict([(AbsStr(rx.ANY, name=label + ".k"), deep_any(label + ".v", depth - 1) if depth > 1 else any_json(label + ".v"))])
        return d

    def lst():
        return PyList([deep_any(f"{label}[{i}]", depth - 1) if depth > 1 else any_json(f"{label}[{i}]") for i in range(choose(3, label + " length"))])
    return Lazy([("null", lambda: None), ("bool", lambda: AbsBool(label)), ("int", lambda: AbsInt(FreeInt(ISet([(None, None)])), label=label)), ("float", lambda: AbsFloat()), ("str", lambda: AbsStr(rx.ANY, name=label)),
                 ("list", lst), ("empty", lambda: PyDict([])), ("obj", obj)], label)


TAG = "(\\{[^}]*\\})?[A-Za-z_][A-Za-z0-9_.-]*"
TAGS = ["id", "keys", "property", "langStringTextType"]


def any_text(name):
    i = choose(2, name + " text")
    return None if i == 0 else AbsStr(rx.ANY, name=name)


def any_tag(label):
    """any element name: frequent ones of the metamodel, all others at once"""
    i = choose(len(TAGS) + 3, label)
    if i < len(TAGS):
        return D.NS + TAGS[i]
    local = rx.compile_spec("z[a-z]*")  # all other names: C06
    return [AbsStr(rx.concat(rx.word(D.NS), local), name=label), AbsStr(local, name=label), AbsStr(rx.compile_spec("\\{urn:x\\}z[a-z]*"), name=label)][i - len(TAGS)]


def any_elem(it, tag, depth=1, label="e", attrs=True):
    kids = []
    if depth and choose(2, label + " children"):
        kids.append(any_elem(it, any_tag(f"{label}.tag"), depth - 1, f"{label}0", False))
        if kids[0].attrs["text"] is None and choose(2, label + " second child"):
            kids.append(L.element(it, kids[0].attrs["tag"], None, []))
    at = [("id", AbsStr(rx.ANY, name="attr"))] if attrs and not kids and choose(2, label + " attributes") else []
    return L.element(it, tag, any_text(label), kids, at)


def obligations(tier):
    obs = []

    def add(name, rule, fn, **k):
        obs.append(Ob(name, fn, rule, **k))

    def verdict(kv, what, want=None):
        k, v = kv
        if k == "raise":
            raise_violation(f"{what}: the check does not return a verdict", v)
        if not isinstance(v, Inst) or not v.cls.issub(sym("result", "AasTestResult")):
            raise Violation(f"{what}: no result is returned but {show(v)}", key="type")
        ok = ok_of(v)
        walk(v)
        if want is not None and bool(ok) != want:
            raise Violation(f"{what}: the verdict is {'passing' if ok else 'failing'}", key="verdict")
        return bool(ok)

    # ---------------------------------------------------------------- unreadable files
    for form, fails in (("json", P.JSON_FAIL), ("xml", P.XML_FAIL), ("aasx", P.ZIP_FAIL)):
        for f in fails + ([("truncated text", "raise", ("UnicodeDecodeError", "unexpected end of data"))] if form != "aasx" else []):
            for text in (False, True):
                if text and form == "aasx":
                    continue

                def broken(it, form=form, f=f, text=text):
                    src = L.Src("in", **{"zip" if form == "aasx" else form: [f]})
                    verdict(attempt(sym("file", FN[form]), L.model_file(it, src, text)), f"{f[0]} {form} file", False)
                add(f"unreadable:{form}:{f[0]}{':text' if text else ''}", R_READ, broken)
                if form != "aasx":
                    for mt in TYPES[1:]:
                        def broken2(it, form=form, f=f, mt=mt):
                            src = L.Src("in", **{form: [f]})
                            verdict(attempt(sym("file", FN[form]), L.model_file(it, src), model_type=mt), f"{f[0]} {form} file as {mt}", False)
                        if not text:
                            add(f"unreadable:{form}:{f[0]}:{mt}", R_READ, broken2)

    # ---------------------------------------------------------------- file == data
    for form in ("json", "xml"):
        for bad in (False, True):
            def same(it, form=form, bad=bad):
                d = P.env(bad)
                src = P.json_src("in", lambda: d) if form == "json" else P.xml_src(it, "in", lambda: d)
                verdict(attempt(sym("file", FN[form]), P.file_of(src)), f"{'invalid' if bad else 'valid'} {form} file", not bad)
            add(f"same:{form}:{'invalid' if bad else 'valid'}", R_EDGE, same)
    SM = {"modelType": "Submodel", "id": "a"}
    for nm, doc in {"null attribute": {"submodels": None}, "null in submodel": {"submodels": [{**SM, "idShort": None}]}, "null element": {"submodels": [None]}, "nan": {"submodels": float("nan")}, "infinity": {"submodels": [{**SM, "idShort": float("inf")}]},
                    "unknown $ attribute": {"$schema": "x"}, "unknown null": {"x": None}, "empty name": {"": None}, "comment": {"_comment": "x"}, "list": [{}], "list of one": [{"submodels": [SM]}], "text": "{}", "number": 0, "false": False, "null": None,
                    "empty list": {"submodels": []}, "case": {"Submodels": [SM]}, "wrapped": {"environment": {}}, "number text": {"submodels": [{**SM, "idShort": 1}]}, "blank name": {"submodels ": [SM]}, "bool": {"submodels": [{**SM, "id": True}]},
                    "valid submodel": {"submodels": [SM]}, "valid empty": {}}.items():
        def asdata(it, doc=doc, nm=nm):
            verdict(attempt(sym("file", "check_json_data"), lift(doc)), f"data with {nm}", nm.startswith("valid"))
            verdict(attempt(sym("file", "check_json_file"), P.file_of(L.Src("in", json=[("ok", "ok", lambda: lift(doc))]))), f"file with {nm}", nm.startswith("valid"))
        add(f"same:content:{nm}", R_EDGE, asdata)

    # ---------------------------------------------------------------- JSON values
    for mt in TYPES:
        def root(it, mt=mt):
            v = deep_any("document", 1 if tier == "quick" else 2)
            ok = verdict(attempt(sym("file", "check_json_data"), v, model_type=mt), f"any JSON value as {mt}")
            f = core.force(v)
            if ok and not isinstance(f, PyDict):
                raise Violation(f"{show(f)} is accepted as {mt}", key="verdict")
        add(f"json:root:{mt}", R_JSON, root, max_paths=20000)
    for cls, attrs in M.CLASSES.items():
        for n, t, req in attrs:
            def at(it, cls=cls, n=n):
                o = D.minimal(cls)
                o[n] = deep_any(n, 1)
                verdict(D.check_json(D.embed(cls, o)), f"any JSON value as {cls}.{n}")
            if t[0] == "[" or t in M.CLASSES or t in M.ABSTRACT:
                add(f"json:{cls}.{n}", R_JSON, at, max_paths=8000)
    for cls in M.MODEL_TYPED:
        def mtype(it, cls=cls):
            o = D.minimal(cls)
            o["modelType"] = any_json("modelType")
            verdict(D.check_json(D.embed(cls, o)), f"any JSON value as modelType of a {cls}")
        add(f"json:{cls}.modelType", R_JSON, mtype)

    # ---------------------------------------------------------------- nesting
    def nested(n):
        e = {"modelType": "Property", "idShort": "p", "valueType": "xs:int", "value": "1"}
        for i in range(n):
            if i % 3 == 1:
                e = {"modelType": "Entity", "idShort": f"e{i}", "entityType": "CoManagedEntity", "statements": [e]}
            else:
                e = {"modelType": "SubmodelElementCollection", "idShort": f"c{i}", "value": [e]}
        return {"submodels": [{"modelType": "Submodel", "id": "urn:sm", "submodelElements": [e]}]}
    DEPTHS = list(range(16, 100)) if tier != "quick" else list(range(16, 100, 2))
    for form in ("json", "xml"):
        for fn in (FN[form], FN[form].replace("_file", "_data")):
            def deep(it, form=form, fn=fn):
                d = nested(3)
                if fn.endswith("_file"):
                    arg = P.file_of(P.json_src("in", lambda: d) if form == "json" else P.xml_src(it, "in", lambda: d))
                else:
                    arg = lift(d) if form == "json" else D.xdoc(it, "Environment", d)
                lim = DEPTHS[choose(len(DEPTHS), "calls that may be nested")]
                State.ctx.depth_limit, State.ctx.depth_hit = lim, False
                r = attempt(sym("file", fn), arg)
                State.ctx.depth_limit = None
                if State.ctx.depth_hit:
                    verdict(r, f"{form} content that is nested too deeply (the recursion limit is hit at {lim} calls)", False)
                else:
                    verdict(r, f"nested {form} content", True)
            add(f"nested:{fn}", R_DEEP, deep, max_paths=400)

    # ---------------------------------------------------------------- element trees
    def xroot(it):
        t = AbsStr(rx.compile_spec("(\\{[^}]*\\})?[A-Za-z_][A-Za-z0-9_.-]*"), name="tag")
        verdict(D.check_xml(any_elem(it, t, 0)), "any element tree")
    add("xml:root", R_XML, xroot, max_paths=20000)
    for mt in TYPES:
        def xroot2(it, mt=mt):
            verdict(D.check_xml(any_elem(it, D.NS + D.item_tag(mt, None)), model_type=mt), f"any {mt} element")
        add(f"xml:root:{mt}", R_XML, xroot2, max_paths=20000)
    for cls, attrs in M.CLASSES.items():
        for n, t, req in attrs:
            def xat(it, cls=cls, n=n, t=t):
                o = D.minimal(cls)
                e = any_elem(it, D.NS + n, 1, n)
                if n == "lastUpdate" and e.attrs["text"] is not None:
                    e.attrs["text"] = AbsStr(rx.compile_spec("[^0-9]*"), name=n)  # other texts: C08
                o[n] = e
                host = D.embed(cls, o)
                verdict(D.check_xml(D.xdoc(it, "Environment", host)), f"any element as {cls}.{n}")
            add(f"xml:{cls}.{n}", R_XML, xat, max_paths=8000)

    # ---------------------------------------------------------------- packages
    CT, RR, OR, ORR, SP = "[Content_Types].xml", "_rels/.rels", "aasx/aasx-origin", "aasx/_rels/aasx-origin.rels", "aasx/data.json"
    XT = rx.compile_spec("(\\{[^}]*\\})?[A-Za-z_][A-Za-z0-9_.-]*")

    def rel_attr(it, label):
        out = []
        for n in ("Type", "Target"):
            if n == "Type":
                k = choose(3, f"{label} {n}")
                if k:
                    out.append((n, [P.REL + "aasx-origin", AbsStr(rx.compile_spec("[ -~]*"), name=f"{label}.{n}")][k - 1]))
                continue
            ts = ["", "/", "..", "../..", " ", "a//b/.", "/aasx/data.json", "aasx/aasx-origin", "/_rels/.rels", "./x", AbsStr(rx.compile_spec("[^/.\\s][^/]*"), name=f"{label}.{n}")]
            k = choose(len(ts) + 1, f"{label} {n}")
            if k < len(ts):
                out.append((n, ts[k]))
        return out
    for which in (CT, RR, ORR):
        def anypart(it, which=which):
            def mk():
                ns = P.NS_CT + "Types" if which == CT else P.NS_REL + "Relationships"
                kids = []
                for i in range(choose(2, "entries")):
                    kids.append(L.element(it, AbsStr(XT, name="tag") if choose(2, "entry tag") else P.NS_REL + "Relationship", any_text("t"), [], rel_attr(it, f"r{i}")))
                return L.element(it, AbsStr(XT, name="root") if choose(2, "root tag") else ns, any_text("root"), kids)
            parts = P.standard(it, P.json_src(SP, lambda: P.env()), spec_name=SP)
            parts = [(n, L.Src(n, read=[("ok", "ok", lambda: None)] + P.PART_FAIL, xml=[("ok", "ok", mk)] + P.XML_FAIL) if n == which else s) for n, s in parts]
            verdict(attempt(sym("file", "check_aasx_data"), P.zip_inst(it, parts)), f"a package with any {which}")
        add(f"aasx:{which}", R_AASX, anypart, max_paths=8000)

    def anyspec(it):
        s = L.Src(SP, read=[("ok", "ok", lambda: None)] + P.PART_FAIL, json=[("ok", "ok", lambda: any_json("document"))] + P.JSON_FAIL)
        k = attempt(sym("file", "check_aasx_data"), P.zip_inst(it, P.standard(it, s, spec_name=SP)))
        ok = verdict(k, "a package with any JSON specification")
    add("aasx:json specification", R_AASX, anyspec)

    def anyxspec(it):
        n = "aasx/data.xml"
        s = L.Src(n, read=[("ok", "ok", lambda: None)] + P.PART_FAIL, xml=[("ok", "ok", lambda: any_elem(it, AbsStr(XT, name="tag"), 0))] + P.XML_FAIL)
        verdict(attempt(sym("file", "check_aasx_data"), P.zip_inst(it, P.standard(it, s, spec_name=n))), "a package with any XML specification")
    add("aasx:xml specification", R_AASX, anyxspec)
    for drop in range(1, 32):
        def missing(it, drop=drop):
            parts = [p for i, p in enumerate(P.standard(it, P.json_src(SP, lambda: P.env()), spec_name=SP)) if not drop >> i & 1]
            ok = verdict(attempt(sym("file", "check_aasx_data"), P.zip_inst(it, parts)), f"a package with parts {[p[0] for p in parts]}")
            if ok and drop not in (8, 24):  # without relationships of the origin there is nothing to check: a warning
                raise Violation(f"a package with only the parts {[p[0] for p in parts]} passes", key="verdict")
        add(f"aasx:missing parts:{drop}", R_AASX, missing)
    return obs
