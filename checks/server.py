"""A reference server of the read API (Part 2, 3.0.3) over a fixed content, as a transfer function from requests to responses.
It decides nothing itself: the analyses in c15 and c22 interpret the checks of the package against it and against deviations from it."""
import base64, copy, json
from urllib.parse import urlsplit, parse_qsl, unquote
from .common import *

SSP = "https://admin-shell.io/aas/API/3/0/"
PROFILES = {"aas-repo": SSP + "AssetAdministrationShellRepositoryServiceSpecification/SSP-002", "sm-repo": SSP + "SubmodelRepositoryServiceSpecification/SSP-002",
            "aas": SSP + "AssetAdministrationShellServiceSpecification/SSP-002", "sm": SSP + "SubmodelServiceSpecification/SSP-002"}
HOST = "http://h/api"


def b64(s):
    return base64.urlsafe_b64encode(s.encode()).decode().rstrip("=")


def ref(*keys, ext=False):
    return {"type": "ExternalReference" if ext else "ModelReference", "keys": [{"type": t, "value": v} for t, v in keys]}


def prop(n, v="1"):
    return {"modelType": "Property", "idShort": n, "valueType": "xs:int", "value": v}


SMREF = ref(("Submodel", "urn:sm:1"), ("Property", "prop"))
ALL = {
    "Property": prop("prop"),
    "MultiLanguageProperty": {"modelType": "MultiLanguageProperty", "idShort": "mlp", "value": [{"language": "en", "text": "t"}]},
    "Range": {"modelType": "Range", "idShort": "rng", "valueType": "xs:int", "min": "1", "max": "2"},
    "ReferenceElement": {"modelType": "ReferenceElement", "idShort": "refel", "value": SMREF},
    "RelationshipElement": {"modelType": "RelationshipElement", "idShort": "relel", "first": SMREF, "second": SMREF},
    "AnnotatedRelationshipElement": {"modelType": "AnnotatedRelationshipElement", "idShort": "annrel", "first": SMREF, "second": SMREF, "annotations": [prop("note")]},
    "Blob": {"modelType": "Blob", "idShort": "blob", "contentType": "text/plain", "value": "YWJj"},
    "File": {"modelType": "File", "idShort": "file", "contentType": "text/plain", "value": "/aasx/f.txt"},
    "Entity": {"modelType": "Entity", "idShort": "ent", "entityType": "CoManagedEntity", "statements": [prop("stm")]},
    "BasicEventElement": {"modelType": "BasicEventElement", "idShort": "evt", "observed": SMREF, "direction": "input", "state": "on"},
    "Capability": {"modelType": "Capability", "idShort": "cap"},
    "Operation": {"modelType": "Operation", "idShort": "op"},
    "SubmodelElementCollection": {"modelType": "SubmodelElementCollection", "idShort": "coll", "value": [prop("inner", "2")]},
    "SubmodelElementList": {"modelType": "SubmodelElementList", "idShort": "list", "typeValueListElement": "Property", "valueTypeListElement": "xs:int", "value": [{k: v for k, v in prop("x", "3").items() if k != "idShort"}]},
}


class Content:
    def __init__(self, types=("Property", "File")):
        def shell(i):
            return {"modelType": "AssetAdministrationShell", "id": f"urn:aas:{i}", "idShort": f"aas{i}", "assetInformation": {"assetKind": "Instance", "globalAssetId": f"urn:asset:{i}", "defaultThumbnail": {"path": "/t.png", "contentType": "image/png"},
                    "specificAssetIds": [{"name": "serial", "value": str(i)}]}, "submodels": [ref(("Submodel", "urn:sm:1")), ref(("Submodel", "urn:sm:2"))]}
        self.shells = [shell(1), shell(2)]
        self.submodels = [{"modelType": "Submodel", "id": "urn:sm:1", "idShort": "sm1", "submodelElements": [copy.deepcopy(ALL[t]) for t in types]},
                          {"modelType": "Submodel", "id": "urn:sm:2", "idShort": "sm2", "submodelElements": [prop("p2"), prop("p3")]}]


class Answer:
    """status; body: JSON value, or bytes content (raw)"""
    def __init__(self, status, body=None, raw=None, fail=None, kind=""):
        self.status, self.body, self.raw, self.fail, self.kind = status, body, raw, fail, kind

    def with_(self, **k):
        a = copy.deepcopy(self)
        a.__dict__.update(k)
        return a


def error(status, text):
    return Answer(status, {"messages": [{"code": str(status), "messageType": "Error", "text": text}]}, kind="error")


class Bad(Exception):
    pass


class Reference:
    """answers a request according to the specification"""

    def __init__(self, content, profile):
        self.c, self.profile = content, profile

    def answer(self, method, path, query):
        try:
            if method != "get":
                return error(405, "method")
            return self.route([unquote(x) for x in path.split("/")[1:] if x != ""], dict(query))
        except Bad as e:
            return error(e.args[0], e.args[1])

    # ------------------------------------------------------------ parameters
    def params(self, q):
        if "limit" in q:
            if not q["limit"].isdigit() or int(q["limit"]) < 1:
                raise Bad(400, "limit")
        if q.get("level", "core") not in ("core", "deep"):
            raise Bad(400, "level")
        if q.get("extent", "withBlobValue") not in ("withBlobValue", "withoutBlobValue"):
            raise Bad(400, "extent")
        if q.get("includeConceptDescriptions", "true") not in ("true", "false"):
            raise Bad(400, "includeConceptDescriptions")

    def ident(self, s):
        try:
            if not s or "=" in s or len(s) % 4 == 1:
                raise ValueError(s)
            return base64.b64decode(s + "=" * (-len(s) % 4), altchars=b"-_", validate=True).decode()
        except ValueError:
            raise Bad(400, "identifier is not base64url-encoded")

    def paged(self, items, q, kind):
        i = 0
        if "cursor" in q:
            if not q["cursor"].isdigit() or not 0 < int(q["cursor"]) < max(len(items), 1) + 1:
                raise Bad(400, "cursor")
            i = int(q["cursor"])
        n = int(q.get("limit", 100))
        page = items[i:i + n]
        more = i + n < len(items)
        return Answer(200, {"paging_metadata": {"cursor": str(i + n)} if more else {}, "result": page}, kind=kind)

    # ------------------------------------------------------------ resources
    def route(self, p, q):
        self.params(q)
        prof = self.profile
        if p == []:
            return Answer(200, {}, kind="root")
        if p == ["description"]:
            return Answer(200, {"profiles": [PROFILES[prof]]}, kind="description")
        if p == ["serialization"]:
            return self.serialization(q)
        if prof == "aas-repo" and p[0] == "shells":
            return self.shells(p[1:], q)
        if prof == "aas" and p[0] == "aas":
            return self.shell(self.c.shells[0], p[1:], q)
        if prof == "sm" and p[0] == "submodel":
            return self.submodel(self.c.submodels[0], p[1:], q)
        if prof == "sm-repo" and p[0] == "submodels":
            return self.submodels(p[1:], q, None)
        raise Bad(404, "no such resource")

    def serialization(self, q):
        aas, sms = self.c.shells, self.c.submodels
        for name, of in (("aasIds", "aas"), ("submodelIds", "sms")):
            if name in q:
                ids = [self.ident(x) for x in q[name].split(",")]
                if of == "aas":
                    aas = [s for s in aas if s["id"] in ids]
                else:
                    sms = [s for s in sms if s["id"] in ids]
        if "aasIds" in q and "submodelIds" not in q:
            sms = []
        if "submodelIds" in q and "aasIds" not in q:
            aas = []
        d = {"conceptDescriptions": [{"modelType": "ConceptDescription", "id": "urn:cd:1", "idShort": "cd1"}]} if q.get("includeConceptDescriptions", "true") == "true" else {}
        if aas:
            d["assetAdministrationShells"] = aas
        if sms:
            d["submodels"] = sms
        return Answer(200, copy.deepcopy(d), kind="environment")

    def shells(self, p, q):
        if p in ([], ["$reference"]):
            items = self.c.shells
            if "idShort" in q:
                items = [s for s in items if s["idShort"] == q["idShort"]]
            if "assetIds" in q:
                try:
                    want = json.loads(self.ident(q["assetIds"]))
                    n, v = want["name"], want["value"]
                except (ValueError, KeyError, TypeError):
                    raise Bad(400, "assetIds")
                items = [s for s in items if (n == "globalAssetId" and s["assetInformation"].get("globalAssetId") == v) or any(x["name"] == n and x["value"] == v for x in s["assetInformation"].get("specificAssetIds", []))]
            if p:
                items = [ref(("AssetAdministrationShell", s["id"])) for s in items]
            return self.paged(copy.deepcopy(items), q, "shell references" if p else "shells")
        i = self.ident(p[0])
        for s in self.c.shells:
            if s["id"] == i:
                return self.shell(s, p[1:], q)
        raise Bad(404, "no such shell")

    def shell(self, s, p, q):
        if p == []:
            return Answer(200, copy.deepcopy(s), kind="shell")
        if p == ["$reference"]:
            return Answer(200, ref(("AssetAdministrationShell", s["id"])), kind="reference")
        if p == ["asset-information"]:
            return Answer(200, copy.deepcopy(s["assetInformation"]), kind="asset information")
        if p == ["asset-information", "thumbnail"]:
            return Answer(200, raw="png", kind="file")
        if p == ["submodel-refs"]:
            return self.paged(copy.deepcopy(s.get("submodels", [])), q, "references")
        if p[0] == "submodels" and len(p) > 1:
            return self.submodels(p[1:], q, {r["keys"][0]["value"] for r in s.get("submodels", [])})
        raise Bad(404, "no such resource")

    def submodels(self, p, q, among):
        if p == [] or p[0].startswith("$"):
            if p[1:]:
                raise Bad(404, "no such resource")
            items = [self.form(s, p[0] if p else None, q) for s in self.c.submodels]
            if p == ["$path"]:
                items = [x for i in items for x in i]
            return self.paged(items, q, {None: "submodels", "$metadata": "submodels", "$value": "values", "$reference": "references", "$path": "paths"}[p[0] if p else None])
        i = self.ident(p[0])
        for s in self.c.submodels:
            if s["id"] == i and (among is None or i in among):
                return self.submodel(s, p[1:], q)
        raise Bad(404, "no such submodel")

    def form(self, s, f, q):
        if f is None:
            return copy.deepcopy(s)
        if f == "$metadata":
            return {k: v for k, v in s.items() if k != "submodelElements"}
        if f == "$value":
            return {e["idShort"]: self.value(e) for e in s.get("submodelElements", [])}
        if f == "$reference":
            return ref(("Submodel", s["id"]))
        if f == "$path":
            return [x for e in s.get("submodelElements", []) for x in self.paths(e, e["idShort"])]
        raise Bad(404, "no such serialization")

    def submodel(self, s, p, q):
        if p == [] or len(p) == 1 and p[0].startswith("$"):
            f = p[0] if p else None
            return Answer(200, self.form(s, f, q), kind={None: "submodel", "$metadata": "submodel", "$value": "value", "$reference": "reference", "$path": "path list"}.get(f, ""))
        if p[0] != "submodel-elements":
            raise Bad(404, "no such resource")
        p = p[1:]
        els = s.get("submodelElements", [])
        if p == [] or len(p) == 1 and p[0].startswith("$"):
            f = p[0] if p else None
            if f == "$path":
                items = [x for e in els for x in self.paths(e, e["idShort"])]
            else:
                items = [self.eform(s, e, e["idShort"], f) for e in els]
            return self.paged(items, q, {None: "elements", "$metadata": "elements", "$value": "values", "$reference": "element references", "$path": "paths"}[f])
        e = self.find(els, p[0])
        if p[1:] == ["attachment"]:
            if e["modelType"] != "File":
                raise Bad(404, "no file")
            return Answer(200, raw="text", kind="file")
        if len(p) > 2 or len(p) == 2 and not p[1].startswith("$"):
            raise Bad(404, "no such resource")
        f = p[1] if len(p) == 2 else None
        if f == "$path" and e["modelType"] not in ("SubmodelElementCollection", "SubmodelElementList", "Entity") or f in ("$value", "$metadata") and e["modelType"] in ("Capability", "Operation"):
            raise Bad(404, "not applicable")
        if f == "$path":
            return Answer(200, self.paths(e, p[0]), kind="path list")
        return Answer(200, self.eform(s, e, p[0], f), kind={None: "element", "$metadata": "element metadata", "$value": "value", "$reference": "element reference"}[f])

    def children(self, e):
        return e.get({"SubmodelElementCollection": "value", "SubmodelElementList": "value", "Entity": "statements"}.get(e["modelType"], "-"), [])

    def find(self, els, path):
        toks = path.replace("[", ".[").split(".")
        cur = None
        for i, t in enumerate(toks):
            if t.startswith("["):
                n = t[1:-1]
                if cur is None or cur["modelType"] != "SubmodelElementList" or not n.isdigit() or int(n) >= len(self.children(cur)):
                    raise Bad(404, "no such element")
                cur = self.children(cur)[int(n)]
            else:
                pool = els if cur is None else self.children(cur) if cur["modelType"] != "SubmodelElementList" else []
                cur = next((x for x in pool if x.get("idShort") == t), None)
                if cur is None:
                    raise Bad(404, "no such element")
        return cur

    def paths(self, e, path):
        out = [path]
        for i, c in enumerate(self.children(e)):
            out += self.paths(c, path + (f"[{i}]" if e["modelType"] == "SubmodelElementList" else "." + c["idShort"]))
        return out

    def eform(self, s, e, path, f):
        if f is None:
            return copy.deepcopy(e)
        if f == "$metadata":
            return {k: v for k, v in e.items() if k not in ("value", "min", "max", "statements", "annotations")}
        if f == "$value":
            return self.value(e)
        return ref(("Submodel", s["id"]), (e["modelType"], path))

    def value(self, e):
        k = e["modelType"]
        if k in ("SubmodelElementCollection", "Entity"):
            return {c["idShort"]: self.value(c) for c in self.children(e)}
        if k == "SubmodelElementList":
            return [self.value(c) for c in self.children(e)]
        if k == "Range":
            return {"min": e["min"], "max": e["max"]}
        if k in ("File", "Blob"):
            return {k: e[k] for k in ("contentType", "value") if k in e}
        return {"v": e["value"]} if "value" in e else {}


FAILS = ("ConnectionError", "ReadTimeout", "ChunkedEncodingError", "ContentDecodingError", "TooManyRedirects")
MALFORMED = ("malformed", "raise", (("json.decoder", "JSONDecodeError"), "Expecting value"))
HUGE = ("huge integer", "raise", ("ValueError", "Exceeds the limit (4300 digits) for integer string conversion"))
RAW = {"png": (MALFORMED, [("binary", "raise", ("UnicodeDecodeError", "invalid start byte"))]), "text": (MALFORMED, [("ok", "ok", lambda: "text")]), "html": (MALFORMED, [("ok", "ok", lambda: "<html>")]),
       "empty": (MALFORMED, [("ok", "ok", lambda: "")]), "huge": (HUGE, [("ok", "ok", lambda: "1" * 5000)])}


def respond(i, a):
    """Answer -> abstract response"""
    if a.fail:
        i.throw(i.import_module("requests.exceptions").ns[a.fail], "failed")
    if a.raw is not None:
        js, tx = RAW[a.raw]
        return L.response(i, a.status, L.Src("body", json=[js], text=tx))
    body = a.body
    return L.response(i, a.status, L.Src("body", json=[("ok", "ok", lambda: lift(body))], text=[("ok", "ok", lambda: json.dumps(body))]))


def parse(req):
    u = req["url"]
    u = u if isinstance(u, str) else B.const_of(u)
    if u is None:
        raise core.Unsupported("request with an unknown url")
    m = req["method"]
    m = (m if isinstance(m, str) else B.const_of(m)).lower()
    if not u.startswith(HOST):
        raise Violation(f"request to {u}", key="host")
    sp = urlsplit(u[len(HOST):])
    return m, sp.path, parse_qsl(sp.query, keep_blank_values=True)


def ops_of(it, profile):
    """names of the operations of a profile, in order"""
    av = it.import_module("aas_test_engines.test_cases.v3_0.api").ns["available_suites"]
    return [it.getattr_(it.getitem(t, 1), "operation") for t in B.iterate(it, it.getitem(av, PROFILES[profile]))]


def run(it, profile, op, server, dry=False):
    """interpret the check of one operation; ('ok'|'raise', value)"""
    State.ctx.server = server
    hc = call(sym("http", "HttpClient"), HOST)
    flt = call(sym("config", "TestCaseFilter"), op) if op else None
    conf = call(sym("config", "CheckApiConfig"), PROFILES[profile], dry=dry, filter=flt)
    return attempt(sym("api", "execute_tests"), hc, conf)
