"""C15: a conforming server passes every operation, a deviating response is reported by the operation it is given to."""
import copy
from .common import *
from . import server as S

LEVEL = "other"
R_OK = "a server that answers every request as specified passes"
R_STATUS = "a response with another status than expected fails the operation"
R_JSON = "a response that is not JSON fails the operation"
R_SHAPE = "a response whose JSON has not the specified structure fails the operation"
R_SEM = "a response with other content than requested fails the operation"
R_NEG = "accepting an invalid argument fails the operation"
R_CONN = "an unreachable server fails"
R_SUM = "the summary counts the steps of the negative and positive tests and failing ones among them"
R_SCOPE = "a deviation of one operation is reported there and does not change the verdict on the others"
PAGED = ("shells", "shell references", "references", "submodels", "values", "paths", "elements", "element references")
REQUIRED = {"shell": ["id", "assetInformation", "modelType"], "reference": ["type", "keys"], "element reference": ["type", "keys"], "asset information": ["assetKind"], "submodel": ["id", "modelType"], "environment": [], "description": ["profiles"], "element": ["modelType"]}
ITEM = {"shells": ["id", "assetInformation"], "shell references": ["type", "keys"], "references": ["type", "keys"], "submodels": ["id"], "elements": ["modelType"], "element references": ["type", "keys"]}


def status(a, q):
    ok = [404, 400, 201, 204, 500, 503] if a.status == 200 else [200, 302, 500, 501]
    for c in ok:
        yield f"status {c}", a.with_(status=c)
    if a.status == 200:
        yield "error 404", S.error(404, "x")
        yield "error 500", S.error(500, "x")


def notjson(a, q):
    if a.raw is not None:
        return
    for r in ("html", "empty"):
        yield f"not JSON ({r})", a.with_(raw=r)
    for v in (5, "x", True, None):
        yield f"scalar {v!r}", a.with_(body=v)


def without(d, k):
    return {x: y for x, y in d.items() if x != k}


def shape(a, q):
    if a.raw is not None:
        return
    if a.kind == "error":
        for n, v in (("array", []), ("messages no list", {"messages": "x"}), ("message no object", {"messages": ["x"]}), ("unknown type", {"messages": [{"messageType": "Nope"}]}), ("text no string", {"messages": [{"text": 5}]})):
            yield f"error: {n}", a.with_(body=v)
        return
    if a.kind in PAGED:
        yield "array", a.with_(body=a.body["result"])
        yield "empty object", a.with_(body={})
        yield "no paging_metadata", a.with_(body=without(a.body, "paging_metadata"))
        yield "no result", a.with_(body=without(a.body, "result"))
        yield "result no list", a.with_(body={**a.body, "result": {}})
        yield "paging_metadata no object", a.with_(body={**a.body, "paging_metadata": []})
        yield "cursor no string", a.with_(body={**a.body, "paging_metadata": {"cursor": 5}})
        if a.kind in ("paths",):
            yield "path no string", a.with_(body={**a.body, "result": [5]})
        for i in range(len(a.body["result"])):
            for k in ITEM.get(a.kind, []):
                r = copy.deepcopy(a.body["result"])
                r[i] = without(r[i], k)
                yield f"item {i} without {k}", a.with_(body={**a.body, "result": r})
            if a.kind in ITEM:
                r = copy.deepcopy(a.body["result"])
                r[i] = "x"
                yield f"item {i} no object", a.with_(body={**a.body, "result": r})
        return
    if a.kind == "path list":
        yield "object", a.with_(body={})
        yield "path no string", a.with_(body=[5])
        return
    if a.kind in REQUIRED:
        yield "array", a.with_(body=[a.body])
        for k in REQUIRED[a.kind]:
            yield f"without {k}", a.with_(body=without(a.body, k))
            yield f"{k} no value", a.with_(body={**a.body, k: 5})
    if a.kind == "environment":
        yield "submodels no list", a.with_(body={**a.body, "submodels": {}})


class Ignores(S.Reference):
    """a server with one systematic fault on the resources of one operation"""

    def __init__(self, content, profile, fault):
        super().__init__(content, profile)
        self.fault = fault

    def answer(self, method, path, query):
        q = [(k, v) for k, v in query if k != self.fault]
        a = super().answer(method, path, query)
        if a.status != 200 or a.raw is not None:
            return a
        if self.fault in ("limit", "idShort", "assetIds", "cursor") and q != list(query):
            b = super().answer(method, path, q)
            return b
        if self.fault == "no result for idShort" and any(k == "idShort" for k, v in query) or self.fault == "no result for assetIds" and any(k == "assetIds" for k, v in query):
            return a.with_(body={"paging_metadata": {}, "result": []})
        if self.fault == "another idShort" and any(k == "idShort" for k, v in query):
            return a.with_(body={**a.body, "result": [{**x, "idShort": "other"} if "idShort" in x else x for x in a.body["result"]]})
        if self.fault == "another entity":
            last = [x for x in path.split("/") if x and not x.startswith("$")][-1:]
            if last in ([S.b64("urn:aas:1")], [S.b64("urn:sm:1")]) and not path.startswith("/serialization"):
                if a.kind in ("shell", "submodel"):
                    return a.with_(body={**a.body, "id": "urn:other"})
                if a.kind == "reference":
                    return a.with_(body={**a.body, "keys": [{**a.body["keys"][0], "value": "urn:other"}]})
        return a


SYSTEMATIC = {"limit": lambda o: o.startswith("GetAll"), "idShort": lambda o: o.startswith("GetAllAssetAdministrationShells"), "no result for idShort": lambda o: o.startswith("GetAllAssetAdministrationShells"),
              "another idShort": lambda o: o == "GetAllAssetAdministrationShells", "no result for assetIds": lambda o: o.startswith("GetAllAssetAdministrationShells"),
              "another entity": lambda o: o in ("GetAssetAdministrationShellById", "GetAssetAdministrationShellById-Reference", "GetSubmodelById", "GetSubmodelById-Metadata", "GetSubmodelById-Reference")}


def accepted(a, q, prof, path):
    """the invalid argument is ignored"""
    if a.kind != "error":
        return
    q = [(k, v) for k, v in q if not (k in ("limit",) and v.startswith("-") or "#" in v or "invalid" in v)]
    path = path.replace("invalid-base64url=====", S.b64("urn:sm:1") if "/submodels/" in path or path.startswith("/submodels") else S.b64("urn:aas:1"))
    b = S.Reference(S.Content(), prof).answer("get", path, q)
    if b.status == 200:
        yield "accepted", b


KINDS = {"status": (R_STATUS, lambda a, q, prof, path: status(a, q)), "json": (R_JSON, lambda a, q, prof, path: notjson(a, q)), "shape": (R_SHAPE, lambda a, q, prof, path: shape(a, q)), "accept": (R_NEG, accepted)}


def label(prof, path, q):
    p = "/".join("{id}" if S.b64("urn:sm:1") in x or S.b64("urn:aas:1") in x or x.startswith("invalid-base64") and False else x for x in path.split("/"))
    return p + ("?" + "&".join(f"{k}={v}" for k, v in q) if q else "")


def obligations(tier):
    obs = []
    it0 = interp()

    def add(name, rule, fn, **k):
        obs.append(Ob(name, fn, rule, **{**dict(max_steps=60000000, max_seconds=300, max_paths=4000), **k}))

    def verdict(it, k, v, what):
        if k == "raise":
            return None
        return it.getitem(v, 0)
    done = set()
    for prof in S.PROFILES:
        for op in dict.fromkeys(S.ops_of(it0, prof)):
            for tag, types in (("all elements", tuple(S.ALL)), ("two elements", ("Property", "File")), ("nested", ("SubmodelElementCollection", "Entity"))):
                def conf(it, prof=prof, op=op, types=types):
                    r = S.Reference(S.Content(types), prof)

                    def srv(i, req):
                        return S.respond(i, r.answer(*S.parse(req)))
                    k, v = S.run(it, prof, op, srv)
                    if k == "raise":
                        raise_violation("check of a conforming server", v)
                    res = it.getitem(v, 0)
                    if not ok_of(res):
                        bad = [m for d, m, l, n in walk(res) if l in ("ERROR", "CRITICAL")]
                        raise Violation(f"{op} ({prof}): a conforming server fails with {show(bad[-1])[:150]}", key="conforming")
                    m = it.getitem(v, 1)
                    if it.getattr_(m, "invalid_accepted") != 0 or it.getattr_(m, "valid_rejected") != 0:
                        raise Violation(f"{op} ({prof}): a conforming server passes, but the summary counts failures", key="summary")
                    if it.getattr_(m, "valid_accepted") == 0:
                        raise Violation(f"{op} ({prof}): no positive test is counted", key="summary")
                add(f"conforming:{prof}:{op}:{tag}", R_OK, conf)
            if tier == "quick" and op in done:
                continue
            done.add(op)
            for fault, applies in SYSTEMATIC.items():
                if not applies(op):
                    continue

                def faulty(it, prof=prof, op=op, fault=fault):
                    r = Ignores(S.Content(), prof, fault)
                    k, v = S.run(it, prof, op, lambda i, req: S.respond(i, r.answer(*S.parse(req))))
                    if k == "ok" and ok_of(it.getitem(v, 0)):
                        raise Violation(f"{op} ({prof}): a server passes that has this fault: {fault}{' is ignored' if ' ' not in fault else ''}", key="content")
                add(f"content:{prof}:{op}:{fault}", R_SEM, faulty)
            if op.startswith("GetAll"):
                def paging(it, prof=prof, op=op):
                    r = S.Reference(S.Content(), prof)
                    seen = []

                    def srv(i, req):
                        m, p, q = S.parse(req)
                        a = r.answer(m, p, q)
                        if a.kind in PAGED:
                            seen.append((p, dict(q), a))
                        return S.respond(i, a)
                    k, v = S.run(it, prof, op, srv)
                    if k == "raise":
                        return
                    main = seen[-1][0]
                    if not any(p == main and "cursor" in q for p, q, a in seen):
                        raise Violation(f"{op} ({prof}): the cursor of a page is never used to request the next page, so a server that ignores it passes", key="cursor")
                add(f"cursor:{prof}:{op}", R_SEM, paging)
            for kind, (rule, gen) in KINDS.items():
                def dev(it, prof=prof, op=op, kind=kind, gen=gen):
                    r = S.Reference(S.Content(), prof)
                    st = {"n": 0, "what": None}

                    def srv(i, req):
                        m, p, q = S.parse(req)
                        a = r.answer(m, p, q)
                        st["n"] += 1
                        if st["what"] is None and st["n"] > 1:
                            ds = list(gen(a, q, prof, p))
                            c = choose(1 + len(ds), f"response to {label(prof, p, q)}") if ds else 0
                            if c:
                                st["what"], st["req"] = ds[c - 1][0], label(prof, p, q)
                                a = ds[c - 1][1]
                        return S.respond(i, a)
                    k, v = S.run(it, prof, op, srv)
                    if st["what"] is None or k == "raise":
                        return      # no verdict at all: C22
                    res = it.getitem(v, 0)
                    if ok_of(res):
                        raise Violation(f"{op} ({prof}): the server passes although the response to {st['req']} deviates: {st['what']}", key=f"{st['req']}: {st['what']}")
                    m = it.getitem(v, 1)
                    steps = [n for d, msg, l, n in walk(res) if d == 3 and not isinstance(msg, core.Part)]
                    bad = it.getattr_(m, "invalid_accepted") + it.getattr_(m, "valid_rejected")
                    setup = [n for d, msg, l, n in walk(res) if msg == "Setup" and not ok_of(n)]
                    if bad == 0 and not setup:
                        raise Violation(f"{op} ({prof}): the summary counts no failure although the response to {st['req']} deviates: {st['what']}", key=f"summary {st['req']}: {st['what']}")
                add(f"deviating:{prof}:{op}:{kind}", rule, dev)
        for f in S.FAILS:
            def down(it, prof=prof, f=f):
                k, v = S.run(it, prof, None, lambda i, req: S.respond(i, S.Answer(0, fail=f)))
                if k == "ok" and ok_of(it.getitem(v, 0)):
                    raise Violation("an unreachable server passes", key="unreachable")
            add(f"unreachable:{prof}:{f}", R_CONN, down)

        # a deviation of one operation only concerns that operation
        def scope(it, prof=prof):
            r = S.Reference(S.Content(), prof)

            def srv(i, req):
                m, p, q = S.parse(req)
                if p == "/description":
                    return S.respond(i, S.error(404, "no description"))
                return S.respond(i, r.answer(m, p, q))
            k, v = S.run(it, prof, "GetDescription:GetAllSubmodelElements:GetSubmodelElementByPath:GetAssetInformation:GetAllSubmodels:GetSubmodel:GetAllAssetAdministrationShells", srv)
            if k == "raise":
                raise_violation("server check", v)
            for d, m, l, n in walk(it.getitem(v, 0)):
                if d == 1 and text_has(m, "Checking Get"):
                    want = not text_has(m, "GetDescription")
                    if bool(ok_of(n)) != want:
                        raise Violation(f"{show(m)} ({prof}) is ok={bool(ok_of(n))} where only GetDescription deviates", key=show(m))
        add(f"scope:{prof}", R_SCOPE, scope)
    return obs
