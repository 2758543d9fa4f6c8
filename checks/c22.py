"""C22: a server check ends with a verdict whatever the server answers, and reports the operations it could not finish."""
import copy
from .common import *
from . import server as S
from . import c15

LEVEL = "other"
R_FAIL = "a connection failure at any request ends in a failing verdict, not in an exception"
R_RESP = "any response to any request ends in a verdict, not in an exception"
R_CONT = "a conforming server with unusual content ends in a verdict, not in an exception"
R_REST = "the operations after one that could not be finished are still tested"


def contents():
    """conforming but unusual contents"""
    C = S.Content

    def c(fn, types=("Property", "File")):
        x = C(types)
        fn(x)
        return x

    def each(x, fn):
        for s in x.shells:
            fn(s)
    yield "no shells", c(lambda x: setattr(x, "shells", []))
    yield "one shell", c(lambda x: setattr(x, "shells", x.shells[:1]))
    yield "no submodels", c(lambda x: (setattr(x, "submodels", []), each(x, lambda s: s.pop("submodels"))))
    yield "one submodel", c(lambda x: (setattr(x, "submodels", x.submodels[:1]), each(x, lambda s: s.update(submodels=s["submodels"][:1]))))
    yield "shells without idShort", c(lambda x: each(x, lambda s: s.pop("idShort")))
    yield "shells without globalAssetId", c(lambda x: each(x, lambda s: s["assetInformation"].pop("globalAssetId")))
    yield "shells without specificAssetIds", c(lambda x: each(x, lambda s: s["assetInformation"].pop("specificAssetIds")))
    yield "shells without submodels", c(lambda x: each(x, lambda s: s.pop("submodels")))
    yield "shells without thumbnail", c(lambda x: each(x, lambda s: s["assetInformation"].pop("defaultThumbnail")))
    yield "submodel without elements", c(lambda x: [s.pop("submodelElements") for s in x.submodels])
    yield "submodel without idShort", c(lambda x: [s.pop("idShort") for s in x.submodels])
    yield "collection without value", c(lambda x: x.submodels[0]["submodelElements"][0].pop("value"), ("SubmodelElementCollection", "Property"))
    yield "list without value", c(lambda x: x.submodels[0]["submodelElements"][0].pop("value"), ("SubmodelElementList", "Property"))
    yield "entity without statements", c(lambda x: x.submodels[0]["submodelElements"][0].pop("statements"), ("Entity", "Property"))
    yield "property without value", c(lambda x: x.submodels[0]["submodelElements"][0].pop("value"), ("Property", "File"))
    yield "file without value", c(lambda x: x.submodels[0]["submodelElements"][0].pop("value"), ("File", "Property"))
    for t in S.ALL:
        yield f"only {t}", c(lambda x: None, (t,))


def responses(a, q):
    yield from c15.status(a, q)
    yield from c15.notjson(a, q)
    yield from c15.shape(a, q)
    for r in ("png", "empty"):
        yield f"body {r}", a.with_(raw=r)
    yield "empty array", a.with_(body=[], raw=None)
    yield "empty object", a.with_(body={}, raw=None)
    if a.kind in c15.PAGED:
        yield "page of null", a.with_(body={"paging_metadata": {}, "result": [None]})


def nothing(a, q):
    if a.kind in c15.PAGED:
        yield "empty page", a.with_(body={"paging_metadata": {}, "result": []})


def huge(a, q):
    yield "integer of 5000 digits", a.with_(raw="huge")


def obligations(tier):
    obs = []
    it0 = interp()

    def add(name, rule, fn, **k):
        obs.append(Ob(name, fn, rule, **{**dict(max_steps=60000000, max_seconds=300, max_paths=6000), **k}))

    def verdict(it, prof, op, srv, what):
        k, v = S.run(it, prof, op, srv)
        if k == "raise":
            cls = v.cls.name if hasattr(v, "cls") else "?"
            raise Violation(f"{op or 'check'} ({prof}): {what()} ends with {show(v)[:120]} instead of a verdict", key=cls)
        return it.getitem(v, 0)
    done = set()
    for prof in S.PROFILES:
        for op in dict.fromkeys(S.ops_of(it0, prof)):
            first = op not in done
            done.add(op)
            for tag, content in contents():
                def cont(it, prof=prof, op=op, content=content, tag=tag):
                    r = S.Reference(content, prof)
                    verdict(it, prof, op, lambda i, req: S.respond(i, r.answer(*S.parse(req))), lambda: f"a server with {tag}")
                if (prof, tag) in (("aas", "no shells"), ("sm", "no submodels")):
                    continue        # these servers have exactly one
                if first or tier != "quick":
                    add(f"content:{prof}:{op}:{tag}", R_CONT, cont)

            def fail(it, prof=prof, op=op):
                r = S.Reference(S.Content(), prof)
                st = {"what": None}

                def srv(i, req):
                    m, p, q = S.parse(req)
                    a = r.answer(m, p, q)
                    if st["what"] is None:
                        c = choose(1 + len(S.FAILS), f"response to {c15.label(prof, p, q)}")
                        if c:
                            st["what"], st["req"] = S.FAILS[c - 1], c15.label(prof, p, q)
                            a = S.Answer(0, fail=S.FAILS[c - 1])
                    return S.respond(i, a)
                res = verdict(it, prof, op, srv, lambda: f"{st['what']} at {st.get('req')}")
                if st["what"] and ok_of(res):
                    raise Violation(f"{op} ({prof}): passes although {st['req']} ended with {st['what']}", key="passes")
            add(f"failure:{prof}:{op}", R_FAIL, fail)
            if not (first or tier != "quick"):
                continue

            for kind, gen in (("response", responses), ("number", huge), ("nothing", nothing)):
                def resp(it, prof=prof, op=op, gen=gen):
                    r = S.Reference(S.Content(), prof)
                    st = {"what": None}

                    def srv(i, req):
                        m, p, q = S.parse(req)
                        a = r.answer(m, p, q)
                        if st["what"] is None:
                            ds = list(gen(a, q))
                            c = choose(1 + len(ds), f"response to {c15.label(prof, p, q)}")
                            if c:
                                st["what"], st["req"] = ds[c - 1][0], c15.label(prof, p, q)
                                a = ds[c - 1][1]
                        return S.respond(i, a)
                    verdict(it, prof, op, srv, lambda: f"the response '{st['what']}' to {st.get('req')}")
                add(f"{kind}:{prof}:{op}", R_RESP, resp)

        def down(it, prof=prof):
            f = S.FAILS[choose(len(S.FAILS), "failure of the first request")]
            res = verdict(it, prof, None, lambda i, req: S.respond(i, S.Answer(0, fail=f)), lambda: f"a server that is not reachable ({f})")
            if ok_of(res):
                raise Violation("an unreachable server passes", key="passes")
        add(f"unreachable:{prof}", R_FAIL, down)

        def rest(it, prof=prof):
            """after the first operation was broken off, the others are still reported"""
            ops = list(dict.fromkeys(S.ops_of(it, prof)))
            f = S.FAILS[0]
            r = S.Reference(S.Content(), prof)
            n = [0]

            def srv(i, req):
                n[0] += 1
                if n[0] == 2:
                    return S.respond(i, S.Answer(0, fail=f))
                return S.respond(i, r.answer(*S.parse(req)))
            sel = ops[0] + ":GetDescription"
            res = verdict(it, prof, sel, srv, lambda: f"{f} at the first request of {ops[0]}")
            got = {show(m).strip("'"): bool(ok_of(x)) for d, m, l, x in walk(res) if d == 1 and text_has(m, "Checking ")}
            want = {f"Checking {ops[0]}": False, "Checking GetDescription": True}
            if got != want:
                raise Violation(f"{prof}: after {f} in {ops[0]} the report has {got}", key="rest")
        add(f"rest:{prof}", R_REST, rest)
    return obs
