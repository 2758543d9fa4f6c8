"""C10: the structural AASd constraints beyond references."""
import itertools
from .common import *
from . import docs as D, meta as M

LEVEL = "other"
HAS_SEM = [c for c, a in M.CLASSES.items() if any(n == "supplementalSemanticIds" for n, _, _ in a)]
QUALIFIABLE = M.SUBMODEL_ELEMENTS
NAMESPACES = [("Submodel", "submodelElements"), ("SubmodelElementCollection", "value"), ("Entity", "statements"),
              ("AnnotatedRelationshipElement", "annotations")]
OPVARS = ["inputVariables", "outputVariables", "inoutputVariables"]
IDS = "[a-zA-Z][a-zA-Z0-9_]*"


def ids(lang=IDS, name="idShort"):
    return AbsStr(rx.compile_spec(lang), 1, 128, name=name)


def el(cls, ident):
    o = D.minimal(cls)
    if ident is None:
        o.pop("idShort", None)
    else:
        o["idShort"] = ident
    return o


def sid(value="urn:s", t="GlobalReference", kind="ExternalReference", more=()):
    return {"type": kind, "keys": [{"type": t, "value": value}] + list(more)}


def allowed_in(owner):
    return M.DATA_ELEMENTS if owner == "AnnotatedRelationshipElement" else M.SUBMODEL_ELEMENTS


def obligations(tier):
    obs = []

    def add(name, rule, want, build, what=None, also=()):
        code = name.split(":")[0]
        if name.startswith("AASd-109:") and "unset" in name:
            code = "AASd-109"

        def fn(it):
            r = D.judge(D.check_json(build(it)), want, what or name)
            if not want and code.startswith("AASd-"):
                D.named(r, [code, *also])
        obs.append(Ob(name, fn, rule))

    def at(cls, mk):
        return lambda it: D.embed(cls, mk())

    # AASd-005
    def adm(mk):
        return at("AdministrativeInformation", mk)
    r = "AASd-005: a revision requires a version"
    vl = lambda: AbsStr(rx.compile_spec("0|[1-9][0-9]*"), 1, 4, name="version")
    add("AASd-005:revision only", r, False, adm(lambda: {"revision": vl()}))
    add("AASd-005:both", r, True, adm(lambda: {"version": vl(), "revision": vl()}))
    add("AASd-005:version only", r, True, adm(lambda: {"version": vl()}))
    # AASd-014
    r = "AASd-014: self-managed entities have an asset id, co-managed ones have none"
    ident = lambda: AbsStr(D.xml_chars(), 1, 2000, name="id")
    sp = lambda: [D.minimal("SpecificAssetId")]
    for kind in ("SelfManagedEntity", "CoManagedEntity"):
        self_ = kind[0] == "S"
        add(f"AASd-014:{kind}:none", r, not self_, at("Entity", lambda kind=kind: {**D.minimal("Entity"), "entityType": kind}))
        add(f"AASd-014:{kind}:global", r, self_, at("Entity", lambda kind=kind: {**D.minimal("Entity"), "entityType": kind, "globalAssetId": ident()}))
        add(f"AASd-014:{kind}:specific", r, self_, at("Entity", lambda kind=kind: {**D.minimal("Entity"), "entityType": kind, "specificAssetIds": sp()}))
        if not self_:
            add(f"AASd-014:{kind}:both", r, False, at("Entity", lambda kind=kind: {
                **D.minimal("Entity"), "entityType": kind, "globalAssetId": ident(), "specificAssetIds": sp()}))
    # AASd-022 / 117
    for owner, n in NAMESPACES:
        r22 = f"AASd-022: idShorts are unique within {owner}.{n} (case-sensitive)"
        r117 = f"AASd-117: elements of {owner}.{n} have an idShort"
        A = allowed_in(owner)

        def own(items, owner=owner, n=n):
            return D.embed(owner, {**D.minimal(owner), n: items})
        for a, b in itertools.product(A, A):
            def dup(it, own=own, a=a, b=b):
                s = ids()
                return own([el(a, s), el(b, s)])
            add(f"AASd-022:{owner}.{n}:{a},{b}", r22, False, dup, f"{owner}.{n} with two elements of equal idShort")
        c = A[0]
        for pos in itertools.combinations(range(4), 2):
            def dup3(it, own=own, pos=pos, c=c):
                s = ids("a[a-z]*")
                return own([el(c, s if i in pos else f"b{i}") for i in range(4)])
            add(f"AASd-022:{owner}.{n}:pos{pos}", r22, False, dup3)

        def far(it, own=own, c=c):
            s = ids("a[a-z]*")
            seg = Seg(lambda i: lift(el(c, f"b{i}")), 0, None, "others")
            return own(PyList([lift(el(c, s)), seg, lift(el(c, s))]))
        add(f"AASd-022:{owner}.{n}:apart", r22, False, far, f"{owner}.{n} with two equal idShorts any distance apart")
        add(f"AASd-022:{owner}.{n}:distinct", r22, True, lambda it, own=own, c=c: own([el(c, ids("a[a-zA-Z0-9_]*")), el(c, ids("b[a-zA-Z0-9_]*"))]))
        add(f"AASd-022:{owner}.{n}:case", r22, True, lambda it, own=own, c=c: own([el(c, "Ab"), el(c, "aB"), el(c, "ab"), el(c, "AB")]))
        add(f"AASd-022:{owner}.{n}:prefix", r22, True, lambda it, own=own, c=c: own([el(c, "a"), el(c, "aa"), el(c, "a_")]))
        for a in A:
            for pos in (0, 1, 2):
                def noid(it, own=own, a=a, pos=pos, c=c):
                    return own([el(a, None) if i == pos else el(c, f"b{i}") for i in range(3)])
                add(f"AASd-117:{owner}.{n}:{a}:{pos}", r117, False, noid, f"{owner}.{n} with a {a} without idShort")
        for pos in range(3):
            for dup in (True, False):
                def both(it, own=own, pos=pos, c=c, dup=dup):
                    s = ids("a[a-z]*")
                    items = [el(c, s if dup else f"b{i}") for i in range(2)]
                    items.insert(pos, el(c, None))
                    return own(items)
                add(f"AASd-117:{owner}.{n}:{c}:{pos}{' and duplicates' if dup else ''}", r117, False, both, f"{owner}.{n} with an element without idShort and {'duplicate' if dup else 'other'} idShorts", also=["AASd-022"] if dup else [])
    # nested namespaces are separate
    r = "AASd-022: an idShort may be reused in another namespace"

    def nested(it):
        s = ids()
        return D.embed("SubmodelElementCollection", {**D.minimal("SubmodelElementCollection"), "idShort": s, "value": [el("Capability", s)]})
    add("AASd-022:nested", r, True, nested)

    def cousins(it):
        s = ids()
        mk = lambda i: {**D.minimal("SubmodelElementCollection"), "idShort": i, "value": [el("Capability", s)]}
        return D.embed("Submodel", {**D.minimal("Submodel"), "submodelElements": [mk("A"), mk("B")]})
    add("AASd-022:cousins", r, True, cousins)

    def submodels(it):
        s = ids()
        mk = lambda i: {**D.minimal("Submodel"), "id": i, "idShort": s, "submodelElements": [el("Capability", s)]}
        return {"submodels": [mk("urn:1"), mk("urn:2")]}
    add("AASd-022:two submodels", r, True, submodels)
    # AASd-117 operation variables, AASd-134
    for v in OPVARS:
        for a in M.SUBMODEL_ELEMENTS:
            add(f"AASd-117:Operation.{v}:{a}", "AASd-117: operation variables have an idShort", False,
                at("Operation", lambda v=v, a=a: {**D.minimal("Operation"), v: [{"value": el(a, None)}]}))
    r = "AASd-134: the idShorts of all variables of an operation are unique"
    for v, w in itertools.combinations_with_replacement(OPVARS, 2):
        for third in OPVARS + [None]:
            def dup(it, v=v, w=w, third=third):
                s = ids("a[a-z]*")
                o = D.minimal("Operation")
                if third:
                    o.setdefault(third, []).append({"value": el("Capability", "b1")})
                for x in (v, w):
                    o.setdefault(x, []).append({"value": el("Property", s)})
                if third:
                    o.setdefault(third, []).append({"value": el("Capability", "b2")})
                return D.embed("Operation", o)
            add(f"AASd-134:{v},{w}+{third}", r, False, dup)

    def uniq(it):
        o = D.minimal("Operation")
        for i, v in enumerate(OPVARS):
            o[v] = [{"value": el("Property", ids(f"{x}[a-z]*"))} for x in ("abc"[i], "xyz"[i])]
        return D.embed("Operation", o)
    add("AASd-134:distinct", r, True, uniq)
    # AASd-090
    r = "AASd-090: category of data elements"
    for c in M.DATA_ELEMENTS:
        ok = ["CONSTANT", "PARAMETER", "VARIABLE"]
        add(f"AASd-090:{c}:ok", r, True, at(c, lambda c=c, ok=ok: {**D.minimal(c), "category": AbsStr(rx.words(ok), name="category")}))
        add(f"AASd-090:{c}:bad", r, False, at(c, lambda c=c, ok=ok: {
            **D.minimal(c), "category": AbsStr(rx.minus(D.xml_chars(), rx.words(ok)), 1, 128, name="category")}))
    # lists
    SML = "SubmodelElementList"

    def sml(**k):
        return at(SML, lambda: {**D.minimal(SML), **{a: (b() if callable(b) else b) for a, b in k.items()}})
    r = "AASd-120: elements of a SubmodelElementList have no idShort"
    for c in M.SUBMODEL_ELEMENTS:
        vt = {"valueTypeListElement": "xs:int"} if c in ("Property", "Range") else {}
        for pos in (0, 1):
            add(f"AASd-120:{c}:{pos}", r, False, sml(typeValueListElement=c, **vt, value=lambda c=c, pos=pos: [
                el(c, ids() if i == pos else None) for i in range(2)]))
        add(f"AASd-120:{c}:none", r, True, sml(typeValueListElement=c, **vt, value=lambda c=c: [el(c, None), el(c, None)]))
    r = "AASd-108: all elements of a SubmodelElementList are of the declared type"
    for t in M.SUBMODEL_ELEMENTS:
        for c in M.SUBMODEL_ELEMENTS:
            if c == t:
                continue
            for pos in (0, 1):
                add(f"AASd-108:{t}:{c}:{pos}", r, False, sml(
                    typeValueListElement=t, valueTypeListElement="xs:int",
                    value=lambda t=t, c=c, pos=pos: [el(c, None) if i == pos else el(t, None) for i in range(2)]))
    r = "AASd-109: value type of lists of properties and ranges"
    X = ["xs:" + x for x in M.XSD]
    for c in ("Property", "Range"):
        add(f"AASd-109:{c}:unset,empty", r, False, sml(typeValueListElement=c))
        add(f"AASd-109:{c}:unset", r, False, sml(typeValueListElement=c, value=lambda c=c: [el(c, None)]))
        add(f"AASd-109:{c}:set,empty", r, True, sml(typeValueListElement=c, valueTypeListElement=lambda: AbsStr(rx.words(X), name="vt")))
        for x in X:
            add(f"AASd-109:{c}:{x}:same", r, True, sml(typeValueListElement=c, valueTypeListElement=x, value=lambda c=c, x=x: [
                {**el(c, None), "valueType": x}, {**el(c, None), "valueType": x}]))
            for pos in (0, 1):
                add(f"AASd-109:{c}:{x}:other:{pos}", r, False, sml(
                    typeValueListElement=c, valueTypeListElement=x, value=lambda c=c, x=x, pos=pos: [
                        {**el(c, None), "valueType": AbsStr(rx.words([y for y in X if y != x]), name="vt") if i == pos else x}
                        for i in range(2)]))
    # semantic ids in lists
    KEY2 = {"type": "GlobalReference", "value": "urn:t"}
    others = {
        "value": lambda: sid(AbsStr(rx.minus(D.xml_chars(), rx.word("urn:s")), 1, 2000, name="v")),
        "longer": lambda: sid(more=[KEY2]),
        "type": lambda: sid(t="Submodel", kind="ModelReference"),
        "case": lambda: sid("URN:S"),
    }
    r107 = "AASd-107: element semanticId identical to semanticIdListElement"
    r114 = "AASd-114: semanticIds of list elements are identical"
    cap = lambda s: {**el("Capability", None), **({"semanticId": s} if s else {})}
    for tag, mk in others.items():
        for pos in (0, 1):
            add(f"AASd-107:{tag}:{pos}", r107, False, sml(semanticIdListElement=lambda: sid(), value=lambda mk=mk, pos=pos: [
                cap(mk()) if i == pos else cap(None) for i in range(2)]))
        for i, j in itertools.permutations(range(3), 2):
            add(f"AASd-114:{tag}:{i}{j}", r114, False, sml(value=lambda mk=mk, i=i, j=j: [
                cap(sid() if x == i else mk() if x == j else None) for x in range(3)]))
    add("AASd-107:list longer", r107, False, sml(semanticIdListElement=lambda: sid(more=[KEY2]), value=lambda: [cap(sid())]))
    for k in ("global", "model"):
        mk = (lambda: sid("urn:s")) if k == "global" else (lambda: sid("urn:s", "Submodel", "ModelReference", [{"type": "Property", "value": "p"}]))
        add(f"AASd-107:{k}:same", r107, True, sml(semanticIdListElement=mk, value=lambda mk=mk: [cap(mk()), cap(None), cap(mk())]))
        add(f"AASd-114:{k}:same", r114, True, sml(value=lambda mk=mk: [cap(None), cap(mk()), cap(mk())]))

    def same_any(it):
        v = AbsStr(D.xml_chars(), 1, 2000, name="semantic id")
        return D.embed(SML, {**D.minimal(SML), "semanticIdListElement": sid(v), "value": [cap(sid(v)), cap(sid(v))]})
    add("AASd-107:any:same", r107, True, same_any)
    # AASd-116
    g = rx.compile_spec("[gG][lL][oO][bB][aA][lL][aA][sS][sS][eE][tT][iI][dD]")
    r = "AASd-116: globalAssetId (in any case) is no name of a specific asset id"
    for pos in (0, 1, 2):
        add(f"AASd-116:{pos}", r, False, at("AssetInformation", lambda pos=pos: {
            **D.minimal("AssetInformation"), "specificAssetIds": [
                {"name": AbsStr(g, name="name") if i == pos else "n", "value": "v"} for i in range(3)]}))
    # AASd-118
    r = "AASd-118: supplemental semantic ids require a semantic id"
    for c in HAS_SEM:
        add(f"AASd-118:{c}", r, False, at(c, lambda c=c: {**D.minimal(c), "supplementalSemanticIds": [D.minimal("Reference")]}))
        add(f"AASd-118:{c}:ok", r, True, at(c, lambda c=c: {
            **D.minimal(c), "semanticId": D.minimal("Reference"), "supplementalSemanticIds": [D.minimal("Reference"), D.minimal("Reference")]}))
    # AASd-119 / 129
    tq = lambda k: {**D.minimal("Qualifier"), "kind": k} if k else D.minimal("Qualifier")
    kinds = ["ConceptQualifier", "ValueQualifier", None]
    for kind in ("Instance", "Template", None):
        sub = lambda kind=kind, **k: {**D.minimal("Submodel"), **({"kind": kind} if kind else {}), **k}
        ok = kind == "Template"
        r = "AASd-119: template qualifiers of a submodel require kind Template"
        for pos in range(3):
            qs = lambda pos=pos: [tq("TemplateQualifier" if i == pos else kinds[i]) for i in range(3)]
            add(f"AASd-119:{kind}:{pos}", r, ok, at("Submodel", lambda sub=sub, qs=qs: sub(qualifiers=qs())))
        add(f"AASd-119:{kind}:other", r, True, at("Submodel", lambda sub=sub: sub(qualifiers=[tq(k) for k in kinds])))
        r = "AASd-129: template qualifiers of an element require a submodel of kind Template"
        for c in M.SUBMODEL_ELEMENTS:
            for pos in (0, 1):
                add(f"AASd-129:{kind}:{c}:{pos}", r, ok, at("Submodel", lambda sub=sub, c=c, pos=pos: sub(submodelElements=[
                    {**el(c, f"a{i}"), "qualifiers": [tq("TemplateQualifier" if i == pos else "ValueQualifier")]} for i in range(2)])))
            add(f"AASd-129:{kind}:{c}:other", r, True, at("Submodel", lambda sub=sub, c=c: sub(submodelElements=[
                {**el(c, "a"), "qualifiers": [tq(k) for k in kinds]}])))
        q = lambda c, i: {**el(c, i), "qualifiers": [tq("ConceptQualifier"), tq("TemplateQualifier")]}
        deep = {
            "SubmodelElementCollection": lambda x: {**el("SubmodelElementCollection", "c"), "value": [el("Capability", "z"), x("x")]},
            "SubmodelElementList": lambda x: {**el(SML, "l"), "typeValueListElement": "ReferenceElement", "value": [el("ReferenceElement", None), x(None)]},
            "Entity": lambda x: {**el("Entity", "e"), "statements": [el("Capability", "z"), x("x")]},
            "AnnotatedRelationshipElement": lambda x: {**el("AnnotatedRelationshipElement", "r"), "annotations": [el("Blob", "z"), x("x")]},
            **{v: (lambda x, v=v: {**el("Operation", "o"), v: [{"value": el("Blob", "z")}, {"value": x("x")}]}) for v in OPVARS},
        }
        for d1, f1 in deep.items():
            add(f"AASd-129:{kind}:in {d1}", r, ok, at("Submodel", lambda sub=sub, f1=f1: sub(submodelElements=[f1(lambda i: q("ReferenceElement", i))])))
            for d2, f2 in deep.items():
                if d1 in (SML, "AnnotatedRelationshipElement"):
                    continue
                def two(sub=sub, f1=f1, f2=f2):
                    def mid(i):
                        o = f2(lambda j: q("ReferenceElement", j))
                        o["idShort"] = i
                        return o
                    return sub(submodelElements=[f1(mid)])
                add(f"AASd-129:{kind}:in {d1}/{d2}", r, ok, at("Submodel", two))
    # AASd-131
    r = "AASd-131: globalAssetId or specificAssetIds"
    for kind in M.ENUMS["AssetKind"]:
        add(f"AASd-131:{kind}:none", r, False, at("AssetInformation", lambda kind=kind: {"assetKind": kind, "assetType": "urn:t"}))
        add(f"AASd-131:{kind}:specific", r, True, at("AssetInformation", lambda kind=kind: {"assetKind": kind, "specificAssetIds": sp()}))
        add(f"AASd-131:{kind}:global", r, True, at("AssetInformation", lambda kind=kind: {"assetKind": kind, "globalAssetId": ident()}))
        add(f"AASd-131:{kind}:both", r, True, at("AssetInformation", lambda kind=kind: {"assetKind": kind, "globalAssetId": ident(), "specificAssetIds": sp()}))
    # AASd-133 and the model references
    r = "AASd-133: externalSubjectId is an external reference"
    for owner in ("AssetInformation", "Entity"):
        via = (owner, "specificAssetIds", True)
        add(f"AASd-133:{owner}", r, False, lambda it, via=via: D.embed("SpecificAssetId", {**D.minimal("SpecificAssetId"), "externalSubjectId": D.model_ref()}, via))
        add(f"AASd-133:{owner}:ok", r, True, lambda it, via=via: D.embed("SpecificAssetId", {**D.minimal("SpecificAssetId"), "externalSubjectId": D.minimal("Reference")}, via))
    r = "derivedFrom, submodels, observed and messageBroker are model references"
    for c, n in sorted(D.MODEL_REF_EDGES):
        lst = M.attr(c, n)[1][0] == "["
        add(f"modelref:{c}.{n}", r, False, at(c, lambda c=c, n=n, lst=lst: {**D.minimal(c), n: [D.minimal("Reference")] if lst else D.minimal("Reference")}))
        add(f"modelref:{c}.{n}:ok", r, True, at(c, lambda c=c, n=n, lst=lst: {**D.minimal(c), n: [D.model_ref()] if lst else D.model_ref()}))
        if lst:
            for pos in range(3):
                add(f"modelref:{c}.{n}:{pos}", r, False, at(c, lambda c=c, n=n, pos=pos: {
                    **D.minimal(c), n: [D.minimal("Reference") if i == pos else D.model_ref() for i in range(3)]}))
    return obs
