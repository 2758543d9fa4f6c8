"""C11: every constraint applies wherever the constrained class occurs, and all violations are reported."""
import itertools
from .common import *
from . import docs as D, meta as M

LEVEL = "other"
Q = D.minimal


def ref_bad():
    return {"type": "ExternalReference", "keys": [{"type": "Submodel", "value": "urn:x"}]}


def bad_id():
    return AbsStr(rx.minus(D.xml_chars(), rx.compile_spec("[a-zA-Z][a-zA-Z0-9_]*")), 1, 128, name="idShort")


def bad_int():
    return AbsStr(rx.minus(D.xml_chars(), rx.compile_spec("[+-]?[0-9]+")), name="value")


def bad_cat():
    return AbsStr(rx.minus(D.xml_chars(), rx.words(["CONSTANT", "PARAMETER", "VARIABLE"])), 1, 128, name="category")


def bad_lang():
    return AbsStr(rx.compile_spec("[a-z]* [a-z ]*"), name="language")


def violations(cls):
    """name -> object of class cls violating one constraint (structure intact)"""
    out = {}
    names = {a[0]: a[1] for a in M.CLASSES[cls]}
    m = lambda **k: {**Q(cls), **k}
    if "idShort" in names:
        out["AASd-002"] = m(idShort=bad_id())
    if "category" in names and cls in M.DATA_ELEMENTS:
        out["AASd-090"] = m(category=bad_cat())
    if "supplementalSemanticIds" in names:
        out["AASd-118"] = m(supplementalSemanticIds=[Q("Reference")])
    if cls == "Reference":
        out["AASd-122"] = ref_bad()
    if cls == "AdministrativeInformation":
        out["AASd-005"] = {"revision": "1"}
    if cls == "AssetInformation":
        out["AASd-131"] = {"assetKind": "Type"}
    if cls == "SpecificAssetId":
        out["AASd-133"] = m(externalSubjectId=D.model_ref())
    if cls in M.LANG_LEN:
        out["text"] = {"language": "en", "text": ""}
        out["language"] = {"language": bad_lang(), "text": "x"}
    if cls in ("Qualifier", "Extension"):
        out["value"] = m(valueType="xs:int", value=bad_int())
    if cls == "Property":
        out["value"] = m(valueType="xs:int", value=bad_int())
    if cls == "Range":
        out["min"] = m(valueType="xs:int", min=bad_int())
        out["max"] = m(valueType="xs:int", max=bad_int())
    if cls == "Entity":
        out["AASd-014"] = m(entityType="SelfManagedEntity")
        out["AASd-022"] = m(statements=[Q("Capability"), Q("Capability")])
        out["AASd-117"] = m(statements=[{"modelType": "Capability"}])
    if cls == "SubmodelElementCollection":
        out["AASd-022"] = m(value=[Q("Capability"), Q("Capability")])
        out["AASd-117"] = m(value=[{"modelType": "Capability"}])
    if cls == "AnnotatedRelationshipElement":
        out["AASd-022"] = m(annotations=[Q("Blob"), Q("Blob")])
        out["AASd-117"] = m(annotations=[{"modelType": "Blob", "contentType": "a/b"}])
    if cls == "Operation":
        out["AASd-134"] = m(inputVariables=[{"value": Q("Capability")}, {"value": Q("Capability")}])
    if cls == "OperationVariable":
        out["AASd-117"] = {"value": {"modelType": "Capability"}}
    if cls == "BasicEventElement":
        out["observed"] = m(observed=Q("Reference"))
        out["messageBroker"] = m(messageBroker=Q("Reference"))
    if cls == "SubmodelElementList":
        nc = lambda **k: {"modelType": "Capability", **k}
        s = lambda x: {"type": "ExternalReference", "keys": [{"type": "GlobalReference", "value": x}]}
        out["AASd-107"] = m(semanticIdListElement=s("a"), value=[nc(semanticId=s("b"))])
        out["AASd-108"] = m(typeValueListElement="Blob", value=[nc()])
        out["AASd-109"] = m(typeValueListElement="Property")
        out["AASd-114"] = m(value=[nc(semanticId=s("a")), nc(semanticId=s("b"))])
        out["AASd-120"] = m(value=[nc(idShort="a")])
    if cls == "AssetAdministrationShell":
        out["derivedFrom"] = m(derivedFrom=Q("Reference"))
        out["submodels"] = m(submodels=[Q("Reference")])
    if cls == "Submodel":
        out["AASd-022"] = m(submodelElements=[Q("Capability"), Q("Capability")])
        out["AASd-119"] = m(qualifiers=[{**Q("Qualifier"), "kind": "TemplateQualifier"}])
        out["AASd-129"] = m(submodelElements=[{**Q("Capability"), "qualifiers": [{**Q("Qualifier"), "kind": "TemplateQualifier"}]}])
    if cls == "ConceptDescription":
        c = Q("DataSpecificationIec61360")
        del c["definition"]
        out["AASc-3a-008"] = m(embeddedDataSpecifications=[{"dataSpecification": D.lift_ref(), "dataSpecificationContent": c}])
    if cls == "DataSpecificationIec61360":
        out["AASc-3a-002"] = m(preferredName=[{"language": "de", "text": "x"}])
        out["AASc-3a-009"] = m(dataType="REAL_MEASURE")
        out["AASc-3a-010"] = m(value="x", valueList=Q("ValueList"))
    return out


def errors(res):
    """leaf results that are errors"""
    it = interp()
    return [m for d, m, l, node in walk(res) if l in ("ERROR", "CRITICAL") and not list(B.iterate(it, it.getattr_(node, "sub_results")))]


SME_EDGES = [("SubmodelElementCollection", "value", True), ("SubmodelElementList", "value", True), ("Entity", "statements", True),
             ("OperationVariable", "value", False), ("Submodel", "submodelElements", True)]


def wrap(path, cls, obj):
    """obj inside a chain of container edges, innermost last"""
    for owner, n, lst in reversed(path):
        if owner == "SubmodelElementList":
            obj = dict(obj)
            obj.pop("idShort", None)
        host = Q(owner)
        host[n] = [obj] if lst else obj
        D.fix_host(owner, n, host, cls, obj)
        obj, cls = host, owner
        if owner == "OperationVariable":
            obj, cls = {**Q("Operation"), "inoutputVariables": [obj]}, "Operation"
    return cls, obj


def obligations(tier):
    obs = []

    def add(name, rule, want, build):
        def fn(it):
            D.judge(D.check_json(build(it)), want, name)
        obs.append(Ob(name, fn, rule))
    r = "a constraint applies at every place where the metamodel allows its class"
    for owner, n, lst, k in D.edges():
        for v in violations(k):
            if owner == "SubmodelElementList" and v == "AASd-002":
                continue
            def b(it, owner=owner, n=n, lst=lst, k=k, v=v):
                return D.embed(k, violations(k)[v], (owner, n, lst))
            add(f"{v}:{k} at {owner}.{n}", r, False, b)
            if lst:
                for pos in (0, 2):
                    def many(it, owner=owner, n=n, k=k, v=v, pos=pos):
                        bad = violations(k)[v]
                        host = Q(owner)
                        items = []
                        for i in range(3):
                            x = bad if i == pos else D.edge_obj(owner, n, k, f"s{i}")
                            if owner == "SubmodelElementList":
                                x = dict(x)
                                x.pop("idShort", None)
                            if k == "OperationVariable" and i != pos:
                                x["value"]["idShort"] = f"s{i}"
                            items.append(x)
                        D.fix_host(owner, n, host, k, bad)
                        host[n] = items
                        return D.embed(owner, host)
                    add(f"{v}:{k} at {owner}.{n}[{pos}]", r, False, many)
    r = "a constraint applies at every nesting depth"
    inner = [e for e in SME_EDGES if e[0] != "Submodel"]
    depth = 4 if tier == "thorough" else 3
    for k in M.SUBMODEL_ELEMENTS:
        for v in violations(k):
            for d in range(1, depth + 1):
                for path in itertools.product(inner, repeat=d):
                    if v == "AASd-002" and path[-1][0] == "SubmodelElementList":
                        continue
                    if d >= 3 and (v in ("AASd-118", "AASd-002") or (d > 3 and k not in ("Property", "Entity"))):
                        continue
                    def b(it, path=path, k=k, v=v):
                        c, o = wrap(list(path), k, violations(k)[v])
                        return D.embed(c, o)
                    add(f"{v}:{k} in {'/'.join(p[0] for p in path)}", r, False, b)
    for k in M.SUBMODEL_ELEMENTS:
        for d in range(1, 4):
            for path in itertools.product(inner, repeat=d):
                def g(it, path=path, k=k):
                    c, o = wrap(list(path), k, Q(k))
                    return D.embed(c, o)
                add(f"valid {k} in {'/'.join(p[0] for p in path)}", "valid elements are accepted at every nesting depth", True, g)
    # all violations are reported
    r = "violations in different objects are all reported"
    elig = [(k, v) for k in M.SUBMODEL_ELEMENTS for v in violations(k)]

    def two(a, b, mk):
        def fn(it):
            res = D.judge(D.check_json(mk(a, b)), False, f"{a} and {b}")
            n = len(errors(res))
            if n < 2:
                raise Violation(f"two violations ({a[1]} of {a[0]}, {b[1]} of {b[0]}) are reported as {n} error", key="lost")
        return fn

    def siblings(a, b):
        x, y = {**violations(a[0])[a[1]]}, {**violations(b[0])[b[1]]}
        if a[1] != "AASd-002":
            x["idShort"] = "p1"
        if b[1] != "AASd-002":
            y["idShort"] = "p2"
        elif a[1] == "AASd-002":
            y["idShort"] = "2y"
        return D.embed("Submodel", {**Q("Submodel"), "submodelElements": [x, y]})

    def in_submodels(a, b):
        return {"submodels": [{**Q("Submodel"), "id": f"urn:{i}", "submodelElements": [violations(x[0])[x[1]]]} for i, x in enumerate((a, b))]}

    def parent_child(a, b):
        # b inside a collection that itself violates AASd-118
        c = {**Q("SubmodelElementCollection"), "supplementalSemanticIds": [Q("Reference")], "value": [violations(b[0])[b[1]]]}
        return D.embed("SubmodelElementCollection", c)
    for a, b in itertools.product(elig, elig):
        obs.append(Ob(f"both: {a[0]}/{a[1]} + {b[0]}/{b[1]}", two(a, b, siblings), r))
    for a in elig:
        obs.append(Ob(f"two submodels: {a[0]}/{a[1]}", two(a, ("Property", "value"), in_submodels), r))
        obs.append(Ob(f"two submodels: Property/value + {a[0]}/{a[1]}", two(("Property", "value"), a, in_submodels), r))
        obs.append(Ob(f"parent and child: {a[0]}/{a[1]}", two(("SubmodelElementCollection", "AASd-118"), a, parent_child), r))
    # same object: independent constraints
    r = "violations of different constraints by one object are all reported"
    for k in M.CLASSES:
        vs = violations(k)
        base = Q(k)
        for v, w in itertools.combinations(vs, 2):
            if k in M.LANG_LEN:
                m = {"language": "e n", "text": ""}
            else:
                dv = {n: x for n, x in vs[v].items() if n not in base or base[n] != x}
                dw = {n: x for n, x in vs[w].items() if n not in base or base[n] != x}
                if set(dv) & set(dw) or any(n not in vs[v] or n not in vs[w] for n in base):
                    continue
                if k == "SubmodelElementList" and ("typeValueListElement" in dv or "typeValueListElement" in dw) and not {v, w} & {"AASd-118", "AASd-002"}:
                    continue
                m = None
            def fn(it, k=k, m=m, v=v, w=w, base=base):
                if m is None:
                    vs = violations(k)
                    m = {**base, **{n: x for y in (v, w) for n, x in vs[y].items() if n not in base or base[n] != x}}
                res = D.judge(D.check_json(D.embed(k, m)), False, f"{k} violating {v} and {w}")
                n = len(errors(res))
                if n < 2:
                    raise Violation(f"{k} violating {v} and {w}: {n} error reported", key="lost")
            obs.append(Ob(f"same object: {k}: {v} + {w}", fn, r))
    # structural errors
    r = "structural errors in different objects are all reported"
    for k in M.SUBMODEL_ELEMENTS:
        def mk(it, k=k):
            x = [{**Q(k), "idShort": f"i{i}", "unknownAttribute": "x"} for i in range(2)]
            res = D.judge(D.check_json(D.embed("Submodel", {**Q("Submodel"), "submodelElements": x})), False, f"two {k} with unknown attributes")
            n = len(errors(res))
            if n < 2:
                raise Violation(f"two structurally invalid {k}: {n} error reported", key="lost")
        obs.append(Ob(f"structure: {k}", mk, r))
    return obs
