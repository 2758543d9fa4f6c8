"""Minimal valid documents and contexts around one object of each metamodel class (JSON and XML)."""
from . import meta as M
from .common import *
from absint import rx, stdlib as L

NS = "{https://admin-shell.io/aas/3/0}"

_STR = {"Identifier": "urn:x:1", "NameType": "nm", "LabelType": "lb", "MessageTopic": "t", "Path": "/a/b.pdf",
        "Version": "1", "Revision": "1", "ContentType": "text/plain", "Blob": "YQ==", "Value": "1", "NonEmpty": "x",
        "ValueIec": "v", "DateTime": "2020-01-01T00:00:00Z", "Duration": "P1D", "IdShort": "idA"}
_ENUM = {"ReferenceTypes": "ExternalReference", "KeyTypes": "GlobalReference", "ListElementType": "Capability",
         "Xsd": "xs:int", "ModellingKind": "Instance", "QualifierKind": "ConceptQualifier", "AssetKind": "Instance",
         "StateOfEvent": "on", "Direction": "input", "EntityType": "CoManagedEntity", "Iec": "STRING"}
_ABS = {"SubmodelElement": "Capability", "DataElement": "ReferenceElement",
        "DataSpecificationContent": "DataSpecificationIec61360"}
IEC_REF = {"type": "ExternalReference", "keys": [
    {"type": "GlobalReference",
     "value": "https://admin-shell.io/DataSpecificationTemplates/DataSpecificationIec61360/3"}]}


def minimal(t, ident=None):
    """smallest valid value of a metamodel type, as plain Python data"""
    if t[0] == "[":
        return [minimal(t[1:-1], ident)]
    if t[0] == "@":
        return _STR[t[1:]]
    if t[0] == "#":
        return _ENUM[t[1:]]
    if t == "bool":
        return True
    if t == "str:lang":
        return "en"
    if t == "str:text":
        return "text"
    cls = _ABS.get(t, t)
    o = {}
    for n, at, req in M.CLASSES[cls]:
        if req:
            o[n] = minimal(at, ident)
    if cls in M.SUBMODEL_ELEMENTS:
        o["idShort"] = ident or "idA"
    if cls == "AssetInformation":
        o["globalAssetId"] = "urn:asset:1"
    if cls == "EmbeddedDataSpecification":
        o["dataSpecification"] = lift_ref()
    if cls == "DataSpecificationIec61360":
        o["definition"] = [{"language": "en", "text": "d"}]
    if cls == "BasicEventElement":
        o["observed"] = model_ref()
    if cls in M.MODEL_TYPED:
        o["modelType"] = cls
    return o


def lift_ref():
    return {"type": "ExternalReference", "keys": [dict(IEC_REF["keys"][0])]}


def model_ref(t="Submodel"):
    return {"type": "ModelReference", "keys": [{"type": t, "value": "urn:x:2"}]}


def full(cls, ident=None):
    """object with every attribute present (all valid and mutually consistent)"""
    o = minimal(cls, ident)
    for n, at, req in M.CLASSES[cls]:
        if n in o:
            continue
        if cls == "DataSpecificationIec61360" and n == "valueList":
            continue
        if cls == "Entity" and n in ("globalAssetId", "specificAssetIds"):
            continue
        if cls == "Reference" and n == "referredSemanticId":
            o[n] = minimal("Reference")
            continue
        if n == "category":
            o[n] = "VARIABLE"
            continue
        o[n] = minimal(at)
    if cls == "AnnotatedRelationshipElement":
        o["annotations"] = [minimal("ReferenceElement", "ann1")]
    if cls == "Entity":
        o["statements"] = [minimal("Capability", "st1")]
    if cls in ("SubmodelElementCollection",):
        o["value"] = [minimal("Capability", "c1")]
    if cls == "SubmodelElementList":
        c = minimal("Capability")
        del c["idShort"]
        o["value"] = [c]
    if cls == "Operation":
        for i, v in enumerate(("inputVariables", "outputVariables", "inoutputVariables")):
            o[v] = [{"value": minimal("Capability", f"v{i}")}]
    if cls == "BasicEventElement":
        o["messageBroker"] = model_ref()
    if cls == "AssetAdministrationShell":
        o["derivedFrom"] = model_ref("AssetAdministrationShell")
        o["submodels"] = [model_ref()]
    return o


# ---------------------------------------------------------------- where each class occurs
def edges():
    """(owner class, attribute, is list, target class) for every class-typed attribute"""
    out = []
    for c, attrs in M.CLASSES.items():
        for n, t, req in attrs:
            lst = t[0] == "["
            tt = t[1:-1] if lst else t
            if tt[0] in "@#" or tt == "bool" or tt.startswith("str:"):
                continue
            for k in M.ABSTRACT.get(tt, [tt]):
                out.append((c, n, lst, k))
    return out


_CTX = None


def context():
    """class -> (owner class, attribute, list?) : one canonical shortest chain to Environment"""
    global _CTX
    if _CTX is None:
        _CTX = {"Environment": None, "Reference": ("ConceptDescription", "isCaseOf", True)}
        todo = ["Environment"]
        while todo:
            c = todo.pop(0)
            for o, n, lst, k in edges():
                if o == c and k not in _CTX:
                    _CTX[k] = (o, n, lst)
                    todo.append(k)
        todo = ["Reference"]
        while todo:
            c = todo.pop(0)
            for o, n, lst, k in edges():
                if o == c and k not in _CTX:
                    _CTX[k] = (o, n, lst)
                    todo.append(k)
    return _CTX


MODEL_REF_EDGES = {("AssetAdministrationShell", "derivedFrom"), ("AssetAdministrationShell", "submodels"),
                   ("BasicEventElement", "observed"), ("BasicEventElement", "messageBroker")}


def edge_obj(owner, n, cls, ident=None):
    """a minimal object valid at that edge"""
    if (owner, n) in MODEL_REF_EDGES:
        return model_ref()
    return minimal(cls, ident)


def embed(cls, obj, via=None):
    """environment (plain data / abstract values mixed) holding obj at the canonical place for its class;
    `via` = (owner, attr, list?) overrides the last edge"""
    while cls != "Environment":
        e = via or context()[cls]
        via = None
        owner, n, lst = e
        host = minimal(owner)
        host[n] = [obj] if lst else obj
        fix_host(owner, n, host, cls, obj)
        obj = host
        cls = owner
    return obj


def fix_host(owner, n, host, cls, obj):
    """keep the surrounding object valid"""
    if owner == "SubmodelElementList" and n == "value":
        if isinstance(obj, dict):
            obj.pop("idShort", None)
        host["typeValueListElement"] = cls
        if cls in ("Property", "Range"):
            host["valueTypeListElement"] = obj.get("valueType", "xs:int") if isinstance(obj, dict) else "xs:int"
    if owner == "Entity" and n == "specificAssetIds":
        host["entityType"] = "SelfManagedEntity"
    if owner == "DataSpecificationIec61360" and n == "valueList":
        host.pop("value", None)
    if n == "supplementalSemanticIds":
        host["semanticId"] = minimal("Reference")


def jdoc(v):
    """plain data with abstract leaves -> interpreter value"""
    return lift(v)


# ---------------------------------------------------------------- XML
def lower1(s):
    return s[0].lower() + s[1:]


XML_NAME = {"PreferredName": "langStringPreferredNameTypeIec61360", "ShortName": "langStringShortNameTypeIec61360",
            "Definition": "langStringDefinitionTypeIec61360", "Iec": "dataSpecificationIec61360"}


def item_tag(cls, obj):
    return XML_NAME.get(cls) or lower1(cls)


def xdoc(it, cls, v, tag=None, ns=NS):
    """plain data (with abstract leaves) of class cls -> Element"""
    tag = tag if tag is not None else item_tag(cls, v)
    kids = []
    if not isinstance(v, dict):
        return xleaf(it, tag, v, ns)
    for n, t, req in M.CLASSES.get(cls, []):
        if n in v:
            kids.append(xattr(it, cls, n, t, v[n], ns))
    for n in v:
        if n != "modelType" and n not in [a[0] for a in M.CLASSES.get(cls, [])]:
            kids.append(v[n] if not isinstance(v[n], (str, dict, list)) else xleaf(it, n, v[n], ns))
    return L.element(it, ns + tag, None, kids)


def is_elem(v):
    return isinstance(v, Inst) and v.cls.name == "Element"


def xleaf(it, tag, v, ns=NS):
    if v is True:
        v = "true"
    if v is False:
        v = "false"
    return L.element(it, ns + tag, v, [])


def xattr(it, cls, n, t, v, ns):
    if is_elem(v):
        return v
    if t[0] == "[":
        tt = t[1:-1]
        if not isinstance(v, list):
            return xleaf(it, n, v, ns)
        kids = []
        for x in v:
            if is_elem(x):
                kids.append(x)
                continue
            c = x.get("modelType", tt) if isinstance(x, dict) else tt
            kids.append(xdoc(it, c, x, None, ns))
        return L.element(it, ns + n, None, kids)
    if t in M.ABSTRACT:
        c = v.get("modelType") if isinstance(v, dict) else t
        return L.element(it, ns + n, None, [xdoc(it, c, v, None, ns)])
    if t in M.CLASSES:
        return xdoc(it, t, v, n, ns)
    return xleaf(it, n, v, ns)


# ---------------------------------------------------------------- running
def check_json(doc, **k):
    return attempt(sym("file", "check_json_data"), jdoc(doc), **k)


def check_xml(elem, **k):
    return attempt(sym("file", "check_xml_data"), elem, **k)


def judge(kind_value, want, what):
    kind, v = kind_value
    if kind == "ok" and ok_of(v) == want:
        return v
    if callable(what):
        what = what()
    if kind == "raise":
        raise_violation(f"{what}: the check does not return a verdict", v)
    got = ok_of(v)
    if got != want:
        found = [m for d, m, l, _ in walk(v) if l in ("ERROR", "CRITICAL")][-2:]
        raise Violation(f"{what}: reported as {'compliant' if got else 'non-compliant'}"
                        + (f" ({'; '.join(show(x) for x in found)})" if found else ""), key="accept" if got else "reject")
    return v


def named(result, names, family=None):
    """each of the names is given by some ERROR entry; of the family, no other is"""
    msgs = [m for d, m, l, r in walk(result) if l in ("ERROR", "CRITICAL")]
    for n in names:
        if not any(text_has(m, n) for m in msgs):
            raise Violation(f"{n} is violated but not reported under its name ({'; '.join(show(m)[:80] for m in msgs[-2:])})", key="name:" + n)
    for n in family or ():
        if n not in names and any(text_has(m, n) for m in msgs):
            raise Violation(f"{n} is reported although it is not violated", key="name:" + n)


def xml_chars():
    return rx.over(((0x9, 0xB), (0xD, 0xE), (0x20, 0xD800), (0xE000, 0xFFFE), (0x10000, 0x110000)))
