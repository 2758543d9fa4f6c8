"""C05: JSON structure -- attributes, kinds, cardinalities, enumerations and model types of the AAS v3.0 metamodel."""
from .common import *
from . import docs as D, meta as M

LEVEL = "other"

R_KIND = "attribute of a different JSON kind than the metamodel prescribes => ERROR"
R_REQ = "missing required attribute => ERROR"
R_OPT = "optional attribute absent or present with a valid value => accepted"
R_UNK = "unknown attribute (any name, any value) => ERROR"
R_ENUM = "enumeration literal outside the enumeration => ERROR, inside => accepted"
R_EMPTY = "empty list => ERROR"
R_ITEM = "one invalid item at any position of a list => ERROR"
R_MT = "modelType absent, of another kind, or not naming an allowed class => ERROR"
R_EDGE = "every place of the metamodel accepts a valid object and rejects an invalid one"
R_ROOT = "a document whose root is not an object => ERROR"


def kind_of(t):
    if t[0] == "[":
        return "list"
    if t[0] in "@#" or t.startswith("str:"):
        return "str"
    if t == "bool":
        return "bool"
    return "obj"


def any_json(label="value", but=()):
    """any JSON value, except the kinds in `but`"""
    opts = [("null", lambda: None),
            ("bool", lambda: AbsBool(label)),
            ("int", lambda: AbsInt(FreeInt(ISet([(None, None)])), label=label)),
            ("float", lambda: AbsFloat()),
            ("str", lambda: AbsStr(rx.ANY, name=label)),
            ("list", lambda: PyList([Seg(lambda i: "x", 0, None)])),
            ("obj", lambda: PyDict([(AbsStr(rx.ANY, name="k"), AbsStr(rx.ANY, name="v"))]))]
    return Lazy([o for o in opts if o[0] not in but], label)


def enum_accepts(cls, n, t):
    """lists of (object of class cls with the literal set) for every literal"""
    out = []
    for lit in M.ENUMS[t[1:]]:
        o = D.minimal(cls)
        o[n] = lit
        if cls == "Reference":
            o = D.model_ref() if lit == "ModelReference" else D.minimal("Reference")
        elif cls == "Key":
            continue
        elif (cls, n) == ("Entity", "entityType") and lit == "SelfManagedEntity":
            o["globalAssetId"] = "urn:a"
        elif (cls, n) == ("DataSpecificationIec61360", "dataType"):
            o["unit"] = "m"
        elif (cls, n) == ("SubmodelElementList", "typeValueListElement"):
            o["valueTypeListElement"] = "xs:int"
        elif n == "kind" and cls == "Qualifier" and lit == "TemplateQualifier":
            continue
        out.append((lit, o))
    return out


def via_of(cls):
    return D.context()[cls]


def obligations(tier):
    obs = []

    def add(name, rule, want, build, what):
        def fn(it):
            D.judge(D.check_json(build(it)), want, what)
        obs.append(Ob(name, fn, rule))

    def obj(cls, n, mk, via=None, tweak=None):
        def build(it):
            o = D.minimal(cls)
            o[n] = mk()
            if tweak:
                tweak(o)
            return D.embed(cls, o, via)
        return build

    for cls, attrs in M.CLASSES.items():
        names = [a[0] for a in attrs]
        # minimal and full objects
        add(f"{cls}:minimal", R_OPT, True, lambda it, cls=cls: D.embed(cls, D.minimal(cls)), f"minimal {cls}")
        add(f"{cls}:full", R_OPT, True, lambda it, cls=cls: D.embed(cls, D.full(cls)), f"{cls} with all attributes")
        # unknown attribute
        unk = rx.minus(rx.ANY, rx.words(names + ["modelType"]))

        def unknown(it, cls=cls, unk=unk):
            o = D.minimal(cls)
            d = D.lift(o)
            d.put(AbsStr(unk, name="attribute"), any_json("attribute value"))
            return D.embed(cls, d)
        add(f"{cls}:unknown", R_UNK, False, unknown, f"{cls} with an unknown attribute")
        for n, t, req in attrs:
            k = kind_of(t)
            if not (cls == "Environment" and not req and False):
                add(f"{cls}.{n}:kind", R_KIND, False, obj(cls, n, lambda k=k, n=n: any_json(n, (k,))),
                    f"{cls}.{n} of a JSON kind other than {k}")
            if req:
                def missing(it, cls=cls, n=n):
                    o = D.minimal(cls)
                    del o[n]
                    return D.embed(cls, o)
                add(f"{cls}.{n}:missing", R_REQ, False, missing, f"{cls} without {n}")
            else:
                def present(it, cls=cls, n=n, t=t):
                    o = D.minimal(cls)
                    f = D.full(cls)
                    if n in f:
                        o[n] = f[n]
                    else:
                        o[n] = D.minimal(t)
                    fix(cls, n, o)
                    return D.embed(cls, o)
                add(f"{cls}.{n}:present", R_OPT, True, present, f"{cls} with {n}")

                if n == "idShort" and cls in M.SUBMODEL_ELEMENTS:
                    continue

                def absent(it, cls=cls, n=n):
                    o = D.full(cls)
                    o.pop(n, None)
                    fix_absent(cls, n, o)
                    return D.embed(cls, o)
                add(f"{cls}.{n}:absent", R_OPT, True, absent, f"{cls} with everything but {n}")
            if t[0] == "#":
                lits = M.ENUMS[t[1:]]
                bad = rx.minus(rx.ANY, rx.words(lits))
                add(f"{cls}.{n}:literal", R_ENUM, False, obj(cls, n, lambda bad=bad, n=n: AbsStr(bad, name=n)),
                    f"{cls}.{n} with a literal that does not exist")
                for lit, o in enum_accepts(cls, n, t):
                    add(f"{cls}.{n}:{lit}", R_ENUM, True, lambda it, cls=cls, o=o: D.embed(cls, o), f"{cls}.{n} = {lit}")
            if t[0] == "[":
                add(f"{cls}.{n}:empty", R_EMPTY, False, obj(cls, n, lambda: []), f"{cls}.{n} empty")
                tt = t[1:-1]
                ik = kind_of(tt)
                tc = D._ABS.get(tt, tt)
                for pos in ("first", "last"):
                    def items(it, cls=cls, n=n, tc=tc, ik=ik, pos=pos):
                        good = good_item(cls, n, tc)
                        bad = any_json("item", (ik,))
                        o = D.minimal(cls)
                        o[n] = [bad, good] if pos == "first" else [good, bad]
                        fix(cls, n, o)
                        return D.embed(cls, o)
                    add(f"{cls}.{n}:item-kind-{pos}", R_ITEM, False, items, f"{cls}.{n} with an item of a wrong kind")
    # edges: every class at every place
    for owner, n, lst, k in D.edges():
        via = (owner, n, lst)
        def good(it, owner=owner, n=n, k=k, via=via):
            return D.embed(k, D.edge_obj(owner, n, k), via)
        add(f"{owner}.{n}/{k}:accept", R_EDGE, True, good, f"{k} at {owner}.{n}")

        def bad(it, owner=owner, n=n, k=k, via=via):
            o = D.edge_obj(owner, n, k)
            o["unknownAttribute"] = "x"
            return D.embed(k, o, via)
        add(f"{owner}.{n}/{k}:unknown", R_EDGE, False, bad, f"{k} with an unknown attribute at {owner}.{n}")
        for a, t, req in M.CLASSES[k]:
            if req:
                def miss(it, owner=owner, n=n, k=k, via=via, a=a):
                    o = D.edge_obj(owner, n, k)
                    del o[a]
                    return D.embed(k, o, via)
                add(f"{owner}.{n}/{k}:missing-{a}", R_EDGE, False, miss, f"{k} without {a} at {owner}.{n}")
        if lst:
            # an invalid item among arbitrarily many valid ones
            def seg(it, owner=owner, n=n, k=k):
                o = D.minimal(owner)
                b = D.edge_obj(owner, n, k)
                b["unknownAttribute"] = "x"
                D.fix_host(owner, n, o, k, b)
                mk = lambda i: lift(good_edge(owner, n, k, i))
                o[n] = PyList([Seg(mk, 0, None, "before"), lift(b), Seg(mk, 0, None, "after")])
                return D.embed(owner, o)
            add(f"{owner}.{n}/{k}:among", R_ITEM, False, seg, f"{owner}.{n}: one invalid {k} among any number of valid ones")
    # model types
    for cls in sorted(M.MODEL_TYPED):
        edges = [(o, n, l) for o, n, l, k in D.edges() if k == cls]
        for owner, n, lst in edges:
            t = M.attr(owner, n)[1].strip("[]")
            allowed = M.ABSTRACT.get(t, [cls])
            via = (owner, n, lst)
            def mt(it, cls=cls, via=via, allowed=tuple(allowed)):
                o = D.edge_obj(via[0], via[1], cls)
                bad = rx.minus(rx.ANY, rx.words(list(allowed)))
                o["modelType"] = AbsStr(bad, name="modelType")
                return D.embed(cls, o, via)
            add(f"{owner}.{n}/{cls}:modelType-wrong", R_MT, False, mt, f"{cls} at {owner}.{n} with a foreign modelType")

            def nomt(it, cls=cls, via=via):
                o = D.edge_obj(via[0], via[1], cls)
                del o["modelType"]
                return D.embed(cls, o, via)
            add(f"{owner}.{n}/{cls}:modelType-missing", R_MT, False, nomt, f"{cls} at {owner}.{n} without modelType")

            def kmt(it, cls=cls, via=via):
                o = D.edge_obj(via[0], via[1], cls)
                o["modelType"] = any_json("modelType", ("str",))
                return D.embed(cls, o, via)
            add(f"{owner}.{n}/{cls}:modelType-kind", R_MT, False, kmt, f"{cls} at {owner}.{n} with a modelType that is no string")
    # root
    add("root:kind", R_ROOT, False, lambda it: any_json("root", ("obj",)), "document root")
    for cls in ("AssetAdministrationShell", "Submodel", "ConceptDescription", "Reference", "Property",
                "SubmodelElementCollection", "AssetInformation", "Key", "Environment", "Qualifier"):
        def mtp(it, cls=cls):
            D.judge(attempt(sym("file", "check_json_data"), D.lift(D.minimal(cls)), model_type=cls), True,
                    f"a {cls} checked as model type {cls}")
        obs.append(Ob(f"model_type:{cls}", mtp, "the requested model type decides what the root must be"))

        def mtb(it, cls=cls):
            o = D.minimal(cls)
            o["unknownAttribute"] = "x"
            D.judge(attempt(sym("file", "check_json_data"), D.lift(o), model_type=cls), False,
                    f"an invalid {cls} checked as model type {cls}")
        obs.append(Ob(f"model_type:{cls}:bad", mtb, "the requested model type decides what the root must be"))

        def mtk(it, cls=cls):
            D.judge(attempt(sym("file", "check_json_data"), any_json("root", ("obj",)), model_type=cls), False,
                    f"a non-object checked as model type {cls}")
        obs.append(Ob(f"model_type:{cls}:kind", mtk, "the requested model type decides what the root must be"))
    return obs


def good_item(cls, n, tc):
    o = good_edge(cls, n, tc, 0)
    return o


def good_edge(owner, n, k, i):
    o = D.edge_obj(owner, n, k, f"id{i}")
    if owner == "SubmodelElementList" and n == "value" and isinstance(o, dict):
        o.pop("idShort", None)
    if isinstance(o, dict) and k == "OperationVariable":
        o["value"]["idShort"] = f"id{i}"
    return o


def fix(cls, n, o):
    """make the rest of o consistent with attribute n being present"""
    if (cls, n) == ("AdministrativeInformation", "revision"):
        o["version"] = "1"
    if n == "supplementalSemanticIds":
        o["semanticId"] = D.minimal("Reference")
    if cls == "Entity" and n in ("globalAssetId", "specificAssetIds"):
        o["entityType"] = "SelfManagedEntity"
    if cls == "SubmodelElementList" and n == "value":
        o["typeValueListElement"] = "Capability"


def fix_absent(cls, n, o):
    if (cls, n) == ("AdministrativeInformation", "version"):
        o.pop("revision", None)
    if n == "semanticId":
        o.pop("supplementalSemanticIds", None)
    if (cls, n) == ("AssetInformation", "specificAssetIds"):
        o["globalAssetId"] = "urn:a"
    if (cls, n) == ("AssetInformation", "globalAssetId"):
        o["specificAssetIds"] = [D.minimal("SpecificAssetId")]
