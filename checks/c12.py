"""C12: constraints of the data specification IEC 61360 (AASc-3a-002, 004 .. 010)."""
import itertools
from .common import *
from . import docs as D, meta as M

LEVEL = "other"
PROP = ["DATE", "STRING", "STRING_TRANSLATABLE", "INTEGER_MEASURE", "INTEGER_COUNT", "INTEGER_CURRENCY", "REAL_MEASURE",
        "REAL_COUNT", "REAL_CURRENCY", "BOOLEAN", "RATIONAL", "RATIONAL_MEASURE", "TIME", "TIMESTAMP"]
BY_CATEGORY = {"PROPERTY": PROP, "VALUE": PROP, "REFERENCE": ["STRING", "IRI", "IRDI"], "DOCUMENT": ["FILE", "BLOB", "HTML"]}
NUM = {"PROPERTY": "AASc-3a-004", "VALUE": "AASc-3a-004", "REFERENCE": "AASc-3a-005", "DOCUMENT": "AASc-3a-006"}
UNIT = ["INTEGER_MEASURE", "REAL_MEASURE", "RATIONAL_MEASURE", "INTEGER_CURRENCY", "REAL_CURRENCY"]
EN = "[eE][nN](-[A-Z]{2})?"
OTHER = "(de|fr|zh|eng?x|enu|xen|x-en|de-EN)" 


def eds(content):
    return {"dataSpecification": D.lift_ref(), "dataSpecificationContent": content}


def content(**k):
    c = D.minimal("DataSpecificationIec61360")
    for a, b in k.items():
        if b is None:
            c.pop(a, None)
        else:
            c[a] = b
    return c


def cd(contents, category=None):
    o = D.minimal("ConceptDescription")
    if category is not None:
        o["category"] = category
    o["embeddedDataSpecifications"] = [eds(c) for c in contents]
    return {"conceptDescriptions": [o]}


def ls(lang, text="t"):
    return {"language": lang, "text": text}


def non_english():
    """valid tags whose primary language is not English"""
    base = rx.compile_spec("[a-z]{2,3}(-[A-Z]{2})?")
    return rx.minus(base, rx.compile_spec("en(-[A-Z]{2})?"))


def obligations(tier):
    obs = []

    def add(name, rule, want, build):
        def fn(it):
            r = D.judge(D.check_json(build(it)), want, name)
            if not want and rule.startswith("AASc-"):
                D.named(r, [rule.split(":")[0]])
        obs.append(Ob(name, fn, rule))
    en = lambda: AbsStr(rx.compile_spec("en(-[A-Z]{2})?"), name="language")
    xx = lambda: AbsStr(non_english(), name="language")
    unit = {"unit": "m"}
    # 002
    r = "AASc-3a-002: preferredName in English"
    for n in (1, 2, 3):
        add(f"002:none of {n}", r, False, lambda it, n=n: cd([content(preferredName=[ls(xx()) for _ in range(n)])]))
        for pos in range(n):
            add(f"002:{pos} of {n}", r, True, lambda it, n=n, pos=pos: cd([content(preferredName=[ls(en() if i == pos else xx()) for i in range(n)])]))
    hosts = [(o, n, l) for o, n, l, k in D.edges() if k == "EmbeddedDataSpecification"]
    for o, n, l in hosts:
        add(f"002:{o}", r + " (wherever a data specification occurs)", False, lambda it, v=(o, n, l): D.embed(
            "EmbeddedDataSpecification", eds(content(preferredName=[ls(xx())])), v))
    # 004..006
    for cat, ok in BY_CATEGORY.items():
        r = f"{NUM[cat]}: data type of concept descriptions of category {cat}"
        add(f"{cat}:ok", r, True, lambda it, cat=cat, ok=ok: cd([content(dataType=AbsStr(rx.words(ok), name="dataType"), **unit)], cat))
        bad = [x for x in M.ENUMS["Iec"] if x not in ok]
        add(f"{cat}:bad", r, False, lambda it, cat=cat, bad=bad: cd([content(dataType=AbsStr(rx.words(bad), name="dataType"), **unit)], cat))
        for pos in (0, 1, 2):
            add(f"{cat}:bad:{pos}", r, False, lambda it, cat=cat, bad=bad, ok=ok, pos=pos: cd([
                content(dataType=AbsStr(rx.words(bad if i == pos else ok[:1]), name="dataType"), **unit) for i in range(3)], cat))
        if NUM[cat] == "AASc-3a-004":
            add(f"{cat}:missing", r, False, lambda it, cat=cat: cd([content()], cat))
            add(f"{cat}:missing:second", r, False, lambda it, cat=cat: cd([content(dataType="DATE"), content()], cat))
    free = rx.minus(D.xml_chars(), rx.words(list(BY_CATEGORY) + ["QUALIFIER_TYPE"]))
    r = "AASc-3a-004..007 apply to their categories only"
    add("other category", r, True, lambda it: cd([content(dataType=AbsStr(rx.words(M.ENUMS["Iec"]), name="dataType"), **unit)],
                                                 AbsStr(free, 1, 128, name="category")))
    add("other category:no type", r, True, lambda it: cd([content()], AbsStr(free, 1, 128, name="category")))
    add("no category", r, True, lambda it: cd([content(dataType=AbsStr(rx.words(M.ENUMS["Iec"]), name="dataType"), **unit)]))
    add("no category:no type", r, True, lambda it: cd([content()]))
    # 007
    r = "AASc-3a-007: category QUALIFIER_TYPE requires a data type"
    add("QUALIFIER_TYPE:missing", r, False, lambda it: cd([content()], "QUALIFIER_TYPE"))
    add("QUALIFIER_TYPE:missing:second", r, False, lambda it: cd([content(dataType="DATE"), content()], "QUALIFIER_TYPE"))
    add("QUALIFIER_TYPE:ok", r, True, lambda it: cd([content(dataType=AbsStr(rx.words(M.ENUMS["Iec"]), name="dataType"), **unit)], "QUALIFIER_TYPE"))
    # 008
    r = "AASc-3a-008: definition in English unless a value is given"
    val = lambda: AbsStr(D.xml_chars(), 1, 2000, name="value")
    add("008:missing", r, False, lambda it: cd([content(definition=None)]))
    for n in (1, 2, 3):
        add(f"008:none of {n}", r, False, lambda it, n=n: cd([content(definition=[ls(xx()) for _ in range(n)])]))
        for pos in range(n):
            add(f"008:{pos} of {n}", r, True, lambda it, n=n, pos=pos: cd([content(definition=[ls(en() if i == pos else xx()) for i in range(n)])]))
    add("008:value", r, True, lambda it: cd([content(definition=None, value=val())]))
    add("008:value, not English", r, True, lambda it: cd([content(definition=[ls(xx())], value=val())]))
    add("008:first has value", r, False, lambda it: cd([content(definition=None, value=val()), content(definition=None)]))
    add("008:second has value", r, False, lambda it: cd([content(definition=None), content(definition=None, value=val())]))
    add("008:second", r, False, lambda it: cd([content(), content(definition=[ls(xx())])]))
    # 009
    r = "AASc-3a-009: measures and currencies have a unit"
    ref = D.minimal("Reference")
    for o, n, l in hosts:
        v = (o, n, l)
        e = lambda it, v=v, **k: D.embed("EmbeddedDataSpecification", eds(content(**{a: (b() if callable(b) else b) for a, b in k.items()})), v)
        u = lambda: AbsStr(rx.words(UNIT), name="dataType")
        f = lambda: AbsStr(rx.words([x for x in M.ENUMS["Iec"] if x not in UNIT]), name="dataType")
        add(f"009:{o}:none", r, False, lambda it, e=e, u=u: e(it, dataType=u))
        add(f"009:{o}:unit", r, True, lambda it, e=e, u=u: e(it, dataType=u, unit="m"))
        add(f"009:{o}:unitId", r, True, lambda it, e=e, u=u: e(it, dataType=u, unitId=D.minimal("Reference")))
        add(f"009:{o}:both", r, True, lambda it, e=e, u=u: e(it, dataType=u, unit="m", unitId=D.minimal("Reference")))
        add(f"009:{o}:other", r, True, lambda it, e=e, f=f: e(it, dataType=f))
        r10 = "AASc-3a-010: value and valueList exclude each other"
        vl = lambda: D.minimal("ValueList")
        add(f"010:{o}:both", r10, False, lambda it, e=e: e(it, value=val, valueList=vl))
        add(f"010:{o}:value", r10, True, lambda it, e=e: e(it, value=val))
        add(f"010:{o}:list", r10, True, lambda it, e=e: e(it, valueList=vl))
        add(f"010:{o}:none", r10, True, lambda it, e=e: e(it))
    # several concept descriptions
    def many(pos):
        def b(it):
            ok, bad = cd([content()])["conceptDescriptions"][0], cd([content(definition=None)])["conceptDescriptions"][0]
            return {"conceptDescriptions": [{**(bad if i == pos else ok), "id": f"urn:{i}"} for i in range(3)]}
        return b
    for pos in range(3):
        add(f"008:concept {pos}", "the constraints hold for every concept description", False, many(pos))
    return obs
