"""C14: submodels of a supported template are checked for exactly the fields of the template."""
import copy
from .common import *
from . import docs as D, pkg as P
from .templates import TEMPLATES, ENUMS, CLASSES

LEVEL = "other"
R_OK = "a submodel that follows its template passes"
R_CARD = "a missing mandatory field or a repeated single field fails, an absent optional field does not"
R_KIND = "an element of another kind than the template's fails"
R_VAL = "a value of another type, no value or a value outside of the value list fails"
R_NAME = "the report names the field"
R_OTHER = "elements and submodels without or with another semantic id are not judged by the template"
R_BOTH = "the verdict is the same for JSON and XML and for packages"
R_ALL = "every submodel of the environment is checked, and every element of a repeated field"
R_LIST = "exactly the supported templates are announced"


def ref(sid):
    return {"type": "ExternalReference", "keys": [{"type": "GlobalReference", "value": sid}]}


def value(kind):
    """a conforming element of a kind, without idShort"""
    if kind == "lang":
        return {"modelType": "MultiLanguageProperty", "value": [{"language": "de", "text": "Text"}, {"language": "en", "text": "text"}]}
    if kind == "date":
        return {"modelType": "Property", "valueType": "xs:date", "value": "2020-02-29"}
    if kind == "str":
        return {"modelType": "Property", "valueType": "xs:string", "value": "v"}
    if kind in ENUMS:
        return {"modelType": "Property", "valueType": "xs:string", "value": ENUMS[kind][-1]}
    return {"modelType": "SubmodelElementCollection", "value": fields(kind, False)}


def field(row, n=0, **k):
    name, sid, kind, card = row
    return {**value(kind), "idShort": f"{name[0].lower()}{name[1:]}{n}", "semanticId": ref(sid), **k}


def fields(cls, full):
    out = [field(r) for r in CLASSES[cls] if full or r[3] in "1+"]
    if not out:
        out = [field(CLASSES[cls][0])]
    if cls == "DigitalNameplate" and not full:
        out.append(field(next(r for r in CLASSES[cls] if r[0] == "ManufacturerProductFamily")))
    for e in out:
        row = next(r for r in CLASSES[cls] if r[1] == e["semanticId"]["keys"][0]["value"])
        if full and row[2] in CLASSES:
            e["value"] = fields(row[2], True)
    return out


def submodel(tid, els, ident="urn:s"):
    return {"modelType": "Submodel", "id": ident, "semanticId": ref(tid), **({"submodelElements": els} if els else {})}


def places(tid):
    """(class, path of fields from the template to an object of the class)"""
    out = []

    def go(cls, path):
        out.append((cls, path))
        for r in CLASSES[cls]:
            if r[2] in CLASSES:
                go(r[2], path + [r])
    go(TEMPLATES[tid], [])
    return out


def build(tid, path, els, full=False):
    """a submodel of the template with the given elements at the place"""
    def go(cls, path):
        if not path:
            return els
        out = [e for e in fields(cls, full) if e["semanticId"]["keys"][0]["value"] != path[0][1]]
        return out + [field(path[0], value=go(path[0][2], path[1:]))]
    return submodel(tid, go(TEMPLATES[tid], path))


def obligations(tier):
    obs = []

    def add(name, rule, fn, **k):
        obs.append(Ob(name, fn, rule, **{**dict(max_steps=20000000), **k}))

    def run(it, form, *sms):
        d = {"submodels": list(sms)}
        if form == "json":
            return attempt(sym("file", "check_json_data"), D.jdoc(d))
        if form == "xml":
            return attempt(sym("file", "check_xml_data"), D.xdoc(it, "Environment", d))
        return attempt(sym("file", "check_aasx_data"), P.zip_inst(it, P.standard(it, P.json_src("aasx/data.json", lambda: d), spec_name="aasx/data.json")))

    def expect(it, form, want, what, *sms, names=()):
        k, v = run(it, form, *sms)
        if k == "raise":
            raise_violation(what, v)
        if bool(ok_of(v)) != want:
            bad = [m for d, m, l, n in walk(v) if l in ("ERROR", "CRITICAL")]
            raise Violation(f"{what} {'passes' if not want else 'fails: ' + show(bad[-1])[:150]}", key="reject" if want else "accept")
        for n in names:
            if not any(text_has(m, n) for d, m, l, x in walk(v) if l in ("ERROR", "CRITICAL")):
                raise Violation(f"{what}: the report does not name {n}", key="name")
        return v
    FORMS = ("json", "xml", "aasx")
    for tid in TEMPLATES:
        T = TEMPLATES[tid]
        for form in FORMS:
            for full in (False, True):
                def ok(it, tid=tid, T=T, form=form, full=full):
                    v = expect(it, form, True, f"a {'complete' if full else 'minimal'} {T}", submodel(tid, fields(T, full)))
                    if not any(text_has(m, T) for d, m, l, x in walk(v)):
                        raise Violation(f"the report does not name the template {T}", key="name")
                add(f"ok:{T}:{form}:{'full' if full else 'minimal'}", R_OK, ok)
        for cls, path in places(tid):
            at = "/".join([T] + [r[0] for r in path])
            for row in CLASSES[cls]:
                name, sid, kind, card = row
                for form in (FORMS if tier != "quick" and not path else ("json", "xml") if not path else ("json",)):
                    def absent(it, tid=tid, cls=cls, path=path, row=row, at=at, form=form):
                        els = [e for e in fields(cls, True) if e["semanticId"]["keys"][0]["value"] != row[1]]
                        if not els:
                            els = [{"modelType": "Capability", "idShort": "other"}]
                        need = row[3] in "1+"
                        expect(it, form, not need, f"{at} without {row[0]}", build(tid, path, els), names=[row[0]] if need else [])
                    add(f"absent:{at}.{name}:{form}", R_CARD, absent)

                    def twice(it, tid=tid, cls=cls, path=path, row=row, at=at, form=form):
                        many = row[3] in "+*"
                        expect(it, form, many, f"{at} with two {row[0]}", build(tid, path, fields(cls, True) + [field(row, 1)]), names=[] if many else [row[0]])
                    add(f"twice:{at}.{name}:{form}", R_CARD, twice)

                    def only(it, tid=tid, cls=cls, path=path, row=row, at=at, form=form):
                        els = fields(cls, False)
                        if not any(e["semanticId"]["keys"][0]["value"] == row[1] for e in els):
                            els = els + [field(row)]
                        expect(it, form, True, f"{at} with {row[0]}", build(tid, path, els))
                    add(f"present:{at}.{name}:{form}", R_OK, only)

                    # kinds and values
                    def bad_of(row=row):
                        kind = row[2]
                        other = {"lang": ["str", "collection", "capability"], "str": ["lang", "collection", "capability"], "date": ["lang", "collection"]}.get(kind, ["lang", "collection", "capability"] if kind in ENUMS else ["str", "lang", "capability"])
                        for o in other:
                            yield f"as {o}", "kind", {"str": value("str"), "lang": value("lang"), "collection": {"modelType": "SubmodelElementCollection", "value": [{"modelType": "Capability", "idShort": "c"}]}, "capability": {"modelType": "Capability"}}[o]
                        yield "without value", "value", {k: v for k, v in value(kind).items() if k != "value"}
                        if kind in ("str", "date") or kind in ENUMS:
                            for t, v in (("xs:int", "1"), ("xs:anyURI", "urn:x"), ("xs:date" if kind != "date" else "xs:string", "2020-02-29")):
                                yield f"of type {t}", "value", {**value(kind), "valueType": t, "value": v}
                    for tag, what, e in bad_of():
                        def bad(it, tid=tid, cls=cls, path=path, row=row, at=at, form=form, e=e, tag=tag):
                            els = [x for x in fields(cls, True) if x["semanticId"]["keys"][0]["value"] != row[1]]
                            expect(it, form, False, f"{at}.{row[0]} {tag}", build(tid, path, els + [{**e, "idShort": "field", "semanticId": ref(row[1])}]), names=[row[0]])
                        add(f"{what}:{at}.{name}:{tag}:{form}", R_KIND if what == "kind" else R_VAL, bad)
                        if card in "+*":
                            def bad2(it, tid=tid, cls=cls, path=path, row=row, at=at, form=form, e=e, tag=tag):
                                expect(it, form, False, f"{at}: second {row[0]} {tag}", build(tid, path, fields(cls, True) + [{**e, "idShort": "second", "semanticId": ref(row[1])}]), names=[row[0]])
                            add(f"{what}:{at}.{name}:second {tag}:{form}", R_ALL, bad2)
                    if kind in ENUMS:
                        def enum(it, tid=tid, cls=cls, path=path, row=row, at=at, form=form):
                            x = AbsStr(rx.compile_spec("[!-~]([ -~]{0,28}[!-~])?"), name="literal")
                            els = [y for y in fields(cls, True) if y["semanticId"]["keys"][0]["value"] != row[1]]
                            ins = B.str_test(x, rx.words(ENUMS[row[2]]), "a literal of the value list")
                            expect(it, form, bool(ins), f"{at}.{row[0]} {'in' if ins else 'not in'} the value list", build(tid, path, els + [field(row, value=x)]))
                        add(f"literal:{at}.{name}:{form}", R_VAL, enum)
                    if kind == "str":
                        def text(it, tid=tid, cls=cls, path=path, row=row, at=at, form=form):
                            x = AbsStr(rx.compile_spec("[!-~]([ -~]{0,28}[!-~])?"), name="value")
                            els = [y for y in fields(cls, True) if y["semanticId"]["keys"][0]["value"] != row[1]]
                            expect(it, form, True, f"{at}.{row[0]} with any text", build(tid, path, els + [field(row, value=x)]))
                        add(f"text:{at}.{name}:{form}", R_OK, text)
                    if kind == "date":
                        for d in ("2020-01-01", "1999-12-31", "2020-02-29Z", "2020-02-29+02:00"):
                            def date(it, tid=tid, cls=cls, path=path, row=row, at=at, form=form, d=d):
                                els = [y for y in fields(cls, True) if y["semanticId"]["keys"][0]["value"] != row[1]]
                                expect(it, form, True, f"{at}.{row[0]} {d}", build(tid, path, els + [field(row, value=d)]))
                            add(f"date:{at}.{name}:{d}:{form}", R_OK, date)

                def unmarked(it, tid=tid, cls=cls, path=path, row=row, at=at):
                    """elements without or with another semantic id do not count as the field"""
                    e = {k: v for k, v in field(row, 7).items() if k != "semanticId"}
                    if choose(2, "other semantic id"):
                        e["semanticId"] = ref(row[1] + "x")
                    els = [x for x in fields(cls, True) if x["semanticId"]["keys"][0]["value"] != row[1]]
                    need = row[3] in "1+"
                    expect(it, "json", not need, f"{at} with a {row[0]} that has not its semantic id", build(tid, path, els + [e]))
                    expect(it, "json", True, f"{at} with an additional element", build(tid, path, fields(cls, True) + [e]))
                add(f"unmarked:{at}.{name}", R_OTHER, unmarked)
        for form in FORMS:
            def empty(it, tid=tid, T=T, form=form):
                expect(it, form, False, f"a {T} without elements", submodel(tid, []))
            add(f"empty:{T}:{form}", R_CARD, empty)

        # several submodels: each is checked
        for n in range(3):
            def several(it, tid=tid, T=T, n=n):
                sms = [submodel(tid, fields(T, False), f"urn:s{i}") for i in range(3)]
                expect(it, "json", True, f"three {T}", *sms)
                sms[n]["submodelElements"] = sms[n]["submodelElements"][1:] or [{"modelType": "Capability", "idShort": "c"}]
                expect(it, "json", False, f"three {T}, {n} incomplete", *sms)
                for o in (None, "urn:other"):
                    mixed = copy.deepcopy(sms)
                    if o is None:
                        mixed[n].pop("semanticId")
                    else:
                        mixed[n]["semanticId"] = ref(o)
                    expect(it, "json", True, f"an incomplete submodel with {'no' if o is None else 'another'} semantic id", *mixed)
                    rest = copy.deepcopy(mixed)
                    rest[(n + 1) % 3]["submodelElements"] = [{"modelType": "Capability", "idShort": "c"}]
                    expect(it, "json", False, f"an incomplete {T} beside a submodel with {'no' if o is None else 'another'} semantic id", *rest)
            add(f"several:{T}:{n}", R_ALL, several)

    def anyid(it):
        x = AbsStr(rx.compile_spec("[!-~]{1,80}"), name="semantic id")
        known = B.str_test(x, rx.words(list(TEMPLATES)), "a supported template")
        expect(it, "json", not known, f"a submodel with {'a supported' if known else 'another'} semantic id and none of its elements", submodel(x, [{"modelType": "Capability", "idShort": "c"}]))
    add("semantic id", R_OTHER, anyid)

    def family(it):
        tid = next(t for t in TEMPLATES if TEMPLATES[t] == "DigitalNameplate")
        opt = [r for r in CLASSES["DigitalNameplate"] if r[0] in ("ManufacturerProductFamily", "ManufacturerProductType")]
        base = [e for e in fields("DigitalNameplate", True) if e["semanticId"]["keys"][0]["value"] not in [r[1] for r in opt]]
        for a in (0, 1):
            for b in (0, 1):
                expect(it, "json", bool(a or b), f"a nameplate with {'family ' if a else ''}{'type' if b else ''}", submodel(tid, base + [field(r) for r, x in zip(opt, (a, b)) if x]), names=[] if a or b else ["ManufacturerProductFamily", "ManufacturerProductType"])
    add("family or type", R_CARD, family)

    def announced(it):
        got = [x for x in B.iterate(it, it.getitem(call(sym("file", "supported_versions")), "3.0"))]
        if sorted(got) != sorted(TEMPLATES):
            raise Violation(f"the announced templates are {got}", key="announced")
    add("announced", R_LIST, announced)

    def plain(it):
        """a submodel that is invalid anyway is not saved by its template, and reports both are kept"""
        for tid, T in TEMPLATES.items():
            s = submodel(tid, fields(T, False))
            s["idShort"] = "1 x"
            expect(it, "json", False, f"a {T} with an invalid idShort", s)
    add("invalid submodel", R_ALL, plain)
    return obs
