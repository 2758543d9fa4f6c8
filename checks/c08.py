"""C08: typed values conform exactly to the lexical space of their XSD type."""
from .common import *
from . import docs as D, meta as M, xsd

LEVEL = "other"

CARRIERS = {
    "Property.value": lambda vt, v: ("Property", {**D.minimal("Property"), "valueType": vt, "value": v}),
    "Range.min": lambda vt, v: ("Range", {**D.minimal("Range"), "valueType": vt, "min": v}),
    "Range.max": lambda vt, v: ("Range", {**D.minimal("Range"), "valueType": vt, "max": v}),
    "Qualifier.value": lambda vt, v: ("Qualifier", {**D.minimal("Qualifier"), "valueType": vt, "value": v}),
    "Extension.value": lambda vt, v: ("Extension", {**D.minimal("Extension"), "valueType": vt, "value": v}),
}
CONST = {
    "float": ([("3.4028234663852886e38"), "-3.4028234663852886e38", "0", "-0", "1e38", "+1.5E-45", "INF", "-INF", "NaN"],
              ["3.5e38", "-3.5e38", "1e39", "inf", "nan", "Infinity", "+INF", "1e", "e5", "", ".", "0x1p3", "1,5"]),
    "double": (["1.7976931348623157e308", "-1.7976931348623157e308", "4.9e-324", "1e38", "-1e300", "INF", "NaN"],
               ["1.8e308", "1e309", "-1e400", "inf", "NAN", "-NaN", "1_0", " 1", "1d"]),
    "decimal": (["0", "-1.5", "+.5", "00.10", "9" * 60], ["1e5", "INF", "NaN", "1,0", "--1", "", "."]),
    "dateTime": (["2000-02-29T12:00:00Z", "-0001-02-29T00:00:00", "12345-12-31T24:00:00.000+14:00"],
                 ["1900-02-29T00:00:00", "0000-01-01T00:00:00", "2020-01-01T24:00:01", "2020-01-01", "2020-01-01T00:00:00+14:01",
                  "2020-04-31T00:00:00"]),
    "base64Binary": (["", "YQ==", "YWI=", "YWJj"], ["YQ", "YQ=", "Y===", "YWJj=", "a-_b", "!!!!", "YQ==YQ=="]),
}


BOUNDED = {"byte", "short", "int", "long", "unsignedByte", "unsignedShort", "unsignedInt", "unsignedLong"}


def obligations(tier):
    obs = []
    def add(t, carrier, lang, want, tag):
        def fn(it):
            v = AbsStr(rx.inter(lang, D.xml_chars()), name="value")
            cls, o = CARRIERS[carrier]("xs:" + t, v)
            r = D.check_json(D.embed(cls, o))
            D.judge(r, want, lambda: f"{carrier} of type xs:{t} with {'a valid' if want else 'an invalid'} value, e.g. {v.example()!r}")
        obs.append(Ob(f"{carrier}:xs:{t}:{tag}", fn, f"typed value {'inside' if want else 'outside'} the lexical space => {'accepted' if want else 'ERROR'}"))
    def addc(t, carrier, w, want):
        def fn(it):
            cls, o = CARRIERS[carrier]("xs:" + t, w)
            D.judge(D.check_json(D.embed(cls, o)), want, lambda: f"{carrier} of type xs:{t} with value {w!r}")
        obs.append(Ob(f"{carrier}:xs:{t}:const:{w[:30]!r}", fn, "boundary value"))
    for t in M.XSD:
        a, r = xsd.spec(t)
        add(t, "Property.value", a, True, "accept")
        if not rx.inter(r, D.xml_chars()).empty():
            add(t, "Property.value", r, False, "reject")
        for w in CONST.get(t, ((), ()))[0]:
            addc(t, "Property.value", w, True)
        for w in CONST.get(t, ((), ()))[1]:
            addc(t, "Property.value", w, False)
    # every other carrier applies the same lexical space: one symbolic accept and one reject per type
    for c in CARRIERS:
        if c == "Property.value":
            continue
        for t in M.XSD:
            a, r = xsd.spec(t)
            add(t, c, a, True, "accept")
            if not rx.inter(r, D.xml_chars()).empty():
                add(t, c, r, False, "reject")
    # values beyond the conversion limits of the interpreter: a verdict in any case, and never a wrong one for bounded types
    huge = {"date": ["9" * 4400 + "-01-01", "-" + "1" * 4400 + "-02-28Z"], "dateTime": ["9" * 4400 + "-01-01T00:00:00"], "gYear": ["9" * 4400], "gYearMonth": ["9" * 4400 + "-01"]}
    for t in M.XSD:
        num = t.lower().endswith(("integer", "int", "long", "short", "byte")) or t in ("decimal", "double", "float")
        for w in huge.get(t, []) + (["9" * 4400, "-" + "9" * 4400, "+" + "0" * 4400, "0" * 4400 + "1"] if num else []):
            def big(it, t=t, w=w):
                cls, o = CARRIERS["Property.value"]("xs:" + t, w)
                k, v = D.check_json(D.embed(cls, o))
                if k == "raise":
                    raise_violation(f"a value of type xs:{t} with {len(w)} characters", v)
                if t in BOUNDED and "9" in w and ok_of(v):
                    raise Violation(f"a value of type xs:{t} with {len(w)} digits is accepted", key="huge")
            obs.append(Ob(f"Property.value:xs:{t}:huge:{w[:6]}", big, "values of any length get a verdict"))
    # values with no declared type are unconstrained (Extension without valueType)
    def free(it):
        v = AbsStr(D.xml_chars(), name="value")
        o = {**D.minimal("Extension"), "value": v}
        D.judge(D.check_json(D.embed("Extension", o)), True, "Extension.value without valueType")
    obs.append(Ob("Extension.value:untyped", free, "untyped value accepted"))
    return obs
