"""C07: constrained strings -- length, character set and pattern of every string attribute of the metamodel."""
from .common import *
from . import docs as D, meta as M, xsd

LEVEL = "other"
TCH = "[!#$%&'*+\\-.^_`|~0-9a-zA-Z]"
MIME = (f"({TCH})+/({TCH})+([ \\t]*;[ \\t]*({TCH})+=(({TCH})+|\"(([\\t !#-\\[\\]-~]|[\\x80-\\xff])|"
        f"\\\\([\\t !-~]|[\\x80-\\xff]))*\"))*")
MIME_CORE = f"({TCH})+/({TCH})+(;{TCH}+={TCH}+)*"
_m = {}


def lang(kind):
    """(accept, reject) languages of a string type, apart from its length limits"""
    if kind in _m:
        return _m[kind]
    pat = M.STRINGS[kind][2]
    base = D.xml_chars()
    acc, rej = base, base.neg()
    if pat == "version":
        acc = rx.inter(base, rx.compile_spec("0|[1-9][0-9]*"))
        rej = acc.neg()
    elif pat == "idshort":
        acc = rx.inter(base, rx.compile_spec("[a-zA-Z][a-zA-Z0-9_]*"))
        rej = acc.neg()
    elif pat == "mime":
        full = rx.compile_spec(MIME)
        acc = rx.inter(base, rx.compile_spec(MIME_CORE))
        rej = rx.union(rej, full.neg())
    elif pat == "uri":
        a, r = xsd.spec("anyURI")
        acc = rx.inter(base, a)
        rej = rx.union(rej, r)
    elif pat == "duration":
        acc = rx.compile_spec(xsd.DURATION)
        rej = acc.neg()
    elif pat == "datetime":
        a, r = xsd.spec("dateTime")
        acc = rx.inter(a, rx.concat(rx.ANY, rx.words(["Z", "+00:00"])))
        rej = r
    if kind == "Blob":
        acc = xsd.spec("base64Binary")[0]
    _m[kind] = (acc, rej)
    return _m[kind]


def bcp47(fold):
    """RFC 5646, section 2.1; with fold also other spellings of the grandfathered tags"""
    al = "[A-Za-z0-9]"
    ext = "[A-Za-z]{3}(-[A-Za-z]{3}){0,2}"
    lang = f"([A-Za-z]{{2,3}}(-{ext})?|[A-Za-z]{{4}}|[A-Za-z]{{5,8}})"
    var = f"({al}{{5,8}}|[0-9]{al}{{3}})"
    single = "[0-9A-WY-Za-wy-z]"
    priv = f"[xX](-{al}{{1,8}})+"
    tag = f"{lang}(-[A-Za-z]{{4}})?(-([A-Za-z]{{2}}|[0-9]{{3}}))?(-{var})*(-{single}(-{al}{{2,8}})+)*(-{priv})?"
    old = ("en-GB-oed i-ami i-bnn i-default i-enochian i-hak i-klingon i-lux i-mingo i-navajo i-pwn i-tao i-tay i-tsu sgn-BE-FR sgn-BE-NL sgn-CH-DE "
           "art-lojban cel-gaulish no-bok no-nyn zh-guoyu zh-hakka zh-min zh-min-nan zh-xiang").split()
    if fold:
        old = ["".join(f"[{c.lower()}{c.upper()}]" if c.isalpha() else c for c in w) for w in old]
    return rx.compile_spec("|".join([tag, priv] + old))


def bcp_rej():
    return rx.inter(D.xml_chars(), rx.minus(rx.ANY, bcp47(True)))


def obligations(tier):
    obs = []

    CHARS = "a\u00e9\U0001f600\u0301\t \u20ac"

    def widths(cls, n, l, lo, hi):
        """the limits count characters, whatever their size or meaning"""
        for ch in CHARS:
            for m in sorted({x for x in (lo, hi) if x}):
                if l.accepts(ch * m):
                    add(cls, n, ch * m, None, None, True, f"accept {m} times {ch!r}", "string within its limits and pattern => accepted")
            if hi:
                add(cls, n, ch * (hi + 1), None, None, False, f"{hi + 1} times {ch!r}", "string longer than the limit => ERROR")

    def add(cls, n, l, lo, hi, want, tag, rule):
        def fn(it):
            v = l if isinstance(l, str) else AbsStr(l, lo, hi, name="value")
            o = D.minimal(cls)
            o[n] = v
            if (cls, n) == ("Entity", "globalAssetId"):
                o["entityType"] = "SelfManagedEntity"
            if (cls, n) == ("AdministrativeInformation", "revision"):
                o["version"] = "1"
            if (cls, n) == ("AssetInformation", "globalAssetId"):
                pass
            r = D.check_json(D.embed(cls, o))
            D.judge(r, want, lambda: f"{cls}.{n} with {'an allowed' if want else 'a forbidden'} value, e.g. {((v if isinstance(v, str) else v.example()) or '')[:60]!r}")
        obs.append(Ob(f"{cls}.{n}:{tag}", fn, rule))
    for cls, attrs in M.CLASSES.items():
        for n, t, req in attrs:
            if t[0] != "@":
                continue
            kind = t[1:]
            a, r = lang(kind)
            lo, hi, pat = M.STRINGS[kind]
            if kind == "Value":
                add(cls, n, D.xml_chars().neg(), 0, None, False, "chars", "characters outside XML 1.0 => ERROR (AASd-130)")
                continue
            if n == "category" and cls in M.DATA_ELEMENTS:
                a = None
            if (cls, n) == ("SpecificAssetId", "name"):
                g = rx.compile_spec("[gG][lL][oO][bB][aA][lL][aA][sS][sS][eE][tT][iI][dD]")
                a = rx.minus(a, g)
            if a is not None:
                add(cls, n, a, lo, hi, True, "accept", "string within its limits and pattern => accepted")
                widths(cls, n, a, lo, hi)
            if lo:
                add(cls, n, rx.word(""), 0, None, False, "empty", "empty string => ERROR")
            if hi:
                add(cls, n, D.xml_chars(), hi + 1, None, False, "long", "string longer than the limit => ERROR")
            add(cls, n, r, lo, hi, False, "reject",
                "string outside its pattern or character set => ERROR")
    for cls, hi in M.LANG_LEN.items():
        add(cls, "text", D.xml_chars(), 1, hi, True, "accept", "language string text within limits => accepted")
        widths(cls, "text", D.xml_chars(), 1, hi)
        add(cls, "text", rx.word(""), 0, None, False, "empty", "empty text => ERROR")
        add(cls, "text", D.xml_chars(), hi + 1, None, False, "long", "text longer than the limit => ERROR")
        add(cls, "text", D.xml_chars().neg(), 1, hi, False, "chars", "characters outside XML 1.0 => ERROR (AASd-130)")
        if cls not in ("PreferredName", "Definition"):
            add(cls, "language", bcp47(False), 0, None, True, "accept", "BCP 47 tag => accepted")
        add(cls, "language", bcp_rej(), 0, None, False, "reject", "not a BCP 47 tag => ERROR")
    return obs
