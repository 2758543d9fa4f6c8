"""Package and file models shared by the file-level checks."""
from .common import *
from . import docs as D

ET = "xml.etree.ElementTree"
JSON_FAIL = [("malformed", "raise", (("json.decoder", "JSONDecodeError"), "Expecting value")),
             ("not utf-8", "raise", ("UnicodeDecodeError", "invalid start byte")),
             ("huge integer", "raise", ("ValueError", "Exceeds the limit (4300 digits) for integer string conversion")),
             ("deeply nested", "raise", ("RecursionError", "maximum recursion depth exceeded while decoding a JSON array from a unicode string"))]
XML_FAIL = [("malformed", "raise", ((ET, "ParseError"), "not well-formed")),
            ("unknown encoding", "raise", ("LookupError", "unknown encoding")),
            ("unsupported encoding", "raise", ("ValueError", "multi-byte encodings are not supported"))]
ZIP_FAIL = [("no zip", "raise", (("zipfile", "BadZipFile"), "File is not a zip file")),
            ("unsupported zip", "raise", ("NotImplementedError", "zip file version 6.3")),
            ("negative seek", "raise", ("ValueError", "negative seek value -1"))]
PART_FAIL = [("bad crc", "raise", (("zipfile", "BadZipFile"), "Bad CRC-32")),
             ("encrypted", "raise", ("RuntimeError", "File is encrypted, password required for extraction")),
             ("unsupported compression", "raise", ("NotImplementedError", "That compression method is not supported")),
             ("corrupt stream", "raise", (("zlib", "error"), "Error -3 while decompressing data")),
             ("truncated", "raise", ("EOFError", ""))]


class Zip:
    """archive: part name -> Src; a name given as AbsStr is resolved against the known names"""

    def __init__(self, it, parts):
        self.parts = parts  # name (str or AbsStr) -> Src ; insertion order
        self.it = it

    def namelist(self, i):
        return PyList([p for p, _ in self.parts])

    def open(self, i, name):
        for p, s in self.parts:
            if B.truth(i, B.eq(i, name, p)):
                if s.views.get("read") is not None:
                    s.get(i, "read")
                return L.model_file(i, s)
        i.throw("KeyError", B.cat("There is no item named ", i.repr_(name), " in the archive") if hasattr(B, "cat") else "no item")


def zip_inst(it, parts):
    cls = it.import_module("zipfile").ns["ZipFile"]
    return Inst(cls, {}, Zip(it, parts))


def part(name, xml=None, json=None, fail=False):
    """part whose content parses as the given element/document; fail: or is unreadable in any way"""
    f = [("ok", "ok", lambda: None)]
    return L.Src(name, read=(f + PART_FAIL) if fail else None, xml=xml, json=json)


NS_CT = "{http://schemas.openxmlformats.org/package/2006/content-types}"
NS_REL = "{http://schemas.openxmlformats.org/package/2006/relationships}"
REL = "http://admin-shell.io/aasx/relationships/"
OLD = "http://www.admin-shell.io/aasx/relationships/"


def rels(it, entries, root=None, tag=None):
    """relationship part content; entries: (type, target[, tag])"""
    kids = []
    for e in entries:
        at = {}
        if e[0] is not None:
            at["Type"] = e[0]
        if e[1] is not None:
            at["Target"] = e[1]
        at["Id"] = f"r{len(kids)}"
        kids.append(L.element(it, e[2] if len(e) > 2 else NS_REL + "Relationship", None, [], list(at.items())))
    return L.element(it, root if root is not None else NS_REL + "Relationships", None, kids)


def xml_ok(mk):
    return [("ok", "ok", mk)]


def ct(it, tag=NS_CT + "Types"):
    return L.element(it, tag, None, [])


def standard(it, spec, origin_type=REL + "aasx-origin", spec_type=REL + "aas-spec", spec_name="aasx/data.json"):
    """parts of a well-formed package around one specification part"""
    return [
        ("[Content_Types].xml", part("[Content_Types].xml", xml=xml_ok(lambda: ct(it)))),
        ("_rels/.rels", part("_rels/.rels", xml=xml_ok(lambda: rels(it, [(origin_type, "/aasx/aasx-origin")])))),
        ("aasx/aasx-origin", part("aasx/aasx-origin", xml=None)),
        ("aasx/_rels/aasx-origin.rels", part("aasx/_rels/aasx-origin.rels", xml=xml_ok(lambda: rels(it, [(spec_type, "/" + spec_name)])))),
        (spec_name, spec),
    ]


def env(bad=False):
    o = D.minimal("Submodel")
    if bad:
        o["idShort"] = AbsStr(rx.minus(D.xml_chars(), rx.compile_spec("[a-zA-Z][a-zA-Z0-9_]*")), 1, 128, name="idShort")
    return {"submodels": [o]}


def json_src(name, doc, fail=()):
    return L.Src(name, json=[("ok", "ok", lambda: D.jdoc(doc()))] + list(fail))


def xml_src(it, name, doc, fail=()):
    return L.Src(name, xml=[("ok", "ok", lambda: D.xdoc(it, "Environment", doc()))] + list(fail))


def file_of(src):
    return L.model_file(interp(), src)


# ---------------------------------------------------------------- structural equality of rendered texts
def same_value(a, b):
    a, b = core.force(a), core.force(b)
    if isinstance(a, AbsStr) and isinstance(b, AbsStr):
        x, y = a.find(), b.find()
        return x is y or (x.root is y.root and len(x.pres) == len(y.pres) and x.name == y.name)
    if isinstance(a, core.StrCat) or isinstance(b, core.StrCat):
        pa = list(a.parts) if isinstance(a, core.StrCat) else [a]
        pb = list(b.parts) if isinstance(b, core.StrCat) else [b]
        return len(pa) == len(pb) and all(same_value(x, y) for x, y in zip(pa, pb))
    if isinstance(a, core.Part) and isinstance(b, core.Part):
        return a.kind == b.kind and same_value(a.value, b.value)
    if isinstance(a, PyList) and isinstance(b, PyList):
        return len(a.items) == len(b.items) and all(same_value(x, y) for x, y in zip(a.items, b.items))
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same_value(x, y) for x, y in zip(a, b))
    if isinstance(a, PyDict) and isinstance(b, PyDict):
        ia, ib = interp().dict_items(a), interp().dict_items(b)
        return len(ia) == len(ib) and all(same_value(x, y) for x, y in zip(ia, ib))
    if isinstance(a, Inst) and isinstance(b, Inst):
        return a is b or (a.cls is b.cls and isinstance(a.attrs.get("args"), tuple) and same_value(a.attrs["args"], b.attrs.get("args", ())))
    return type(a) is type(b) and a == b


EXACT = {"urlq", "b64", "b64url", "b64-nopad", "b64url-nopad", "json", "int", "float", "enum", "repr", "html", "unencodable"}


def known(*vs):
    """leaves the path undecided when a text contains a part the analyser only approximates"""
    for v in vs:
        v = core.force(v)
        for p in v.parts if isinstance(v, core.StrCat) else [v]:
            if isinstance(p, core.Part) and p.kind not in EXACT and not p.kind.startswith(("urlquote", "urlq:")):
                raise core.Unsupported(f"text known only approximately ({p.kind})")
