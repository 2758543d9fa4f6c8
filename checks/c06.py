"""C06: the XML form is judged by the same rules as the JSON form, and XML-specific structure is enforced."""
import itertools
from .common import *
from . import docs as D, meta as M, c07, c11, c05, xsd

LEVEL = "other"
NS = D.NS
R_ACC = "valid XML documents are accepted"
R_UNK = "unknown child element => ERROR"
R_REQ = "missing required child element => ERROR"
R_NS = "element outside the AAS namespace => ERROR"
R_TEXT = "character data where only elements are allowed => ERROR"
R_CHILD = "child elements where only text is allowed => ERROR"
R_DUP = "duplicate child element => ERROR"
R_ENUM = "enumeration literal outside the enumeration => ERROR"
R_BOOL = "booleans are true, false, 1 or 0"
R_EMPTY = "empty list element => ERROR"
R_STR = "string limits and patterns apply to XML text"
R_CONS = "constraints apply to XML documents"
R_POLY = "the element name selects the class of polymorphic content; other names => ERROR"
LANGCLS = set(M.LANG_LEN)


def xroot(it, cls, o, via=None):
    return D.xdoc(it, "Environment", D.embed(cls, o, via))


def nonblank():
    """text with something other than white space (text of non-XML white space only is left open)"""
    return rx.minus(D.xml_chars(), rx.compile_spec("\\s*"))


def blank():
    return rx.compile_spec("[ \\t\\r\\n]*")


def set_text(it, e, v):
    e.attrs["text"] = v


def find(it, root, pred):
    """first element (document order) satisfying pred"""
    st = [root]
    while st:
        e = st.pop(0)
        if pred(e):
            return e
        st = kids(it, e) + st
    raise KeyError


def kids(it, e):
    return list(B.iterate(it, e))


class Marked(dict):
    """a dict the XML builder can be asked about afterwards"""


def build(it, cls, o, edit, via=None):
    """XML document around object o of class cls; `edit(element of o)` changes it"""
    made = []
    orig = D.xdoc

    def hook(it2, c, v, tag=None, ns=NS):
        e = orig(it2, c, v, tag, ns)
        if v is o:
            made.append(e)
        return e
    D.xdoc = hook
    try:
        root = D.xdoc(it, "Environment", D.embed(cls, o, via))
    finally:
        D.xdoc = orig
    if not made:
        raise KeyError(f"element of {cls} not found")
    return edit(root, made[-1])


def obligations(tier):
    obs = []

    def add(name, rule, want, mk):
        def fn(it):
            D.judge(D.check_xml(mk(it)), want, "XML: " + name)
        obs.append(Ob(name, fn, rule))

    def edited(cls, f, o=None, via=None):
        """document with an edit applied to the element of class cls"""
        def mk(it):
            x = o() if o else D.minimal(cls)

            def ed(root, e):
                f(it, e)
                return root
            return build(it, cls, x, ed, via)
        return mk

    def append(it, e, kid):
        meth(e, "append", kid)

    def kid_named(it, e, n):
        for k in kids(it, e):
            if it.getattr_(k, "tag") == NS + n:
                return k
        raise KeyError(n)
    for cls, attrs in M.CLASSES.items():
        names = [a[0] for a in attrs]
        add(f"{cls}:minimal", R_ACC, True, lambda it, cls=cls: xroot(it, cls, D.minimal(cls)))
        add(f"{cls}:full", R_ACC, True, lambda it, cls=cls: xroot(it, cls, D.full(cls)))
        inner = cls != "DataSpecificationIec61360"
        unk = rx.minus(rx.compile_spec("[a-zA-Z_][a-zA-Z0-9_.-]*"), rx.words(names))

        def unknown(it, e, unk=unk):
            append(it, e, L.element(it, AbsStr(rx.concat(rx.word(NS), unk), name="tag"), "x", []))
        add(f"{cls}:unknown", R_UNK, False, edited(cls, unknown))
        # a foreign namespace, or none, on a child
        bad_ns = rx.minus(rx.compile_spec("(\\{[^{}]*\\})?[a-zA-Z_][a-zA-Z0-9_.-]*"), rx.starts(NS))

        def foreign(it, e, bad_ns=bad_ns):
            append(it, e, L.element(it, AbsStr(bad_ns, name="tag"), "x", []))
        add(f"{cls}:foreign child", R_NS, False, edited(cls, foreign))
        # character data between the children
        for where in ("text", "tail"):
            def chars(it, e, where=where):
                if where == "text":
                    e.attrs["text"] = AbsStr(nonblank(), name="text")
                else:
                    kids(it, e)[0].attrs["tail"] = AbsStr(nonblank(), name="tail")
            if where == "tail" and not D.minimal(cls):
                continue
            if cls == "DataSpecificationIec61360":
                continue
            add(f"{cls}:{where}", R_TEXT, False, edited(cls, chars))

            def ws(it, e, where=where):
                if where == "text":
                    e.attrs["text"] = AbsStr(blank(), name="text")
                else:
                    for k in kids(it, e):
                        k.attrs["tail"] = AbsStr(blank(), name="tail")
            add(f"{cls}:{where}:blank", "white space between elements is allowed", True, edited(cls, ws))
        for n, t, req in attrs:
            k = c05.kind_of(t)
            if req:
                def missing(it, cls=cls, n=n):
                    o = D.minimal(cls)
                    del o[n]
                    return xroot(it, cls, o)
                add(f"{cls}.{n}:missing", R_REQ, False, missing)

            def obj(cls=cls, n=n, t=t):
                o = D.minimal(cls)
                f = D.full(cls)
                o[n] = f[n] if n in f else D.minimal(t)
                c05.fix(cls, n, o)
                return o
            add(f"{cls}.{n}:present", R_ACC, True, lambda it, cls=cls, obj=obj: xroot(it, cls, obj()))

            def dup(it, e, n=n):
                x = kid_named(it, e, n)
                append(it, e, x)
            add(f"{cls}.{n}:duplicate", R_DUP, False, edited(cls, dup, obj))

            def ns(it, e, n=n):
                x = kid_named(it, e, n)
                x.attrs["tag"] = AbsStr(rx.minus(rx.concat(rx.compile_spec("(\\{[^{}]*\\})?"), rx.word(n)), rx.word(NS + n)), name="tag")
            add(f"{cls}.{n}:namespace", R_NS, False, edited(cls, ns, obj))
            if k in ("str", "bool"):
                def child(it, e, n=n):
                    append(it, kid_named(it, e, n), L.element(it, AbsStr(rx.concat(rx.word(NS), rx.compile_spec("[a-z]+")), name="tag"),
                                                             Lazy([("none", lambda: None), ("text", lambda: AbsStr(D.xml_chars()))], "text"), []))
                add(f"{cls}.{n}:child", R_CHILD, False, edited(cls, child, obj))
            if k == "list":
                def ltext(it, e, n=n):
                    kid_named(it, e, n).attrs["text"] = AbsStr(nonblank(), name="text")
                add(f"{cls}.{n}:text", R_TEXT, False, edited(cls, ltext, obj))

                def ltail(it, e, n=n):
                    kids(it, kid_named(it, e, n))[-1].attrs["tail"] = AbsStr(nonblank(), name="tail")
                add(f"{cls}.{n}:item tail", R_TEXT, False, edited(cls, ltail, obj))

                def empty(it, cls=cls, n=n):
                    o = D.minimal(cls)
                    o[n] = []
                    return xroot(it, cls, o)
                add(f"{cls}.{n}:empty", R_EMPTY, False, empty)

                def strange(it, e, n=n):
                    append(it, kid_named(it, e, n), L.element(it, AbsStr(bad_ns, name="tag"), None, []))
                add(f"{cls}.{n}:foreign item", R_NS, False, edited(cls, strange, obj))
            if t == "bool":
                def bl(it, e, n=n, l=None):
                    kid_named(it, e, n).attrs["text"] = AbsStr(rx.words(["true", "false", "1", "0"]), name="bool")

                def nb(it, e, n=n):
                    kid_named(it, e, n).attrs["text"] = Lazy([
                        ("none", lambda: None),
                        ("text", lambda: AbsStr(rx.minus(D.xml_chars(), rx.compile_spec("[ \\t\\r\\n]*(true|false|1|0)[ \\t\\r\\n]*")), 1, None, name="bool"))], "text")
                add(f"{cls}.{n}:bool", R_BOOL, True, edited(cls, bl, obj))
                add(f"{cls}.{n}:no bool", R_BOOL, False, edited(cls, nb, obj))
            if t[0] == "#":
                lits = M.ENUMS[t[1:]]

                def lit(it, e, n=n, lits=lits):
                    kid_named(it, e, n).attrs["text"] = Lazy([
                        ("none", lambda: None), ("text", lambda: AbsStr(rx.minus(D.xml_chars(), rx.words(lits)), name="literal"))], "text")
                add(f"{cls}.{n}:literal", R_ENUM, False, edited(cls, lit, obj))
                for l, o in c05.enum_accepts(cls, n, t):
                    add(f"{cls}.{n}:{l}", R_ENUM + ", inside => accepted", True, lambda it, cls=cls, o=o: xroot(it, cls, o))
            if t[0] == "@" and t != "@Value":
                a, rj = c07.lang(t[1:])
                lo, hi, _ = M.STRINGS[t[1:]]
                X = D.xml_chars()

                def st(l, lo, hi, cls=cls, n=n, obj=obj):
                    def mk(it):
                        o = obj()
                        o[n] = AbsStr(l, lo, hi, name=n)
                        return xroot(it, cls, o)
                    return mk
                if not (n == "category" and cls in M.DATA_ELEMENTS) and (cls, n) != ("SpecificAssetId", "name"):
                    add(f"{cls}.{n}:accept", R_STR, True, st(a, lo, hi))
                if not rx.inter(rj, X).empty():
                    add(f"{cls}.{n}:reject", R_STR, False, st(rx.inter(rj, X), lo, hi))
                if hi:
                    add(f"{cls}.{n}:long", R_STR, False, st(X, hi + 1, None))
                if lo:
                    add(f"{cls}.{n}:no text", R_STR, False, edited(cls, lambda it, e, n=n: set_text(it, kid_named(it, e, n), None), obj))
    # edges
    tagged = set()
    for owner, n, lst, k in D.edges():
        via = (owner, n, lst)
        add(f"{owner}.{n}/{k}:accept", R_ACC, True, lambda it, owner=owner, n=n, k=k, via=via: xroot(it, k, D.edge_obj(owner, n, k), via))

        def unk(it, e):
            append(it, e, L.element(it, NS + "unknownAttribute", "x", []))
        add(f"{owner}.{n}/{k}:unknown", R_UNK, False, edited(k, unk, lambda owner=owner, n=n, k=k: D.edge_obj(owner, n, k), via))
        t = M.attr(owner, n)[1].strip("[]")
        if t in M.ABSTRACT:
            allowed = [D.item_tag(c, None) for c in M.ABSTRACT[t]]
            # the first letter of the name is compared case-insensitively by the implementation: left open
            openl = [x[0].upper() + x[1:] for x in allowed]

            def tag(it, e, allowed=allowed, openl=openl):
                bad = rx.minus(rx.compile_spec("[a-zA-Z_][a-zA-Z0-9_.-]*"), rx.words(allowed + openl))
                e.attrs["tag"] = AbsStr(rx.concat(rx.word(NS), bad), name="tag")
            if (owner, n) not in tagged:
                tagged.add((owner, n))
                add(f"{owner}.{n}/{k}:tag", R_POLY, False, edited(k, tag, lambda owner=owner, n=n, k=k: D.edge_obj(owner, n, k), via))

            def tns(it, e, k=k):
                t = D.item_tag(k, None)
                if k != "Property":  # every namespace once, the others with representatives
                    e.attrs["tag"] = [t, "{urn:x}" + t, "{https://admin-shell.io/aas/2/0}" + t, "{}" + t, NS.lower().replace("3/0", "3/1") + t][choose(5, "namespace")]
                    return
                e.attrs["tag"] = AbsStr(rx.minus(rx.concat(rx.compile_spec("(\\{[^{}]*\\})?"), rx.word(t)), rx.word(NS + t)), name="tag")
            add(f"{owner}.{n}/{k}:tag namespace", R_NS, False, edited(k, tns, lambda owner=owner, n=n, k=k: D.edge_obj(owner, n, k), via))
        for v in c11.violations(k):
            if owner == "SubmodelElementList" and v == "AASd-002":
                continue
            if True:
                add(f"{v}:{k} at {owner}.{n}", R_CONS, False, lambda it, owner=owner, n=n, k=k, v=v, via=via: xroot(it, k, c11.violations(k)[v], via))
    # typed values
    for t in M.XSD:
        a, rj = xsd.spec(t)
        X = D.xml_chars()
        for cls, n in (("Property", "value"), ("Range", "min"), ("Range", "max"), ("Qualifier", "value"), ("Extension", "value")):
            def tv(l, cls=cls, n=n, t=t):
                return lambda it: xroot(it, cls, {**D.minimal(cls), "valueType": "xs:" + t, n: AbsStr(l, 1, None, name=n)})
            add(f"{cls}.{n}:xs:{t}:accept", "typed XML text inside its lexical space => accepted", True, tv(rx.inter(a, X)))
            if not rx.inter(rj, X).empty() and rx.inter(rj, X).has_len_in(1, None):
                add(f"{cls}.{n}:xs:{t}:reject", "typed XML text outside its lexical space => ERROR", False, tv(rx.inter(rj, X)))
    # root
    def rootns(it):
        e = xroot(it, "Submodel", D.minimal("Submodel"))
        e.attrs["tag"] = AbsStr(rx.minus(rx.compile_spec("(\\{[^{}]*\\})?environment"), rx.word(NS + "environment")), name="tag")
        return e
    add("root namespace", R_NS, False, rootns)
    return obs
