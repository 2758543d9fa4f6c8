"""C16: no text stalls a check -- no pattern that is applied to checked content backtracks exponentially."""
from .common import *
from absint import redos
from . import docs as D, meta as M, c08, pkg as P
from absint import stdlib as L

LEVEL = "other"
RULE = "every pattern applied to content has at most polynomially many ways to match (no exponential ambiguity before a failing end)"
_seen = {}


def judge(where):
    for pat, flags, mode in State.ctx.regexes:
        if not isinstance(pat, str):
            raise core.Unsupported("pattern assembled from content")
        key = (pat, int(flags), mode)
        if key not in _seen:
            try:
                _seen[key] = redos.exponential(pat, int(flags), mode if mode in ("match", "fullmatch") else "search")
            except redos.Undecided as e:
                _seen[key] = e
        r = _seen[key]
        if isinstance(r, redos.Undecided):
            raise core.Unsupported(f"pattern {pat[:60]!r}: {r}")
        if r is not None:
            raise Violation(f"{where} is matched against {pat[:80]!r}, which takes exponential time, e.g. on {r[0]!r} + n * {r[1]!r} and an unsuitable end", key="exponential")


def obligations(tier):
    obs = []

    def add(name, where, run):
        def fn(it):
            State.ctx.regexes = []
            run(it)
            judge(where)
        obs.append(Ob(name, fn, RULE))

    def text(lo=0, hi=None):
        return AbsStr(rx.ANY, lo, hi, name="text")
    for t in M.XSD:
        for c in c08.CARRIERS:
            def typed(it, t=t, c=c):
                cls, o = c08.CARRIERS[c]("xs:" + t, text())
                D.check_json(D.embed(cls, o))
            add(f"value:{c}:xs:{t}", f"{c} of type xs:{t}", typed)
    for cls, attrs in list(M.CLASSES.items()) + [(c, [("text", "@", 1), ("language", "@", 1)]) for c in M.LANG_LEN]:
        for n, t, req in attrs:
            if t[0] not in "@":
                continue

            def attr(it, cls=cls, n=n):
                o = D.minimal(cls)
                o[n] = text()
                if (cls, n) == ("Entity", "globalAssetId"):
                    o["entityType"] = "SelfManagedEntity"
                if (cls, n) == ("AdministrativeInformation", "revision"):
                    o["version"] = "1"
                D.check_json(D.embed(cls, o))
            add(f"attribute:{cls}.{n}", f"{cls}.{n}", attr)

    # literals and names
    def literal(it):
        o = D.minimal("Property")
        o["valueType"] = text()
        D.check_json(D.embed("Property", o))
    add("literal", "an enumeration literal", literal)

    def target(it):
        es = [(P.REL + "aasx-origin", AbsStr(rx.compile_spec("[a-z]+"), name="target"))]
        z = P.zip_inst(it, [("[Content_Types].xml", P.part("[Content_Types].xml", xml=P.xml_ok(lambda: P.ct(it)))),
                            ("_rels/.rels", P.part("_rels/.rels", xml=P.xml_ok(lambda: P.rels(it, es))))])
        attempt(sym("file", "check_aasx_data"), z)
    add("package:target", "a relationship target", target)
    return obs
