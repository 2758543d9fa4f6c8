"""C13: an AASX package is judged by all its relationships and all its specification parts."""
import itertools
from .common import *
from . import docs as D, pkg as P

LEVEL = "other"
R_OK = "a package whose parts, relationships and specifications are in order passes without warnings"
R_PART = "missing, unreadable or malformed package parts => failing verdict"
R_REL = "a relationship entry that is no relationship, lacks an attribute or has no target part => failing verdict, at any position and depth"
R_RES = "targets are resolved against the folder of their source part or the package root"
R_SPEC = "every specification reachable from an origin is checked in its format, and its verdict counts"
R_WARN = "deprecated types, unknown file types and unusual numbers of origins or specifications => warning, not an error"
R_GRAPH = "shared, repeated and cyclic relationships are followed to every part and terminate"
T_ORIGIN, T_SPEC, T_SUPPL = P.REL + "aasx-origin", P.REL + "aas-spec", P.REL + "aas-suppl"
THUMB = "http://schemas.openxmlformats.org/package/2006/relationships/metadata/thumbnail"
CORE = "http://schemas.openxmlformats.org/package/2006/relationships/metadata/core-properties"
CT = "[Content_Types].xml"


SIMILAR = [("aasx/Data.json", "aasx/data.json"), ("AASX/d.xml", "aasx/d.xml"), ("aasx/d.json", "aasx/dd.json"), ("a/d.json", "b/d.json"), ("d.json", "a/d.json"), ("a/d.xml", "a/d.json"), ("a/x.json", "a/x.json.json"),
           ("a/d%20e.json", "a/d e.json"), ("a/d+e.json", "a/d e.json"), ("\u00e9.json", "e\u0301.json"), ("a/\u00df.json", "a/ss.json"), ("1.json", "01.json"), ("a/b/c.json", "a/bc.json"), (".a.json", "a.json"), ("a/..b.json", "a/b.json"),
           ("a_b.json", "a-b.json"), ("a.b/c.json", "a/b.c.json")]


def rels_name(source):
    d, s, f = source.rpartition("/")
    return f"{d}{s}_rels/{f}.rels"


def package(it, rels, parts=(), specs=(), override=()):
    """rels: source part -> entries (type, target[, tag]); parts: plain parts; specs: name -> Src; override: name -> Src | None (left out)"""
    out = {CT: P.part(CT, xml=P.xml_ok(lambda: P.ct(it)))}
    for s, es in rels.items():
        n = rels_name(s)
        out[n] = P.part(n, xml=P.xml_ok(lambda es=es: P.rels(it, es)))
    for p in parts:
        out.setdefault(p, P.part(p, xml=P.XML_FAIL[:1], json=P.JSON_FAIL[:1]))
    for n, s in dict(specs).items():
        out[n] = s
    for n, s in dict(override).items():
        if s is None:
            out.pop(n, None)
        else:
            out[n] = s
    return P.zip_inst(it, list(out.items()))


def spec(it, name, bad=False, fails=None):
    d = P.env(bad)
    if fails is not None:
        return L.Src(name, read=fails, json=[("ok", "ok", lambda: D.jdoc(d))], xml=[("ok", "ok", lambda: D.xdoc(it, "Environment", d))])
    if name.endswith(".json"):
        return L.Src(name, json=[("ok", "ok", lambda: D.jdoc(d))], xml=P.XML_FAIL[:1])
    if name.endswith(".xml"):
        return L.Src(name, xml=[("ok", "ok", lambda: D.xdoc(it, "Environment", d))], json=P.JSON_FAIL[:1])
    return L.Src(name, json=[("ok", "ok", lambda: D.jdoc(d))], xml=[("ok", "ok", lambda: D.xdoc(it, "Environment", d))])


def check(z):
    k, v = attempt(sym("file", "check_aasx_data"), z)
    if k == "raise":
        raise_violation("checking a package", v)
    return v


def judge(r, want, what):
    """want: INFO (nothing remarkable) | WARNING (passes with a warning) | ERROR (fails)"""
    lv = level_of(r)
    lv = lv if isinstance(lv, str) else B.const_of(lv)
    ok = bool(ok_of(r))
    if want == "ERROR":
        if ok:
            raise Violation(f"{what}: the package passes", key="accepted")
        return
    if not ok:
        bad = [(m, l) for d, m, l, n in walk(r) if l in ("ERROR", "CRITICAL")]
        raise Violation(f"{what}: the package fails with {show(bad[-1][0])[:120]!r}", key="rejected")
    if lv != want:
        raise Violation(f"{what}: the result has level {lv} instead of {want}", key="level")


def std(spec_name="aasx/data.json", extra_root=(), extra_origin=()):
    return {"": [(T_ORIGIN, "/aasx/aasx-origin")] + list(extra_root), "aasx/aasx-origin": [(T_SPEC, "/" + spec_name)] + list(extra_origin)}


def obligations(tier):
    obs = []

    def add(name, rule, fn, **k):
        obs.append(Ob(name, fn, rule, **k))

    def case(name, rule, mk, want):
        def fn(it):
            judge(check(mk(it)), want, name)
        add(name, rule, fn)
    O = "aasx/aasx-origin"

    # ---------------------------------------------------------------- plain packages
    for sn in ("aasx/data.json", "aasx/data.xml", "data.json", "data.xml", "a/b/c/d.xml", "aasx/my data.json", "aasx/x.y.json"):
        case(f"valid:{sn}", R_OK, lambda it, sn=sn: package(it, std(sn), [O], {sn: spec(it, sn)}), "INFO")
        case(f"invalid:{sn}", R_SPEC, lambda it, sn=sn: package(it, std(sn), [O], {sn: spec(it, sn, True)}), "ERROR")
    case("valid:extras", R_OK, lambda it: package(it, {**std("aasx/d.xml", [(THUMB, "/thumb.png"), (CORE, "docProps/core.xml")]), "aasx/d.xml": [(T_SUPPL, "files/doc.pdf"), (T_SUPPL, "/aasx/files/b.pdf")]},
                                                 [O, "thumb.png", "docProps/core.xml", "aasx/files/doc.pdf", "aasx/files/b.pdf"], {"aasx/d.xml": spec(it, "aasx/d.xml")}), "INFO")
    case("valid:unrelated part", R_OK, lambda it: package(it, std(), [O, "unrelated.xml"], {"aasx/data.json": spec(it, "aasx/data.json")}), "INFO")

    # ---------------------------------------------------------------- faulty parts
    good = lambda it: {"aasx/data.json": spec(it, "aasx/data.json")}
    deep = {**std(), "aasx/data.json": [(T_SUPPL, "/a/one")], "a/one": [(T_SUPPL, "two")], "a/two": [(T_SUPPL, "../b/three")]}
    DEEP = [O, "a/one", "a/two", "b/three"]
    rel_parts = [""] + [O, "aasx/data.json", "a/one", "a/two"]
    for s in rel_parts:
        n = rels_name(s)
        for tag, read, xml in [(f"unreadable:{f[0]}", [f], None) for f in P.PART_FAIL] + [(f"malformed:{f[0]}", None, [f]) for f in P.XML_FAIL]:
            case(f"{n}:{tag}", R_PART, lambda it, n=n, read=read, xml=xml: package(it, deep, DEEP, good(it), {n: L.Src(n, read=read, xml=xml)}), "ERROR")

        def root(it, n=n, s=s):
            t = AbsStr(rx.minus(rx.compile_spec("(\\{[^}]*\\})?[A-Za-z_][A-Za-z0-9_]*"), rx.word(P.NS_REL + "Relationships")), name="tag")
            judge(check(package(it, deep, DEEP, good(it), {n: P.part(n, xml=P.xml_ok(lambda: P.rels(it, deep[s], root=t)))})), "ERROR", f"{n} with root element {t.example()!r}")
        add(f"{n}:root element", R_PART, root)
        for bad, e in (("no target part", (T_SUPPL, "/missing/part")), ("no type", (None, "/a/one")), ("no target", (T_SUPPL, None)), ("no attributes", (None, None)), ("foreign element", (T_SUPPL, "/a/one", "{http://x}Relationship")),
                       ("element without namespace", (T_SUPPL, "/a/one", "Relationship")), ("other element", (T_SUPPL, "/a/one", P.NS_REL + "Other")), ("empty target", (T_SUPPL, "")), ("folder as target", (T_SUPPL, "/a"))):
            for pos in range(len(deep[s]) + 1):
                def entry(it, s=s, e=e, pos=pos, bad=bad):
                    rs = dict(deep)
                    rs[s] = deep[s][:pos] + [e] + deep[s][pos:]
                    judge(check(package(it, rs, DEEP, good(it))), "ERROR", f"{rels_name(s)}: {bad} at position {pos}")
                add(f"{n}:{bad}:{pos}", R_REL, entry)
        # the target itself is missing
        for i, e in enumerate(deep[s]):
            tgt = {"/aasx/aasx-origin": O, "/aasx/data.json": "aasx/data.json", "/a/one": "a/one", "two": "a/two", "../b/three": "b/three"}[e[1]]

            def miss(it, tgt=tgt):
                judge(check(package(it, deep, DEEP, good(it), {tgt: None})), "ERROR", f"part {tgt} is missing")
            add(f"missing part:{tgt}", R_REL, miss)
    case("valid:deep", R_OK, lambda it: package(it, deep, DEEP, good(it)), "INFO")
    case(f"{CT}:missing", R_PART, lambda it: package(it, std(), [O], good(it), {CT: None}), "ERROR")
    for tag, read, xml in [(f"unreadable:{f[0]}", [f], None) for f in P.PART_FAIL] + [(f"malformed:{f[0]}", None, [f]) for f in P.XML_FAIL]:
        case(f"{CT}:{tag}", R_PART, lambda it, read=read, xml=xml: package(it, std(), [O], good(it), {CT: L.Src(CT, read=read, xml=xml)}), "ERROR")

    def ctroot(it):
        t = AbsStr(rx.minus(rx.compile_spec("(\\{[^}]*\\})?[A-Za-z_][A-Za-z0-9_]*"), rx.word(P.NS_CT + "Types")), name="tag")
        judge(check(package(it, std(), [O], good(it), {CT: P.part(CT, xml=P.xml_ok(lambda: P.ct(it, t)))})), "ERROR", f"{CT} with root element {t.example()!r}")
    add(f"{CT}:root element", R_PART, ctroot)
    case("no root relationships", R_PART, lambda it: package(it, {O: [(T_SPEC, "/aasx/data.json")]}, [O], good(it)), "ERROR")
    case("empty package", R_PART, lambda it: P.zip_inst(it, []), "ERROR")

    def prefix_tags(it):
        # relationship entries written by any producer: attributes in any order with additional ones
        kids = [L.element(it, P.NS_REL + "Relationship", None, [], [("TargetMode", "Internal"), ("Target", "/aasx/aasx-origin"), ("Id", "r"), ("Type", T_ORIGIN)])]
        z = package(it, std(), [O], good(it), {"_rels/.rels": P.part("_rels/.rels", xml=P.xml_ok(lambda: L.element(it, P.NS_REL + "Relationships", "\n", kids)))})
        judge(check(z), "INFO", "additional attributes")
    add("valid:attributes", R_OK, prefix_tags)

    # ---------------------------------------------------------------- resolution of targets
    def resolve(d, t):
        segs = [] if t.startswith("/") else [x for x in d.split("/") if x]
        for x in t.split("/"):
            if x in ("", "."):
                continue
            if x == "..":
                segs = segs[:-1]
            else:
                segs.append(x)
        return "/".join(segs)
    FORMS = ["/f.bin", "/x/f.bin", "f.bin", "./f.bin", "x/f.bin", "../f.bin", "../x/f.bin", "../../f.bin", "/a/../f.bin", "x//f.bin", "x/../f.bin", "/./f.bin", "x/./y/../f.bin", "../../../f.bin", "/../f.bin",
             "x/y/../../f.bin", ".f.bin", "..f/f.bin", "f..bin", "x/..y/f.bin", "/a/b/c/f.bin", "a b/f.bin"]
    for src in ("", "o", "a/o", "a/b/o", "a/b/c/o", "x/o", "a/a/o"):
        for t in FORMS:
            d = src.rpartition("/")[0]
            want = resolve(d, t)

            def res(it, src=src, t=t, want=want, bad=False):
                rs = {"": [(T_ORIGIN, "/aasx/aasx-origin")], O: [(T_SPEC, "/aasx/data.json")]}
                parts = [O, want]
                if src:
                    rs[""] = rs[""] + [(T_SUPPL, "/" + src)]
                    rs[src] = [(T_SUPPL, t)]
                    parts.append(src)
                else:
                    rs[""] = rs[""] + [(T_SUPPL, t)]
                judge(check(package(it, rs, parts, good(it))), "INFO", f"{t!r} as target of a relationship of {src or 'the package'!r} is the part {want!r}")
            if want != src:
                add(f"resolve:{src}:{t}", R_RES, res)

            def wrong(it, src=src, t=t, want=want):
                others = sorted({"f.bin", "x/f.bin", "a/f.bin", "a/b/f.bin", "a/b/c/f.bin", "a/x/f.bin", "a/b/x/f.bin", "y/f.bin", "..f/f.bin", "c/f.bin", t, t.lstrip("/")} - {want})
                rs = {"": [(T_ORIGIN, "/aasx/aasx-origin")], O: [(T_SPEC, "/aasx/data.json")]}
                parts = [O] + others
                if src:
                    rs[""] = rs[""] + [(T_SUPPL, "/" + src)]
                    rs[src] = [(T_SUPPL, t)]
                    parts.append(src)
                else:
                    rs[""] = rs[""] + [(T_SUPPL, t)]
                judge(check(package(it, rs, parts, good(it))), "ERROR", f"{t!r} as target of a relationship of {src or 'the package'!r} (the part {want!r} is missing)")
            if want != src:
                add(f"unresolved:{src}:{t}", R_RES, wrong)
    # specifications found by relative targets, checked with the folder of their origin
    for origin, t, sn in (("origin", "data.xml", "data.xml"), ("origin", "s/data.json", "s/data.json"), ("aasx/origin", "data.xml", "aasx/data.xml"), ("aasx/origin", "../data.json", "data.json"), ("aasx/o/origin", "../data.xml", "aasx/data.xml"),
                          ("aasx/origin", "./s/data.json", "aasx/s/data.json"), ("aasx/origin", "/s/data.json", "s/data.json")):
        for badspec in (False, True):
            def rel(it, origin=origin, t=t, sn=sn, badspec=badspec):
                rs = {"": [(T_ORIGIN, "/" + origin)], origin: [(T_SPEC, t)]}
                judge(check(package(it, rs, [origin], {sn: spec(it, sn, badspec)})), "ERROR" if badspec else "INFO", f"specification {t!r} of {origin!r}")
            add(f"spec target:{origin}:{t}:{'invalid' if badspec else 'valid'}", R_RES, rel)

    # abstract part names
    seg = rx.minus(rx.compile_spec("[^/\\x00-\\x1f\\s]([^/\\x00-\\x1f]*[^/\\x00-\\x1f\\s])?"), rx.words([".", ".."]))

    def absnames(form):
        def fn(it):
            a, b = AbsStr(seg, name="folder"), AbsStr(seg, name="file")
            spec_name = B.cat(a, "/", b, ".json")
            origin = B.cat(a, "/origin")
            bad = choose(2, "specification invalid") == 1
            d = P.env(bad)
            t = {"absolute": B.cat("/", spec_name), "relative": B.cat(b, ".json"), "dotted": B.cat("../", a, "/", b, ".json")}[form]
            parts = [(CT, P.part(CT, xml=P.xml_ok(lambda: P.ct(it)))), ("_rels/.rels", P.part("root", xml=P.xml_ok(lambda: P.rels(it, [(T_ORIGIN, B.cat("/", origin))])))), (origin, P.part("origin")),
                     (B.cat(a, "/_rels/origin.rels"), P.part("rels", xml=P.xml_ok(lambda: P.rels(it, [(T_SPEC, t)])))), (spec_name, L.Src("spec", json=[("ok", "ok", lambda: D.jdoc(d))]))]
            judge(check(P.zip_inst(it, parts)), "ERROR" if bad else "INFO", f"{form} target with any names")
        return fn
    for form in ("absolute", "relative", "dotted"):
        add(f"names:{form}", R_RES, absnames(form))

    # parts with similar names are different parts
    for x, y in SIMILAR:
        for bads in ((False, False), (True, False), (False, True)):
            for via in ("spec", "origin"):
                def similar(it, x=x, y=y, bads=bads, via=via):
                    if via == "spec":
                        rs = {"": [(T_ORIGIN, "/" + O)], O: [(T_SPEC, "/" + x), (T_SPEC, "/" + y)]}
                        parts, sp = [O], {n: spec(it, n, b) for n, b in zip((x, y), bads)}
                        want = "INFO"
                    else:
                        rs = {"": [(T_ORIGIN, "/" + x), (T_ORIGIN, "/" + y)], x: [(T_SPEC, "/s0.json")], y: [(T_SPEC, "/s1.json")]}
                        parts, sp = [x, y], {f"s{i}.json": spec(it, f"s{i}.json", b) for i, b in enumerate(bads)}
                        want = "WARNING"
                    judge(check(package(it, rs, parts, sp)), "ERROR" if any(bads) else want, f"parts {x!r} and {y!r}")
                add(f"similar:{via}:{x}:{y}:{''.join('-' if b else '+' for b in bads)}", R_SPEC, similar)
        def only(it, x=x, y=y):
            rs = {"": [(T_ORIGIN, "/" + O)], O: [(T_SPEC, "/" + x)]}
            judge(check(package(it, rs, [O], {y: spec(it, y)})), "ERROR", f"target {x!r} where the package has {y!r} instead")
        add(f"similar:{x}:instead {y}", R_REL, only)
        add(f"similar:{y}:instead {x}", R_REL, lambda it, x=y, y=x: only(it, x, y))

    # ---------------------------------------------------------------- specifications
    for n in (1, 2, 3):
        for bads in itertools.product((False, True), repeat=n):
            for exts in itertools.product(("json", "xml"), repeat=n):
                def multi(it, n=n, bads=bads, exts=exts):
                    names = [f"aasx/s{i}.{e}" for i, e in enumerate(exts)]
                    rs = {"": [(T_ORIGIN, "/" + O)], O: [(T_SPEC, "/" + x) for x in names]}
                    r = check(package(it, rs, [O], {x: spec(it, x, b) for x, b in zip(names, bads)}))
                    judge(r, "ERROR" if any(bads) else "INFO", f"specifications {exts}, invalid: {bads}")
                    # every specification is reported, with its own verdict below its name
                    nodes = [(m, node) for d, m, lv, node in walk(r)]
                    for x, b in zip(names, bads):
                        hit = [node for m, node in nodes if text_has(m, x) and not text_has(m, "Relationship ") and len(B.nonrest(interp(), interp().getattr_(node, "sub_results"))) > 0 and not text_has(m, "relationships of")]
                        if not hit:
                            raise Violation(f"specification {x} is not reported", key="unreported")
                        if not any(bool(ok_of(h)) == (not b) for h in hit):
                            raise Violation(f"{'invalid' if b else 'valid'} specification {x} is reported with the opposite verdict", key="misreported")
                add(f"specs:{','.join(exts)}:{''.join('-' if b else '+' for b in bads)}", R_SPEC, multi)
    for fmt, fails in (("json", P.JSON_FAIL), ("xml", P.XML_FAIL)):
        for f in fails:
            def broken(it, fmt=fmt, f=f):
                n = f"aasx/d.{fmt}"
                judge(check(package(it, std(n), [O], {n: L.Src(n, **{fmt: [f]})})), "ERROR", f"{f[0]} {fmt} specification")
            add(f"spec {fmt}:{f[0]}", R_SPEC, broken)
        for f in P.PART_FAIL:
            def unread(it, fmt=fmt, f=f):
                n = f"aasx/d.{fmt}"
                judge(check(package(it, std(n), [O], {n: spec(it, n, False, [f])})), "ERROR", f"{f[0]} specification part")
            add(f"spec {fmt}:part {f[0]}", R_SPEC, unread)
    # several origins
    for n in (2, 3):
        for which in range(-1, n):
            def origins(it, n=n, which=which):
                rs = {"": [(T_ORIGIN, f"/o{i}") for i in range(n)]}
                sp = {}
                for i in range(n):
                    rs[f"o{i}"] = [(T_SPEC, f"/s{i}.json")]
                    sp[f"s{i}.json"] = spec(it, f"s{i}.json", i == which)
                judge(check(package(it, rs, [f"o{i}" for i in range(n)], sp)), "ERROR" if which >= 0 else "WARNING", f"{n} origins, specification of number {which} invalid")
            add(f"origins:{n}:{which}", R_SPEC if which >= 0 else R_WARN, origins)
        for which in range(n):
            def emptyorigin(it, n=n, which=which):
                rs = {"": [(T_ORIGIN, f"/o{i}") for i in range(n)]}
                sp = {}
                for i in range(n):
                    if i != which:
                        rs[f"o{i}"] = [(T_SPEC, f"/s{i}.json")]
                        sp[f"s{i}.json"] = spec(it, f"s{i}.json", True)
                judge(check(package(it, rs, [f"o{i}" for i in range(n)], sp)), "ERROR", f"{n} origins, number {which} without specification, the others invalid")
            add(f"origins:{n}:empty {which}", R_SPEC, emptyorigin)
    # ---------------------------------------------------------------- warnings
    case("no origin", R_WARN, lambda it: package(it, {"": [(THUMB, "/t.png")]}, ["t.png"]), "WARNING")
    case("no relationships at all", R_WARN, lambda it: package(it, {"": []}), "WARNING")
    case("no specification", R_WARN, lambda it: package(it, {"": [(T_ORIGIN, "/" + O)]}, [O]), "WARNING")
    case("no specification:empty list", R_WARN, lambda it: package(it, {"": [(T_ORIGIN, "/" + O)], O: []}, [O]), "WARNING")
    case("no specification:others", R_WARN, lambda it: package(it, {"": [(T_ORIGIN, "/" + O)], O: [(T_SUPPL, "/x")]}, [O, "x"]), "WARNING")
    for ext in (".txt", ".rdf", "", ".jsonx", ".xml.bak", "json", "xml"):
        for bad in (False, True):
            case(f"file type:{ext}:{bad}", R_WARN, lambda it, ext=ext, bad=bad: package(it, std("aasx/data" + ext), [O], {"aasx/data" + ext: spec(it, "aasx/data" + ext, bad)}), "WARNING")
    OLD = {T_ORIGIN: P.OLD + "aasx-origin", T_SPEC: P.OLD + "aas-spec", T_SUPPL: P.OLD + "aas-suppl"}
    for dep in itertools.product((False, True), repeat=3):
        for bad in (False, True):
            def deprecated(it, dep=dep, bad=bad):
                ty = {t: OLD[t] if d else t for t, d in zip((T_ORIGIN, T_SPEC, T_SUPPL), dep)}
                rs = {"": [(ty[T_ORIGIN], "/" + O)], O: [(ty[T_SPEC], "/aasx/d.json")], "aasx/d.json": [(ty[T_SUPPL], "/f.pdf")]}
                r = check(package(it, rs, [O, "f.pdf"], {"aasx/d.json": spec(it, "aasx/d.json", bad)}))
                judge(r, "ERROR" if bad else "WARNING" if any(dep) else "INFO", f"deprecated types {[t for t, d in zip(('origin', 'spec', 'suppl'), dep) if d]}, specification {'invalid' if bad else 'valid'}")
                if any(dep) and not any(lv == "WARNING" and not len(B.nonrest(interp(), interp().getattr_(n, "sub_results"))) for d, m, lv, n in walk(r)):
                    raise Violation("deprecated types are not reported", key="unreported")
            add(f"deprecated:{''.join('x' if d else '-' for d in dep)}:{'invalid' if bad else 'valid'}", R_WARN, deprecated)

    def othertypes(it):
        t = AbsStr(rx.minus(rx.compile_spec("[!-~]*"), rx.words([T_ORIGIN, T_SPEC] + list(OLD.values()))), name="type")
        rs = {"": [(T_ORIGIN, "/" + O), (t, "/x.json")], O: [(T_SPEC, "/aasx/d.json"), (t, "/x.json")]}
        judge(check(package(it, rs, [O, "x.json"], {"aasx/d.json": spec(it, "aasx/d.json")})), "INFO", f"relationships of any other type such as {t.example()!r}")
    add("other types", R_OK, othertypes)

    # ---------------------------------------------------------------- graphs
    def graph(name, rs, parts, want, sp=("aasx/d.json", False), warn=None):
        def fn(it):
            judge(check(package(it, rs, parts, {sp[0]: spec(it, sp[0], sp[1])})), want, name)
        add(f"graph:{name}", R_GRAPH, fn)
    base = {"": [(T_ORIGIN, "/o")], "o": [(T_SPEC, "/aasx/d.json")]}
    for bad in (False, True):
        w = "ERROR" if bad else "INFO"
        s = ("aasx/d.json", bad)
        tag = ":invalid" if bad else ""
        graph("self loop" + tag, {**base, "o": base["o"] + [(T_SUPPL, "/o")]}, ["o"], w, s)
        graph("back to origin" + tag, {**base, "aasx/d.json": [(T_SUPPL, "/o")]}, ["o"], w, s)
        graph("cycle" + tag, {**base, "aasx/d.json": [(T_SUPPL, "/a")], "a": [(T_SUPPL, "/b")], "b": [(T_SUPPL, "/a")]}, ["o", "a", "b"], w, s)
        graph("cycle through origin" + tag, {**base, "aasx/d.json": [(T_SUPPL, "/a")], "a": [(T_ORIGIN, "/o")]}, ["o", "a"], w, s)
        graph("diamond" + tag, {**base, "aasx/d.json": [(T_SUPPL, "/a"), (T_SUPPL, "/b")], "a": [(T_SUPPL, "/c")], "b": [(T_SUPPL, "/c")]}, ["o", "a", "b", "c"], w, s)
        graph("repeated specification" + tag, {**base, "o": base["o"] * 2}, ["o"], w, s)
        graph("specification also supplementary" + tag, {**base, "o": [(T_SUPPL, "/aasx/d.json")] + base["o"]}, ["o"], w, s)
        graph("specification also supplementary 2" + tag, {**base, "o": base["o"] + [(T_SUPPL, "/aasx/d.json")]}, ["o"], w, s)
        graph("origin also supplementary" + tag, {**base, "": [(T_SUPPL, "/o"), (T_ORIGIN, "/o")]}, ["o"], w, s)
        graph("origin also supplementary 2" + tag, {**base, "": [(T_ORIGIN, "/o"), (T_SUPPL, "/o")]}, ["o"], w, s)
        graph("origin reached before" + tag, {"": [(T_SUPPL, "/x"), (T_ORIGIN, "/o")], "x": [(T_SUPPL, "/o")], "o": base["o"]}, ["o", "x"], w, s)
        graph("specification reached before" + tag, {"": [(T_SUPPL, "/aasx/d.json"), (T_ORIGIN, "/o")], "o": base["o"]}, ["o"], w, s)
        graph("shared specification" + tag, {"": [(T_ORIGIN, "/o"), (T_ORIGIN, "/p")], "o": base["o"], "p": base["o"]}, ["o", "p"], "ERROR" if bad else "WARNING", s)
    for pos in range(4):
        chain = ["c0", "c1", "c2", "c3"]
        rs = {**base, "aasx/d.json": [(T_SUPPL, "/c0")]}
        for i in range(3):
            rs[chain[i]] = [(T_SUPPL, "/" + chain[i + 1])]
        rs[chain[pos]] = rs.get(chain[pos], []) + [(T_SUPPL, "/missing")]
        graph(f"missing at depth {pos}", rs, ["o"] + chain, "ERROR")
        shared = {**rs, "": base[""] + [(T_SUPPL, "/" + chain[pos])]}
        graph(f"missing at depth {pos}, shared", shared, ["o"] + chain, "ERROR")
    # ---------------------------------------------------------------- an entry does not end the reading of its list
    for src in ("", "o", "aasx/d.json", "c"):
        before = {"repeated": [(T_SUPPL, "/a"), (T_SUPPL, "/a")], "plain": [(T_SUPPL, "/a")], "with relationships": [(T_SUPPL, "/b")], "deprecated": [(OLD[T_SUPPL], "/a")], "thumbnail": [(THUMB, "/a")], "itself": [(T_SUPPL, "/" + (src or "a"))],
                  "an earlier part": [(T_SUPPL, "/o")], "the specification": [(T_SUPPL, "/aasx/d.json")], "relative": [(T_SUPPL, "x/../" * src.count("/") + ("../a" if "/" in src else "a"))]}
        after = {"missing": [(T_SUPPL, "/missing")], "no type": [(None, "/a")], "no target": [(T_SUPPL, None)], "foreign": [(T_SUPPL, "/a", "{http://x}Relationship")], "missing below": [(T_SUPPL, "/bad")], "nothing": [],
                 "specification": [(T_SPEC, "/s.json")], "origin": [(T_ORIGIN, "/p")]}
        for bn, be in before.items():
            for an, ae in after.items():
                if an == "specification" and src != "o" or an == "origin" and src != "":
                    continue
                for gap in ((0, 1) if an != "nothing" else (0,)):
                    def seq(it, src=src, be=be, ae=ae, gap=gap, bn=bn, an=an):
                        rs = {"": [(T_ORIGIN, "/o")], "o": [(T_SPEC, "/aasx/d.json")], "aasx/d.json": [(T_SUPPL, "/c")], "c": [], "b": [(T_SUPPL, "/e")], "p": [(T_SPEC, "/s.json")]}
                        if an == "missing below":
                            rs["bad"] = [(T_SUPPL, "/a"), (T_SUPPL, "/missing")]
                        rs[src] = rs[src] + be + [(T_SUPPL, "/f")] * gap + ae
                        z = package(it, rs, ["o", "p", "a", "b", "c", "e", "f", "bad"], {"aasx/d.json": spec(it, "aasx/d.json"), "s.json": spec(it, "s.json", True)})
                        judge(check(z), "ERROR" if an != "nothing" else "WARNING" if bn == "deprecated" else "INFO", f"{rels_name(src)}: {bn}, followed by {an}")
                    add(f"sequence:{src}:{bn}:{an}:{gap}", R_REL if an not in ("specification", "origin", "nothing") else R_SPEC if an != "nothing" else R_OK, seq)
    if tier != "quick":
        # all relationship graphs over three supplementary parts
        ps = ["a", "b", "c"]
        es = [(x, y) for x in ps for y in ps]
        for mask in range(1 << len(es)):
            rs = {**base, "aasx/d.json": [(T_SUPPL, "/a")]}
            for i, (x, y) in enumerate(es):
                if mask >> i & 1:
                    rs[x] = rs.get(x, []) + [(T_SUPPL, "/" + y)]
            graph(f"all:{mask}", rs, ["o"] + ps, "INFO")
    return obs
