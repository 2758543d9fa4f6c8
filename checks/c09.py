"""C09: key chains of references (AASd-121 .. AASd-128)."""
import itertools
from .common import *
from . import docs as D, meta as M

LEVEL = "other"
CLASSES = {
    "A": ["AssetAdministrationShell", "ConceptDescription", "Identifiable", "Submodel"],
    "G": ["GlobalReference"],
    "F": ["FragmentReference"],
    "B": ["File", "Blob"],
    "L": ["SubmodelElementList"],
    "S": [k for k in M.SME_KEYS if k not in ("File", "Blob", "SubmodelElementList")],
    "R": ["Referable"],
}
INT = "[0-9]{1,2000}"


def oracle(kind, chain, ints):
    """is the chain of key classes allowed? ints[i]: the value of key i is a position number"""
    if kind == "ExternalReference":
        return chain[0] == "G" and chain[-1] in "GF"
    if chain[0] != "A":
        return False
    for i, c in enumerate(chain[1:], 1):
        if c not in "FBLS":
            return False
        if c == "F" and (i != len(chain) - 1 or chain[i - 1] != "B"):
            return False
        if chain[i - 1] == "L" and not ints[i]:
            return False
    return True


def violated(kind, chain, ints):
    """the constraints violated by a chain"""
    v = set()
    n = len(chain)
    if chain[0] not in "AG":
        v.add("AASd-121")
    if kind == "ExternalReference":
        if chain[0] != "G":
            v.add("AASd-122")
        if chain[-1] not in "GF":
            v.add("AASd-124")
        return v
    if chain[0] != "A":
        v.add("AASd-123")
    if any(c not in "FBLS" for c in chain[1:]):
        v.add("AASd-125")
    if n > 1 and any(c == "F" for c in chain[:-1]):
        v.add("AASd-126")
    if any(c == "F" and chain[i] != "B" for i, c in enumerate(chain[1:])):
        v.add("AASd-127")
    if any(chain[i - 1] == "L" and not ints[i] for i in range(1, n)):
        v.add("AASd-128")
    return v


def int_lang():
    return rx.compile_spec("[0-9]+")


def nonint():
    return rx.inter(D.xml_chars(), rx.compile_spec("\\+?[0-9]+|-0+").neg())


def chain_obj(kind, chain, ints):
    keys = []
    for i, c in enumerate(chain):
        if i and chain[i - 1] == "L":
            v = AbsStr(int_lang() if ints[i] else nonint(), 1, 2000, name=f"value{i}")
        else:
            v = AbsStr(D.xml_chars(), 1, 2000, name=f"value{i}")
        keys.append({"type": AbsStr(rx.words(CLASSES[c]), name=f"type{i}"), "value": v})
    return {"type": kind, "keys": keys}


FAMILY = [f"AASd-{i}" for i in range(121, 129)]
RULES = "key chain allowed by AASd-121..128 => accepted, otherwise => ERROR"


def obligations(tier):
    obs = []

    def add(name, rule, want, build, what, names=None):
        def fn(it):
            r = D.judge(D.check_json(build(it)), want, what)
            if names is not None:
                D.named(r, names, FAMILY)
        obs.append(Ob(name, fn, rule, max_paths=6000))
    depth = 5 if tier == "thorough" else 4
    for kind in ("ExternalReference", "ModelReference"):
        for n in range(1, depth + 1):
            for chain in itertools.product(CLASSES, repeat=n):
                after = [i for i in range(1, n) if chain[i - 1] == "L"]
                for bits in itertools.product((True, False), repeat=len(after) if kind == "ModelReference" else 0):
                    ints = {i: True for i in range(n)}
                    ints.update(zip(after, bits))
                    want = oracle(kind, chain, ints)
                    tag = "".join(chain) + "".join("i" if b else "x" for b in bits)
                    add(f"{kind}:{tag}", RULES, want,
                        lambda it, kind=kind, chain=chain, ints=ints: D.embed("Reference", chain_obj(kind, chain, ints)),
                        f"{kind} with keys {'/'.join(chain)} ({tag})", sorted(violated(kind, chain, ints)))
    # longer chains: a rule applies at every position
    for k in (3, 4, 6):
        for tail, want in (("S", True), ("BF", True), ("SF", False), ("SA", False), ("GS", False), ("SR", False),
                           ("LxS", False), ("LiS", True), ("BFS", False), ("SG", False), ("FS", False)):
            def longer(it, tail=tail, k=k):
                chain = ["A"] + ["S"] * k + [c for c in tail if c in CLASSES]
                return D.embed("Reference", chain_obj("ModelReference", chain, {i: "x" not in tail for i in range(20)}))
            add(f"ModelReference:A(S{k}){tail}", RULES, want, longer, f"model reference with keys A/{'S/' * k}{tail}")
        for mid in "AFBLSRG":
            for last, want in (("G", True), ("F", True), ("S", False), ("A", False)):
                add(f"ExternalReference:G{mid}{k}{last}", RULES, want, lambda it, mid=mid, k=k, last=last: D.embed(
                    "Reference", chain_obj("ExternalReference", ["G"] + [mid] * k + [last], {i: True for i in range(20)})),
                    f"external reference with keys G/{mid}*{k}/{last}")
    # the rules hold for every reference-valued attribute
    bad = {"AASd-121": ("ModelReference", "S"), "AASd-122": ("ExternalReference", "A"), "AASd-123": ("ModelReference", "G"),
           "AASd-124": ("ExternalReference", "GS"), "AASd-125": ("ModelReference", "AA"), "AASd-126": ("ModelReference", "ABFS"),
           "AASd-127": ("ModelReference", "ASF"), "AASd-128": ("ModelReference", "ALS")}
    for owner, n, lst, k in D.edges():
        if k != "Reference":
            continue
        for c, (kind, chain) in bad.items():
            add(f"{owner}.{n}:{c}", "the key rules hold for every reference of the metamodel", False,
                lambda it, owner=owner, n=n, lst=lst, kind=kind, chain=chain: D.embed(
                    "Reference", chain_obj(kind, list(chain), {i: False for i in range(9)}), (owner, n, lst)),
                f"{owner}.{n} with a reference violating {c}", sorted(violated(kind, chain, {i: False for i in range(9)})))
        for kind, chain in (("ExternalReference", "GF"), ("ModelReference", "AS"), ("ModelReference", "ABF"), ("ModelReference", "ALS")):
            if kind == "ExternalReference" and (owner, n) in D.MODEL_REF_EDGES:
                continue
            if kind == "ModelReference" and (owner, n) == ("SpecificAssetId", "externalSubjectId"):
                continue
            if (owner, n) == ("Submodel", "semanticId"):
                continue
            add(f"{owner}.{n}:ok:{chain}", "a reference following the key rules is accepted everywhere", True,
                lambda it, owner=owner, n=n, lst=lst, kind=kind, chain=chain: D.embed(
                    "Reference", chain_obj(kind, list(chain), {i: True for i in range(9)}), (owner, n, lst)),
                f"{owner}.{n} with a valid reference")
    return obs
