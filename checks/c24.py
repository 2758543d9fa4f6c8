"""C24: reflection reproduces the declared classes and functions, and string formats hold for every string."""
import itertools
from .common import *
from . import docs as D, pkg as P

LEVEL = "other"
R_ATTR = "attributes: every field once, in order of declaration, inherited ones included; required <=> not Optional"
R_TYPE = "the reflected type is the declared one, through lists, forward references and cycles"
R_SUB = "subclasses are exactly the concrete transitive ones; abstract is only what is marked itself"
R_META = "exclude_as fields are constants of the constructed object, force_name is handed on"
R_LOOK = "lookup by class name: the unique match, else ValueError"
R_BAD = "what cannot be reflected is rejected"
R_STR = "a string format accepts exactly the strings within length, XML characters and pattern; equality and text follow the value"
R_FUN = "functions: all annotated arguments in order, required <=> not Optional"

CLIENT = '''
from dataclasses import dataclass, field
from enum import Enum
from typing import List, Optional, Union, Dict
import re
from aas_test_engines import reflect as R
from aas_test_engines.reflect import reflect, reflect_function, abstract, is_abstract, StringFormattedValue, NonEmptyList

class Color(Enum):
    Red = "red"
    Green = "green"

class Short(StringFormattedValue):
    min_length = 1
    max_length = 3
    pattern = re.compile("[a-z]*")

@dataclass
class Leaf:
    a: str
    b: Optional[str]
    c: bool
    d: Optional[bool]
    e: int
    f: Optional[int]
    g: bytes
    h: Optional[bytes]
    i: Color
    j: Optional[Color]
    k: Short
    l: Optional[Short]
    m: any
    n: Optional[str] = None

@dataclass
class Lists:
    a: List[str]
    b: NonEmptyList[str]
    c: Optional[List[Color]]
    d: Optional[NonEmptyList[Color]]
    e: List[Leaf]
    f: NonEmptyList["Leaf"]
    g: Optional[List["Lists"]]
    h: NonEmptyList[Short]
    i: List[List[str]]
    j: NonEmptyList[List[int]]

@dataclass
class Base:
    x: str
    y: Optional[str]

@dataclass
class Mid(Base):
    z: bool

@dataclass
class Low(Mid):
    w: Optional["Cycle"]
    x: Optional[str]

@dataclass
class Cycle:
    back: Optional["Base"]
    own: Optional["Cycle"]

@dataclass
class Fixed:
    a: str
    b: str = field(metadata={"exclude_as": "const"})
    c: Optional[str] = field(metadata={"force_name": "C-Name"})
    d: Optional[Leaf] = field(metadata={"exclude_as": None})
    e: int = field(metadata={"exclude_as": 0, "force_name": "x"})
    f: Optional[int] = field(default=None, metadata={"force_name": ""})

@dataclass
class Forced:
    a: str = field(metadata={"force_name": "A"})
    b: Optional[str] = field(metadata={"force_name": "B"})
    c: bool = field(metadata={"other": 1})
    d: List[int] = field(metadata={"force_name": "D"})
    e: Optional[Leaf] = field(metadata={})

@abstract
@dataclass
class Same:
    p: str

class SameScope:
    @dataclass
    class Same(Same):
        q: str

    class Deep:
        @dataclass
        class Same(Same):
            r: str

InnerSame = SameScope.Same
DeepSame = SameScope.Deep.Same

@abstract
@dataclass
class Root:
    p: str

@dataclass
class ConcA(Root):
    pass

@abstract
@dataclass
class AbsB(Root):
    q: str

@dataclass
class ConcC(AbsB):
    r: str

@dataclass
class ConcD(ConcC):
    pass

@abstract
@dataclass
class AbsE(ConcD):
    pass

@dataclass
class ConcF(AbsE):
    pass

@dataclass
class Holder:
    a: Root
    b: Optional[AbsB]
    c: List[ConcC]
    d: NonEmptyList[AbsE]

@dataclass
class NameBase:
    p: str

@dataclass
class Twin(NameBase):
    q: str

class Scope:
    @dataclass
    class Twin(NameBase):
        r: str

    class Color(Enum):
        Blue = "blue"

    class Short(StringFormattedValue):
        max_length = 9

@dataclass
class Twins:
    a: Twin
    b: Scope.Twin
    c: Color
    d: Scope.Color
    e: Short
    f: Scope.Short
    g: List[Twin]
    h: List[Scope.Twin]
    i: List[Color]
    j: List[Scope.Color]
    k: NonEmptyList[Scope.Short]
    l: NonEmptyList[Short]

class Plain:
    pass

@dataclass
class HasPlain:
    a: Plain

@dataclass
class HasFloat:
    a: float

@dataclass
class HasDict:
    a: Dict[str, str]

@dataclass
class HasUnion:
    a: Union[str, int]

@dataclass
class HasUnion3:
    a: Union[str, None, int]

@dataclass
class HasMissing:
    a: Optional["NoSuchClass"]

@dataclass
class XLeaf:
    a: Leaf

@dataclass
class Inner:
    class Deep(Enum):
        One = "1"
    a: Deep
    leaf: Leaf
    xl: XLeaf

def go(cls):
    return reflect(cls, globals(), locals())

@dataclass
class Shadow:
    outer: str

@dataclass
class HasShadow:
    a: Optional["Shadow"]

def go_shadow():
    @dataclass
    class Shadow:
        inner: str
    return reflect(HasShadow, globals(), locals())

def go_outer():
    return reflect(HasShadow, globals(), locals())

def fun0():
    pass

def fun1(a: str) -> str:
    return a

def fun2(a: str, b: Optional[str], c: Optional[int] = None, d: Color = Color.Red, e: Optional[Color] = None) -> Optional[str]:
    return a

def fun3(self, request: Short, x: Optional[bytes]) -> bool:
    return True

def fun1o(a: Optional[str]) -> str:
    return a

def fun1b(b: str) -> str:
    return b

def ff(f):
    return reflect_function(f)

class Any0(StringFormattedValue):
    pass

class Min2(StringFormattedValue):
    min_length = 2

class Max2(StringFormattedValue):
    max_length = 2

class Min0(StringFormattedValue):
    min_length = 0
    max_length = 0

class Pat(StringFormattedValue):
    pattern = re.compile("a+|b")

class PatSub(Pat):
    max_length = 2

class B64(StringFormattedValue):
    base64 = True

class Exact(StringFormattedValue):
    min_length = 3
    max_length = 3
    pattern = re.compile("[0-9]*")
'''
S, OS = ("str",), None


class Desc:
    """readable structure of a reflected type"""

    def __init__(self, it):
        self.it = it
        self.seen = []

    def cls(self, t):
        c = core.force(t)
        if c is None:
            return "None"
        n = c.cls.name
        it = self.it
        if n in ("StringType", "BoolType", "AnyType", "NumberType", "BytesType", "NoneType"):
            return n
        if n in ("EnumType", "StringFormattedValueType"):
            return f"{n}({it.getattr_(c, 'cls').name})"
        if n == "ListType":
            return f"{'List' if B.truth(it, it.getattr_(c, 'allow_empty')) else 'NonEmpty'}[{self.cls(it.getattr_(c, 'item_type'))}]"
        if n == "ClassType":
            return f"class {it.getattr_(c, 'cls').name}"
        return n

    def attrs(self, t):
        it = self.it
        out = []
        for a in B.iterate(it, it.getattr_(t, "attrs")):
            out.append((it.getattr_(a, "name"), bool(B.truth(it, it.getattr_(a, "required"))), self.cls(it.getattr_(a, "type")), it.getattr_(a, "force_name")))
        return out


ST, BT, NT, YT, AT = "StringType", "BoolType", "NumberType", "BytesType", "AnyType"
CO, SH = "EnumType(Color)", "StringFormattedValueType(Short)"
EXPECT = {
    "Leaf": [("a", True, ST), ("b", False, ST), ("c", True, BT), ("d", False, BT), ("e", True, NT), ("f", False, NT), ("g", True, YT), ("h", False, YT), ("i", True, CO), ("j", False, CO),
             ("k", True, SH), ("l", False, SH), ("m", True, AT), ("n", False, ST)],
    "Lists": [("a", True, f"List[{ST}]"), ("b", True, f"NonEmpty[{ST}]"), ("c", False, f"List[{CO}]"), ("d", False, f"NonEmpty[{CO}]"), ("e", True, "List[class Leaf]"), ("f", True, "NonEmpty[class Leaf]"),
              ("g", False, "List[class Lists]"), ("h", True, f"NonEmpty[{SH}]"), ("i", True, f"List[List[{ST}]]"), ("j", True, f"NonEmpty[List[{NT}]]")],
    "Base": [("x", True, ST), ("y", False, ST)],
    "Mid": [("x", True, ST), ("y", False, ST), ("z", True, BT)],
    "Low": [("x", False, ST), ("y", False, ST), ("z", True, BT), ("w", False, "class Cycle")],
    "Cycle": [("back", False, "class Base"), ("own", False, "class Cycle")],
    "Forced": [("a", True, ST, "A"), ("b", False, ST, "B"), ("c", True, BT), ("d", True, f"List[{NT}]", "D"), ("e", False, "class Leaf")],
    "Fixed": [("a", True, ST), ("c", False, ST, "C-Name"), ("f", False, NT, "")],
    "Root": [("p", True, ST)], "AbsB": [("p", True, ST), ("q", True, ST)], "ConcC": [("p", True, ST), ("q", True, ST), ("r", True, ST)],
    "ConcD": [("p", True, ST), ("q", True, ST), ("r", True, ST)],
    "Holder": [("a", True, "class Root"), ("b", False, "class AbsB"), ("c", True, "List[class ConcC]"), ("d", True, "NonEmpty[class AbsE]")],
    "Inner": [("a", True, "EnumType(Deep)"), ("leaf", True, "class Leaf"), ("xl", True, "class XLeaf")],
}
SUBS = {"Leaf": set(), "Base": {"Mid", "Low"}, "Mid": {"Low"}, "Low": set(), "Root": {"ConcA", "ConcC", "ConcD", "ConcF"}, "AbsB": {"ConcC", "ConcD", "ConcF"}, "ConcC": {"ConcD", "ConcF"}, "ConcD": {"ConcF"},
        "AbsE": {"ConcF"}, "ConcF": set(), "ConcA": set(), "NameBase": ["Twin", "Twin"], "Same": ["Same", "Same"]}
ABSTRACT = {"Root": True, "ConcA": False, "AbsB": True, "ConcC": False, "ConcD": False, "AbsE": True, "ConcF": False, "Leaf": False, "Base": False, "Same": True, "InnerSame": False, "DeepSame": False}
XML = "[\\x09\\x0a\\x0d\\x20-\\ud7ff\\ue000-\\ufffd\\U00010000-\\U0010ffff]"
STRINGS = {  # class -> (pattern of accepted strings, min, max)
    "Any0": (XML + "*", 0, None), "Min2": (XML + "*", 2, None), "Max2": (XML + "*", 0, 2), "Min0": ("", 0, 0), "Pat": ("a+|b", 0, None), "PatSub": ("a|aa|b", 0, None),
    "Short": ("[a-z]{1,3}", 0, None), "B64": (XML + "*", 0, None), "Exact": ("[0-9]{3}", 0, None)}


def obligations(tier):
    obs = []
    ns = client(CLIENT)

    def add(name, rule, fn, **k):
        obs.append(Ob(name, fn, rule, **k))

    def refl(name):
        k, v = attempt(ns["go"], ns[name])
        if k == "raise":
            raise_violation(f"reflecting {name}", v)
        it = interp()
        return it.getitem(v, 0), it.getitem(v, 1)

    def find(it, t, path, name):
        """the class type reached from t"""
        return t
    for name, exp in EXPECT.items():
        def attrs(it, name=name, exp=exp):
            t, _ = refl(name)
            d = Desc(it)
            if d.cls(t) != f"class {name}":
                raise Violation(f"{name} is reflected as {d.cls(t)}", key="type")
            got = d.attrs(t)
            want = [(e + (None,))[:4] for e in exp]
            for w in want:
                g = [x for x in got if x[0] == w[0]]
                if len(g) != 1:
                    raise Violation(f"{name}.{w[0]} is reflected {len(g)} times", key="attribute")
                if g[0] != w:
                    raise Violation(f"{name}.{w[0]} is reflected as {g[0][1:]} instead of {w[1:]}", key="attribute")
            if [x[0] for x in got] != [w[0] for w in want]:
                raise Violation(f"{name} has attributes {[x[0] for x in got]}", key="attribute")
        add(f"attributes:{name}", R_ATTR, attrs)
        for host in EXPECT:
            def sym_(it, name=name, host=host):
                t, st = refl(host)
                k, v = attempt(it.getattr_(st, "lookup"), name)
                reach = k == "ok"
                if not reach:
                    if not is_exc(v, "ValueError"):
                        raise_violation(f"lookup of {name}", v)
                    if name == host:
                        raise Violation(f"lookup of {name} in its own table fails", key="lookup")
                    return
                d = Desc(it)
                if d.cls(v) != f"class {name}":
                    raise Violation(f"lookup of {name} gives {d.cls(v)}", key="lookup")
                want = [(e + (None,))[:4] for e in EXPECT[name]]
                if d.attrs(v) != want:
                    raise Violation(f"{name}, reached from {host}, has attributes {d.attrs(v)}", key="attribute")
                if name == host and v is not t:
                    raise Violation(f"lookup of {name} gives another type than reflect", key="lookup")
            add(f"lookup:{name} in {host}", R_LOOK, sym_)
    REACH = {"Lists": ["Leaf", "Lists"], "Base": ["Mid", "Low", "Cycle", "Base"], "Cycle": ["Base", "Mid", "Low"], "Holder": ["Root", "ConcA", "AbsB", "ConcC", "ConcD", "AbsE", "ConcF"], "Root": ["ConcF"], "Inner": ["Leaf", "XLeaf"],
             "Leaf": ["Short"]}
    for host, ns_ in REACH.items():
        for name in ns_:
            def look(it, host=host, name=name):
                _, st = refl(host)
                k, v = attempt(it.getattr_(st, "lookup"), name)
                if k == "raise":
                    raise_violation(f"lookup of {name}, which is used by {host},", v)
                d = Desc(it).cls(v)
                if d not in (f"class {name}", f"EnumType({name})", f"StringFormattedValueType({name})"):
                    raise Violation(f"lookup of {name} gives {d}", key="lookup")
            add(f"reach:{host}:{name}", R_LOOK, look)

    def unknown(it):
        _, st = refl("Leaf")
        for n in ("Holder", "eaf", "leaf", "Lea", "", "Leaf ", "str", "Col", "olor", "Leaf'>", "reflect"):
            k, v = attempt(it.getattr_(st, "lookup"), n)
            if k == "ok":
                raise Violation(f"lookup of {n!r} gives {Desc(it).cls(v)}", key="lookup")
            if not is_exc(v, "ValueError"):
                raise_violation(f"lookup of {n!r}", v)
    add("lookup:unknown", R_LOOK, unknown)

    def ambiguous(it):
        _, st = refl("Leaf")
        syms = it.getattr_(st, "symbols")
        it.setitem(syms, "<class 'other.Leaf'>", it.getitem(refl("Base"), 0) if False else refl("Base")[0])
        k, v = attempt(it.getattr_(st, "lookup"), "Leaf")
        if k == "ok":
            raise Violation("lookup of an ambiguous name gives one of the matches", key="lookup")
        if not is_exc(v, "ValueError"):
            raise_violation("lookup of an ambiguous name", v)
    add("lookup:ambiguous", R_LOOK, ambiguous)

    # identity: one type object per class
    def cyc(it):
        t, st = refl("Cycle")
        a = {B.const_of(it.getattr_(x, "name")) if not isinstance(it.getattr_(x, "name"), str) else it.getattr_(x, "name"): x for x in B.iterate(it, it.getattr_(t, "attrs"))}
        if core.force(it.getattr_(a["own"], "type")) is not t:
            raise Violation("a recursive attribute does not lead back to its class", key="cycle")
        b = it.getattr_(a["back"], "type")
        low = [s for s in B.iterate(it, it.getattr_(b, "subclasses")) if it.getattr_(s, "cls").name == "Low"]
        if len(low) != 1:
            raise Violation("the subclass Low of Base is missing", key="cycle")
        w = [x for x in B.iterate(it, it.getattr_(low[0], "attrs")) if it.getattr_(x, "name") == "w"][0]
        if core.force(it.getattr_(w, "type")) is not t:
            raise Violation("a cycle of references does not lead back to its class", key="cycle")
    add("cycle", R_TYPE, cyc)

    # equal names in different scopes
    def twins(it):
        t, st = refl("Twins")
        S = lambda n: it.getattr_(ns["Scope"], n)
        want = dict(a=ns["Twin"], b=S("Twin"), c=ns["Color"], d=S("Color"), e=ns["Short"], f=S("Short"), g=ns["Twin"], h=S("Twin"), i=ns["Color"], j=S("Color"), k=S("Short"), l=ns["Short"])
        for a in B.iterate(it, it.getattr_(t, "attrs")):
            n, y = it.getattr_(a, "name"), core.force(it.getattr_(a, "type"))
            y = core.force(it.getattr_(y, "item_type")) if n >= "g" else y
            if it.getattr_(y, "cls") is not want[n]:
                raise Violation(f"attribute {n} gets a type of the same name from another scope", key="twins")
        bt, _ = refl("NameBase")
        got = [it.getattr_(s, "cls") for s in B.iterate(it, it.getattr_(bt, "subclasses"))]
        if {id(g) for g in got} != {id(ns["Twin"]), id(S("Twin"))}:
            raise Violation("of two subclasses with the same name in different scopes one is missing", key="twins")
    add("equal names", R_TYPE, twins)

    # subclasses
    for name, exp in SUBS.items():
        for host in ("self", "Holder", "Cycle"):
            def subs(it, name=name, exp=exp, host=host):
                if host == "self":
                    t, _ = refl(name)
                else:
                    _, st = refl(host)
                    k, t = attempt(it.getattr_(st, "lookup"), name)
                    if k == "raise":
                        return
                got = [it.getattr_(s, "cls").name for s in B.iterate(it, it.getattr_(t, "subclasses"))]
                if sorted(got) != sorted(exp):
                    raise Violation(f"the subclasses of {name} are {sorted(got)}", key="subclasses")
                for s in B.iterate(it, it.getattr_(t, "subclasses")):
                    if s.cls.name != "ClassType":
                        raise Violation(f"a subclass of {name} is a {s.cls.name}", key="subclasses")
            add(f"subclasses:{name}:{host}", R_SUB, subs)
    for name, exp in ABSTRACT.items():
        def abstr(it, name=name, exp=exp):
            t, _ = refl(name)
            for got, what in ((B.truth(it, meth(t, "is_abstract")), "reflected type"), (B.truth(it, call(ns["is_abstract"], ns[name])), "class")):
                if bool(got) != exp:
                    raise Violation(f"the {what} {name} is {'not ' if exp else ''}abstract", key="abstract")
        add(f"abstract:{name}", R_SUB, abstr)

    # construction and metadata
    def fixed(it):
        t, _ = refl("Fixed")
        a, c = AbsStr(rx.ANY, name="a"), AbsStr(rx.ANY, name="c")
        k, o = attempt(it.getattr_(t, "construct"), PyDict([("a", a), ("c", c), ("f", 5)]))
        if k == "raise":
            raise_violation("constructing an object with excluded fields", o)
        for n, v in (("a", a), ("b", "const"), ("c", c), ("d", None), ("e", 0), ("f", 5)):
            g = it.getattr_(o, n)
            if not P.same_value(g, v):
                raise Violation(f"the constructed object has {n}={show(g)}", key="construct")
        if o.cls is not ns["Fixed"]:
            raise Violation("construct builds an object of another class", key="construct")
    add("construct:Fixed", R_META, fixed)

    def given(it):
        t, _ = refl("Fixed")
        k, o = attempt(it.getattr_(t, "construct"), PyDict([("a", "1"), ("b", "other"), ("c", "2"), ("d", "other"), ("e", 7), ("f", 5)]))
        if k == "ok":       # rejecting them is as good
            for n, v in (("b", "const"), ("d", None), ("e", 0)):
                g = it.getattr_(o, n)
                if not P.same_value(g, v):
                    raise Violation(f"the excluded field {n} is no constant: it takes the given value {show(g)}", key="construct")
    add("construct:Fixed:given", R_META, given)

    def simple(it):
        t, _ = refl("Leaf")
        col = {it.getattr_(x, "name"): it.getattr_(x, "type") for x in B.iterate(it, it.getattr_(t, "attrs"))}
        r = meth(col["i"], "construct", "green")
        if r is not it.getattr_(ns["Color"], "Green"):
            raise Violation(f"constructing an enumeration gives {show(r)}", key="construct")
        k, e = attempt(it.getattr_(col["i"], "construct"), AbsStr(rx.minus(rx.ANY, rx.words(["red", "green"])), name="literal"))
        if k == "ok" or not is_exc(e, "ValueError"):
            raise Violation("an unknown literal does not raise ValueError", key="construct")
        s = AbsStr(rx.compile_spec("[a-z]{1,3}"), name="text")
        o = meth(col["k"], "construct", s)
        if o.cls is not ns["Short"] or not P.same_value(it.getattr_(o, "raw_value"), s):
            raise Violation("constructing a string format gives another value", key="construct")
    add("construct:leaf types", R_META, simple)

    # rejected declarations
    for name in ("HasPlain", "HasFloat", "HasDict", "HasUnion", "HasUnion3", "HasMissing", "Plain"):
        def rej(it, name=name):
            k, v = attempt(ns["go"], ns[name])
            if k == "ok":
                raise Violation(f"{name} is reflected although its declaration is not supported", key="accepted")
        add(f"rejected:{name}", R_BAD, rej)

    # forward references
    for fn, want in (("go_shadow", "inner"), ("go_outer", "outer")):
        def shadow(it, fn=fn, want=want):
            k, v = attempt(ns[fn])
            if k == "raise":
                raise_violation(f"reflecting a forward reference ({want} class)", v)
            a = list(B.iterate(it, it.getattr_(it.getitem(v, 0), "attrs")))[0]
            names = [it.getattr_(x, "name") for x in B.iterate(it, it.getattr_(it.getattr_(a, "type"), "attrs"))]
            if names != [want]:
                raise Violation(f"the forward reference names the class with attributes {names}, not the {want} one", key="forward")
        add(f"forward reference:{want}", R_TYPE, shadow)

    # simple types
    for src, exp in (("str", ST), ("bool", BT), ("int", NT), ("bytes", YT)):
        def prim(it, src=src, exp=exp):
            k, v = attempt(ns["go"], it.builtins[src])
            if k == "raise":
                raise_violation(f"reflecting {src}", v)
            if Desc(it).cls(it.getitem(v, 0)) != exp:
                raise Violation(f"{src} is reflected as {Desc(it).cls(it.getitem(v, 0))}", key="type")
        add(f"type:{src}", R_TYPE, prim)
    for src, exp in (("Color", CO), ("Short", SH)):
        def prim2(it, src=src, exp=exp):
            k, v = attempt(ns["go"], ns[src])
            if k == "raise":
                raise_violation(f"reflecting {src}", v)
            if Desc(it).cls(it.getitem(v, 0)) != exp:
                raise Violation(f"{src} is reflected as {Desc(it).cls(it.getitem(v, 0))}", key="type")
        add(f"type:{src}", R_TYPE, prim2)

    # functions
    FUNS = {"fun0": ([], "NoneType"), "fun1": ([("a", True, ST)], ST), "fun3": ([("request", True, SH), ("x", False, YT)], BT)}
    for name, (args, ret) in FUNS.items():
        def fun(it, name=name, args=args, ret=ret):
            k, t = attempt(ns["ff"], ns[name])
            if k == "raise":
                raise_violation(f"reflecting function {name}", t)
            d = Desc(it)
            got = [(it.getattr_(a, "name"), bool(B.truth(it, it.getattr_(a, "required"))), d.cls(it.getattr_(a, "type"))) for a in B.iterate(it, it.getattr_(t, "args"))]
            if got != args:
                raise Violation(f"function {name} is reflected with arguments {got}", key="function")
            if d.cls(it.getattr_(t, "return_type")) != ret:
                raise Violation(f"function {name} returns {d.cls(it.getattr_(t, 'return_type'))}", key="function")
            k, f = attempt(it.builtins["getattr"], t, "func")
            if k == "raise":
                raise_violation(f"the function behind the reflection of {name}", f)
            if f is not ns[name]:
                raise Violation(f"the reflected function is not {name}", key="function")
        add(f"function:{name}", R_FUN, fun)

    def funeq(it):
        src = {n: call(ns["ff"], ns[n]) for n in ("fun0", "fun1", "fun1o", "fun1b", "fun3")}
        for (a, x), (b, y) in itertools.product(src.items(), repeat=2):
            if bool(B.truth(it, B.eq(it, x, y))) != (a == b):
                raise Violation(f"functions {a} and {b} compare {'un' if a == b else ''}equal", key="function")
    add("function:equality", R_FUN, funeq)

    # ---------------------------------------------------------------- string formats
    for name, (pat, lo, hi) in STRINGS.items():
        good = rx.compile_spec(pat)
        good_len = (lo, hi)

        def accept(it, name=name, good=good, lo=lo, hi=hi):
            s = AbsStr(good, lo, hi, name="text")
            k, v = attempt(ns[name], s)
            if k == "raise":
                raise_violation(f"{name}: text {s.example()!r} is rejected", v)
            if not P.same_value(it.getattr_(v, "raw_value"), s):
                raise Violation(f"{name}: the value kept is {show(it.getattr_(v, 'raw_value'))}", key="value")
            t = it.str_(v)
            want = L_b64(s) if name == "B64" else s
            P.known(t)
            if not P.same_value(t, want):
                raise Violation(f"{name}: the text of the value is {show(t)} instead of {show(want)}", key="text")
        add(f"string:{name}:accept", R_STR, accept)

        def reject(it, name=name, good=good, lo=lo, hi=hi):
            which = choose(3, "deviation")
            if which == 0:
                s = AbsStr(good.neg(), name="text")
                if good.neg().empty():
                    raise core.Infeasible() if hasattr(core, "Infeasible") else core.Unsupported("none")
            elif which == 1:
                if not lo:
                    return
                s = AbsStr(rx.ANY, 0, lo - 1, name="text")
            else:
                if hi is None:
                    return
                s = AbsStr(rx.ANY, hi + 1, None, name="text")
            k, v = attempt(ns[name], s)
            if k == "ok":
                raise Violation(f"{name}: text {s.example()!r} is accepted", key="accepted")
            if not is_exc(v, "ValueError"):
                raise_violation(f"{name}: rejecting a text", v)
        add(f"string:{name}:reject", R_STR, reject)
        for ch in "a\u00e9\U0001f600\u0301\t ":
            def width(it, name=name, good=good, lo=lo, hi=hi, ch=ch):
                for n in range(5):
                    k, v = attempt(ns[name], ch * n)
                    want = good.accepts(ch * n) and n >= lo and (hi is None or n <= hi)
                    if (k == "ok") != want or k != "ok" and not is_exc(v, "ValueError"):
                        raise Violation(f"{name}: text {ch * n!r} is {'accepted' if k == 'ok' else 'rejected'}", key="width")
            add(f"string:{name}:{ch!r}", R_STR, width)

    def equal(it):
        a, b = AbsStr(rx.compile_spec(XML + "*"), name="a"), AbsStr(rx.compile_spec(XML + "*"), name="b")
        x, y, z = call(ns["Any0"], a), call(ns["Any0"], b), call(ns["Any0"], a)
        if not B.truth(it, B.eq(it, x, z)):
            raise Violation("values with the same text are not equal", key="equal")
        same = bool(B.truth(it, B.eq(it, a, b)))
        if bool(B.truth(it, B.eq(it, x, y))) != same:
            raise Violation(f"values with {'the same' if same else 'different'} text compare {'un' if same else ''}equal", key="equal")
    add("string:equality", R_STR, equal)
    for p, q in (("a", "a"), ("a", "b"), ("a", "A"), ("a", "a "), ("", ""), ("a", "")):
        def eqc(it, p=p, q=q):
            x, y = call(ns["Any0"], p), call(ns["Any0"], q)
            if bool(B.truth(it, B.eq(it, x, y))) != (p == q):
                raise Violation(f"{p!r} and {q!r} compare {'un' if p == q else ''}equal", key="equal")
        add(f"string:equality:{p!r},{q!r}", R_STR, eqc)
    return obs


def L_b64(s):
    return core.StrCat([core.Part("b64url-nopad", s)])
