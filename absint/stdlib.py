"""Models of the library modules used by the analysed package (abstract transfer functions)."""
import os
import io
import re as hre
from . import rx
from . import strlang
from . import core
from .core import *
from .core import State, Part, cat
from . import builtins_ as B
from .builtins_ import STR, const_of, str_test, host_call, HostView


# ------------------------------------------------------------------ helpers
def nf(name, fn):
    return Native(name, fn)


def mkcls(interp, name, module, base=None, methods=None, new=None, props=None):
    bases = base if isinstance(base, list) else [base or interp.builtins["object"]]
    ns = {}
    for k, f in (methods or {}).items():
        ns[k] = Native(k, f)
    for k, f in (props or {}).items():
        ns[k] = Prop(Native(k, f))
    c = PyClass(name, bases, ns, module)
    c.native_new = new
    return c


def exc(interp, name, base, module):
    b = interp.builtins[base] if isinstance(base, str) else base
    return PyClass(name, b if isinstance(b, list) else [b], {}, module)


def arg(a, k, i, name, default=None):
    if len(a) > i:
        return a[i]
    return k.get(name, default)


def pure_const(v, depth=0):
    """host value of a fully concrete abstract value, or raise LookupError"""
    v = force(v)
    if depth > 60:
        raise LookupError
    if v is None or isinstance(v, (bool, int, float, str, bytes)):
        return v
    if isinstance(v, (AbsStr, StrCat)):
        w = const_of(v)
        if w is None:
            raise LookupError
        return w
    if isinstance(v, PyList):
        if v.has_seg():
            raise LookupError
        return [pure_const(x, depth + 1) for x in v.items]
    if isinstance(v, tuple):
        return tuple(pure_const(x, depth + 1) for x in v)
    if isinstance(v, PyDict):
        out = {}
        for e in v.d.values():
            if isinstance(e[1], Maybe):
                raise LookupError
            out[pure_const(e[0], depth + 1)] = pure_const(e[1], depth + 1)
        return out
    if isinstance(v, Inst):
        m = B.mixin_value(v)
        if m is not v:
            return pure_const(m, depth + 1)
    raise LookupError


def lift(v):
    """host value -> abstract value"""
    if isinstance(v, list):
        return PyList([lift(x) for x in v])
    if isinstance(v, tuple):
        return tuple(lift(x) for x in v)
    if isinstance(v, dict):
        return PyDict([(lift(k), lift(x)) for k, x in v.items()])
    if isinstance(v, (set, frozenset)):
        return PySet([lift(x) for x in v], isinstance(v, frozenset))
    return v


def host_fn(name, f):
    """constant-folded library function; abstract arguments make the result unknown"""
    def run(it, a, k):
        try:
            ha = [pure_const(x) for x in a]
            hk = {n: pure_const(x) for n, x in k.items()}
        except LookupError:
            return Opaque(name)
        return lift(host_call(it, f, *ha, **hk))
    return Native(name, run)


def get_module(interp, name):
    f = MODULES.get(name)
    m = PyModule(name)
    interp.modules[name] = m
    if f is not None:
        m.ns.update(f(interp, m))
        m.ns.setdefault("__name__", name)
    else:
        m.fallback = name
    parent, _, last = name.rpartition(".")
    if parent:
        pm = interp.import_module(parent)
        pm.ns.setdefault(last, m)
    return m


def module_attr(interp, m, name):
    if name in m.ns:
        return m.ns[name]
    sub = m.name + "." + name
    if sub in MODULES:
        return interp.import_module(sub)
    hostmod = HOSTMODS.get(m.name)
    if hostmod is not None and hasattr(hostmod, name):
        v = getattr(hostmod, name)
        if callable(v) and not isinstance(v, type):
            r = host_fn(f"{m.name}.{name}", v)
        elif isinstance(v, (str, int, float, bool, tuple, type(None))):
            r = v
        else:
            r = Opaque(f"{m.name}.{name}")
        m.ns[name] = r
        return r
    if m.name in MODULES and m.name not in OPEN_MODULES:
        import importlib
        try:
            hm = importlib.import_module(m.name) if m.name.split(".")[0] in STD_OK else None
        except Exception:
            hm = None
        if hm is not None and not hasattr(hm, name):
            interp.throw("AttributeError", f"module '{m.name}' has no attribute '{name}'")
    return Opaque(f"{m.name}.{name}")


import math, string, textwrap, posixpath, time as _time  # noqa: E402
HOSTMODS = {"math": math, "string": string, "textwrap": textwrap, "os.path": posixpath, "html": __import__("html"), "keyword": __import__("keyword"), "unicodedata": __import__("unicodedata")}
STD_OK = {"pathlib", "posixpath", "typing", "enum", "dataclasses", "re", "fnmatch", "inspect", "json", "xml", "zipfile", "os", "html", "base64", "decimal", "datetime", "urllib", "argparse", "sys", "collections", "functools", "itertools", "contextlib", "operator", "abc", "copy", "io", "zlib", "binascii"}
OPEN_MODULES = {"requests", "urllib3", "fences"}


# ------------------------------------------------------------------ typing
UNION = Special("Union")


def type_text(v):
    if isinstance(v, PyClass):
        if v.module == "builtins":
            return v.qualname
        return f"{v.module}.{v.qualname}"
    if isinstance(v, Alias):
        return v.text
    if isinstance(v, Special):
        return "typing." + v.name
    if isinstance(v, FwdRef):
        return f"ForwardRef({v.name!r})"
    if v is None:
        return "None"
    if v is Ellipsis:
        return "..."
    if isinstance(v, PyList):
        return "[" + ", ".join(type_text(x) for x in v.items) + "]"
    if isinstance(v, Inst):
        return "~" + str(v.attrs.get("__name__", v.cls.name))
    if isinstance(v, (Native, PyFunc)):
        return v.name
    return repr(v)


def conv(interp, v):
    v = force(v)
    if isinstance(v, str):
        return FwdRef(v)
    if v is None:
        return interp.builtins["NoneType"]
    return v


def union(interp, args):
    out = []

    def add(x):
        x = conv(interp, x)
        if isinstance(x, Alias) and x.origin is UNION:
            for y in x.args:
                add(y)
            return
        for y in out:
            if y is x or (isinstance(y, Alias) and isinstance(x, Alias) and y.text == x.text):
                return
        out.append(x)
    for a in args:
        add(a)
    if len(out) == 1:
        return out[0]
    nt = interp.builtins["NoneType"]
    if len(out) == 2 and nt in out:
        o = [x for x in out if x is not nt][0]
        text = f"typing.Optional[{type_text(o)}]"
    else:
        text = "typing.Union[" + ", ".join(type_text(x) for x in out) + "]"
    return Alias(UNION, tuple(out), text)


TYPING_ORIGIN = {"List": "list", "Dict": "dict", "Set": "set", "FrozenSet": "frozenset", "Tuple": "tuple", "Type": "type"}


def subscript(interp, o, k):
    k = force(k)
    args = k if isinstance(k, tuple) else (k,)
    if isinstance(o, Special):
        if o is UNION:
            return union(interp, args)
        if o.name == "Optional":
            return union(interp, [args[0], None])
        args = tuple(conv(interp, x) for x in args)
        if o.name in TYPING_ORIGIN:
            return Alias(interp.builtins[TYPING_ORIGIN[o.name]], args, f"typing.{o.name}[{', '.join(type_text(x) for x in args)}]")
        if o.name == "Literal":
            return Alias(o, args, f"typing.Literal[{', '.join(repr(x) for x in args)}]")
        if o.name == "Annotated":
            return args[0]
        return Alias(o, args, f"typing.{o.name}[{', '.join(type_text(x) for x in args)}]")
    args = tuple(conv(interp, x) for x in args)
    if isinstance(o, Alias):
        if isinstance(o.origin, PyClass):
            return Alias(o.origin, args, f"{type_text(o.origin)}[{', '.join(type_text(x) for x in args)}]")
        return Alias(o.origin, args, o.text)
    if isinstance(o, PyClass):
        ok = o.orig_bases or o.host in (list, dict, set, frozenset, tuple) or o.name == "type" or o.module not in ("builtins",) and not getattr(o, "from_repo", False)
        if not ok and o.host in (str, int, float, bool, bytes):
            interp.throw("TypeError", f"type '{o.name}' is not subscriptable")
        return Alias(o, args, f"{type_text(o)}[{', '.join(type_text(x) for x in args)}]")
    raise Unsupported("subscript of type")


def m_typing(it, m):
    b = it.builtins
    ns = {"Union": UNION}
    for n in ("List", "Dict", "Set", "FrozenSet", "Tuple", "Type", "Optional", "Generic", "Protocol", "Callable", "Iterable", "Iterator", "Generator", "Sequence", "Mapping", "MutableMapping", "Collection", "Any", "ClassVar", "Final", "Literal", "Annotated", "Pattern", "Match", "TextIO", "BinaryIO", "IO", "NoReturn", "Awaitable", "DefaultDict", "OrderedDict", "Deque", "Hashable", "AnyStr", "Self", "Never", "TypeGuard", "Container", "Reversible", "Sized", "AbstractSet", "MutableSequence", "MutableSet", "ContextManager", "Counter", "SupportsInt", "Text"):
        ns[n] = Special(n)
    ns["ForwardRef"] = b["ForwardRef"]
    tv = mkcls(it, "TypeVar", "typing", new=lambda i, c, a, k: Inst(c, {"__name__": a[0]}))
    ns["TypeVar"] = tv
    ns["ParamSpec"] = tv
    ns["TYPE_CHECKING"] = False
    ns["cast"] = nf("cast", lambda i, a, k: a[1])
    ns["overload"] = nf("overload", lambda i, a, k: a[0])
    ns["final"] = nf("final", lambda i, a, k: a[0])
    ns["runtime_checkable"] = nf("runtime_checkable", lambda i, a, k: a[0])
    ns["no_type_check"] = nf("no_type_check", lambda i, a, k: a[0])

    def get_origin(i, a, k):
        v = force(a[0])
        if isinstance(v, Alias):
            return v.origin
        return None

    def get_args(i, a, k):
        v = force(a[0])
        return v.args if isinstance(v, Alias) else ()
    ns["get_origin"] = nf("get_origin", get_origin)
    ns["get_args"] = nf("get_args", get_args)

    def hints(i, a, k):
        o = force(a[0])
        if isinstance(o, (BoundMethod,)):
            o = o.func
        ann = PyDict()
        srcs = list(reversed(o.mro)) if isinstance(o, PyClass) else [o]
        for s in srcs:
            d = s.ns.get("__annotations__") if isinstance(s, PyClass) else i.annotations(s)
            if d is None:
                continue
            mod = i.modules.get(s.module)
            for kk, vv in i.dict_items(d):
                vv = conv(i, vv)
                if isinstance(vv, FwdRef):
                    vv = i.call(i.getattr_(vv, "_evaluate"), [_nsd(mod.ns) if mod else None, None], {"recursive_guard": None})
                ann.put(kk, vv)
        return ann
    ns["get_type_hints"] = nf("get_type_hints", hints)
    ns["NamedTuple"] = Native("NamedTuple", lambda i, a, k: namedtuple_fn(i, a, k))
    td = PyClass("TypedDict", [b["dict"]], {}, "typing")

    def td_new(i, c, a, k):
        return i.call(b["dict"], a, k)
    td.native_new = td_new
    ns["TypedDict"] = td
    ns["NewType"] = nf("NewType", lambda i, a, k: a[1])
    return ns


def _nsd(d):
    from .interp import NsDict
    return NsDict(d)


# ------------------------------------------------------------------ enum
def m_enum(it, m):
    b = it.builtins
    e = PyClass("Enum", [b["object"]], {}, "enum", b["EnumMeta"])
    e.members = []
    e.enum_aliases = {}
    ie = PyClass("IntEnum", [b["int"], e], {}, "enum", b["EnumMeta"])
    ie.members = []
    se = PyClass("StrEnum", [b["str"], e], {}, "enum", b["EnumMeta"])
    se.members = []
    fl = PyClass("Flag", [e], {}, "enum", b["EnumMeta"])
    fl.members = []
    auto = mkcls(it, "auto", "enum")
    nonm = mkcls(it, "nonmember", "enum", new=lambda i, c, a, k: Inst(c, {"value": a[0]}))
    ident = nf("unique", lambda i, a, k: a[0])
    return {"Enum": e, "IntEnum": ie, "StrEnum": se, "Flag": fl, "IntFlag": fl, "EnumMeta": b["EnumMeta"], "EnumType": b["EnumMeta"], "auto": auto, "unique": ident, "nonmember": nonm, "member": ident, "verify": nf("verify", lambda i, a, k: ident), "UNIQUE": None}


# ------------------------------------------------------------------ dataclasses
MISSING = object()


class _Missing(Inst):
    pass


def m_dataclasses(it, m):
    missing = Inst(mkcls(it, "_MISSING_TYPE", "dataclasses"))
    fcls = mkcls(it, "Field", "dataclasses")
    kwonly = Inst(mkcls(it, "KW_ONLY", "dataclasses"))
    frozen_err = PyClass("FrozenInstanceError", [it.builtins["AttributeError"]], {}, "dataclasses")

    def mkfield(default=missing, default_factory=missing, init=True, repr=True, hash=None, compare=True, metadata=None, kw_only=False, **kw):
        if metadata is None:
            metadata = PyDict()
        return Inst(fcls, {"name": None, "type": None, "default": default, "default_factory": default_factory, "init": init, "repr": repr, "compare": compare, "metadata": metadata, "kw_only": kw_only})

    def field(i, a, k):
        if a:
            i.throw("TypeError", "field() takes 0 positional arguments")
        return mkfield(**k)

    def process(i, cls, opts):
        fields = {}
        for c in reversed(cls.mro[1:]):
            if c.dcfields is not None:
                for f in c.dcfields:
                    fields[f.attrs["name"]] = f
        ann = cls.ns.get("__annotations__")
        kwo = opts.get("kw_only", False)
        if ann is not None:
            for name, typ in i.dict_items(ann):
                if isinstance(typ, Special) and typ.name == "ClassVar" or isinstance(typ, Alias) and isinstance(typ.origin, Special) and typ.origin.name == "ClassVar":
                    continue
                if isinstance(typ, str) and hre.match(r"(\w+\.)?ClassVar\b", typ):
                    continue
                if typ is kwonly.cls or isinstance(typ, str) and hre.fullmatch(r"(\w+\.)?KW_ONLY", typ):
                    kwo = True
                    continue
                d = cls.ns.get(name, missing)
                if isinstance(d, Inst) and d.cls is fcls:
                    f = d
                    if f.attrs["default"] is missing:
                        cls.ns.pop(name, None)
                    else:
                        cls.ns[name] = f.attrs["default"]
                else:
                    f = mkfield(default=d)
                    if isinstance(d, (PyList, PyDict, PySet)):
                        i.throw("ValueError", f"mutable default for field {name} is not allowed: use default_factory")
                f.attrs["name"] = name
                f.attrs["type"] = typ
                if kwo:
                    f.attrs["kw_only"] = True
                fields[name] = f
        fl = list(fields.values())
        cls.dcfields = fl
        seen = None
        for f in fl:
            if not f.attrs["init"] or f.attrs["kw_only"]:
                continue
            has = f.attrs["default"] is not missing or f.attrs["default_factory"] is not missing
            if has:
                seen = f.attrs["name"]
            elif seen is not None:
                i.throw("TypeError", f"non-default argument '{f.attrs['name']}' follows default argument '{seen}'")
        init_fields = [f for f in fl if f.attrs["init"]]
        pos = [f for f in init_fields if not f.attrs["kw_only"]]

        def init(i, a, k):
            self, a = a[0], list(a[1:])
            k = dict(k)
            if len(a) > len(pos):
                i.throw("TypeError", f"{cls.name}.__init__() takes {len(pos) + 1} positional arguments but {len(a) + 1} were given")
            vals = {}
            for f, v in zip(pos, a):
                vals[f.attrs["name"]] = v
            names = {f.attrs["name"] for f in init_fields}
            for kk, vv in k.items():
                if kk not in names:
                    i.throw("TypeError", f"{cls.name}.__init__() got an unexpected keyword argument '{kk}'")
                if kk in vals:
                    i.throw("TypeError", f"{cls.name}.__init__() got multiple values for argument '{kk}'")
                vals[kk] = vv
            for f in fl:
                n = f.attrs["name"]
                if n in vals:
                    v = vals[n]
                elif f.attrs["default"] is not missing:
                    v = f.attrs["default"]
                elif f.attrs["default_factory"] is not missing:
                    v = i.call(f.attrs["default_factory"], [], {})
                elif f.attrs["init"]:
                    i.throw("TypeError", f"{cls.name}.__init__() missing 1 required positional argument: '{n}'")
                else:
                    continue
                self.attrs[n] = v
            pi = self.cls.lookup("__post_init__")
            if pi is not None:
                i.call(i.bind(pi, self, self.cls), [], {})

        def eq(i, a, k):
            x, y = a[0], force(a[1])
            if x is y:
                return True
            if not isinstance(y, Inst) or y.cls is not x.cls:
                return NotImplemented
            for f in fl:
                if not f.attrs["compare"]:
                    continue
                n = f.attrs["name"]
                if not i.eq(i.getattr_(x, n), i.getattr_(y, n)):
                    return False
            return True

        def rep(i, a, k):
            parts = []
            for f in fl:
                if not f.attrs["repr"]:
                    continue
                n = f.attrs["name"]
                parts += [", " if parts else "", n + "=", i.repr_(i.getattr_(a[0], n))]
            return cat(a[0].cls.qualname, "(", *parts, ")")
        if opts.get("init", True):
            cls.ns["__init__"] = Native("__init__", init)
        if opts.get("repr", True) and "__repr__" not in cls.ns:
            cls.ns["__repr__"] = Native("__repr__", rep)
        if opts.get("eq", True):
            if "__eq__" not in cls.ns:
                cls.ns["__eq__"] = Native("__eq__", eq)
            if opts.get("frozen"):
                cls.ns["__hash__"] = Native("__hash__", lambda i, a, k: B.hash_(i, tuple(i.getattr_(a[0], f.attrs["name"]) for f in fl if f.attrs["compare"])))
            elif not opts.get("unsafe_hash") and cls.ns.get("__hash__") is None:
                cls.ns["__hash__"] = None
        if opts.get("frozen"):
            def fs(i, a, k):
                i.throw(frozen_err, cat("cannot assign to field '", a[1], "'"))
            cls.ns["__setattr__"] = Native("__setattr__", fs)
        if opts.get("order"):
            def mkcmp(op):
                def cmp(i, a, k):
                    x, y = a[0], force(a[1])
                    if not isinstance(y, Inst) or y.cls is not x.cls:
                        return NotImplemented
                    ns = [f.attrs["name"] for f in fl if f.attrs["compare"]]
                    return i.compare(op, tuple(i.getattr_(x, n) for n in ns), tuple(i.getattr_(y, n) for n in ns))
                return cmp
            for n, op in (("__lt__", "<"), ("__le__", "<="), ("__gt__", ">"), ("__ge__", ">=")):
                cls.ns[n] = Native(n, mkcmp(op))
        return cls

    def dataclass(i, a, k):
        if a and isinstance(a[0], PyClass):
            return process(i, a[0], k)
        return nf("dataclass", lambda i2, a2, k2: process(i2, a2[0], k))

    def dcf(o):
        o = force(o)
        if isinstance(o, Inst):
            o = o.cls
        if isinstance(o, PyClass):
            for c in o.mro:
                if c.dcfields is not None:
                    return c.dcfields
        return None

    def fields(i, a, k):
        f = dcf(a[0])
        if f is None:
            i.throw("TypeError", "must be called with a dataclass type or instance")
        return tuple(f)

    def is_dc(i, a, k):
        v = force(a[0])
        if isinstance(v, Opaque):
            return choose(2, "is_dataclass", taint="is_dataclass of unmodelled value") == 0
        return dcf(v) is not None

    def asdict(i, a, k):
        def go(v):
            v = force(v)
            if isinstance(v, Inst) and dcf(v) is not None:
                return PyDict([(f.attrs["name"], go(v.attrs[f.attrs["name"]])) for f in dcf(v)])
            if isinstance(v, PyList):
                return PyList([go(x) if not isinstance(x, Seg) else x for x in v.items])
            if isinstance(v, tuple):
                return tuple(go(x) for x in v)
            if isinstance(v, PyDict):
                return PyDict([(kk, go(vv)) for kk, vv in i.dict_items(v)])
            return v
        return go(a[0])

    def replace(i, a, k):
        o = force(a[0])
        kw = {f.attrs["name"]: i.getattr_(o, f.attrs["name"]) for f in dcf(o) if f.attrs["init"]}
        kw.update(k)
        return i.call(o.cls, [], kw)
    return {"dataclass": nf("dataclass", dataclass), "field": nf("field", field), "fields": nf("fields", fields), "is_dataclass": nf("is_dataclass", is_dc), "asdict": nf("asdict", asdict), "replace": nf("replace", replace), "MISSING": missing, "Field": fcls, "KW_ONLY": kwonly.cls, "FrozenInstanceError": frozen_err,
            "astuple": nf("astuple", lambda i, a, k: tuple(i.getattr_(a[0], f.attrs["name"]) for f in dcf(a[0])))}


# ------------------------------------------------------------------ re
class Pat:
    __slots__ = ("pattern", "flags")

    def __init__(self, pattern, flags):
        self.pattern = pattern
        self.flags = flags


def glob_part(p):
    """the abstract glob a pattern was translated from, or None"""
    if isinstance(p, StrCat) and len(p.parts) == 1 and isinstance(p.parts[0], Part) and p.parts[0].kind == "glob":
        return p.parts[0].value
    return None


def val_key(v):
    """identity of an abstract value for uninterpreted predicates"""
    v = force(v)
    if isinstance(v, AbsStr):
        s = v.find()
        w = s.single()
        if w is not None:
            return w
        return ("abs", id(s.root), tuple(id(p) for p in s.pres))
    if isinstance(v, StrCat):
        w = const_of(v)
        if w is not None:
            return w
        return ("cat",) + tuple(p if isinstance(p, str) else (val_key(p) if isinstance(p, AbsStr) else ("part", p.kind, val_key(p.value))) for p in v.parts)
    if isinstance(v, (str, int, bool, float, type(None))):
        return v
    return ("id", id(v))


def glob_match(it, pat, s, mode):
    w, ps = const_of(s), const_of(pat)
    if w is not None and ps is not None:
        import fnmatch
        r = hre.compile(fnmatch.translate(ps))
        return getattr(r, mode)(w) is not None
    if ps is not None and isinstance(s, STR):
        import fnmatch
        try:
            return str_test(s, rx.pattern_lang(fnmatch.translate(ps), 0, mode), f"{getattr(s, 'name', 'text')} matches {ps!r}")
        except rx.Unsupp:
            pass
    if mode == "fullmatch":
        mode = "match"
    c = State.ctx
    key = ("glob", mode, val_key(pat), val_key(s))
    c.keep = getattr(c, "keep", [])
    c.keep.append((pat, s))
    if key not in c.memo:
        if mode == "search" and glob_match(it, pat, s, "match"):
            c.memo[key] = True
        else:
            c.memo[key] = choose(2, f"glob {pat!r} matches {s!r} ({mode})") == 0
    return c.memo[key]


def group_always(pattern, n, flags):
    """does group n take part in every match (top-level sequence position)"""
    import re._parser as sp
    tree = sp.parse(pattern, flags)

    def seq(items):
        for op, av in items:
            if str(op) == "SUBPATTERN":
                if av[0] == n:
                    return True
                if seq(av[3]):
                    return True
            if str(op) in ("MAX_REPEAT", "MIN_REPEAT") and av[0] >= 1 and seq(av[2]) and av[1] == 1:
                return True
        return False
    return seq(tree)


def m_re(it, m):
    pcls = mkcls(it, "Pattern", "re")
    mcls = mkcls(it, "Match", "re")
    err = exc(it, "error", "Exception", "re")

    def topat(i, p, flags=0):
        p = force(p)
        if isinstance(p, Inst) and p.cls is pcls:
            return p.data
        fl = flags
        if not isinstance(fl, int):
            raise Unsupported("regex flags")
        if isinstance(p, STR):
            w = const_of(p)
            if w is not None:
                try:
                    hre.compile(w, fl)
                except hre.error as e:
                    i.throw(err, str(e))
                return Pat(w, fl)
            return Pat(p, fl)
        if isinstance(p, bytes):
            raise Unsupported("bytes regex")
        if isinstance(p, Opaque):
            raise Unsupported("regex " + p.reason)
        i.throw("TypeError", "first argument must be string or compiled pattern")

    def do(i, p, s, mode):
        s = force(s)
        if isinstance(s, Opaque):
            return Opaque("re match")
        if isinstance(s, Inst):
            s = B.mixin_value(s)
        if not isinstance(s, STR):
            i.throw("TypeError", f"expected string or bytes-like object, got '{i.type_of(s).name}'")
        w = const_of(s)
        log = getattr(State.ctx, "regexes", None)
        if log is not None and w is None:
            log.append((p.pattern, p.flags, mode))
        if isinstance(p.pattern, str):
            if w is not None:
                hm = getattr(hre.compile(p.pattern, p.flags), mode)(w)
                return None if hm is None else Inst(mcls, {}, ("host", hm))
            try:
                lang = rx.pattern_lang(p.pattern, p.flags, mode)
            except rx.Unsupp as e:
                r = choose(2, f"regex {mode}", taint=f"regex not modelled: {e}") == 0
                return Inst(mcls, {}, ("opaque",)) if r else None
            if str_test(s, lang, f"{getattr(s, 'name', 'text')} {mode}es {p.pattern[:40]!r}"):
                return Inst(mcls, {}, ("abs", p, s, mode))
            return None
        g = glob_part(p.pattern)
        if g is not None:
            return Inst(mcls, {}, ("opaque",)) if glob_match(i, g, s, mode) else None
        c = State.ctx
        key = ("rx", mode, val_key(p.pattern), val_key(s))
        if key not in c.memo:
            c.memo[key] = choose(2, f"regex {p.pattern!r} {mode}", taint="regex with unknown pattern") == 0
        return Inst(mcls, {}, ("opaque",)) if c.memo[key] else None

    def group(i, a, k):
        self = a[0]
        d = self.data
        idx = a[1:] or [0]
        if len(idx) > 1:
            return tuple(group(i, [self, x], {}) for x in idx)
        n = idx[0]
        if d[0] == "host":
            return host_call(i, d[1].group, n)
        if d[0] == "opaque":
            return Opaque("match.group")
        _, p, s, mode = d
        cp = hre.compile(p.pattern, p.flags)
        if isinstance(n, str):
            if n not in cp.groupindex:
                i.throw("IndexError", "no such group")
            n = cp.groupindex[n]
        if not isinstance(n, int) or n > cp.groups or n < 0:
            i.throw("IndexError", "no such group")
        if not isinstance(s, AbsStr):
            raise Unsupported("group of assembled text")
        if n == 0:
            if mode == "fullmatch":
                return s
            raise Unsupported("group(0) of partial match")
        if mode == "search" and not p.pattern.startswith("^"):
            raise Unsupported("group of search")
        if not group_always(p.pattern, n, p.flags):
            raise Unsupported("optional group")

        def pre(P):
            t = rx.pattern_lang(p.pattern, p.flags, mode, {n: P})
            f = rx.pattern_lang(p.pattern, p.flags, mode, {n: P.neg()})
            if not rx.inter(rx.inter(t, f), s.find().root.lang if not s.find().pres else rx.ANY).empty():
                taint("ambiguous regex group")
            return t
        key = ("group", id(self), n)
        if key not in State.ctx.memo:
            State.ctx.memo[key] = s.derive(pre, f"{s.name}.group({n})")
            State.ctx.keep = getattr(State.ctx, "keep", [])
            State.ctx.keep.append(self)
        return State.ctx.memo[key]

    def groups(i, a, k):
        d = a[0].data
        if d[0] == "host":
            return d[1].groups()
        if d[0] == "abs":
            n = hre.compile(d[1].pattern, d[1].flags).groups
            return tuple(group(i, [a[0], x], {}) for x in range(1, n + 1))
        raise Unsupported("groups()")

    def groupdict(i, a, k):
        d = a[0].data
        if d[0] == "host":
            return PyDict(d[1].groupdict().items())
        if d[0] == "abs":
            gi = hre.compile(d[1].pattern, d[1].flags).groupindex
            return PyDict([(n, group(i, [a[0], x], {})) for n, x in gi.items()])
        raise Unsupported("groupdict()")

    def pos(kind):
        def f(i, a, k):
            d = a[0].data
            if d[0] == "host":
                return host_call(i, getattr(d[1], kind), *a[1:])
            if d[0] == "abs" and d[3] == "fullmatch" and len(a) == 1 and kind == "end":
                return i.len_(d[2])
            if d[0] == "abs" and kind == "start" and d[3] != "search" and len(a) == 1:
                return 0
            raise Unsupported("match." + kind)
        return f
    mcls.ns.update({"group": nf("group", group), "groups": nf("groups", groups), "groupdict": nf("groupdict", groupdict), "__getitem__": nf("__getitem__", group), "start": nf("start", pos("start")), "end": nf("end", pos("end")), "span": nf("span", pos("span"))})

    def pm(mode):
        def f(i, a, k):
            if len(a) > 2:
                raise Unsupported("match with position")
            return do(i, a[0].data, a[1], mode)
        return f

    def generic(name):
        def f(i, a, k):
            p = a[0].data
            try:
                ha = [pure_const(x) for x in a[1:]]
                hk = {n: pure_const(x) for n, x in k.items()}
            except LookupError:
                if name == "sub":
                    return sub_abs(i, p, a, k)
                raise Unsupported("re." + name)
            if not isinstance(p.pattern, str):
                raise Unsupported("re." + name)
            r = host_call(i, getattr(hre.compile(p.pattern, p.flags), name), *ha, **hk)
            if name == "finditer":
                return PyList([Inst(mcls, {}, ("host", x)) for x in r])
            return lift(r)
        return f

    def sub_abs(i, p, a, k):
        rpl, txt = force(a[1] if len(a) > 1 else k["repl"]), force(a[2] if len(a) > 2 else k["string"])
        w = const_of(txt) if isinstance(txt, STR) else None
        cnt = force(a[3]) if len(a) > 3 else force(k.get("count", 0))
        if w is not None and isinstance(p.pattern, str) and isinstance(rpl, (PyFunc, Native, BoundMethod)):
            out, pos = [], 0
            for n, x in enumerate(hre.compile(p.pattern, p.flags).finditer(w)):
                if cnt and n >= cnt:
                    break
                out += [w[pos:x.start()], i.call(rpl, [Inst(mcls, {}, ("host", x))], {})]
                pos = x.end()
            return cat(*out, w[pos:])
        if w is not None and isinstance(p.pattern, str) and isinstance(rpl, STR):
            # the replacement is a template: a backslash in it is an escape
            if str_test(rpl, rx.contains("\\"), "replacement contains a backslash"):
                if str_test(rpl, rx.compile_spec(r"(?s)[^\\]*\\[cdehijklmopqsuwyzA-Z](.|\n)*"), "replacement contains a bad escape"):
                    i.throw(err, "bad escape at position")
                raise Unsupported("re.sub with an abstract template")
            ms = list(hre.compile(p.pattern, p.flags).finditer(w))
            out, pos = [], 0
            for x in ms[:cnt or None]:
                out += [w[pos:x.start()], rpl]
                pos = x.end()
            return cat(*out, w[pos:])
        raise Unsupported("re.sub on abstract text")
    for n in ("match", "fullmatch", "search"):
        pcls.ns[n] = nf(n, pm(n))
    for n in ("sub", "findall", "split", "finditer", "subn"):
        pcls.ns[n] = nf(n, generic(n))
    pcls.ns["pattern"] = Prop(nf("pattern", lambda i, a, k: a[0].data.pattern))
    pcls.ns["flags"] = Prop(nf("flags", lambda i, a, k: a[0].data.flags))
    pcls.ns["groups"] = Prop(nf("groups", lambda i, a, k: hre.compile(a[0].data.pattern).groups))
    pcls.ns["__repr__"] = nf("__repr__", lambda i, a, k: cat("re.compile(", i.repr_(a[0].data.pattern), ")"))

    ns = {"Pattern": pcls, "Match": mcls, "error": err, "PatternError": err}
    for f in ("I", "IGNORECASE", "A", "ASCII", "M", "MULTILINE", "S", "DOTALL", "X", "VERBOSE", "U", "UNICODE"):
        ns[f] = int(getattr(hre, f))
    ns["compile"] = nf("re.compile", lambda i, a, k: Inst(pcls, {}, topat(i, a[0], arg(a, k, 1, "flags", 0))))

    def fnc(mode):
        return nf("re." + mode, lambda i, a, k: do(i, topat(i, a[0] if a else k["pattern"], arg(a, k, 2, "flags", 0)), arg(a, k, 1, "string"), mode))
    for n in ("match", "fullmatch", "search"):
        ns[n] = fnc(n)

    def fn2(name):
        g = generic(name)

        def f(i, a, k):
            k = dict(k)
            fl = k.pop("flags", 0)
            return g(i, [Inst(pcls, {}, topat(i, a[0], fl))] + list(a[1:]), k)
        return nf("re." + name, f)
    for n in ("sub", "findall", "split", "finditer", "subn"):
        ns[n] = fn2(n)
    ns["escape"] = host_fn("re.escape", hre.escape)
    return ns


def m_fnmatch(it, m):
    import fnmatch

    def translate(i, a, k):
        s = force(a[0])
        if not isinstance(s, STR):
            i.throw("TypeError", "expected str")
        w = const_of(s)
        if w is not None:
            return fnmatch.translate(w)
        return StrCat([Part("glob", s)])

    def fm(i, a, k):
        return glob_match(i, force(a[1]), force(a[0]), "match")

    def flt(i, a, k):
        return PyList([x for x in B.nonrest(i, a[0]) if glob_match(i, force(a[1]), force(x), "match")])
    return {"translate": nf("translate", translate), "fnmatch": nf("fnmatch", fm), "fnmatchcase": nf("fnmatchcase", fm), "filter": nf("filter", flt)}


# ------------------------------------------------------------------ inspect, abc, functools, ...
def m_inspect(it, m):
    def getdoc(i, a, k):
        import inspect
        d = i.getattr_(a[0], "__doc__", None)
        return inspect.cleandoc(d) if isinstance(d, str) else d

    def members(i, a, k):
        out = []
        for n in sorted(pure_const(B.dir_(i, [a[0]], {}))):
            v = i.getattr_(a[0], n)
            if len(a) < 2 or i.truth(i.call(a[1], [v], {})):
                out.append((n, v))
        return PyList(out)
    isf = lambda v: isinstance(force(v), PyFunc)
    return {
        "isclass": nf("isclass", lambda i, a, k: isinstance(force(a[0]), PyClass)),
        "isfunction": nf("isfunction", lambda i, a, k: isf(a[0])),
        "ismethod": nf("ismethod", lambda i, a, k: isinstance(force(a[0]), BoundMethod)),
        "isroutine": nf("isroutine", lambda i, a, k: isinstance(force(a[0]), (PyFunc, BoundMethod, Native))),
        "getmembers": nf("getmembers", members), "getdoc": nf("getdoc", getdoc),
        "isabstract": nf("isabstract", lambda i, a, k: bool(getattr(force(a[0]), "abstract_methods", False))),
    }


def m_abc(it, m):
    abc = PyClass("ABC", [it.builtins["object"]], {}, "abc")
    meta = PyClass("ABCMeta", [it.builtins["type"]], {}, "abc")

    def am(i, a, k):
        f = a[0]
        if isinstance(f, PyFunc):
            f.attrs["__isabstractmethod__"] = True
        elif isinstance(f, Prop) and isinstance(f.fget, PyFunc):
            f.fget.attrs["__isabstractmethod__"] = True
        elif isinstance(f, (CMeth, SMeth)) and isinstance(f.f, PyFunc):
            f.f.attrs["__isabstractmethod__"] = True
        return f
    return {"ABC": abc, "ABCMeta": meta, "abstractmethod": nf("abstractmethod", am)}


def m_functools(it, m):
    def partial_new(i, c, a, k):
        return Inst(c, {"func": a[0], "args": tuple(a[1:]), "keywords": PyDict(k.items())}, {"kw": dict(k)})

    def pcall(i, a, k):
        s = a[0]
        return i.call(s.attrs["func"], list(s.attrs["args"]) + list(a[1:]), {**s.data["kw"], **k})
    partial = mkcls(it, "partial", "functools", methods={"__call__": pcall}, new=partial_new)

    def reduce(i, a, k):
        items = B.nonrest(i, a[1], "reduce")
        items = list(items)
        if len(a) > 2:
            acc = a[2]
        else:
            if not items:
                i.throw("TypeError", "reduce() of empty iterable with no initial value")
            acc = items.pop(0)
        for x in items:
            acc = i.call(a[0], [acc, x], {})
        return acc

    def memo(i, fn):
        """cached function: entries persist beyond one call"""
        store = PyDict()

        def abstract(x):
            x = force(x)
            if isinstance(x, tuple):
                return any(abstract(y) for y in x)
            return isinstance(x, (AbsInt, AbsFloat, AbsBool, AbsEnum, AbsBytes, Opaque)) or isinstance(x, (AbsStr, StrCat)) and B.const_of(x) is None

        def f(i2, a, k):
            if any(abstract(x) for x in list(a) + list(k.values())):
                return i2.call(fn, a, k)
            key = tuple(a) + (tuple(("kw",) + tuple(x) for x in k.items()) if k else ())
            e = B.dict_find(i2, store, key)
            if e is not None:
                return e[1]
            r = i2.call(fn, a, k)
            if not State.loading:
                State.ctx.effects.append(("cache", getattr(fn, "qualname", "?")))
            i2.setitem(store, key, r)
            return r
        n = Native(getattr(fn, "name", "cached"), f, __wrapped__=fn)

        def clear(i2, a, k):
            B.snap(store)
            store.d.clear()
        n.attrs["cache_clear"] = nf("cache_clear", clear)
        n.attrs["__doc__"] = getattr(fn, "doc", None)
        return n

    def lru(i, a, k):
        if a and isinstance(a[0], (PyFunc,)):
            return memo(i, a[0])
        return nf("lru_cache", lambda i2, a2, k2: memo(i2, a2[0]))

    def wraps(i, a, k):
        src = a[0]

        def deco(i2, a2, k2):
            f = a2[0]
            if isinstance(f, PyFunc) and isinstance(src, PyFunc):
                f.name, f.qualname, f.doc = src.name, src.qualname, src.doc
                f.attrs.update(src.attrs)
                f.attrs["__wrapped__"] = src
                f.attrs["__annotations__"] = i2.annotations(src)
            return f
        return nf("wraps", deco)

    def cmp_to_key(i, a, k):
        raise Unsupported("cmp_to_key")
    def cp_new(i, c, a, k):
        return Inst(c, {"func": a[0], "attrname": getattr(a[0], "name", None)})

    def cp_get(i, a, k):
        s, o = a[0], force(a[1])
        if o is None:
            return s
        n = s.attrs["attrname"]
        if n in o.attrs:
            return o.attrs[n]
        v = i.call(s.attrs["func"], [o], {})
        core.log_mut(o, ("attr", n, False, None))
        o.attrs[n] = v
        return v

    def cp_name(i, a, k):
        a[0].attrs["attrname"] = B.const_of(a[2])
    cprop = mkcls(it, "cached_property", "functools", methods={"__get__": cp_get, "__set_name__": cp_name}, new=cp_new)

    def total(i, a, k):
        c = a[0]
        # (defined, [(derived, fn(defined(x, y), x == y))])
        roots = {"__lt__": [("__gt__", lambda r, e: not r and not e), ("__le__", lambda r, e: r or e), ("__ge__", lambda r, e: not r)],
                 "__le__": [("__ge__", lambda r, e: not r or e), ("__lt__", lambda r, e: r and not e), ("__gt__", lambda r, e: not r)],
                 "__gt__": [("__lt__", lambda r, e: not r and not e), ("__ge__", lambda r, e: r or e), ("__le__", lambda r, e: not r)],
                 "__ge__": [("__le__", lambda r, e: not r or e), ("__gt__", lambda r, e: r and not e), ("__lt__", lambda r, e: not r)]}
        have = [n for n in ("__lt__", "__le__", "__gt__", "__ge__") if c.lookup(n) is not None]
        if not have:
            i.throw("ValueError", "must define at least one ordering operation: < > <= >=")
        root = have[0]

        def mk(op):
            def g(i2, a2, k2):
                r = force(i2.call(i2.bind(c.lookup(root), a2[0], c), [a2[1]], {}))
                if r is NotImplemented:
                    return r
                return op(i2.truth(r), i2.truth(i2.eq(a2[0], a2[1])))
            return g
        for n, op in roots[root]:
            if n not in have:
                c.ns[n] = Native(n, mk(op))
        return c
    def dispatcher(i, fn):
        """(pick, register) of a generic function"""
        reg = [(it.builtins["object"], fn)]

        def pick(i2, cls, v):
            for c in cls.mro:
                for t, f in reg:
                    if t is c and t is not it.builtins["object"]:
                        return f
            for t, f in reversed(reg):
                if t.ns.get("__ai_instancecheck__") is not None and v is not reg and B.isinstance_(i2, v, t):
                    return f
            return reg[0][1]

        def classes(i2, t):
            t = force(t)
            if isinstance(t, PyClass):
                return [t]
            if t is None:
                return [it.builtins["NoneType"]]
            if isinstance(t, core.Alias):
                if isinstance(t.origin, core.Special) and t.origin.name in ("Union", "Optional") or t.origin is it.builtins.get("Union"):
                    return [c for x in t.args for c in classes(i2, x)]
            raise Unsupported("singledispatch on " + str(t))

        def add(i2, t, f):
            for c in classes(i2, t):
                for n, (u, _) in enumerate(reg):
                    if u is c:
                        reg[n] = (c, f)
                        break
                else:
                    reg.append((c, f))
            return f

        def plain(f):
            return f.f if isinstance(f, (core.CMeth, core.SMeth)) else f

        def register(i2, a, k):
            t = force(a[0])
            f = a[1] if len(a) > 1 else k.get("method", k.get("func"))
            if f is not None:
                return add(i2, t, f)
            if isinstance(plain(t), PyFunc):
                an = [v for n, v in i2.dict_items(i2.annotations(plain(t))) if n != "return"]
                if not an:
                    i2.throw("TypeError", "Invalid first argument to `register()`")
                an = an[0]
                if isinstance(force(an), str):
                    raise Unsupported("singledispatch with a string annotation")
                return add(i2, an, t)
            return nf("register", lambda i3, a3, k3: add(i3, t, a3[0]))
        return pick, nf("register", register)

    def singledispatch(i, a, k):
        fn = a[0]
        pick, register = dispatcher(i, fn)

        def run(i2, a2, k2):
            if not a2:
                i2.throw("TypeError", f"{getattr(fn, 'name', 'f')} requires at least 1 positional argument")
            v = force(a2[0])
            if isinstance(v, Opaque):
                return Opaque("singledispatch of " + v.reason)
            return i2.call(pick(i2, B.type_of(i2, v), v), a2, k2)
        n = Native(getattr(fn, "name", "f"), run, __wrapped__=fn)
        n.attrs["register"] = register
        n.attrs["dispatch"] = nf("dispatch", lambda i2, a2, k2: pick(i2, force(a2[0]), None))
        n.attrs["__doc__"] = getattr(fn, "doc", None)
        return n

    def sdm_new(i, c, a, k):
        pick, register = dispatcher(i, a[0])
        return Inst(c, {"func": a[0], "register": register}, {"pick": pick})

    def sdm_get(i, a, k):
        s, o, cls = a[0], force(a[1]), force(a[2]) if len(a) > 2 else None
        cls = cls or B.type_of(i, o)

        def run(i2, a2, k2):
            v = force(a2[0])
            if isinstance(v, Opaque):
                return Opaque("singledispatch of " + v.reason)
            f = s.data["pick"](i2, B.type_of(i2, v), v)
            return i2.call(i2.bind(f, o, cls) if o is not None or not isinstance(f, PyFunc) else f, a2, k2)
        n = nf("dispatch", run)
        n.attrs["register"] = s.attrs["register"]
        return n
    sdm = mkcls(it, "singledispatchmethod", "functools", methods={"__get__": sdm_get}, new=sdm_new)
    return {"singledispatch": nf("singledispatch", singledispatch), "singledispatchmethod": sdm, "partial": partial, "reduce": nf("reduce", reduce), "lru_cache": nf("lru_cache", lru), "cache": nf("cache", lambda i, a, k: memo(i, a[0])), "wraps": nf("wraps", wraps), "cached_property": cprop, "cmp_to_key": nf("cmp_to_key", cmp_to_key), "total_ordering": nf("total_ordering", total)}


def m_itertools(it, m):
    def chain(i, a, k):
        def g():
            for x in a:
                yield from i.iterate(x)
        return PyGen(g())

    def chain_it(i, a, k):
        def g():
            for x in i.iterate(a[0]):
                if isinstance(x, Rest):
                    yield x
                    continue
                yield from i.iterate(x)
        return PyGen(g())

    def product(i, a, k):
        import itertools
        ls = [B.nonrest(i, x, "product") for x in a] * k.get("repeat", 1)
        return PyList([tuple(t) for t in itertools.product(*ls)])

    def count(i, a, k):
        def g():
            n = a[0] if a else 0
            st = a[1] if len(a) > 1 else 1
            while True:
                yield n
                n = i.binop("Add", n, st)
        return PyGen(g())

    def islice(i, a, k):
        def g():
            lo, hi, st = (0, a[1], 1) if len(a) == 2 else (a[1] or 0, a[2], a[3] if len(a) > 3 and a[3] else 1)
            n = 0
            for x in i.iterate(a[0]):
                if isinstance(x, Rest):
                    if hi is None:
                        yield x
                    continue
                if hi is not None and n >= hi:
                    return
                if n >= lo and (n - lo) % st == 0:
                    yield x
                n += 1
        return PyGen(g())

    def fin(i, x, name):
        return list(B.nonrest(i, x, name))

    def simple(name):
        import itertools

        def f(i, a, k):
            if name in ("permutations", "combinations", "combinations_with_replacement"):
                return PyGen(iter([tuple(t) for t in getattr(itertools, name)(fin(i, a[0], name), *[force(x) for x in a[1:]])]))
            if name == "pairwise":
                xs = fin(i, a[0], name)
                return PyGen(iter(list(zip(xs, xs[1:]))))
            if name == "zip_longest":
                return PyGen(iter(list(itertools.zip_longest(*[fin(i, x, name) for x in a], fillvalue=k.get("fillvalue")))))
            if name == "tee":
                xs = fin(i, a[0], name)
                return tuple(PyGen(iter(list(xs))) for _ in range(a[1] if len(a) > 1 else 2))

            def g():
                if name == "starmap":
                    for x in i.iterate(a[1]):
                        if isinstance(x, Rest):
                            yield x
                            continue
                        yield i.call(a[0], list(i.iterate(x)), {})
                elif name == "dropwhile":
                    on = False
                    for x in fin(i, a[1], name):
                        if not on and i.truth(i.call(a[0], [x], {})):
                            continue
                        on = True
                        yield x
                elif name == "filterfalse":
                    for x in i.iterate(a[1]):
                        if isinstance(x, Rest):
                            yield x
                            continue
                        if not i.truth(x if force(a[0]) is None else i.call(a[0], [x], {})):
                            yield x
                elif name == "compress":
                    for x, y in zip(fin(i, a[0], name), fin(i, a[1], name)):
                        if i.truth(y):
                            yield x
                elif name == "cycle":
                    xs = fin(i, a[0], name)
                    while xs:
                        yield from xs
                elif name == "accumulate":
                    acc = k.get("initial")
                    first = acc is None
                    if not first:
                        yield acc
                    fn = a[1] if len(a) > 1 else k.get("func")
                    for x in fin(i, a[0], name):
                        if first:
                            acc, first = x, False
                        else:
                            acc = i.call(fn, [acc, x], {}) if fn is not None else i.binop("Add", acc, x)
                        yield acc
                elif name == "groupby":
                    kf = a[1] if len(a) > 1 else k.get("key")
                    cur, key = None, None
                    for x in fin(i, a[0], name):
                        kx = i.call(kf, [x], {}) if kf is not None else x
                        if cur is not None and i.truth(i.eq(key, kx)):
                            cur.append(x)
                            continue
                        if cur is not None:
                            yield (key, PyGen(iter(cur)))
                        cur, key = [x], kx
                    if cur is not None:
                        yield (key, PyGen(iter(cur)))
            return PyGen(g())
        return nf(name, f)

    def takewhile(i, a, k):
        def g():
            for x in i.iterate(a[1]):
                if isinstance(x, Rest):
                    yield x
                    continue
                if not i.truth(i.call(a[0], [x], {})):
                    return
                yield x
        return PyGen(g())

    def repeat(i, a, k):
        def g():
            n = 0
            while len(a) < 2 or n < a[1]:
                yield a[0]
                n += 1
        return PyGen(g())
    ch = nf("chain", chain)
    ch.attrs["from_iterable"] = nf("from_iterable", chain_it)
    out = {"chain": ch, "product": nf("product", product), "count": nf("count", count), "islice": nf("islice", islice), "takewhile": nf("takewhile", takewhile), "repeat": nf("repeat", repeat)}
    for n in ("permutations", "combinations", "combinations_with_replacement", "compress", "groupby", "accumulate", "starmap", "tee", "zip_longest", "dropwhile", "filterfalse", "cycle", "pairwise"):
        out[n] = simple(n)
    return out


def m_contextlib(it, m):
    scls = None

    def sup_new(i, c, a, k):
        return Inst(c, {"exc": tuple(a)})

    def sup_exit(i, a, k):
        e = force(a[2]) if len(a) > 2 else None
        return e is not None and i.exc_matches(e, a[0].attrs["exc"])
    suppress = mkcls(it, "suppress", "contextlib", methods={"__enter__": lambda i, a, k: None, "__exit__": sup_exit}, new=sup_new)
    gcm = mkcls(it, "_GeneratorContextManager", "contextlib")

    def genter(i, a, k):
        s = a[0]
        g = i.call(s.data["f"], s.data["a"], s.data["k"])
        s.data["g"] = g
        try:
            return next(g.it)
        except StopIteration:
            i.throw("RuntimeError", "generator didn't yield")

    def gexit(i, a, k):
        s = a[0]
        e = force(a[2]) if len(a) > 2 else None
        g = s.data["g"].it
        if e is None:
            try:
                next(g)
            except StopIteration:
                return False
            i.throw("RuntimeError", "generator didn't stop")
        try:
            g.throw(PyRaise(e))
        except StopIteration:
            return True
        except PyRaise as pr:
            if pr.exc is e:
                return False
            raise
        i.throw("RuntimeError", "generator didn't stop after throw()")
    gcm.ns["__enter__"] = nf("__enter__", genter)
    gcm.ns["__exit__"] = nf("__exit__", gexit)

    def contextmanager(i, a, k):
        f = a[0]

        def mk(i2, a2, k2):
            return Inst(gcm, {}, {"f": f, "a": a2, "k": k2})
        n = nf(getattr(f, "name", "cm"), mk)
        if isinstance(f, PyFunc):
            # keep it bindable as a method
            pass
        return n

    def nullc(i, c, a, k):
        return Inst(c, {"v": a[0] if a else None})
    null = mkcls(it, "nullcontext", "contextlib", methods={"__enter__": lambda i, a, k: a[0].attrs["v"], "__exit__": lambda i, a, k: None}, new=nullc)
    closing = mkcls(it, "closing", "contextlib", methods={"__enter__": lambda i, a, k: a[0].attrs["v"], "__exit__": lambda i, a, k: i.call(i.getattr_(a[0].attrs["v"], "close"), [], {}) and None}, new=nullc)

    src = from_source(it, "contextlib", CONTEXTLIB_SRC)

    def gcall(i, a, k):
        s, fn = a[0], a[1]

        def run(i2, a2, k2):
            v, ex = i2.enter_ctx(Inst(gcm, {}, dict(s.data)))
            try:
                r = i2.call(fn, a2, k2)
            except PyRaise as pr:
                if i2.exit_ctx(ex, pr.exc):
                    return None
                raise
            i2.exit_ctx(ex, None)
            return r
        return nf(getattr(fn, "name", "f"), run)
    gcm.ns["__call__"] = nf("__call__", gcall)
    return {"suppress": suppress, "contextmanager": nf("contextmanager", contextmanager), "nullcontext": null, "closing": closing, "redirect_stdout": src["redirect_stdout"], "redirect_stderr": src["redirect_stderr"], "ContextDecorator": src["ContextDecorator"], "AbstractContextManager": src["AbstractContextManager"],
            "ExitStack": exit_stack(it)}


def exit_stack(it):
    def enter_context(i, a, k):
        v, ex = i.enter_ctx(a[1])
        a[0].data.append(ex)
        return v

    def callback(i, a, k):
        f, aa = a[1], a[2:]
        a[0].data.append(nf("cb", lambda i2, a2, k2: (i2.call(f, list(aa), k), None)[1]))
        return f

    def push(i, a, k):
        x = force(a[1])
        a[0].data.append(i.getattr_(x, "__exit__") if isinstance(x, Inst) and x.cls.has("__exit__") else x)
        return a[1]

    def pop_all(i, a, k):
        o = Inst(a[0].cls, {}, list(a[0].data))
        a[0].data.clear()
        return o

    def ex(i, a, k):
        e = force(a[2]) if len(a) > 2 else None
        swallowed = False
        xs = list(a[0].data)
        a[0].data.clear()
        for x in reversed(xs):
            try:
                if i.exit_ctx(x, e):
                    e = None
                    swallowed = True
            except PyRaise as pr:
                e = pr.exc
                swallowed = False
        if e is not None and e is not (force(a[2]) if len(a) > 2 else None):
            raise PyRaise(e)
        return swallowed
    return mkcls(it, "ExitStack", "contextlib", methods={"__enter__": lambda i, a, k: a[0], "__exit__": ex, "enter_context": enter_context, "callback": callback, "push": push, "pop_all": pop_all, "close": lambda i, a, k: (ex(i, [a[0], None, None, None], {}), None)[1]}, new=lambda i, c, a, k: Inst(c, {}, []))


CONTEXTLIB_SRC = """
import sys
class AbstractContextManager:
    def __enter__(self): return self
    def __exit__(self, exc_type, exc_value, traceback): return None
class ContextDecorator:
    def _recreate_cm(self): return self
    def __call__(self, func):
        def inner(*args, **kwds):
            with self._recreate_cm():
                return func(*args, **kwds)
        return inner
class redirect_stdout(AbstractContextManager):
    def __init__(self, new_target):
        self._new_target = new_target
        self._old_targets = []
    def __enter__(self):
        self._old_targets.append(sys.stdout)
        sys.stdout = self._new_target
        return self._new_target
    def __exit__(self, exctype, excinst, exctb):
        sys.stdout = self._old_targets.pop()
class redirect_stderr(AbstractContextManager):
    def __init__(self, new_target):
        self._new_target = new_target
        self._old_targets = []
    def __enter__(self):
        self._old_targets.append(sys.stderr)
        sys.stderr = self._new_target
        return self._new_target
    def __exit__(self, exctype, excinst, exctb):
        sys.stderr = self._old_targets.pop()
"""


def m_operator(it, m):
    def ag(i, a, k):
        names = [x for x in a]

        def get(i2, o):
            def one(n):
                v = o
                for p in n.split("."):
                    v = i2.getattr_(v, p)
                return v
            r = tuple(one(n) for n in names)
            return r[0] if len(r) == 1 else r
        return nf("attrgetter", lambda i2, a2, k2: get(i2, a2[0]))

    def ig(i, a, k):
        def get(i2, a2, k2):
            r = tuple(i2.getitem(a2[0], n) for n in a)
            return r[0] if len(r) == 1 else r
        return nf("itemgetter", get)

    def mc(i, a, k):
        return nf("methodcaller", lambda i2, a2, k2: i2.call(i2.getattr_(a2[0], a[0]), list(a[1:]), k))
    out = {"attrgetter": nf("attrgetter", ag), "itemgetter": nf("itemgetter", ig), "methodcaller": nf("methodcaller", mc)}
    for n, o in (("add", "Add"), ("or_", "BitOr"), ("and_", "BitAnd"), ("sub", "Sub"), ("mul", "Mult"), ("mod", "Mod"), ("concat", "Add"), ("ior", "BitOr"), ("iadd", "Add")):
        out[n] = nf(n, lambda i, a, k, o=o: i.binop(o, a[0], a[1]))
    for n, o in (("eq", "=="), ("ne", "!="), ("lt", "<"), ("le", "<="), ("gt", ">"), ("ge", ">=")):
        out[n] = nf(n, lambda i, a, k, o=o: i.compare(o, a[0], a[1]))
    out["contains"] = nf("contains", lambda i, a, k: i.compare("in", a[1], a[0]))
    out["not_"] = nf("not_", lambda i, a, k: not i.truth(a[0]))
    out["truth"] = nf("truth", lambda i, a, k: i.truth(a[0]))
    out["getitem"] = nf("getitem", lambda i, a, k: i.getitem(a[0], a[1]))
    out["is_"] = nf("is_", lambda i, a, k: i.is_(a[0], a[1]))
    return out


def m_copy(it, m):
    def shallow(i, a, k):
        v = force(a[0])
        if isinstance(v, PyList):
            return PyList(v.items)
        if isinstance(v, PyDict):
            return B.d_copy(i, v, [], {})
        if isinstance(v, PySet):
            return PySet(v.d.values(), v.frozen)
        if isinstance(v, Inst) and v.cls.members is None:
            return Inst(v.cls, dict(v.attrs), v.data)
        return v

    def deep(i, a, k):
        memo = {}

        def go(v):
            if id(v) in memo:
                return memo[id(v)]
            if isinstance(v, Lazy):
                v = force(v)
            if isinstance(v, PyList):
                n = PyList()
                memo[id(v)] = n
                for x in v.items:
                    if isinstance(x, Seg):
                        s = Seg(x.factory, count=x.count)
                        s.made = [go(y) for y in x.made]
                        s.closed = x.closed
                        n.items.append(s)
                    else:
                        n.items.append(go(x))
                return n
            if isinstance(v, PyDict):
                n = PyDict()
                memo[id(v)] = n
                for e in v.d.values():
                    n.put(e[0], Maybe(go(e[1].value), e[1].label) if isinstance(e[1], Maybe) else go(e[1]))
                n.cls = v.cls
                return n
            if isinstance(v, PySet):
                return PySet(v.d.values(), v.frozen)
            if isinstance(v, tuple):
                return tuple(go(x) for x in v)
            if isinstance(v, Inst) and v.cls.members is None:
                n = Inst(v.cls, {}, None)
                memo[id(v)] = n
                n.attrs = {kk: go(vv) for kk, vv in v.attrs.items()}
                n.data = go(v.data) if isinstance(v.data, (PyList, PyDict)) else v.data
                return n
            return v
        return go(a[0])
    return {"copy": nf("copy", shallow), "deepcopy": nf("deepcopy", deep)}


# ------------------------------------------------------------------ collections
NT_SRC = """
class _NT(tuple):
    def __init__(self, *args, **kwargs):
        pass
    def __iter__(self):
        return iter([getattr(self, f) for f in self._fields])
    def __tup__(self):
        return tuple([getattr(self, f) for f in self._fields])
    def __len__(self):
        return len(self._fields)
    def __getitem__(self, i):
        return self.__tup__()[i]
    def __contains__(self, v):
        return v in self.__tup__()
    def __eq__(self, o):
        return isinstance(o, tuple) and self.__tup__() == tuple(o)
    def __ne__(self, o):
        return not self == o
    def __lt__(self, o):
        return self.__tup__() < tuple(o)
    def __le__(self, o):
        return self.__tup__() <= tuple(o)
    def __gt__(self, o):
        return self.__tup__() > tuple(o)
    def __ge__(self, o):
        return self.__tup__() >= tuple(o)
    def __hash__(self):
        return hash(self.__tup__())
    def __add__(self, o):
        return self.__tup__() + tuple(o)
    def __radd__(self, o):
        return tuple(o) + self.__tup__()
    def __mul__(self, n):
        return self.__tup__() * n
    def __repr__(self):
        return type(self).__name__ + "(" + ", ".join([f + "=" + repr(getattr(self, f)) for f in self._fields]) + ")"
    def __setattr__(self, name, v):
        raise AttributeError("can't set attribute")
    def count(self, v):
        return self.__tup__().count(v)
    def index(self, v):
        return self.__tup__().index(v)
    def _asdict(self):
        return {f: getattr(self, f) for f in self._fields}
    def _replace(self, **k):
        d = self._asdict()
        for f in k:
            if f not in d:
                raise ValueError("Got unexpected field names: [" + repr(f) + "]")
        d.update(k)
        return type(self)(**d)
    @classmethod
    def _make(cls, it):
        return cls(*it)
"""


def nt_make(interp, name, fields, defaults, ns, module):
    """a namedtuple type; its behaviour is written in Python above and analysed like any other code"""
    import ast
    from .interp import Scope, Frame
    m = PyModule("collections")
    m.ns.update({"__name__": "collections"})
    sc = Scope("module", None, m)
    sc.clsname = None
    was, State.loading = State.loading, True
    try:
        interp.compile_block(ast.parse(NT_SRC, "<namedtuple>").body, sc)(Frame(m.ns, None, m.ns))
    finally:
        State.loading = was
    base = m.ns["_NT"]

    def new(i, c, a, k):
        o = Inst(c)
        given = dict(zip(fields, a))
        if len(a) > len(fields):
            i.throw("TypeError", f"{name}.__new__() takes {len(fields) + 1} positional arguments but {len(a) + 1} were given")
        for kk, vv in k.items():
            if kk not in fields:
                i.throw("TypeError", f"{name}.__new__() got an unexpected keyword argument '{kk}'")
            if kk in given:
                i.throw("TypeError", f"{name}.__new__() got multiple values for argument '{kk}'")
            given[kk] = vv
        miss = [f for f in fields if f not in given and f not in defaults]
        if miss:
            i.throw("TypeError", B.missing_args(f"{name}.__new__", miss))
        for f in fields:
            o.attrs[f] = given[f] if f in given else defaults[f]
        return o
    base.native_new = new
    base.ns["_fields"] = tuple(fields)
    base.ns["_field_defaults"] = PyDict(defaults.items())
    base.ns["__new__"] = SMeth(nf("__new__", lambda i, a, k: new(i, a[0], a[1:], k)))
    cls = B.make_class(interp, name, [base], ns, {}, module, name)
    return cls


NT_SRC = """
class _NT(tuple):
    def __init__(self, *args, **kwargs):
        pass
    def __iter__(self):
        return iter([getattr(self, f) for f in self._fields])
    def __tup__(self):
        return tuple([getattr(self, f) for f in self._fields])
    def __len__(self):
        return len(self._fields)
    def __getitem__(self, i):
        return self.__tup__()[i]
    def __contains__(self, v):
        return v in self.__tup__()
    def __eq__(self, o):
        return isinstance(o, tuple) and self.__tup__() == tuple(o)
    def __ne__(self, o):
        return not self == o
    def __lt__(self, o):
        return self.__tup__() < tuple(o)
    def __le__(self, o):
        return self.__tup__() <= tuple(o)
    def __gt__(self, o):
        return self.__tup__() > tuple(o)
    def __ge__(self, o):
        return self.__tup__() >= tuple(o)
    def __hash__(self):
        return hash(self.__tup__())
    def __add__(self, o):
        return self.__tup__() + tuple(o)
    def __radd__(self, o):
        return tuple(o) + self.__tup__()
    def __mul__(self, n):
        return self.__tup__() * n
    def __repr__(self):
        return type(self).__name__ + "(" + ", ".join([f + "=" + repr(getattr(self, f)) for f in self._fields]) + ")"
    def __setattr__(self, name, v):
        raise AttributeError("can't set attribute")
    def count(self, v):
        return self.__tup__().count(v)
    def index(self, v):
        return self.__tup__().index(v)
    def _asdict(self):
        return {f: getattr(self, f) for f in self._fields}
    def _replace(self, **k):
        d = self._asdict()
        for f in k:
            if f not in d:
                raise ValueError("Got unexpected field names: [" + repr(f) + "]")
        d.update(k)
        return type(self)(**d)
    @classmethod
    def _make(cls, it):
        return cls(*it)
"""


def nt_make(interp, name, fields, defaults, ns, module):
    """a namedtuple type; its behaviour is written in Python above and analysed like any other code"""
    import ast
    from .interp import Scope, Frame
    m = PyModule("collections")
    m.ns.update({"__name__": "collections"})
    sc = Scope("module", None, m)
    sc.clsname = None
    was, State.loading = State.loading, True
    try:
        interp.compile_block(ast.parse(NT_SRC, "<namedtuple>").body, sc)(Frame(m.ns, None, m.ns))
    finally:
        State.loading = was
    base = m.ns["_NT"]

    def new(i, c, a, k):
        o = Inst(c)
        given = dict(zip(fields, a))
        if len(a) > len(fields):
            i.throw("TypeError", f"{name}.__new__() takes {len(fields) + 1} positional arguments but {len(a) + 1} were given")
        for kk, vv in k.items():
            if kk not in fields:
                i.throw("TypeError", f"{name}.__new__() got an unexpected keyword argument '{kk}'")
            if kk in given:
                i.throw("TypeError", f"{name}.__new__() got multiple values for argument '{kk}'")
            given[kk] = vv
        miss = [f for f in fields if f not in given and f not in defaults]
        if miss:
            i.throw("TypeError", B.missing_args(f"{name}.__new__", miss))
        for f in fields:
            o.attrs[f] = given[f] if f in given else defaults[f]
        return o
    base.native_new = new
    base.ns["_fields"] = tuple(fields)
    base.ns["_field_defaults"] = PyDict(defaults.items())
    base.ns["__new__"] = SMeth(nf("__new__", lambda i, a, k: new(i, a[0], a[1:], k)))
    cls = B.make_class(interp, name, [base], ns, {}, module, name)
    return cls


def namedtuple_class(interp, name, ns, module):
    ann = force(ns.get("__annotations__"))
    fields = []
    if ann is not None:
        for kk, vv in interp.dict_items(ann):
            fields.append(B.const_of(kk))
    defaults = {f: ns.pop(f) for f in fields if f in ns}
    return nt_make(interp, name, fields, defaults, ns, module)


def namedtuple_fn(it, a, k):
    """typing.NamedTuple("X", [("a", int)]) and collections.namedtuple("X", "a b")"""
    name = B.const_of(force(a[0]))
    spec = force(a[1]) if len(a) > 1 else force(k.get("field_names", PyList([])))
    c = B.const_of(spec) if not isinstance(spec, (PyList, tuple)) else None
    if isinstance(c, str):
        fields = c.replace(",", " ").split()
    else:
        fields = []
        for x in B.iterate(it, spec):
            x = force(x)
            fields.append(B.const_of(force(x[0])) if isinstance(x, tuple) else B.const_of(x))
    ds = [x for x in B.iterate(it, k["defaults"])] if force(k.get("defaults")) is not None else []
    defaults = dict(zip(fields[len(fields) - len(ds):], ds))
    return nt_make(it, name, fields, defaults, {}, State.ctx.stack[-1][0] if False else "__main__")


def m_collections(it, m):
    b = it.builtins

    def dd_new(i, c, a, k):
        d = PyDict()
        d.cls = c
        d.default = force(a[0]) if a else None
        B.d_update(i, d, a[1:], k)
        return d
    dd = PyClass("defaultdict", [b["dict"]], {}, "collections")
    dd.native_new = dd_new

    def od_new(i, c, a, k):
        d = PyDict()
        d.cls = c
        B.d_update(i, d, a, k)
        return d
    od = PyClass("OrderedDict", [b["dict"]], {}, "collections")
    od.native_new = od_new

    def ct_new(i, c, a, k):
        d = PyDict()
        d.cls = c
        count(i, d, a, k)
        return d

    def count(i, d, a, k):
        if a and isinstance(force(a[0]), PyDict):
            ps = [(x, y) for x, y in i.dict_items(a[0])]
        else:
            ps = [(x, 1) for x in B.nonrest(i, a[0], "Counter")] if a else []
        for x, y in ps + list(k.items()):
            cur = B.dict_find(i, d, x)
            i.setitem(d, x, i.binop("Add", cur[1] if cur else 0, y))
    src = from_source(it, "collections", COLLECTIONS_SRC)
    ct = PyClass("Counter", [b["dict"]], {}, "collections")
    ct.native_new = ct_new

    def most(i, a, k):
        ps = [(kk, vv) for kk, vv in i.dict_items(a[0])]
        if any(not isinstance(vv, int) for _, vv in ps):
            raise Unsupported("most_common")
        ps.sort(key=lambda z: -z[1])
        n = force(a[1]) if len(a) > 1 else None
        return PyList(ps[:n])
    ct.ns["most_common"] = nf("most_common", most)
    ct.ns["__missing__"] = nf("__missing__", lambda i, a, k: 0)
    ct.ns["update"] = nf("update", lambda i, a, k: count(i, a[0], a[1:], k))
    ct.ns["elements"] = nf("elements", lambda i, a, k: PyGen(iter([x for x, n in i.dict_items(a[0]) for _ in range(n)])))

    def move(i, a, k):
        d, key = a[0], a[1]
        v = B.d_pop(i, d, [key], {})
        if i.truth(arg(a, k, 2, "last", True)):
            i.setitem(d, key, v)
            return
        rest = [(x, y) for x, y in i.dict_items(d)]
        B.d_clear(i, d, [], {})
        for x, y in [(key, v)] + rest:
            i.setitem(d, x, y)
    od.ns["move_to_end"] = nf("move_to_end", move)

    def od_popitem(i, a, k):
        if i.truth(arg(a, k, 1, "last", True)):
            return B.d_popitem(i, a[0], [], {})
        for x, y in i.dict_items(a[0]):
            return (x, B.d_pop(i, a[0], [x], {}))
        i.throw("KeyError", "dictionary is empty")
    od.ns["popitem"] = nf("popitem", od_popitem)

    def dq_new(i, c, a, k):
        l = PyList(B.to_list(i, a[0]) if a else [])
        l.sub = c
        if force(k.get("maxlen", a[1] if len(a) > 1 else None)) is not None:
            return i.call(src["BoundedDeque"], a, k)
        return l
    dq = PyClass("deque", [b["object"]], {}, "collections")
    dq.native_new = dq_new
    return {"defaultdict": dd, "OrderedDict": od, "Counter": ct, "deque": dq, "namedtuple": nf("namedtuple", namedtuple_fn), "ChainMap": src["ChainMap"], "UserDict": src["UserDict"], "UserList": from_source(it, "collections", USERLIST_SRC)["UserList"]}


def m_collections_abc(it, m):
    t = it.import_module("typing")
    out = {n: t.ns[n] for n in ("Callable", "Iterable", "Iterator", "Generator", "Sequence", "Mapping", "MutableMapping", "Collection", "Hashable", "Container", "Sized")}
    b = it.builtins

    def abc(name, f):
        c = PyClass(name, [b["object"]], {"__ai_instancecheck__": f}, "collections.abc")
        return c
    src = from_source(it, "collections.abc", ABC_SRC)

    def mapping(n):
        src[n].ns["__ai_instancecheck__"] = lambda i, v: isinstance(v, PyDict) or isinstance(v, Inst) and v.cls.issub(src[n])
        return src[n]
    out["Mapping"] = mapping("Mapping")
    out["MutableMapping"] = mapping("MutableMapping")
    out["Sequence"] = abc("Sequence", lambda i, v: isinstance(v, (PyList, tuple, str, AbsStr, StrCat, bytes, AbsBytes)))
    out["Iterable"] = abc("Iterable", lambda i, v: isinstance(v, (PyList, tuple, str, AbsStr, StrCat, PyDict, PySet, PyGen, bytes, AbsBytes)) or (isinstance(v, Inst) and v.cls.has("__iter__")))
    return out


# ------------------------------------------------------------------ files / sources
class Src:
    """unknown file or message body; each view (json, xml, zip, text) has explicit outcomes

    outcomes: list of (label, kind, value); kind "ok" -> value is a thunk, kind "raise" -> (class, message)"""

    def __init__(self, name, read=None, json=None, xml=None, zip=None, text=None):
        self.name = name
        self.views = {"read": read, "json": json, "xml": xml, "zip": zip, "text": text}
        self.done = {}

    def get(self, it, view):
        if view not in self.done:
            opts = self.views.get(view)
            if opts is None:
                raise Unsupported(f"{view} view of {self.name}")
            i = choose(len(opts), f"{self.name} as {view}: " + "|".join(o[0] for o in opts))
            o = opts[i]
            if o[1] == "ok":
                self.done[view] = (True, o[2]())
            else:
                self.done[view] = (False, o[2])
        ok, v = self.done[view]
        if ok:
            return v
        c, msg = v
        if isinstance(c, tuple):
            c = it.import_module(c[0]).ns[c[1]]
        it.throw(c, msg)


class SrcBytes(AbsBytes):
    __slots__ = ("src",)

    def __init__(self, src):
        AbsBytes.__init__(self, src.name)
        self.src = src


def src_of(it, v):
    v = force(v)
    if isinstance(v, SrcBytes):
        return v.src
    if isinstance(v, AbsStr) and v.find().tag is not None and isinstance(v.find().tag, Src):
        return v.find().tag
    if isinstance(v, Inst) and isinstance(v.data, dict) and isinstance(v.data.get("src"), Src):
        return v.data["src"]
    return None


def m_io(it, m):
    def read(i, a, k):
        self = a[0]
        d = self.data
        if d.get("closed"):
            i.throw("ValueError", "I/O operation on closed file.")
        n = force(a[1]) if len(a) > 1 else force(k.get("size", -1))
        if "buf" in d:
            v = d["buf"]
            w = const_of(v) if isinstance(v, STR) else v
            if w is None:
                if d.get("pos", 0) == 0 and (n is None or n == -1):
                    d["pos"] = B.len_(i, v)
                    return v
                raise Unsupported("read from a buffer of abstract text")
            d["const"] = w
        if "const" in d:
            v = d["const"]
            p = d.get("pos", 0)
            e = len(v) if n is None or n < 0 else p + n
            d["pos"] = min(len(v), e)
            return v[p:e]
        if n is not None and n != -1:
            raise Unsupported("read of a part of a file")
        s = d["src"]
        if s.views.get("read") is not None:
            s.get(i, "read")
        n = d.get("reads", 0)
        d["reads"] = n + 1
        if n:
            return "" if d.get("text") else b""
        if d.get("text"):
            return text_of(i, s)
        return SrcBytes(s)

    def close(i, a, k):
        a[0].data["closed"] = True

    def tell(i, d):
        if d.get("pos") is None and "buf" in d and not d.get("initial"):
            return B.len_(i, d["buf"])
        return d.get("pos") or 0

    def trunc(i, a, k):
        d = a[0].data
        n = force(a[1]) if len(a) > 1 else d.get("pos")
        if "buf" not in d or n not in (0, None):
            raise Unsupported("truncate")
        if n == 0:
            d["buf"] = b"" if isinstance(d["buf"], bytes) else ""
            d.pop("const", None)
        return n

    def write(i, a, k):
        d = a[0].data
        if d.get("closed"):
            i.throw("ValueError", "I/O operation on closed file.")
        if "buf" in d:
            v = force(a[1])
            pos = d.get("pos")
            d.pop("const", None)
            if isinstance(d["buf"], bytes):
                if not isinstance(v, bytes):
                    raise Unsupported("BytesIO.write of abstract bytes")
                pos = len(d["buf"]) if pos is None and not d["initial"] else pos or 0
                d["buf"] = d["buf"][:pos] + v + d["buf"][pos + len(v):]
                d["pos"] = pos + len(v)
                return len(v)
            if not isinstance(v, STR):
                i.throw("TypeError", f"string argument expected, got '{i.type_of(v).name}'")
            if pos is not None or d.get("initial"):
                w, x = const_of(d["buf"]), const_of(v)
                if w is None or x is None:
                    raise Unsupported("StringIO.write at a position")
                pos = pos or 0
                d["buf"] = w[:pos] + x + w[pos + len(x):]
                d["pos"] = pos + len(x)
                return len(x)
            d["buf"] = cat(d["buf"], v)
            return B.len_(i, v)
        State.ctx.effects.append(("write", d.get("path"), force(a[1])))
        return B.len_(i, a[1]) if isinstance(force(a[1]), STR) else 0

    def seek(i, a, k):
        d = a[0].data
        off = force(a[1])
        wh = force(a[2]) if len(a) > 2 else force(k.get("whence", 0))
        d["reads"] = 0
        if "buf" in d or "const" in d:
            v = d.get("buf", d.get("const"))
            if wh == 2:
                off = i.binop("Add", off, B.len_(i, v))
            elif wh == 1:
                off = i.binop("Add", off, d.get("pos", 0))
            d["pos"] = off
            if wh == 2 and a[1] == 0 and isinstance(v, STR):
                d["pos"], d["initial"] = None, False
            return off
        if wh != 0 or off != 0:
            raise Unsupported("seek inside a file")
        d["pos"] = 0
        return 0

    def rlines(i, a):
        r = read(i, [a[0]], {})
        w = const_of(r) if isinstance(r, STR) else r
        if not isinstance(w, (str, bytes)):
            raise Unsupported("lines of a file")
        out = io.StringIO(w, newline="").readlines() if isinstance(w, str) else io.BytesIO(w).readlines()
        return out

    def readline(i, a, k):
        d = a[0].data
        p = d.get("pos") or 0
        ls = rlines(i, a)
        if "const" in d and ls:
            d["pos"] = p + len(ls[0])
        return ls[0] if ls else (b"" if isinstance(d.get("const"), bytes) else "")

    def lines(i, a, k):
        return PyGen(iter(rlines(i, a)))
    meth = {"read": read, "close": close, "write": write, "seek": seek, "__enter__": lambda i, a, k: a[0], "__exit__": lambda i, a, k: close(i, a, k), "flush": lambda i, a, k: None, "__iter__": lines,
            "readlines": lambda i, a, k: PyList(rlines(i, a)), "readline": readline,
            "writelines": lambda i, a, k: [write(i, [a[0], x], {}) for x in B.nonrest(i, a[1])] and None,
            "getvalue": lambda i, a, k: a[0].data.get("buf", a[0].data.get("const")),
            "seekable": lambda i, a, k: True, "readable": lambda i, a, k: True, "tell": lambda i, a, k: tell(i, a[0].data), "getbuffer": lambda i, a, k: a[0].data.get("buf"), "writable": lambda i, a, k: "buf" in a[0].data or "sink" in a[0].data, "isatty": lambda i, a, k: False, "truncate": trunc}
    base = mkcls(it, "IOBase", "io", methods=meth)
    base.ns["name"] = Prop(nf("name", lambda i, a, k: a[0].data.get("path", "<file>")))
    base.ns["closed"] = Prop(nf("closed", lambda i, a, k: bool(a[0].data.get("closed"))))

    def bio_new(i, c, a, k):
        v = force(a[0]) if a else b""
        if isinstance(v, SrcBytes):
            return Inst(c, {}, {"src": v.src})
        if isinstance(v, bytes):
            return Inst(c, {}, {"const": v, "buf": v, "initial": bool(v)})
        if v is None:
            return Inst(c, {}, {"const": b"", "buf": b"", "initial": False})
        raise Unsupported("BytesIO")

    def sio_new(i, c, a, k):
        v = force(a[0]) if a else ""
        s = src_of(i, v)
        if s is not None:
            return Inst(c, {}, {"src": s, "text": True})
        w = const_of(v) if isinstance(v, STR) else None
        if w is not None:
            return Inst(c, {}, {"const": w, "buf": w, "initial": bool(w)})
        return Inst(c, {}, {"buf": v, "initial": True})

    def tw_new(i, c, a, k):
        f = force(a[0])
        return Inst(c, {}, {**f.data, "text": True})
    bio = PyClass("BytesIO", [base], {}, "io")
    bio.native_new = bio_new
    sio = PyClass("StringIO", [base], {}, "io")
    sio.native_new = sio_new
    tw = PyClass("TextIOWrapper", [base], {}, "io")
    tw.native_new = tw_new
    fcls = PyClass("BufferedReader", [base], {}, "io")
    return {"IOBase": base, "BytesIO": bio, "StringIO": sio, "TextIOWrapper": tw, "BufferedReader": fcls, "open": it.builtins["open"], "UnsupportedOperation": exc(it, "UnsupportedOperation", "OSError", "io"), "SEEK_SET": 0, "SEEK_END": 2}


def text_of(it, src):
    if src.views.get("text") is not None:
        return src.get(it, "text")
    c = State.ctx
    key = ("text", id(src))
    if key not in c.memo:
        if choose(2, f"{src.name} decodes as text") != 0:
            it.throw("UnicodeDecodeError", "invalid start byte")
        t = AbsStr(name=src.name)
        t.tag = src
        c.memo[key] = t
    return c.memo[key]


def model_file(it, src, text=False):
    cls = it.import_module("io").ns["BufferedReader"]
    return Inst(cls, {}, {"src": src, "text": text, "path": src.name})


def open_(it, a, k):
    path = force(a[0] if a else k["file"])
    mode = arg(a, k, 1, "mode", "r")
    w = const_of(path) if isinstance(path, STR) else None
    c = State.ctx
    if isinstance(path, Inst) and path.cls.has("__fspath__") and "p" in path.attrs:
        path = path.attrs["p"]
        w = const_of(path)
    if not isinstance(mode, str):
        raise Unsupported("open mode")
    if any(x in mode for x in "wax+"):
        c.effects.append(("open-write", path, mode))
        return Inst(it.import_module("io").ns["BufferedReader"], {}, {"path": path, "sink": True})
    files = getattr(c, "files", None) or {}
    if w is not None and w in files:
        return model_file(it, files[w], "b" not in mode)
    if w is not None and os.path.realpath(w).startswith(os.path.realpath(it.root) + os.sep) and os.path.isfile(w):
        it.files.setdefault("data:" + os.path.relpath(w, it.root), w)
        with open(w, "rb") as f:
            data = f.read()
        if "b" not in mode:
            data = data.decode("utf-8")
        return Inst(it.import_module("io").ns["BufferedReader"], {}, {"const": data, "path": w})
    c.effects.append(("open-read", path))
    if w is not None and not os.path.exists(w) and os.path.realpath(w).startswith(os.path.realpath(it.root) + os.sep):
        it.throw("FileNotFoundError", "No such file or directory: " + w)
    raise Unsupported("open of unknown file")


# ------------------------------------------------------------------ json
def json_check(it, v, seen=()):
    """raise the TypeError json.dumps raises for unserialisable values"""
    v = force(v)
    if v is None or isinstance(v, (bool, int, float, AbsBool, AbsInt, AbsFloat) + STR):
        return
    if isinstance(v, Opaque):
        taint("json of unmodelled value")
        return
    if isinstance(v, PyList):
        for x in v.items:
            if isinstance(x, Seg):
                for y in x.made:
                    json_check(it, y)
            else:
                json_check(it, x)
        return
    if isinstance(v, tuple):
        for x in v:
            json_check(it, x)
        return
    if isinstance(v, PyDict):
        for e in v.d.values():
            kk = force(e[0])
            if not (kk is None or isinstance(kk, (bool, int, float, AbsBool, AbsInt) + STR)):
                it.throw("TypeError", "keys must be str, int, float, bool or None")
            json_check(it, e[1].value if isinstance(e[1], Maybe) else e[1])
        return
    if isinstance(v, Inst):
        m = B.mixin_value(v)
        if m is not v:
            return
    it.throw("TypeError", f"Object of type {it.type_of(v).name} is not JSON serializable")


def m_json(it, m):
    import json
    dec = it.import_module("json.decoder")
    jde = dec.ns["JSONDecodeError"]

    def dumps(i, a, k):
        v = force(a[0] if a else k["obj"])
        dflt = k.get("default")
        if dflt is not None:
            v = apply_default(i, v, dflt)
        if k.get("cls") is not None:
            raise Unsupported("json encoder class")
        json_check(i, v)
        try:
            h = pure_const(v)
        except LookupError:
            return StrCat([Part("json", v)])
        kk = {n: pure_const(x) for n, x in k.items() if n not in ("default", "obj")}
        return host_call(i, json.dumps, h, **kk)

    def apply_default(i, v, f):
        v = force(v)
        if isinstance(v, PyList):
            return PyList([x if isinstance(x, Seg) else apply_default(i, x, f) for x in v.items])
        if isinstance(v, tuple):
            return tuple(apply_default(i, x, f) for x in v)
        if isinstance(v, PyDict):
            return PyDict([(e[0], apply_default(i, e[1], f)) for e in v.d.values() if not isinstance(e[1], Maybe)])
        if v is None or isinstance(v, (bool, int, float, AbsBool, AbsInt, AbsFloat) + STR):
            return v
        if isinstance(v, Inst) and B.mixin_value(v) is not v:
            return v
        return apply_default(i, i.call(f, [v], {}), f)

    def dump(i, a, k):
        t = dumps(i, [a[0]], {n: x for n, x in k.items() if n != "fp"})
        f = a[1] if len(a) > 1 else k["fp"]
        i.call(i.getattr_(f, "write"), [t], {})

    def hooks(i, v, k):
        """object_hook, object_pairs_hook and parse_constant, applied from the inside as the decoder does"""
        oh, ph, pc = (force(k.get(n)) for n in ("object_hook", "object_pairs_hook", "parse_constant"))
        if oh is None and ph is None and pc is None:
            return v

        def go(v):
            v = force(v)
            if isinstance(v, PyDict):
                items = [(x, go(y)) for x, y in B.dict_items(i, v)]
                if ph is not None:
                    return i.call(ph, [PyList([(x, y) for x, y in items])], {})
                d = PyDict(items)
                return d if oh is None else i.call(oh, [d], {})
            if isinstance(v, PyList):
                return PyList([go(x) for x in B.iterate(i, v)])
            if pc is not None and isinstance(v, float) and (v != v or v in (float("inf"), float("-inf"))):
                return i.call(pc, ["NaN" if v != v else "Infinity" if v > 0 else "-Infinity"], {})
            if isinstance(v, (str, int, float, STR)) or v is None:
                return v
            raise Unsupported("json.load hooks on unknown content")
        return go(v)

    def check_k(k):
        for n in k:
            if n in ("parse_int", "parse_float", "cls"):
                raise Unsupported("json.load option " + n)
        v = force(k.get("strict", True))
        if not isinstance(v, bool):
            raise Unsupported("json.load option strict")
        return v

    def get(i, s, strict):
        if strict:
            return s.get(i, "json")
        try:
            return s.get(i, "json")
        except PyRaise as e:
            # some malformed texts are accepted: those whose only defect is a control character in a string
            if e.exc.cls.issub(jde) and choose(2, "malformed only by a control character"):
                return PyDict([])
            raise

    def loads(i, a, k):
        strict = check_k(k)
        v = force(a[0] if a else k["s"])
        s = src_of(i, v)
        if s is not None:
            return hooks(i, get(i, s, strict), k)
        if isinstance(v, StrCat) and len(v.parts) == 1 and isinstance(v.parts[0], Part) and v.parts[0].kind == "json":
            return hooks(i, m_copy(i, None)["deepcopy"].fn(i, [v.parts[0].value], {}), k)
        w = const_of(v) if isinstance(v, STR) else (v if isinstance(v, bytes) else None)
        if w is not None:
            try:
                x = lift(json.loads(w))
            except json.JSONDecodeError as e:
                i.throw(jde, str(e))
            except ValueError as e:
                i.throw("ValueError", str(e))
            return hooks(i, x, k)
        if isinstance(v, (AbsStr, AbsBytes)):
            raise Unsupported("json of unknown text")
        if isinstance(v, Opaque):
            return Opaque("json")
        i.throw("TypeError", "the JSON object must be str, bytes or bytearray")

    def load(i, a, k):
        f = a[0] if a else k["fp"]
        return loads(i, [i.call(i.getattr_(f, "read"), [], {})], {n: x for n, x in k.items() if n != "fp"})
    return {"dumps": nf("dumps", dumps), "dump": nf("dump", dump), "loads": nf("loads", loads), "load": nf("load", load), "JSONDecodeError": jde, "decoder": dec}


def m_json_decoder(it, m):
    c = exc(it, "JSONDecodeError", "ValueError", "json.decoder")
    c.ns["msg"] = Prop(nf("msg", lambda i, a, k: a[0].attrs["args"][0] if a[0].attrs["args"] else ""))
    for n in ("lineno", "colno", "pos"):
        c.ns[n] = Prop(nf(n, lambda i, a, k: AbsInt(FreeInt(ISet([(0, None)])), (), "pos")))
    return {"JSONDecodeError": c}


# ------------------------------------------------------------------ xml
def element(it, tag, text=None, children=(), attrib=(), tail=None):
    cls = it.import_module("xml.etree.ElementTree").ns["Element"]
    e = Inst(cls, {"tag": tag, "text": text, "tail": tail, "attrib": PyDict(attrib)})
    e.data = children if isinstance(children, PyList) else PyList(children)
    return e


def m_et(it, m):
    perr = exc(it, "ParseError", "SyntaxError", "xml.etree.ElementTree")
    for n in ("code", "position"):
        perr.ns[n] = Prop(nf(n, lambda i, a, k: Opaque("ParseError." + n)))

    def el_new(i, c, a, k):
        k = dict(k)
        at = PyDict()
        tag = a[0] if a else k.pop("tag")
        src = a[1] if len(a) > 1 else k.pop("attrib", None)
        if src is not None:
            B.d_update(i, at, [src], {})
        B.d_update(i, at, [], k)
        e = Inst(c, {"tag": tag, "text": None, "tail": None, "attrib": at})
        e.data = PyList()
        return e

    def matches(i, el, path):
        if path == "*":
            return True
        if path.startswith("{*}"):
            t = el.attrs["tag"]
            return str_test(t, rx.compile_spec("(\\{[^}]*\\})?" + hre.escape(path[3:]))) if not isinstance(t, str) else (t == path[3:] or t.endswith("}" + path[3:]))
        return i.eq(el.attrs["tag"], path)

    def expand(i, path, k, a):
        nsm = arg(a, k, 2, "namespaces")
        if nsm is not None:
            raise Unsupported("namespaces map")
        p = const_of(path) if isinstance(path, STR) else None
        if p is None:
            raise Unsupported("abstract xpath")
        import re
        q = re.sub(r"\{[^}]*\}", "", p)
        if p.startswith("./") and "/" not in q[2:]:
            p = p[2:]
            q = q[2:]
        if any(x in q for x in "/.[@"):
            raise Unsupported("xpath")
        return p

    def findall(i, a, k):
        p = expand(i, a[1], k, a)
        return PyList([c for c in B.nonrest(i, a[0].data, "element children") if matches(i, c, p)])

    def find(i, a, k):
        p = expand(i, a[1], k, a)
        for c in i.iterate(a[0].data):
            if isinstance(c, Rest):
                continue
            if matches(i, c, p):
                return c
        return None

    def findtext(i, a, k):
        e = find(i, a[:2], {})
        if e is None:
            return arg(a, k, 2, "default")
        t = e.attrs["text"]
        return t if i.truth(t) else ""

    def el_iter(i, a, k):
        tag = arg(a, k, 1, "tag")

        def g(e):
            if tag is None or matches(i, e, tag):
                yield e
            for c in i.iterate(e.data):
                if isinstance(c, Rest):
                    yield c
                else:
                    yield from g(c)
        return PyGen(g(a[0]))

    def itertext(i, a, k):
        def g(e):
            if i.truth(e.attrs["text"]):
                yield e.attrs["text"]
            for c in i.iterate(e.data):
                if isinstance(c, Rest):
                    continue
                yield from g(c)
                if i.truth(c.attrs["tail"]):
                    yield c.attrs["tail"]
        return PyGen(g(a[0]))

    def truth(i, a, k):
        return i.compare("!=", i.len_(a[0].data), 0)
    meth = {
        "__len__": lambda i, a, k: i.len_(a[0].data), "__bool__": truth, "__iter__": lambda i, a, k: PyGen(i.iterate(a[0].data)),
        "__getitem__": lambda i, a, k: i.getitem(a[0].data, a[1]),
        "find": find, "findall": findall, "findtext": findtext, "iter": el_iter, "itertext": itertext,
        "iterfind": findall,
        "get": lambda i, a, k: B.d_get(i, a[0].attrs["attrib"], [a[1], arg(a, k, 2, "default")], {}),
        "keys": lambda i, a, k: i.call(i.getattr_(a[0].attrs["attrib"], "keys"), [], {}),
        "items": lambda i, a, k: i.call(i.getattr_(a[0].attrs["attrib"], "items"), [], {}),
        "set": lambda i, a, k: i.setitem(a[0].attrs["attrib"], a[1], a[2]),
        "append": lambda i, a, k: B.list_append(i, a[0].data, a[1]),
        "remove": lambda i, a, k: B.l_remove(i, a[0].data, [a[1]], {}),
        "clear": lambda i, a, k: (State.ctx.effects.append(("mutate-element",)), B.l_clear(i, a[0].data, [], {}))[1],
    }
    ecls = mkcls(it, "Element", "xml.etree.ElementTree", methods=meth, new=el_new)
    tree = mkcls(it, "ElementTree", "xml.etree.ElementTree", methods={"getroot": lambda i, a, k: a[0].attrs["root"], "find": lambda i, a, k: find(i, [a[0].attrs["root"]] + list(a[1:]), k), "findall": lambda i, a, k: findall(i, [a[0].attrs["root"]] + list(a[1:]), k), "iter": lambda i, a, k: el_iter(i, [a[0].attrs["root"]] + list(a[1:]), k)}, new=lambda i, c, a, k: Inst(c, {"root": a[0] if a else None}))

    def fromstring(i, a, k):
        v = force(a[0] if a else k["text"])
        if len(a) > 1 or "parser" in k:
            raise Unsupported("xml parser argument")
        s = src_of(i, v)
        if s is not None:
            return s.get(i, "xml")
        if v is None or isinstance(v, (int, float)):
            i.throw("TypeError", "a bytes-like object is required")
        w = const_of(v) if isinstance(v, STR) else (v if isinstance(v, bytes) else None)
        if w is not None:
            import xml.etree.ElementTree as ET
            try:
                r = ET.fromstring(w)
            except ET.ParseError as e:
                i.throw(perr, str(e))

            def conv_(e):
                return element(i, e.tag, e.text, [conv_(c) for c in e], e.attrib.items(), e.tail)
            return conv_(r)
        raise Unsupported("xml of unknown text")

    def parse(i, a, k):
        f = force(a[0])
        if isinstance(f, Inst) and f.cls.has("read"):
            return Inst(tree, {"root": fromstring(i, [i.call(i.getattr_(f, "read"), [], {})], {})})
        raise Unsupported("xml parse of path")

    def iterparse(i, a, k):
        raise Unsupported("iterparse")

    def tostring(i, a, k):
        return AbsBytes("xml")
    return {"Element": ecls, "ElementTree": tree, "ParseError": perr, "fromstring": nf("fromstring", fromstring), "XML": nf("XML", fromstring), "parse": nf("parse", parse), "iterparse": nf("iterparse", iterparse), "tostring": nf("tostring", tostring),
            "SubElement": nf("SubElement", lambda i, a, k: sub_el(i, ecls, a, k)), "iselement": nf("iselement", lambda i, a, k: isinstance(force(a[0]), Inst) and force(a[0]).cls is ecls), "XMLParser": Opaque("XMLParser")}


def sub_el(i, ecls, a, k):
    e = i.call(ecls, a[1:], k)
    B.list_append(i, a[0].data, e)
    return e


# ------------------------------------------------------------------ zip
def m_zipfile(it, m):
    bad = exc(it, "BadZipFile", "Exception", "zipfile")

    def new(i, c, a, k):
        f = force(a[0] if a else k["file"])
        s = src_of(i, f)
        if s is not None:
            return s.get(i, "zip")
        raise Unsupported("ZipFile of unknown file")

    def zopen(i, a, k):
        name = force(a[1] if len(a) > 1 else k["name"])
        mode = arg(a, k, 2, "mode", "r")
        if mode != "r":
            State.ctx.effects.append(("zip-write", name))
            raise Unsupported("zip write")
        if a[0].attrs.get(" closed"):
            i.throw("ValueError", "Attempt to use ZIP archive that was already closed")
        return a[0].data.open(i, name)

    def zclose(i, a, k):
        a[0].attrs[" closed"] = True

    def zread(i, a, k):
        f = zopen(i, a, {})
        return i.call(i.getattr_(f, "read"), [], {})
    meth = {"open": zopen, "read": zread, "namelist": lambda i, a, k: a[0].data.namelist(i), "infolist": lambda i, a, k: zinfo(i, a), "close": zclose, "__enter__": lambda i, a, k: a[0], "__exit__": zclose, "getinfo": lambda i, a, k: getinfo(i, a), "testzip": lambda i, a, k: Opaque("testzip")}

    def zinfo(i, a):
        l = a[0].data.namelist(i)
        return PyList([Inst(zi, {"filename": x}) for x in B.nonrest(i, l, "infolist")])

    def getinfo(i, a):
        if i.compare("in", a[1], a[0].data.namelist(i)):
            return Inst(zi, {"filename": a[1]})
        i.throw("KeyError", cat("There is no item named ", i.repr_(a[1]), " in the archive"))
    z = mkcls(it, "ZipFile", "zipfile", methods=meth, new=new)
    zi = mkcls(it, "ZipInfo", "zipfile")
    return {"ZipFile": z, "BadZipFile": bad, "BadZipfile": bad, "ZipInfo": zi, "is_zipfile": nf("is_zipfile", lambda i, a, k: Opaque("is_zipfile")), "LargeZipFile": exc(it, "LargeZipFile", "Exception", "zipfile")}


# ------------------------------------------------------------------ os, sys
def m_os(it, m):
    def eff(name, ret=None):
        def f(i, a, k):
            State.ctx.effects.append(("os." + name,) + tuple(a))
            return ret
        return nf("os." + name, f)
    out = {n: eff(n) for n in ("mkdir", "makedirs", "remove", "unlink", "rmdir", "rename", "replace", "chmod", "symlink", "link", "truncate", "chdir", "putenv", "kill", "system", "removedirs", "utime")}

    def kind(x):
        """what the path names: 0 nothing, 1 a file, 2 a directory"""
        key = ("path", val_key(x))
        c = State.ctx
        if key not in c.memo:
            c.memo[key] = choose(3, "path names: nothing|file|directory")
        return c.memo[key]

    def mk(name):
        def f(i, a, k):
            path = force(a[0] if a else k.get("name", k.get("path")))
            n = kind(path)
            eo = k.get("exist_ok", a[2] if len(a) > 2 else False) if name == "makedirs" else False
            if n == 1 or n == 2 and not B.truth(i, eo):
                i.throw("FileExistsError", "File exists")
            State.ctx.effects.append(("os." + name, path))
        return nf("os." + name, f)
    out["mkdir"] = mk("mkdir")
    out["makedirs"] = mk("makedirs")
    out["getcwd"] = nf("getcwd", lambda i, a, k: "/cwd")
    out["listdir"] = nf("listdir", lambda i, a, k: Opaque("listdir"))
    out["sep"] = "/"
    out["linesep"] = "\n"
    out["environ"] = PyDict()
    out["getenv"] = nf("getenv", lambda i, a, k: None)
    out["fspath"] = nf("fspath", lambda i, a, k: fspath(force(a[0])))
    p = it.import_module("os.path")
    out["path"] = p
    for nm, ks in (("exists", (1, 2)), ("lexists", (1, 2)), ("isfile", (1,)), ("isdir", (2,))):
        p.ns[nm] = nf(nm, lambda i, a, k, ks=ks: kind(force(a[0])) in ks)
    p.ns["sep"] = "/"
    return out


def fspath(v):
    return v.attrs["p"] if isinstance(v, Inst) and v.cls.has("__fspath__") and "p" in v.attrs else v


def m_os_path(it, m):
    def fold(name, f):
        def run(i, a, k):
            a = [fspath(force(x)) for x in a]
            try:
                return lift(host_call(i, f, *[pure_const(x) for x in a]))
            except LookupError:
                if name == "join":
                    out = []
                    for n, x in enumerate(a):
                        if n:
                            out.append("/")
                        out.append(force(x))
                    return cat(*out)
                return StrCat([Part("os.path." + name, a[0])])
        return nf("os.path." + name, run)
    out = {n: fold(n, getattr(posixpath, n)) for n in ("join", "dirname", "basename", "split", "splitext", "normpath", "isabs", "relpath", "commonpath", "normcase")}
    out["realpath"] = fold("realpath", os.path.realpath)
    out["abspath"] = fold("abspath", os.path.abspath)
    out["expanduser"] = fold("expanduser", lambda x: x)
    return out


def m_sys(it, m):
    def exit_(i, a, k):
        i.throw("SystemExit", *(a or [None]))

    def stream(name):
        def emit(i, x):
            if name == "stdout":
                return B.to_stdout(i, x)
            State.ctx.effects.append((name, x))

        def w(i, a, k):
            emit(i, force(a[1]))
            return 0

        def reconf(i, a, k):
            if name == "stdout" and (k.get("errors") not in (None, "strict")):
                State.ctx.strict_out = False

        def wl(i, a, k):
            for x in i.iterate(a[1]):
                if not isinstance(x, Rest):
                    emit(i, x)
        c = mkcls(i_, name, "sys", methods={"write": w, "writelines": wl, "flush": lambda i, a, k: None, "isatty": lambda i, a, k: False, "reconfigure": reconf})
        return Inst(c, {"encoding": "utf-8"})
    i_ = it
    so = stream("stdout")
    return {"__stdout__": so, "exit": nf("exit", exit_), "argv": PyList(["prog"]), "stderr": stream("stderr"), "stdout": so, "maxsize": 2 ** 63 - 1, "version_info": (3, 12, 3, "final", 0), "platform": "linux", "modules": PyDict(), "path": PyList(), "setrecursionlimit": nf("setrecursionlimit", lambda i, a, k: State.ctx.effects.append(("sys.setrecursionlimit",))), "set_int_max_str_digits": nf("x", lambda i, a, k: State.ctx.effects.append(("sys.set_int_max_str_digits",))), "exc_info": nf("exc_info", lambda i, a, k: exc_info(i))}


def exc_info(i):
    h = getattr(State.ctx, "handling", None)
    return (h[-1].cls, h[-1], None) if h else (None, None, None)


# ------------------------------------------------------------------ html, base64, decimal, datetime, urllib
def m_html(it, m):
    def escape(i, a, k):
        s = force(a[0] if a else k["s"])
        quote = arg(a, k, 1, "quote", True)
        quote = i.truth(quote)
        mp = {ord("&"): "&amp;", ord("<"): "&lt;", ord(">"): "&gt;"}
        if quote:
            mp[ord('"')] = "&quot;"
            mp[ord("'")] = "&#x27;"
        if not isinstance(s, STR):
            if isinstance(s, Opaque):
                return Opaque("html.escape")
            i.throw("AttributeError", f"'{i.type_of(s).name}' object has no attribute 'replace'")

        def one(p):
            if isinstance(p, str):
                return p.translate(mp)
            if isinstance(p, AbsStr):
                w = p.single()
                if w is not None:
                    return w.translate(mp)
                r = p.derive(lambda P: rx.inverse_hom(P, mp), f"html({p.name})")
                r.tag = ("html", p, quote)
                return r
            return Part("html", p)
        if isinstance(s, StrCat):
            return cat(*[x if not isinstance(x, Part) else StrCat([x]) for x in map(one, s.parts)])
        return one(s)
    import html
    return {"escape": nf("escape", escape), "unescape": host_fn("html.unescape", html.unescape)}


def m_binascii(it, m):
    import binascii
    e = exc(it, "Error", "ValueError", "binascii")

    def unhex(i, a, k):
        s = force(a[0])
        if isinstance(s, (AbsStr,)):
            l = rx.compile_spec("([0-9a-fA-F]{2})*")
            if not s.test(rx.over(((0, 128),))):
                i.throw("ValueError", "string argument should contain only ASCII characters")
            if s.test(l):
                return AbsBytes("unhexlify")
            i.throw(e, "Non-hexadecimal digit found")
        return host_fn("unhexlify", binascii.unhexlify).fn(i, a, k)
    return {"Error": e, "unhexlify": nf("unhexlify", unhex), "a2b_hex": nf("a2b_hex", unhex), "hexlify": host_fn("hexlify", binascii.hexlify), "crc32": host_fn("crc32", binascii.crc32)}


def m_base64(it, m):
    import base64
    import binascii
    berr = it.import_module("binascii").ns["Error"]

    def decode(urlsafe):
        def f(i, a, k):
            s = force(a[0] if a else k["s"])
            validate = arg(a, k, 2, "validate", False)
            alt = None if urlsafe else arg(a, k, 1, "altchars")
            if alt is not None and force(alt) not in (b"-_", "-_"):
                raise Unsupported("b64decode altchars")
            validate = bool(i.truth(validate))
            if isinstance(s, (AbsBytes,)):
                if s.text is not None:
                    s = s.text
                else:
                    if choose(2, "bytes are base64") == 0:
                        return AbsBytes("b64")
                    i.throw(berr, "Incorrect padding")
            w = const_of(s) if isinstance(s, STR) else (s if isinstance(s, bytes) else None)
            if w is not None:
                try:
                    return base64.urlsafe_b64decode(w) if urlsafe else base64.b64decode(w, alt, validate=validate)
                except binascii.Error as e:
                    i.throw(berr, str(e))
                except ValueError as e:
                    i.throw("ValueError", str(e))
            if isinstance(s, StrCat) and len(s.parts) == 1 and isinstance(s.parts[0], Part) and s.parts[0].kind in ("b64", "b64url"):
                return AbsBytes("b64", s.parts[0].value)
            if not isinstance(s, STR):
                i.throw("TypeError", "argument should be a bytes-like object or ASCII string")
            if not str_test(s, rx.over(((0, 128),)), "text is ASCII"):
                i.throw("ValueError", "string argument should contain only ASCII characters")
            if alt is not None and validate:
                raise Unsupported("b64decode altchars")
            if str_test(s, strlang.b64_lang(validate, urlsafe or alt is not None), "text is base64"):
                return AbsBytes("b64")
            i.throw(berr, "Incorrect padding")
        return f

    def encode(kind):
        def f(i, a, k):
            v = force(a[0])
            alt = force(arg(a, k, 1, "altchars")) if kind == "b64" else None
            if alt is not None and not isinstance(alt, bytes):
                raise Unsupported("b64encode altchars")
            if isinstance(v, bytes):
                return base64.urlsafe_b64encode(v) if kind == "b64url" else base64.b64encode(v, alt)
            if isinstance(v, STR):
                i.throw("TypeError", "a bytes-like object is required, not 'str'")
            if isinstance(v, AbsBytes):
                if alt is not None and alt not in (b"-_", b"+/"):
                    raise Unsupported("b64encode altchars")
                if alt == b"-_":
                    return AbsBytes("b64url", StrCat([Part("b64url", v.text if v.text is not None else v)]))
                return AbsBytes(kind, StrCat([Part(kind, v.text if v.text is not None else v)]))
            return Opaque("b64encode")
        return f
    return {"b64decode": nf("b64decode", decode(False)), "standard_b64decode": nf("b64decode", decode(False)), "urlsafe_b64decode": nf("urlsafe_b64decode", decode(True)), "decodebytes": nf("decodebytes", decode(False)), "b64encode": nf("b64encode", encode("b64")), "urlsafe_b64encode": nf("urlsafe_b64encode", encode("b64url")), "standard_b64encode": nf("b64encode", encode("b64")), "binascii": None, "_Error": berr, "b16decode": Opaque("b16decode")}


def m_decimal(it, m):
    import decimal
    ae = it.builtins["ArithmeticError"]
    de = exc(it, "DecimalException", ae, "decimal")
    io = exc(it, "InvalidOperation", de, "decimal")

    def absd(s, kind):
        return Inst(dcls, {}, ("abs", s, kind))

    def new(i, c, a, k):
        v = force(a[0]) if a else 0
        if isinstance(v, (AbsStr, StrCat)) or isinstance(v, str):
            w = const_of(v)
            if w is not None:
                try:
                    return Inst(dcls, {}, ("host", decimal.Decimal(w)))
                except decimal.InvalidOperation:
                    i.throw(io, "[<class 'decimal.ConversionSyntax'>]")
            if str_test(v, strlang.decimal_lang(), "text is a Decimal literal"):
                return absd(v, "str")
            i.throw(io, "[<class 'decimal.ConversionSyntax'>]")
        if isinstance(v, (int, float)):
            return Inst(dcls, {}, ("host", decimal.Decimal(v)))
        if isinstance(v, (AbsInt, AbsFloat)):
            return Opaque("Decimal")
        if isinstance(v, Inst) and v.cls is dcls:
            return v
        i.throw("TypeError", "conversion from value to Decimal is not supported")

    def isfin(kind):
        langs = {}

        def f(i, a, k):
            d = a[0].data
            if d[0] == "host":
                return getattr(d[1], kind)()
            s = d[1]
            special = rx.compile_spec(r"(?s:.)*[iInN](?s:.)*")  # inf / nan spellings
            if kind == "is_finite":
                return not str_test(s, special, "non-finite Decimal")
            if kind == "is_nan":
                return str_test(s, rx.compile_spec(r"(?s:.)*[nN][aA](?s:.)*"), "NaN Decimal")
            if kind == "is_infinite":
                return str_test(s, rx.compile_spec(r"(?s:.)*[iI][nN][fF](?s:.)*"), "infinite Decimal")
        return f

    def cmp_(op):
        def f(i, a, k):
            d = a[0].data
            o = force(a[1])
            oh = o.data[1] if isinstance(o, Inst) and o.cls is dcls and o.data[0] == "host" else (o if isinstance(o, (int, float)) else None)
            if d[0] == "host" and oh is not None:
                import operator
                return {"==": operator.eq, "<": operator.lt, ">": operator.gt, "<=": operator.le, ">=": operator.ge}[op](d[1], oh)
            return choose(2, "Decimal comparison", taint="Decimal comparison") == 0
        return f
    dcls = mkcls(it, "Decimal", "decimal", methods={"is_finite": isfin("is_finite"), "is_nan": isfin("is_nan"), "is_infinite": isfin("is_infinite"), "__eq__": cmp_("=="), "__lt__": cmp_("<"), "__gt__": cmp_(">"), "__le__": cmp_("<="), "__ge__": cmp_(">=")}, new=new)
    return {"Decimal": dcls, "DecimalException": de, "InvalidOperation": io, "ROUND_HALF_UP": "ROUND_HALF_UP"}


def m_datetime(it, m):
    import datetime

    def new(i, c, a, k):
        try:
            ha = [pure_const(x) for x in a]
            hk = {n: pure_const(x) for n, x in k.items()}
        except LookupError:
            v = [force(x) for x in a] + [force(k[n]) for n in ("year", "month", "day")[len(a):] if n in k]
            if c.name == "date" and len(v) == 3 and all(isinstance(x, int) or isinstance(x, B.AbsInt) for x in v):
                y, mo, d = v
                def has(x, lo, hi):
                    return B.truth(i, B.compare(i, ">=", x, lo)) and B.truth(i, B.compare(i, "<=", x, hi))
                if not has(y, 1, 9999):
                    i.throw("ValueError", "year is out of range")
                if not has(mo, 1, 12):
                    i.throw("ValueError", "month must be in 1..12")
                n = 31
                if B.contains(i, (4, 6, 9, 11), mo):
                    n = 30
                elif B.eq(i, mo, 2):
                    n = 28 + B.truth(i, i.call(i.import_module("calendar").ns["isleap"], [y], {}))
                if not has(d, 1, n):
                    i.throw("ValueError", "day is out of range for month")
                return Inst(c, {}, ("ymd", dict(year=y, month=mo, day=d)))
            raise Unsupported("date()")
        return Inst(c, {}, ("host", host_call(i, getattr(datetime, c.name), *ha, **hk)))

    def fromiso(i, a, k):
        c, s = a[0], force(a[1])
        if not isinstance(s, STR):
            i.throw("TypeError", "fromisoformat: argument must be str")
        w = const_of(s)
        if w is not None:
            return Inst(c, {}, ("host", host_call(i, getattr(datetime, c.name).fromisoformat, w)))
        if c.name != "date":
            return Inst(c, {}, ("abs", s)) if choose(2, "ISO datetime", taint="datetime.fromisoformat") == 0 else i.throw("ValueError", "Invalid isoformat string")
        if str_test(s, strlang.isodate_lang(), "text is an ISO date"):
            return Inst(c, {}, ("abs", s))
        i.throw("ValueError", cat("Invalid isoformat string: ", i.repr_(s)))

    def attr(n):
        def f(i, a, k):
            d = a[0].data
            if d[0] == "host":
                return getattr(d[1], n)
            if d[0] == "ymd":
                return d[1][n]
            return B.unknown_int("date." + n)
        return Prop(nf(n, f))

    def hostm(n):
        def f(i, a, k):
            d = a[0].data
            if d[0] == "host":
                return lift(host_call(i, getattr(d[1], n), *[pure_const(x) for x in a[1:]]))
            return Opaque("date." + n)
        return nf(n, f)
    dc = mkcls(it, "date", "datetime", new=new)
    dt = mkcls(it, "datetime", "datetime", base=dc, new=new)
    td = mkcls(it, "timedelta", "datetime", new=new)
    tm = mkcls(it, "time", "datetime", new=new)
    for c in (dc, dt):
        for n in ("year", "month", "day"):
            c.ns[n] = attr(n)
        for n in ("isoformat", "strftime", "weekday", "toordinal", "__str__"):
            c.ns[n] = hostm(n)
        c.ns["fromisoformat"] = CMeth(nf("fromisoformat", fromiso))
    def arith(n):
        def f(i, a, k):
            try:
                x, y = (v.data[1] if isinstance(v, Inst) and isinstance(v.data, tuple) and v.data[0] == "host" else pure_const(v) for v in a)
                r = getattr(x, n)(y)
            except Exception:
                return Opaque("datetime arithmetic")
            c = {"date": dc, "datetime": dt, "timedelta": td}.get(type(r).__name__)
            return Inst(c, {}, ("host", r)) if c is not None else r if isinstance(r, (int, float, bool)) else Opaque("datetime arithmetic")
        return nf(n, f)
    for c in (dc, dt, td):
        for n in ("__add__", "__sub__", "__radd__", "__lt__", "__le__", "__gt__", "__ge__", "__eq__"):
            c.ns[n] = arith(n)
    for n in ("now", "utcnow", "today", "fromtimestamp", "strptime"):
        dt.ns[n] = SMeth(nf(n, lambda i, a, k: Opaque("datetime.now")))
    dc.ns["today"] = SMeth(nf("today", lambda i, a, k: Opaque("date.today")))
    return {"date": dc, "datetime": dt, "timedelta": td, "time": tm, "timezone": Opaque("timezone"), "UTC": Opaque("UTC"), "MINYEAR": 1, "MAXYEAR": 9999}


def url_parts(it, v, via="quote_plus", safe=""):
    """text of one urlencoded value"""
    v = force(v)
    import urllib.parse as up
    q = getattr(up, via)
    if isinstance(v, (bytes,)):
        return q(v, safe)
    s = it.str_(v)
    w = s if isinstance(s, str) else const_of(s) if isinstance(s, STR) else None
    if w is not None:
        return host_call(it, q, w, safe)
    return StrCat([Part(url_kind(via, safe), s)])


def url_kind(via, safe):
    """urlq: quote_plus, urlquote: quote; with the characters left as they are"""
    safe = "".join(sorted(set(safe)))
    return ("urlq" if via == "quote_plus" else "urlquote") + (":" + safe if safe else "")


def m_urlparse(it, m):
    import urllib.parse as up

    def urlencode(i, a, k):
        q = force(a[0] if a else k["query"])
        via = arg(a, k, 5, "quote_via", None)
        via = "quote_plus" if via is None else {"quote": "quote", "quote_plus": "quote_plus"}.get(getattr(via, "name", None))
        safe = arg(a, k, 2, "safe", "")
        safe = safe if isinstance(safe, str) else const_of(safe)
        if via is None or not isinstance(safe, str) or arg(a, k, 3, "encoding", None) not in (None, "utf-8", "utf8", "UTF-8"):
            raise Unsupported("urlencode arguments")
        doseq = i.truth(arg(a, k, 1, "doseq", False))
        items = i.dict_items(q) if isinstance(q, PyDict) else [tuple(B.nonrest(i, x)) for x in B.nonrest(i, q)]
        out = []
        for kk, vv in items:
            vs = [vv]
            if doseq and isinstance(force(vv), (PyList, tuple)):
                vs = B.nonrest(i, vv)
            for v in vs:
                if out:
                    out.append("&")
                out += [url_parts(i, kk, via, safe), "=", url_parts(i, v, via, safe)]
        return cat(*out) if out else ""

    def quote(name, kind):
        def f(i, a, k):
            s = force(a[0])
            w = const_of(s) if isinstance(s, STR) else None
            safe = arg(a, k, 1, "safe", "/" if name == "quote" else "")
            if w is not None:
                return host_call(i, getattr(up, name), w, safe)
            if isinstance(s, bytes):
                return getattr(up, name)(s, safe)
            if not isinstance(s, STR + (AbsBytes,)):
                i.throw("TypeError", "quote_from_bytes() expected bytes")
            return StrCat([Part(url_kind(name, safe), s)])
        return nf(name, f)

    def urljoin(i, a, k):
        try:
            return up.urljoin(pure_const(a[0]), pure_const(a[1]))
        except LookupError:
            return StrCat([Part("urljoin", tuple(a))])
    def usplit(name, host):
        def f(i, a, k):
            try:
                r = host_call(i, host, *[pure_const(x) for x in a], **{n: pure_const(x) for n, x in k.items()})
            except LookupError:
                return Opaque(name)
            c = usplit_cls(i, name, r._fields)
            o = i.call(c, list(r), {})
            for n in ("hostname", "port", "username", "password"):
                try:
                    o.attrs[n] = getattr(r, n)
                except ValueError:
                    pass
            return o
        return f

    def usplit_cls(i, name, fields):
        if name not in classes:
            classes[name] = nt_make(i, name, list(fields), {}, {}, "urllib.parse")
            fn = up.urlunparse if name == "ParseResult" else up.urlunsplit
            classes[name].ns["geturl"] = nf("geturl", lambda i2, a, k: ujoin(fn)(i2, a, k))
        return classes[name]
    classes = {}

    def ujoin(fn):
        def f(i, a, k):
            try:
                return host_call(i, fn, [pure_const(x) for x in i.iterate(a[0])])
            except LookupError:
                return StrCat([Part("url", tuple(i.iterate(a[0])))])
        return f
    return {"urlencode": nf("urlencode", urlencode), "quote": quote("quote", "urlquote"), "quote_plus": quote("quote_plus", "urlq"), "unquote": host_fn("unquote", up.unquote), "urljoin": nf("urljoin", urljoin), "urlparse": nf("urlparse", usplit("ParseResult", up.urlparse)), "urlsplit": nf("urlsplit", usplit("SplitResult", up.urlsplit)), "parse_qs": host_fn("parse_qs", up.parse_qs), "parse_qsl": host_fn("parse_qsl", up.parse_qsl), "unquote_plus": host_fn("unquote_plus", up.unquote_plus), "urlunsplit": nf("urlunsplit", ujoin(up.urlunsplit)), "urlunparse": nf("urlunparse", ujoin(up.urlunparse))}


# ------------------------------------------------------------------ requests
def m_requests(it, m):
    ex = it.import_module("requests.exceptions")
    models = it.import_module("requests.models")

    def request(i, a, k, method=None, session=None):
        k = dict(k)
        if method is None:
            method = a[0] if a else k.pop("method")
            url = a[1] if len(a) > 1 else k.pop("url")
            rest = a[2:]
        else:
            url = a[0] if a else k.pop("url")
            rest = a[1:]
        if rest:
            nm = "data" if method in ("post", "put", "patch") else "params"
            k[nm] = rest[0]
        req = {"method": method, "url": url, **k}
        if session is not None:
            req["session_headers"] = session.attrs.get("headers")
            req.setdefault("verify", session.attrs.get("verify", True))
        State.ctx.effects.append(("http", req))
        srv = getattr(State.ctx, "server", None)
        if srv is None:
            raise Unsupported("network request without server model")
        return srv(i, req)

    def verb(v):
        return nf("requests." + v, lambda i, a, k: request(i, a, k, v))
    out = {v: verb(v) for v in ("get", "post", "put", "patch", "delete", "head", "options")}
    out["request"] = nf("requests.request", lambda i, a, k: request(i, a, k))

    def sverb(v):
        return nf(v, lambda i, a, k: request(i, a[1:], k, v, a[0]))
    sess = mkcls(it, "Session", "requests", methods={"request": lambda i, a, k: request(i, a[1:], k, None, a[0]), "close": lambda i, a, k: None, "__enter__": lambda i, a, k: a[0], "__exit__": lambda i, a, k: None, "mount": lambda i, a, k: None}, new=lambda i, c, a, k: Inst(c, {"headers": PyDict(), "verify": True, "cookies": PyDict()}))
    for v in ("get", "post", "put", "patch", "delete", "head", "options"):
        sess.ns[v] = sverb(v)
    out.update({"Session": sess, "session": nf("session", lambda i, a, k: i.call(sess, [], {})), "Response": models.ns["Response"], "exceptions": ex, "RequestException": ex.ns["RequestException"], "ConnectionError": ex.ns["ConnectionError"], "Timeout": ex.ns["Timeout"], "HTTPError": ex.ns["HTTPError"], "JSONDecodeError": ex.ns["JSONDecodeError"], "models": models})
    return out


def m_req_exc(it, m):
    b = it.builtins
    M = "requests.exceptions"
    re_ = PyClass("RequestException", [b["OSError"]], {}, M)
    out = {"RequestException": re_}

    def d(name, bases):
        out[name] = PyClass(name, bases, {}, M)
        return out[name]
    inv = d("InvalidJSONError", [re_])
    jde = it.import_module("json.decoder").ns["JSONDecodeError"]
    d("JSONDecodeError", [inv, jde])
    d("HTTPError", [re_])
    ce = d("ConnectionError", [re_])
    d("ProxyError", [ce])
    d("SSLError", [ce])
    to = d("Timeout", [re_])
    d("ConnectTimeout", [ce, to])
    d("ReadTimeout", [to])
    for n in ("URLRequired", "TooManyRedirects", "ChunkedEncodingError", "ContentDecodingError", "StreamConsumedError", "RetryError", "UnrewindableBodyError"):
        d(n, [re_])
    d("MissingSchema", [re_, b["ValueError"]])
    d("InvalidSchema", [re_, b["ValueError"]])
    iu = d("InvalidURL", [re_, b["ValueError"]])
    d("InvalidHeader", [re_, b["ValueError"]])
    d("InvalidProxyURL", [iu])
    return out


def m_req_models(it, m):
    def jsn(i, a, k):
        return a[0].data["json"](i)

    def rfs(i, a, k):
        if i.compare(">=", a[0].attrs["status_code"], 400):
            i.throw(i.import_module("requests.exceptions").ns["HTTPError"], "http error")

    def iter_content(i, a, k):
        return PyGen(iter([a[0].attrs["content"]]))
    r = mkcls(it, "Response", "requests.models", methods={"json": jsn, "raise_for_status": rfs, "close": lambda i, a, k: None, "iter_content": iter_content, "__enter__": lambda i, a, k: a[0], "__exit__": lambda i, a, k: None})
    r.ns["ok"] = Prop(nf("ok", lambda i, a, k: i.compare("<", a[0].attrs["status_code"], 400)))
    r.ns["text"] = Prop(nf("text", lambda i, a, k: resp_text(i, a[0])))
    r.ns["__bool__"] = nf("__bool__", lambda i, a, k: i.compare("<", a[0].attrs["status_code"], 400))
    return {"Response": r}


def resp_text(i, r):
    c = r.attrs["content"]
    if isinstance(c, bytes):
        return c.decode("utf-8", "replace")
    if "text" not in r.data:
        r.data["text"] = AbsStr(name="response.text")
        if isinstance(c, SrcBytes):
            r.data["text"].tag = c.src
    return r.data["text"]


def response(it, status, src, headers=None):
    """src: Src with a json view"""
    cls = it.import_module("requests.models").ns["Response"]
    content = src if isinstance(src, bytes) else SrcBytes(src)

    def jsn(i):
        if isinstance(src, bytes):
            raise Unsupported("json of constant body")
        try:
            return src.get(i, "json")
        except PyRaise as pr:
            jde = i.import_module("json.decoder").ns["JSONDecodeError"]
            if pr.exc.cls.issub(jde) and pr.exc.cls.module != "requests.exceptions":
                i.throw(i.import_module("requests.exceptions").ns["JSONDecodeError"], *pr.exc.attrs["args"])
            raise
    return Inst(cls, {"status_code": status, "content": content, "headers": headers or PyDict(), "url": "", "reason": AbsStr(name="reason"), "encoding": None}, {"json": jsn})


def m_urllib3(it, m):
    ex = it.import_module("urllib3.exceptions")
    return {"disable_warnings": nf("disable_warnings", lambda i, a, k: None), "exceptions": ex}


def m_urllib3_ex(it, m):
    b = it.builtins
    he = PyClass("HTTPError", [b["Exception"]], {}, "urllib3.exceptions")
    hw = PyClass("HTTPWarning", [b["Warning"]], {}, "urllib3.exceptions")
    return {"HTTPError": he, "HTTPWarning": hw, "InsecureRequestWarning": PyClass("InsecureRequestWarning", [hw], {}, "urllib3.exceptions"), "LocationParseError": PyClass("LocationParseError", [b["ValueError"], he], {}, "urllib3.exceptions")}


def m_fences_util(it, m):
    names = ("valid_accepted", "invalid_accepted", "valid_rejected", "invalid_rejected")

    def new(i, c, a, k):
        return Inst(c, {n: 0 for n in names})

    def iadd(i, a, k):
        for n in names:
            i.setattr_(a[0], n, i.binop("Add", i.getattr_(a[0], n), i.getattr_(a[1], n)))
        return a[0]

    def total(i, a, k):
        r = 0
        for n in names:
            r = i.binop("Add", r, i.getattr_(a[0], n))
        return r
    c = mkcls(it, "ConfusionMatrix", "fences.core.util", methods={"__iadd__": iadd, "__add__": iadd, "total": total, "print": lambda i, a, k: State.ctx.effects.append(("print", "matrix"))}, new=new)
    return {"ConfusionMatrix": c}


# ------------------------------------------------------------------ argparse
class _ArgErr(Exception):
    pass


def m_argparse(it, m):
    import argparse
    ate = exc(it, "ArgumentTypeError", "Exception", "argparse")
    aerr = exc(it, "ArgumentError", "Exception", "argparse")
    nscls = mkcls(it, "Namespace", "argparse", new=lambda i, c, a, k: Inst(c, dict(k)))
    ftcls = mkcls(it, "FileType", "argparse", new=lambda i, c, a, k: Inst(c, {"mode": arg(a, k, 0, "mode", "r")}))

    def ft_call(i, a, k):
        mode = a[0].attrs["mode"]
        p = force(a[1])
        files = getattr(State.ctx, "files", None) or {}
        key = const_of(p) if isinstance(p, STR) else None
        if key is not None and key in files:
            return model_file(i, files[key], "b" not in mode)
        if any(x in mode for x in "wax+"):
            State.ctx.effects.append(("open-write", p, mode))
            return Inst(i.import_module("io").ns["BufferedReader"], {}, {"path": p, "sink": True})
        if files:
            i.throw(ate, cat("can't open '", p, "'"))
        raise Unsupported("FileType of unknown file")
    ftcls.ns["__call__"] = nf("__call__", ft_call)

    def hostify(i, tab, k):
        """argument values handed to the host argument parser model"""
        out = {}
        for n, v in k.items():
            v = force(v)
            if n == "type":
                out[n] = wrap_type(i, tab, v)
            elif n == "choices":
                out[n] = B.nonrest(i, v, "choices")
            elif n in ("default", "const"):
                try:
                    out[n] = pure_const(v)
                    if isinstance(out[n], (list, dict)):
                        out[n] = v
                except LookupError:
                    out[n] = v
            elif n in ("help", "metavar", "dest", "action", "nargs", "required", "version", "description", "prog", "epilog", "title", "allow_abbrev", "add_help", "usage"):
                if isinstance(v, (str, int, bool, type(None))):
                    out[n] = v
                elif n == "action":
                    raise Unsupported("argparse action")
                elif n in ("metavar",) and isinstance(v, tuple):
                    out[n] = v
                else:
                    out[n] = "?" if n in ("help", "description", "epilog", "usage") else v
            else:
                raise Unsupported("argparse option " + n)
        return out

    def wrap_type(i, tab, t):
        if t is None:
            return None

        def f(text):
            v = tab.get(text, text)
            try:
                r = i.call(t, [v], {})
            except PyRaise as pr:
                c = pr.exc.cls
                msg = str(pr.exc.attrs["args"][0]) if pr.exc.attrs.get("args") else ""
                if c.issub(ate):
                    raise argparse.ArgumentTypeError(msg.replace("%", "%%"))
                if c.issub(i.builtins["TypeError"]) or c.issub(i.builtins["ValueError"]):
                    raise ValueError(msg)
                raise
            if isinstance(r, AbsEnum):
                r = r.pick()
            return r
        f.__name__ = getattr(t, "name", "type")
        return f

    class HP(argparse.ArgumentParser):
        def error(self, message):
            raise _ArgErr(message)

        def exit(self, status=0, message=None):
            raise _ArgErr(("exit", status))

        def print_help(self, file=None):
            pass

    def new(i, c, a, k):
        tab = {}
        kk = hostify(i, tab, {n: v for n, v in k.items() if n in ("description", "prog", "epilog", "allow_abbrev", "add_help", "usage")})
        return Inst(c, {}, {"p": HP(**kk), "tab": tab, "root": None})

    def add(i, a, k):
        d = a[0].data
        names = [pure_const(x) for x in a[1:]]
        kw = hostify(i, d["tab"], k)
        if kw.get("type") is None and kw.get("action") is None:
            kw["type"] = lambda text: d["tab"].get(text, text)
        if kw.get("action") in ("store_true", "store_false", "count", "version", "help", "store_const"):
            kw.pop("type", None)
        try:
            d["p"].add_argument(*names, **kw)
        except (ValueError, TypeError) as e:
            i.throw(type(e).__name__, str(e))
        return Opaque("argparse action")

    def group(i, a, k):
        d = a[0].data
        mg = d["p"].add_mutually_exclusive_group(**{n: v for n, v in k.items() if n == "required"}) if k.get("required") is not None else d["p"].add_argument_group()
        return Inst(gcls, {}, {"p": mg, "tab": d["tab"]})

    def mgroup(i, a, k):
        d = a[0].data
        return Inst(gcls, {}, {"p": d["p"].add_mutually_exclusive_group(required=bool(k.get("required"))), "tab": d["tab"]})

    def parse(i, a, k):
        d = a[0].data
        argv = force(arg(a, k, 1, "args"))
        if argv is None:
            argv = i.getitem(i.import_module("sys").ns["argv"], i_slice(1))
        hv = []
        for n, x in enumerate(B.nonrest(i, argv, "argv")):
            x = force(x)
            w = const_of(x) if isinstance(x, STR) else None
            if w is not None:
                hv.append(w)
            else:
                key = f"@abs{n}"
                d["tab"][key] = x
                hv.append(key)
        try:
            r = d["p"].parse_args(hv)
        except _ArgErr as e:
            msg = e.args[0]
            if isinstance(msg, tuple):
                i.throw("SystemExit", msg[1])
            State.ctx.effects.append(("stderr", "usage: " + msg))
            i.throw("SystemExit", 2)
        out = Inst(nscls, {})
        for n, v in vars(r).items():
            if isinstance(v, list):
                v = PyList([d["tab"].get(x, x) if isinstance(x, str) else x for x in v])
            elif isinstance(v, str):
                v = d["tab"].get(v, v)
            elif isinstance(v, dict):
                v = lift(v)
            out.attrs[n] = v
        return out

    def perror(i, a, k):
        State.ctx.effects.append(("stderr", a[1]))
        i.throw("SystemExit", 2)

    def pexit(i, a, k):
        i.throw("SystemExit", arg(a, k, 1, "status", 0))

    def subparsers(i, a, k):
        raise Unsupported("argparse subparsers")
    meth = {"add_argument": add, "parse_args": parse, "error": perror, "exit": pexit, "add_argument_group": group, "add_mutually_exclusive_group": mgroup, "add_subparsers": subparsers, "print_help": lambda i, a, k: State.ctx.effects.append(("print", "help")), "print_usage": lambda i, a, k: State.ctx.effects.append(("print", "usage")), "format_help": lambda i, a, k: "help", "format_usage": lambda i, a, k: "usage"}
    pcls = mkcls(it, "ArgumentParser", "argparse", methods=meth, new=new)
    gcls = mkcls(it, "_ArgumentGroup", "argparse", methods={"add_argument": add, "add_mutually_exclusive_group": mgroup})
    return {"ArgumentParser": pcls, "ArgumentTypeError": ate, "ArgumentError": aerr, "Namespace": nscls, "FileType": ftcls, "RawDescriptionHelpFormatter": Opaque("fmt"), "ArgumentDefaultsHelpFormatter": Opaque("fmt"), "REMAINDER": "...", "SUPPRESS": "==SUPPRESS=="}


def i_slice(a):
    from .interp import SliceV
    return SliceV(a, None, None)


def m_logging(it, m):
    def log(i, a, k):
        State.ctx.effects.append(("log",) + tuple(a[-1:]))
    lg = mkcls(it, "Logger", "logging", methods={n: log for n in ("debug", "info", "warning", "error", "critical", "exception", "log", "setLevel", "addHandler")})
    inst = Inst(lg)
    out = {n: nf(n, log) for n in ("debug", "info", "warning", "error", "critical", "exception", "log", "basicConfig")}
    out["getLogger"] = nf("getLogger", lambda i, a, k: inst)
    for n, v in (("DEBUG", 10), ("INFO", 20), ("WARNING", 30), ("ERROR", 40), ("CRITICAL", 50)):
        out[n] = v
    return out


def m_types(it, m):
    b = it.builtins
    return {"FunctionType": b["function"], "MethodType": b["method"], "NoneType": b["NoneType"], "ModuleType": b["module"], "GeneratorType": b["generator"], "SimpleNamespace": from_source(it, "types", SIMPLENS_SRC)["SimpleNamespace"], "MappingProxyType": from_source(it, "types", SIMPLENS_SRC)["mappingproxy"], "TracebackType": b["object"]}


def m_zlib(it, m):
    return {"error": exc(it, "error", "Exception", "zlib"), "crc32": Opaque("crc32"), "decompress": Opaque("decompress")}


def m_lzma(it, m):
    return {"LZMAError": exc(it, "LZMAError", "Exception", "lzma")}


def m_struct(it, m):
    return {"error": exc(it, "error", "Exception", "struct"), "unpack": Opaque("unpack"), "pack": Opaque("pack")}


def m_warnings(it, m):
    def w(i, a, k):
        State.ctx.effects.append(("warn", a[0] if a else None))
    return {"warn": nf("warn", w), "simplefilter": nf("simplefilter", lambda i, a, k: None), "filterwarnings": nf("filterwarnings", lambda i, a, k: None), "catch_warnings": Opaque("catch_warnings")}


def m_time(it, m):
    t = lambda i, a, k: AbsFloat()
    return {"time": nf("time", t), "monotonic": nf("monotonic", t), "perf_counter": nf("perf_counter", t), "sleep": nf("sleep", lambda i, a, k: State.ctx.effects.append(("sleep",)))}


def m_traceback(it, m):
    return {"format_exc": nf("format_exc", lambda i, a, k: AbsStr(name="traceback")), "print_exc": nf("print_exc", lambda i, a, k: State.ctx.effects.append(("stderr", "traceback"))), "format_exception": nf("x", lambda i, a, k: PyList([AbsStr(name="traceback")]))}


def m_empty(it, m):
    return {}


PATH_SRC = """
import os as _os
class PurePath:
    def __init__(self, *parts):
        ps = [p.p if isinstance(p, PurePath) else p for p in parts]
        j = _os.path.join(*ps) if ps else '.'
        self.p = _norm(j)
    def __fspath__(self): return self.p
    def __str__(self): return self.p
    def __repr__(self): return type(self).__name__ + "(" + repr(self.p) + ")"
    def __eq__(self, o): return isinstance(o, PurePath) and self.p == o.p
    def __hash__(self): return hash(self.p)
    def __lt__(self, o): return self.p < o.p
    def __truediv__(self, o): return type(self)(self.p, o)
    def __rtruediv__(self, o): return type(self)(o, self.p)
    def joinpath(self, *o): return type(self)(self.p, *o)
    def as_posix(self): return self.p
    def is_absolute(self): return self.p.startswith("/")
    @property
    def name(self): return "" if self.p in (".", "/") else _os.path.basename(self.p)
    @property
    def suffix(self): return _os.path.splitext(self.name)[1]
    @property
    def stem(self): return _os.path.splitext(self.name)[0]
    @property
    def parent(self): return type(self)(_os.path.dirname(self.p) or (self.p if self.p == "/" else "."))
    @property
    def parts(self): return tuple((["/"] if self.p.startswith("/") else []) + [x for x in self.p.split("/") if x and x != "."])
    def with_suffix(self, s): return type(self)(self.parent, self.stem + s)
    def with_name(self, n): return type(self)(self.parent, n)
class Path(PurePath):
    def exists(self): return _os.path.exists(self.p)
    def is_file(self): return _os.path.isfile(self.p)
    def is_dir(self): return _os.path.isdir(self.p)
    def resolve(self, strict=False): return type(self)(_os.path.realpath(self.p))
    def absolute(self): return type(self)(_os.path.abspath(self.p))
    def open(self, mode="r", *a, **k): return open(self.p, mode, *a, **k)
    def read_text(self, encoding=None, errors=None):
        with open(self.p, "r", encoding=encoding) as f:
            return f.read()
    def read_bytes(self):
        with open(self.p, "rb") as f:
            return f.read()
    def write_text(self, t, encoding=None, errors=None):
        with open(self.p, "w", encoding=encoding) as f:
            return f.write(t)
PurePosixPath = PurePath
PosixPath = Path
"""


def m_pathlib(it, m):
    import ast
    import pathlib
    from .interp import Scope, Frame
    mod = PyModule("pathlib")

    def norm(i, a, k):
        w = const_of(force(a[0]))
        return str(pathlib.PurePosixPath(w)) if w is not None else a[0]
    mod.ns.update({"__name__": "pathlib", "_norm": nf("_norm", norm)})
    sc = Scope("module", None, mod)
    sc.clsname = None
    was, State.loading = State.loading, True
    try:
        it.compile_block(ast.parse(PATH_SRC, "<pathlib>").body, sc)(Frame(mod.ns, None, mod.ns))
    finally:
        State.loading = was
    return mod.ns


CAL_SRC = """
class IllegalMonthError(ValueError): pass
mdays = [0, 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]
January = 1
February = 2
def isleap(year):
    return year % 4 == 0 and (year % 100 != 0 or year % 400 == 0)
def monthrange(year, month):
    if not 1 <= month <= 12:
        raise IllegalMonthError(month)
    return None, mdays[month] + (month == 2 and isleap(year))
"""


def m_calendar(it, m):
    import ast
    from .interp import Scope, Frame
    mod = PyModule("calendar")
    mod.ns["__name__"] = "calendar"
    sc = Scope("module", None, mod)
    sc.clsname = None
    was, State.loading = State.loading, True
    try:
        it.compile_block(ast.parse(CAL_SRC, "<calendar>").body, sc)(Frame(mod.ns, None, mod.ns))
    finally:
        State.loading = was
    return mod.ns


SIMPLENS_SRC = """
class SimpleNamespace:
    def __init__(self, /, **kwargs): self.__dict__.update(kwargs)
    def __repr__(self): return "namespace(" + ", ".join(f"{k}={v!r}" for k, v in self.__dict__.items()) + ")"
    def __eq__(self, other): return isinstance(other, SimpleNamespace) and self.__dict__ == other.__dict__
class mappingproxy:
    def __init__(self, mapping): self._m = mapping
    def __getitem__(self, key): return self._m[key]
    def __contains__(self, key): return key in self._m
    def __iter__(self): return iter(self._m)
    def __len__(self): return len(self._m)
    def __eq__(self, other): return self._m == (other._m if isinstance(other, mappingproxy) else other)
    def __or__(self, other): return self._m | other
    def __repr__(self): return "mappingproxy(" + repr(self._m) + ")"
    def get(self, key, default=None): return self._m.get(key, default)
    def keys(self): return self._m.keys()
    def values(self): return self._m.values()
    def items(self): return self._m.items()
    def copy(self): return self._m.copy()
"""

ABC_SRC = """
class Mapping:
    def get(self, key, default=None):
        try:
            return self[key]
        except KeyError:
            return default
    def __contains__(self, key):
        try:
            self[key]
        except KeyError:
            return False
        return True
    def keys(self): return [k for k in self]
    def items(self): return [(k, self[k]) for k in self]
    def values(self): return [self[k] for k in self]
    def __eq__(self, other):
        return dict(self.items()) == (other if isinstance(other, dict) else dict(other.items()))
class MutableMapping(Mapping):
    _none = object()
    def pop(self, key, default=_none):
        try:
            value = self[key]
        except KeyError:
            if default is self._none:
                raise
            return default
        del self[key]
        return value
    def popitem(self):
        for key in self:
            value = self[key]
            del self[key]
            return key, value
        raise KeyError
    def clear(self):
        for key in list(self):
            del self[key]
    def update(self, other=(), /, **kwds):
        if hasattr(other, "keys"):
            for key in other.keys():
                self[key] = other[key]
        else:
            for key, value in other:
                self[key] = value
        for key, value in kwds.items():
            self[key] = value
    def setdefault(self, key, default=None):
        try:
            return self[key]
        except KeyError:
            self[key] = default
        return default
"""

COLLECTIONS_SRC = ABC_SRC + """
class UserDict(MutableMapping):
    def __init__(self, dict=None, /, **kwargs):
        self.data = {}
        if dict is not None:
            self.update(dict)
        if kwargs:
            self.update(kwargs)
    def __len__(self): return len(self.data)
    def __getitem__(self, key):
        if key in self.data:
            return self.data[key]
        if hasattr(self.__class__, "__missing__"):
            return self.__class__.__missing__(self, key)
        raise KeyError(key)
    def __setitem__(self, key, item): self.data[key] = item
    def __delitem__(self, key): del self.data[key]
    def __iter__(self): return iter(self.data)
    def __contains__(self, key): return key in self.data
    def get(self, key, default=None):
        if key in self:
            return self[key]
        return default
    def __repr__(self): return repr(self.data)
    def copy(self):
        result = self.__class__()
        result.data = self.data.copy()
        return result
class ChainMap(MutableMapping):
    def __init__(self, *maps):
        self.maps = list(maps) or [{}]
    def __missing__(self, key): raise KeyError(key)
    def __getitem__(self, key):
        for mapping in self.maps:
            if key in mapping:
                return mapping[key]
        return self.__missing__(key)
    def get(self, key, default=None): return self[key] if key in self else default
    def __len__(self): return len(list(iter(self)))
    def __iter__(self):
        d = {}
        for mapping in reversed(self.maps):
            d.update(dict.fromkeys(mapping))
        return iter(d)
    def __contains__(self, key): return any(key in m for m in self.maps)
    def __bool__(self): return any(self.maps)
    def __setitem__(self, key, value): self.maps[0][key] = value
    def __delitem__(self, key): del self.maps[0][key]
    def new_child(self, m=None, **kw):
        return self.__class__({**(m or {}), **kw}, *self.maps)
    @property
    def parents(self): return self.__class__(*self.maps[1:])
class BoundedDeque:
    def __init__(self, iterable=(), maxlen=None):
        self.maxlen = maxlen
        self.items = []
        self.extend(iterable)
    def append(self, x):
        self.items.append(x)
        if len(self.items) > self.maxlen:
            del self.items[0]
    def appendleft(self, x):
        self.items.insert(0, x)
        if len(self.items) > self.maxlen:
            del self.items[-1]
    def extend(self, xs):
        for x in xs:
            self.append(x)
    def pop(self): return self.items.pop()
    def popleft(self): return self.items.pop(0)
    def clear(self): self.items.clear()
    def __len__(self): return len(self.items)
    def __iter__(self): return iter(self.items)
    def __getitem__(self, i): return self.items[i]
    def __setitem__(self, i, v): self.items[i] = v
    def __contains__(self, x): return x in self.items
"""

USERLIST_SRC = """
class UserList:
    def __init__(self, initlist=None):
        self.data = [] if initlist is None else list(initlist)
    def __repr__(self): return repr(self.data)
    def __eq__(self, other): return self.data == (other.data if isinstance(other, UserList) else other)
    def __contains__(self, item): return item in self.data
    def __len__(self): return len(self.data)
    def __getitem__(self, i): return self.__class__(self.data[i]) if isinstance(i, slice) else self.data[i]
    def __setitem__(self, i, item): self.data[i] = item
    def __delitem__(self, i): del self.data[i]
    def __iter__(self): return iter(self.data)
    def __reversed__(self): return reversed(self.data)
    def append(self, item): self.data.append(item)
    def insert(self, i, item): self.data.insert(i, item)
    def pop(self, i=-1): return self.data.pop(i)
    def remove(self, item): self.data.remove(item)
    def clear(self): self.data.clear()
    def copy(self): return self.__class__(self.data)
    def count(self, item): return self.data.count(item)
    def index(self, item, *args): return self.data.index(item, *args)
    def reverse(self): self.data.reverse()
    def extend(self, other): self.data.extend(other)
"""


def from_source(it, name, src):
    import ast
    from .interp import Scope, Frame
    mod = PyModule(name)
    mod.ns["__name__"] = name
    sc = Scope("module", None, mod)
    sc.clsname = None
    was, State.loading = State.loading, True
    try:
        it.compile_block(ast.parse(src, f"<{name}>").body, sc)(Frame(mod.ns, None, mod.ns))
    finally:
        State.loading = was
    return mod.ns


def m_threading(it, m):
    def local_new(i, cls, a, k):
        o = Inst(cls)
        (State.tlocals if State.loading else State.ctx.tlocals).append((o, list(a), dict(k)))
        i.init(o, cls, a, k)
        return o
    loc = mkcls(it, "local", "threading", new=local_new)
    me = lambda i, a, k: a[0]
    lock = {"acquire": lambda i, a, k: True, "release": lambda i, a, k: None, "locked": lambda i, a, k: False, "__enter__": me, "__exit__": lambda i, a, k: None}
    lk, rl = mkcls(it, "Lock", "threading", methods=lock), mkcls(it, "RLock", "threading", methods=lock)
    tc = mkcls(it, "Thread", "threading", new=lambda i, c, a, k: (_ for _ in ()).throw(Unsupported("starting a thread")))

    def ident(i, a, k):
        return 140000000 + State.ctx.thread

    def current(i, a, k):
        t = State.ctx.thread
        return Inst(tc, {"ident": 140000000 + t, "native_id": 1000 + t, "name": "MainThread" if t == 0 else f"Thread-{t}", "daemon": False})
    return {"local": loc, "Lock": lk, "RLock": rl, "Thread": tc, "get_ident": nf("get_ident", ident), "get_native_id": nf("get_native_id", ident), "current_thread": nf("current_thread", current),
            "main_thread": nf("main_thread", lambda i, a, k: Inst(tc, {"ident": 140000000, "name": "MainThread"}))}


def m_contextvars(it, m):
    """every thread starts with an empty context"""
    def new(i, c, a, k):
        return Inst(c, {"name": a[0] if a else k.get("name")}, {"default": k.get("default", NotImplemented), "load": NotImplemented})

    def cur(v):
        x = State.ctx.cvars.get((id(v), State.ctx.thread), NotImplemented)
        return v.data["load"] if x is NotImplemented and State.ctx.thread == 0 else x

    def get(i, a, k):
        x = cur(a[0])
        if x is None.__class__:
            x = NotImplemented
        if x is NotImplemented:
            if len(a) > 1:
                return a[1]
            if a[0].data["default"] is NotImplemented:
                i.throw("LookupError", a[0])
            return a[0].data["default"]
        return x

    def put(i, v, x):
        if State.loading:
            v.data["load"] = x
        else:
            State.ctx.cvars[(id(v), State.ctx.thread)] = x

    def set_(i, a, k):
        old = cur(a[0])
        put(i, a[0], a[1])
        return Inst(tok, {}, (a[0], old))

    def reset(i, a, k):
        v, old = a[1].data
        put(i, v, type(None) if old is NotImplemented else old)
    tok = mkcls(it, "Token", "contextvars")
    cv = mkcls(it, "ContextVar", "contextvars", methods={"get": get, "set": set_, "reset": reset}, new=new)
    return {"ContextVar": cv, "Token": tok}


MODULES = {
    "threading": m_threading, "contextvars": m_contextvars,
    "pathlib": m_pathlib, "posixpath": lambda it, m: it.import_module("os") and it.import_module("os.path").ns,
    "typing": m_typing, "enum": m_enum, "dataclasses": m_dataclasses, "re": m_re, "fnmatch": m_fnmatch, "inspect": m_inspect, "abc": m_abc, "functools": m_functools, "itertools": m_itertools, "contextlib": m_contextlib,
    "operator": m_operator, "copy": m_copy, "collections": m_collections, "collections.abc": m_collections_abc, "io": m_io, "json": m_json, "json.decoder": m_json_decoder, "xml": m_empty, "xml.etree": m_empty, "xml.etree.ElementTree": m_et,
    "zipfile": m_zipfile, "os": m_os, "os.path": m_os_path, "sys": m_sys, "html": m_html, "base64": m_base64, "binascii": m_binascii, "decimal": m_decimal, "datetime": m_datetime, "urllib": m_empty, "urllib.parse": m_urlparse,
    "requests": m_requests, "requests.exceptions": m_req_exc, "requests.models": m_req_models, "urllib3": m_urllib3, "urllib3.exceptions": m_urllib3_ex, "fences": m_empty, "fences.core": m_empty, "fences.core.util": m_fences_util,
    "argparse": m_argparse, "logging": m_logging, "types": m_types, "zlib": m_zlib, "lzma": m_lzma, "struct": m_struct, "warnings": m_warnings, "time": m_time, "traceback": m_traceback, "__future__": lambda it, m: {"annotations": None},
    "calendar": m_calendar, "math": m_empty, "string": m_empty, "textwrap": m_empty, "typing_extensions": m_typing,
}


def setup(interp):
    interp.builtins["open"] = Native("open", open_)
