import collections, contextlib, copy, enum, functools, io, itertools, json, operator, os, re, string, textwrap, html, base64
from collections import OrderedDict, defaultdict, deque, namedtuple, Counter
from dataclasses import dataclass, field, fields, asdict, replace, is_dataclass
from enum import Enum, IntEnum, Flag, auto
from typing import *


def t_comp1(): return [x * y for x in range(4) for y in range(x) if x != y]
def t_comp2(): return {k: v for k, v in zip("abc", range(3)) if v}
def t_comp3(): return sorted({x % 3 for x in range(10)})
def t_gen1(): return list(x for x in "abc" if x != "b")
def t_gen2():
    def g(n):
        for i in range(n):
            r = yield i
            if r:
                yield r
    it = g(3)
    return [next(it), it.send("x"), next(it), list(it)]
def t_gen3():
    def g():
        try:
            yield 1
            yield 2
        finally:
            log.append("end")
    log = []
    for x in g():
        break
    y = g()
    next(y)
    y.close()
    return log[-1:]
def t_gen4():
    def inner():
        x = yield 1
        return x
    def outer():
        r = yield from inner()
        yield ("got", r)
    o = outer()
    return [next(o), o.send(5)]
def t_gen5():
    def g():
        yield from [1, 2]
        yield from (x for x in "ab")
        return 3
    return list(g())
def t_genstop():
    it = iter([1])
    next(it)
    try:
        next(it)
    except StopIteration as e:
        return repr(e.value)
def t_nextdefault(): return next(iter([]), "d"), next((x for x in [1, 2, 3] if x > 1), None)
def t_walrus():
    out = []
    while (n := len(out)) < 3:
        out.append(n)
    return out, [y for x in range(4) if (y := x * 2) > 2]
def t_tryelse():
    out = []
    for x in (1, 0):
        try:
            out.append(1 // x)
        except ZeroDivisionError as e:
            out.append(str(e))
        else:
            out.append("else")
        finally:
            out.append("fin")
    return out
def t_tryreturn():
    def f():
        try:
            return "a"
        finally:
            log.append("f")
    log = []
    return f(), log
def t_finallyoverride():
    def f():
        for i in range(3):
            try:
                if i == 1:
                    return i
            finally:
                if i == 0:
                    continue
        return "end"
    return f()
def t_forelse():
    out = []
    for n in range(2, 6):
        for m in range(2, n):
            if n % m == 0:
                break
        else:
            out.append(n)
    return out
def t_whileelse():
    i = 0
    while i < 3:
        i += 1
    else:
        return "done", i
def t_nonlocal():
    c = 0
    def inc(d=1):
        nonlocal c
        c += d
        return c
    inc(); inc(5)
    return c
G = 1
def t_global():
    def f():
        global G
        G = G + 1
        return G
    x = f()
    return x > 1
def t_star():
    def f(a, b=2, *args, c, d=4, **kw):
        return a, b, args, c, d, sorted(kw.items())
    return f(1, c=3), f(1, 2, 3, 4, c=5, e=6), f(*[1, 2], **{"c": 3, "z": 9})
def t_star2():
    a, *b, c = range(5)
    (d, e), f = [1, 2], 3
    return a, b, c, d, e, f, [*b, *"xy"], {**{"a": 1}, "b": 2}, (*b,)
def t_kwonly():
    def f(a, /, b, *, c=1):
        return a + b + c
    return f(1, b=2), f(1, 2, c=3)
def t_badcall():
    def f(a): return a
    return f()
def t_badcall2():
    def f(a): return a
    return f(1, b=2)
def t_unpackerr():
    a, b = [1, 2, 3]
def t_unpackerr2():
    a, b = [1]
def t_defaults():
    def f(x, acc=[]):
        acc.append(x)
        return acc
    f(1)
    return f(2)
def t_closureloop():
    fs = [lambda: i for i in range(3)]
    gs = [lambda i=i: i for i in range(3)]
    return [f() for f in fs], [g() for g in gs]
def t_chain(): return 1 < 2 < 3, 1 < 3 < 2, 3 > 2 == 2, 1 in [1] in [[1]]
def t_bool(): return (0 or "a"), ("" and 1), (not []), (None or 0 or []), bool("0"), bool(0.0), True + True
def t_ternary(): return ["y" if x else "n" for x in (0, 1)]
def t_cmp(): return [1, 2] < [1, 3], (1,) < (1, 0), "a" < "b", [] == [], {1: 2} == {1: 2}, {1, 2} >= {1}, None == 0
def t_is(): return None is None, [] is [], "a" is not None
def t_slice():
    l = list(range(6))
    s = "abcdef"
    return l[1:4], l[::-1], l[-2:], l[::2], s[1:-1], s[::-1], s[:0], s[10:], l[5:1:-2], (1, 2, 3)[1:]
def t_sliceassign():
    l = list(range(5))
    l[1:3] = "xyz"
    del l[0]
    l[:0] = [9]
    return l
def t_del():
    d = {"a": 1, "b": 2}
    del d["a"]
    l = [1, 2, 3]
    del l[1:]
    return d, l
def t_aug():
    a = [1]
    b = a
    b += [2]
    c = (1,)
    c += (2,)
    s = "a"
    s *= 3
    n = 7
    n //= 2
    n **= 2
    n |= 4
    n ^= 1
    n <<= 2
    return a, c, s, n
def t_math(): return 7 // 2, -7 // 2, 7 % 3, -7 % 3, 2 ** 10, 7 / 2, divmod(-7, 2), abs(-3), round(2.5), round(2.567, 2), pow(2, 5, 7), int("12"), int("ff", 16), int(" 7 "), float("1.5"), ~5, 6 & 3, 6 | 1, 1 << 4, -5 >> 1
def t_minmax(): return min([3, 1, 2]), max("abc"), min(3, 1), max([], default=0), max(["a", "bbb"], key=len), sum([1, 2], 10), sum([[1], [2]], [])
def t_sorted(): return sorted([3, 1, 2], reverse=True), sorted(["b", "A"], key=str.lower), sorted([(1, "b"), (1, "a")]), sorted({"b": 1, "a": 2}.items(), key=lambda kv: kv[1]), list(reversed([1, 2]))
def t_sortstable():
    l = [("a", 2), ("b", 1), ("c", 2)]
    l.sort(key=lambda x: x[1], reverse=True)
    return l
def t_zip(): return list(zip([1, 2], "ab", (True, False))), list(zip(*[(1, 2), (3, 4)])), list(enumerate("ab", 1)), list(zip([1, 2, 3], "a"))
def t_mapfilter(): return list(map(str, [1, 2])), list(filter(None, [0, 1, "", "a"])), list(map(lambda a, b: a + b, [1, 2], [3, 4])), list(filter(lambda x: x > 1, [1, 2]))
def t_anyall(): return any([]), all([]), any(x > 1 for x in [1, 2]), all(x for x in [1, 0])
def t_list():
    l = [3, 1]
    l.append(2); l.extend("ab"); l.insert(0, "z"); l.remove(1)
    p = l.pop(); q = l.pop(0)
    return l, p, q, l.index(2), l.count(3), l.copy(), [1, 2] * 2, [1] + [2], 2 in l
def t_listerr(): return [1].remove(2)
def t_listerr2(): return [].pop()
def t_listerr3(): return [1][5]
def t_listerr4(): return [1].index(3)
def t_dict():
    d = {"a": 1}
    d.update(b=2); d.update({"c": 3}); d.update([("d", 4)])
    x = d.pop("a"); y = d.pop("zz", None); z = d.setdefault("e", []); d.setdefault("e", 1)
    z.append(1)
    return d, x, y, list(d), list(d.keys()), list(d.values()), list(d.items()), d.get("q"), d.get("q", 1), len(d), "b" in d, dict(a=1), dict([("x", 1)]), dict.fromkeys("ab", 0), {"a": 1} | {"b": 2}
def t_dictnone(): return None in {None: 1}, {None: 1}[None], {None: 1}.get(None), {1: "a"}.get(True), {(1, 2): 3}[(1, 2)]
def t_dicterr(): return {}["x"]
def t_dicterr2(): return {}.pop("x")
def t_dicterr3(): return {[]: 1}
def t_dictiter():
    d = {"a": 1, "b": 2}
    for k in d:
        if k == "a":
            d["c"] = 1
def t_popitem():
    d = {"a": 1, "b": 2}
    return d.popitem(), d
def t_set():
    s = {1, 2}
    s.add(3); s.discard(9); s.remove(1); s.update([7])
    return sorted(s), sorted(s | {4}), sorted(s & {2}), sorted(s - {2}), sorted(s ^ {2, 8}), s.issubset({2, 3, 7}), frozenset([1]) == {1}, len(set("aab")), sorted(s.union([5], [6])), sorted(s.difference([2])), sorted(s.intersection([2, 3])), {1} < {1, 2}, s.isdisjoint({99})
def t_seterr(): return set().remove(1)
def t_str1(): return "a,b,,c".split(","), "a b  c".split(), "a,b,c".split(",", 1), "a,b,c".rsplit(",", 1), "a=b=c".partition("="), "a=b=c".rpartition("="), "abc".partition("x"), " a ".strip(), "xxaxx".strip("x"), "xxa".lstrip("x"), "axx".rstrip("x"), "a\nb\r\nc".splitlines(), "a\nb".splitlines(True)
def t_str2(): return "abc".find("c"), "abc".find("z"), "abcabc".rfind("b"), "abc".index("b"), "aXbX".replace("X", "-"), "aXbX".replace("X", "-", 1), "abc".upper(), "ABC".lower(), "abc def".title(), "abc".capitalize(), "aBc".swapcase(), "ß".casefold(), "abc".count("b"), "abc".startswith(("x", "a")), "abc".endswith("bc"), "abc".startswith("b", 1), "12".zfill(5), "a".center(5, "*"), "a".ljust(3) + "|", "a".rjust(3, "."), "-".join(["a", "b"]), "abc" * 2, "b" in "abc"
def t_str3(): return "abc".isalpha(), "12".isdigit(), "a1".isalnum(), " ".isspace(), "Abc".isidentifier(), "abc".islower(), "ABC".isupper(), "".isdigit(), "²".isdigit(), "²".isdecimal(), "a".isascii(), "abc".removeprefix("a"), "abc".removesuffix("bc"), "a\tb".expandtabs(4), "abc".translate(str.maketrans("ab", "xy")), "abc".translate({97: None}), "é".encode("utf-8"), "a-b".translate(str.maketrans({"-": "--"}))
def t_str4(): return "%s %d %5.2f %r %%" % ("a", 3, 1.5, "x"), "{} {1}".format if False else "{0} {1} {0}".format("a", "b"), "{a!r:>5}".format(a="x"), "{:>5}|{:<5}|{:^5}".format("a", "b", "c"), "{:05d}".format(42), "{:.2f}".format(3.14159), "{:x}".format(255), "{:,}".format(1234567), "{0[a]} {1.real}".format({"a": 1}, 5), "%(a)s" % {"a": 1}, "%-5s|" % "a", "%05d" % 7
def t_fstr():
    x, n, w = "a", 3.14159, 8
    return f"{x}", f"{x!r}", f"{n:.2f}", f"{n:{w}.1f}", f"{x:>{w}}", f"{{}}", f"{x=}", f"{[1, 2]}", f"{ {'a': 1}['a'] }", f"{'nested ' + f'{x}'}", f"{1 + 1:03d}", f"{None} {True}"
def t_strerr(): return "abc".index("z")
def t_strerr2(): return "a" + 1
def t_strerr3(): return ",".join([1])
def t_strerr4(): return int("x")
def t_strerr5(): return "abc"[5]
def t_strmul(): return "ab" * 0, "-" * 3, 2 * "x"
def t_bytes(): return b"abc".decode(), b"a" + b"b", b"abc"[0], b"abc"[1:], list(b"ab"), bytes([97]), "ä".encode("latin-1"), b"a,b".split(b","), b"ab".hex(), b"abc".startswith(b"a")
def t_byteserr(): return b"\xff".decode("utf-8")
def t_chr(): return ord("a"), chr(97), hex(255), bin(5), oct(8), repr("a'b"), repr(b"x"), ascii("é"), str(1.0), repr([1, "a", None]), str({"a": (1,)}), repr({1}), str(1e20), repr(0.1)
def t_isinst(): return isinstance(1, int), isinstance(True, int), isinstance("a", (int, str)), isinstance([], list), issubclass(bool, int), type(1) is int, type("a").__name__, callable(len), isinstance(None, type(None))
def t_hash(): return hash("a") == hash("a"), hash((1, 2)) == hash((1, 2)), id(None) == id(None)
def t_getattr():
    class A: x = 1
    a = A()
    setattr(a, "y", 2)
    r = getattr(a, "x"), getattr(a, "z", 3), hasattr(a, "y"), hasattr(a, "q"), a.__dict__, vars(a)
    delattr(a, "y")
    return r, hasattr(a, "y")
def t_attrerr():
    class A: pass
    return A().foo
def t_nameerr(): return undefined_name
def t_unbound():
    if False:
        x = 1
    return x
def t_typeerr(): return len(5)
def t_typeerr2(): return None.foo
def t_typeerr3(): return [1]["a"]
def t_typeerr4(): return 5()
def t_typeerr5(): return None[0]
def t_typeerr6(): return 1 < "a"
def t_typeerr7(): return sorted([1, "a"])
def t_typeerr8():
    for x in 5: pass
