#!/usr/bin/env python3
"""validates the analyser against CPython: dev/diff/*.py define functions t_*() without arguments; both must give the same value
(snippets of our own; no code of /repo is involved)"""
import glob, os, sys, threading
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.setrecursionlimit(20000)
from checks.common import *
from absint import explore as X
v = "-v" in sys.argv
sel = [a for a in sys.argv[1:] if not a.startswith("-")]


class Rep(str):
    __repr__ = str.__str__


def plain(it, x):
    x = core.force(x)
    if isinstance(x, PyList):
        return [plain(it, y) for y in B.iterate(it, x)]
    if isinstance(x, tuple):
        return tuple(plain(it, y) for y in x)
    if isinstance(x, PyDict) or type(x).__name__ == "NsDict":
        return {plain(it, k): plain(it, w) for k, w in it.dict_items(x)}
    if isinstance(x, core.PySet):
        return {plain(it, y) for y in B.iterate(it, x)}
    if isinstance(x, (str, int, float, bool, bytes, type(None))):
        return x
    if isinstance(x, B.STR if hasattr(B, "STR") else ()):
        w = B.const_of(x)
        if w is not None:
            return w
    if isinstance(x, core.Inst) and x.cls.members is None or isinstance(x, core.PyClass):
        return Rep(str(B.const_of(it.repr_(x))))
    try:
        return B.const_of(x) if B.const_of(x) is not None else plain(it, it.str_(x)) if isinstance(x, core.StrCat) else ("?", type(x).__name__, show(x))
    except Exception:
        return ("?", type(x).__name__, show(x))


def main():
    n = bad = uns = 0
    for f in sorted(glob.glob(ROOT + "/dev/diff/*.py")):
        src = open(f).read()
        g = {"__name__": "__client__"}
        exec(compile(src, f, "exec"), g)
        interp()
        try:
            ns = client(src)
        except Exception as e:
            print("LOAD", os.path.basename(f), type(e).__name__, e)
            import traceback
            traceback.print_exc()
            continue
        for k, fn in list(g.items()):
            if not k.startswith("t_") or sel and not any(s in k for s in sel):
                continue
            n += 1
            try:
                exp = ("ok", fn())
            except BaseException as e:
                exp = ("raise", type(e).__name__, str(e))
            got = []

            def run(it, k=k):
                a, b = attempt(ns[k])
                got.append(("ok", plain(it, b)) if a == "ok" else ("raise", b.cls.name, plain(it, it.str_(b))))
            try:
                r = X.explore(interp(), k, run, max_paths=20, max_steps=200000, max_seconds=10)
                why = r.undecided[0].msg if r.undecided else None
            except Exception as e:
                why = f"internal {type(e).__name__}: {e}"
                if v:
                    import traceback
                    traceback.print_exc()
            if why:
                uns += 1
                print("UNSUPPORTED", os.path.basename(f), k, why)
            elif len(got) != 1 or repr(got[0]) != repr(exp):
                if got and got[0] == exp and "set" in k:
                    continue
                bad += 1
                print("DIFFERENT", os.path.basename(f), k, "\n   expected", str(exp)[:600], "\n   got     ", str(got[:3])[:600])
    print(n, "snippets,", bad, "different,", uns, "unsupported")


main()
