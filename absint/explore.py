"""Depth-first enumeration of the abstract paths of one obligation."""
import time
from . import core, builtins_ as B
from .core import State, Ctx, Infeasible, Unsupported, PyRaise, Inst, AbsStr, PyClass
from .rx import TooComplex, Unsupp


class Violation(Exception):
    def __init__(self, msg, construct=None, key=None):
        super().__init__(msg)
        self.msg = msg
        self.construct = construct
        self.key = key


class Path:
    __slots__ = ("kind", "msg", "construct", "key", "trace", "taint", "examples", "loc", "stack", "effects", "muts", "funcs")


class Result:
    def __init__(self, name):
        self.name = name
        self.paths = 0
        self.infeasible = 0
        self.undecided = []
        self.violations = []
        self.funcs = {}
        self.steps = 0
        self.truncated = False
        self.wall = 0.0


def undo(trail):
    for o, u in reversed(trail):
        k = u[0]
        if k == "attr":
            if u[2]:
                o.attrs[u[1]] = u[3]
            else:
                o.attrs.pop(u[1], None)
        elif k == "ns":
            if u[2]:
                o.ns[u[1]] = u[3]
            else:
                o.ns.pop(u[1], None)
        elif k == "subclasses":
            if o.subclasses:
                o.subclasses.pop()
        elif k == "items":
            o.items[:] = u[1]
        elif k == "dict":
            o.d.clear()
            o.d.update(u[1])
            o.nabs = u[2]
        elif k == "set":
            o.d.clear()
            o.d.update(u[1])
            o.nabs = u[2]


def exc_text(e):
    x = e.exc if isinstance(e, PyRaise) else e
    a = x.attrs.get("args", ()) if isinstance(x, Inst) else ()
    try:
        t = ", ".join(show(v) for v in (a if isinstance(a, tuple) else ()))
    except Exception:
        t = "?"
    return f"{x.cls.name}({t})"


def exc_loc(e):
    x = e.exc if isinstance(e, PyRaise) else e
    d = x.data if isinstance(x.data, dict) else {}
    return d.get("loc"), list(d.get("stack", ()))


def show(v):
    if isinstance(v, AbsStr):
        return f"<{v.name}~{v.example()!r}>"
    if isinstance(v, core.StrCat):
        return "".join(show(p) if not isinstance(p, str) else p for p in v.parts)
    if isinstance(v, core.Part):
        return "{" + v.kind + ":" + show(v.value) + "}"
    if isinstance(v, Inst):
        return f"<{v.cls.name}>"
    if isinstance(v, core.Lazy):
        return show(v.val) if v.done else f"<any {v.label}>"
    return repr(v)


def locstr(loc):
    if not loc:
        return "?"
    return f"{loc[0]}:{loc[1]}" if isinstance(loc, tuple) else str(loc)


def explore(interp, name, fn, max_paths=4000, max_steps=400000, max_seconds=None, stop_after=1, stop=None):
    """run `fn(interp)` on every abstract path.  fn raises Violation for a bad path."""
    r = Result(name)
    t0 = time.time()
    prefix = []
    State.interp = interp
    was = State.ctx, State.loading
    State.loading = False
    try:
        while True:
            c = Ctx(prefix)
            c.max_steps = max_steps
            State.ctx = c
            vio = und = None
            feasible = True
            try:
                try:
                    fn(interp)
                except Violation as v:
                    vio = v
                except PyRaise as e:
                    loc, stack = exc_loc(e)
                    fn = stack[-1] if stack else None
                    mod = fn[0] if isinstance(fn, tuple) and fn else fn
                    if isinstance(mod, str) and mod.startswith("aas_test_engines"):
                        # raised by the code of the repository where the obligation expects none
                        vio = Violation(f"raises {exc_text(e)} at {locstr(loc)}", construct=locstr(loc), key=f"{e.exc.cls.name}@{locstr(loc).split(':')[0]}")
                    else:
                        und = f"harness: {exc_text(e)} at {locstr(loc)}"
                if feasible:
                    B.final_check()
            except Infeasible:
                feasible = False
            except Unsupported as e:
                vio = None
                und = f"unsupported: {e} at {locstr(c.loc)}"
            except (TooComplex, Unsupp) as e:
                vio = None
                und = f"language: {e} at {locstr(c.loc)}"
            except RecursionError:
                vio = None
                und = f"recursion at {locstr(c.loc)}"
            for k, n in c.funcs.items():
                r.funcs[k] = r.funcs.get(k, 0) + n
            r.steps += c.steps
            if not feasible:
                r.infeasible += 1
            else:
                r.paths += 1
                p = None
                if vio is not None:
                    p = Path()
                    p.kind = "violation"
                    p.msg = vio.msg
                    p.construct = vio.construct
                    p.key = vio.key
                elif und is not None:
                    p = Path()
                    p.kind = "undecided"
                    p.msg = und
                    p.construct = p.key = None
                if p is not None:
                    p.funcs = list(c.funcs)
                    p.trace = list(c.trace)
                    p.taint = list(c.taint)
                    p.loc = c.loc
                    p.stack = list(c.stack)
                    if p.kind == "violation" and not p.taint:
                        r.violations.append(p)
                    else:
                        if p.kind == "violation":
                            p.msg = f"possible (over-approximated: {p.taint[0][0]} at {locstr(p.taint[0][1])}): " + p.msg
                        r.undecided.append(p)
            undo(c.trail)
            tr = c.trace
            i = len(tr) - 1
            while i >= 0 and tr[i][0] >= tr[i][1] - 1:
                i -= 1
            if i < 0:
                break
            prefix = [t[0] for t in tr[:i]] + [tr[i][0] + 1]
            if stop_after and len(r.violations) >= stop_after:
                r.truncated = True
                break
            if r.paths + r.infeasible >= max_paths or (max_seconds and time.time() - t0 > max_seconds):
                r.truncated = True
                break
    finally:
        State.ctx, State.loading = was
    r.wall = time.time() - t0
    return r
