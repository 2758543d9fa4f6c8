"""C17: checks that run in different threads do not affect each other."""
import itertools
from absint import explore as X
from absint.core import thread_switch
from .common import *
from . import docs as D, pkg as P, c21

LEVEL = "other"
R_CTX = "steps opened, written and left in interleaved threads => every thread gets the result it gets alone"
R_NEST = "a complete check in another thread at any function entry of a check => both results are those of the checks alone"
CLIENT = '''
from aas_test_engines.result import AasTestResult, Level, start, write, abort

def plain():
    with start("a") as r:
        yield
        write("w")
        yield
    yield r

def nested():
    with start("n") as r:
        yield
        with start("inner"):
            yield
            write("x")
        yield
    yield r

def aborted():
    with start("s") as r:
        with start("left"):
            yield
            abort("no")
        yield
        write(AasTestResult("bad", Level.ERROR))
    yield r

def caught():
    with start("c", True) as r:
        yield
        with start("deep"):
            yield
            raise ValueError("v")
    yield r

def escaping():
    r = AasTestResult("e")
    try:
        with start(r):
            yield
            with start("gone"):
                yield
                raise KeyError("k")
    except KeyError:
        pass
    yield r

def outside():
    r = AasTestResult("o")
    yield
    try:
        write("nowhere")
        r.append(AasTestResult("accepted", Level.ERROR))
    except RuntimeError:
        pass
    yield r
'''
PROGRAMS = {"plain": 3, "nested": 4, "aborted": 3, "caught": 3, "escaping": 3, "outside": 2}
SSP = "https://admin-shell.io/aas/API/3/0/"


def orders(n, m):
    for c in itertools.combinations(range(n + m), n):
        s = set(c)
        yield [1 if i in s else 2 for i in range(n + m)]


def obligations(tier):
    obs = []
    ns = client(CLIENT)
    envs = c21.environments()

    def add(name, rule, fn, **k):
        obs.append(Ob(name, fn, rule, **k))

    def reset():
        X.undo(State.ctx.trail)
        del State.ctx.trail[:]

    # ---------------------------------------------------------------- steps
    def run(it, names, order):
        """outcome of every thread's program"""
        out, gens, dead = {}, {}, set()
        try:
            for t in order:
                if t in dead:
                    continue
                thread_switch(t)
                if t not in gens:
                    gens[t] = call(ns[names[t]])
                k, v = attempt(it.builtins["next"], gens[t])
                if k == "raise":
                    out[t] = ("raise", v.cls.name)
                    dead.add(t)
                else:
                    out[t] = v
        finally:
            thread_switch(0)
        return {t: v if isinstance(v, tuple) else c21.tree(v) if isinstance(v, Inst) else v for t, v in out.items()}

    for a, b in itertools.product(PROGRAMS, repeat=2):
        def ctx(it, a=a, b=b):
            alone = {1: run(it, {1: a}, [1] * PROGRAMS[a])[1], 2: run(it, {2: b}, [2] * PROGRAMS[b])[2]}
            for order in orders(PROGRAMS[a], PROGRAMS[b]):
                reset()
                State.ctx.tstore.clear()
                State.ctx.cvars.clear()
                got = run(it, {1: a, 2: b}, order)
                for t in (1, 2):
                    if got[t] != alone[t]:
                        raise Violation(f"steps of two threads ({a} | {b}), interleaved {''.join(map(str, order))}: thread {t} gets {show(got[t])[:120]}, alone {show(alone[t])[:120]}", key="mixed")
        add(f"steps:{a}|{b}", R_CTX, ctx, max_steps=6000000)

    # ---------------------------------------------------------------- checks
    def server(it):
        def srv(i, req):
            src = L.Src("body", json=[("ok", "ok", lambda: lift({"profiles": [SSP + "x"]}))], text=[("ok", "ok", lambda: "body text")])
            return L.response(i, 200, src)
        State.ctx.server = srv
        hc = call(sym("http", "HttpClient"), "http://h/api")
        conf = call(sym("config", "CheckApiConfig"), SSP + "SubmodelServiceSpecification/SSP-002", filter=call(sym("config", "TestCaseFilter"), "GetDescription"))
        k, v = attempt(sym("api", "execute_tests"), hc, conf)
        return (k, v) if k == "raise" else (k, it.getitem(v, 0))

    def file_check(form, name):
        def go(it):
            fn, mk = c21.FORMS[form]
            return attempt(sym("file", fn), mk(it, envs[name]))
        return go
    JOBS = {f"{f} {n}": file_check(f, n) for f, n in (
        ("json", "full"), ("json", "same idShort"), ("json", "unknown attribute"), ("xml", "bad value"), ("xml", "submodel"), ("aasx", "bad idShort"), ("json file", "concept"))}
    JOBS["server"] = server

    def in_thread(it, t, job):
        try:
            thread_switch(t)
            return c21.outcome(*job(it))
        finally:
            thread_switch(1 if t == 2 else 0)
    for a, b in itertools.product(JOBS, repeat=2):
        if tier == "quick" and b not in ("json same idShort", "aasx bad idShort", "server", a):
            continue

        def nest(it, a=a, b=b):
            entered = {}
            State.ctx.on_call = lambda f: entered.setdefault((f.module, f.qualname), len(entered))
            want = {1: in_thread(it, 1, JOBS[a])}
            State.ctx.on_call = None
            reset()
            State.ctx.tstore.clear()
            State.ctx.cvars.clear()
            want[2] = in_thread(it, 1, JOBS[b])
            names = list(entered)
            part = names if tier != "quick" or len(names) < 40 else names[::2] if a != b else names
            for key in part:
                reset()
                State.ctx.tstore.clear()
                State.ctx.cvars.clear()
                got = {}

                def hook(f):
                    if (f.module, f.qualname) == key and 2 not in got:
                        got[2] = None
                        State.ctx.on_call = None
                        got[2] = in_thread(it, 2, JOBS[b])
                State.ctx.on_call = hook
                got[1] = in_thread(it, 1, JOBS[a])
                State.ctx.on_call = None
                for t, n in ((1, a), (2, b)):
                    if got.get(t) != want[t] and got.get(t) is not None:
                        raise Violation(f"check '{n}' while check '{b if t == 1 else a}' runs in another thread (switched at {key[1]}): {c21.diff(got[t], want[t])}", key="mixed")
        add(f"checks:{a}|{b}", R_NEST, nest, max_steps=40000000, max_seconds=120)
    return obs
