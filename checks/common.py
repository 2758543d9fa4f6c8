"""Framework: obligations, parallel runner, evidence, known findings."""
import importlib
import json
import os
import sys
import time
import multiprocessing as mp

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
PKG = "aas_test_engines"

from absint.interp import Interp  # noqa: E402
from absint import core, builtins_ as B, rx, strlang, stdlib as L, explore as X  # noqa: E402
from absint.core import *  # noqa: E402,F401,F403
from absint.core import State  # noqa: E402
from absint.explore import Violation, exc_text, exc_loc, locstr, show  # noqa: E402


class AnchorMissing(Exception):
    pass


class Ob:
    """one obligation: `fn(interp)` is run on every abstract path, raising Violation on a bad one"""

    def __init__(self, name, fn, rule, max_paths=3000, max_seconds=60, max_steps=400000, anchor=None):
        self.name = name
        self.fn = fn
        self.rule = rule
        self.max_paths = max_paths
        self.max_seconds = max_seconds
        self.max_steps = max_steps
        self.anchor = anchor


_it = None


def interp():
    global _it
    if _it is None:
        sys.setrecursionlimit(30000)
        it = Interp(REPO, PKG)
        it.import_module(PKG + ".__main__")
        _it = it
    return _it


def mod(name):
    it = interp()
    try:
        was = State.ctx, State.loading
        try:
            return it.import_module(f"{PKG}.{name}" if name else PKG)
        finally:
            State.ctx, State.loading = was
    except core.PyRaise as e:
        if e.exc.cls.name in ("ModuleNotFoundError", "ImportError"):
            raise AnchorMissing(f"module {name}")
        raise


def sym(module, name):
    m = mod(module)
    if name not in m.ns:
        raise AnchorMissing(f"{module}.{name}")
    return m.ns[name]


def has_sym(module, name):
    try:
        sym(module, name)
        return True
    except AnchorMissing:
        return False


# ------------------------------------------------------------------ running program code
def call(f, *a, **k):
    return interp().call(f, list(a), dict(k))


def meth(o, name, *a, **k):
    it = interp()
    return it.call(it.getattr_(o, name), list(a), dict(k))


def attempt(f, *a, **k):
    """('ok', value) | ('raise', exc)"""
    try:
        return "ok", call(f, *a, **k)
    except core.PyRaise as e:
        return "raise", e.exc


def is_exc(e, name):
    return any(c.name == name for c in e.cls.mro)


def raise_violation(what, e):
    loc, stack = exc_loc(e)
    fn = stack[-1] if stack else None
    raise Violation(f"{what}: {exc_text(e)} raised at {locstr(loc)}", construct=f"{locstr(loc)}",
                    key=f"{e.cls.name}@{fn_name(fn)}")


def fn_name(fn):
    if fn is None:
        return "?"
    if isinstance(fn, tuple):
        return ":".join(str(x) for x in fn[:2])
    return str(fn)


def ok_of(result):
    v = B.truth(interp(), meth(result, "ok"))
    return v


_clients = {}


def client(src, fname="__client__"):
    """a client program (analysed together with the repository, never executed): its module namespace"""
    import ast
    from absint.interp import Scope, Frame
    it = interp()
    if src not in _clients:
        tree = ast.parse(src, fname)
        m = PyModule("__client__")
        m.repo = True
        m.ns.update({"__name__": "__client__", "__package__": PKG, "__file__": fname, "__doc__": None})
        sc = Scope("module", None, m)
        sc.clsname = None
        was = State.ctx, State.loading
        State.loading = True
        try:
            it.compile_block(tree.body, sc)(Frame(m.ns, None, m.ns))
        finally:
            State.ctx, State.loading = was
        _clients[src] = m.ns
    return _clients[src]


# ------------------------------------------------------------------ results
def walk(result):
    """(depth, message, level value, node) in report order"""
    it = interp()
    out = []

    def rec(r, d, up):
        if any(x is r for x in up):
            raise Violation(f"entry {show(it.getattr_(r, 'message'))!r} contains itself", key="cycle")
        out.append((d, it.getattr_(r, "message"), level_of(r), r))
        for s in B.iterate(it, it.getattr_(r, "sub_results")):
            rec(s, d + 1, up + (r,))
    rec(result, 0, ())
    return out


def level_of(r):
    it = interp()
    lv = it.getattr_(r, "level")
    v = it.getattr_(lv, "name")
    return v


def text_has(v, needle):
    """does the (possibly partly abstract) text surely contain the constant needle?"""
    for p in B.parts_of(v) if hasattr(B, "parts_of") else (v.parts if isinstance(v, core.StrCat) else [v]):
        if isinstance(p, str) and needle in p:
            return True
    return False


# ------------------------------------------------------------------ lifting constants
def lift(v):
    if isinstance(v, dict):
        return PyDict([(k, lift(x)) for k, x in v.items()])
    if isinstance(v, list):
        return PyList([lift(x) for x in v])
    return v


# ------------------------------------------------------------------ parallel runner
_OBS = None


def _run_one(i):
    o = _OBS[i]
    it = interp()
    try:
        r = X.explore(it, o.name, o.fn, max_paths=o.max_paths, max_steps=o.max_steps, max_seconds=o.max_seconds)
    except AnchorMissing as e:
        return {"i": i, "name": o.name, "anchor": str(e)}
    except Exception as e:  # internal failure of the analyser: undecided, never an alarm
        import traceback
        return {"i": i, "name": o.name, "internal": f"{type(e).__name__}: {e}", "tb": traceback.format_exc()[-1500:]}
    def pack(p):
        fs = [fn_name(f) for f in p.funcs if not fn_name(f).startswith("__client__")]
        return {"msg": p.msg, "construct": p.construct or ("path through " + " > ".join(fs[-6:]) if fs else None), "key": p.key,
                "trail": [f"{t[2]} -> {t[0]} @ {locstr(t[3])}" for t in p.trace][-25:],
                "taint": [f"{t[0]} @ {locstr(t[1])}" for t in p.taint][:3], "stack": [fn_name(s) for s in p.stack][-8:]}
    return {"i": i, "name": o.name, "paths": r.paths, "infeasible": r.infeasible, "steps": r.steps,
            "wall": round(r.wall, 3), "truncated": r.truncated, "funcs": sorted(fn_name(f) for f in r.funcs),
            "violations": [pack(p) for p in r.violations[:3]], "undecided": [pack(p) for p in r.undecided[:3]],
            "n_undecided": len(r.undecided)}


def run_obligations(obs, budget, jobs=None):
    global _OBS
    _OBS = obs
    jobs = jobs or int(os.environ.get("VERIF_JOBS", 0)) or min(8, os.cpu_count() or 1)
    t0 = time.time()
    res = [None] * len(obs)
    if jobs == 1 or len(obs) <= 2:
        for i in range(len(obs)):
            res[i] = _run_one(i)
        return res
    ctx = mp.get_context("fork")
    pool = ctx.Pool(jobs, maxtasksperchild=200)
    try:
        it = [(i, pool.apply_async(_run_one, (i,))) for i in range(len(obs))]
        for i, a in it:
            left = budget - (time.time() - t0)
            try:
                res[i] = a.get(timeout=max(0.01, left))
            except mp.TimeoutError:
                res[i] = {"i": i, "name": obs[i].name, "internal": "time budget exhausted"}
    finally:
        pool.terminate()
        pool.join()
    return res


# ------------------------------------------------------------------ entry
def known_findings(pid):
    """(obligation, key) -> entry; the location of an exception is not part of its identity"""
    p = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(p) or os.environ.get("VERIF_NO_KNOWN"):
        return {}
    out = {}
    for k in json.load(open(p)).get("known", []):
        if k["property"] == pid:
            for o, key in k["cases"]:
                out[o, key] = k
    return out


def ident(v):
    return v["obligation"], (v.get("key") or "").split("@")[0]


def main(pid, tier=None):
    tier = tier or os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    evd = os.path.join(ROOT, "evidence")
    os.makedirs(evd, exist_ok=True)
    budget = 700 if tier == "quick" else 3000
    load_error = None
    obs = []
    m = importlib.import_module("checks." + pid.lower())
    anchors = []
    try:
        interp()
        obs = m.obligations(tier)
        if os.environ.get("VERIF_ONLY"):  # development: a file with obligation names
            only = set(json.load(open(os.environ["VERIF_ONLY"])))
            obs = [o for o in obs if o.name in only]
    except AnchorMissing as e:
        anchors.append(str(e))
    except core.PyRaise as e:
        loc, _ = exc_loc(e)
        load_error = f"the package does not load: {exc_text(e)} at {locstr(loc)}"
    except core.Unsupported as e:
        load_error = f"module load outside the modelled subset: {e} at {locstr(State.ctx.loc)}"
    lints = []
    if hasattr(m, "lints") and not load_error:
        lints = m.lints(tier)  # list of dict(rule, sites, violations=[...])
    res = run_obligations(obs, budget) if obs else []
    funcs = set()
    paths = infeas = steps = 0
    undecided = []
    vios = []
    for r in res:
        if "anchor" in r:
            anchors.append(r["anchor"])
            continue
        if "internal" in r:
            undecided.append({"obligation": r["name"], "why": r["internal"], "tb": r.get("tb")})
            continue
        funcs.update(r["funcs"])
        paths += r["paths"]
        infeas += r["infeasible"]
        steps += r["steps"]
        if r["n_undecided"] or (r["truncated"] and not r["violations"]):
            undecided.append({"obligation": r["name"], "paths": r["n_undecided"], "truncated": r["truncated"],
                              "why": r["undecided"][0]["msg"] if r["undecided"] else "path budget exhausted"})
        for v in r["violations"]:
            vios.append({"obligation": r["name"], "rule": obs[r["i"]].rule, **v})
    for l in lints:
        for v in l["violations"]:
            vios.append({"obligation": l["rule"], "rule": l["rule"], "trail": [], "taint": [], "stack": [], **v})
    known = known_findings(pid)
    new = []
    shown = set()
    for v in vios:
        k = known.get(ident(v))
        if k is not None:
            if id(k) not in shown:
                print(f"KNOWN-FINDING: property={pid} {k['what']}")
                shown.add(id(k))
            v["known"] = True
        else:
            new.append(v)
    if load_error:
        undecided.append({"obligation": "load", "why": load_error})
    wall = time.time() - t0
    slow = sorted((r for r in res if "wall" in r), key=lambda r: -r["wall"])[:5]
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": getattr(m, "LEVEL", "other"),
        "technique": "abstract interpretation of the repository's syntax trees (no repository code is executed)",
        "coverage": {
            "explanation": "every obligation is one abstract input class pushed through the interpreted source of the "
                           "repository; all abstract paths are enumerated; an obligation is discharged when no path "
                           "contradicts its rule, undecided when a path leaves the modelled subset",
            "samples": [f"{o.name}: {o.rule}" for o in obs[:: max(1, len(obs) // 12)]][:12] + [f"lint {l['rule']}: {l['sites']} sites" for l in lints][:6],
            "obligations": len(obs) + len(lints),
            "discharged": len(obs) + len(lints) - len({u["obligation"] for u in undecided if u["obligation"] != "load"} | {v["obligation"] for v in vios}),
            "abstract_paths": paths, "infeasible_paths": infeas, "interpreted_steps": steps,
            "functions_analysed": len(funcs),
            "rules": sorted({o.rule for o in obs} | {l["rule"] for l in lints}),
            "lint_sites": sum(l["sites"] for l in lints),
        },
        "assumptions": getattr(m, "ASSUME", []) + [
            "the models of the standard library used by the analyser (absint/stdlib.py, absint/strlang.py) are faithful",
            "recursion depth, memory and integer-conversion limits of the interpreter are not reached"],
        "functions": sorted(funcs)[:400],
        "lints": lints,
        "obligation_names": [o.name for o in obs][:1500],
        "undecided": undecided[:60],
        "slowest": [{"name": r["name"], "wall": r["wall"], "paths": r["paths"]} for r in slow],
        "anchors_missing": anchors,
        "wall_s": round(wall, 2),
        "violations": len(new),
        "violation_list": [{k: v[k] for k in ("obligation", "rule", "msg", "construct", "key")} for v in new][:50],
    }
    with open(os.path.join(evd, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print(f"{pid}: {len(obs)} obligations + {len(lints)} lint rules over {len(funcs)} functions, {paths} abstract paths, "
          f"{len(undecided)} undecided, {len(new)} violations, {wall:.1f}s")
    for u in undecided[:int(os.environ.get("VERIF_SHOW", "8"))]:
        print(f"  undecided: {u['obligation']}: {u['why'][:220]}")
    if new:
        rep = os.path.join(evd, f"{pid}.violations.json")
        with open(rep, "w") as f:
            json.dump(new, f, indent=1)
        for v in new[:20]:
            print(f"  {v['rule']} | {v['obligation']} | {v['msg'][:400]}" + (f" | {v['construct']}" if v.get("construct") else ""))
            for t in v["trail"][-6:]:
                print(f"      path: {t}")
        print(f"VIOLATION property={pid} replay={rep}")
        return 1
    if anchors:
        print(f"{pid}: public anchor not found: {anchors}", file=sys.stderr)
        return 2
    if load_error:
        return 2
    return 0


def profile(pid, name):
    import cProfile, pstats
    m = importlib.import_module("checks." + pid.lower())
    interp()
    o = next(o for o in m.obligations("quick") if o.name == name)
    pr = cProfile.Profile()
    pr.enable()
    r = X.explore(interp(), o.name, o.fn, max_paths=o.max_paths, max_steps=o.max_steps, max_seconds=o.max_seconds)
    pr.disable()
    print(r.paths, r.wall, [p.msg for p in r.undecided][:3], [p.msg for p in r.violations])
    pstats.Stats(pr).sort_stats("cumtime").print_stats(35)
