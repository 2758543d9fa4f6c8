#!/usr/bin/env python3
"""muts.py [-v] [SELECT...]: regression suite of textual changes (dev/muts/*.txt); every 'bug' must be caught, every 'same' must stay quiet
file format, per entry:   == bug|same PID[,PID] path      then blocks  <<<\nOLD\n---\nNEW\n>>>"""
import glob, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = os.environ.get("VERIF_SRC", "/repo")
sel = [a for a in sys.argv[1:] if not a.startswith("-")]


def entries():
    for f in sorted(glob.glob(ROOT + "/dev/muts/*.txt")):
        cur = None
        for m in re.finditer(r"^== (bug|same) (\S+) (\S+)(.*)\n((?:<<<\n(?:.*\n)*?>>>\n)+)", open(f).read(), re.M):
            reps = re.findall(r"<<<\n((?:.*\n)*?)---\n((?:.*\n)*?)>>>\n", m.group(5))
            yield os.path.basename(f), m.group(1), m.group(2).split(","), m.group(3), m.group(4).strip(), reps


def run(e):
    f, kind, pids, path, note, reps = e
    d = tempfile.mkdtemp(prefix="mut")
    try:
        shutil.copytree(SRC + "/aas_test_engines", d + "/aas_test_engines", ignore=shutil.ignore_patterns("__pycache__"))
        p = os.path.join(d, "aas_test_engines", path)
        s = open(p).read()
        for o, n in reps:
            o, n = o[:-1], n[:-1]
            if o not in s:
                return e, None, f"not found: {o!r}"
            s = s.replace(o, n, 1)
        open(p, "w").write(s)
        import ast
        ast.parse(s)
        out = []
        rcs = []
        for pid in pids:
            w = d + "/v"
            os.makedirs(w, exist_ok=True)
            for x in ("absint", "checks", "spec"):
                if os.path.isdir(f"{ROOT}/{x}") and not os.path.exists(f"{w}/{x}"):
                    shutil.copytree(f"{ROOT}/{x}", f"{w}/{x}", ignore=shutil.ignore_patterns("__pycache__"))
            shutil.copy(ROOT + "/run.py", w)
            shutil.copy(ROOT + "/known_findings.json", w)
            r = subprocess.run([sys.executable, "run.py", pid], cwd=w, env=dict(os.environ, VERIF_REPO=d), capture_output=True, text=True)
            rcs.append(r.returncode)
            out.append((pid, r.returncode, [l for l in r.stdout.splitlines() if not l.startswith("KNOWN")][:4], r.stderr[-300:], r.stdout))
        und = [(x[0], m.group(1)) for x in out for m in [re.search(r"(\d+) undecided", x[4])] if m and m.group(1) != "0"]
        good = all(c == 1 for c in rcs) if kind == "bug" else all(c == 0 for c in rcs) and not und
        if und:
            out.append(("undecided", und, [], ""))
        return e, good, out
    finally:
        shutil.rmtree(d)


es = [e for e in entries() if not sel or any(s in e[0] or s in e[2] or s in e[4] for s in sel)]
bad = 0
with ThreadPoolExecutor(4) as ex:
    for e, good, out in ex.map(run, es):
        if not good or "-v" in sys.argv:
            bad += not good
            print("ok  " if good else "FAIL", e[1], e[2], e[3], e[4], "|", repr(e[5][0][1][:90]))
            if isinstance(out, str):
                print("   ", out)
            else:
                for pid, rc, ls, err, *_ in out:
                    print("   ", pid, rc, "\n        ".join(l[:260] for l in ls), err)
print(f"{len(es)} changes, {bad} wrong")
