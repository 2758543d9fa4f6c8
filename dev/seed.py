#!/usr/bin/env python3
"""seed.py ID PROP FILE OLD NEW NEEDS BREAKS DEMO_PY : create and confirm a planted bug
(demo text: python that must exit 0 on the good tree, nonzero with the bug; helpers from demo preamble)"""
import json, os, re, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PRE = '''import io, json, os, sys, tempfile
sys.dont_write_bytecode = True
sys.path.insert(0, os.getcwd())
from aas_test_engines import file
from aas_test_engines.result import AasTestResult, Level


def js(doc, **k):
    return file.check_json_file(io.StringIO(json.dumps(doc)), **k)


def env(*elements, **k):
    return {"submodels": [{"modelType": "Submodel", "id": "urn:s", **k, **({"submodelElements": list(elements)} if elements else {})}]}


'''
PY = "/opt/venv/bin/python"


def run_tests(d):
    r = subprocess.run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=300", "--tb=no", "-rA", "test"], cwd=d, capture_output=True, text=True,
                       env={**os.environ, "PYTHONPATH": d, "PYTHONDONTWRITEBYTECODE": "1"})
    return set(re.findall(r"^PASSED (\S+)", r.stdout, re.M)), r.stdout


def main(id, prop, edits, needs, breaks, demo):
    d = os.path.join(ROOT, "seeded", id)
    w = tempfile.mkdtemp(prefix="seed")
    c = w + "/repo"
    try:
        subprocess.check_call(["cp", "-a", "/repo", c])
        for f, o, n in edits:
            p = os.path.join(c, f)
            s = open(p).read()
            assert s.count(o) >= 1, f"not found in {f}: {o}"
            if s.count(o) > 1:
                print("warning: several matches, first taken")
            open(p, "w").write(s.replace(o, n, 1))
        diff = subprocess.check_output(["git", "-C", c, "diff"], text=True)
        # lines removed must be of the original repository
        base = {f: subprocess.run(["git", "-C", c, "show", "2da8c08:" + f], capture_output=True, text=True).stdout.splitlines() for f, _, _ in edits}
        for f, _, _ in edits:
            for l in re.findall(r"^-(?!--)(.*)$", subprocess.check_output(["git", "-C", c, "diff", "--", f], text=True), re.M):
                if l not in base[f]:
                    print("WARNING: line not of the original repository:", l)
        os.makedirs(d, exist_ok=True)
        open(d + "/demo.py", "w").write(PRE + demo)
        open(d + "/demo.sh", "w").write('#!/bin/bash\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(d + "/demo.sh", 0o755)
        open(d + "/patch.diff", "w").write(diff)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
        good = subprocess.run(["bash", d + "/demo.sh"], cwd="/repo", capture_output=True, text=True)
        bad = subprocess.run(["bash", d + "/demo.sh"], cwd=c, capture_output=True, text=True)
        passed, out = run_tests(c)
        ref, out0 = run_tests("/repo")
        chk = subprocess.run([sys.executable, "run.py", prop], cwd=ROOT, env={**os.environ, "VERIF_REPO": c}, capture_output=True, text=True)
        print(f"{id}: demo good={good.returncode} bad={bad.returncode} tests lost={sorted(ref - passed)} ({len(passed)}) check rc={chk.returncode}")
        if good.returncode:
            print(good.stderr[-600:])
        if bad.returncode == 0 or chk.returncode != 1:
            print(chk.stdout[-500:])
        elif os.environ.get("SHOW"):
            print(chk.stdout[:600])
        return good.returncode == 0 and bad.returncode != 0 and not (ref - passed)
    finally:
        shutil.rmtree(w)
