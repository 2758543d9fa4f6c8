#!/usr/bin/env python3
"""rew.py [SELECT...]: rewrites of whole modules (dev/rewrites/<module>__<name>.py) that keep the behaviour: tests pass, every check stays quiet and decided"""
import glob, os, re, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sel = sys.argv[1:]
PIDS = os.environ.get("PIDS", "").split() or [f"C{i:02}" for i in range(1, 25) if i != 18]
for f in sorted(glob.glob(ROOT + "/dev/rewrites/*.py")):
    n = os.path.basename(f)[:-3]
    if sel and not any(s in n for s in sel):
        continue
    d = tempfile.mkdtemp(prefix="rew")
    try:
        shutil.copytree("/repo", d + "/r", ignore=shutil.ignore_patterns(".git", "__pycache__"))
        shutil.copy(f, f"{d}/r/aas_test_engines/{n.split('__')[0].replace('main', '__main__') if not n.startswith('main') else '__main__'}.py")
        env = dict(os.environ, PATH="/opt/venv/bin:" + os.environ["PATH"], PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
        t = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "test"], cwd=d + "/r", env=env, capture_output=True, text=True)
        print(n, t.stdout.strip().splitlines()[-1], flush=True)
        os.makedirs(d + "/v")
        for x in ("absint", "checks"):
            shutil.copytree(f"{ROOT}/{x}", f"{d}/v/{x}", ignore=shutil.ignore_patterns("__pycache__"))
        for x in ("run.py", "known_findings.json"):
            shutil.copy(f"{ROOT}/{x}", d + "/v")
        for pid in PIDS:
            r = subprocess.run([sys.executable, "run.py", pid], cwd=d + "/v", env=dict(os.environ, VERIF_REPO=d + "/r"), capture_output=True, text=True)
            m = re.search(r"obligations .*? (\d+) undecided", r.stdout)
            if r.returncode or not m or m.group(1) != "0":
                print("  ", pid, r.returncode, "\n      ".join(l[:300] for l in r.stdout.splitlines() if not l.startswith("KNOWN"))[:1500], r.stderr[-500:], flush=True)
    finally:
        shutil.rmtree(d)
