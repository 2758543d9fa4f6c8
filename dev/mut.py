#!/usr/bin/env python3
"""mut.py PID file OLD NEW [OLD NEW..]: run a check on a scratch copy of /repo's package with a textual change"""
import os, shutil, subprocess, sys, tempfile
pids, fn, *rep = sys.argv[1:]
d = tempfile.mkdtemp(prefix="mut")
try:
    shutil.copytree("/repo/aas_test_engines", d + "/aas_test_engines", ignore=shutil.ignore_patterns("__pycache__"))
    p = os.path.join(d, "aas_test_engines", fn)
    s = open(p).read()
    for o, n in zip(rep[::2], rep[1::2]):
        o, n = o.encode().decode("unicode_escape"), n.encode().decode("unicode_escape")
        if o not in s:
            sys.exit(f"not found: {o!r}")
        s = s.replace(o, n, 1)
    open(p, "w").write(s)
    for pid in pids.split(","):
        r = subprocess.run([sys.executable, "run.py", pid], cwd=os.path.dirname(os.path.dirname(os.path.abspath(__file__))),
                           env=dict(os.environ, VERIF_REPO=d), capture_output=True, text=True)
        out = r.stdout.strip().splitlines()
        print(f"{pid} rc={r.returncode} " + "\n   ".join(x[:230] for x in out[: int(os.environ.get('N', '4'))]) + (("\n" + r.stderr[-600:]) if r.stderr else ""))
finally:
    shutil.rmtree(d)
