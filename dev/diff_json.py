"""dev: compare the interpreter with CPython on concrete documents (validates the analyser, not the repo)"""
import sys, subprocess, json, time
sys.path.insert(0, '/verif'); sys.path.insert(0, '/verif/dev'); sys.setrecursionlimit(20000)
from randdoc import doc
a, b = int(sys.argv[1]), int(sys.argv[2])
if len(sys.argv) > 3:
    sys.path.insert(0, '/repo')
    from aas_test_engines import file
    for s in range(a, b):
        try:
            r = file.check_json_data(doc(s)); print(json.dumps([r.ok(), r.to_dict()]))
        except Exception as e:
            print(json.dumps([type(e).__name__, str(e)]))
    sys.exit()
ref = subprocess.run(['/opt/venv/bin/python', __file__, str(a), str(b), 'x'], capture_output=True, text=True)
ref = [json.loads(l) for l in ref.stdout.splitlines()]
from absint.interp import Interp
from absint.core import *
from absint import explore as E
it = Interp('/repo', 'aas_test_engines')
it.import_module('aas_test_engines.__main__')
f = it.import_module('aas_test_engines.file')
def lift(v):
    if isinstance(v, dict): return PyDict([(k, lift(x)) for k, x in v.items()])
    if isinstance(v, list): return PyList([lift(x) for x in v])
    return v
def low(v):
    if isinstance(v, PyDict): return {low(k): low(x) for k, x in v.d.values()}
    if isinstance(v, PyList): return [low(x) for x in v.items]
    if isinstance(v, Inst) and v.cls.name == 'Level': return low(it.getattr_(v, 'value'))
    return v
bad = 0; t0 = time.time()
for s in range(a, b):
    out = []
    def go(i):
        try:
            r = i.call(f.ns['check_json_data'], [lift(doc(s))], {})
            out.append([i.call(i.getattr_(r, 'ok'), [], {}), low(i.call(i.getattr_(r, 'to_dict'), [], {}))])
        except PyRaise as e:
            out.append([e.exc.cls.name, E.exc_text(e)])
    r = E.explore(it, str(s), go)
    x, y = out[0] if out else None, ref[s - a]
    if len(out) != 1 or r.undecided or x[0] != y[0] or (isinstance(x[0], bool) and x != y):
        bad += 1
        if bad < 5:
            print(s, 'DIFF', len(out), [p.msg for p in r.undecided][:2])
            print('  ', json.dumps(x, default=str)[:600]); print('  ', json.dumps(y)[:600])
from collections import Counter
print(b - a, 'docs', bad, 'diffs', Counter(str(y[0]) for y in ref), f'{time.time()-t0:.1f}s')
