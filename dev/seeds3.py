import sys; sys.path.insert(0, "/verif/dev")
from seed import main
from seeds2 import PK, SRV, R, DT, RF, MA, OPC, FI, HT, CF, AP
S = {}
S["c01-bit-or"] = ("C01", [(R, "return Level(max(self.value, other.value))", "return Level(self.value | other.value)")], "a step with both a warning and an error below it", "the level of a step is not the highest below it but one that never occurred (critical)",
'''r = AasTestResult("root")
r.append(AasTestResult("w", Level.WARNING))
r.append(AasTestResult("e", Level.ERROR))
sys.exit(0 if r.level == Level.ERROR else 1)
''')
S["c01-stale-context"] = ("C01", [(R, '''        m = managers.pop()
        assert m is self
        if exc_val is None:
''', '''        if exc_val is not None and not isinstance(exc_val, ResultException) and not self.catch_all_exceptions:
            return False
        m = managers.pop()
        assert m is self
        if exc_val is None:
''')], "an exception that leaves a step inside of a step that catches everything", "the stack of open steps keeps a step that was left, so the enclosing step ends with an AssertionError",
'''from aas_test_engines.result import start, write
try:
    with start("outer", True) as o:
        with start("inner"):
            raise KeyError("x")
except BaseException as e:
    sys.exit(1)
try:
    write("x")
    sys.exit(1)
except RuntimeError:
    sys.exit(0 if not o.ok() else 1)
''')
S["c02-critical-hidden"] = ("C02", [(R, '''            c = "" if self.ok() else "visible"''', '''            c = "visible" if self.level == Level.ERROR else ""''')], "a critical result with sub results", "the sub results of critical results are collapsed in the HTML report",
'''r = AasTestResult("root")
r.append(AasTestResult("boom", Level.CRITICAL))
sys.exit(0 if 'sub-results visible' in r._to_html(0) else 1)
''')
S["c04-strict"] = ("C04", [(FI, "data = json.load(file)", "data = json.load(file, strict=False)")], "a JSON file with a raw control character inside of a string", "content that is not JSON passes",
'''doc = json.dumps(env({"modelType": "Property", "idShort": "p", "valueType": "xs:string", "value": "aXb"})).replace("X", chr(9))
sys.exit(0 if not file.check_json_file(io.StringIO(doc)).ok() else 1)
''')
S["c05-abstract-empty"] = ("C05", [(RF, "    return ListType(UnresolvedType(item_cls), allow_empty)", "    return ListType(UnresolvedType(item_cls), allow_empty or is_abstract(item_cls))")], "an empty list of submodel elements", "empty lists of submodel elements and data elements are accepted",
'''sys.exit(0 if not js(env({"modelType": "SubmodelElementCollection", "idShort": "c", "value": []})).ok() else 1)
''')
S["c20-suffix"] = ("C20", [(CF, "if self.includes and not any(i.match(test_case) for i in self.includes):", "if self.includes and not any(i.search(test_case) for i in self.includes):")], "an inclusion pattern that matches only the end of a name", "operations are selected that no pattern matches as a whole",
'''from aas_test_engines.config import TestCaseFilter
sys.exit(0 if not TestCaseFilter("Submodel").selects("GetSubmodel") else 1)
''')
S["c23-substring"] = ("C23", [(AP, "if version != _DEFAULT_VERSION:", "if version not in _DEFAULT_VERSION:")], "a version that is a part of the announced one", "a server check accepts versions that are not announced",
'''from aas_test_engines import api, config, http
from aas_test_engines.exception import AasTestToolsException
suite = sorted(api.supported_versions()["3.0"])[0]
try:
    api.execute_tests(http.HttpClient("http://127.0.0.1:9"), config.CheckApiConfig(suite, version="3", dry=True))
    sys.exit(1)
except AasTestToolsException:
    sys.exit(0)
''')
S["c24-static-order"] = ("C24", [(RF, "return self.cls(**{**args, **self.static_attrs})", "return self.cls(**{**self.static_attrs, **args})")], "constructing an object with an argument for an excluded field", "excluded fields are no constants",
'''from dataclasses import dataclass, field
from aas_test_engines.reflect import reflect


@dataclass
class A:
    x: str
    y: str = field(metadata={"exclude_as": "constant"})


t, _ = reflect(A)
sys.exit(0 if t.construct({"x": "1", "y": "2"}).y == "constant" else 1)
''')
S["c24-lookup-suffix"] = ("C24", [(RF, '''if name.endswith(f".{type_name}'>")]''', '''if name.endswith(f"{type_name}'>")]''')], "looking up a class whose name is the end of another one", "lookup by name finds other classes",
'''from aas_test_engines.test_cases.v3_0.model import symbol_table
try:
    sys.exit(0 if symbol_table.lookup("Property").cls.__name__ == "Property" else 1)
except ValueError:
    sys.exit(1)
''')
S["c21-shared-children"] = ("C21", [(OPC, "        parent_rel.sub_rels.append(sub_rel)", "        parent_rel.sub_rels.append(sub_rel)\n        if type in deprecated_types.values():\n            deprecated_types.setdefault(type.replace(\"://\", \"://www.\").replace(\"www.www.\", \"www.\"), type)\n            deprecated_types.setdefault(type.replace(\"http://\", \"https://\"), type)")], "a package using https relationship types, checked after a usual package", "the set of deprecated relationship types grows while checking, so the verdict depends on earlier checks",
PK + '''def mk(t):
    global T
    T = t + "://admin-shell.io/aasx/relationships/"
    p = {"_rels/.rels": rels(("aasx-origin", "/aasx/o")), "aasx/o": "", "aasx/_rels/o.rels": rels(("aas-spec", "/aasx/a.json")), "aasx/a.json": "[]"}
    return aasx(p).ok()


a = mk("https")
b = mk("http")
c = mk("https")
sys.exit(0 if a == c and not b else 1)
''')
S["c03-substring-case"] = ("C03", [(MA, "suites = [i for i in available_suites if args.suite in i]", "suites = [i for i in available_suites if i.startswith(args.suite) or i.endswith(args.suite) or args.suite in i.split('/')[-2]]")], "a suite given by a substring that spans the last two segments", "a suite cannot be selected by some of its substrings",
'''import subprocess
r = subprocess.run([sys.executable, "-m", "aas_test_engines", "check_server", "http://127.0.0.1:9", "0/SubmodelServiceSpecification/SSP-00", "--dry"], capture_output=True)
sys.exit(0 if r.returncode == 0 else 1)
''')
S["c16-query-plus"] = ("C16", [(DT, '    iquery = f"({ipchar}|{iprivate}|[/?])*"', '    iquery = f"(({ipchar})+|{iprivate}|[/?])*"')], "a long query in a text that is no URI", "matching takes time exponential in the length of the query",
'''import subprocess
code = "from aas_test_engines.data_types import is_any_uri; import sys; sys.exit(1 if is_any_uri('http://a?' + 'a' * 60 + ' ') else 0)"
try:
    sys.exit(subprocess.run([sys.executable, "-c", code], timeout=20).returncode)
except subprocess.TimeoutExpired:
    sys.exit(1)
''')
S["c16-language-variants"] = ("C16", [(DT, '    variant = f"(({alphanum}){{5,8}}|[0-9]({alphanum}){{3}})"', '    variant = f"(({alphanum}){{5,8}}|[0-9]({alphanum}){{3,7}})"')], "a language tag with many variants that start with a digit and an unsuitable end", "matching takes time exponential in the number of variants",
'''import subprocess
code = "from aas_test_engines.data_types import is_bcp_lang_string; import sys; sys.exit(1 if is_bcp_lang_string('en' + '-1abcd' * 60 + '!') else 0)"
try:
    sys.exit(subprocess.run([sys.executable, "-c", code], timeout=20).returncode)
except subprocess.TimeoutExpired:
    sys.exit(1)
''')
S["c17-current-step"] = ("C17", [(R, '''    def __enter__(self) -> AasTestResult:
        managers.append(self)
        return self.result
''', '''    current = None

    def __enter__(self) -> AasTestResult:
        managers.append(self)
        ContextManager.current = self
        return self.result
'''), (R, '''        m = managers.pop()
        assert m is self
''', '''        m = managers.pop()
        assert m is self
        ContextManager.current = managers[-1] if managers else None
'''), (R, '''    message = _as_result(message, Level.INFO)
    managers[-1].result.append(message)
''', '''    message = _as_result(message, Level.INFO)
    ContextManager.current.result.append(message)
''')], "two threads that record messages at the same time", "a message is recorded below the step of another thread",
'''import threading
from aas_test_engines.result import start, write
a, b = threading.Event(), threading.Event()
out = []


def first():
    with start("first") as r:
        a.set()
        b.wait(10)
        write("one")
    out.append(r)


def second():
    a.wait(10)
    with start("second"):
        b.set()
        t.join(10)


t = threading.Thread(target=first)
u = threading.Thread(target=second)
t.start()
u.start()
t.join(20)
u.join(20)
sys.exit(0 if out and [i.message for i in out[0].sub_results] == ["one"] else 1)
''')
S["c13-after-repeated"] = ("C13", [(OPC, """            sub_rel.sub_rels = visited_targets[target].sub_rels
            continue
""", """            sub_rel.sub_rels = visited_targets[target].sub_rels
            break
""")], "a relationship list that names a target twice and has further entries after it", "relationship entries after a repeated target are neither checked nor followed",
PK + '''p = {"_rels/.rels": rels(("aasx-origin", "/aasx/o")), "aasx/o": "", "aasx/_rels/o.rels": rels(("aas-spec", "/aasx/a.json"), ("aas-suppl", "/aasx/a.json"), ("aas-spec", "/aasx/b.json")), "aasx/a.json": "{}", "aasx/b.json": "[]"}
sys.exit(0 if not aasx(p).ok() else 1)
''')
S["c03-aasx-model-type"] = ("C03", [(MA, '''if args.model_type != "Environment":''', '''if args.model_type.capitalize() != "Environment":''')], "a package that is checked for a model type that differs from Environment in case only", "an unknown model type is ignored for packages and the command ends with status 0",
PK + '''import subprocess, tempfile, zipfile, os
with tempfile.TemporaryDirectory() as d:
    n = os.path.join(d, "x.aasx")
    p = {"_rels/.rels": rels(("aasx-origin", "/aasx/o")), "aasx/o": "", "aasx/_rels/o.rels": rels(("aas-spec", "/aasx/a.json")), "aasx/a.json": "{}", "[Content_Types].xml": "<Types xmlns=\\"http://schemas.openxmlformats.org/package/2006/content-types\\"/>"}
    with zipfile.ZipFile(n, "w") as z:
        for k, v in p.items():
            z.writestr(k, v)
    a = subprocess.run([sys.executable, "-m", "aas_test_engines", "check_file", n], capture_output=True).returncode
    b = subprocess.run([sys.executable, "-m", "aas_test_engines", "check_file", n, "--model_type", "environment"], capture_output=True).returncode
sys.exit(0 if a == 0 and b != 0 else 1)
''')

if __name__ == "__main__":
    for k in sys.argv[1:] or S:
        print(k)
        main(k, *S[k])
