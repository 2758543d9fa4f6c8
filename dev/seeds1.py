import sys; sys.path.insert(0, "/verif/dev")
from seed import main
R="aas_test_engines/result.py"; M="aas_test_engines/test_cases/v3_0/model.py"; PA="aas_test_engines/test_cases/v3_0/parse.py"; AD="aas_test_engines/test_cases/v3_0/adapter.py"; DT="aas_test_engines/data_types.py"; RF="aas_test_engines/reflect.py"; MA="aas_test_engines/__main__.py"
S={}
S["c01-empty-step"]=("C01",[(R,"""        if exc_val is None:
            if managers:""","""        if exc_val is None:
            if managers and (self.result.sub_results or self.result.ok()):""")],"a step opened with a failing entry which records nothing else","a failing step is lost and the verdict passes",
'''from aas_test_engines.result import start, write
with start("outer") as o:
    with start(AasTestResult("broken", Level.ERROR)):
        pass
sys.exit(0 if not o.ok() and len(o.sub_results) == 1 else 1)
''')
S["c02-leaf-escape"]=("C02",[(R,"""            s += f'<div class="{cls}">{msg}</div>\\n'""","""            s += f'<div class="{cls}">{msg or self.message}</div>\\n'.replace("&quot;", '"').replace("&amp;", "&")""")],
"a leaf message which contains an escaped entity itself","text of a message is interpreted as markup",
'''import html
m = "value &lt;script&gt; is invalid"
r = AasTestResult("root")
r.append(AasTestResult(m, Level.ERROR))
sys.exit(0 if html.escape(m) in r.to_html() else 1)
''')
S["c03-header-last-colon"]=("C03",[(MA,'        key, value = s.split(":", 1)','        key, value = s.rsplit(":", 1)')],"a header whose value contains a colon","header is sent with another name and value",
'''from aas_test_engines.__main__ import _parse_header_value as p
import threading, http.server, subprocess
got = []


class H(http.server.BaseHTTPRequestHandler):
    def do_GET(self):
        got.append(self.headers.get("X-Target"))
        self.send_response(404)
        self.end_headers()

    def log_message(self, *a):
        pass


s = http.server.HTTPServer(("127.0.0.1", 0), H)
threading.Thread(target=s.serve_forever, daemon=True).start()
subprocess.run([sys.executable, "-m", "aas_test_engines", "check_server", f"http://127.0.0.1:{s.server_port}",
                "AssetAdministrationShellRepositoryServiceSpecification/SSP-002", "--filter", "GetDescription", "--header", "X-Target:urn:a:b"], capture_output=True)
s.shutdown()
sys.exit(0 if got and all(g == "urn:a:b" for g in got) else 1)
''')
S["c05-schema-attribute"]=("C05",[(PA,"        if key not in all_fields:","        if key not in all_fields and not key.startswith((\"$\", \"@\")):")],"an attribute whose name starts with $ or @","unknown attributes are silently ignored",
'''d = env()
d["submodels"][0]["$schema"] = 5
sys.exit(0 if not js(d).ok() else 1)
''')
S["c06-tail-text"]=("C06",[(AD,"        _assert_no_children(self.value)\n        return self.value.text or \"\"","        if len(self.value) and not self.value.text:\n            _assert_no_children(self.value)\n        return self.value.text or \"\"")],
"mixed content: an element nested in non-empty text","child elements within text content are accepted",
'''x = """<environment xmlns="https://admin-shell.io/aas/3/0"><submodels><submodel><id>urn:s<b/></id></submodel></submodels></environment>"""
sys.exit(0 if not file.check_xml_file(io.StringIO(x)).ok() else 1)
''')
S["c07-strip-length"]=("C07",[(RF,"            if len(raw_value) > self.max_length:","            if len(raw_value.strip()) > self.max_length:")],"an overlong string whose excess consists of blanks","maximum length is not enforced",
'''sys.exit(0 if not js({"submodels": [{"modelType": "Submodel", "id": "u" * 1995 + " " * 10 + "\\n" * 100}]}).ok() else 1)
''')
S["c08-uint-bound"]=("C08",[(DT,"_is_bounded_integer(s, 0, 4294967295)","_is_bounded_integer(s, 0, 4294967296)")],"the single value 4294967296 of type unsignedInt","a value outside of the value range is accepted",
'''def p(v):
    return js(env({"modelType": "Property", "idShort": "a", "valueType": "xs:unsignedInt", "value": v}))
assert p("4294967295").ok()
sys.exit(0 if not p("4294967296").ok() else 1)
''')
S["c09-key-after-first"]=("C09",[(M,"        for idx, key in enumerate(self.keys[1:]):\n            if key.type not in FragmentKeys:","        for idx, key in enumerate(self.keys[1:-1]):\n            if key.type not in FragmentKeys:")],
"a model reference whose last key is no fragment key","the last key of a chain may be anything",
'''r = {"type": "ModelReference", "keys": [{"type": "Submodel", "value": "urn:s"}, {"type": "Property", "value": "a"}, {"type": "Submodel", "value": "urn:t"}]}
sys.exit(0 if not js(env(semanticId=r)).ok() else 1)
''')
S["c10-unique-skip"]=("C10",[(M,"        if i.id_short is None:\n            continue\n        if i.id_short.raw_value in seen:","        if i.id_short is None:\n            break\n        if i.id_short.raw_value in seen:")],
"duplicates after an element without idShort","duplicate idShorts are not reported as AASd-022",
'''P = lambda i: {"modelType": "Property", "valueType": "xs:string", **({"idShort": i} if i else {})}
d = env(P("b"), P(None), P("a"), P("a"))
r = "".join(js(d).to_lines())
sys.exit(0 if "AASd-022" in r else 1)
''')
S["c11-stop-at-first"]=("C11",[(PA,"            result.append(AasTestResult(f\"{e} @ {path}\", level=e.level))\n    for field","            result.append(AasTestResult(f\"{e} @ {path}\", level=e.level))\n            break\n    for field")],
"an object violating two constraints","only the first violation of an object is reported",
'''d = env({"modelType": "Property", "idShort": "_a", "valueType": "xs:int", "value": "x"})
r = "".join(js(d).to_lines())
sys.exit(0 if "AASd-002" in r and ("xs:int" in r or r.count("violated") + r.count("alue") > 2) else 1)
''')
S["c12-english-any"]=("C12",[(DT,'re.compile("^(en|EN)(-.*)?$")','re.compile("^(en|EN)")')],"a language tag that only starts with en","a definition in another language counts as English",
'''c = {"modelType": "DataSpecificationIec61360", "preferredName": [{"language": "enq", "text": "x"}], "value": "1"}
ref = {"type": "ExternalReference", "keys": [{"type": "GlobalReference", "value": "https://admin-shell.io/DataSpecificationTemplates/DataSpecificationIec61360/3"}]}
d = {"conceptDescriptions": [{"modelType": "ConceptDescription", "id": "urn:c", "embeddedDataSpecifications": [{"dataSpecification": ref, "dataSpecificationContent": c}]}]}
r = js(d)
assert "AASd" not in "".join(r.to_lines())
sys.exit(0 if not r.ok() else 1)
''')
if __name__ == "__main__":
    sel = sys.argv[1:] or list(S)
    for k in sel:
        main(k, *S[k])
