import sys; sys.path.insert(0, "/verif/dev")
from seed import main
P="aas_test_engines/"
R,DT,RF,MA,OPC,FI,HT,CF,AP=[P+x+".py" for x in ("result","data_types","reflect","__main__","opc","file","http","config","api")]
S={}
PK='''import zipfile
CT = '<Types xmlns="http://schemas.openxmlformats.org/package/2006/content-types"/>'
T = "http://admin-shell.io/aasx/relationships/"


def rels(*rs):
    return '<Relationships xmlns="http://schemas.openxmlformats.org/package/2006/relationships">' + "".join(f'<Relationship Id="r{i}" Type="{T}{t}" Target="{x}"/>' for i, (t, x) in enumerate(rs)) + "</Relationships>"


def aasx(parts):
    b = io.BytesIO()
    with zipfile.ZipFile(b, "w") as z:
        for n, c in {"[Content_Types].xml": CT, **parts}.items():
            z.writestr(n, c)
    b.seek(0)
    return file.check_aasx_file(b)


'''
SRV='''import http.server, threading, urllib.parse
got = []


class H(http.server.BaseHTTPRequestHandler):
    def do_POST(self):
        n = int(self.headers.get("Content-Length") or 0)
        got.append((self.command, self.path, self.rfile.read(n).decode(), dict(self.headers)))
        self.send_response(200)
        self.end_headers()
        self.wfile.write(b"{}")
    do_GET = do_PUT = do_POST

    def log_message(self, *a):
        pass


s = http.server.HTTPServer(("127.0.0.1", 0), H)
threading.Thread(target=s.serve_forever, daemon=True).start()
URL = f"http://127.0.0.1:{s.server_port}"
from aas_test_engines.http import HttpClient, Request
'''
S["c13-first-origin"]=("C13",[(FI,"    for aasx_origin in origin_rels:","    for aasx_origin in origin_rels[:1]:")],"a package with two origins","the specifications of the second origin are not checked",
PK+'''r = aasx({"_rels/.rels": rels(("aasx-origin", "/aasx/o1"), ("aasx-origin", "/aasx/o2")), "aasx/o1": "", "aasx/o2": "", "aasx/_rels/o1.rels": rels(("aas-spec", "/aasx/a.json")),
          "aasx/_rels/o2.rels": rels(("aas-spec", "/aasx/b.json")), "aasx/a.json": "{}", "aasx/b.json": '{"x": 1}'})
sys.exit(0 if not r.ok() else 1)
''')
S["c13-relative-folder"]=("C13",[(OPC,"            target = dir + target\n",'            target = dir + target if dir.count("/") < 2 else dir.split("/")[0] + "/" + target\n')],"a relative target of a part in a nested folder","targets are resolved against a wrong folder and a specification is replaced by another part",
PK+'''r = aasx({"_rels/.rels": rels(("aasx-origin", "/a/b/origin")), "a/b/origin": "", "a/b/_rels/origin.rels": rels(("aas-spec", "data.json")), "a/b/data.json": "{}"})
sys.exit(0 if r.ok() else 1)
''')
S["c19-plus"]=("C19",[(HT,'            url += "?" + urlencode(query_params)','            url += "?" + urlencode(query_params, safe="+")')],"a query parameter value containing a plus sign","the server decodes another value",
SRV+'''HttpClient(URL).send(Request("/x", query_parameters={"idShort": "a+b c"}))
q = urllib.parse.parse_qs(urllib.parse.urlparse(got[0][1]).query)
sys.exit(0 if q == {"idShort": ["a+b c"]} else 1)
''')
S["c19-falsy-body"]=("C19",[(HT,"        if request.body is None:\n            body = None","        if not request.body:\n            body = None")],"a request whose body is an empty list, object, string, zero or false","the body is not sent",
SRV+'''HttpClient(URL).send(Request("/x", method="put", body=[]))
sys.exit(0 if got[0][2] == "[]" else 1)
''')
S["c20-blank-include"]=("C20",[(CF,"include_pattern.split(self.PATTERN_SEP) if i.strip()]","include_pattern.split(self.PATTERN_SEP) if i]")],"a filter whose inclusion part consists of white space","a blank pattern counts and nothing is selected",
'''from aas_test_engines.config import TestCaseFilter
sys.exit(0 if TestCaseFilter(" ~A").selects("B") and TestCaseFilter("A").selects("A") else 1)
''')
if __name__ == "__main__":
    sel = sys.argv[1:] or list(S)
    for k in sel:
        main(k, *S[k])
