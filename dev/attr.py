#!/usr/bin/env python3
"""attributes the violations on /repo's tree to the defects that repairs/*.patch repair (cumulatively); writes known_findings.json
attr.py [PID...]   (others keep their entries)"""
import glob, json, os, re, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from concurrent.futures import ThreadPoolExecutor
kf = os.path.join(ROOT, "known_findings.json")
MAP = {
 "unknown versions were silently": "C23", "check_server crashed": "C03", "boolean query": "C19", "a path prefix": "C19", "descending a client": "C19", "additional headers": "C19",
 "malformed, corrupted": "C04", "relationships of parts in the root": "C13", "relationships of a part which": "C13", "a missing aas spec": "C13", "check_xml_file crashed": "C04", "check_json_file crashed": "C04",
 "deeply nested": "C04", "reflect enum": "C24", "check_xml_file ignored": "C03", "a date with more": "C08", "date, dateTime": "C08", "xs:": "C08",
}


def violations(pid, repo, only=None):
    """set of (obligation, key class) and messages"""
    w = tempfile.mkdtemp(prefix="attr")
    try:
        subprocess.check_call(["cp", "-a", ROOT + "/absint", ROOT + "/checks", ROOT + "/run.py", w])
        if os.path.isdir(ROOT + "/spec"):
            subprocess.check_call(["cp", "-a", ROOT + "/spec", w])
        extra = {}
        if only is not None:
            json.dump(sorted(only), open(w + "/only.json", "w"))
            extra["VERIF_ONLY"] = w + "/only.json"
        r = subprocess.run([sys.executable, "run.py", pid], cwd=w, env={**os.environ, **extra, "VERIF_REPO": repo, "VERIF_NO_KNOWN": "1"}, capture_output=True, text=True)
        p = f"{w}/evidence/{pid}.violations.json"
        if r.returncode == 1:
            return {(v["obligation"], (v.get("key") or "").split("@")[0]): v["msg"] for v in json.load(open(p))}
        if r.returncode:
            print(pid, r.stdout[-500:], r.stderr[-500:])
        return {}
    finally:
        shutil.rmtree(w)


def main(pids):
    old = json.load(open(kf)) if os.path.exists(kf) else {"known": []}
    manual = json.load(open(os.path.join(ROOT, "dev", "known.json")))  # [{property, what, match: regex on obligation, key}]
    known = [k for k in old["known"] if pids and k["property"] not in pids]
    patches = sorted(glob.glob(ROOT + "/repairs/*.patch"))
    w = tempfile.mkdtemp(prefix="attrrepo")
    d = w + "/r"
    try:
        subprocess.check_call(["cp", "-a", "/repo", d])
        cur = {}
        for pid in pids:
            cur[pid] = violations(pid, d)
            print(pid, len(cur[pid]), "violations on the tree", flush=True)
            for m in manual:
                if m["property"] != pid:
                    continue
                hit = [k for k in cur[pid] if re.fullmatch(m["match"], k[0]) and k[1] == m["key"]]
                known.append({"property": pid, "what": m["what"], "cases": sorted(hit)})
                for h in hit:
                    del cur[pid][h]
        for p in patches:
            title = re.search(r"^Subject: (?:\[PATCH[^\]]*\] )?fix: ((?:.|\n )*)", open(p).read(), re.M).group(1).replace("\n", "").strip()
            title = re.sub(r"\s+", " ", title.split("---")[0]).strip()
            subprocess.check_call(["git", "-C", d, "apply", "--whitespace=nowarn", p])
            for pid in pids:
                if not cur[pid] or os.path.basename(p) < os.environ.get("ATTR_FROM", ""):
                    continue
                new = violations(pid, d, {k[0] for k in cur[pid]})
                gone = sorted(k for k in cur[pid] if k not in new and not any(n[0] == k[0] for n in new))
                if gone:
                    known.append({"property": pid, "what": title, "repair": "repairs/" + os.path.basename(p), "cases": gone})
                    print("  ", pid, len(gone), title, flush=True)
                cur[pid] = {k: v for k, v in cur[pid].items() if k not in gone}
        for pid in pids:
            for k, v in list(cur[pid].items())[:20]:
                print("UNATTRIBUTED", pid, k, v[:150])
    finally:
        shutil.rmtree(w)
    fixed = []
    for l in reversed(subprocess.check_output(["git", "-C", "/repo", "log", "--format=%h %s", "--grep=^fix:", "2da8c08..HEAD"], text=True).splitlines()):
        h, s = l.split(" fix: ", 1)
        fixed.append(f"fixed: property={next((v for k, v in MAP.items() if s.startswith(k)), "?")} {h} {s}")
    known = sorted((k for k in known if k["cases"]), key=lambda k: (k["property"], k.get("repair", ""), k["what"]))
    with open(kf, "w") as f:
        f.write('{"known": [\n' + ",\n".join(json.dumps(k) for k in known) + '\n],\n"fixed": ' + json.dumps(fixed, indent=1) + "}\n")


main(sys.argv[1:])
