"""fills the table of planted bugs into DESIGN.md"""
import json, os, glob, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| bug | property | needs | caught by |", "|---|---|---|---|"]
for d in sorted(glob.glob(R + "/seeded/*")):
    m = json.load(open(d + "/meta.json"))
    rows.append(f"| {os.path.basename(d)} | {m['property']} | {m['needs']} | {m['property'] if m.get('caught', True) else '-'} |")
s = open(R + "/DESIGN.md").read()
a = s.index("## Planted bugs")
open(R + "/DESIGN.md", "w").write(s[:a] + "## Planted bugs\nAll of these were confirmed in a scratch copy (demo fails with the change, tests pass).\n\n" + "\n".join(rows) + "\n")
