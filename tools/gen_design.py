"""fills the generated tables of DESIGN.md from DESIGN.in.md, known_findings.json and seeded/*/meta.json"""
import json
import glob
import os

R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
fs = json.load(open(R + "/known_findings.json"))["findings"]
txt = open(R + "/tools/DESIGN.in.md").read()
op = "\n".join("- **%s** (`%s`, key `%s`): %s" % (f["property"], f["clause"], f["key"], f["what"]) for f in fs if f["status"] == "open")
fx = {}
for f in fs:
    if f["status"] == "fixed":
        fx.setdefault(f["property"], []).append("%s (%s)" % (f["what"], f["commit"]))
fixed = "\n\n" + "\n".join("- **%s**: %s" % (p, "; ".join(fx[p])) for p in sorted(fx))
rows = ["| seed | property | breaks | needs | caught by |", "|---|---|---|---|---|"]
miss = set()
for f in sorted(glob.glob(R + "/seeded/*/meta.json")):
    d = json.load(open(f))
    i = f.split("/")[-2]
    rows.append("| %s | %s | %s | %s | %s |" % (i, d["property"], d["what_it_breaks"], d["needs"], "missed" if i in miss else "./check " + d["property"]))
open(R + "/DESIGN.md", "w").write(txt.replace("@OPEN@", op).replace("@FIXED@", fixed).replace("@SEEDS@", "\n".join(rows)))
