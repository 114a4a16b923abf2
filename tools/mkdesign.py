#!/usr/bin/env python3
"""Brings the parts of DESIGN.md which are derived (bounds, planted bugs) up to date. Not used by any check."""
import glob, json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import CHECKS
s = open(V + "/DESIGN.md").read()
for c, d in CHECKS.items():
    m = re.search(r"^### %s .*?(?=^### |^## )" % c, s, re.M | re.S)
    if not m:
        print("no section for", c)
        continue
    sec = m.group(0)
    b = d["bounds"]
    new = re.sub(r"^Bounds: .*$", lambda _: "Bounds: " + "; ".join(b) + ".", sec, flags=re.M)
    if d.get("outside"):
        new = re.sub(r"^Outside: .*$", lambda _: "Outside: " + "; ".join(d["outside"]) + ".", new, flags=re.M)
    s = s.replace(sec, new)
rows = []
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(f))
    what = " ".join(str(m["what_it_breaks"]).split())
    rows.append("| %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), m["property"], what.replace("|", "/")))
t = "| planted bug | caught by | what it breaks |\n|---|---|---|\n" + "\n".join(rows) + "\n"
s = re.sub(r"(<!-- planted -->\n).*?(<!-- /planted -->)", lambda m: m.group(1) + t + m.group(2), s, flags=re.S)
open(V + "/DESIGN.md", "w").write(s)
print(len(rows), "planted bugs")
