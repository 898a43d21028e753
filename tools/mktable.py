"""Puts the table of planted bugs into DESIGN.md."""
import glob
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = {}
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    rows.setdefault(json.load(open(f))["property"], []).append(os.path.basename(os.path.dirname(f)))
t = ["<!-- bugs -->", "| caught by (quick) | planted bugs |", "|---|---|"]
t += ["| %s | %s |" % (k, ", ".join(v)) for k, v in sorted(rows.items())]
t += ["", "%d in all." % sum(map(len, rows.values())), "<!-- /bugs -->"]
p = V + "/DESIGN.md"
s = open(p).read()
if "@@TABLE@@" in s:
    s = s.replace("@@TABLE@@", "\n".join(t))
else:
    a, b = s.index("<!-- bugs -->"), s.index("<!-- /bugs -->") + len("<!-- /bugs -->")
    s = s[:a] + "\n".join(t) + s[b:]
open(p, "w").write(s)
