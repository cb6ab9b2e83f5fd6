"""Table of the planted bugs for DESIGN.md (between the SEEDED markers)."""
import json
import os
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
rows = []
for b in sorted(os.listdir(os.path.join(ROOT, "seeded"))):
    m = json.load(open(os.path.join(ROOT, "seeded", b, "meta.json")))
    rows.append("| %s | %s | %s | %s |" % (b, m["property"], m["what_it_breaks"], m["needs"]))
p = os.path.join(ROOT, "DESIGN.md")
s = open(p).read()
(a, b) = ("<!-- SEEDED -->\n", "<!-- /SEEDED -->\n")
t = a+"| bug | caught by | what it breaks | needs |\n|---|---|---|---|\n"+"\n".join(rows)+"\n"+b
if "SEEDED_TABLE" in s:
    s = s.replace("SEEDED_TABLE\n", t)
else:
    s = s[:s.index(a)]+t+s[s.index(b)+len(b):]
open(p, "w").write(s)
print(len(rows))
