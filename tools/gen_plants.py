"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json (the key "first" of a meta.json
says what was strengthened when its check missed the bug at first)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", d, "meta.json")))
    rows.append("| %s | %s | %s | %s |" % (d, m["property"], m["needs"], m.get("first", "")))
p = os.path.join(V, "DESIGN.md")
s = open(p).read()
a, b = "<!-- plants -->\n", "<!-- /plants -->"
s = s[:s.index(a) + len(a)] + "| plant | caught by | needs | missed at first: what was strengthened |\n|--|--|--|--|\n" + "\n".join(rows) + "\n" + s[s.index(b):]
open(p, "w").write(s)
print(len(rows), "plants")
