"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(V, "DESIGN.md")
t = open(p).read()
head = "| id (property first) | needs | breaks |\n|---|---|---|\n"
a = t.index(head) + len(head)
b = a
while t[b:b + 1] == "|":
    b = t.index("\n", b) + 1
rows = ""
for i in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", i, "meta.json")))
    rows += "| %s | %s | %s |\n" % (i, m["needs"], m["what_it_breaks"])
open(p, "w").write(t[:a] + rows + t[b:])
