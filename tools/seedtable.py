"""Rewrite the table of seeded bugs in DESIGN.md.

usage: seedtable.py OUTPUT...   (outputs of tools/seeds.py)
Rows of seeds the outputs do not mention keep what the table said.
"""
import json
import os
import re
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DESIGN = os.path.join(HERE, "DESIGN.md")
text = open(DESIGN).read()
known = {}
for l in text.splitlines():
    m = re.match(r"\| (c\d\d-\S+) \|.*\| (C\d\d) \| (.*) \|$", l)
    if m:
        known[m.group(1)] = (m.group(2), m.group(3))
for f in sys.argv[1:]:
    for l in open(f):
        m = re.match(r"(c\d\d-\S+) (C\d\d) (caught|MISSED)"
                     r"(?:.*?violated  ([^:]+:[^:]*))?", l)
        if m:
            what = (m.group(4) or "").strip()[:70].replace("|", "/")
            known[m.group(1)] = (m.group(2), m.group(3).lower() + (
                ": `%s`" % what if what else ""))
rows = []
for d in sorted(os.listdir(os.path.join(HERE, "seeded"))):
    m = json.load(open(os.path.join(HERE, "seeded", d, "meta.json")))
    c = known.get(d, (m["property"], "not run"))
    rows.append("| %s | %s | %s | %s | %s |" % (
        (d, m["what_it_breaks"].replace("|", "/"),
         m["needs"].replace("|", "/")) + c))
head = "| seed | what it breaks"
a = text.index(head)
lines = text[a:].splitlines()
n = 2
while n < len(lines) and lines[n].startswith("|"):
    n += 1
open(DESIGN, "w").write(text[:a] + "\n".join(lines[:2] + rows + lines[n:])
                        + "\n")
