"""Write the "fixed" list of known_findings.json from tools/fixed.txt."""
import json
import os
HERE = os.path.dirname(os.path.abspath(__file__))
K = os.path.join(os.path.dirname(HERE), "known_findings.json")
d = json.load(open(K))
d["fixed"] = []
for line in open(os.path.join(HERE, "fixed.txt")):
    c, p, w = line.rstrip("\n").split(" ", 2)
    d["fixed"].append("fixed: property=%s %s %s" % (p, c, w))
json.dump(d, open(K, "w"), indent=1)
open(K, "a").write("\n")
