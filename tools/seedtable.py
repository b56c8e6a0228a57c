#!/usr/bin/env python3
"""Prints DESIGN.md's table of planted bugs from seeded/*/meta.json."""
import json, os
D = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "seeded")
print("| planted bug | caught by | needs |\n|---|---|---|")
for s in sorted(os.listdir(D)):
    m = json.load(open(os.path.join(D, s, "meta.json")))
    p = open(os.path.join(D, s, "patch.diff")).read()
    odd = " *" if "+++ b/" in p and (".td\n" in p or "/benchmark/" in p) else ""
    print("| %s%s | %s | %s |" % (s, odd, m["property"], m["needs"]))
