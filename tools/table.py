#!/usr/bin/env python3
"""Prints the table of DESIGN.md from the evidence of the last run. No check runs this."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
print("| check | worlds | states | transitions | said something on | seconds |\n|---|---|---|---|---|---|")
for i in range(1, 28):
    f = f"{H}/evidence/C{i:02}.json"
    if not os.path.exists(f):
        continue
    e = json.load(open(f))
    c = e["coverage"]
    n = len(c.get("worlds", e.get("worlds", [])))
    print("| C%02d | %d | %s | %s | %s | %s |" % (i, n, f"{c['states']:,}", f"{c['transitions']:,}", f"{c.get('cases_where_the_property_applied', 0):,}", e.get("wall_s", "?")))
