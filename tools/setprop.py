#!/usr/bin/env python3
"""setprop.py ID FIELD OLD NEW: replace text in one field of one property of properties.jsonl."""
import json, os, sys
i, f, a, b = sys.argv[1:]
path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
rows = [json.loads(l) for l in open(path)]
n = 0
for d in rows:
    if d["id"] == i:
        assert a in d[f], d[f]
        d[f] = d[f].replace(a, b)
        n += 1
assert n == 1
with open(path, "w") as o:
    for d in rows:
        o.write(json.dumps(d) + "\n")
