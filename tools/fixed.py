#!/usr/bin/env python3
"""fixed.py PROP COMMIT [PROP COMMIT ...]: record repairs in known_findings.json ("fixed" suppresses nothing)"""
import json
import os
import subprocess
import sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F = os.path.join(H, "known_findings.json")
d = json.load(open(F))
fx = d.setdefault("fixed", [])
a = sys.argv[1:]
for prop, c in zip(a[::2], a[1::2]):
    s = subprocess.check_output(["git", "-C", "/repo", "log", "-1", "--format=%h %s", c], text=True).strip()
    h, subj = s.split(" ", 1)
    assert subj.startswith("fix: ")
    line = "fixed: property=%s %s %s" % (prop, h, subj[5:])
    if not any(" %s " % h in x for x in fx):
        fx.append(line)
json.dump(d, open(F, "w"), indent=1)
open(F, "a").write("\n")
print(len(fx))
