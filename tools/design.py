#!/usr/bin/env python3-vt
"""write DESIGN.md: tools/design_head.md, one section per property (texts of props/meta.py, bounds of the harnesses,
oracle notes of tools/design_notes.py, repairs of known_findings.json), planted bugs, tools/design_tail.md"""
import glob
import importlib
import json
import os
import re
import sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [H, os.path.join(H, "tools")]
sys.dont_write_bytecode = True
from props import meta  # noqa: E402
from engine import simk  # noqa: E402
simk.bootstrap()
from design_notes import ORACLE, MISSED  # noqa: E402

known = json.load(open(os.path.join(H, "known_findings.json")))
fixed = {}
for line in known["fixed"]:
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", line)
    fixed.setdefault(m[1], []).append((m[2], m[3]))
seeds = {}
for f in sorted(glob.glob(os.path.join(H, "seeded", "*", "meta.json"))):
    d = json.load(open(f))
    seeds.setdefault(d["property"], []).append((os.path.basename(os.path.dirname(f)), d))
out = [open(os.path.join(H, "tools", "design_head.md")).read().rstrip(), ""]
for pid in sorted(meta.P):
    d = meta.P[pid]
    out += ["### %s %s" % (pid, d["title"]), "", d["statement"], "",
            "*Quantified over:* %s." % d["qtext"].rstrip("."), "",
            "*Oracle:* %s" % ORACLE[pid], ""]
    mod = importlib.import_module("props." + pid.lower())
    out.append("*Harnesses* (q = quick, t = thorough): " + "; ".join(
        "`%s` (%s)%s" % (h.name, "".join(t[0] for t in h.tiers), ": " + h.bounds if h.bounds else "")
        for h in mod.HARNESSES) + ".")
    out.append("")
    if pid in fixed:
        out.append("*Defects found and repaired:*")
        out += ["- %s %s" % x for x in fixed[pid]]
        out.append("")
    for k in known["findings"]:
        if k["property"] == pid:
            out += ["*Known finding* `%s`: %s." % (k["id"], k["what"].rstrip(".")), ""]
    for n, s in seeds.get(pid, []):
        out.append("- planted `%s`: %s. Needs: %s. **%s**" % (
            n, s["what_it_breaks"].rstrip("."), s["needs"].rstrip("."), MISSED.get(n, "Caught")))
    if pid in seeds:
        out.append("")
out.append(open(os.path.join(H, "tools", "design_tail.md")).read().rstrip())
open(os.path.join(H, "DESIGN.md"), "w").write("\n".join(out) + "\n")
print(len(meta.P), "properties,", sum(map(len, fixed.values())), "repairs,", sum(map(len, seeds.values())), "planted")
