#!/usr/bin/env python3
"""write properties.jsonl and MANIFEST.json from props/meta.py"""
import json
import os
import sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
sys.dont_write_bytecode = True
from props import meta  # noqa: E402

DEF_NOTE = ("Bounded symbolic execution of the real functions in /repo (forked per feasible branch): z3 shows each "
            "assertion for all inputs on all paths within the bounds printed in the evidence file, nothing is claimed "
            "outside them; counterexamples are replayed on the real code before being reported. Trusts z3's unsat "
            "verdicts, the symbolic integer proxies (engine/symex.py), and the stand-in for cocotb's C simulator.")
with open(os.path.join(H, "properties.jsonl"), "w") as f:
    for pid in sorted(meta.P):
        d = meta.P[pid]
        assert len(d["title"]) <= 80, (pid, len(d["title"]))
        f.write(json.dumps(dict(id=pid, title=d["title"], statement=d["statement"],
                                quantifier=dict(over=d["over"], text=d["qtext"]), why_tests_cant=d["why"],
                                anchors=dict(files=d["files"], mechanism=d["mech"]))) + "\n")
checks = []
for pid in sorted(meta.P):
    if pid in meta.NA:
        continue
    checks.append(dict(property=pid, quick_cmd="python3 check.py %s --tier quick" % pid,
                       thorough_cmd="python3 check.py %s --tier thorough" % pid,
                       technique="path-forking symbolic execution of the real Python code with z3 (bounded)",
                       level="model_checking", level_note=meta.P[pid]["note"] or DEF_NOTE))
m = dict(version=1, setup_cmd="python3 selftest.py", checks=checks,
         not_applicable=[dict(property=k, reason=v) for k, v in sorted(meta.NA.items())],
         notes="see DESIGN.md; no hooks in /repo, only fix: commits")
with open(os.path.join(H, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(meta.NA), "not applicable")
