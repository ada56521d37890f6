#!/usr/bin/env python3
"""replay.py FILE: run a recorded counterexample on the real code with plain Python
values (no solver).  Exit 1 if the violation reproduces, 0 if it does not."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/veriftools/pyvenv/bin/python3"
if not sys.executable.startswith("/opt/veriftools") and os.path.exists(PY):
    os.execv(PY, [PY] + sys.argv)
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from engine import runner  # noqa: E402


def main():
    a = sys.argv[1:]
    if a[:1] == ["--json"]:
        d = json.load(sys.stdin)
        fd = os.dup(1)
        dn = os.open(os.devnull, os.O_WRONLY)
        os.dup2(dn, 1)
        out = runner.replay(d["property"], d["harness"], d["values"])
        sys.stdout.flush()
        os.dup2(fd, 1)
        os.write(1, (json.dumps(out, default=str) + "\n").encode())
        os._exit(0)
    d = json.load(open(a[0]))
    print("replaying %s / %s with" % (d["property"], d["harness"]))
    for k, v in d["values"].items():
        print("   %s = %r" % (k, v))
    out = runner.replay(d["property"], d["harness"], d["values"])
    print(json.dumps(out, indent=1, default=str))
    sys.stdout.flush()
    os._exit(1 if out["outcome"] in ("failed", "exception") else 0)


main()
