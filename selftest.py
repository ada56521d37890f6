#!/usr/bin/env python3
"""setup_cmd: check that the toolchain is there and that the engine gives the right verdicts."""
import os
import subprocess
import sys
H = os.path.dirname(os.path.abspath(__file__))
# h_bad must be refuted with a replayed counterexample, the others must hold
a = subprocess.run([sys.executable, os.path.join(H, "check.py"), "S00", "--only", "h_bad"], capture_output=True, text=True)
b = subprocess.run([sys.executable, os.path.join(H, "check.py"), "S00", "--only", "h_basic", "--only", "h_sched",
                    "--only", "h_ops"], capture_output=True, text=True)
try:
    os.remove(os.path.join(H, "evidence", "S00.json"))
except OSError:
    pass
ok = a.returncode == 1 and "VIOLATION" in a.stdout and b.returncode == 0
if not ok:
    print(a.stdout, a.stderr, b.stdout, b.stderr)
print("selftest", "ok" if ok else "FAILED")
sys.exit(0 if ok else 1)
