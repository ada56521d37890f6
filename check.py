#!/usr/bin/env python3
"""check.py PID [--tier quick|thorough] [--only harness] [-v]"""
import argparse
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/veriftools/pyvenv/bin/python3"
if not sys.executable.startswith("/opt/veriftools") and os.path.exists(PY):
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(PY, [PY] + sys.argv)
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
sys.setrecursionlimit(5000)
from engine import runner  # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only", action="append")
    ap.add_argument("--budget", type=float)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    prop, hs, res = runner.run_check(a.pid, a.tier, a.budget, a.only, a.v)

    confirmed, unconfirmed = judge(a.pid, res)
    if unconfirmed and not confirmed:
        # string building was cut out of the encoding; perhaps it matters here: try again
        # with every formatted value concretised by the solver
        bad = sorted({v["h"] for v, _ in unconfirmed})
        print("counterexample in %s does not replay; retrying with formatting encoded" % ", ".join(bad))
        left = 840 - (time.time() - t0) if a.tier == "quick" else a.budget
        _, _, res2 = runner.run_check(a.pid, a.tier, left and max(60, left - 60), bad, a.v, real_fmt=True)
        confirmed, unconfirmed = judge(a.pid, res2)
        first, res = res, res2
        for k, n in first.paths.items():
            res.paths.setdefault(k, n)
        res.nq += first.nq
        res.qt += first.qt
        res.terminal += first.terminal
        res.expected += first.terminal
        res.funcs |= first.funcs
        res.limits += [x for x in first.limits if x[0] not in bad]
        for k, n in first.asserts.items():
            res.asserts.setdefault(k, n)
        for k, c in first.covers.items():
            res.covers.setdefault(k, set()).update(c)
        for k, n in first.known.items():
            res.known[k] = res.known.get(k, 0) + n
        if first.stop and not res.violations:
            # the first run was cut short by the bogus counterexample: finish the others
            rest = [h.name for h in hs if h.name not in bad]
            if rest:
                left = 840 - (time.time() - t0) if a.tier == "quick" else a.budget
                _, _, res3 = runner.run_check(a.pid, a.tier, left and max(60, left - 60), rest, a.v)
                c3, u3 = judge(a.pid, res3)
                confirmed += c3
                unconfirmed += u3
                res.limits += res3.limits
                res.violations += res3.violations

    # vacuity: every harness must reach its assertions and its cover points
    vac = []
    if not res.violations and not res.limits and not res.stop:
        for h in hs:
            if not any(k.startswith(h.name + "/") for k in res.asserts):
                vac.append("%s: no assertion reached" % h.name)
            for c in h.covers:
                if c not in res.covers.get(h.name, ()):
                    vac.append("%s: cover point %r not reached" % (h.name, c))
    lost = res.expected - res.terminal if not res.stop else 0

    obligations = sum(res.asserts.values())
    ev = dict(
        property=a.pid, tier=a.tier, seed=seed, level="model_checking",
        coverage=dict(
            states=res.terminal, transitions=res.forks + res.nq,
            traces_validated_against_impl=res.terminal,
            samples=res.samples or [{"note": "no sampled path"}],
            explanation="bounded symbolic execution of the real functions; states = paths completed, "
                        "transitions = path splits plus solver queries; every path runs the code in /repo itself, "
                        "so each is a trace of the implementation",
            obligations=obligations,
            obligations_by_assertion=dict(sorted(res.asserts.items())),
            obligations_concretely_true=res.trivial,
            discharged=obligations - len(res.violations),
            queries=res.nq, solver_s=round(res.qt, 2),
            paths_by_harness=res.paths, path_ends=res.kinds, max_path_splits=res.maxdepth,
            cover_points={k: sorted(v) for k, v in res.covers.items()},
            bounds={h.name: h.bounds or (h.fn.__doc__ or "").strip() for h in hs},
            functions_encoded=sorted(res.funcs),
            exhaustive=not (res.limits or res.incomplete or res.stop or lost or unconfirmed),
            not_explored=[list(x) for x in (res.limits + res.incomplete)][:20],
            known_findings=res.known,
        ),
        assumptions=list(getattr(prop, "ASSUMPTIONS", [])) + [
            "cocotb's C simulator interface is replaced by a time wheel (engine/simk.py); its scheduler is real",
            "z3 is trusted for unsat verdicts; sat verdicts are replayed on the real code",
        ],
        wall_s=round(time.time() - t0, 2), violations=len(confirmed))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", a.pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)

    print("%s tier=%s paths=%d obligations=%d (concrete %d) queries=%d solver=%.1fs wall=%.1fs %s" % (
        a.pid, a.tier, res.terminal, obligations, res.trivial, res.nq, res.qt, res.wall, res.kinds))
    for h in hs:
        print("   %-34s paths=%d" % (h.name, res.paths.get(h.name, 0)))
    for k in load_known_lines(a.pid):
        if k["id"] in res.known:
            print("KNOWN-FINDING: property=%s %s: %s" % (a.pid, k["id"], k["what"]))
    for h, why in (res.limits + res.incomplete)[:10]:
        print("NOT FULLY EXPLORED: %s: %s" % (h, why))

    rc = 0
    for v, out in confirmed:
        d = os.path.join(HERE, "evidence", "replays")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s-%s-%s.json" % (a.pid, v["h"], v["label"].replace("/", "_").replace(" ", "_")[:40]))
        with open(p, "w") as f:
            json.dump(dict(property=a.pid, harness=v["h"], label=v["label"], values=v["values"],
                           solver=v.get("info"), replay=out), f, indent=1)
        print("counterexample in %s: %s violated; inputs %s; replay: %s" % (
            v["h"], v["label"], json.dumps(v["values"])[:1500], json.dumps(out)[:1500]))
        print("VIOLATION property=%s replay=%s" % (a.pid, p))
        rc = 1
    if rc == 0 and unconfirmed:
        for v, out in unconfirmed:
            print("INCONCLUSIVE: solver counterexample does not reproduce: %s/%s %s %s -> %s" % (
                v["h"], v["label"], json.dumps(v["values"])[:1200], v.get("info"), json.dumps(out)[:1500]))
        rc = 2
    if rc == 0 and vac:
        print("VACUOUS: " + "; ".join(vac))
        rc = 3
    if rc == 0 and lost:
        print("LOST PATHS: %d expected, %d reported" % (res.expected, res.terminal))
        rc = 4
    sys.stdout.flush()
    os._exit(rc)


def judge(pid, res):
    confirmed, unconfirmed = [], []
    seen = set()
    for v in res.violations:
        key = (v["h"], v["label"], (v.get("info") or {}).get("at"))
        if key in seen or len(seen) >= 6:
            continue
        seen.add(key)
        ok, out = runner.replay_subprocess(pid, v)
        (confirmed if ok else unconfirmed).append((v, out))
    return confirmed, unconfirmed


def load_known_lines(pid):
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p))["findings"] if k["property"] == pid]


main()
