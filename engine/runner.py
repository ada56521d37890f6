"""Runs the harnesses of one property, collects verdicts, replays counterexamples."""
import importlib
import json
import os
import select
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
_TOOL = 4
_funcs = set()


def _start_monitor(src):
    mon = sys.monitoring
    try:
        mon.use_tool_id(_TOOL, "verif")
    except ValueError:
        return
    pre = src.rstrip("/") + "/"

    def on_start(code, off):
        f = code.co_filename
        if f.startswith(pre):
            _funcs.add(f[len(pre):] + ":" + code.co_qualname)
        return mon.DISABLE
    mon.register_callback(_TOOL, mon.events.PY_START, on_start)
    mon.set_events(_TOOL, mon.events.PY_START)


def take_funcs():
    r = sorted(_funcs)
    _funcs.clear()
    return r


class Harness:
    def __init__(self, fn, name=None, tiers=("quick", "thorough"), covers=(), bounds="",
                 str_mode="opaque", fmt_cut=True, hash_mode="conc", **params):
        self.fn = fn
        self.name = name or fn.__name__
        self.tiers = tiers
        self.covers = tuple(covers)
        self.bounds = bounds
        self.params = params
        self.str_mode = str_mode
        self.fmt_cut = fmt_cut
        self.hash_mode = hash_mode


def load_prop(pid):
    from . import simk
    simk.bootstrap()
    sys.path.insert(0, HERE)
    return importlib.import_module("props." + pid.lower())


def _run_path(h, ctx, tier):
    """execute one harness body; only ends through ctx.finish / exceptions"""
    from . import simk
    import sys
    h.fn(ctx, **h.params)


def _prepare(prop, symbolic, h):
    from . import simk, symex
    if symbolic:
        symex.install_shims(["uvm", "engine.uvmenv", "cocotb_coverage"])
        if h.fmt_cut:
            cut_formatting()


def cut_formatting():
    """string building is not the subject: give sformatf an empty body"""
    import sys
    import uvm.base.sv  # noqa: F401
    svm = sys.modules["uvm.base.sv"]

    def fake(*a):
        return "<fmt>"
    svm.sv.sformatf = staticmethod(fake)
    for name, mod in list(sys.modules.items()):
        if mod is not None and name.startswith("uvm") and getattr(mod, "sformatf", None) is not None \
                and callable(mod.sformatf):
            mod.sformatf = fake


def repo_frames(tb, src):
    out = []
    for f in traceback.extract_tb(tb):
        out.append((f.filename, f.lineno, f.name))
    return out


def run_check(pid, tier, budget=None, only=None, verbose=False, jobs=None, real_fmt=False):
    from . import simk, symex
    t0 = time.monotonic()
    prop = load_prop(pid)
    simk.bootstrap()
    if hasattr(prop, "setup"):
        prop.setup()
    harnesses = [h for h in prop.HARNESSES if tier in h.tiers and (not only or h.name in only)]
    known = [k for k in load_known() if k["property"] == pid and k.get("status", "open") == "open"]
    if budget is None:
        budget = 780 if tier == "quick" else 6 * 3600
    deadline = time.monotonic() + budget
    jobs = jobs or int(os.environ.get("VERIF_JOBS", os.cpu_count() or 4))
    tmp = tempfile.mkdtemp(prefix="verif-%s-" % pid)
    rec = os.path.join(tmp, "rec.jsonl")
    open(rec, "w").close()
    r, w = os.pipe()
    os.set_blocking(r, False)
    os.write(w, b"x" * jobs)
    life_r, life_w = os.pipe()
    os.set_blocking(life_r, False)
    _start_monitor(os.path.join(simk.SRC))
    import ctypes
    try:
        ctypes.CDLL(None).prctl(36, 1, 0, 0, 0)   # reap orphaned path processes
    except Exception:
        pass
    sys.stdout.flush()
    pids = []
    for h in harnesses:
        p = os.fork()
        if p == 0:
            os.setpgid(0, 0)
            os.close(life_r)
            # wait for a job token
            while True:
                try:
                    if os.read(r, 1):
                        break
                except BlockingIOError:
                    select.select([r], [], [], 5)
            if not verbose:
                dn = os.open(os.devnull, os.O_WRONLY)
                os.dup2(dn, 1)
                os.dup2(dn, 2)
            ctx = symex.SymCtx(h, rec, (r, w), deadline, known)
            ctx.async_child = True
            if real_fmt:
                h.str_mode, h.fmt_cut = "conc", False
            ctx.str_mode = h.str_mode
            ctx.hash_mode = h.hash_mode
            symex.CTX = ctx
            try:
                _prepare(prop, True, h)
                _run_path(h, ctx, tier)
            except symex.EngineLimit as e:
                ctx.finish("limit", why=str(e))
            except BaseException as e:
                if verbose:
                    traceback.print_exc()
                exc_finish(ctx, e)
            ctx.finish("ok")
        try:
            os.setpgid(p, p)
        except OSError:
            pass
        pids.append(p)
    os.close(life_w)
    kids = set(pids)
    res = Results()
    pos = 0
    stop = None
    f = open(rec)
    buf = [""]

    def drain():
        data = buf[0] + f.read()
        *lines, buf[0] = data.split("\n")
        for line in lines:
            res.add(json.loads(line))
    viol_at = None
    while True:
        drain()
        if res.violations and viol_at is None:
            viol_at = time.monotonic()
        # stop soon after the first violation
        if viol_at and (time.monotonic() - viol_at > 2 or len(res.violations) > 20):
            stop = "violation"
        if time.monotonic() > deadline + 30:
            stop = "deadline"
        if stop:
            for p in pids:
                try:
                    os.killpg(p, signal.SIGKILL)
                except OSError:
                    pass
        # reap
        try:
            while True:
                p, st = os.waitpid(-1, os.WNOHANG)
                if not p:
                    break
        except ChildProcessError:
            pass
        try:
            if os.read(life_r, 1) == b"":
                break
        except BlockingIOError:
            pass
        select.select([life_r], [], [], 0.05)
    try:
        while os.waitpid(-1, 0)[0]:
            pass
    except ChildProcessError:
        pass
    drain()
    f.close()
    shutil.rmtree(tmp, ignore_errors=True)
    res.expected = len(harnesses) + res.forks
    res.stop = stop
    res.wall = time.monotonic() - t0
    return prop, harnesses, res


def exc_finish(ctx, e):
    tb = traceback.extract_tb(e.__traceback__)
    where = [(f.filename, f.name) for f in tb][-1] if tb else ("?", "?")
    from . import symex
    fr = "%s in %s" % (os.path.basename(where[0]), where[1])
    label = "no-exception"
    kfs = ctx._kf(label + ":" + type(e).__name__)
    ctx._ensure_model()
    for k in kfs:
        c = ctx._kf_cond(k)
        if c is True or (c is not False and ctx._check(symex.not_(c))[0].r == -1):
            ctx.kf.append(k["id"])
            ctx.finish("known")
    ctx.finish("violation", label=label, values=ctx._values(ctx.model),
               info={"exception": type(e).__name__ + ": " + str(e)[:300], "at": fr,
                     "tb": ["%s:%s %s" % (os.path.basename(f.filename), f.lineno, f.name)
                            for f in tb][-6:]})


class Results:
    def __init__(self):
        self.paths = {}
        self.kinds = {}
        self.nq = 0
        self.qt = 0.0
        self.asserts = {}
        self.trivial = 0
        self.covers = {}
        self.funcs = set()
        self.forks = 0
        self.violations = []
        self.known = {}
        self.limits = []
        self.incomplete = []
        self.samples = []
        self.terminal = 0
        self.maxdepth = 0

    def add(self, r):
        self.terminal += 1
        h = r["h"]
        self.kinds[r["kind"]] = self.kinds.get(r["kind"], 0) + 1
        self.paths[h] = self.paths.get(h, 0) + 1
        self.nq += r["nq"]
        self.qt += r["qt"]
        self.forks += r["forks"]
        self.trivial += r["trivial"]
        self.maxdepth = max(self.maxdepth, r["depth"])
        for k, v in r["asserts"].items():
            self.asserts[h + "/" + k] = self.asserts.get(h + "/" + k, 0) + v
        for c in r["covers"]:
            self.covers.setdefault(h, set()).add(c)
        self.funcs.update(r["funcs"])
        for k in r.get("kf", []):
            self.known[k] = self.known.get(k, 0) + 1
        if r["kind"] == "violation":
            self.violations.append(r)
        elif r["kind"] in ("limit", "deadline"):
            self.limits.append((h, r.get("why", r["kind"])))
        if r.get("incomplete"):
            self.incomplete.append((h, r["incomplete"]))
        if "sample" in r and len(self.samples) < 6:
            self.samples.append({"harness": h, "inputs": {k: v for k, v in list(r["sample"].items())[:24]}})


def load_known():
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p))["findings"] if "harness" in k]


def replay(pid, hname, values):
    """in this (fresh) process, on the real code, with plain values"""
    from . import simk, symex
    prop = load_prop(pid)
    simk.bootstrap()
    if hasattr(prop, "setup"):
        prop.setup()
    h = {x.name: x for x in prop.HARNESSES}[hname]
    ctx = symex.ConcCtx(values)
    symex.CTX = ctx
    try:
        _run_path(h, ctx, "quick")
    except symex.CheckFailed:
        pass
    except symex.Infeasible:
        if not ctx.failed:
            return dict(outcome="infeasible")
    except BaseException as e:
        if not ctx.failed:
            tb = traceback.extract_tb(e.__traceback__)
            return dict(outcome="exception", label="no-exception",
                        exception=type(e).__name__ + ": " + str(e)[:500],
                        tb=["%s:%s %s" % (f.filename, f.lineno, f.name) for f in tb][-8:])
    if ctx.failed:
        label, info = ctx.failed[0]
        return dict(outcome="failed", label=label, info={k: repr(v)[:300] for k, v in info.items()})
    return dict(outcome="passed", missing=ctx.missing)


def replay_subprocess(pid, v):
    """-> (reproduced, outcome dict)"""
    payload = json.dumps(dict(property=pid, harness=v["h"], values=v["values"]))
    env = dict(os.environ, PYTHONHASHSEED="0")
    p = subprocess.run([sys.executable, os.path.join(HERE, "replay.py"), "--json", "-"],
                       input=payload, capture_output=True, text=True, env=env, timeout=300)
    try:
        out = json.loads(p.stdout.strip().splitlines()[-1])
    except Exception:
        out = dict(outcome="crash", stderr=p.stderr[-2000:], rc=p.returncode)
    return out["outcome"] in ("failed", "exception"), out
