"""Bootstrap: the real cocotb scheduler on a stand-in for the simulator.

`cocotb.simulator` (the C extension that talks to Verilator/Icarus) is replaced
by the small time wheel below; everything above it -- cocotb's scheduler, tasks,
triggers, and all of uvm -- is the real code.  Delays may be symbolic: the wheel
picks the earliest callback by comparing times, so the solver decides every
relative order of events.
"""
import os
import sys
import types
import warnings

REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")
SITE = "/opt/venv/lib/python3.12/site-packages"

NOW = 0
_seq = 0
_timed = []      # [time, callback, args, handle]
_rw, _ro, _next = [], [], []


class _Hdl:
    __slots__ = ("live",)

    def __init__(self):
        self.live = True

    def deregister(self):
        self.live = False


def _reg(lst):
    def f(cb, *args):
        h = _Hdl()
        lst.append((cb, args, h))
        return h
    return f


def _reg_timed(t, cb, *args):
    h = _Hdl()
    _timed.append((NOW + t, cb, args, h))
    return h


def _make_sim():
    m = types.ModuleType("cocotb.simulator")
    m.is_running = lambda: True
    m.get_precision = lambda: -9
    m.get_sim_time = lambda: (0, NOW)
    m.get_simulator_product = lambda: "verif"
    m.get_simulator_version = lambda: "0"
    m.log_level = lambda *_: None
    m.stop_simulator = lambda: None
    m.get_root_handle = lambda *_: None
    m.register_timed_callback = _reg_timed
    m.register_rwsynch_callback = _reg(_rw)
    m.register_readonly_callback = _reg(_ro)
    m.register_nextstep_callback = _reg(_next)
    m.register_value_change_callback = lambda *a: _Hdl()
    for i, k in enumerate("MODULE STRUCTURE REG NET NETARRAY REAL INTEGER ENUM STRING GENARRAY "
                          "OBJECTS DRIVERS LOADS UNKNOWN MEMORY PARAMETER".split()):
        setattr(m, k, i)
    m.gpi_sim_hdl = type("gpi_sim_hdl", (), {})
    m.gpi_cb_hdl = _Hdl
    m.gpi_iterator_hdl = type("gpi_iterator_hdl", (), {})
    return m


def bootstrap():
    """make `import uvm` work without a simulator; idempotent"""
    if "cocotb.simulator" in sys.modules:
        return
    sys.dont_write_bytecode = True
    warnings.simplefilter("ignore")
    for p in (SITE, SRC):
        if p not in sys.path:
            sys.path.insert(0, p)
    os.environ.setdefault("COCOTB_LOG_LEVEL", "CRITICAL")
    sim = _make_sim()
    sys.modules["cocotb.simulator"] = sim
    import cocotb
    cocotb.simulator = sim
    cocotb.SIM_NAME = "verif"
    cocotb.SIM_VERSION = "0"
    cocotb.plusargs = {}
    cocotb.argv = []
    import logging
    logging.getLogger("cocotb").setLevel(logging.CRITICAL + 1)
    import cocotb.triggers
    import cocotb.utils
    from . import symex
    real_steps = cocotb.utils.get_sim_steps

    def get_sim_steps(time, units="step", *a, **k):
        if symex.is_sym(time):
            return time          # symbolic delays are in simulator steps (ns)
        return real_steps(time, units, *a, **k)
    cocotb.utils.get_sim_steps = get_sim_steps
    cocotb.triggers.get_sim_steps = get_sim_steps
    new_scheduler()


class Done(Exception):
    pass


def new_scheduler():
    import cocotb
    from cocotb.scheduler import Scheduler
    global NOW
    NOW = 0
    del _timed[:], _rw[:], _ro[:], _next[:]
    cocotb.scheduler = Scheduler(handle_result=lambda t: None)
    return cocotb.scheduler


class Hang(Exception):
    pass


def run(coro, max_events=20000):
    """Run coro as the test.  Returns "done", or "hang" when nothing is left to run."""
    import cocotb
    from cocotb.task import Task
    global NOW
    sched = new_scheduler()
    state = {}

    async def main():
        state["ret"] = await coro
        state["done"] = True
    t = Task(main())
    sched._add_test(t)          # the test starts at once, as under regression
    n = 0
    while True:
        if t._outcome is not None or state.get("done"):
            break
        n += 1
        if n > max_events:
            return "livelock"
        # 1. timed callbacks due now
        i = _due()
        if i is not None:
            _, cb, args, h = _timed.pop(i)
            cb(*args)
            continue
        # 2. read-write sync, 3. read-only sync
        fired = False
        for q in (_rw, _ro):
            while q:
                cb, args, h = q.pop(0)
                if h.live:
                    cb(*args)
                    fired = True
                    break
            if fired:
                break
        if fired:
            continue
        # 4. advance time
        _timed[:] = [e for e in _timed if e[3].live]
        if not _timed:
            if _next:
                cb, args, h = _next.pop(0)
                if h.live:
                    cb(*args)
                continue
            break
        best = _timed[0][0]
        for e in _timed[1:]:
            if e[0] < best:
                best = e[0]
        NOW = best
        pend = list(_next)
        del _next[:]
        for cb, args, h in pend:
            if h.live:
                cb(*args)
    if t._outcome is not None:
        t._outcome.get()         # re-raise errors, of this or of a forked task
    if state.get("done"):
        return "done"
    return "hang"


def _due():
    for i, e in enumerate(_timed):
        if e[3].live and (e[0] is NOW or e[0] == NOW):
            return i
    return None


def now():
    return NOW


def delay(t):
    """Timer for a concrete or symbolic number of steps (t >= 0; 0 is a no-op delay)"""
    from cocotb.triggers import Timer
    return Timer(t, "step")
