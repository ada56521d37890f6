"""B12: barriers"""
import cocotb

from engine import simk, uvmenv
from engine.runner import Harness
from engine.symex import eq
from .b05 import truth
from .micro import Micro, distinct

_c = {}


def setup():
    uvmenv.setup()
    from uvm.base.uvm_barrier import UVMBarrier
    from uvm.base.uvm_pool import UVMBarrierPool
    _c.update(B=UVMBarrier, P=UVMBarrierPool)


class Model:
    def __init__(self, mi, thr):
        self.mi, self.thr = mi, thr
        self.n, self.auto, self.at = 0, True, False
        self.q, self.orphans = [], []

    def release(self):
        self.mi.wake(self.q)
        self.n = 0

    def reset(self, wake):
        self.at = False
        if wake:
            self.mi.wake(self.q)
        else:
            self.orphans += self.q
            del self.q[:]
        self.n = 0

    def set_thr(self, v):
        self.thr = v
        if v <= self.n:
            self.reset(True)


def model_proc(ctx, mi, b, pid, script, log):
    for k, (d, op, arg) in enumerate(script):
        if d is not None:
            yield ("t", d)
        if op == "wait":
            if not b.at:
                b.n += 1
                if b.n >= b.thr:
                    if not b.auto:
                        b.at = True
                    b.release()
                else:
                    yield b.q
        elif op == "reset":
            b.reset(truth(ctx, arg))
        elif op == "thr":
            b.set_thr(arg)
        elif op == "auto":
            b.auto = truth(ctx, arg)
            b.at = False
        log.append((pid, k, mi.now))


async def real_proc(ctx, b, pid, script, log):
    for k, (d, op, arg) in enumerate(script):
        if d is not None:
            await simk.delay(d)
        if op == "wait":
            await b.wait_for()
        elif op == "reset":
            b.reset(truth(ctx, arg))
        elif op == "thr":
            b.set_threshold(arg)
        elif op == "auto":
            b.set_auto_reset(truth(ctx, arg))
        log.append((pid, k, simk.now()))


def compare(ctx, thr, scripts, horizon):
    mi = Micro()
    m = Model(mi, thr)
    want, got, gens = [], [], {}
    for i, s in enumerate(scripts):
        g = model_proc(ctx, mi, m, i, s, want)
        gens[g] = i
        mi.spawn(g)
    mi.run(until=horizon)
    free = {gens[g] for g in m.orphans}
    b = _c["B"]("b", thr)

    async def main():
        for i, s in enumerate(scripts):
            cocotb.start_soon(real_proc(ctx, b, i, s, got))
        await simk.delay(horizon)
    ctx.check(simk.run(main()) == "done", "the barrier does not hang the simulator")
    for i in range(len(scripts)):
        w = [x for x in want if x[0] == i]
        r = [x for x in got if x[0] == i]
        if i in free:
            continue
        ctx.check(len(w) == len(r), "a process passes when the threshold is reached, and only then", model=w, real=r)
        for x, y in zip(w, r):
            ctx.check(eq(x[2], y[2]), "all waiting processes pass in the step of the last arrival", model=w, real=r)
    if not free:
        ctx.check(b.get_num_waiters() == m.n, "number of waiters", model=m.n, real=b.get_num_waiters())
    ctx.check(eq(b.get_threshold(), m.thr), "threshold")
    ctx.cover("all passed" if len(want) == sum(len(s) for s in scripts) else "somebody stays blocked")


def h_arrivals(ctx, procs, rounds):
    """processes arrive at any times, some again at once"""
    thr = ctx.int("thr", 1, procs + 1)
    auto = ctx.bool("auto")
    times = [ctx.int("t%d" % i, 1, 2 * procs) for i in range(procs)]
    distinct(ctx, times)
    scripts = [[(None, "auto", auto)]]
    for i, t in enumerate(times):
        s = [(t, "wait", None)]
        if i < rounds:
            s.append((None, "wait", None))
        scripts.append(s)
    compare(ctx, thr, scripts, 3 * procs)


def h_control(ctx, procs, acts):
    """the threshold, the auto-reset mode and the barrier itself are changed while processes wait"""
    thr = ctx.int("thr", 1, procs + 1)
    auto = ctx.bool("auto")
    times = [ctx.int("t%d" % i, 1, 6) for i in range(procs)]
    scripts = [[(None, "auto", auto)]] + [[(t, "wait", None)] for t in times]
    acc, s = 0, []
    for k in range(acts):
        gap = ctx.int("g%d" % k, 1, 4)
        acc = acc + gap
        times.append(acc)
        op = ctx.choice("op%d" % k, ("reset", "thr", "auto"))
        arg = ctx.int("n%d" % k, 0, procs) if op == "thr" else ctx.bool("b%d" % k)
        s.append((gap, op, arg))
    distinct(ctx, times)
    scripts.append(s)
    compare(ctx, thr, scripts, 20)


def h_cancel(ctx):
    """a waiting process goes away: cancel makes the barrier wait for another one"""
    thr = ctx.choice("thr", (2, 3, 4))
    n = ctx.choice("n", 3)
    kill = ctx.choice("kill", 3)
    ctx.assume(n < thr and 1 <= n and kill < n)
    b = _c["B"]("b", thr)
    done = []

    async def p(i):
        await b.wait_for()
        done.append(i)

    async def main():
        ts = [cocotb.start_soon(p(i)) for i in range(n)]
        await simk.delay(1)
        ts[kill].kill()
        b.cancel()
        ctx.check(b.get_num_waiters() == n - 1, "cancel takes one waiter off")
        for k in range(thr - n):
            cocotb.start_soon(p(n + k))
        await simk.delay(1)
        ctx.check(done == [], "a cancelled process does not count", done=done, n=n, thr=thr)
        cocotb.start_soon(p(99))
        await simk.delay(1)
        ctx.check(len(done) == thr, "the barrier opens for the rest", done=done, n=n, thr=thr)
    ctx.check(simk.run(main()) == "done", "no hang")
    ctx.cover("cancelled")


C = ("all passed", "somebody stays blocked")
HARNESSES = [
    Harness(h_arrivals, "arrivals", procs=4, rounds=2, covers=C, str_mode="conc", fmt_cut=False,
            bounds="4 processes at symbolic times, 2 of them wait again at once, threshold 1..5, auto-reset on or off"),
    Harness(h_control, "control", procs=3, acts=2, covers=C, str_mode="conc", fmt_cut=False,
            bounds="3 processes and 2 set_threshold/reset/set_auto_reset at symbolic times, threshold 1..4"),
    Harness(h_cancel, "cancel", covers=("cancelled",), str_mode="conc", fmt_cut=False, bounds="threshold 2..4"),
    Harness(h_control, "deep", tiers=("thorough",), procs=4, acts=3, covers=C, str_mode="conc", fmt_cut=False,
            bounds="4 processes and 3 control actions at symbolic times, threshold 1..5"),
]
