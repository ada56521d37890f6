"""B11: events"""
import cocotb

from engine import simk, uvmenv
from engine.runner import Harness
from engine.symex import eq
from .b05 import truth
from .micro import Micro, distinct

_c = {}


def setup():
    uvmenv.setup()
    from uvm.base.uvm_event import UVMEvent
    from uvm.base.uvm_object import UVMObject
    from uvm.base.uvm_pool import UVMEventPool
    _c.update(E=UVMEvent, O=UVMObject, P=UVMEventPool)


class Model:
    def __init__(self, mi):
        self.mi = mi
        self.on, self.n, self.tt, self.data, self.at = False, 0, 0, None, None
        self.wt, self.won, self.woff = [], [], []
        self.orphans = []

    def trigger(self, d):
        self.mi.wake(self.wt)
        if not self.on:
            self.on = True
            self.mi.wake(self.won)
        self.n, self.tt, self.at, self.data = 0, self.mi.now, self.mi.now, d

    def reset(self, wake):
        if wake:
            self.mi.wake(self.wt)
        else:
            self.orphans += self.wt
            del self.wt[:]
        if self.on:
            self.on = False
            self.mi.wake(self.woff)
        self.n, self.tt, self.at = 0, 0, None


def model_proc(mi, ev, pid, script, log):
    for k, (d, op) in enumerate(script):
        if d is not None:
            yield ("t", d)
        r = None
        if op == "on":
            if not ev.on:
                ev.n += 1
                yield ev.won
        elif op == "off":
            if ev.on:
                ev.n += 1
                yield ev.woff
        elif op == "trig":
            ev.n += 1
            yield ev.wt
            r = (ev.data,)
        elif op == "ptrig":
            if ev.at is None or not eq(ev.at, mi.now):
                ev.n += 1
                yield ev.wt
            r = (ev.data,)
        elif op == "T":
            ev.trigger(100 * pid + k)
        elif op == "R":
            ev.reset(False)
        elif op == "W":
            ev.reset(True)
        log.append((pid, k, mi.now, r))


async def real_proc(e, pid, script, log):
    for k, (d, op) in enumerate(script):
        if d is not None:
            await simk.delay(d)
        r = None
        if op == "on":
            await e.wait_on()
        elif op == "off":
            await e.wait_off()
        elif op == "trig":
            r = (await e.wait_trigger_data(),)
        elif op == "ptrig":
            r = (await e.wait_ptrigger_data([]),)
        elif op == "T":
            e.trigger(100 * pid + k)
        elif op == "R":
            e.reset()
        elif op == "W":
            e.reset(True)
        log.append((pid, k, simk.now(), r))


def compare(ctx, e, scripts, horizon):
    mi = Micro()
    ev = Model(mi)
    want, got = [], []
    gens = {}
    for i, s in enumerate(scripts):
        g = model_proc(mi, ev, i, s, want)
        gens[g] = i
        mi.spawn(g)
    mi.run(until=horizon)
    free = {gens[g] for g in ev.orphans}   # what a reset without wakeup does to them is not specified

    async def main():
        for i, s in enumerate(scripts):
            cocotb.start_soon(real_proc(e, i, s, got))
        await simk.delay(horizon)
    ctx.check(simk.run(main()) == "done", "the processes do not hang the simulator")
    for i in range(len(scripts)):
        a = [x for x in want if x[0] == i]
        b = [x for x in got if x[0] == i]
        if i in free:
            ctx.check(len(b) >= len(a), "each wait returns when it should")
            continue
        ctx.check(len(a) == len(b), "each wait returns when it should, and only then", model=a, real=b,
                  scripts=scripts)
        for x, y in zip(a, b):
            ctx.check(eq(x[2], y[2]), "a wait returns in the step of its trigger", model=a, real=b)
            ctx.check(x[3] == y[3], "trigger data is the data of the last trigger", model=a, real=b)
    if not free:
        ctx.check(e.is_on() == ev.on and e.is_off() == (not ev.on), "on state")
        ctx.check(e.get_num_waiters() == ev.n, "number of waiters", model=ev.n, real=e.get_num_waiters())
        ctx.check(eq(e.get_trigger_time(), ev.tt), "trigger time")
        if ev.on:
            ctx.check(e.get_trigger_data() == ev.data, "trigger data")
    if want and any(x[3] for x in want):
        ctx.cover("a wait for a trigger returned")
    if len(want) < sum(len(s) for s in scripts):
        ctx.cover("somebody stays blocked")


WAITS = ("on", "off", "trig", "ptrig")


def h_history(ctx, waiters, drivers, follow):
    """waiters start waiting at any time and may go on at once when they wake up;
    a driver triggers and resets the event at any times"""
    N = 6
    times, scripts = [], []
    for w in range(waiters):
        t = ctx.int("w%d" % w, 1, N)
        times.append(t)
        s = [(t, ctx.choice("wop%d" % w, WAITS))]
        if w < follow:
            f = ctx.choice("wf%d" % w, WAITS + ("T", "R"))
            s.append((None, f))
        scripts.append(s)
    acc, s = 0, []
    for d in range(drivers):
        gap = ctx.int("d%d" % d, 1, 3)
        acc = acc + gap
        times.append(acc)
        s.append((gap, ctx.choice("dop%d" % d, ("T", "R", "W"))))
    scripts.append(s)
    distinct(ctx, times)
    compare(ctx, _c["E"]("e"), scripts, 20)


def h_same_step(ctx, n):
    """one process acts several times in one step, another one is waiting or comes later"""
    t0, t1, t2 = ctx.int("t0", 1, 4), ctx.int("t1", 1, 4), ctx.int("t2", 1, 4)
    distinct(ctx, [t0, t1, t2])
    a = [(t0, ctx.choice("a0", ("T", "R")))]
    for i in range(1, n):
        a.append((None, ctx.choice("a%d" % i, ("T", "R", "ptrig"))))
    # (wait_on of an event which is on gives other processes a turn: within one step that is a race)
    scripts = [[(t1, ctx.choice("w", WAITS)), (None, ctx.choice("f", WAITS))], a, [(t2, ctx.choice("x", ("T", "ptrig")))]]
    compare(ctx, _c["E"]("e"), scripts, 20)


def h_callbacks(ctx, n):
    """pre_trigger may veto, in any callback; all are called, in order, on every trigger"""
    e = _c["E"]("e")
    calls = []
    model = []

    class CB(_c["O"]):
        veto = False

        def pre_trigger(self, ev, data):
            calls.append(("pre", self, ev, data))
            return truth(ctx, self.veto)

        def post_trigger(self, ev, data):
            calls.append(("post", self, ev, data))
    cbs = [CB("c%d" % i) for i in range(n)]
    for i, c in enumerate(cbs):
        c.veto = ctx.bool("v%d" % i)
        app = truth(ctx, ctx.bool("app%d" % i))
        e.add_callback(c, app)
        model.append(c) if app else model.insert(0, c)
    uvmenv.clear()
    what = ctx.choice("what", ("dup", "del", "delnone", "none"))
    if what == "dup":
        e.add_callback(cbs[0])
    elif what == "del":
        k = ctx.choice("k", n)
        e.delete_callback(cbs[k])
        model.remove(cbs[k])
    elif what == "delnone":
        e.delete_callback(CB("x"))
    ctx.check(len(uvmenv.reports()) == (1 if what in ("dup", "delnone") else 0), "misuse is warned about",
              got=str(uvmenv.reports()))
    woke = []

    async def waiter():
        await e.wait_trigger()
        woke.append(simk.now())

    async def main():
        cocotb.start_soon(waiter())
        await simk.delay(2)
        e.trigger(7)
        await simk.delay(2)
    ctx.check(simk.run(main()) == "done", "no hang")
    skip = [truth(ctx, c.veto) for c in model]
    exp = [("pre", c, e, 7) for c in model]
    if not any(skip):
        exp += [("post", c, e, 7) for c in model]
        ctx.cover("triggered")
    else:
        ctx.cover("vetoed")
    ctx.check(calls == exp, "pre_trigger of all callbacks in order, then post_trigger unless vetoed",
              got=str([(c[0], c[1].get_name()) for c in calls]), want=str([(c[0], c[1].get_name()) for c in exp]))
    ctx.check(woke == ([] if any(skip) else [2]), "a vetoed trigger wakes nobody", woke=str(woke))
    ctx.check(e.is_on() == (not any(skip)), "a vetoed trigger changes nothing")
    ctx.check(e.get_trigger_data() == (None if any(skip) else 7), "a vetoed trigger changes nothing")


def h_cancel(ctx):
    """cancel takes one waiter off the count and never below zero"""
    e = _c["E"]("e")
    n, k = ctx.choice("n", 4), ctx.choice("k", 5)

    async def main():
        ts = [cocotb.start_soon(e.wait_trigger()) for _ in range(n)]
        await simk.delay(1)
        for i in range(k):
            if i < n:
                ts[i].kill()
            e.cancel()
    simk.run(main())
    ctx.check(e.get_num_waiters() == max(0, n - k), "cancel decrements the number of waiters")
    ctx.cover("cancel")


def h_data(ctx, n):
    """the data of a trigger, given or not, is what is handed over; at any times"""
    t, acc, scr, wait = 0, [], [], []
    for i in range(n):
        t = t + 2
        acc.append(t)
    w = 2 * ctx.choice("w", n + 1) + 1
    e = _c["E"]("e")
    got, want, last = [], [], [None, False]
    ops = [ctx.choice("op%d" % i, ("data", "none", "zero", "reset")) for i in range(n)]
    kind = ctx.choice("kind", ("trig", "ptrig"))
    for i in range(n):
        if ops[i] == "reset":           # what it does to a waiter is not specified
            ctx.assume(acc[i] < w)

    async def waiter():
        await simk.delay(w)
        while True:
            if kind == "trig":
                r = await e.wait_trigger_data()
            else:
                r = await e.wait_ptrigger_data([])
            got.append((r, simk.now()))
            if kind == "ptrig":
                break

    async def main():
        th = cocotb.start_soon(waiter())
        for i in range(n):
            await simk.delay(acc[i] - (acc[i - 1] if i else 0))
            if ops[i] == "reset":
                e.reset()
                last[1] = False
                continue
            v = {"data": 100 + i, "none": None, "zero": 0}[ops[i]]
            e.trigger() if ops[i] == "none" and ctx.bool("noarg%d" % i) else e.trigger(v)
            last[:] = [v, True]
            if w < acc[i]:
                want.append((v, acc[i]))
            if e.is_on():
                ctx.check(e.get_trigger_data() is v or e.get_trigger_data() == v, "get_trigger_data tells the data of the last trigger")
        await simk.delay(10)
        th.kill()
    ctx.check(simk.run(main()) == "done", "no hang")
    if kind == "ptrig":
        del want[1:]
    ctx.check([a for a, _ in got] == [a for a, _ in want], "each trigger hands over its own data", got=str(got), want=str(want))
    for x, y in zip(got, want):
        ctx.check(eq(x[1], y[1]), "when it is triggered")
    if last[1]:
        ctx.check(e.get_trigger_data() == last[0], "the data of the last trigger is kept")
    if want:
        ctx.cover("data")


C = ("a wait for a trigger returned", "somebody stays blocked")
HARNESSES = [
    Harness(h_history, "history", waiters=2, drivers=2, follow=1, covers=C, str_mode="conc", fmt_cut=False,
            bounds="2 waiters (on/off/trigger/ptrigger, one with a second action in the same step), a driver with 2 "
                   "triggers/resets/resets with wakeup; all times symbolic"),
    Harness(h_history, "drivers", waiters=1, drivers=3, follow=1, covers=C, str_mode="conc", fmt_cut=False,
            bounds="1 waiter with a follow-up, a driver with 3 actions; all times symbolic"),
    Harness(h_same_step, "same_step", n=3, covers=C, str_mode="conc", fmt_cut=False,
            bounds="3 actions of one process in one step, a waiter with a follow-up, a third process"),
    Harness(h_callbacks, "callbacks", n=3, covers=("triggered", "vetoed"), str_mode="conc", fmt_cut=False,
            bounds="3 callbacks, each vetoing or not, appended or prepended; duplicate add, delete, bad delete"),
    Harness(h_data, "data", n=3, covers=("data",), str_mode="conc", fmt_cut=False,
            bounds="3 triggers with and without data or resets, a waiter that starts before or after each"),
    Harness(h_cancel, "cancel", covers=("cancel",), str_mode="conc", fmt_cut=False, bounds="<=3 waiters, <=4 cancels"),
    Harness(h_history, "deep", tiers=("thorough",), waiters=2, drivers=3, follow=2, covers=C, str_mode="conc",
            fmt_cut=False, bounds="2 waiters with follow-ups, a driver with 3 actions; all times symbolic"),
]
