"""B14: semaphores"""
import cocotb

from engine import simk, uvmenv
from engine.runner import Harness
from engine.symex import eq, ge
from .b05 import truth
from .micro import Micro, distinct

_c = {}


def setup():
    uvmenv.setup()
    from uvm.base.sv import semaphore
    _c.update(S=semaphore)


class Model:
    def __init__(self, mi, n):
        self.mi, self.n, self.q = mi, n, []

    def put(self, k):
        self.n = self.n + k
        while self.q and self.q[0][0] <= self.n:
            k, lst = self.q.pop(0)
            self.n = self.n - k
            self.mi.wake(lst)


def model_proc(mi, m, pid, script, log):
    held = 0
    for k, (d, op, n) in enumerate(script):
        if d is not None:
            yield ("t", d)
        r = None
        if op == "get":
            if m.q or m.n < n:
                lst = []
                m.q.append((n, lst))
                yield lst
            else:
                m.n = m.n - n
            held = held + n
        elif op == "try":
            r = bool(m.n >= n)
            if r:
                m.n = m.n - n
                held = held + n
        elif op == "put":        # everything this process has got
            m.put(held)
            held = 0
        log.append((pid, k, mi.now, r))


async def real_proc(ctx, s, pid, script, log, total):
    held = 0
    for k, (d, op, n) in enumerate(script):
        if d is not None:
            await simk.delay(d)
        r = None
        if op == "get":
            await s.get(n)
            held = held + n
        elif op == "try":
            r = s.try_get(n)
            if r:
                held = held + n
        elif op == "put":
            for o in [held]:
                if truth(ctx, ge(o, 1)):
                    s.put(o)
            held = 0
        total[pid] = held
        log.append((pid, k, simk.now(), r))


def h_traffic(ctx, procs, again, keys):
    """processes take keys at any times, hold them for any time and put them back"""
    n = ctx.int("keys", 1, keys)
    times, scripts = [], []
    for i in range(procs):
        t, h = ctx.int("t%d" % i, 1, 2 * procs), ctx.int("h%d" % i, 1, 4)
        k = ctx.int("k%d" % i, 1, keys)
        ctx.assume(k <= n)
        times.append(t)
        s = [(t, ctx.choice("op%d" % i, ("get", "try")), k), (h, "put", 0)]
        if i < again:
            s += [(None, "get", k)]
        scripts.append(s)
    distinct(ctx, times)
    mi = Micro()
    m = Model(mi, n)
    want, got, total = [], [], {}
    for i, s in enumerate(scripts):
        mi.spawn(model_proc(mi, m, i, s, want))
    mi.run()
    # two processes acting in one step without one having woken the other: either order is right
    own = [(x[2], x[0]) for x in want]
    for i in range(len(own)):
        for j in range(i):
            if own[i][1] != own[j][1] and truth(ctx, eq(own[i][0], own[j][0])):
                a, b = want[j], want[i]
                if not (scripts[a[0]][a[1]][1] == "put" and scripts[b[0]][b[1]][1] == "get"):
                    return
    sem = _c["S"](n)

    async def main():
        for i, s in enumerate(scripts):
            cocotb.start_soon(real_proc(ctx, sem, i, s, got, total))
        await simk.delay(60)
    ctx.check(simk.run(main()) == "done", "no hang")
    for i in range(procs):
        w = [x for x in want if x[0] == i]
        r = [x for x in got if x[0] == i]
        ctx.check(len(w) == len(r), "a process gets its keys when they are there and it is its turn", model=want, real=got)
        for x, y in zip(w, r):
            ctx.check(eq(x[2], y[2]), "keys are given out in the step they are free, first come first served", model=want, real=got)
            ctx.check(x[3] == y[3], "try_get succeeds when enough keys are free, and only then", model=want, real=got)
    ctx.check(eq(sem.count + sum(total.values()), n), "no key is lost or made")
    if any(s[0][1] == "get" and not truth(ctx, eq(x[2], s[0][0])) for s, x in
           [(scripts[x[0]], x) for x in want if x[1] == 0]):
        ctx.cover("somebody waited")
    ctx.cover("done")


def h_toomany(ctx):
    """asking for more keys than there will ever be is refused"""
    n = ctx.int("n", 1, 3)
    s = _c["S"](n)
    bad = []

    async def main():
        try:
            await s.get(n + ctx.int("more", 1, 2))
        except Exception as e:
            bad.append(e)
    ctx.check(simk.run(main()) == "done" and len(bad) == 1, "a request which can never be met is refused")
    ctx.cover("done")


C = ("done", "somebody waited")
HARNESSES = [
    Harness(h_traffic, "traffic", procs=3, again=1, keys=3, covers=C, str_mode="conc", fmt_cut=False,
            bounds="1..3 keys, 3 processes taking 1..3 of them at symbolic times and holding them for a symbolic time, one takes again"),
    Harness(h_toomany, "toomany", covers=("done",), str_mode="conc", fmt_cut=False, bounds="1..3 keys"),
    Harness(h_traffic, "deep", tiers=("thorough",), procs=4, again=1, keys=3, covers=C, str_mode="conc", fmt_cut=False,
            bounds="1..3 keys, 4 processes"),
]
