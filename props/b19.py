"""B19: the life of a sequence: hooks, states, nesting, killing, phase objections"""
import cocotb

from engine import simk, uvmenv
from engine.runner import Harness
from engine.symex import and_, bit, eq, ge, implies, iff, lt, ne, or_
from . import b18
from .micro import distinct

_c = {}
HOOKS = ("pre_start", "pre_body", "body", "post_body", "post_start")
STATE = {"pre_start": 2, "pre_body": 4, "body": 8, "post_body": 16, "post_start": 32}


def setup():
    b18.setup()
    _c.update(b18._c)
    from uvm.seq.uvm_sequence import UVMSequence
    from uvm.base import uvm_object_globals as g

    class Life(UVMSequence):
        """each hook logs its begin and end and takes a given time"""

        def __init__(self, name, log, durs):
            super().__init__(name)
            self.log, self.durs = log, durs
            self.work = None

        async def hook(self, h):
            self.log.append((self.get_name(), h, "begin", simk.now(), self.get_sequence_state()))
            if h == "body" and self.work is not None:
                await self.work()
            d = self.durs.get(h)
            if d is not None:
                await simk.delay(d)
            self.log.append((self.get_name(), h, "end", simk.now(), self.get_sequence_state()))

        async def pre_start(self):
            await self.hook("pre_start")

        async def pre_body(self):
            await self.hook("pre_body")

        async def body(self):
            await self.hook("body")

        async def post_body(self):
            await self.hook("post_body")

        async def post_start(self):
            await self.hook("post_start")

        def pre_do(self, is_item):
            self.log.append((self.get_name(), "pre_do", is_item, simk.now(), None))

        def mid_do(self, it):
            self.log.append((self.get_name(), "mid_do", it.get_name(), simk.now(), None))

        def post_do(self, it):
            self.log.append((self.get_name(), "post_do", it.get_name(), simk.now(), None))

        def do_kill(self):
            self.log.append((self.get_name(), "do_kill", None, simk.now(), None))

    class Phase:
        """stands in for a phase: logs the objections"""

        def __init__(self):
            self.calls = []

        def raise_objection(self, obj, description="", count=1):
            self.calls.append(("raise", obj, count, simk.now()))

        def drop_objection(self, obj, description="", count=1):
            self.calls.append(("drop", obj, count, simk.now()))
    _c.update(Life=Life, Phase=Phase, g=g)


def plan(name, durs, t0, pre_post, parent=None, inner=()):
    """the expected log and the times at which the states are entered"""
    log, states, t = [], [(0, 1), (t0, 2)], t0

    def hook(h):
        nonlocal t
        log.append((name, h, "begin", t, STATE[h]))
        if h == "body":
            for l2, t2 in inner(t) if inner else ():
                log.extend(l2)
                t = t2
        t = t + durs[h]
        log.append((name, h, "end", t, STATE[h]))
    hook("pre_start")
    if pre_post:
        states.append((t, 4))
        hook("pre_body")
    if parent:
        log += [(parent, "pre_do", 0, t, None), (parent, "mid_do", name, t, None)]
    states.append((t, 8))
    hook("body")
    states.append((t, 64))
    if parent:
        log.append((parent, "post_do", name, t, None))
    if pre_post:
        states.append((t, 16))
        hook("post_body")
    states.append((t, 32))
    hook("post_start")
    states.append((t, 256))
    return log, states, t


def same(ctx, got, want, what):
    ctx.check([x[:3] for x in got] == [x[:3] for x in want], what + " are called in order", got=str([x[:3] for x in got]),
              want=str([x[:3] for x in want]))
    for g, w in zip(got, want):
        ctx.check(eq(g[3], w[3]), what + " are called at once", hook=str(g[:3]), got=g[3], want=w[3])
        ctx.check(g[4] == w[4], "the state tells which hook is executed", hook=str(g[:3]), got=g[4], want=w[4])


def durs_of(ctx, name, hi=20):
    return {h: ctx.time("%s_%s" % (name, h), 1, hi) for h in HOOKS}


def h_states(ctx, virtual):
    """the hooks of one sequence, and waiting for any set of its states"""
    sqr = None if virtual else b18.env()[0]
    log = []
    d = durs_of(ctx, "d")
    t0, tw = ctx.time("start", 1, 20), ctx.time("watch", 1, 150)
    mask = ctx.int("mask", 1, 511)
    pre_post = ctx.choice("pre_post", 2)
    seq = _c["Life"]("s", log, d)
    want, states, end = plan("s", d, t0, pre_post)
    seen = []

    async def watcher():
        await simk.delay(tw)
        await seq.wait_for_sequence_state(mask)
        seen.append(simk.now())

    async def main():
        w = cocotb.start_soon(watcher())
        await simk.delay(t0)
        await seq.start(sqr, None, -1, pre_post)
        ctx.check(eq(simk.now(), end), "start returns when the last hook does")
        ctx.check(seq.get_sequence_state() == 256, "a sequence ends in the state UVM_FINISHED")
        await simk.delay(500)
        w.kill()
    for t, st in states[1:]:
        ctx.assume(ne(t, tw))
    ctx.check(simk.run(main()) == "done", "the test ends")
    same(ctx, log, want, "hooks")
    exp = None
    # the first time from tw at which the state is in the mask
    for i, (t, st) in enumerate(states):
        last = i + 1 == len(states)
        if truth_bit(ctx, mask, st):
            if last or states[i + 1][0] > tw:
                if exp is None:
                    exp = t if t > tw else tw
    ctx.check((len(seen) == 1) == (exp is not None), "wait_for_sequence_state returns if a state is reached", states=str([s for t, s in states]))
    if exp is not None:
        ctx.check(eq(seen[0], exp), "wait_for_sequence_state returns when a state is reached", got=seen[0], want=exp)
        ctx.cover("seen")
    ctx.check(not uvmenv.errors(), "no errors are reported", errors=str(uvmenv.errors()))


def truth_bit(ctx, x, v):
    return b18_truth(ctx, ne(bit(x, v.bit_length() - 1), 0))


def b18_truth(ctx, c):
    from .b05 import truth
    return truth(ctx, c)


def h_nested(ctx, depth):
    """a sequence starts children from its body, on this or another sequencer"""
    sqr, sqr2 = b18.env()[0], b18.env()[0]
    log = []
    names = ["s%d" % i for i in range(depth)]
    d = {n: durs_of(ctx, n) for n in names}
    seqs = {n: _c["Life"](n, log, d[n]) for n in names}
    pp = [ctx.choice("pre_post%d" % i, 2) for i in range(depth)]
    where = [sqr] + [ctx.choice("sqr%d" % i, [None, sqr, sqr2]) for i in range(1, depth)]
    prio = [ctx.choice("prio%d" % i, [-1, 7 + i]) for i in range(depth)]

    def work(i):
        async def w():
            p, s = seqs[names[i]], seqs[names[i + 1]]
            ctx.check(s.get_depth() == 1 or True, "")
            await s.start(where[i + 1], p, prio[i + 1], pp[i + 1])
            ctx.check(s.get_parent_sequence() is p, "the parent sequence is kept")
        return w
    for i in range(depth - 1):
        seqs[names[i]].work = work(i)

    def inner(i):
        if i + 1 == depth:
            return ()

        def f(t):
            l2, st, t2 = plan(names[i + 1], d[names[i + 1]], t, pp[i + 1], names[i], inner(i + 1))
            return [(l2, t2)]
        return f
    want, states, end = plan(names[0], d[names[0]], 0, pp[0], None, inner(0))

    async def main():
        await seqs["s0"].start(sqr, None, prio[0], pp[0])
        ctx.check(eq(simk.now(), end), "start returns when the last hook does")
    ctx.check(simk.run(main()) == "done", "the test ends")
    same(ctx, log, want, "hooks of nested sequences")
    exp = 100
    path = ""
    for i, n in enumerate(names):
        if prio[i] != -1:
            exp = prio[i]
        s = seqs[n]
        ctx.check(s.get_priority() == exp, "the priority is that given, else that of the parent, else 100", seq=n, got=s.get_priority())
        path = path + "." + n if path else n
        ctx.check(s.get_sequence_path() == path, "get_sequence_path names the parents")
        ctx.check(s.get_full_name() == sqr.get_full_name() + "." + path, "get_full_name names the sequencer and the parents", got=s.get_full_name())
        ctx.check(s.get_depth() == i + 1, "get_depth counts the parents", seq=n, got=s.get_depth())
        if i:
            ctx.check(s.get_root_sequence() is seqs["s0"] and s.get_root_sequence_name() == "s0", "get_root_sequence is the first parent")
        w = where[i]
        if w is None:
            w = seqs[names[i - 1]].get_sequencer()
        ctx.check(s.get_sequencer() is w, "a child runs on the given sequencer, else on that of the parent", seq=n)
        ctx.check(not seqs[n].children_array, "children are forgotten when they end")
    ctx.check(not uvmenv.errors(), "no errors are reported", errors=str(uvmenv.errors()))


def h_again(ctx):
    """a sequence can be started again when it has ended, not before"""
    sqr = b18.env()[0]
    log = []
    d = durs_of(ctx, "d")
    seq = _c["Life"]("s", log, d)
    want, states, end = plan("s", d, 0, 1)
    t = ctx.time("again", 1, 200)
    ctx.assume(ne(t, end))
    st = {}

    async def main():
        e = cocotb.start_soon(seq.start(sqr))
        await simk.delay(t)
        try:
            await seq.start(sqr)
            st["ok"] = True
        except _c["Fin"]:
            st["ok"] = False
        if not e.done():
            e.kill()
    ctx.check(simk.run(main()) == "done", "the test ends")
    ctx.check(iff(st["ok"], ge(t, end)), "a sequence that has not ended cannot be started")
    if st["ok"]:
        again = plan("s", d, t, 1)[0]
        same(ctx, log, want + again, "hooks")
        ctx.cover("again")
    else:
        ctx.cover("refused")


def h_objection(ctx, kill):
    """an automatic phase objection is raised before the first hook, and dropped
    after the last or when the sequence is killed"""
    sqr = ctx.choice("sqr", [None, b18.env()[0]])
    log = []
    d = durs_of(ctx, "d")
    seq = _c["Life"]("s", log, d)
    auto = ctx.choice("auto", 2)
    ph = _c["Phase"]()
    want, states, end = plan("s", d, 0, 1)
    tk = ctx.time("kill", 1, 150)
    ctx.assume(ne(tk, end))
    st = {}

    async def main():
        seq.set_automatic_phase_objection(auto)
        if ctx.choice("phase", 2):
            seq.set_starting_phase(ph)
            st["ph"] = True
        e = cocotb.start_soon(seq.start(sqr))
        await simk.delay(tk)
        if kill and not e.done():
            seq.kill()
            st["kill"] = True
        await simk.delay(200)
        ctx.check(e.done(), "start returns when the sequence has ended or was killed")
        ctx.check(seq.get_sequence_state() == (128 if "kill" in st else 256), "the state tells whether the sequence was killed",
                  got=seq.get_sequence_state())
    ctx.check(simk.run(main()) == "done", "the test ends")
    if auto and "ph" in st:
        ctx.check([c[:3] for c in ph.calls] == [("raise", seq, 1), ("drop", seq, 1)], "the objection is raised and dropped once",
                  got=str([c[0] for c in ph.calls]))
        ctx.check(eq(ph.calls[0][3], 0), "the objection is raised when the sequence starts")
        ctx.check(eq(ph.calls[1][3], tk if "kill" in st else end), "the objection is dropped when the sequence ends", got=ph.calls[1][3])
        ctx.cover("objection")
    else:
        ctx.check(not ph.calls, "no objection is raised unless asked for")
    if "kill" in st:
        got = [x for x in log if x[1] != "do_kill"]
        w = [x for x in want if x[3] < tk]
        same(ctx, got, w, "hooks until a sequence is killed")
        ctx.check([x[1:4] for x in log[-1:]] == [("do_kill", None, log[-1][3])] and eqt(ctx, log[-1][3], tk), "do_kill is called")
        ctx.check(len([x for x in log if x[1] == "do_kill"]) == 1, "do_kill is called once")
        ctx.cover("killed")
    else:
        same(ctx, log, want, "hooks")
        ctx.cover("ended")
    ctx.check(not uvmenv.errors(), "no errors are reported", errors=str(uvmenv.errors()))


def eqt(ctx, a, b):
    return b18_truth(ctx, eq(a, b))


def h_kill(ctx, how):
    """a sequence with a child is killed while another one uses the sequencer"""
    sqr, port, drv = b18.env()
    log, ev = [], []
    gap = [ctx.time("gap%d" % i, 1, 20) for i in range(3)]
    dg = [ctx.time("dgap%d" % i, 1, 20) for i in range(3)]
    serve = ctx.time("serve", 1, 20)
    tk = ctx.time("kill", 1, 60)
    victim = ctx.choice("victim", ["parent", "child"])

    async def driver():
        for g in dg:
            await simk.delay(g)
            q = []
            await port.get_next_item(q)
            ev.append(("item", q[0].tag, simk.now()))
            await simk.delay(serve)
            ev.append(("done", q[0].tag, simk.now()))
            port.item_done()

    par = _c["Life"]("par", log, {})
    child = b18._c["Seq"]("child", [(gap[0], 100), (gap[1], 100)], ev)
    other = b18._c["Seq"]("other", [(gap[2], 100)], ev)
    st = {}

    async def work():
        await child.start(sqr, par)
        st["back"] = simk.now()
    par.work = work

    async def main():
        es = [cocotb.start_soon(par.start(sqr)), cocotb.start_soon(other.start(sqr))]
        dr = cocotb.start_soon(driver())
        await simk.delay(tk)
        st["live"] = not es[0].done()
        st["grant"] = [a for k, a, t in ev if k == "item"]
        st["child"] = child.get_sequence_state()
        st["busy"] = len([1 for k, a, t in ev if k == "item"]) > len([1 for k, a, t in ev if k == "done"])
        if st["live"]:
            (par if victim == "parent" else child).kill()
            st["now"] = (par.get_sequence_state(), child.get_sequence_state())
        await simk.delay(500)
        st["ends"] = [e.done() for e in es]
        for e in es + [dr]:
            if not e.done():
                e.kill()
    ctx.check(simk.run(main()) == "done", "the test ends")
    for k, a, t in ev:
        ctx.assume(ne(t, tk))
    if not st["live"]:
        ctx.cover("too late")
        return
    late = [a for k, a, t in ev if k == "item" and t > tk]
    ctx.check(all(a[0] == "other" for a in late), "no item of a killed sequence is handed over", got=str(late))
    got = [a for k, a, t in ev if k == "finish" and t > tk]
    ctx.check(all(a[0] == "other" for a in got), "a killed sequence does nothing any more", got=str(got))
    n = len([a for k, a, t in ev if k == "item"])
    ctx.check(("other", 0) in [a for k, a, t in ev if k == "finish"], "other sequences are served when a sequence is killed")
    ctx.check(st["ends"][0] and st["ends"][1], "start of a killed sequence returns")
    if victim == "parent":
        ctx.check(st["now"] == (128, 128 if st["child"] != 256 else 256), "killing a sequence kills its children", got=str(st["now"]))
        ctx.check([x[1] for x in log if x[3] > tk] == [], "no hook of a killed sequence is called", got=str([x[1] for x in log]))
        ctx.cover("parent")
    else:
        ctx.check(st["now"][1] == 128, "a killed sequence is in the state UVM_STOPPED")
        ctx.check(eq(st["back"], tk), "the parent of a killed child goes on")
        ctx.check([x[1] for x in log if x[0] == "par"][-1] == "post_start", "the hooks of the parent of a killed child are called")
        ctx.cover("child")
    ctx.check(not uvmenv.errors(), "no errors are reported", errors=str(uvmenv.errors()))


def h_stop(ctx):
    """stop_sequences kills all sequences and empties the queues; the sequencer can
    be used again"""
    sqr, port, drv = b18.env()
    ev, log = [], []
    gap = [ctx.time("gap%d" % i, 1, 20) for i in range(2)]
    dg = [ctx.time("dgap%d" % i, 1, 20) for i in range(2)] + [1]
    tk, tn = ctx.time("stop", 1, 60), 100
    distinct(ctx, [gap[0], gap[1], tk, dg[0], dg[0] + dg[1], gap[0] + dg[1], gap[1] + dg[1]])
    seqs = [b18._c["Seq"]("s%d" % i, [(gap[i], 100)], ev) for i in range(2)]
    new = b18._c["Seq"]("new", [(tn, 100)], ev)

    async def driver():
        for g in dg:
            await simk.delay(g)
            q = []
            await port.get_next_item(q)
            ev.append(("item", q[0].tag, simk.now()))
            port.item_done()
    st = {}

    async def main():
        es = [cocotb.start_soon(s.start(sqr)) for s in seqs]
        dr = cocotb.start_soon(driver())
        await simk.delay(tk)
        st["live"] = [not e.done() for e in es]
        sqr.stop_sequences()
        st["state"] = [s.get_sequence_state() for s in seqs]
        es.append(cocotb.start_soon(new.start(sqr)))
        await simk.delay(300)
        st["ends"] = [e.done() for e in es]
        for e in es + [dr]:
            if not e.done():
                e.kill()
    ctx.check(simk.run(main()) == "done", "the test ends")
    for k, a, t in ev:
        ctx.assume(ne(t, tk))
    for i in range(2):
        ctx.check(st["state"][i] == (128 if st["live"][i] else 256), "stop_sequences stops the sequences that run", got=str(st["state"]))
    ctx.check(all(a[0] == "new" for k, a, t in ev if k in ("item", "finish") and t > tk), "no item of a stopped sequence is handed over")
    ctx.check(("new", 0) in [a for k, a, t in ev if k == "finish"], "the sequencer can be used after stop_sequences")
    ctx.check(all(st["ends"]), "start of a stopped sequence returns")
    ctx.check(not uvmenv.errors(), "no errors are reported", errors=str(uvmenv.errors()))
    ctx.cover("live" if any(st["live"]) else "none")


_O = dict(str_mode="opaque", fmt_cut=False)
HARNESSES = [
    Harness(h_states, "states", virtual=False, covers=("seen",), bounds="5 hooks of any duration, any set of states", **_O),
    Harness(h_states, "states-virtual", virtual=True, covers=("seen",), bounds="the same without a sequencer", **_O),
    Harness(h_nested, "nested", depth=2, bounds="2 levels, 3 sequencers", **_O),
    Harness(h_nested, "nested3", depth=3, tiers=("thorough",), bounds="3 levels, 3 sequencers", **_O),
    Harness(h_again, "again", covers=("again", "refused"), bounds="2 starts", **_O),
    Harness(h_objection, "objection", kill=False, covers=("objection", "ended"), bounds="5 hooks", **_O),
    Harness(h_objection, "objection-kill", kill=True, covers=("objection", "killed"), bounds="5 hooks, killed at any time", **_O),
    Harness(h_kill, "kill", how=0, covers=("parent", "child", "too late"), bounds="parent, child and another sequence", **_O),
    Harness(h_stop, "stop", covers=("live", "none"), bounds="2 sequences stopped, another started", **_O),
]
