"""B18: how a sequencer hands items to its driver"""
import cocotb

from engine import simk, uvmenv
from engine.runner import Harness
from engine.symex import and_, eq, ge, iff, lt, ne
from .micro import Micro

_c = {}
_n = [0]


def setup():
    uvmenv.setup()
    from uvm.seq.uvm_sequencer import UVMSequencer
    from uvm.seq.uvm_sequence import UVMSequence
    from uvm.seq.uvm_sequence_item import UVMSequenceItem
    from uvm.base.uvm_component import UVMComponent
    from uvm.comps.uvm_driver import UVMDriver
    from uvm.base import uvm_object_globals as g

    class Item(UVMSequenceItem):
        def __init__(self, name="item"):
            super().__init__(name)
            self.tag = None

    class Seq(UVMSequence):
        """sends the items of a script; logs when things happen"""

        def __init__(self, name, script, log):
            super().__init__(name)
            self.script, self.log = script, log

        async def body(self):
            for i, (gap, prio) in enumerate(self.script):
                if gap is not None:
                    await simk.delay(gap)
                it = Item("it%d" % i)
                it.tag = (self.get_name(), i)
                self.log.append(("req", it.tag, simk.now()))
                await self.start_item(it, prio)
                self.log.append(("grant", it.tag, simk.now()))
                await self.finish_item(it)
                self.log.append(("finish", it.tag, simk.now()))

        rel = None

        def is_relevant(self):
            return 1 if self.rel is None or simk.now() >= self.rel else 0

        async def wait_for_relevant(self):
            await simk.delay(self.rel - simk.now())

        def pre_do(self, is_item):
            self.log.append(("pre", self.get_name(), is_item))

        def mid_do(self, it):
            self.log.append(("mid", getattr(it, "tag", None), None))

        def post_do(self, it):
            self.log.append(("post", getattr(it, "tag", None), None))

    class Pick(UVMSequencer):
        def user_priority_arbitration(self, av):
            return av[self.choose(av)]
    from uvm.base.sv import sv
    from uvm.base.uvm_exceptions import UVMFinishError
    _c.update(Pick=Pick, sv=sv, Fin=UVMFinishError, Sq=UVMSequencer, Seq=Seq, Item=Item, C=UVMComponent, D=UVMDriver, g=g)


def env(cls=None, rsp=False):
    _n[0] += 1
    top = _c["C"]("top%d" % _n[0], None)
    sqr = (cls or _c["Sq"])("sqr", top)
    drv = _c["D"]("drv", top)
    drv.seq_item_port.connect(sqr.seq_item_export)
    if rsp:
        sqr.build_phase(None)
        sqr.connect_phase(None)
        drv.rsp_port.connect(sqr.rsp_export)
    for p in (drv.seq_item_port, sqr.seq_item_export, drv.rsp_port, sqr.rsp_export):
        p.resolve_bindings()
    sqr.sqr_rsp_analysis_fifo.sequencer_ptr = sqr
    return sqr, drv.seq_item_port, drv


async def driver(ctx, port, plan, mode, log, sqr):
    for gap, serve in plan:
        if gap is not None:
            await simk.delay(gap)
        log.append(("ask", None, simk.now()))
        q = []
        if mode == "try":
            await port.try_next_item(q)
            if not q:
                log.append(("none", None, simk.now()))
                continue
        elif mode == "peek":
            await port.peek(q)
            r = []
            await port.peek(r)
            ctx.check(len(r) == 1 and r[0] is q[0], "peek does not take the item")
        elif mode == "get":
            await port.get(q)
        else:
            await port.get_next_item(q)
        ctx.check(len(q) == 1, "one item is handed over", got=len(q))
        it = q[0]
        log.append(("item", it.tag, simk.now()))
        if mode != "get":
            ctx.check(sqr.get_current_item() is it, "get_current_item tells the item being executed")
        if serve is not None:
            await simk.delay(serve)
        log.append(("done", it.tag, simk.now()))
        if mode == "peek":
            r = []
            await port.get(r)
            ctx.check(len(r) == 1 and r[0] is it, "get takes the item peeked")
        elif mode != "get":
            port.item_done()
        ctx.check(sqr.get_current_item() is None, "there is no current item when it is done")


def of(log, kind):
    return [(a, t) for k, a, t in log if k == kind]


def oracle(ctx, scripts, plan, mode, pick, rel=None):
    """event-driven model: lists of (tag, time) items handed over, done and finish"""
    m = Micro(ctx)
    queue, wait_req, waiters, given, fin, nones = [], [], {}, [], [], []
    rel = rel or {}

    def seq(name, script):
        for i, (gap, prio) in enumerate(script):
            if gap is not None:
                yield ("t", gap)
            tag = (name, i)
            queue.append((tag, prio))
            m.wake(wait_req)
            waiters[tag] = []
            yield waiters[tag]
            fin.append((tag, m.now))

    def relevant(t):
        yield ("t", t)
        m.wake(wait_req)

    def avail():
        return [x for x in queue if x[0][0] not in rel or m.now >= rel[x[0][0]]]

    def drv():
        for gap, serve in plan:
            if gap is not None:
                yield ("t", gap)
            if mode == "try" and not avail():
                nones.append(m.now)
                continue
            while not avail():
                yield wait_req
            x = pick(avail(), len(given))
            if x is None:
                return
            queue.remove(x)
            tag = x[0]
            given.append((tag, m.now))
            if mode == "get":
                m.wake(waiters[tag])
            if serve is not None:
                yield ("t", serve)
            if mode != "get":
                m.wake(waiters[tag])
    for nme, s in scripts:
        m.spawn(seq(nme, s))
    for t in rel.values():
        m.spawn(relevant(t))
    m.spawn(drv())
    m.run()
    return given, fin, nones, [t for t, _ in queue]


def fifo(av, n):
    return av[0]


def strict(av, n):
    best = av[0]
    for x in av[1:]:
        if x[1] > best[1]:
            best = x
    return best


def h_run(ctx, nits, mode="next", arb="FIFO", extra=0, serve=True, prio=None, rel=0, hi=40):
    """sequences ask at any times, the driver at any times"""
    sqr, port, drv = env(_c["Pick"] if arb == "USER" else None)
    if arb != "FIFO":
        sqr.set_arbitration(getattr(_c["g"], "UVM_SEQ_ARB_" + arb))
    ctx.check(sqr.get_arbitration() == getattr(_c["g"], "UVM_SEQ_ARB_" + arb), "get_arbitration tells the mode")

    def T(name):
        return ctx.time(name, 1, hi)
    scripts, prios = [], {}
    nseq = len(nits)
    for s in range(nseq):
        sc = []
        # the priority is that of the item, or else that of the sequence
        if prio == "seq":
            prios["s%d" % s] = ctx.int("prio%d" % s, 1, 1000)
        for i in range(nits[s]):
            pr = ctx.int("prio%d%d" % (s, i), 1, 1000) if prio == "item" else prios.get("s%d" % s, 100)
            sc.append((T("gap%d%d" % (s, i)), pr))
        scripts.append(("s%d" % s, sc))
    plan = [(T("dgap%d" % i), T("serve%d" % i) if serve else None) for i in range(sum(nits) + extra)]
    rels = {"s%d" % s: T("rel%d" % s) for s in range(rel)}
    log = []
    st = {"left": nseq}
    picks = []
    rnd = arb in ("RANDOM", "STRICT_RANDOM", "WEIGHTED", "USER")
    if arb == "USER":
        sqr.choose = lambda av: ctx.choice("user%d" % len(picks), len(av))

    async def main():
        ends = []
        for nme, sc in scripts:
            s = _c["Seq"](nme, [(g, p if prio == "item" else -1) for g, p in sc], log)
            if nme in rels:
                s.rel = rels[nme]
            ends.append(cocotb.start_soon(s.start(sqr, None, prios.get(nme, -1))))
        d = cocotb.start_soon(driver(ctx, port, plan, mode, log, sqr))
        await simk.delay(10000)
        for e in ends:
            if e.done():
                st["left"] -= 1
        st["drv"] = d.done()
        for e in ends + [d]:
            if not e.done():
                e.kill()

    def follow(av, n):
        """the item the sequencer picked, which must be one it may pick"""
        if n >= len(picks):
            return None
        for x in av:
            if x[0] == picks[n]:
                if arb == "STRICT_RANDOM":
                    ctx.check(and_(*[ge(x[1], y[1]) for y in av]), "an item of the highest priority is picked", item=x[0])
                return x
        ctx.check(False, "a waiting item is picked", item=picks[n], waiting=str([x[0] for x in av]))
    if not rnd:
        given, fin, nones, left = oracle(ctx, scripts, plan, mode, strict if arb.startswith("STRICT") else fifo, rels)
    real = _c["sv"].__dict__["urandom_range"]
    _c["sv"].urandom_range = lambda a, b: ctx.int("rnd", a, b)
    try:
        ctx.check(simk.run(main()) == "done", "the test ends")
    finally:
        _c["sv"].urandom_range = real
    got = of(log, "item")
    if rnd:
        picks += [a for a, _ in got]
        given, fin, nones, left = oracle(ctx, scripts, plan, mode, follow, rels)
    ctx.check([a for a, _ in got] == [a for a, _ in given], "items are handed over in the order of the arbitration", got=str([a for a, _ in got]),
              want=str([a for a, _ in given]))
    for (a, t), (b, u) in zip(got, given):
        ctx.check(eq(t, u), "an item is handed over as soon as there is one and the driver asks", item=a, got=t, want=u)
    got = of(log, "finish")
    ctx.check([a for a, _ in got] == [a for a, _ in fin], "sequences go on in the order their items are done", got=str([a for a, _ in got]),
              want=str([a for a, _ in fin]))
    for (a, t), (b, u) in zip(got, fin):
        ctx.check(eq(t, u), "finish_item returns when the item is done", item=a, got=t, want=u)
    got = of(log, "none")
    ctx.check(len(got) == len(nones), "try_next_item gives nothing exactly when there is nothing")
    for nme, sc in scripts:
        mine = [(k, a) for k, a, t in log if (a == nme or (isinstance(a, tuple) and a[0] == nme)) and k not in ("done",)]
        want = []
        for i in range(len(sc)):
            tag = (nme, i)
            want += [("req", tag), ("pre", nme), ("grant", tag), ("mid", tag), ("item", tag), ("post", tag), ("finish", tag)]
        ctx.check(mine == want[:len(mine)], "pre_do, mid_do and post_do are called around each item", got=str(mine))
    ctx.check(sqr.get_num_reqs_sent() == len(given), "requests are counted")
    ctx.check(not uvmenv.errors(), "no errors are reported", errors=str(uvmenv.errors()))
    ctx.check(st["left"] == sum(1 for n, s in scripts if len([1 for a, _ in fin if a[0] == n]) < len(s)), "sequences end when their "
              "items are done")
    ctx.cover("all" if len(given) == sum(nits) else "some")
    if left:
        ctx.cover("left over")
    if nones:
        ctx.cover("none")
    if len(given) > 1 and given[0][0][0] != "s0":
        ctx.cover("other first")


def h_weight(ctx, n):
    """weighted arbitration: each waiting sequence gets a part of the random numbers
    that is in proportion to its priority"""
    sqr, port, drv = env()
    sqr.set_arbitration(_c["g"].UVM_SEQ_ARB_WEIGHTED)
    log, wins, span = [], [], []
    pr = [ctx.choice("prio%d" % i, 5) + 1 for i in range(n)]

    async def main():
        ends = []
        for i in range(n):
            s = _c["Seq"]("s%d" % i, [(i + 1, pr[i])], log)
            ends.append(cocotb.start_soon(s.start(sqr)))
        await simk.delay(100)
        k = 0
        while k == 0 or (span and k < span[0][1]):
            def draw(a, b):
                span[:] = [(a, b - a + 1)]
                return a + k
            _c["sv"].urandom_range = draw
            w = sqr.m_choose_next_request()
            wins.append(sqr.arb_sequence_q.get(w).sequence_ptr.get_name())
            k += 1
        for e in ends:
            e.kill()
    real = _c["sv"].__dict__["urandom_range"]
    try:
        ctx.check(simk.run(main()) == "done", "the test ends")
    finally:
        _c["sv"].urandom_range = real
    if span:                # else the choice is made in another way
        for i in range(n):
            ctx.check(wins.count("s%d" % i) * sum(pr) == pr[i] * len(wins), "each sequence is picked in proportion to its priority",
                      seq=i, won=wins.count("s%d" % i), of=len(wins), prio=str(pr))
        ctx.cover("weights")


def h_lock(ctx, nl):
    """a sequence with a lock has the sequencer to itself until it unlocks"""
    sqr, port, drv = env()
    log = []
    g0, g1, hold, d = ctx.time("gap0", 1, 40), ctx.time("gap1", 1, 40), ctx.time("hold", 1, 40), ctx.time("dgap", 1, 40)
    serve = [ctx.time("serve%d" % i, 1, 40) for i in range(nl + 1)]
    st = {}

    async def owner(s):
        await simk.delay(g0)
        for i in range(nl):
            it = _c["Item"]("it%d" % i)
            it.tag = ("own", i)
            it.set_item_context(s, sqr)
            await sqr.wait_for_grant(s, 100, 1 if i == 0 else 0)
            ctx.check(sqr.has_lock(s) == 1 and sqr.is_grabbed(), "the sequence has the lock with the grant")
            await s.finish_item(it)
            log.append(("finish", it.tag, simk.now()))
            ctx.check(sqr.is_blocked(s) == 0, "the owner of a lock is not blocked")
            if i < nl - 1:
                await simk.delay(hold)
        st["unlock"] = simk.now()
        sqr.unlock(s)
        ctx.check(sqr.has_lock(s) == 0 and not sqr.is_grabbed(), "unlock removes the lock")

    async def main():
        own = _c["Seq"]("own", [], log)
        own.body = lambda: owner(own)
        other = _c["Seq"]("other", [(g1, 100)], log)
        es = [cocotb.start_soon(own.start(sqr)), cocotb.start_soon(other.start(sqr))]
        dr = cocotb.start_soon(driver(ctx, port, [(d if i == 0 else None, serve[i]) for i in range(nl + 1)], "next", log, sqr))
        await simk.delay(2000)
        st["ok"] = all(e.done() for e in es + [dr])
        for e in es + [dr]:
            if not e.done():
                e.kill()
    # the first to be arbitrated
    ctx.assume(and_(ne(g0, g1), ne(g0, d), ne(g1, d)))
    ctx.check(simk.run(main()) == "done", "the test ends")
    ctx.check(st["ok"], "all items are executed")
    got = of(log, "item")
    mine = [t for a, t in got if a[0] == "own"]
    oth = [t for a, t in got if a[0] == "other"][0]
    ctx.check(len(mine) == nl, "all items of the owner are executed")
    if oth > mine[0]:
        ctx.check(ge(oth, st["unlock"]), "no other sequence is granted while the lock is held", other=oth, unlock=st["unlock"])
        ctx.cover("locked out")
    else:
        ctx.cover("first")
    ctx.check(iff(lt(oth, mine[0]), lt(g1, g0)) if g0 < d and g1 < d else True, "a lock is arbitrated like other requests")
    ctx.check(not uvmenv.errors(), "no errors are reported", errors=str(uvmenv.errors()))


def h_lock_family(ctx, depth):
    """children of the owner of a lock go on; a child's own lock blocks its parent, too"""
    sqr, port, drv = env()
    log, order = [], []
    g1, d = ctx.time("gap1", 1, 40), ctx.choice("dgap", [5, 22, 40])
    locks = ctx.bool("child locks")
    st = {}

    async def send(s, i, lock):
        it = _c["Item"]("it%d" % i)
        it.tag = (s.get_name(), i)
        it.set_item_context(s, sqr)
        await sqr.wait_for_grant(s, 100, lock)
        await s.finish_item(it)

    async def inner(c, own, k):
        """a child of the owner, or a child of that"""
        ctx.check(sqr.is_blocked(c) == 0, "a child of the owner of the lock is not blocked", depth=k)
        ctx.check(sqr.has_lock(c) == 0, "the lock is its parent's")
        if k < depth:
            await nest(c, own, k + 1)
            return
        await simk.delay(3)
        await send(c, 0, 1 if locks else 0)
        ctx.check(sqr.is_blocked(own) == (1 if locks else 0), "a parent is blocked by a lock of its child only", locks=locks)
        ctx.check(sqr.is_blocked(st["other"]) == 1, "others are blocked")
        await simk.delay(3)
        await send(c, 1, 0)
        if locks:
            sqr.unlock(c)
        ctx.check(sqr.is_blocked(own) == 0, "the owner goes on after its child unlocks")

    async def nest(s, own, k):
        c = _c["Seq"]("child%d" % k, [], log)
        c.body = lambda: inner(c, own, k)
        await c.start(sqr, s)

    async def owner(s):
        await simk.delay(20)
        await send(s, 0, 1)
        st["locked"] = simk.now()
        await nest(s, s, 1)
        await send(s, 1, 0)
        st["unlock"] = simk.now()
        sqr.unlock(s)

    async def main():
        own = _c["Seq"]("own", [], log)
        own.body = lambda: owner(own)
        st["other"] = other = _c["Seq"]("other", [(g1, 100)], log)
        es = [cocotb.start_soon(own.start(sqr)), cocotb.start_soon(other.start(sqr))]
        dr = cocotb.start_soon(driver(ctx, port, [(d if i == 0 else None, 2) for i in range(5)], "next", log, sqr))
        await simk.delay(2000)
        st["ok"] = all(e.done() for e in es + [dr])
        for e in es + [dr]:
            if not e.done():
                e.kill()
    ctx.assume(ne(g1, 20))
    ctx.assume(ne(d, 20))
    ctx.assume(ne(g1, d))
    ctx.check(simk.run(main()) == "done", "the test ends")
    ctx.check(st["ok"], "all items are executed", log=str(log))
    got = [a for a, t in of(log, "item")]
    mine = [a for a in got if a[0] != "other"]
    ch = "child%d" % depth
    ctx.check(mine == [("own", 0), (ch, 0), (ch, 1), ("own", 1)], "owner and child are executed in turn", got=str(got))
    pos = got.index(("other", 0))
    ctx.check(pos in (0, 4), "no other sequence is executed while the lock is held", got=str(got))
    ctx.cover("first" if pos == 0 else "locked out")
    ctx.check(not uvmenv.errors(), "no errors are reported", errors=str(uvmenv.errors()))


def h_misuse(ctx):
    """wrong calls are reported"""
    sqr, port, drv = env()
    log = []

    async def main():
        s = _c["Seq"]("s", [(1, 100), (1, 100)], log)
        e = cocotb.start_soon(s.start(sqr))
        t = ctx.time("t", 2, 40)
        await simk.delay(t)
        k = ctx.choice("call", ["done", "done2", "send", "next2", "try2", "try-next"])
        q = []
        fatal = False
        try:
            if k == "done":
                port.item_done()
            elif k == "done2":
                await port.get_next_item(q)
                port.item_done()
                port.item_done()
            elif k == "send":
                sqr.send_request(s, _c["Item"]("x"))
            else:
                # wait until there is an item
                await simk.delay(40)
                await (port.try_next_item if k[:3] == "try" else port.get_next_item)(q)
                r = []
                await (port.try_next_item if k[-4:] == "try2" else port.get_next_item)(r)
                ctx.check(len(uvmenv.errors()) == 1, "get_next_item twice without item_done is an error")
                ctx.check(len(q) == 1 and (k == "try2" or len(r) == 1 and q[0] is r[0]), "the same item is given again")
        except _c["Fin"]:
            fatal = True
        ctx.check(fatal == (k in ("done", "done2", "send")), "item_done without an item and send_request without a grant are fatal", call=k)
        ctx.cover(k)
        e.kill()
    ctx.check(simk.run(main()) == "done", "the test ends")


_O = dict(str_mode="conc", fmt_cut=False)
HARNESSES = [
    Harness(h_run, "next", nits=(2, 1), covers=("all", "other first"), bounds="2 sequences of 2 and 1 items", **_O),
    Harness(h_run, "next22", nits=(2, 2), covers=("all", "other first"), bounds="2 sequences of 2 items", **_O),
    Harness(h_run, "get", nits=(2, 1), mode="get", covers=("all",), bounds="the driver uses get", **_O),
    Harness(h_run, "peek", nits=(2, 1), mode="peek", covers=("all",), bounds="the driver uses peek and get", **_O),
    Harness(h_run, "try", nits=(2, 1), mode="try", extra=1, covers=("all", "none", "left over"), bounds="the driver uses try_next_item", **_O),
    Harness(h_run, "strict", nits=(1, 1, 1), arb="STRICT_FIFO", prio="item", covers=("all", "other first"), bounds="3 items of any priority", **_O),
    Harness(h_run, "strict-seq", nits=(1, 1, 1), arb="STRICT_FIFO", prio="seq", covers=("all", "other first"), bounds="3 sequences of any priority", **_O),
    Harness(h_run, "strict-rnd", nits=(1, 1, 1), arb="STRICT_RANDOM", prio="item", covers=("all", "other first"), bounds="3 items of any priority", **_O),
    Harness(h_run, "random", nits=(1, 1, 1), arb="RANDOM", covers=("all", "other first"), bounds="3 items", **_O),
    Harness(h_run, "user", nits=(1, 1, 1), arb="USER", covers=("all", "other first"), bounds="3 items, any choice of the user", **_O),
    Harness(h_run, "weighted", nits=(1, 1), arb="WEIGHTED", covers=("all", "other first"), bounds="2 items", **_O),
    Harness(h_weight, "weights", n=2, covers=("weights",), bounds="2 items of priorities 1 to 5", **_O),
    Harness(h_run, "relevant", nits=(1, 1), rel=1, covers=("all", "other first"), bounds="2 sequences, one not relevant until some time", **_O),
    Harness(h_run, "relevant2", nits=(1, 1), rel=2, covers=("all", "other first"), bounds="2 sequences, not relevant until some time", **_O),
    Harness(h_run, "relevant-try", nits=(1, 1), rel=2, mode="try", extra=1, covers=("all", "none"), bounds="the same with try_next_item", **_O),
    Harness(h_run, "relevant-strict", nits=(1, 1), rel=1, arb="STRICT_FIFO", prio="item", covers=("all",), bounds="the same with priorities", **_O),
    Harness(h_lock, "lock", nl=2, covers=("locked out", "first"), bounds="2 items under a lock, 1 of another sequence", **_O),
    Harness(h_lock_family, "lock-child", depth=1, covers=("locked out", "first"), bounds="the owner's child with and without a lock of its own, 1 item of another sequence", **_O),
    Harness(h_lock_family, "lock-grandchild", depth=2, covers=("locked out", "first"), bounds="the same with a child of the child", **_O),
    Harness(h_run, "next3", nits=(2, 1, 1), tiers=("thorough",), covers=("all", "other first"), bounds="3 sequences of up to 2 items", **_O),
    Harness(h_run, "strict4", nits=(2, 1, 1), arb="STRICT_FIFO", prio="item", tiers=("thorough",), covers=("all", "other first"), bounds="4 items of any priority", **_O),
    Harness(h_weight, "weights3", n=3, tiers=("thorough",), covers=("weights",), bounds="3 items of priorities 1 to 5", **_O),
    Harness(h_misuse, "misuse", covers=("done", "done2", "send", "next2", "try2", "try-next"), bounds="6 wrong calls", **_O),
]
