"""B20: responses of the driver reach the sequence that asked; default sequences"""
import cocotb

from engine import simk, uvmenv
from engine.runner import Harness
from engine.symex import and_, eq, ge, ite, lt, ne
from . import b18
from .b05 import truth
from .micro import Micro

_c = {}


def setup():
    b18.setup()
    _c.update(b18._c)
    from uvm.seq.uvm_sequence import UVMSequence
    from uvm.seq.uvm_sequence_item import UVMSequenceItem
    _c.update(S=UVMSequence, I=UVMSequenceItem)


def rsp_for(item, tag):
    r = _c["I"]("rsp")
    r.set_id_info(item)
    r.tag = tag
    return r


def h_route(ctx, nits, plain=False):
    """the driver gets all items, then sends the responses in any order, in any way"""
    sqr, port, drv = b18.env(rsp=True)
    got, sent = [], []
    n = sum(nits)
    order = list(range(n))
    for i in range(n - 1):
        k = ctx.choice("order%d" % i, n - i) + i
        order[i], order[k] = order[k], order[i]
    ways = [["put", "put_response", "rsp_port"][i % 3] if plain else ctx.choice("way%d" % i, ["put", "put_response", "rsp_port"]) for i in range(n)]
    ids = [ctx.choice("by_id%d" % s, 2) for s in range(len(nits))]
    gap = [ctx.time("gap%d" % i, 1, 20) for i in range(n)]
    late = [ctx.time("late%d" % s, 1, 100) for s in range(len(nits))]
    hand = 0 if plain else ctx.choice("handler", 2)
    st = {}

    async def driver():
        items = []
        for i in range(n):
            q = []
            await port.get(q)
            items.append(q[0])
        await simk.delay(1)
        for i in range(n):
            await simk.delay(gap[i])
            it = items[order[i]]
            r = rsp_for(it, it.tag)
            sent.append((it.tag, simk.now()))
            if ways[i] == "put":
                await port.put(r)
            elif ways[i] == "put_response":
                port.put_response(r)
            else:
                drv.rsp_port.write(r)

    class Seq(_c["S"]):
        num = 0

        async def body(self):
            items = []
            for i in range(nits[self.num]):
                it = _c["I"]("it")
                it.tag = (self.num, i)
                await self.start_item(it)
                await self.finish_item(it)
                items.append(it)
            await simk.delay(late[self.num])
            if self.num == 0 and hand:
                await simk.delay(300)
                return
            for i in range(nits[self.num]):
                r = []
                await self.get_response(r, items[i].get_transaction_id() if ids[self.num] else -1)
                got.append((self.num, r[0].tag, simk.now()))

        def response_handler(self, r):
            got.append((self.num, r.tag, simk.now()))

    async def main():
        es = []
        for s in range(len(nits)):
            q = Seq("s%d" % s)
            q.num = s
            if s == 0 and hand:
                q.use_response_handler(1)
            es.append(cocotb.start_soon(q.start(sqr)))
        es.append(cocotb.start_soon(driver()))
        await simk.delay(1000)
        st["ok"] = all(e.done() for e in es)
        for e in es:
            if not e.done():
                e.kill()
    ctx.check(simk.run(main()) == "done", "the test ends")
    ctx.check(st["ok"], "all responses arrive")
    for s in range(len(nits)):
        mine = [(t, u) for t, u in sent if t[0] == s]
        g = [(t, u) for q, t, u in got if q == s]
        if s == 0 and hand:
            want = mine
            ctx.cover("handler")
        else:
            if ids[s]:
                mine = sorted(mine, key=lambda x: x[0])
            want, now = [], late[s]
            for t, u in mine:
                if truth(ctx, lt(now, u)):
                    now = u
                want.append((t, now))
        ctx.check([t for t, u in g] == [t for t, u in want], "a sequence gets its own responses, in order or by transaction id", got=str([t for t, u in g]),
                  want=str([t for t, u in want]))
        for (t, u), (t2, u2) in zip(g, want):
            ctx.check(eq(u, u2), "a response is given as soon as it is there", got=u, want=u2)
    ctx.check(sqr.get_num_rsps_received() == n, "responses are counted")
    ctx.check(not uvmenv.errors(), "no errors are reported", errors=str(uvmenv.errors()))


def h_queue(ctx, nput, nget):
    """responses with any transaction ids come and are taken at any times"""
    s = _c["S"]("s")
    depth = ctx.int("depth", -1, nput)
    dis = ctx.choice("no_error", 2)
    s.set_response_queue_depth(depth)
    s.set_response_queue_error_report_disabled(dis)
    ctx.check(eq(s.get_response_queue_depth(), depth), "get_response_queue_depth tells the depth")
    puts = [(ctx.time("put%d" % i, 1, 20), ctx.int("id%d" % i, 1, 3)) for i in range(nput)]
    gets = [(ctx.time("get%d" % i, 1, 20), ctx.choice("want%d" % i, [-1, 1, 2])) for i in range(nget)]
    got = []

    # the oracle
    m = Micro(ctx)
    q, waiters, exp, lost = [], [], [], [0]

    def putter():
        for i, (d, k) in enumerate(puts):
            yield ("t", d)
            if truth(ctx, eq(depth, -1)) or truth(ctx, lt(len(q), depth)):
                q.append((i, k))
                m.wake(waiters)
            else:
                lost[0] += 1

    def getter():
        for d, w in gets:
            yield ("t", d)
            while True:
                hit = None
                for x in q:
                    if w == -1 or truth(ctx, eq(x[1], w)):
                        hit = x
                        break
                if hit is not None:
                    break
                yield waiters
            q.remove(hit)
            exp.append((hit[0], m.now))
    m.spawn(putter())
    m.spawn(getter())
    m.run()

    async def rput():
        for i, (d, k) in enumerate(puts):
            await simk.delay(d)
            r = _c["I"]("r")
            r.num = i
            r.set_transaction_id(k)
            s.put_response(r)

    async def rget():
        for d, w in gets:
            await simk.delay(d)
            r = []
            await s.get_response(r, w)
            ctx.check(len(r) == 1, "one response is given")
            got.append((r[0].num, simk.now()))

    async def main():
        es = [cocotb.start_soon(rput()), cocotb.start_soon(rget())]
        await simk.delay(200)
        for e in es:
            if not e.done():
                e.kill()
    ctx.check(simk.run(main()) == "done", "the test ends")
    ctx.check([i for i, t in got] == [i for i, t in exp], "get_response gives the oldest response with the transaction id asked for",
              got=str([i for i, t in got]), want=str([i for i, t in exp]))
    for (i, t), (j, u) in zip(got, exp):
        ctx.check(eq(t, u), "get_response waits until there is one", got=t, want=u)
    errs = uvmenv.errors()
    ctx.check(len(errs) == (0 if dis else lost[0]), "a response beyond the depth of the queue is dropped with an error", errors=str(errs), want=lost[0])
    ctx.cover("lost" if lost[0] else "kept")
    if len(exp) < nget:
        ctx.cover("waits")


def h_gone(ctx):
    """a response for a sequence that has ended is dropped, without an error"""
    sqr, port, drv = b18.env()
    seqs, got = [], []
    t = ctx.time("rsp", 1, 40)
    life = ctx.time("life", 1, 40)
    ctx.assume(ne(t, life))

    class Seq(_c["S"]):
        async def body(self):
            it = _c["I"]("it")
            await self.start_item(it)
            await self.finish_item(it)
            await simk.delay(life)

        def put_response(self, r):
            got.append(self)
            super().put_response(r)

    async def driver():
        q = []
        await port.get(q)
        await simk.delay(t)
        port.put_response(rsp_for(q[0], 0))

    async def main():
        s = Seq("s")
        e = cocotb.start_soon(s.start(sqr))
        d = cocotb.start_soon(driver())
        await simk.delay(100)
        ctx.check(e.done() and d.done(), "sequence and driver end")
    ctx.check(simk.run(main()) == "done", "the test ends")
    alive = truth(ctx, lt(t, life))
    ctx.check((len(got) == 1) == alive, "a response reaches a sequence until it ends")
    ctx.check(not uvmenv.errors(), "no errors are reported", errors=str(uvmenv.errors()))
    ctx.cover("alive" if alive else "gone")


def h_done_rsp(ctx):
    """item_done with a response, and wait_for_item_done for a transaction"""
    sqr, port, drv = b18.env()
    got, waited = [], []
    serve = [ctx.time("serve%d" % i, 1, 20) for i in range(2)]
    rsp = [ctx.choice("rsp%d" % i, 2) for i in range(2)]
    which = ctx.choice("wait", [-1, 1, 2])

    class Seq(_c["S"]):
        async def body(self):
            for i in range(2):
                it = _c["I"]("it%d" % i)
                await self.start_item(it)
                await self.finish_item(it)
                if rsp[i]:
                    r = []
                    await self.get_response(r)
                    got.append((i, r[0].tag, simk.now()))

    async def driver():
        for i in range(2):
            q = []
            await port.get_next_item(q)
            await simk.delay(serve[i])
            if rsp[i]:
                port.item_done(rsp_for(q[0], i))
            else:
                port.item_done()

    async def waiter(s):
        await sqr.wait_for_item_done(s, which)
        waited.append(simk.now())

    async def main():
        s = Seq("s")
        e = cocotb.start_soon(s.start(sqr))
        d = cocotb.start_soon(driver())
        await simk.delay(1)
        w = cocotb.start_soon(waiter(s))
        await simk.delay(100)
        ctx.check(e.done() and d.done(), "sequence and driver end")
        if not w.done():
            w.kill()
    for x in serve:
        ctx.assume(ge(x, 2))
    ctx.check(simk.run(main()) == "done", "the test ends")
    want = [(i, serve[0] if i == 0 else serve[0] + serve[1]) for i in range(2) if rsp[i]]
    ctx.check([(a, b) for a, b, t in got] == [(i, i) for i, t in want], "a response given to item_done reaches the sequence")
    for (a, b, t), (i, u) in zip(got, want):
        ctx.check(eq(t, u), "a response given to item_done is there at once", got=t, want=u)
    end = serve[0] if which != 2 else serve[0] + serve[1]
    ctx.check(len(waited) == 1, "wait_for_item_done returns")
    ctx.check(eq(waited[0], end), "wait_for_item_done returns when the item is done", got=waited[0], want=end)
    ctx.check(not uvmenv.errors(), "no errors are reported", errors=str(uvmenv.errors()))


_O = dict(str_mode="opaque", fmt_cut=False)
HARNESSES = [
    Harness(h_route, "route", nits=(1, 1), covers=("handler",), bounds="2 sequences of 1 item, responses in any order and way", **_O),
    Harness(h_route, "route21", nits=(2, 1), plain=True, bounds="2 sequences of 2 and 1 items", **_O),
    Harness(h_route, "routes", nits=(2, 1), tiers=("thorough",), covers=("handler",), bounds="2 sequences of 2 and 1 items", **_O),
    Harness(h_queue, "queue", nput=3, nget=2, covers=("lost", "kept", "waits"), bounds="3 responses, 2 taken", **_O),
    Harness(h_queue, "queue43", nput=4, nget=3, tiers=("thorough",), covers=("lost", "kept", "waits"), bounds="4 responses, 3 taken", **_O),
    Harness(h_gone, "gone", covers=("alive", "gone"), bounds="1 item", **_O),
    Harness(h_done_rsp, "item-done", bounds="2 items", **_O),
]
