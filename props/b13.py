"""B13: mailboxes and TLM FIFOs"""
import cocotb

from engine import simk, uvmenv
from engine.runner import Harness
from engine.symex import eq
from .b05 import truth
from .micro import distinct

_c = {}
_n = [0]


def setup():
    uvmenv.setup()
    from uvm.base.uvm_mailbox import UVMMailbox
    from uvm.base.uvm_component import UVMComponent
    from uvm.tlm1 import uvm_tlm_fifos as f, UVMAnalysisImp, UVMGetPeekPort, UVMPutPort
    from uvm.tlm1.uvm_tlm_req_rsp import UVMTLMReqRspChannel

    class Rec(UVMComponent):
        def __init__(self, name, parent):
            super().__init__(name, parent)
            self.imp = UVMAnalysisImp("imp", self)
            self.got = []

        def write(self, t):
            self.got.append(t)
    _c.update(M=UVMMailbox, F=f.UVMTLMFIFO, A=f.UVMTLMAnalysisFIFO, C=UVMComponent, R=Rec, RR=UVMTLMReqRspChannel,
              GP=UVMGetPeekPort, PP=UVMPutPort)


class Dev:
    """one interface to all the kinds"""

    def __init__(self, kind, size):
        self.kind, self.puts, self.gets = kind, None, None
        _n[0] += 1
        if kind == "mailbox":
            self.p = self.g = self.f = _c["M"](size)
            return
        top = _c["C"]("top%d" % _n[0], None)
        if kind == "channel":
            ch = _c["RR"]("ch", top, size, 1)
            ch.connect_phase(None)
            self.f = ch.m_request_fifo
            self.p, self.g = ch.master_export, ch.slave_export
            ap, gap = ch.request_ap, self.f.get_ap
            res = [ch.m_request_fifo.put_ap]
        else:
            self.f = _c["A"]("f", top) if kind == "analysis" else _c["F"]("f", top, size)
            self.p, self.g = self.f.put_export, self.f.get_peek_export
            ap, gap = self.f.put_ap, self.f.get_ap
            res = []
        r1, r2 = _c["R"]("r1", top), _c["R"]("r2", top)
        ap.connect(r1.imp)
        gap.connect(r2.imp)
        for x in res + [ap, gap]:
            x.resolve_bindings()
        self.puts, self.gets = r1.got, r2.got


async def proc(ctx, dev, pid, script, log, pend):
    """log: (time, op, item, result); pend: operations begun and not finished"""
    for k, (d, op) in enumerate(script):
        if d is not None:
            await simk.delay(d)
        item = 100 * pid + k
        key = (pid, k, op)
        pend[key] = simk.now()
        r = None
        if op == "put":
            await dev.p.put(item)
        elif op == "write":
            dev.f.analysis_export.write(item)
            op, r = "tryput", True
        elif op == "tryput":
            r = dev.p.try_put(item)
        elif op in ("get", "peek"):
            q = [-1]
            await getattr(dev.g, op)(q)
            ctx.check(len(q) == 2 and q[0] == -1, "the item is appended to the list, once", got=q)
            item = q[-1]
        elif op in ("tryget", "trypeek"):
            q = [-1]
            r = getattr(dev.g, {"tryget": "try_get", "trypeek": "try_peek"}[op])(q)
            ctx.check(len(q) == (2 if r else 1), "try methods append the item when they succeed", got=q, r=r)
            item = q[-1]
        elif op == "flush":
            dev.f.flush()
            r = dev.f.used()
        elif op == "status":
            f = dev.f
            if dev.kind == "mailbox":
                r = (f.num(), f.num() == 0, None, f.can_put(), f.can_get(), f.can_get())
            else:
                r = (f.used(), f.is_empty(), f.is_full(), dev.p.can_put(), dev.g.can_peek(), dev.g.can_get())
        del pend[key]
        log.append((simk.now(), op, item, r, dict(pend)))


def judge(ctx, dev, size, log, pend):
    cont, allput, allget = [], [], []
    unb = truth(ctx, eq(size, 0))

    def full():
        return not unb and truth(ctx, eq(size, len(cont)))
    for i, (t, op, item, r, pnd) in enumerate(log):
        if op == "put" or (op == "tryput" and r):
            ctx.check(not full(), "never holds more items than its size")
            cont.append(item)
            allput.append(item)
        elif op == "tryput":
            ctx.check(full(), "try_put fails only when full")
        elif op in ("get", "peek"):
            ctx.check(cont and cont[0] == item, "get and peek return the oldest item", got=item, items=cont)
            if op == "get":
                allget.append(cont.pop(0))
        elif op in ("tryget", "trypeek"):
            ctx.check(bool(r) == bool(cont), "try methods succeed when there is an item, and only then", items=cont, r=r)
            if r:
                ctx.check(item == cont[0], "get and peek return the oldest item", got=item, items=cont)
                if op == "tryget":
                    allget.append(cont.pop(0))
                    ctx.cover("try_get got an item")
        elif op == "flush":
            allget += cont
            del cont[:]
            ctx.check(r == 0, "flush empties it")
        elif op == "status":
            n = len(cont)
            ctx.check(r[0] == n and type(r[0]) is int, "the number of items", got=r[0], want=n)
            ctx.check(r[1] == (n == 0), "is_empty")
            ctx.check(r[2] is None or r[2] == full(), "is_full")
            ctx.check(r[3] == (not full()), "can_put")
            ctx.check(r[4] == (n > 0), "can_peek")
            waiting = dev.kind != "mailbox" and any(k[2] == "get" for k in pnd)
            ctx.check(r[5] == (n > 0 and not waiting), "can_get")
        last = i + 1 == len(log)
        if last or not truth(ctx, eq(log[i + 1][0], t)):
            # the step is over: who is blocked has a reason
            left = pend if last else {k: v for k, v in pnd.items()}
            for (pid, k, bop), _ in left.items():
                if bop == "put":
                    ctx.check(full(), "put blocks only while full", items=cont)
                    ctx.cover("put blocked")
                elif bop in ("get", "peek"):
                    ctx.check(not cont, "get and peek block only while empty", items=cont)
                    ctx.cover("get blocked")
    if dev.puts is not None:
        ctx.check(dev.puts == allput, "put_ap publishes each item put, in order", got=dev.puts, want=allput)
        ctx.check(dev.gets == allget, "get_ap publishes each item taken, in order", got=dev.gets, want=allget)
    ctx.cover("done")


def h_traffic(ctx, kind, scripts, sizes=(0, 2)):
    """scripts: per process, per operation the possible operations; the first of each process
    happens at any time, the others at once or later"""
    size = ctx.int("size", *sizes) if kind != "analysis" else 0
    dev = Dev(kind, size)
    ss, times = [], []
    for p, ops in enumerate(scripts):
        s, acc = [], 0
        for k, o in enumerate(ops):
            o, now = (o[1:], True) if o[0] == "!" else (o, False)
            d = None if now else ctx.int("t%d_%d" % (p, k), 1, 6)
            if d is not None:
                acc = acc + d
                times.append(acc)
            s.append((d, o[0] if len(o) == 1 else ctx.choice("op%d_%d" % (p, k), o)))
        ss.append(s)
    if not any(o[0] != "!" for ops in scripts for o in ops[1:]):
        distinct(ctx, times)
    log, pend = [], {}

    async def main():
        for i, s in enumerate(ss):
            cocotb.start_soon(proc(ctx, dev, i, s, log, pend))
        await simk.delay(40)
    ctx.check(simk.run(main()) == "done", "no hang")
    judge(ctx, dev, size, log, pend)


PUT = ("put", "tryput")
GET = ("get", "peek", "tryget", "trypeek")
NOW = ("!",)
C = ("done", "put blocked", "get blocked", "try_get got an item")
TRAF = [[PUT, NOW + PUT], [PUT], [GET, NOW + GET]]
TRAF2 = [[PUT, NOW + ("put",), NOW + PUT], [("get", "tryget"), NOW + GET], [("get", "peek", "status")]]
WAIT = [[("put",)], [("put",), NOW + ("put",)], [("get", "peek"), NOW + ("get",)], [("get", "peek")], [("get", "peek"), NOW + ("status",)]]
B = "3 puts and 2 or 3 gets/peeks in 3 processes, blocking or not, at symbolic times; size 0..2"
HARNESSES = [
    Harness(h_traffic, "mailbox", kind="mailbox", scripts=TRAF2, covers=C, bounds=B, str_mode="conc", fmt_cut=False),
    Harness(h_traffic, "fifo", kind="fifo", scripts=TRAF, covers=C, bounds=B, str_mode="conc", fmt_cut=False),
    Harness(h_traffic, "fifo2", kind="fifo", scripts=TRAF2, covers=C, bounds=B, str_mode="conc", fmt_cut=False),
    Harness(h_traffic, "waiting", kind="fifo", scripts=WAIT, covers=("done", "put blocked", "get blocked"), str_mode="conc",
            fmt_cut=False, bounds="3 puts in 2 processes, 3 processes waiting to get or peek, at symbolic times; size 0..2"),
    Harness(h_traffic, "mailbox_waiting", kind="mailbox", scripts=WAIT, covers=("done", "put blocked", "get blocked"),
            str_mode="conc", fmt_cut=False, bounds="3 puts in 2 processes, 3 processes waiting to get or peek; size 0..2"),
    Harness(h_traffic, "flush", kind="fifo", scripts=[[PUT, NOW + PUT], [("flush", "status"), NOW + PUT, NOW + ("flush", "status")],
                                                     [GET]],
            covers=("done", "put blocked"), str_mode="conc", fmt_cut=False,
            bounds="flush and status in one process, 2 puts and one get in others, at symbolic times; size 0..2"),
    Harness(h_traffic, "analysis", kind="analysis", scripts=[[("write",), NOW + ("write",)], [("write",)], [GET, NOW + GET]],
            covers=("done",), str_mode="conc", fmt_cut=False, bounds="3 writes by 2 processes, 2 gets/peeks"),
    Harness(h_traffic, "channel", kind="channel", scripts=[[PUT, NOW + PUT], [PUT], [GET, NOW + GET]],
            covers=("done",), str_mode="conc", fmt_cut=False,
            bounds="request/response channel: 3 puts by 2 processes, 2 gets/peeks; size 0..2"),
    Harness(h_traffic, "deep", tiers=("thorough",), kind="fifo", sizes=(0, 3), str_mode="conc", fmt_cut=False, covers=C,
            scripts=[[PUT, NOW + PUT, NOW + PUT], [PUT, NOW + PUT], [GET, NOW + GET, NOW + GET], [GET, NOW + ("get", "tryget", "status")]],
            bounds="5 puts in 2 processes, 5 gets/peeks in 2 processes, at symbolic times; size 0..3"),
]
