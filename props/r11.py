from engine import simk, uvmenv  # noqa: F401
from engine.runner import Harness
from engine.symex import and_, eq, iff, implies, ne, not_, or_
from . import reglib as L
from .r05 import kinds, run


def setup():
    uvmenv.setup()
    L.bus_classes()


def warnings():
    from uvm.base.uvm_object_globals import UVM_WARNING
    return [x for x in uvmenv.REPORTS if x[0] == UVM_WARNING]


def h_fifo(ctx, cap, n, nb, ops, faults=False):
    """any sequence of set/update/write/read/predict keeps the abstract FIFO equal to a reference queue; the bus sees
    exactly the accesses that are legal, in order; a popped value that differs from the one read is reported"""
    from uvm.reg.uvm_reg_fifo import UVMRegFIFO
    from uvm.reg.uvm_reg_model import UVM_CHECK, UVM_NO_CHECK
    RD, WR, OK, BAD = kinds()
    b = L.block()
    m = b.create_map(L.uniq("map"), 0, 4, L.little())
    r = UVMRegFIFO(L.uniq("fifo"), cap, nb, 0)
    r.configure(b, None, "")
    r.build()
    m.add_reg(r, 0x10)
    b.lock_model()
    comp = ctx.bool("compare")
    r.set_compare(UVM_CHECK if comp else UVM_NO_CHECK)
    mask = (1 << nb) - 1
    q, pend = [], 0
    bus, cur = [], {}

    def serve(it):
        bus.append((it.kind, it.data))
        it.status = OK
        if it.kind == RD:
            it.data = cur["hw"]
    L.bus(m, serve)
    m.set_auto_predict(True)
    m.set_check_on_read(0)
    log = []

    async def body():
        for i in range(n):
            op = ctx.choice("op%d" % i, ops)
            v = ctx.bits("v%d" % i, nb + 2)
            cur["hw"] = v & mask
            del bus[:]
            uvmenv.clear()
            st, out = [], []
            if op == "set":
                r.set(v)
            elif op == "predict":
                r.predict(v & mask)
            elif op == "update":
                await r.update(st)
            elif op == "write":
                await r.write(st, v & mask)
            else:
                await r.read(st, out)
            step(i, op, v & mask, st, out, list(bus))

    def step(i, op, v, st, out, seen):
        nonlocal pend
        bad = False
        expb, warn = [], False
        if op == "set":
            if len(q) < cap:
                q.append(v)
                pend += 1
        elif op == "predict":
            if len(q) < cap:
                q.append(v)
        elif op == "update":
            k = min(pend, len(q))
            expb = [(WR, x) for x in q[len(q) - k:]]
            if q:
                pend = 0
        elif op == "write":
            bad = pend > 0 or len(q) >= cap
            if not bad:
                q.append(v)
                expb = [(WR, v)]
        else:
            bad = not q
            if not bad:
                expb = [(RD, None)]
                warn = and_(bool(comp), ne(q.pop(0), v))
        ctx.check(len(seen) == len(expb), "bus accesses", op=op, i=i)
        for (k, d), (ek, ed) in zip(seen, expb):
            ctx.check(k == ek and (ed is None or eq(d, ed)), "bus data", op=op, i=i)
        if op not in ("set", "predict"):
            ctx.check(len(st) == 1 and st[0] == (BAD if bad else OK), "status", op=op, i=i)
        if op == "read" and not bad:
            ctx.check(eq(out[0], v), "value read")
        ctx.check(iff(len(warnings()) > 0, warn), "mismatch reported iff there is one", op=op)
        ctx.check((len(uvmenv.errors()) > 0) == (op == "write" and bad), "errors only for refused writes", op=op)
        ctx.check(r.size() == len(q), "number of entries", op=op, i=i)
        ctx.check(r.capacity() == cap, "capacity")
        for x, y in zip(r.fifo, q):
            ctx.check(eq(x, y), "entries", op=op, i=i)
        ctx.check(eq(r.get(), q[0]) if q else r.get() == 0, "front entry")
        ctx.check(not r.is_busy(), "not busy")
    ctx.check(run(ctx, m._drv, body) == "done", "completes")


OPS = ["set", "update", "write", "read", "predict"]
HARNESSES = [
    Harness(h_fifo, cap=2, n=3, nb=8, ops=OPS, hash_mode="const"),
    Harness(h_fifo, name="h_fifo_wr", cap=2, n=5, nb=32, ops=["write", "read"], hash_mode="const"),
    Harness(h_fifo, name="h_fifo_set", cap=3, n=5, nb=16, ops=["set", "update", "read"], hash_mode="const"),
    Harness(h_fifo, name="h_fifo_deep", cap=3, n=5, nb=32, ops=OPS, hash_mode="const", tiers=("thorough",)),
]
