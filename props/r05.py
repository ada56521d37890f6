import cocotb
from engine import simk, uvmenv
from engine.runner import Harness
from engine.symex import and_, eq, iff, implies, not_, or_
from . import reglib as L
from .r04 import endians, local

ASSUMPTIONS = ["the bus driver and adapter are test-bench code of the harness; sequencer, map and register are real"]


def setup():
    uvmenv.setup()
    L.bus_classes()


def kinds():
    from uvm.reg.uvm_reg_model import UVM_READ, UVM_WRITE, UVM_IS_OK, UVM_NOT_OK
    return UVM_READ, UVM_WRITE, UVM_IS_OK, UVM_NOT_OK


def run(ctx, drv, body):
    async def top():
        cocotb.start_soon(drv.go())
        await body()
    return simk.run(top())


def model(ctx, nb, w, en, ba, pol="RW"):
    b = L.block()
    base, off = ctx.bits("base", 16), ctx.bits("off", 16)
    m = b.create_map(L.uniq("map"), base, w, endians()[en], ba)
    r, (f,) = L.reg(b, [(nb, 0, pol)], n_bits=nb)
    m.add_reg(r, off)
    b.lock_model()
    return b, m, r, f, [base + a for a in local(-(-nb // 8), w, ba, en, off)]


def h_beats(ctx, sizes, widths, respond=False):
    """one write and one read of a register over several beats: which bus items, with what data; what comes back"""
    RD, WR, OK, BAD = kinds()
    nb, w = ctx.choice("bits", sizes), ctx.choice("width", widths)
    en, ba = ctx.choice("endian", ["LE", "BE"]), ctx.bool("byte_addr")
    b, m, r, f, exp = model(ctx, nb, w, en, ba)
    n = len(exp)
    rd = ctx.choice("op", ["write", "read", "update", "mirror"])
    fail = ctx.choice("fail", n + 1)            # beat that errors; n: none
    val = ctx.bits("val", nb)
    old = ctx.bits("old", nb)
    f.predict(old)
    mask = (1 << (8 * w)) - 1
    chunks = [(val >> (8 * w * i)) & mask for i in range(n)]
    seen = []

    def serve(it):
        i = len(seen)
        seen.append((it.kind, it.addr, it.data, it.n_bits, it.byte_en))
        it.status = BAD if i == fail else OK
        if it.kind == RD:
            it.data = chunks[i] if i < n else 0
    auto = ctx.bool("auto_predict")
    sqr, drv, ad = L.bus(m, serve, respond=respond)
    m.set_auto_predict(auto)
    m.set_check_on_read(0)
    st, out = [], []

    async def body():
        if rd == "write":
            await r.write(st, val)
        elif rd == "update":
            r.set(val)
            await r.update(st)
        elif rd == "mirror":
            await r.mirror(st)
        else:
            await r.read(st, out)
    res = run(ctx, drv, body)
    ctx.check(res == "done", "the access completes", op=rd)
    if rd == "update" and not seen:
        ctx.check(eq(val, old), "update skipped only when nothing is pending")
        ctx.check(eq(f.get_mirrored_value(), old), "mirror untouched by a skipped update")
        return
    nx = n if fail == n else fail + 1
    isrd = rd in ("read", "mirror")
    ctx.check(len(seen) == nx, "number of beats", n=n, fail=fail)
    for i, (k, a, d, nbits, be) in enumerate(seen):
        ctx.check(eq(a, exp[i]), "beat address", i=i)
        ctx.check(k == (RD if isrd else WR), "beat direction")
        if not isrd:
            ctx.check(eq(d, chunks[i]), "beat data", i=i)
        ctx.check(eq(nbits, min(8 * w, nb - 8 * w * i)), "beat size", i=i)
        ctx.check(eq(be, (1 << w) - 1), "byte lanes", i=i)
    ctx.check(len(st) == 1 and st[0] == (OK if fail == n else BAD), "status returned", op=rd)
    if rd == "read" and fail == n:
        ctx.check(eq(out[0], val), "value read")
    if fail == n or not auto:
        ctx.check(eq(f.get_mirrored_value(), val if auto else old), "mirror follows the access", op=rd)
    ctx.check(not r.is_busy(), "not busy afterwards")
    ctx.check(not uvmenv.errors(), "nothing reported")


def h_again(ctx, nb, w, ops):
    """accesses one after another keep working, whatever failed before, and the mirror tracks the hardware"""
    RD, WR, OK, BAD = kinds()
    b, m, r, f, exp = model(ctx, nb, w, "LE", True)
    n = len(exp)
    hw = [ctx.bits("hw", nb)]
    f.predict(hw[0])
    plan = [(ctx.choice("op%d" % i, ["write", "read", "mirror"]), ctx.bool("bad%d" % i)) for i in range(ops)]
    state = {"i": 0, "acc": []}

    def serve(it):
        bad = plan[state["i"]][1]
        it.status = BAD if bad else OK
        j = len(state["acc"])
        state["acc"].append(it.data)
        if it.kind == RD:
            it.data = (hw[0] >> (8 * w * j)) & ((1 << 8 * w) - 1)
        elif not bad and len(state["acc"]) == n:
            v = 0
            for k, x in enumerate(state["acc"]):
                v = v | (x << (8 * w * k))
            hw[0] = v
    sqr, drv, ad = L.bus(m, serve)
    m.set_auto_predict(True)
    got = []

    async def body():
        for i, (op, bad) in enumerate(plan):
            state["i"], state["acc"] = i, []
            st, out = [], []
            if op == "write":
                await r.write(st, ctx.bits("v%d" % i, nb))
            elif op == "read":
                await r.read(st, out)
            else:
                await r.mirror(st)
            got.append((op, bad, st, out, f.get_mirrored_value(), hw[0]))
    res = run(ctx, drv, body)
    ctx.check(res == "done", "every access completes", plan=plan)
    for op, bad, st, out, mir, h in got:
        ctx.check(st and st[0] == (BAD if bad else OK), "status", op=op)
        if not bad:
            ctx.check(eq(mir, h), "mirror equals hardware", op=op)
        if op == "read" and not bad:
            ctx.check(eq(out[0], h), "read value")


def h_atomic(ctx, nb, w, procs):
    """concurrent accesses to one register from several processes at any times: beats never interleave, all
    complete, and the mirror is the hardware's value in the end"""
    RD, WR, OK, BAD = kinds()
    b, m, r, f, exp = model(ctx, nb, w, "LE", True)
    n = len(exp)
    hw = [0] * n
    cur = []
    order = []

    def serve(it):
        it.status = OK
        cur.append(it)
        j = (len(cur) - 1) % n
        if it.kind == RD:
            it.data = hw[j]
        else:
            hw[j] = it.data
    lat = ctx.int("latency", 0, 4)
    sqr, drv, ad = L.bus(m, serve, latency=(lambda: lat))
    m.set_auto_predict(True)
    ops = [ctx.choice("op%d" % i, ["write", "read"]) for i in range(procs)]
    vals = [ctx.bits("v%d" % i, nb) for i in range(procs)]
    starts = [ctx.int("t%d" % i, 0, 12) for i in range(procs)]
    done = []

    async def one(i):
        await simk.delay(starts[i])
        st, out = [], []
        if ops[i] == "write":
            await r.write(st, vals[i])
        else:
            await r.read(st, out)
        done.append((i, st, out))

    async def body():
        ts = [cocotb.start_soon(one(i)) for i in range(procs)]
        for t in ts:
            await t
    res = run(ctx, drv, body)
    ctx.check(res == "done" and len(done) == procs, "all accesses complete", ops=ops)
    ctx.check(len(cur) == n * procs, "number of beats")
    for i in range(0, len(cur), n):
        grp = cur[i:i + n]
        ctx.check(all(x.kind == grp[0].kind for x in grp), "beats of one access stay together (direction)")
        for j, x in enumerate(grp):
            ctx.check(eq(x.addr, exp[j]), "beats of one access stay together (address)")
    value = 0
    for j in range(n):
        value = value | (hw[j] << (8 * w * j))
    ctx.check(eq(f.get_mirrored_value(), value), "mirror equals hardware at the end")
    ws = [vals[i] for i in range(procs) if ops[i] == "write"]
    if ws:
        ctx.check(or_(*[eq(value, v) for v in ws]), "hardware holds one of the values written")
    for i, st, out in done:
        if ops[i] == "read":
            ctx.check(or_(eq(out[0], 0), *[eq(out[0], v) for v in ws]), "a read returns a value that was written")


def h_order(ctx, nb, w):
    """a user transfer-order policy reorders the beats without changing what is transferred"""
    from uvm.reg.uvm_reg_map import UVMRegTransactionOrderPolicy
    RD, WR, OK, BAD = kinds()

    class Rev(UVMRegTransactionOrderPolicy):
        def order(self, q):
            q.reverse()
    b, m, r, f, exp = model(ctx, nb, w, "LE", True)
    m.policy = Rev()
    n = len(exp)
    mem = {}
    val = ctx.bits("val", nb)
    seen = []

    def serve(it):
        it.status = OK
        seen.append(it)
        if it.kind == RD:
            j = n - 1 - (len(seen) - 1) % n
            it.data = (val >> (8 * w * j)) & ((1 << 8 * w) - 1)
    sqr, drv, ad = L.bus(m, serve)
    m.set_auto_predict(True)
    st, st2, out = [], [], []

    async def body():
        await r.write(st, val)
        await r.read(st2, out)
    ctx.check(run(ctx, drv, body) == "done", "completes")
    ctx.check(len(seen) == 2 * n, "beats")
    for i in range(n):
        j = n - 1 - i
        ctx.check(eq(seen[i].addr, exp[j]), "address order")
        ctx.check(eq(seen[i].data, (val >> (8 * w * j)) & ((1 << 8 * w) - 1)), "data goes with its address")
    ctx.check(eq(out[0], val), "read reassembled by position")
    ctx.check(eq(f.get_mirrored_value(), val), "mirror")


HARNESSES = [
    Harness(h_beats, sizes=[8, 24, 32, 64], widths=[1, 4, 8], hash_mode="const"),
    Harness(h_beats, name="h_beats_rsp", sizes=[16, 64], widths=[4], respond=True, hash_mode="const"),
    Harness(h_beats, name="h_beats_odd", sizes=[20, 40], widths=[2, 4], hash_mode="const"),
    Harness(h_again, nb=32, w=2, ops=3, hash_mode="const"),
    Harness(h_atomic, nb=16, w=1, procs=2, hash_mode="const"),
    Harness(h_atomic, name="h_atomic3", nb=16, w=1, procs=3, hash_mode="const", tiers=("thorough",)),
    Harness(h_order, nb=32, w=1, hash_mode="const"),
]
