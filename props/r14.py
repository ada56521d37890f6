from engine import simk, uvmenv  # noqa: F401
from engine.runner import Harness
from engine.symex import and_, eq, iff, implies, ne, not_, or_
from . import reglib as L
from .r05 import kinds, run
from .r07 import mem

ASSUMPTIONS = ["reserved bits of the hardware read as zero"]


def setup():
    uvmenv.setup()
    L.bus_classes()
    import uvm.reg.sequences  # noqa: F401
    from . import r08
    r08.setup()


SHAPES = {
    "a": [(4, 0, "RW"), (4, 4, "RO")],
    "b": [(3, 1, "W1C"), (2, 5, "RC")],
    "c": [(2, 0, "WO"), (3, 2, "W1T"), (2, 6, "WRS")],
    "d": [(2, 0, "W0S"), (2, 2, "WC"), (2, 4, "W1SRC"), (2, 6, "RW")],
    "e": [(1, 7, "RS"), (7, 0, "W0T")],
}


class HW:
    """registers that behave as their fields' policies say, except for one stuck bit"""

    def __init__(self, ctx, regs, stuck=None):
        self.f, self.n, self.stuck = [], 0, stuck
        self.writes = []
        for addr, spec, rsts in regs:
            self.f.append([addr, spec, list(rsts)])

    def serve(self, it, RD, OK):
        it.status = OK
        for k, (addr, spec, cur) in enumerate(self.f):
            if it.addr != addr:
                continue
            if it.kind == RD:
                v = 0
                for i, (size, lsb, pol) in enumerate(spec):
                    out, cur[i] = L.hw_read(pol, cur[i], (1 << size) - 1)
                    v = v | ((out or 0) << lsb)
                if self.stuck and self.stuck[0] == k:
                    bit, val = self.stuck[1:]
                    v = (v & ~(1 << bit)) | (val << bit)
                it.data = v
            else:
                self.writes.append((addr, it.data))
                for i, (size, lsb, pol) in enumerate(spec):
                    m = (1 << size) - 1
                    cur[i] = L.hw_write(pol, cur[i], (it.data >> lsb) & m, m, False)
            return
        it.data = 0


def build(ctx, shapes, nested=False):
    from uvm.reg.uvm_reg_block import UVMRegBlock
    top = L.block()
    m = top.create_map(L.uniq("map"), 0, 4, L.little())
    b, mm, base = top, m, 0
    if nested:
        b = UVMRegBlock(L.uniq("sub"))
        b.configure(top)
        mm = b.create_map(L.uniq("smap"), 0, 4, L.little())
        base = 0x100
    regs, hw = [], []
    for k, s in enumerate(shapes):
        spec = SHAPES[s]
        rs = [ctx.bits("rst%d_%d" % (k, i), x[0]) for i, x in enumerate(spec)]
        r, fs = L.reg(b, [(x[0], x[1], x[2], False, v) for x, v in zip(spec, rs)], n_bits=8)
        mm.add_reg(r, 4 * k)
        regs.append((r, fs))
        hw.append((base + 4 * k, spec, rs))
    if nested:
        m.add_submap(mm, 0x100)
    top.lock_model()
    return top, m, mm, regs, hw


def h_reset(ctx, shapes, nested):
    """hw_reset reads every register once per map and reports exactly a hardware whose reset values differ"""
    from uvm.reg.sequences.uvm_reg_hw_reset_seq import UVMRegHWResetSeq
    RD, WR, OK, BAD = kinds()
    top, m, mm, regs, hw = build(ctx, shapes, nested)
    have = [[ctx.bits("h%d_%d" % (k, i), x[0]) for i, x in enumerate(h[1])] for k, h in enumerate(hw)]
    H = HW(ctx, [(h[0], h[1], v) for h, v in zip(hw, have)])
    bad = ctx.choice("bad", len(shapes) + 1)
    seen = []

    def serve(it):
        H.serve(it, RD, OK)
        seen.append((it.kind, it.addr))
        if bad < len(shapes) and it.addr == hw[bad][0]:
            it.status = BAD
    L.bus(m, serve)
    m.set_auto_predict(True)
    q = UVMRegHWResetSeq(L.uniq("seq"))
    q.model = top
    uvmenv.clear()

    async def body():
        await q.start(None)
    ctx.check(run(ctx, m._drv, body) == "done", "completes")
    ctx.check(all(k == RD for k, a in seen), "only reads")
    for h in hw:
        ctx.check(sum(1 for k, a in seen if a == h[0]) == 1, "each register read once")
    diff = or_(*[ne(have[k][i], hw[k][2][i]) for k in range(len(hw)) if k != bad
                 for i, x in enumerate(hw[k][1]) if x[2] not in L.WR_ONLY])
    ctx.check(iff(len(uvmenv.errors()) > 0, or_(bad < len(shapes), diff)), "reported iff a reset value is wrong")


def h_bash(ctx, shapes, stuck):
    """bit_bash: no complaint about hardware that behaves as modelled; a stuck readable bit is reported; every bit of
    every compared field is written both ways"""
    from uvm.reg.sequences.uvm_reg_bit_bash_seq import UVMRegBitBashSeq
    RD, WR, OK, BAD = kinds()
    top, m, mm, regs, hw = build(ctx, shapes)
    where = None
    if stuck:
        where = (0, ctx.choice("bit", 8), ctx.bits("val", 1))
    H = HW(ctx, hw, where)
    L.bus(m, lambda it: H.serve(it, RD, OK))
    m.set_auto_predict(True)
    m.set_check_on_read(0)
    q = UVMRegBitBashSeq(L.uniq("seq"))
    q.model = top
    uvmenv.clear()

    async def body():
        await q.start(None)
    ctx.check(run(ctx, m._drv, body) == "done", "completes")
    if not stuck:
        ctx.check(not uvmenv.errors(), "conforming hardware passes")
        for k, (r, fs) in enumerate(regs):
            w = [d for a, d in H.writes if a == hw[k][0]]
            n = sum(x[0] for x in SHAPES[shapes[k]] if x[2] not in L.WR_ONLY)
            res = 8 - sum(x[0] for x in SHAPES[shapes[k]])
            ctx.check(len(w) == 2 * (n + res), "every testable bit bashed", k=k)
            for x, f in zip(SHAPES[shapes[k]], fs):
                if x[2] == "RW":
                    for b in range(x[1], x[1] + x[0]):
                        ctx.check(or_(*[eq((d >> b) & 1, 0) for d in w]), "zero written")
                        ctx.check(or_(*[eq((d >> b) & 1, 1) for d in w]), "one written")
    else:
        for x in SHAPES[shapes[0]]:
            if x[1] <= where[1] < x[1] + x[0]:
                if x[2] == "RW":
                    ctx.check(len(uvmenv.errors()) > 0, "stuck bit reported")
                if x[2] in L.WR_ONLY:
                    ctx.check(not uvmenv.errors(), "write-only bits are not judged")


def h_walk(ctx, size, nb):
    """mem_walk writes and reads back each location as documented and reports exactly a read that differs"""
    from uvm.reg.sequences.uvm_mem_walk_seq import UVMMemWalkSeq
    RD, WR, OK, BAD = kinds()
    b = L.block()
    m = b.create_map(L.uniq("map"), 0, 4, L.little())
    acc = ctx.choice("access", ["RW", "RO"])
    x = mem(b, size, nb, acc)
    m.add_mem(x, 0, acc)
    b.lock_model()
    mask = (1 << nb) - 1
    bad = ctx.choice("bad", 3 * size + 1)
    seen = []
    wrong = ctx.choice("wrong", 3 * size + 1)
    flip = ctx.bits("flip", nb)
    ctx.assume(ne(flip, 0))
    store = {}

    def serve(it):
        j = len(seen)
        seen.append((it.kind, it.addr, it.data))
        it.status = BAD if j == bad else OK
        if it.kind == WR:
            store[it.addr] = it.data
        else:
            it.data = store.get(it.addr, 0)
            if j == wrong:
                it.data = it.data ^ flip
    L.bus(m, serve)
    q = UVMMemWalkSeq(L.uniq("seq"))
    q.model = b
    uvmenv.clear()

    async def body():
        await q.start(None)
    ctx.check(run(ctx, m._drv, body) == "done", "completes")
    exp = []
    if acc == "RW":
        for k in range(size):
            exp.append((WR, k, ~k & mask))
            if k > 0:
                exp.append((RD, k - 1, None))
                exp.append((WR, k - 1, (k - 1) & mask))
            if k == size - 1:
                exp.append((RD, k, None))
    ctx.check(len(seen) == len(exp), "number of accesses")
    step = 4
    for (k, a, d), (ek, ea, ed) in zip(seen, exp):
        ctx.check(k == ek and a == step * ea and (ed is None or eq(d & mask, ed)), "walk order")
    isrd = wrong < len(exp) and exp[wrong][0] == RD and wrong != bad
    if wrong != bad or bad >= len(exp):
        ctx.check((len(uvmenv.errors()) > 0) == (bad < len(exp) or isrd), "reported iff something is wrong")


def h_access(ctx, pol):
    """reg_access: front- and backdoor of conforming hardware agree; a backdoor that reads or writes another value is
    reported"""
    from uvm.reg.sequences.uvm_reg_access_seq import UVMRegAccessSeq
    from . import r08
    RD, WR, OK, BAD = kinds()
    b, m, r, (f,) = L.one_reg([(8, 0, pol)], n_bits=8)
    hw = [ctx.bits("hw", 8)]
    f.set_reset(hw[0])
    bd = r08._c["bd"]("bd")
    flip_r, flip_w = ctx.bits("flip_r", 8), ctx.bits("flip_w", 8)
    ctx.assume(or_(eq(flip_r, 0), eq(flip_w, 0)))
    n = dict(fr=0, fw=0, br=0, bw=0)

    def act(tag, k, rw):
        rw.status = OK
        if k == "read":
            n["br"] += 1
            rw.value[0] = hw[0] ^ flip_r
        else:
            n["bw"] += 1
            hw[0] = (rw.value[0] ^ flip_w) & 0xff
    bd.act = act
    r.m_backdoor = bd

    def serve(it):
        it.status = OK
        if it.kind == RD:
            n["fr"] += 1
            it.data = hw[0]
        else:
            n["fw"] += 1
            hw[0] = it.data & 0xff
    L.bus(m, serve)
    m.set_auto_predict(True)
    m.set_check_on_read(0)
    q = UVMRegAccessSeq(L.uniq("seq"))
    q.model = b
    uvmenv.clear()

    async def body():
        await q.start(None)
    ctx.check(run(ctx, m._drv, body) == "done", "completes")
    if pol == "RO":
        ctx.check(n["fw"] == 0 and not uvmenv.errors(), "read-only registers are skipped")
        return
    ctx.check(n == dict(fr=1, fw=1, br=1 + (n["br"] - 1), bw=1) and n["br"] >= 1, "one access each way")
    ctx.check(iff(len(uvmenv.errors()) > 0, or_(ne(flip_r, 0), ne(flip_w, 0))), "reported iff the paths disagree")


def h_mem_access(ctx, size, nb):
    """mem_access: front and back door of a conforming memory agree, whatever is written; one path that
    carries another value, or fails, is reported"""
    from uvm.reg.sequences.uvm_mem_access_seq import UVMMemAccessSeq
    from uvm.base.sv import sv
    from . import r08
    RD, WR, OK, BAD = kinds()
    b = L.block()
    m = b.create_map(L.uniq("map"), 0, 4, L.little())
    acc = ctx.choice("access", ["RW", "RO"])
    x = mem(b, size, nb, acc)
    m.add_mem(x, 0, acc)
    b.lock_model()
    mask = (1 << nb) - 1
    nrand = [0]

    def random():
        nrand[0] += 1
        return ctx.bits("rand%d" % nrand[0], 31)
    sv.random = random
    bpl = (nb + 31) // 32
    store = [ctx.bits("hw%d" % i, nb) for i in range(size)]
    where = ctx.choice("where", size)
    what = ctx.choice("what", ["none", "front read", "front write", "back read", "back write", "fails"])
    flip = ctx.bits("flip", nb)
    ctx.assume(ne(flip, 0))
    fail = ctx.choice("failing", 4) if what == "fails" else None
    n = [dict(fr=0, fw=0, br=0, bw=0) for _ in range(size)]

    def status(k, op):
        n[k][op] += 1
        return BAD if k == where and what == "fails" and ["fr", "fw", "br", "bw"][fail] == op else OK
    bd = r08._c["bd"]("bd")

    def act(tag, kind, rw):
        k = rw.offset
        rw.status = status(k, "br" if kind == "read" else "bw")
        x = flip if k == where and what == "back " + kind else 0
        if kind == "read":
            rw.value[0] = store[k] ^ x
        else:
            store[k] = rw.value[0] ^ x
    bd.act = act
    x.set_backdoor(bd)

    def serve(it):
        k, beat = it.addr // (4 * bpl), it.addr // 4 % bpl
        sh = 32 * beat
        if it.kind == RD:
            it.status = status(k, "fr")
            v = store[k] ^ (flip if k == where and what == "front read" else 0)
            it.data = (v >> sh) & 0xffffffff
        else:
            it.status = status(k, "fw")
            if acc == "RW":
                part = 0xffffffff << sh & mask
                v = (it.data << sh) & part ^ (flip & part if k == where and what == "front write" else 0)
                store[k] = store[k] & ~part & mask | v
    L.bus(m, serve)
    q = UVMMemAccessSeq(L.uniq("seq"))
    q.model = b
    uvmenv.clear()

    async def body():
        await q.start(None)
    ctx.check(run(ctx, m._drv, body) == "done", "completes")
    ro = acc == "RO"
    for k in range(size):
        hit = k == where and what == "fails"
        if not hit:
            ctx.check(n[k] == dict(fr=bpl, fw=bpl, br=2 if ro else 1, bw=1), "each location, both ways", n=str(n[k]))
    seen = {"none": False, "front read": True, "front write": not ro, "back read": not ro, "back write": True, "fails": True}[what]
    ctx.check((len(uvmenv.errors()) > 0) == seen, "reported iff something is wrong", what=what, acc=acc, e=str(uvmenv.errors())[:200])


HARNESSES = [
    Harness(h_reset, shapes=["a", "c"], nested=False, hash_mode="const"),
    Harness(h_reset, name="h_reset_nested", shapes=["b", "e"], nested=True, hash_mode="const"),
    Harness(h_bash, shapes=["a", "b"], stuck=False, hash_mode="const"),
    Harness(h_bash, name="h_bash2", shapes=["c"], stuck=False, hash_mode="const"),
    Harness(h_bash, name="h_bash3", shapes=["d", "e"], stuck=False, hash_mode="const"),
    Harness(h_bash, name="h_bash_stuck", shapes=["a"], stuck=True, hash_mode="const"),
    Harness(h_bash, name="h_bash_stuck2", shapes=["d"], stuck=True, hash_mode="const"),
    Harness(h_bash, name="h_bash_stuck3", shapes=["c"], stuck=True, hash_mode="const"),
    Harness(h_access, pol="RW", hash_mode="const"),
    Harness(h_access, name="h_access_ro", pol="RO", hash_mode="const"),
    Harness(h_walk, size=3, nb=32, hash_mode="const"),
    Harness(h_mem_access, size=2, nb=8, hash_mode="const"),
    Harness(h_mem_access, name="h_mem_access_wide", size=1, nb=40, hash_mode="const"),
    Harness(h_mem_access, name="h_mem_access3", size=3, nb=8, hash_mode="const", tiers=("thorough",)),
]
