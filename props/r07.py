from engine import simk, uvmenv
from engine.runner import Harness
from engine.symex import and_, eq, iff, implies, ne, not_, or_, le, lt, ge, gt
from . import reglib as L
from .r04 import beats, endians
from .r05 import kinds, run

ASSUMPTIONS = ["the bus driver and adapter are test-bench code of the harness; sequencer, map and memory are real"]


def setup():
    uvmenv.setup()
    L.bus_classes()


def mem(blk, size, bits, acc="RW", name=None):
    from uvm.reg.uvm_mem import UVMMem
    x = UVMMem(name or L.uniq("mem"), size, bits, acc)
    x.configure(blk)
    return x


def model(ctx, size, bits, w, ba=True, en="LE"):
    b = L.block()
    base, off = ctx.bits("base", 16), ctx.bits("off", 16)
    m = b.create_map(L.uniq("map"), base, w, endians()[en], ba)
    x = mem(b, size, bits)
    m.add_mem(x, off)
    b.lock_model()
    return b, m, x, base + off


def h_access(ctx, sizes, bits, widths):
    """single write/read at any offset: the beats, their addresses and data; the value and the status"""
    RD, WR, OK, BAD = kinds()
    size, nb, w = ctx.choice("size", sizes), ctx.choice("bits", bits), ctx.choice("width", widths)
    ba = ctx.bool("byte_addr")
    en = ctx.choice("endian", ["LE", "BE"])
    b, m, x, start = model(ctx, size, nb, w, ba, en)
    n = beats(nb // 8, w)
    step = w if ba else 1
    o = ctx.int("offset", 0, size + 3)
    val = ctx.bits("val", nb)
    isrd = ctx.bool("read")
    mask = (1 << 8 * w) - 1
    chunks = [(val >> (8 * w * i)) & mask for i in range(n)]
    seen = []

    def serve(it):
        i = len(seen)
        seen.append((it.kind, it.addr, it.data))
        it.status = OK
        if it.kind == RD:
            it.data = chunks[i] if i < n else 0
    L.bus(m, serve)
    drv = m.get_sequencer()
    st, out = [], []
    uvmenv.clear()

    async def body():
        if isrd:
            await x.read(st, o, out)
        else:
            await x.write(st, o, val)
    ctx.check(run(ctx, drv_of(m), body) == "done", "completes")
    if o >= size:
        ctx.check(len(seen) == 0 and st == [BAD], "out of range: refused, nothing on the bus", isrd=isrd)
        ctx.check(len(uvmenv.errors()) > 0, "out of range: reported")
        return
    ctx.check(len(seen) == n and st == [OK], "beats and status")
    for i, (k, a, d) in enumerate(seen):
        j = i if en == "LE" else n - 1 - i
        ctx.check(eq(a, start + o * (n * step) + j * step), "address", w=w, nb=nb, ba=ba, en=en)
        if not isrd:
            ctx.check(eq(d, chunks[i]), "data")
    if isrd:
        ctx.check(eq(out[0], val), "value read")
    ctx.check(not uvmenv.errors(), "nothing reported")


def drv_of(m):
    return m._drv


def h_burst(ctx, size, nb, w, lens):
    """bursts anywhere: location i of the burst goes to offset+i; out-of-range bursts are refused whole"""
    RD, WR, OK, BAD = kinds()
    b, m, x, start = model(ctx, size, nb, w)
    n = ctx.choice("len", lens)
    step = w
    o = ctx.int("offset", 0, size + 1)
    vals = [ctx.bits("v%d" % i, nb) for i in range(n)]
    isrd = ctx.bool("read")
    seen = []

    def serve(it):
        seen.append((it.kind, it.addr, it.data))
        it.status = OK
        it.data = vals[(len(seen) - 1) % n]
    L.bus(m, serve)
    st = []
    buf = [0] * n if isrd else list(vals)
    uvmenv.clear()

    async def body():
        if isrd:
            await x.burst_read(st, o, buf)
        else:
            await x.burst_write(st, o, buf)
    ctx.check(run(ctx, drv_of(m), body) == "done", "completes")
    if nb > 8 * w:
        ctx.check(st == [BAD] and not seen, "burst through a narrower bus refused")
        return
    if o + n > size:
        ctx.check(st == [BAD] and not seen, "burst beyond the end refused", isrd=isrd)
        ctx.check(len(uvmenv.errors()) > 0, "reported")
        return
    ctx.check(st == [OK] and len(seen) == n, "one beat per location")
    for i, (k, a, d) in enumerate(seen):
        ctx.check(eq(a, start + (o + i) * step), "address", i=i)
        if not isrd:
            ctx.check(eq(d, vals[i]), "data", i=i)
    if isrd:
        ctx.check(and_(*[eq(x_, y) for x_, y in zip(buf, vals)]), "values read")


def h_roundtrip(ctx, size, nb, w):
    """what is written at one offset is read back there and disturbs no other offset"""
    RD, WR, OK, BAD = kinds()
    b, m, x, start = model(ctx, size, nb, w)
    hw = []                                     # (address, data), latest last

    def serve(it):
        it.status = OK
        if it.kind == RD:
            v = 0
            for a, d in hw:
                v = ctx_ite(eq(a, it.addr), d, v)
            it.data = v
        else:
            hw.append((it.addr, it.data))
    L.bus(m, serve)
    o1, o2, o3 = (ctx.int("o%d" % i, 0, size - 1) for i in range(3))
    v1, v2 = ctx.bits("v1", nb), ctx.bits("v2", nb)
    out, out2 = [], []

    async def body():
        await x.write([], o1, v1)
        await x.write([], o2, v2)
        await x.read([], o3, out)
        await x.read([], o1, out2)
    ctx.check(run(ctx, drv_of(m), body) == "done", "completes")
    exp = ctx_ite(eq(o3, o2), v2, ctx_ite(eq(o3, o1), v1, 0))
    ctx.check(eq(out[0], exp), "read back")
    ctx.check(eq(out2[0], ctx_ite(eq(o1, o2), v2, v1)), "read back of the first")


def ctx_ite(c, a, b):
    from engine.symex import ite
    return ite(c, a, b)


def h_overlap(ctx, w, nb, sizes):
    """a model is locked without complaint exactly when no memory shares an address with a register or memory"""
    b = L.block()
    m = b.create_map(L.uniq("map"), ctx.bits("base", 8), w, L.little(), True)
    rng = []
    kinds_ = ctx.choice("kinds", ["mm", "rm", "r"])
    for i, k in enumerate(kinds_):
        o = ctx.bits("o%d" % i, 8)
        if k == "m":
            s = ctx.choice("s%d" % i, sizes)
            m.add_mem(mem(b, s, nb), o)
            rng.append((o, o + s * beats(nb // 8, w) * w - w))
        else:
            r, _ = L.reg(b, [(nb, 0, "RW")], n_bits=nb)
            m.add_reg(r, o)
            rng.append((o, o + beats(nb // 8, w) * w - w))
    uvmenv.clear()
    b.lock_model()
    bad = len(uvmenv.reports()) > 0
    if len(rng) == 1:
        ctx.check(not bad, "alone: nothing reported")
        return
    (a, b_), (c, d) = rng
    if kinds_ == "mm":
        ctx.check(iff(bad, and_(le(a, d), le(c, b_))), "memories reported iff ranges meet")
    else:
        hit = or_(*[and_(ge(a + i * w, c), le(a + i * w, d)) for i in range(beats(nb // 8, w))])
        ctx.check(iff(bad, hit), "register in memory reported iff it meets")


HARNESSES = [
    Harness(h_access, sizes=[1, 5], bits=[8, 32, 64], widths=[1, 4], hash_mode="const"),
    Harness(h_burst, size=6, nb=32, w=4, lens=[2, 3], hash_mode="const"),
    Harness(h_burst, name="h_burst_narrow", size=6, nb=32, w=2, lens=[2], hash_mode="const"),
    Harness(h_roundtrip, size=1 << 16, nb=32, w=4, hash_mode="const"),
    Harness(h_roundtrip, name="h_roundtrip2", size=1 << 10, nb=32, w=2, hash_mode="const"),
    Harness(h_overlap, w=2, nb=32, sizes=[1, 2, 9], hash_mode="const", fmt_cut=False),
    Harness(h_access, name="h_access_deep", sizes=[1, 2, 1 << 20], bits=[8, 16, 24, 32, 64], widths=[1, 2, 4, 8],
            hash_mode="const", tiers=("thorough",)),
    Harness(h_burst, name="h_burst_deep", size=1 << 12, nb=16, w=4, lens=[2, 4, 8], hash_mode="const", tiers=("thorough",)),
]
