from engine import uvmenv
from engine.runner import Harness
from engine.symex import and_, eq, implies, ne, not_, or_, iff, le, lt
from . import reglib as L

ASSUMPTIONS = ["dicts keyed by address hold only symbolic addresses in these harnesses (hash_mode const)"]


def setup():
    uvmenv.setup()


def endians():
    from uvm.reg.uvm_reg_model import (UVM_BIG_ENDIAN, UVM_BIG_FIFO, UVM_LITTLE_ENDIAN, UVM_LITTLE_FIFO)
    return {"LE": UVM_LITTLE_ENDIAN, "BE": UVM_BIG_ENDIAN, "LF": UVM_LITTLE_FIFO, "BF": UVM_BIG_FIFO}


def beats(nbytes, w):
    return -(-nbytes // w)


def local(nbytes, w, byte_addr, endian, off):
    """addresses (in the map's own addressing) of a register of nbytes at off"""
    n = beats(nbytes, w)
    step = w if byte_addr else 1
    if endian in ("LF", "BF"):
        return [off] * n
    a = [off + i * step for i in range(n)]
    return a if endian == "LE" else a[::-1]


def same(a, b):
    return and_(len(a) == len(b), *[eq(x, y) for x, y in zip(a, b)])


def h_flat(ctx, widths, sizes):
    """a register anywhere in a map of any base, width, endianness and addressing mode"""
    w = ctx.choice("width", widths)
    nb = ctx.choice("bits", sizes)
    ba = ctx.bool("byte_addressing")
    en = ctx.choice("endian", ["LE", "BE", "LF", "BF"])
    base, off = ctx.bits("base", 32), ctx.bits("off", 32)
    b = L.block()
    m = b.create_map("m", base, w, endians()[en], ba)
    r, _ = L.reg(b, [(nb, 0, "RW")], n_bits=nb)
    m.add_reg(r, off)
    b.lock_model()
    got = []
    r.get_addresses(m, got)
    exp = [base + a for a in local(nb // 8 or 1, w, ba, en, off)]
    ctx.check(same(got, exp), "addresses", w=w, nb=nb, en=en, ba=ba)
    ctx.check(eq(r.get_address(m), exp[0]), "get_address")
    ctx.check(eq(r.get_offset(m), off), "get_offset")
    ctx.check(m.get_n_bytes() == w, "system width")
    for a in exp:
        ctx.check(m.get_reg_by_offset(a) is r, "found at each of its addresses")
    if en in ("LE", "BE"):
        ctx.check(not uvmenv.reports(), "nothing reported")


def chain(ctx, widths, ba, en):
    """nested blocks, one map each: widths[0] is the root"""
    base = ctx.bits("base", 32)
    blks, maps, offs = [], [], []
    for i, w in enumerate(widths):
        blk = L.block("b%d" % i, blks[-1] if blks else None)
        mp = blk.create_map("m%d" % i, base if i == 0 else 0, w, endians()[en], ba)
        if maps:
            o = ctx.bits("sub%d" % i, 32)
            maps[-1].add_submap(mp, o)
            offs.append(o)
        blks.append(blk)
        maps.append(mp)
    return base, blks, maps, offs


def h_nested(ctx, shapes, sizes):
    """a register under 1..3 levels of submaps, children no wider than their parent (byte addressing) or
    equal or wider (3 over 2 bytes too) (word addressing)"""
    ba, widths = ctx.choice("shape", shapes)
    nb = ctx.choice("bits", sizes)
    en = ctx.choice("endian", ["LE", "BE"])
    base, blks, maps, offs = chain(ctx, widths, ba, en)
    off = ctx.bits("off", 24)
    r, _ = L.reg(blks[-1], [(nb, 0, "RW")], n_bits=nb)
    maps[-1].add_reg(r, off)
    blks[0].lock_model()
    exp = local(nb // 8, widths[-1], ba, en, off)
    for i in range(len(widths) - 1, 0, -1):
        c, p = widths[i], widths[i - 1]
        if ba or c <= p:
            exp = [offs[i - 1] + a for a in exp]
        else:
            k = -(-c // p)
            parts = [[offs[i - 1] + a * k + j for j in range(k)] for a in exp]
            exp = [x for q in parts for x in (q if en == "LE" else q[::-1])]
    exp = [base + a for a in exp]
    got = []
    r.get_addresses(maps[-1], got)
    ctx.check(same(got, exp), "addresses", widths=widths, nb=nb, en=en)
    ctx.check(maps[-1].get_root_map() is maps[0], "root map")
    got2 = []
    r.get_addresses(maps[0], got2)
    ctx.check(same(got2, exp), "addresses asked through the root map")
    for a in exp:
        ctx.check(maps[0].get_reg_by_offset(a) is r, "root map finds it at each address")
    ctx.check(r.is_in_map(maps[0]), "is_in_map")


def h_lookup(ctx, n, sizes, w):
    """n registers at arbitrary offsets: a lookup of any address finds the register that owns it, and sharing an
    address is reported"""
    base = ctx.bits("base", 32)
    b = L.block()
    m = b.create_map("m", base, w, endians()["LE"], True)
    regs, spans = [], []
    for i in range(n):
        nb = ctx.choice("bits%d" % i, sizes)
        r, _ = L.reg(b, [(nb, 0, "RW")], n_bits=nb, name="r%d" % i)
        off = ctx.bits("off%d" % i, 16)
        m.add_reg(r, off)
        regs.append(r)
        spans.append([base + off + j * w for j in range(beats(nb // 8, w))])
    uvmenv.clear()
    b.lock_model()
    clash = or_(*[eq(x, y) for i in range(n) for j in range(i) for x in spans[i] for y in spans[j]])
    ctx.check(iff(len(uvmenv.reports()) > 0, clash), "shared address reported")
    ctx.assume(not_(clash))
    q = ctx.bits("q", 33)
    hit = m.get_reg_by_offset(q)
    for r, sp in zip(regs, spans):
        ctx.check(iff(hit is r, or_(*[eq(q, a) for a in sp])), "lookup finds the owner")


def h_share(ctx):
    """a read-only and a write-only register may share an address: reads find one, writes the other"""
    b = L.block()
    m = b.create_map("m", ctx.bits("base", 16), 4, endians()["LE"], True)
    pols = ["RO", "WO"] if ctx.bool("ro_first") else ["WO", "RO"]
    regs, offs = {}, []
    for i, p in enumerate(pols):
        r, _ = L.reg(b, [(32, 0, p)], n_bits=32, name="r%d" % i)
        off = ctx.bits("off%d" % i, 16)
        m.add_reg(r, off)
        regs[p] = r
        offs.append(off)
    uvmenv.clear()
    b.lock_model()
    ctx.check(not uvmenv.reports(), "sharing is not reported")
    for p, o in zip(pols, offs):
        a = m.get_base_addr() + o
        ctx.check(m.get_reg_by_offset(a, p != "WO") is regs[p], "each found by its direction", p=p)


def h_move(ctx, moves):
    """set_offset on a locked model: the register is found at its new address and no longer at the old one"""
    b = L.block()
    base = ctx.bits("base", 16)
    m = b.create_map("m", base, 4, endians()["LE"], True)
    r, _ = L.reg(b, [(32, 0, "RW")], n_bits=32)
    o = ctx.bits("o0", 16)
    m.add_reg(r, o)
    b.lock_model()
    for i in range(moves):
        o = ctx.bits("o%d" % (i + 1), 16)
        r.set_offset(m, o)
        q = ctx.bits("q%d" % i, 17)
        ctx.check(iff(m.get_reg_by_offset(q) is r, eq(q, base + o)), "found only at the current address", i=i)
        ctx.check(eq(r.get_address(m), base + o), "address follows")


S = [(True, [4, 4]), (True, [8, 4]), (True, [4, 2]), (False, [4, 4]), (False, [2, 4]), (True, [4, 4, 4]),
     (True, [8, 4, 2]), (False, [1, 2]), (False, [2, 3]), (False, [1, 1, 1])]
HARNESSES = [
    Harness(h_flat, widths=[1, 2, 4, 8], sizes=[8, 16, 24, 32, 64], hash_mode="const"),
    Harness(h_nested, shapes=S, sizes=[16, 32, 64], hash_mode="const"),
    Harness(h_lookup, n=2, sizes=[16, 32, 64], w=2, hash_mode="const"),
    Harness(h_lookup, name="h_lookup3", n=3, sizes=[16, 32, 64], w=2, hash_mode="const", tiers=("thorough",)),
    Harness(h_share, hash_mode="const"),
    Harness(h_move, moves=2, hash_mode="const"),
    Harness(h_move, name="h_move4", moves=4, hash_mode="const", tiers=("thorough",)),
]
