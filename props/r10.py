import cocotb  # noqa: F401
from engine import simk, uvmenv  # noqa: F401
from engine.runner import Harness
from engine.symex import and_, eq, iff, implies, ne, not_, or_
from . import reglib as L
from .r05 import kinds, run


def setup():
    uvmenv.setup()
    L.bus_classes()


def tree(ctx, blocks, per, pols=("RW",), rst=False):
    """a tree of blocks (each block hangs below any earlier one) with registers, all in the top block's map"""
    from uvm.reg.uvm_reg_block import UVMRegBlock
    top = L.block()
    blks, parent = [top], [None]
    for i in range(1, blocks):
        p = ctx.choice("parent%d" % i, i)
        b = UVMRegBlock(L.uniq("sub"))
        b.configure(blks[p])
        blks.append(b)
        parent.append(p)
    m = top.create_map(L.uniq("map"), 0, 4, L.little())
    tops, recs = [m], []
    for i, b in enumerate(blks):
        if i:
            sm = b.create_map(L.uniq("map"), 0, 4, L.little())
            tops.append(sm)
        for j in range(per):
            pol = ctx.choice("pol%d_%d" % (i, j), list(pols))
            rv = ctx.bits("rst%d_%d" % (i, j), 32) if rst else 0
            r, (f,) = L.reg(b, [(32, 0, pol, False, rv)], n_bits=32)
            tops[i].add_reg(r, 4 * j)
            recs.append([i, r, f, j])
    for i in range(1, blocks):
        tops[parent[i]].add_submap(tops[i], (0x80 << i))
    base = [0] * blocks
    for i in range(1, blocks):
        base[i] = base[parent[i]] + (0x80 << i)
    top.lock_model()
    for x in recs:
        x[3] = base[x[0]] + 4 * x[3]
    return top, blks, parent, m, recs


def below(parent, i):
    """blocks in the subtree of i"""
    out = [i]
    for j in range(i + 1, len(parent)):
        if parent[j] in out:
            out.append(j)
    return out


def h_update(ctx, blocks, per, fails):
    """update() of any block of the tree writes exactly the registers below it that need it, once each, and leaves
    nothing to update; a failing write gives a failing status"""
    RD, WR, OK, BAD = kinds()
    top, blks, parent, m, recs = tree(ctx, blocks, per)
    vals, old = [], []
    for k, (i, r, f, a) in enumerate(recs):
        o, v = ctx.bits("old%d" % k, 32), ctx.bits("new%d" % k, 32)
        r.predict(o)
        r.set(v)
        old.append(o)
        vals.append(v)
    t = ctx.choice("target", blocks)
    sub = below(parent, t)
    bad = ctx.choice("bad", len(recs) + 1) if fails else len(recs)
    seen = []

    def serve(it):
        seen.append(it)
        it.status = BAD if bad < len(recs) and it.addr == recs[bad][3] else OK
    L.bus(m, serve)
    m.set_auto_predict(True)
    need = or_(*[ne(vals[k], old[k]) for k, x in enumerate(recs) if x[0] in sub])
    ctx.check(iff(blks[t].needs_update(), need), "a block needs updating iff one of its registers does")
    st = []

    async def body():
        await blks[t].update(st)
    ctx.check(run(ctx, m._drv, body) == "done", "completes")
    ctx.check(len(st) == 1, "one status")
    failed = bad < len(recs) and recs[bad][0] in sub and not (vals[bad] == old[bad])
    ctx.check(st[0] == (BAD if failed else OK), "status")
    for k, (i, r, f, a) in enumerate(recs):
        n = sum(1 for x in seen if x.addr == a)
        mine = i in sub
        if not mine:
            ctx.check(n == 0, "registers of other blocks are left alone")
        elif not failed:
            ctx.check(n == (0 if vals[k] == old[k] else 1), "written iff needed, once", k=k)
        else:
            ctx.check(n <= 1, "written at most once")
        for x in seen:
            if x.addr == a:
                ctx.check(and_(x.kind == WR, eq(x.data, vals[k])), "desired value written")
                if not (k == bad):
                    ctx.check(eq(r.get_mirrored_value(), vals[k]), "mirror follows")
        if n == 0:
            ctx.check(eq(r.get_mirrored_value(), old[k]), "mirror of an unwritten register kept")
    if not failed:
        ctx.check(not blks[t].needs_update(), "nothing left to update")
        ctx.check(not uvmenv.errors(), "nothing reported")


def h_mirror(ctx, blocks, per):
    """mirror() reads every register below the block once; checking reports exactly the differing ones"""
    RD, WR, OK, BAD = kinds()
    from uvm.reg.uvm_reg_model import UVM_CHECK, UVM_NO_CHECK
    top, blks, parent, m, recs = tree(ctx, blocks, per)
    hw = [ctx.bits("hw%d" % k, 32) for k in range(len(recs))]
    old = [ctx.bits("old%d" % k, 32) for k in range(len(recs))]
    for k, x in enumerate(recs):
        x[1].predict(old[k])
    t = ctx.choice("target", blocks)
    sub = below(parent, t)
    bad = ctx.choice("bad", len(recs) + 1)
    chk = ctx.bool("check")
    seen = []

    def serve(it):
        seen.append(it)
        k = [x[3] for x in recs].index(it.addr)
        it.data = hw[k]
        it.status = BAD if k == bad else OK
    L.bus(m, serve)
    m.set_auto_predict(True)
    m.set_check_on_read(0)
    st = []
    uvmenv.clear()

    async def body():
        await blks[t].mirror(st, UVM_CHECK if chk else UVM_NO_CHECK)
    ctx.check(run(ctx, m._drv, body) == "done", "completes")
    failed = bad < len(recs) and recs[bad][0] in sub
    ctx.check(len(st) == 1 and st[0] == (BAD if failed else OK), "status")
    for k, (i, r, f, a) in enumerate(recs):
        n = sum(1 for x in seen if x.addr == a)
        ctx.check(n == (1 if i in sub else 0), "read once iff in the block", k=k)
        if k != bad:
            ctx.check(eq(r.get_mirrored_value(), hw[k] if i in sub else old[k]), "mirror")
    ctx.check(all(x.kind == RD for x in seen), "only reads")
    diff = or_(*[ne(hw[k], old[k]) for k, x in enumerate(recs) if x[0] in sub and k != bad])
    ctx.check(iff(len(uvmenv.errors()) > 0, and_(bool(chk), diff)), "reports iff checking and different")


def h_reset(ctx, blocks, per):
    """reset() of a block resets exactly the registers below it"""
    top, blks, parent, m, recs = tree(ctx, blocks, per, rst=True)
    v = [ctx.bits("v%d" % k, 32) for k in range(len(recs))]
    rs = [f.get_reset() for _, _, f, _ in recs]
    soft = [ctx.bits("soft%d" % k, 32) if ctx.bool("has_soft%d" % k) else None for k in range(len(recs))]
    for k, x in enumerate(recs):
        x[1].predict(v[k])
        if soft[k] is not None:
            x[1].set_reset(soft[k], "SOFT")
    t = ctx.choice("target", blocks)
    sub = below(parent, t)
    kind = ctx.choice("kind", ["HARD", "SOFT"])
    blks[t].reset(kind)
    for k, (i, r, f, a) in enumerate(recs):
        new = rs[k] if kind == "HARD" else (v[k] if soft[k] is None else soft[k])
        ctx.check(eq(r.get_mirrored_value(), new if i in sub else v[k]), "mirror after reset", k=k, kind=kind)
        ctx.check(eq(r.get(), new if i in sub else v[k]), "desired after reset")
        ctx.check(not (i in sub) or not r.needs_update() or kind == "SOFT", "no update pending after reset")
    ctx.check(eq(recs[0][2].get_reset(), rs[0]), "hard reset value kept")


def h_lookup(ctx, blocks, per):
    """registers, blocks and maps are found from the blocks that contain them, under the names they have"""
    from uvm.reg.uvm_reg_model import UVM_HIER, UVM_NO_HIER
    RD, WR, OK, BAD = kinds()
    top, blks, parent, m, recs = tree(ctx, blocks, per)
    t = ctx.choice("target", blocks)
    sub = below(parent, t)
    regs, own, bs, bo = [], [], [], []
    blks[t].get_registers(regs)
    blks[t].get_registers(own, UVM_NO_HIER)
    blks[t].get_blocks(bs)
    blks[t].get_blocks(bo, UVM_NO_HIER)
    ids = lambda xs: sorted(id(x) for x in xs)  # noqa: E731
    ctx.check(ids(regs) == ids(x[1] for x in recs if x[0] in sub), "registers of the block")
    ctx.check(ids(own) == ids(x[1] for x in recs if x[0] == t), "registers of the block itself")
    ctx.check(ids(bs) == ids(blks[i] for i in sub if i != t), "sub-blocks")
    ctx.check(ids(bo) == ids(blks[i] for i in range(blocks) if parent[i] == t), "direct sub-blocks")
    k = ctx.choice("reg", len(recs))
    i, r, f, a = recs[k]
    uvmenv.clear()
    got = blks[t].get_reg_by_name(r.get_name())
    ctx.check(got is (r if i in sub else None), "register by name")
    path = [top.get_name()] if i == 0 else []
    j, names = i, []
    while j is not None:
        names.append(blks[j].get_name())
        j = parent[j]
    ctx.check(r.get_full_name() == ".".join(reversed(names)) + "." + r.get_name(), "full name")
    rm = []
    m.get_registers(rm)
    ctx.check(ids(rm) == ids(x[1] for x in recs), "registers of the map")
    ctx.check(m.get_reg_by_offset(a) is r, "register by offset")
    v = ctx.bits("v", 32)
    seen = []

    def serve(it):
        seen.append((it.addr, it.kind, it.data))
        it.status = OK
    L.bus(m, serve)
    m.set_auto_predict(True)
    st = []

    async def body():
        await blks[t].write_reg_by_name(st, r.get_name(), v)
    ctx.check(run(ctx, m._drv, body) == "done", "write by name completes")
    if i in sub:
        ctx.check(len(st) == 1 and st[0] == OK and len(seen) == 1, "written once")
        ctx.check(and_(seen[0][0] == a, seen[0][1] == WR, eq(seen[0][2], v)), "to its address")
        ctx.check(eq(r.get(), v), "value")
    else:
        ctx.check(len(st) == 1 and st[0] == BAD and not seen, "unknown name refused")


HARNESSES = [
    Harness(h_update, blocks=3, per=1, fails=True, hash_mode="const"),
    Harness(h_update, name="h_update2", blocks=2, per=2, fails=True, hash_mode="const"),
    Harness(h_update, name="h_update_deep", blocks=4, per=1, fails=True, hash_mode="const", tiers=("thorough",)),
    Harness(h_mirror, blocks=3, per=1, hash_mode="const"),
    Harness(h_mirror, name="h_mirror2", blocks=2, per=2, hash_mode="const"),
    Harness(h_reset, blocks=3, per=1, hash_mode="const"),
    Harness(h_reset, name="h_reset_deep", blocks=4, per=1, hash_mode="const", tiers=("thorough",)),
    Harness(h_lookup, blocks=3, per=1, hash_mode="const"),
    Harness(h_lookup, name="h_lookup4", blocks=4, per=1, hash_mode="const"),
]
