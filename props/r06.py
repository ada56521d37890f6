from engine import simk, uvmenv
from engine.runner import Harness
from engine.symex import and_, eq, iff, implies, ne, not_, or_
from . import reglib as L
from .r05 import kinds, run

ASSUMPTIONS = ["the bus driver and adapter are test-bench code of the harness; sequencer, map and register are real"]


def setup():
    uvmenv.setup()
    L.bus_classes()


def layout(ctx, shapes, rights):
    """fields of the given sizes side by side, policies and compare flags free"""
    from uvm.reg.uvm_reg_model import UVM_CHECK, UVM_NO_CHECK
    sizes = ctx.choice("sizes", shapes)
    b = L.block()
    m = b.create_map(L.uniq("map"), 0, 4, L.little())
    lsb, spec = 0, []
    for i, z in enumerate(sizes):
        spec.append((z, lsb, ctx.choice("pol%d" % i, ["RW", "RO", "WO", "RC", "WRS", "WOC", "WO1", "W1C"])))
        lsb += z + 1
    r, fs = L.reg(b, spec, n_bits=32)
    cmp_ = []
    for i, f in enumerate(fs):
        # the last flag is free, the others are left to compare
        c = ctx.bool("cmp%d" % i)
        f.set_compare(UVM_CHECK if c else UVM_NO_CHECK)
        cmp_.append(c)
    m.add_reg(r, 0, rights)
    b.lock_model()
    return b, m, r, fs, spec, cmp_


def checked(spec, cmp_, rights):
    out = []
    for (z, lsb, pol), c in zip(spec, cmp_):
        eff = L.effective(pol, rights)
        out.append(c and eff[:2] != "WO")
    return out


def reading(ctx, spec):
    """value on the bus: any field values, reserved bits read as zero"""
    v = 0
    for i, (z, lsb, p) in enumerate(spec):
        v = v | (ctx.bits("got%d" % i, z) << lsb)
    return v


def h_check(ctx, shapes, rights):
    """mirror(UVM_CHECK): an error exactly when a compared, readable field differs; the mirror then follows the
    value read"""
    from uvm.reg.uvm_reg_model import UVM_CHECK
    RD, WR, OK, BAD = kinds()
    rt = ctx.choice("rights", rights)
    b, m, r, fs, spec, cmp_ = layout(ctx, shapes, rt)
    for i, f in enumerate(fs):
        f.predict(ctx.bits("mir%d" % i, spec[i][0]))
    mir = [f.get_mirrored_value() for f in fs]
    if ctx.bool("pending"):
        fs[0].set(ctx.bits("des", spec[0][0]))
    got = reading(ctx, spec)
    bad = ctx.bool("bus_error")

    def serve(it):
        it.status, it.data = (BAD if bad else OK), got
    sqr, drv, ad = L.bus(m, serve)
    auto = ctx.bool("auto")
    m.set_auto_predict(auto)
    m.set_check_on_read(0)
    st = []
    uvmenv.clear()

    async def body():
        await r.mirror(st, UVM_CHECK)
    ctx.check(run(ctx, drv, body) == "done", "completes")
    ctx.check(st[0] == (BAD if bad else OK), "status")
    val = [(got >> lsb) & ((1 << z) - 1) for z, lsb, p in spec]
    on = checked(spec, cmp_, rt)
    diff = or_(*[ne(v, w) for v, w, o in zip(val, mir, on) if o])
    n = len(uvmenv.errors())
    if bad:
        ctx.check(n == 0, "a failed read is not compared")
    else:
        ctx.check(iff(n > 0, diff), "error iff a compared field differs", rights=rt)
        if auto:
            for (z, lsb, p), f, v, o in zip(spec, fs, val, mir):
                rv, after = L.hw_read(L.effective(p, rt), v, (1 << z) - 1)
                ctx.check(eq(f.get_mirrored_value(), o if rv is None else after), "mirror follows the value read", p=p)


def h_read(ctx, shapes):
    """an explicit read with check-on-read set in the map is compared the same way"""
    RD, WR, OK, BAD = kinds()
    b, m, r, fs, spec, cmp_ = layout(ctx, shapes, "RW")
    for i, f in enumerate(fs):
        f.predict(ctx.bits("mir%d" % i, spec[i][0]))
    mir = [f.get_mirrored_value() for f in fs]
    if ctx.bool("pending"):
        fs[0].set(ctx.bits("des", spec[0][0]))
    got = reading(ctx, spec)

    def serve(it):
        it.status, it.data = OK, got
    sqr, drv, ad = L.bus(m, serve)
    m.set_auto_predict(True)
    con = ctx.bool("check_on_read")
    m.set_check_on_read(con)
    st, out = [], []
    uvmenv.clear()

    async def body():
        await r.read(st, out)
    ctx.check(run(ctx, drv, body) == "done", "completes")
    val = [(got >> lsb) & ((1 << z) - 1) for z, lsb, p in spec]
    diff = or_(*[ne(v, w) for v, w, o in zip(val, mir, checked(spec, cmp_, "RW")) if o])
    ctx.check(iff(len(uvmenv.errors()) > 0, and_(con, diff)), "error iff check-on-read and a compared field differs")
    ctx.check(eq(out[0], got), "the value read is returned unchanged")


def h_nomap(ctx):
    """a mirror() through a map the register is not in fails, and the register stays usable"""
    RD, WR, OK, BAD = kinds()
    b, m, r, fs = L.one_reg([(32, 0, "RW")])
    other = L.block().create_map(L.uniq("map"), 0, 4, L.little())
    hw = [ctx.bits("hw", 32)]

    def serve(it):
        it.status = OK
        if it.kind == RD:
            it.data = hw[0]
        else:
            hw[0] = it.data
    sqr, drv, ad = L.bus(m, serve)
    m.set_auto_predict(True)
    v = ctx.bits("v", 32)
    st = []

    async def body():
        await r.mirror([], _map=other)
        await r.write(st, v)
    ctx.check(run(ctx, drv, body) == "done", "register still accessible")
    ctx.check(st == [OK], "status")
    ctx.check(and_(eq(fs[0].get_mirrored_value(), v), eq(hw[0], v)), "written")


HARNESSES = [
    Harness(h_check, shapes=[(3,), (8, 7)], rights=["RW", "RO"], hash_mode="const", tiers=("quick",)),
    Harness(h_read, shapes=[(8, 7)], hash_mode="const"),
    Harness(h_nomap, hash_mode="const"),
    Harness(h_check, name="h_check_deep", shapes=[(3,), (8, 7), (31,), (4, 4, 4)], rights=["RW", "RO", "WO"],
            hash_mode="const", tiers=("thorough",)),
]
