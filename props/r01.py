from engine import uvmenv
from engine.runner import Harness
from engine.symex import and_, eq, implies, ne, not_, or_, iff
from . import reglib as L


def setup():
    uvmenv.setup()


def field(size, policy, rights="RW", lsb=0):
    b, m, r, (f,) = L.one_reg([(size, lsb, policy)], n_bits=max(32, size + lsb), rights=rights)
    return m, r, f


def put(f, r, v):
    """bring mirror and desired value to v the way a user would"""
    f.predict(v)


def h_write(ctx, sizes, rights):
    """any current and written value; mirror after a predicted frontdoor/monitor write equals the
    documented effect of the policy as seen through the map"""
    from uvm.reg.uvm_reg_model import UVM_PREDICT_WRITE, UVM_FRONTDOOR, UVM_PREDICT
    pol = ctx.choice("policy", L.POLICIES)
    rt = ctx.choice("rights", rights)
    size = ctx.choice("size", sizes)
    path = ctx.choice("path", [UVM_FRONTDOOR, UVM_PREDICT])
    mask = (1 << size) - 1
    m, r, f = field(size, pol, rt)
    acc = L.effective(pol, rt)
    ctx.check(f.get_access(m) == acc, "effective access", policy=pol, rights=rt)
    cur = ctx.bits("cur", size)
    put(f, r, cur)
    exp = cur
    for i in range(2):
        wr = ctx.bits("wr", size)
        ok = f.predict(wr, -1, UVM_PREDICT_WRITE, path, m)
        exp = L.hw_write(acc, exp, wr, mask, i > 0)
        ctx.check(ok == 1, "predict accepted")
        ctx.check(eq(f.get_mirrored_value(), exp), "mirror after write", policy=pol, rights=rt, i=i)
        ctx.check(eq(f.get(), exp), "desired after write", policy=pol, rights=rt)


def h_read(ctx, sizes, rights):
    """any value read from the bus: mirror afterwards is the policy's read side effect"""
    from uvm.reg.uvm_reg_model import UVM_PREDICT_READ, UVM_FRONTDOOR, UVM_PREDICT
    pol = ctx.choice("policy", L.POLICIES)
    rt = ctx.choice("rights", rights)
    size = ctx.choice("size", sizes)
    path = ctx.choice("path", [UVM_FRONTDOOR, UVM_PREDICT])
    mask = (1 << size) - 1
    m, r, f = field(size, pol, rt)
    acc = L.effective(pol, rt)
    cur = ctx.bits("cur", size)
    put(f, r, cur)
    rd = ctx.bits("rd", size)
    f.predict(rd, -1, UVM_PREDICT_READ, path, m)
    seen, after = L.hw_read(acc, rd, mask)
    exp = cur if seen is None else after
    ctx.check(eq(f.get_mirrored_value(), exp), "mirror after read", policy=pol, rights=rt)
    ctx.check(eq(f.get(), exp), "desired after read", policy=pol, rights=rt)


def h_direct(ctx, sizes):
    """direct predict and backdoor predicts store the (masked) value whatever the policy; oversize
    values never leak beyond the field"""
    from uvm.reg.uvm_reg_model import (UVM_PREDICT_READ, UVM_PREDICT_WRITE, UVM_PREDICT_DIRECT,
                                       UVM_BACKDOOR)
    pol = ctx.choice("policy", L.POLICIES)
    size = ctx.choice("size", sizes)
    m, r, f = field(size, pol)
    put(f, r, ctx.bits("cur", size))
    v = ctx.bits("v", size + 3)
    kind, path = ctx.choice("how", [(UVM_PREDICT_DIRECT, 0), (UVM_PREDICT_READ, UVM_BACKDOOR),
                                    (UVM_PREDICT_WRITE, UVM_BACKDOOR)])
    f.predict(v, -1, kind, path, m)
    ctx.check(eq(f.get_mirrored_value(), v & ((1 << size) - 1)), "mirror is the value")
    ctx.check(eq(f.get(), v & ((1 << size) - 1)), "desired is the value")


def h_byte_enable(ctx, sizes):
    """a field predict whose byte enable excludes the field changes nothing"""
    from uvm.reg.uvm_reg_model import UVM_PREDICT_READ, UVM_PREDICT_WRITE, UVM_PREDICT_DIRECT
    size = ctx.choice("size", sizes)
    kind = ctx.choice("kind", [UVM_PREDICT_DIRECT, UVM_PREDICT_READ, UVM_PREDICT_WRITE])
    m, r, f = field(size, "RW")
    cur = ctx.bits("cur", size)
    put(f, r, cur)
    v = ctx.bits("v", size)
    be = ctx.bits("be", 4)
    f.predict(v, be, kind, 0, m)
    from engine.symex import ite, bit
    ctx.check(eq(f.get_mirrored_value(), ite(eq(bit(be, 0), 1), v, cur)), "byte enable honoured")


def h_busy(ctx, sizes):
    """a direct predict is refused (returns 0) exactly while the register is being accessed"""
    size = ctx.choice("size", sizes)
    m, r, f = field(size, "RW")
    busy = ctx.bool("busy")
    r.Xset_busyX(busy)
    whole = ctx.bool("whole")
    ok = (r if whole else f).predict(ctx.bits("v", size))
    ctx.check((ok == 1) == (not busy), "busy predict refused", busy=busy, whole=whole)


def h_write_once(ctx, sizes):
    """W1/WO1 accept exactly the first write after a hard reset, over any history of up to 3 operations"""
    from uvm.reg.uvm_reg_model import UVM_PREDICT_WRITE, UVM_PREDICT_READ
    pol = ctx.choice("policy", ["W1", "WO1"])
    size = ctx.choice("size", sizes)
    m, r, f = field(size, pol)
    f.set_reset(ctx.bits("rst", size))
    f.set_reset(ctx.bits("soft", size), "SOFT")
    cur, written = None, None
    f.reset()
    cur, written = f.get_reset(), False
    for i in range(4):
        op = ctx.choice("op%d" % i, ["write", "read", "reset", "soft"])
        if op == "soft":
            f.reset("SOFT")
            cur = f.get_reset("SOFT")
        elif op == "write":
            v = ctx.bits("v%d" % i, size)
            f.predict(v, -1, UVM_PREDICT_WRITE, 0, m)
            cur = cur if written else v
            written = True
        elif op == "read":
            v = ctx.bits("v%d" % i, size)
            f.predict(v, -1, UVM_PREDICT_READ, 0, m)
            if pol == "W1":
                cur = v
        else:
            f.reset()
            cur, written = f.get_reset(), False
        ctx.check(eq(f.get_mirrored_value(), cur), "write-once", policy=pol, i=i)


Q = [1, 2, 8, 31, 32, 33, 64]
T = list(range(1, 65))
RT = ["RW", "RO", "WO"]
HARNESSES = [
    Harness(h_write, sizes=Q, rights=RT, tiers=("quick",)),
    Harness(h_read, sizes=Q, rights=RT, tiers=("quick",)),
    Harness(h_direct, sizes=Q, tiers=("quick",)),
    Harness(h_byte_enable, sizes=[1, 8, 32]),
    Harness(h_write_once, sizes=[1, 32]),
    Harness(h_busy, sizes=[8]),
    Harness(h_write, name="h_write_wide", tiers=("thorough",), sizes=T, rights=RT),
    Harness(h_read, name="h_read_wide", tiers=("thorough",), sizes=T, rights=RT),
    Harness(h_direct, name="h_direct_wide", tiers=("thorough",), sizes=T),
]
