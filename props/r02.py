from engine import uvmenv
from engine.runner import Harness
from engine.symex import and_, eq, implies, ne, not_, or_, iff
from . import reglib as L


def setup():
    uvmenv.setup()


def set_ref(pol, des, v, mask, written):
    """desired value after set(v): the value the field would take if v were written"""
    if pol in ("RO", "RC", "RS"):
        return des
    return L.hw_write(pol, des, v, mask, written)


def h_set(ctx, sizes, n):
    """any history of n set() calls (oversize values included) from any synchronised state: desired follows
    the policy, the mirror does not move, and needs_update() is exactly desired != mirrored (or volatile)"""
    pol = ctx.choice("policy", L.POLICIES)
    size = ctx.choice("size", sizes)
    vol = ctx.bool("volatile")
    mask = (1 << size) - 1
    b, m, r, (f,) = L.one_reg([(size, 0, pol, vol)], n_bits=64)
    cur = ctx.bits("cur", size)
    f.predict(cur)
    des = cur
    for i in range(n):
        v = ctx.bits("v%d" % i, size + 2)
        over = v > mask
        uvmenv.clear()
        f.set(v)
        des = set_ref(pol, des, v & mask, mask, False)
        ctx.check(eq(f.get(), des), "desired after set", policy=pol)
        ctx.check(eq(f.get_mirrored_value(), cur), "mirror untouched by set")
        ctx.check((len(uvmenv.reports()) > 0) == over, "oversize value is reported")
    nu = f.needs_update()
    ctx.check(iff(bool(nu), or_(vol, ne(des, cur))), "needs_update")


def h_update(ctx, sizes, n):
    """after any n set() calls, writing the value update() would send turns the hardware field (same policy,
    same start value) into the desired value"""
    pol = ctx.choice("policy", L.POLICIES)
    size = ctx.choice("size", sizes)
    lsb = ctx.choice("lsb", [0, 3])
    mask = (1 << size) - 1
    if lsb + size > 64:
        lsb = 64 - size
    b, m, r, (f,) = L.one_reg([(size, lsb, pol)], n_bits=64)
    cur = ctx.bits("cur", size)
    f.predict(cur)
    for i in range(n):
        f.set(ctx.bits("v%d" % i, size))
    wr = f.XupdateX()
    ctx.check(and_(eq(wr & mask, wr)), "update value fits")
    hw = L.hw_write(pol, cur, wr, mask, False)
    ctx.check(eq(hw, f.get()), "update makes hardware the desired value", policy=pol)
    # and the model's own prediction of that write agrees
    from uvm.reg.uvm_reg_model import UVM_PREDICT_WRITE
    want = f.get()
    f.predict(wr, -1, UVM_PREDICT_WRITE, 0, m)
    ctx.check(and_(eq(f.get_mirrored_value(), want), eq(f.get(), want)), "prediction reaches desired", policy=pol)
    ctx.check(not f.needs_update(), "no update pending afterwards", policy=pol)


def h_value(ctx, sizes):
    """reset values: any number of kinds, masked to the field, reset() restores exactly the kind asked for"""
    size = ctx.choice("size", sizes)
    b, m, r, (f,) = L.one_reg([(size, 0, "RW")], n_bits=64)
    hard, soft = ctx.bits("hard", size + 2), ctx.bits("soft", size + 2)
    mask = (1 << size) - 1
    f.set_reset(hard)
    has_soft = ctx.bool("has_soft")
    if has_soft:
        f.set_reset(soft, "SOFT")
    cur = ctx.bits("cur", size)
    f.predict(cur)
    f.set(ctx.bits("des", size))
    des = f.get()
    kind = ctx.choice("kind", ["HARD", "SOFT", "OTHER"])
    have = kind == "HARD" or (kind == "SOFT" and has_soft)
    exp = hard & mask if kind == "HARD" else soft & mask
    ctx.check(f.has_reset(kind) == have, "has_reset")
    ctx.check(eq(f.get_reset(kind), exp if have else des), "get_reset")
    f.reset(kind)
    if have:
        ctx.check(and_(eq(f.get_mirrored_value(), exp), eq(f.get(), exp)), "reset value applied")
        ctx.check(not f.needs_update(), "in sync after reset")
    else:
        ctx.check(and_(eq(f.get_mirrored_value(), cur), eq(f.get(), des)), "unknown reset kind changes nothing")


Q = [1, 2, 8, 31, 32, 33, 62]
T = list(range(1, 63))
HARNESSES = [
    Harness(h_set, sizes=[1, 8, 32, 62], n=2, tiers=("quick",)),
    Harness(h_update, sizes=Q, n=3, tiers=("quick",)),
    Harness(h_value, sizes=Q),
    Harness(h_set, name="h_set_deep", sizes=Q, n=3, tiers=("thorough",)),
    Harness(h_update, name="h_update_deep", sizes=T, n=5, tiers=("thorough",)),
]
