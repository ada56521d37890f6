from engine import simk, uvmenv
from engine.runner import Harness
from engine.symex import and_, eq, iff, implies, ne, not_, or_, le, lt, ge, gt
from . import reglib as L
from .r07 import mem


def setup():
    uvmenv.setup()


def meets(a, b, c, d):
    return and_(le(a, d), le(c, b))


def h_reserve(ctx, n, bits, width):
    """n reservations of any start and length: granted exactly when inside the space and clear of what is already
    reserved; a region covers exactly the locations asked for"""
    b = L.block()
    size = ctx.choice("size", [7, 1 << bits])
    x = mem(b, size, width)
    wb = width // 8
    held = []
    for i in range(n):
        s, nb = ctx.bits("s%d" % i, bits), ctx.bits("n%d" % i, bits)
        uvmenv.clear()
        r = x.mam.reserve_region(s, nb)
        if nb == 0:
            ctx.check(r is None and len(uvmenv.errors()) == 1, "zero bytes refused")
            continue
        end = s + (nb + wb - 1) // wb - 1
        ok = and_(lt(end, size), *[not_(meets(s, end, a, e)) for a, e in held])
        ctx.check(iff(r is not None, ok), "granted iff it fits and is free", i=i)
        ctx.check(len(uvmenv.errors()) == (0 if r is not None else 1), "refusal reported")
        if r is not None:
            ctx.check(and_(eq(r.get_start_offset(), s), eq(r.get_end_offset(), end)), "extent of the region")
            ctx.check(and_(eq(r.get_len(), end - s + 1), eq(r.get_n_bytes(), (end - s + 1) * wb)), "size of the region")
            held.append((s, end))


def h_vreg(ctx, n, bits):
    """static virtual register arrays: implemented exactly when they fit and overlap nothing; large enough increment"""
    from uvm.reg.uvm_vreg import UVMVReg
    b = L.block()
    width = ctx.choice("width", [8, 32])
    x = mem(b, 1 << bits, width)
    wb = width // 8
    held = []
    for i in range(n):
        nbits = ctx.choice("nbits%d" % i, [8, 24, 64])
        v = UVMVReg(L.uniq("v"), nbits)
        sz, off, inc = ctx.int("sz%d" % i, 1, 3), ctx.bits("off%d" % i, bits), ctx.int("inc%d" % i, 0, 9)
        uvmenv.clear()
        v.configure(b, x, sz, off, inc)
        need = -(-(nbits // 8) // wb)
        if inc == 0:
            inc = need
        end = off + sz * inc - 1
        ok = and_(ge(inc, need), lt(end, 1 << bits), *[not_(meets(off, end, a, e)) for a, e in held])
        got = v.mem is x
        ctx.check(iff(got, ok), "implemented iff it fits", i=i, nbits=nbits, width=width)
        ctx.check(iff(len(uvmenv.errors()) == 0, ok), "refusal reported")
        if got:
            ctx.check(and_(eq(v.incr, inc), eq(v.offset, off), eq(v.get_size(), sz)), "array parameters")
            r = v.region
            ctx.check(and_(eq(r.get_start_offset(), off), eq(r.get_end_offset(), end)), "its region")
            held.append((off, end))


def h_vfields(ctx, nbits, n):
    """virtual fields: overlap and overflow reported exactly when they occur"""
    from uvm.reg.uvm_vreg import UVMVReg
    from uvm.reg.uvm_vreg_field import UVMVRegField
    b = L.block()
    v = UVMVReg(L.uniq("v"), nbits)
    v.configure(b)
    sp = []
    uvmenv.clear()
    for i in range(n):
        lsb, sz = ctx.int("l%d" % i, 0, nbits - 1), ctx.int("z%d" % i, 1, nbits)
        ctx.assume(le(lsb + sz, nbits))
        f = UVMVRegField("f%d" % i)
        f.configure(v, sz, lsb)
        sp.append((lsb, lsb + sz - 1))
        ctx.check(f.get_register() is v, "parent")
    bad = or_(*[meets(*sp[i], *sp[j]) for i in range(n) for j in range(i)])
    ctx.check(iff(len(uvmenv.errors()) > 0, bad), "reported iff two fields overlap")


HARNESSES = [
    Harness(h_reserve, n=3, bits=8, width=32, tiers=("quick",)),
    Harness(h_reserve, name="h_reserve_deep", n=4, bits=16, width=16, tiers=("thorough",)),
    Harness(h_vreg, n=2, bits=8, tiers=("quick",)),
    Harness(h_vreg, name="h_vreg_deep", n=3, bits=8, tiers=("thorough",)),
    Harness(h_vfields, nbits=8, n=2),
    Harness(h_vfields, name="h_vfields3", nbits=16, n=3, tiers=("thorough",)),
]
