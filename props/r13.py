from engine import simk, uvmenv  # noqa: F401
from engine.runner import Harness
from engine.symex import and_, eq, iff, implies, ne, not_, or_
from . import reglib as L
from .r04 import endians, local
from .r05 import kinds


def setup():
    uvmenv.setup()
    L.bus_classes()


POLS = ["RW", "W1C", "RC", "WO", "W1T"]


def h_monitor(ctx, n, en=("LE",), widths=(4,), sub=(False, True), pols=POLS):
    """n observed bus transactions at any address: a register is predicted exactly when all its beats were seen, with
    the value they carry and under its policy; anything else leaves every mirror alone; what is incomplete or collides
    is reported"""
    from uvm.reg.uvm_reg_predictor import UVMRegPredictor
    from uvm.reg.uvm_reg_block import UVMRegBlock
    from uvm.tlm1.uvm_analysis_port import UVMAnalysisImp
    RD, WR, OK, BAD = kinds()
    c = L.bus_classes()
    w = ctx.choice("width", list(widths))
    e = ctx.choice("endian", list(en))
    b = L.block()
    top = b.create_map(L.uniq("map"), ctx.bits("base", 8), w, endians()[e], True)
    nested = ctx.choice("nested", list(sub))
    if nested:
        b0 = b
        b = UVMRegBlock(L.uniq("subblk"))
        b.configure(b0)
        m = b.create_map(L.uniq("sub"), 0, w, endians()[e], True)
        so = ctx.bits("so", 8)
    else:
        m, so = top, 0
    base = top.get_base_addr() + so
    pol = ctx.choice("pol", list(pols))
    nb = 16 * w                       # two beats
    wide, (fw,) = L.reg(b, [(nb, 0, pol)], n_bits=nb)
    ro, (fro,) = L.reg(b, [(8 * w, 0, "RO")], n_bits=8 * w)
    wo, (fwo,) = L.reg(b, [(8 * w, 0, "WO")], n_bits=8 * w)
    m.add_reg(wide, 0)
    m.add_reg(ro, 2 * w, "RO")
    m.add_reg(wo, 2 * w, "WO")
    if nested:
        top.add_submap(m, so)
        b = b0
    b.lock_model()
    addr = {wide: [base + a for a in local(nb // 8, w, True, e, 0)], ro: [base + 2 * w], wo: [base + 2 * w]}
    mir = {wide: ctx.bits("m0", nb), ro: ctx.bits("m1", 8 * w), wo: ctx.bits("m2", 8 * w)}
    wrote = {wide: False, ro: False, wo: False}
    fld = {wide: fw, ro: fro, wo: fwo}
    for r in mir:
        r.predict(mir[r])
    chk = ctx.bool("check_on_read")
    m.set_check_on_read(chk)
    pr = UVMRegPredictor(L.uniq("pred"), None)
    pr.map, pr.adapter = top, c["adapter"]("ad")
    got = []

    class Sub(L_component()):
        def write(self, t):
            got.append(t)
    s = Sub(L.uniq("s"), None)
    imp = UVMAnalysisImp("imp", s)
    pr.reg_ap.connect(imp)
    pr.reg_ap.resolve_bindings()
    part, pk = {}, None
    for i in range(n):
        kind = ctx.choice("kind%d" % i, [RD, WR])
        a = ctx.bits("a%d" % i, 10)
        d = ctx.bits("d%d" % i, 8 * w)
        t = c["item"]("t")
        t.kind, t.addr, t.data, t.byte_en, t.n_bits, t.status = kind, a, d, -1, 8 * w, OK
        # reference
        hit, beat = None, None
        if a == addr[wide][0]:
            hit, beat = wide, 0
        elif a == addr[wide][1]:
            hit, beat = wide, 1
        elif a == base + 2 * w:
            hit, beat = (ro if kind == RD else wo), 0
        coll = False
        if hit is wide and part:
            ctx.assume(pk == kind)
            coll = beat in part
        done, val = False, None
        if hit is wide:
            if coll:
                part = {}
            else:
                part[beat] = d
                pk = kind
                if len(part) == 2:
                    done, val = True, part[0] | (part[1] << (8 * w))
                    part = {}
        elif hit is not None:
            done, val = True, d
        miss = False
        if done:
            f, pl = fld[hit], {wide: pol, ro: "RO", wo: "WO"}[hit]
            size = nb if hit is wide else 8 * w
            mask = (1 << size) - 1
            if chk and kind == RD and pl != "WO":
                miss = ne(val & mask, mir[hit])
            if kind == WR:
                mir[hit] = {"RW": val & mask, "WO": val & mask, "W1C": mir[hit] & ((val & mask) ^ mask),
                            "RC": mir[hit], "W1T": mir[hit] ^ (val & mask), "RO": mir[hit]}[pl]
            else:
                mir[hit] = {"RC": 0, "WO": mir[hit]}.get(pl, val & mask)
        del got[:]
        uvmenv.clear()
        pr.write(t)
        for r in mir:
            ctx.check(eq(fld[r].get_mirrored_value(), mir[r]), "mirrors", i=i)
        ctx.check(len(got) == (1 if done else 0), "one item per complete transaction", i=i)
        if done and got:
            g = got[0]
            ctx.check(g.element is hit and g.kind == kind, "item published")
            ctx.check(eq(g.value[0], val), "its value")
        ctx.check(iff(len(uvmenv.errors()) > 0, or_(coll, miss)), "errors", i=i)
        if done:
            ctx.cover("predicted")
        if coll:
            ctx.cover("collision")
    uvmenv.clear()
    pr.check_phase(None)
    ctx.check((len(uvmenv.errors()) > 0) == bool(part), "incomplete transactions reported at the end")


def L_component():
    from uvm.base.uvm_component import UVMComponent
    return UVMComponent


HARNESSES = [
    Harness(h_monitor, n=2, widths=(1,), en=("LE", "BE"), hash_mode="const", covers=("predicted", "collision")),
    Harness(h_monitor, name="h_monitor3", n=3, sub=(False,), widths=(2,), pols=("RW", "RC"), hash_mode="const"),
    Harness(h_monitor, name="h_monitor_w", n=3, widths=(4, 8), en=("LE", "BE"), hash_mode="const",
            tiers=("thorough",)),
    Harness(h_monitor, name="h_monitor4", n=4, hash_mode="const", pols=("RW", "W1T"), tiers=("thorough",)),
]
