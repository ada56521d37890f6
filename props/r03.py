from engine import uvmenv
from engine.runner import Harness
from engine.symex import and_, eq, iff, ne, or_, bit, ite
from . import reglib as L


def setup():
    uvmenv.setup()


def layout(ctx, width, nf, pols=("RW",)):
    """nf disjoint fields anywhere in the register, any sizes, created in any order"""
    fields, pos = [], 0
    for i in range(nf):
        lsb = ctx.int("lsb%d" % i, pos, width - (nf - i))
        lsb = lsb.__index__()
        size = ctx.int("size%d" % i, 1, width - (nf - 1 - i) - lsb).__index__()
        fields.append((size, lsb, ctx.choice("pol%d" % i, list(pols))))
        pos = lsb + size
    rot = ctx.choice("order", nf)
    return fields[rot:] + fields[:rot]


def big_layouts(ctx, pols=("RW",)):
    lays = [[(1, 0), (1, 63)], [(32, 32), (32, 0)], [(7, 1), (9, 8), (13, 40)], [(64, 0)],
            [(3, 5), (1, 0), (2, 9), (8, 16)]]
    return [(s, l, ctx.choice("pol%d" % i, list(pols))) for i, (s, l) in enumerate(ctx.choice("layout", lays))]


def mk(ctx, small, width, nf):
    fields = layout(ctx, width, nf) if small else big_layouts(ctx)
    w = width if small else 64
    b, m, r, fs = L.one_reg(fields, n_bits=w)
    return w, fields, r, fs


def pieces(fields, v):
    return [(v >> l) & ((1 << s) - 1) for s, l, _ in fields]


def whole(fields, vs):
    out = 0
    for (s, l, _), v in zip(fields, vs):
        out = out | (v << l)
    return out


def h_compose(ctx, small, width, nf):
    """register set/get/predict distribute and collect exactly each field's bits"""
    w, fields, r, fs = mk(ctx, small, width, nf)
    v = ctx.bits("v", w)
    d = ctx.bits("d", w)
    ctx.check(r.predict(v) == 1, "predict accepted")
    ctx.check(eq(r.get_mirrored_value(), whole(fields, pieces(fields, v))), "register mirror")
    for f, x in zip(fs, pieces(fields, v)):
        ctx.check(and_(eq(f.get_mirrored_value(), x), eq(f.get(), x)), "field mirror")
    r.set(d)
    ctx.check(eq(r.get(), whole(fields, pieces(fields, d))), "register desired")
    ctx.check(eq(r.get_mirrored_value(), whole(fields, pieces(fields, v))), "set leaves mirror")
    for f, x, y in zip(fs, pieces(fields, d), pieces(fields, v)):
        ctx.check(and_(eq(f.get(), x), eq(f.get_mirrored_value(), y)), "field desired")
    nu = r.needs_update()
    ctx.check(iff(bool(nu), ne(r.get(), r.get_mirrored_value())), "register needs_update")
    got = []
    r.get_fields(got)
    ctx.check(sorted(f.get_lsb_pos() for f in fs) == [f.get_lsb_pos() for f in got], "fields in address order")
    ctx.check(not uvmenv.errors(), "no error reported")


def h_isolate(ctx, small, width, nf):
    """setting or predicting one field changes only that field's bits of the register"""
    w, fields, r, fs = mk(ctx, small, width, nf)
    v = ctx.bits("v", w)
    r.predict(v)
    k = ctx.choice("k", len(fs))
    x = ctx.bits("x", fields[k][0])
    if ctx.bool("predict"):
        fs[k].predict(x)
        got = r.get_mirrored_value()
    else:
        fs[k].set(x)
        got = r.get()
        ctx.check(eq(r.get_mirrored_value(), whole(fields, pieces(fields, v))), "mirror unaffected")
    exp = pieces(fields, v)
    exp[k] = x
    ctx.check(eq(got, whole(fields, exp)), "only that field changed")


def h_reset(ctx, small, width, nf):
    """register reset value = its fields' reset values; reset() puts every field back"""
    w, fields, r, fs = mk(ctx, small, width, nf)
    rst = ctx.bits("rst", w)
    r.set_reset(rst)
    r.predict(ctx.bits("v", w))
    r.set(ctx.bits("d", w))
    r.reset()
    exp = whole(fields, pieces(fields, rst))
    ctx.check(and_(eq(r.get(), exp), eq(r.get_mirrored_value(), exp)), "reset value")
    for f, x in zip(fs, pieces(fields, rst)):
        ctx.check(and_(f.has_reset(), eq(f.get_reset(), x)), "field reset value")


def h_bytes(ctx, small, width, nf):
    """a predict with byte enables touches exactly the fields whose first byte lane is enabled"""
    from uvm.reg.uvm_reg_model import UVM_PREDICT_DIRECT, UVM_PREDICT_WRITE, UVM_PREDICT_READ
    w, fields, r, fs = mk(ctx, small, width, nf)
    v, x = ctx.bits("v", w), ctx.bits("x", w)
    be = ctx.bits("be", (w + 7) // 8)
    r.predict(v)
    r.predict(x, be, ctx.choice("kind", [UVM_PREDICT_DIRECT, UVM_PREDICT_WRITE, UVM_PREDICT_READ]))
    exp = [ite(eq(bit(be, l // 8), 1), b_, a) for (s, l, _), a, b_ in
           zip(fields, pieces(fields, v), pieces(fields, x))]
    ctx.check(eq(r.get_mirrored_value(), whole(fields, exp)), "byte lanes")


def h_bad(ctx, width):
    """two fields that overlap, or that do not fit, are reported; disjoint fitting ones are not"""
    b = L.block()
    s0 = ctx.int("s0", 1, width).__index__()
    l0 = ctx.int("l0", 0, width - s0).__index__()
    s1 = ctx.int("s1", 1, width).__index__()
    l1 = ctx.int("l1", 0, width - s1).__index__()
    uvmenv.clear()
    r, fs = L.reg(b, [(s0, l0, "RW"), (s1, l1, "RW")], n_bits=width)
    overlap = l0 < l1 + s1 and l1 < l0 + s0
    ctx.check((len(uvmenv.errors()) > 0) == overlap, "overlap reported", s0=s0, l0=l0, s1=s1, l1=l1)


def hs(tier, **kw):
    t = () if tier is None else (tier,)
    out = []
    for fn in (h_compose, h_isolate, h_reset, h_bytes):
        out.append(Harness(fn, name=fn.__name__ + "_all%d_%d" % (kw["width"], kw["nf"]), small=True,
                           tiers=t or ("quick", "thorough"), **kw))
    return out


HARNESSES = hs(None, width=6, nf=2) + hs("thorough", width=12, nf=2) + hs("thorough", width=8, nf=3) + [
    Harness(fn, name=fn.__name__ + "_wide", small=False, width=64, nf=0)
    for fn in (h_compose, h_isolate, h_reset, h_bytes)] + [Harness(h_bad, width=5)]
