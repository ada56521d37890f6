from engine import simk, uvmenv
from engine.runner import Harness
from engine.symex import and_, eq, iff, implies, ne, not_, or_
from . import reglib as L
from .r05 import kinds, run

ASSUMPTIONS = ["bus driver, adapter, hooks and callbacks are test-bench code of the harness; sequencer, map and "
               "register are real",
               "only the relative order the documentation and the code agree on is checked: own hook before own "
               "callbacks on pre, own callbacks before own hook on post, bus access between pre and post"]
_c = {}


def setup():
    uvmenv.setup()
    L.bus_classes()
    from uvm.reg.uvm_reg import UVMReg
    from uvm.reg.uvm_reg_field import UVMRegField
    from uvm.reg.uvm_reg_cbs import UVMRegCbs
    from uvm.reg.uvm_reg_backdoor import UVMRegBackdoor

    def hooks(base):
        class H(base):
            tag, act = None, None

            async def pre_write(self, rw):
                self.act(self.tag, "pre_write", rw)

            async def post_write(self, rw):
                self.act(self.tag, "post_write", rw)

            async def pre_read(self, rw):
                self.act(self.tag, "pre_read", rw)

            async def post_read(self, rw):
                self.act(self.tag, "post_read", rw)
        H.__name__ = base.__name__ + "H"
        return H

    class Bd(UVMRegBackdoor):
        async def write(self, rw):
            self.act("bus", "write", rw)

        async def read(self, rw):
            self.act("bus", "read", rw)
    _c.update(reg=hooks(UVMReg), field=hooks(UVMRegField), cb=hooks(UVMRegCbs), bd=Bd)


def build(ctx, act):
    b = L.block()
    m = b.create_map(L.uniq("map"), 0, 4, L.little())
    r = _c["reg"](L.uniq("r"), 32)
    r.configure(b)
    r.tag, r.act = "reg", act
    fs = []
    for i, (z, lsb) in enumerate(((8, 0), (16, 12))):
        f = _c["field"]("f%d" % i)
        f.configure(r, z, lsb, "RW", False, 0, True, True, False)
        f.tag, f.act = "f%d" % i, act
        fs.append(f)
    m.add_reg(r, 0)
    b.lock_model()
    return b, m, r, fs


FM = (0xff, 0xffff << 12)


def attach(obj, tag, act, n, on):
    from uvm.base.uvm_callback import UVMCallbacks
    out = []
    for i in range(n):
        c = _c["cb"]("%s_cb%d" % (tag, i))
        c.tag, c.act = "%s.cb%d" % (tag, i), act
        UVMCallbacks.add(obj, c)
        if not on[i]:
            c.callback_mode(0)
        out.append(c)
    return out


def order_ok(log, op, tags, on):
    """each hook and enabled callback once per phase, correctly ordered around the bus access"""
    names = [(t, k) for t, k in log]
    bus = names.index(("bus", op)) if ("bus", op) in names else None
    if bus is None:
        return "no bus access"
    for t in tags:
        own, _, cb = t.partition(".")
        live = (not cb) or on[t]
        for k in ("pre_" + op, "post_" + op):
            n = names.count((t, k))
            if n != (1 if live else 0):
                return "%s %s called %d times" % (t, k, n)
            if n:
                i = names.index((t, k))
                if (i < bus) != k.startswith("pre"):
                    return "%s %s on the wrong side" % (t, k)
                if cb:
                    j = names.index((own, k))
                    if (j < i) != k.startswith("pre"):
                        return "%s %s out of order with its hook" % (t, k)
    return None


def h_order(ctx, backdoor=False):
    """every hook and enabled callback of the register and its fields sees each access exactly once"""
    RD, WR, OK, BAD = kinds()
    log = []

    def act(tag, k, rw):
        log.append((tag, k))
        if tag == "bus":
            rw.status = OK
            if k == "read":
                rw.value[0] = 0
    b, m, r, fs = build(ctx, act)
    on, tags = {}, ["reg", "f0", "f1"]
    for t, o in (("reg", r), ("f0", fs[0]), ("f1", fs[1])):
        n = ctx.choice("n_" + t, 3 if t == "reg" else 2)
        fl = [ctx.bool("on_%s%d" % (t, i)) for i in range(n)]
        attach(o, t, act, n, fl)
        for i in range(n):
            on["%s.cb%d" % (t, i)] = fl[i]
            tags.append("%s.cb%d" % (t, i))

    def serve(it):
        it.status, it.data = OK, 0
        log.append(("bus", "read" if it.kind == RD else "write"))
    s, drv, ad = L.bus(m, serve)
    m.set_auto_predict(True)
    if backdoor:
        bd = _c["bd"]("bd")
        bd.act = act
        r.m_backdoor = bd
    from uvm.reg.uvm_reg_model import UVM_BACKDOOR, UVM_FRONTDOOR
    path = UVM_BACKDOOR if backdoor else UVM_FRONTDOOR
    op = ctx.choice("op", ["write", "read"])
    st = []

    async def body():
        if op == "write":
            await r.write(st, 0, path=path)
        else:
            await r.read(st, [], path=path)
    ctx.check(run(ctx, drv, body) == "done", "completes")
    ctx.check(st == [OK], "status")
    why = order_ok([x for x in log if not (backdoor and op == "write" and x == ("bus", "read"))], op, tags, on)
    ctx.check(why is None, "called exactly once, in order", why=why or "")


def h_value(ctx):
    """what a pre_write hook or callback does to the value is what goes on the bus and into the mirror; a field's
    hook sees and changes its field only"""
    RD, WR, OK, BAD = kinds()
    who = ctx.choice("who", ["reg", "f0", "f1", "reg.cb0", "f0.cb0", "f1.cb0"])
    key = ctx.bits("key", 8 if who[:2] == "f0" else 16 if who[:2] == "f1" else 32)
    val = ctx.bits("val", 32)
    seen, bus = {}, []

    def act(tag, k, rw):
        if k == "pre_write":
            seen[tag] = rw.value[0]
            if tag == who:
                rw.value[0] = rw.value[0] ^ key
    b, m, r, fs = build(ctx, act)
    for t, o in (("reg", r), ("f0", fs[0]), ("f1", fs[1])):
        attach(o, t, act, 1, [True])

    def serve(it):
        it.status = OK
        bus.append(it.data)
    s, drv, ad = L.bus(m, serve)
    m.set_auto_predict(True)

    async def body():
        await r.write([], val)
    ctx.check(run(ctx, drv, body) == "done", "completes")
    ctx.check(eq(seen["f0"], val & 0xff), "field hook sees its field")
    ctx.check(eq(seen["f1"], (val >> 12) & 0xffff), "field hook sees its field (high)")
    sh = 12 if who[:2] == "f1" else 0
    exp = val ^ (key << sh)
    ctx.check(eq(bus[0], exp), "value on the bus", who=who)
    ctx.check(and_(eq(fs[0].get_mirrored_value(), exp & 0xff), eq(fs[1].get_mirrored_value(), (exp >> 12) & 0xffff)),
              "value mirrored", who=who)


def h_veto(ctx):
    """a pre hook or callback that clears the status aborts the access: no bus traffic, status returned, mirror
    untouched; the register stays usable"""
    RD, WR, OK, BAD = kinds()
    who = ctx.choice("who", ["reg", "reg.cb0", "f0", "f1.cb0"])
    op = ctx.choice("op", ["write", "read"])
    bus = []
    arm = [True]

    def act(tag, k, rw):
        if arm[0] and tag == who and k == "pre_" + op:
            rw.status = BAD
    b, m, r, fs = build(ctx, act)
    for t, o in (("reg", r), ("f0", fs[0]), ("f1", fs[1])):
        attach(o, t, act, 1, [True])
    old = ctx.bits("old", 8)
    fs[0].predict(old)

    def serve(it):
        it.status = OK
        if it.kind == RD:
            it.data = 0
        bus.append(it.data)
    s, drv, ad = L.bus(m, serve)
    m.set_auto_predict(True)
    st, st2 = [], []
    v = ctx.bits("v", 32)
    res = {}

    async def body():
        if op == "write":
            await r.write(st, v)
        else:
            await r.read(st, [])
        res["n"], res["mir"] = len(bus), fs[0].get_mirrored_value()
        arm[0] = False
        await r.write(st2, v)
    ctx.check(run(ctx, drv, body) == "done", "completes, and the register stays usable")
    ctx.check(st == [BAD], "status tells", op=op)
    ctx.check(res["n"] == 0, "nothing on the bus", op=op)
    ctx.check(eq(res["mir"], old), "mirror untouched")
    ctx.check(st2 == [OK] and len(bus) == 1, "next access works")
    ctx.check(eq(fs[0].get_mirrored_value(), v & 0xff), "and is mirrored")


def h_backdoor(ctx):
    """backdoor writes and reads go through the user backdoor, follow the field policies and update the mirror"""
    RD, WR, OK, BAD = kinds()
    from uvm.reg.uvm_reg_model import UVM_BACKDOOR
    pol = ctx.choice("policy", L.POLICIES)
    b, m, r, (f,) = L.one_reg([(8, 4, pol)])
    hw = [ctx.bits("hw", 8)]
    bad = ctx.bool("bad")

    class X:
        pass
    bd = _c["bd"]("bd")

    def act(tag, k, rw):
        rw.status = BAD if bad else OK
        if k == "read":
            rw.value[0] = hw[0] << 4
        else:
            hw[0] = (rw.value[0] >> 4) & 0xff
    bd.act = act
    r.m_backdoor = bd
    f.predict(hw[0])
    m0 = hw[0]
    m.set_check_on_read(0)
    op = ctx.choice("op", ["write", "read"])
    v = ctx.bits("v", 32)
    st, out = [], []

    async def body():
        if op == "write":
            await r.write(st, v, path=UVM_BACKDOOR)
        else:
            await r.read(st, out, path=UVM_BACKDOOR)
    ctx.check(simk.run(body()) == "done", "completes")
    ctx.check(st == [BAD if bad else OK], "status", op=op)
    if bad:
        return
    fv = (v >> 4) & 0xff
    if op == "write":
        ctx.check(eq(hw[0], L.hw_write(pol, m0, fv, 0xff, False)), "hardware mimics the policy", pol=pol)
        ctx.check(eq(f.get_mirrored_value(), hw[0]), "mirror follows", pol=pol)
    else:
        rv, after = L.hw_read(pol, m0, 0xff)
        ctx.check(eq((out[0] >> 4) & 0xff, 0 if rv is None else rv), "value read", pol=pol)
        ctx.check(eq(hw[0], after), "read side effect", pol=pol)
        if pol not in L.RD_CLR | L.RD_SET | L.WR_ONLY:
            ctx.check(eq(f.get_mirrored_value(), after), "mirror follows the read", pol=pol)


def h_frontdoor(ctx):
    """a user frontdoor sequence carries the access instead of the map"""
    from uvm.reg.uvm_reg_sequence import UVMRegFrontdoor
    RD, WR, OK, BAD = kinds()
    got = []
    val = ctx.bits("val", 32)
    bad = ctx.bool("bad")

    class Fd(UVMRegFrontdoor):
        async def body(self):
            got.append((self.rw_info.kind, self.rw_info.value[0]))
            self.rw_info.status = BAD if bad else OK
            if self.rw_info.kind == RD:
                self.rw_info.value[0] = val
    b = L.block()
    m = b.create_map(L.uniq("map"), 0, 4, L.little())
    r, (f,) = L.reg(b, [(32, 0, "RW")], n_bits=32)
    m.add_reg(r, 0, "RW", 0, Fd("fd"))
    b.lock_model()
    bus = []

    def serve(it):
        it.status, it.data = OK, 0
        bus.append(it)
    s, drv, ad = L.bus(m, serve)
    m.set_auto_predict(True)
    m.set_check_on_read(0)
    op = ctx.choice("op", ["write", "read"])
    st, out = [], []

    async def body():
        if op == "write":
            await r.write(st, val)
        else:
            await r.read(st, out)
    ctx.check(run(ctx, drv, body) == "done", "completes")
    ctx.check(len(got) == 1 and not bus, "the frontdoor, and only it, carried the access")
    ctx.check(st == [BAD if bad else OK], "its status is returned")
    if not bad:
        ctx.check(eq(f.get_mirrored_value(), val), "mirror follows")
        ctx.check(eq(got[0][1] if op == "write" else out[0], val), "value")


HARNESSES = [Harness(h_order), Harness(h_order, name="h_order_bd", backdoor=True), Harness(h_value), Harness(h_veto),
             Harness(h_backdoor), Harness(h_frontdoor)]
