"""B27: the uvm_do functions"""
import cocotb

from engine import simk, uvmenv
from engine.runner import Harness
from engine.symex import and_, eq, ge, gt, lt, ne
from . import b18
from .b05 import truth

_c = {}


def setup():
    b18.setup()
    _c.update(b18._c)
    from uvm.seq.uvm_sequence import UVMSequence
    from uvm.seq.uvm_sequence_base import UVMSequenceBase
    from uvm.seq.uvm_sequence_item import UVMSequenceItem
    from uvm.macros import uvm_sequence_defines as m, uvm_object_utils
    from uvm.base.uvm_coreservice import UVMCoreService

    class Rnd:
        """logs what happens to it; randomized for real, or not at all"""
        log, real, ok = [], False, True

        def randomize_with(self, *constr):
            self.log.append(("randomize", self.get_name(), simk.now()))
            self.constr = constr
            return super().randomize_with(*constr) if self.real else self.ok

        def randomize(self, recurse=True):
            return self.randomize_with()

    class It(Rnd, UVMSequenceItem):
        def __init__(self, name="it"):
            super().__init__(name)
            self.v = 9
            self.rand("v", range(4))

    class It2(It):
        pass

    class Hooks(Rnd):
        async def pre_start(self):
            self.log.append(("pre_start", self.get_name(), simk.now()))

        async def pre_body(self):
            self.log.append(("pre_body", self.get_name(), simk.now()))

        async def body(self):
            self.log.append(("body", self.get_name(), simk.now()))
            if self.sends:
                it = _c["It"]("sub_item")
                await self.start_item(it)
                await self.finish_item(it)

        async def post_body(self):
            self.log.append(("post_body", self.get_name(), simk.now()))

        async def post_start(self):
            self.log.append(("post_start", self.get_name(), simk.now()))

        sends = True

        def pre_do(self, is_item):
            pass

    class Seq(Hooks, UVMSequence):
        def __init__(self, name="seq"):
            super().__init__(name)
            self.v = 9
            self.rand("v", range(4))

    class Seq2(Seq):
        pass

    class Bare(Hooks, UVMSequenceBase):
        def __init__(self, name="bare"):
            super().__init__(name)
            self.v = 9
            self.rand("v", range(4))

    class Parent(UVMSequence):
        log, work = None, None

        async def body(self):
            await self.work(self)

        def pre_do(self, is_item):
            self.log.append(("pre_do", int(is_item), simk.now()))

        def mid_do(self, it):
            self.log.append(("mid_do", it.get_name(), simk.now()))

        def post_do(self, it):
            self.log.append(("post_do", it.get_name(), simk.now()))
    for c in (It, It2, Seq, Seq2, Bare):
        uvm_object_utils(c)
    _c.update(Rnd=Rnd, It=It, It2=It2, DS=Seq, DS2=Seq2, Bare=Bare, P=Parent, m=m, fac=UVMCoreService.get().get_factory())


DO = ("uvm_do", "uvm_do_with", "uvm_do_pri_with", "uvm_do_on", "uvm_do_on_with", "uvm_do_on_pri_with")
SEND = ("uvm_send", "uvm_send_pri")


def call(name, me, obj, sqr, pri, cons):
    m = _c["m"]
    f = getattr(m, name)
    args = [me, obj]
    if "_on" in name:
        args.append(sqr)
    if "_pri" in name:
        args.append(pri)
    if "_with" in name:
        args += cons
    return f(*args)


async def driver(port, name, gap, serve, got):
    await simk.delay(gap)
    for _ in range(2):
        q = []
        await port.get_next_item(q)
        got.append((name, q[0], simk.now()))
        await simk.delay(serve)
        port.item_done()


def h_do(ctx, macros, kinds):
    """one call; another sequence competes for the sequencer"""
    env = [b18.env(), b18.env()]
    for e in env:
        e[0].set_arbitration(_c["g"].UVM_SEQ_ARB_STRICT_FIFO)
    uvmenv.clear()
    macro = ctx.choice("macro", list(macros))
    kind = ctx.choice("kind", list(kinds))
    send = macro in SEND
    on = "_on" in macro or send
    target = ctx.choice("sequencer", 2) if on else 0
    pri = ctx.choice("priority", [-1, 50, 300]) if "_pri" in macro else -1
    ppri = ctx.choice("parent_priority", [-1, 200]) if pri == -1 else -1
    log, got = [], []
    _c["Rnd"].log = log
    _c["Rnd"].real = False
    variant = ctx.choice("variant", (["plain"] if send else ["plain", "fails", "used before"] + ["not randomized"] * (kind != "item")))
    _c["Rnd"].ok = variant != "fails"
    obj = _c[{"item": "It", "sequence": "DS", "base": "Bare"}[kind]]("obj")
    dont = int(variant == "not randomized")
    if kind != "item":
        obj.do_not_randomize = dont
    sqr = env[target][0]
    if send:
        obj.set_item_context(None, sqr)
    elif variant == "used before":
        obj.set_sequencer(env[1 - target][0])
    cons = [lambda v: v == 1, lambda v: v < 3][:2 if variant == "plain" else 0] if "_with" in macro else []
    t0, gap, serve = ctx.time("start", 1, 20), ctx.time("gap", 1, 40), ctx.time("serve", 1, 20)
    ctx.assume(ne(t0, gap))
    par = _c["P"]("parent")
    par.log = log
    st = {}

    async def work(me):
        await simk.delay(t0)
        await call(macro, me, obj, sqr, pri, cons)
        st["end"] = simk.now()
    par.work = work
    comp = _c["P"]("other")
    comp.log = []

    async def compete(me):
        it = _c["It"]("rival")
        await me.start_item(it)
        await me.finish_item(it)
    comp.work = compete

    async def main():
        # an item on the other sequencer would never be done
        cocotb.start_soon(driver(env[target][1], target, gap, serve, got))
        cocotb.start_soon(comp.start(sqr))
        cocotb.start_soon(par.start(env[0][0], None, ppri))
        await simk.delay(200)
    ctx.check(simk.run(main()) == "done", "no hang")
    ctx.check("end" in st, "the call returns")
    eff = pri if pri != -1 else 100 if ppri == -1 else ppri
    # the rival asks first, at 0; the driver takes items from gap on
    late = truth(ctx, gt(t0, gap))
    first = "rival" if late or eff <= 100 else "ours"
    ours = "obj" if kind == "item" else "sub_item"
    on_target = [(n, it.get_name(), t) for n, it, t in got if n == target]
    ctx.check(len(got) == 2 and len(on_target) == 2, "the item reaches the driver of the sequencer asked for, once", got=str([(n, i.get_name()) for n, i, t in got]))
    ctx.check([x[1] for x in on_target] == (["rival", ours] if first == "rival" else [ours, "rival"]), "in the order of the priorities",
              got=str([x[:2] for x in on_target]), eff=eff)
    if first == "ours":
        ctx.cover("overtakes")
    free = gap + serve
    if first == "ours":
        tg = gap
    else:
        tg = free if truth(ctx, ge(free, t0)) else t0
    rnd = [] if send else [("randomize", "obj")]
    if kind == "item":
        want = [("pre_do", 1, tg)] + [r + (tg,) for r in rnd] + [("mid_do", "obj", tg), ("post_do", "obj", tg + serve)]
        it = [i for n, i, t in got if i is not None and i.get_name() == "obj"]
        ctx.check(it == [obj], "the driver gets the very item")
    else:
        rnd = rnd if not dont else []
        want = [r + (t0,) for r in rnd]
        want += [("pre_start", "obj", t0), ("pre_do", 0, t0), ("mid_do", "obj", t0), ("body", "obj", t0), ("post_do", "obj", tg + serve),
                 ("post_start", "obj", tg + serve)]
    ctx.check([x[:2] for x in log] == [x[:2] for x in want], "every step is done once, in order", got=str([x[:2] for x in log]), want=str([x[:2] for x in want]))
    ctx.check(and_(*[eq(g[2], w[2]) for g, w in zip(log, want)]), "each step in its time")
    ctx.check(eq(st["end"], tg + serve), "the call returns when the item is done")
    ctx.check(obj.get_parent_sequence() is par, "the calling sequence is the parent")
    ctx.check(obj.get_sequencer() is sqr, "the sequencer is the one asked for")
    if rnd:
        ctx.check(len(cons) == 0 or list(obj.constr) == cons, "randomized with the constraints given")
        ctx.check(all(callable(c) for c in obj.constr), "constraints can be called")
        ctx.cover("randomized")
    failed = bool(rnd) and not _c["Rnd"].ok
    ctx.check([r[1] for r in uvmenv.reports()] == (["RNDFLD"] if failed else []), "a failed randomization is warned about", got=str(uvmenv.reports()))
    if failed:
        ctx.cover("failed")


def h_real(ctx):
    """the object is randomized for real, within its own ranges and the constraints given"""
    env = b18.env()
    uvmenv.clear()
    macro = ctx.choice("macro", list(DO))
    kind = ctx.choice("kind", ["item", "sequence"])
    k = ctx.choice("value", 4)
    obj = _c["It" if kind == "item" else "DS"]("obj")
    _c["Rnd"].log, _c["Rnd"].real = [], True
    seen, got = [], []
    cons = [lambda v: v == k] if "_with" in macro else []
    par = _c["P"]("parent")
    par.log = []

    async def work(me):
        await call(macro, me, obj, env[0], -1, cons)
        seen.append(obj.v)
    par.work = work

    async def main():
        cocotb.start_soon(driver(env[1], 0, 1, 1, got))
        cocotb.start_soon(par.start(env[0]))
        await simk.delay(20)
    ctx.check(simk.run(main()) == "done", "no hang")
    _c["Rnd"].real = False
    ctx.check(len(seen) == 1 and len(got) == 1, "the call returns", got=str(seen))
    if cons:
        ctx.check(seen[0] == k, "the value satisfies the constraint", got=seen[0], k=k)
    else:
        ctx.check(0 <= seen[0] < 4, "the value is in its range", got=seen[0])
    ctx.check(not uvmenv.reports(), "nothing is reported")


def h_create(ctx):
    """uvm_create makes a new object of the type the factory says, to be sent later"""
    env = [b18.env(), b18.env()]
    uvmenv.clear()
    fac = _c["fac"]
    kind = ctx.choice("kind", ["item", "sequence"])
    A, B = (_c["It"], _c["It2"]) if kind == "item" else (_c["DS"], _c["DS2"])
    over = ctx.choice("overridden", 2)
    on = ctx.choice("on", 2)
    target = ctx.choice("sequencer", 2)
    sender = ctx.choice("send", list(SEND))
    proto = A("proto")
    got, made = [], []
    _c["Rnd"].log = []
    par = _c["P"]("parent")
    par.log = []

    async def work(me):
        if over:
            fac.set_type_override_by_type(A.get_type(), B.get_type())
        o = (_c["m"].uvm_create_on if on else _c["m"].uvm_create)(me, proto, env[target][0])
        made.append(o)
        ctx.check(o is not proto and type(o) is (B if over else A), "a new object of the type the factory makes", got=type(o).__name__)
        ctx.check(o.get_parent_sequence() is me and o.get_sequencer() is env[target][0], "it belongs to the sequence and the sequencer")
        await call(sender, me, o, None, -1, [])
        made.append(1)
    par.work = work

    async def main():
        for i, e in enumerate(env):
            cocotb.start_soon(driver(e[1], i, 1, 1, got))
        cocotb.start_soon(par.start(env[0][0]))
        await simk.delay(20)
    ctx.check(simk.run(main()) == "done", "no hang")
    ctx.check(len(made) == 2, "sent")
    ctx.check(len(got) == 1 and got[0][0] == target, "it runs on that sequencer", got=str(got))
    if kind == "item":
        ctx.check(got[0][1] is made[0], "the driver gets the item created")
    else:
        ctx.check(("body", made[0].get_name()) in [x[:2] for x in _c["Rnd"].log], "the sequence created runs")
        ctx.check(("pre_body", made[0].get_name()) not in [x[:2] for x in _c["Rnd"].log], "without pre_body")
    ctx.check(not [x for x in _c["Rnd"].log if x[0] == "randomize"], "nothing is randomized")
    ctx.check(not uvmenv.errors(), "no errors")


K = dict(str_mode="conc", fmt_cut=False)
B = ("; an item, a sequence or a bare sequence, on either of two sequencers, at the priority given or of the parent, against a rival; "
     "start, first get and service time symbolic")
HARNESSES = [
    Harness(h_do, "plain", macros=("uvm_do", "uvm_do_on"), kinds=("item", "sequence", "base"), covers=("overtakes", "randomized", "failed"),
            bounds="uvm_do, uvm_do_on" + B, **K),
    Harness(h_do, "with", macros=("uvm_do_with", "uvm_do_on_with"), kinds=("item", "sequence"), covers=("overtakes", "randomized"),
            bounds="uvm_do_with, uvm_do_on_with, 0 or 2 constraints" + B, **K),
    Harness(h_do, "pri", macros=("uvm_do_pri_with", "uvm_do_on_pri_with"), kinds=("item", "sequence"), covers=("overtakes", "randomized"),
            tiers=("thorough",), bounds="uvm_do_pri_with, uvm_do_on_pri_with, 3 priorities" + B, **K),
    Harness(h_do, "pri_item", macros=("uvm_do_on_pri_with",), kinds=("item", "sequence"), covers=("overtakes", "randomized"),
            bounds="uvm_do_on_pri_with, 3 priorities" + B, **K),
    Harness(h_do, "send", macros=SEND, kinds=("item", "sequence", "base"), covers=("overtakes",), bounds="uvm_send, uvm_send_pri" + B, **K),
    Harness(h_real, "real", bounds="the 6 functions with an item or a sequence, randomized by the real randomizer, 4 constraints", **K),
    Harness(h_create, "create", bounds="uvm_create(_on) and uvm_send(_pri), with and without a factory override, 2 sequencers", **K),
]
