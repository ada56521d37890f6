"""B21: default sequences of the run-time phases"""
from engine import simk, uvmenv
from engine.runner import Harness
from engine.symex import eq, ge, lt, ne
from .b05 import truth

_c = {}
LOG, PLAN = [], {}
RT = ["pre_reset", "reset", "post_reset", "pre_configure", "configure", "post_configure", "pre_main", "main", "post_main",
      "pre_shutdown", "shutdown", "post_shutdown"]


def setup():
    uvmenv.setup()
    from uvm.base.uvm_component import UVMComponent
    from uvm.base.uvm_coreservice import UVMCoreService
    from uvm.base.uvm_config_db import UVMConfigDb
    from uvm.base.uvm_factory import UVMFactory
    from uvm.seq.uvm_sequencer import UVMSequencer
    from uvm.seq.uvm_sequence import UVMSequence
    from uvm.macros import uvm_component_utils, uvm_object_utils

    class DsSeq(UVMSequence):
        kind = "type"

        async def body(self):
            p = self.get_starting_phase()
            LOG.append((self.kind, "begin", p.get_name(), simk.now()))
            if PLAN["hold"] == "body":
                p.raise_objection(self)
            await simk.delay(PLAN["dur"])
            LOG.append((self.kind, "end", p.get_name(), simk.now()))
            if PLAN["hold"] == "body":
                p.drop_objection(self)

        def __init__(self, name="ds"):
            super().__init__(name)
            if PLAN.get("hold") == "auto":
                self.set_automatic_phase_objection(1)
    uvm_object_utils(DsSeq)

    class DsSub(DsSeq):
        kind = "override"
    uvm_object_utils(DsSub)

    class DsTest(UVMComponent):
        def build_phase(self, phase):
            super().build_phase(phase)
            self.sqr = UVMSequencer("sqr", self)
            self.other = UVMSequencer("other", self)
            PLAN["build"](self)

    def task(n):
        async def f(self, phase):
            if n in PLAN["tasks"]:
                phase.raise_objection(self)
                await simk.delay(PLAN["tasks"][n])
                LOG.append(("test", "end", n, simk.now()))
                phase.drop_objection(self)
        return f
    for n in RT:
        setattr(DsTest, n + "_phase", task(n))
    uvm_component_utils(DsTest)
    _c.update(root=UVMCoreService.get().get_root(), cdb=UVMConfigDb, S=DsSeq, Sub=DsSub, f=UVMCoreService.get().get_factory())


class Inst:
    pass


def h_default(ctx, two):
    """a default sequence by type or by instance, for one of the phases"""
    del LOG[:]
    PLAN.clear()
    ph = ctx.choice("phase", [0, 7, 11])
    name = RT[ph]
    PLAN["hold"] = ctx.choice("hold", ["none", "body", "auto"])
    PLAN["dur"] = ctx.time("dur", 1, 50)
    PLAN["tasks"] = {}
    t = None
    if ctx.choice("test", 2):
        t = ctx.time("task", 1, 50)
        PLAN["tasks"][name] = t
        ctx.assume(ne(t, PLAN["dur"]))
    kinds = ["none", "type", "inst", "off", "other", "override"]
    k = ctx.choice("kind", kinds)
    k2 = ctx.choice("second", ["none", "type", "inst", "off"]) if two else "none"
    lower = ctx.choice("glob", 2)
    seqs = []

    def val(kind):
        if kind == "off":
            return None
        if kind == "inst":
            s = _c["S"]("given")
            s.kind = "inst"
            seqs.append(s)
            return s
        return _c["S"].type_id.get()

    def build(test):
        if k == "override":
            _c["f"].set_type_override_by_type(_c["S"].type_id.get(), _c["Sub"].type_id.get())
        if k != "none":
            _c["cdb"].set(test, ("*" if lower else ("other" if k == "other" else "sqr")) + "." + name + "_phase", "default_sequence", val(k))
        if k2 != "none":
            _c["cdb"].set(test, "sqr." + name + "_phase", "default_sequence", val(k2))
    PLAN["build"] = build
    if lower:
        ctx.assume(k in ("type", "none", "off"))
    r = simk.run(_c["root"].run_test("DsTest"))
    ctx.check(r == "done", "the test ends")
    # the setting in effect for each of the two sequencers
    eff = {"sqr": k if k != "other" else "none", "other": k if lower or k == "other" else "none"}
    if k2 != "none":
        eff["sqr"] = k2
    want = sorted({"type": "type", "other": "type", "inst": "inst", "override": "override"}[e] if k != "override" or e == "inst" else "override"
                  for e in eff.values() if e not in ("none", "off"))
    runs = len(want)
    beg = [x for x in LOG if x[1] == "begin"]
    end = [x for x in LOG if x[1] == "end" and x[0] != "test"]
    ctx.check(len(beg) == runs, "the default sequence is started once on each sequencer it is set for", got=len(beg), want=runs)
    for x in beg:
        ctx.check(x[2] == name, "a default sequence is started with its phase", phase=x[2])
        ctx.check(eq(x[3], 0), "a default sequence is started when the phase starts", got=x[3])
    ctx.check(sorted(x[0] for x in beg) == want, "the sequence set last is started", got=str([x[0] for x in beg]), want=str(want))
    held = PLAN["hold"] != "none"
    for x in end:
        ctx.check(eq(x[3], PLAN["dur"]), "a default sequence runs to its end", got=x[3])
    done = bool(runs) and (held or (t is not None and truth(ctx, lt(PLAN["dur"], t))))
    ctx.check(len(end) == (runs if done else 0), "a default sequence that raises no objection is killed when the phase ends", got=len(end))
    last = 0
    if t is not None:
        last = t
    if runs and held and truth(ctx, lt(last, PLAN["dur"])):
        last = PLAN["dur"]
    ctx.check(eq(simk.now(), last), "the phase lasts until the objections are dropped", got=simk.now(), want=last)
    ctx.check(not uvmenv.errors(), "no errors are reported", errors=str(uvmenv.errors()))
    ctx.cover("run" if runs else "none")
    if runs and not done:
        ctx.cover("killed")


_O = dict(str_mode="opaque", fmt_cut=False)
HARNESSES = [
    Harness(h_default, "default", two=False, covers=("run", "none", "killed"), bounds="one setting, 3 of the 12 phases", **_O),
    Harness(h_default, "two", two=True, covers=("run", "none", "killed"), bounds="two settings, 3 of the 12 phases", **_O),
]
