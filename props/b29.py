"""B29: data access policies"""
from engine import uvmenv
from engine.runner import Harness
from engine.symex import eq
from .b05 import truth

_c = {}


def setup():
    uvmenv.setup()
    from uvm.dap.uvm_get_to_lock_dap import uvm_get_to_lock_dap
    from uvm.dap.uvm_simple_lock_dap import uvm_simple_lock_dap
    from uvm.dap.uvm_set_before_get_dap import uvm_set_before_get_dap
    from uvm.seq.uvm_sequence import UVMSequence
    from uvm.seq.uvm_sequencer import UVMSequencer
    _c.update(lock=uvm_simple_lock_dap, get=uvm_get_to_lock_dap, first=uvm_set_before_get_dap, S=UVMSequence, Q=UVMSequencer)


def errors():
    return [r[1] for r in uvmenv.reports() if r[1] != "RNTST"]


def h_lock(ctx, n):
    d = _c["lock"]("d")
    uvmenv.clear()
    val, locked, bad = None, False, 0
    for i in range(n):
        op = ctx.choice("op%d" % i, ["set", "get", "lock", "unlock"])
        if op == "set":
            v = ctx.bits("v%d" % i, 8)
            d.set(v)
            if locked:
                bad += 1
                ctx.cover("refused")
            else:
                val = v
        elif op == "get":
            d.get()
        else:
            getattr(d, op)()
            locked = op == "lock"
        ctx.check(bool(d.is_locked()) == locked, "locked as told")
        got = d.get()
        ctx.check(got is None if val is None else got is not None and eq(got, val), "the value last set while not locked")
        ctx.check(errors() == ["UVM/SIMPLE_LOCK_DAP/SAG"] * bad, "setting a locked value is an error", got=str(errors()))


def h_get_to_lock(ctx, n):
    d, e = _c["get"]("d"), _c["get"]("e")
    uvmenv.clear()
    val, got, bad = [None, None], [False, False], 0
    for i in range(n):
        w = ctx.choice("which%d" % i, 2)
        o = (d, e)[w]
        if ctx.choice("op%d" % i, ["set", "get"]) == "set":
            v = ctx.bits("v%d" % i, 8)
            o.set(v)
            if got[w]:
                bad += 1
                ctx.cover("refused")
            else:
                val[w] = v
        else:
            x = o.get()
            got[w] = True
            ctx.check(x is None if val[w] is None else x is not None and eq(x, val[w]), "the value last set before the first get")
        ctx.check(errors() == ["UVM/GET_TO_LOCK_DAP/SAG"] * bad, "setting it after a get is an error", got=str(errors()))
    for o, v in ((d, val[0]), (e, val[1])):
        x = o.get()
        ctx.check(x is None if v is None else x is not None and eq(x, v), "kept to the end")


def h_set_before_get(ctx, n):
    d = _c["first"]("d")
    uvmenv.clear()
    val, bad = None, 0
    for i in range(n):
        op = ctx.choice("op%d" % i, ["set", "get", "try_get"])
        if op == "set":
            val = (ctx.bits("v%d" % i, 8) if ctx.choice("nothing%d" % i, 2) == 0 else None,)
            d.set(val[0])
        elif op == "get":
            x = d.get()
            if val is None:
                bad += 1
                ctx.cover("early")
            else:
                ctx.check(x is None if val[0] is None else x is not None and eq(x, val[0]), "the value last set")
        else:
            out = []
            r = d.try_get(out)
            ctx.check(bool(r) == (val is not None) and len(out) == (val is not None), "there is a value once it was set")
            if val is not None:
                ctx.check(out[0] is None if val[0] is None else out[0] is not None and eq(out[0], val[0]), "the value last set")
        ctx.check(errors() == ["UVM/SET_BEFORE_GET_DAP/NO_SET"] * bad, "getting it before it was set is an error", got=str(errors()))


def h_sequence(ctx, n):
    """starting phase and automatic objection of a sequence"""
    from engine import simk

    class Ph:
        def __init__(self, name):
            self.name, self.log = name, []

        def raise_objection(self, obj, desc="", count=1):
            self.log.append(("raise", obj))

        def drop_objection(self, obj, desc="", count=1):
            self.log.append(("drop", obj))
    ph = [Ph("a"), Ph("b"), None]

    class S(_c["S"]):
        async def body(self):
            self.at = [list(p.log) for p in ph[:2]]
    s = S("s")
    uvmenv.clear()
    lock, val, bad = {"p": False, "o": False}, {"p": None, "o": None}, []
    for i in range(n):
        op = ctx.choice("op%d" % i, ["phase", "get phase", "objection", "get objection", "run"])
        if op == "phase":
            x = ph[ctx.choice("phase%d" % i, 3)]
            s.set_starting_phase(x)
            if lock["p"]:
                bad.append(1)
            else:
                val["p"] = x
        elif op == "get phase":
            ctx.check(s.get_starting_phase() is val["p"], "the phase set")
            lock["p"] = True
        elif op == "objection":
            x = ctx.choice("auto%d" % i, 2)
            s.set_automatic_phase_objection(x)
            if lock["o"]:
                bad.append(1)
            else:
                val["o"] = x
        elif op == "get objection":
            ctx.check(bool(s.get_automatic_phase_objection()) == bool(val["o"]), "as set")
            lock["o"] = True
        else:
            for p in ph[:2]:
                p.log.clear()
            ctx.check(simk.run(s.start(None)) == "done", "runs")
            auto = val["p"] is not None and val["o"]
            for k, p in enumerate(ph[:2]):
                mine = bool(auto and p is val["p"])
                ctx.check(s.at[k] == [("raise", s)] * mine, "objects to its starting phase while it runs, if automatic", got=len(s.at[k]))
                ctx.check([x[0] for x in p.log] == ["raise", "drop"] * mine and all(x[1] is s for x in p.log), "and no longer")
            if auto:
                ctx.cover("objected")
            # both can be set again when it is over; the phase has to be
            lock = {"p": False, "o": False}
            val["p"] = None
        ctx.check(errors() == ["UVM/GET_TO_LOCK_DAP/SAG"] * len(bad), "changing it after it was looked at is an error", got=str(errors()), want=len(bad))


K = dict(str_mode="conc", fmt_cut=False)
B = "any history of %d operations, symbolic values"
HARNESSES = [
    Harness(h_lock, "lock", n=4, covers=("refused",), bounds=B % 4, **K),
    Harness(h_lock, "lock6", n=6, covers=("refused",), tiers=("thorough",), bounds=B % 6, **K),
    Harness(h_get_to_lock, "get_to_lock", n=4, covers=("refused",), bounds=B % 4 + " on two objects", **K),
    Harness(h_get_to_lock, "get_to_lock6", n=6, covers=("refused",), tiers=("thorough",), bounds=B % 6 + " on two objects", **K),
    Harness(h_set_before_get, "set_before_get", n=4, covers=("early",), bounds=B % 4, **K),
    Harness(h_sequence, "sequence", n=4, covers=("objected",), bounds=B % 4, **K),
]
