"""B26: comparators and pairs"""
import cocotb

from engine import simk, uvmenv
from engine.runner import Harness
from engine.symex import eq
from .b05 import truth

_c = {}
_n = [0]


def setup():
    uvmenv.setup()
    from uvm.base.uvm_component import UVMComponent
    from uvm.base.uvm_object import UVMObject
    from uvm.base.uvm_object_globals import UVM_ERROR, UVM_FATAL
    from uvm.comps import uvm_in_order_comparator as ioc, uvm_pair, uvm_policies
    from uvm.comps.uvm_algorithmic_comparator import UVMAlgorithmicComparator
    from uvm.tlm1 import UVMAnalysisImp, UVMAnalysisPort
    from uvm.macros import uvm_object_utils

    class Rec(UVMComponent):
        def __init__(self, name, parent):
            super().__init__(name, parent)
            self.imp = UVMAnalysisImp("imp", self)
            self.got = []

        def write(self, t):
            self.got.append((simk.now(), t))

    class Obj(UVMObject):
        def __init__(self, name="obj"):
            super().__init__(name)
            self.v = 0

        def do_compare(self, rhs, comparer):
            return truth(_c["ctx"], eq(self.v, rhs.v))

        def do_copy(self, rhs):
            self.v = rhs.v

        def convert2string(self):
            return "obj"
    uvm_object_utils(Obj)

    class Policy:
        """answers as C code would"""
        @classmethod
        def comp(cls, a, b):
            return _c["answers"][_c["kind"]][1 if truth(_c["ctx"], eq(a, b)) else 0]

    class Show:
        @classmethod
        def convert2string(cls, t):
            return "t"

    class Transformer:
        def transform(self, b):
            o = _c["O"]("transformed")
            o.v = b.v + 3
            o.src = b
            return o
    _c.update(C=UVMComponent, R=Rec, O=Obj, P=Policy, S=Show, T=Transformer, AP=UVMAnalysisPort, E=UVM_ERROR, F=UVM_FATAL,
              io=ioc.UVMInOrderComparator, bi=ioc.UVMInOrderBuiltInComparator, cl=ioc.UVMInOrderClassComparator,
              al=UVMAlgorithmicComparator, CP=uvm_pair.UVMClassPair, BP=uvm_pair.UVMBuiltInPair,
              answers={"bool": (False, True), "int": (0, 1), "other": (None, "same"), "empty": ("", 2)})


def walk(c, f):
    f(c)
    for ch in list(c.m_children.values()) if hasattr(c.m_children, "values") else []:
        walk(ch, f)


def h_compare(ctx, kind, nb, na, flush=False):
    """the two streams arrive at any time, each in its own order"""
    _c["ctx"] = ctx
    _n[0] += 1
    uvmenv.clear()
    top = _c["C"]("top%d" % _n[0], None)
    if kind == "policy":
        _c["kind"] = ctx.choice("answers", list(_c["answers"]))
        comp = _c["io"]("comp", top)
        comp.CompType, comp.Convert = _c["P"], _c["S"]
    elif kind == "algorithmic":
        comp = _c["al"]("comp", top, _c["T"]())
    else:
        comp = _c[{"built_in": "bi", "class": "cl"}[kind]]("comp", top)
        if kind == "built_in":
            comp.Convert = _c["S"]
    inner = comp.comp if kind == "algorithmic" else comp
    pb, pa = _c["AP"]("pb", top), _c["AP"]("pa", top)
    recs = [_c["R"]("r%d" % i, top) for i in range(2)]
    for c in {id(comp): comp, id(inner): inner}.values():
        c.connect_phase(None)
    pb.connect(comp.before_export)
    pa.connect(comp.after_export)
    for r in recs:
        inner.pair_ap.connect(r.imp)
    walk(top, lambda c: c.resolve_bindings())

    def item(name):
        v = ctx.bits(name, 8)
        if kind in ("policy", "built_in"):
            return v
        o = _c["O"](name)
        o.v = v
        return o
    bs, as_ = [item("before%d" % i) for i in range(nb)], [item("after%d" % i) for i in range(na)]
    tb, ta = [], []
    log = {}

    async def send(port, items, pre, times):
        acc = 0
        for i, it in enumerate(items):
            d = ctx.choice("%s_gap%d" % (pre, i), [0, 1, 3])
            acc += d
            if d:
                await simk.delay(d)
            times.append(simk.now())
            port.write(it)
    tf = ctx.choice("flush_at", [2, 5]) if flush else None

    async def main():
        cocotb.start_soon(inner.run_phase(None))
        await simk.delay(1)
        cocotb.start_soon(send(pb, bs, "b", tb))
        cocotb.start_soon(send(pa, as_, "a", ta))
        if flush:
            # half a step off every arrival
            await simk.delay(tf)
            await simk.delay(0)
            log["before"] = (inner.m_matches, inner.m_mismatches, len(recs[0].got))
            inner.flush()
            log["flushed"] = (inner.m_matches, inner.m_mismatches)
        await simk.delay(30)
    ctx.check(simk.run(main()) == "done", "no hang")
    n = min(nb, na)
    match = []
    for b, a in zip(bs, as_):
        if kind in ("policy", "built_in"):
            c = eq(a, b)
        elif kind == "class":
            c = eq(a.v, b.v)
        else:
            c = eq(a.v, b.v + 3)
        match.append(truth(ctx, c))
    for r in recs:
        ctx.check(len(r.got) == n, "one pair for each item of the shorter stream", got=len(r.got), want=n)
        for i, (t, p) in enumerate(r.got):
            ctx.check(type(p) is (_c["CP"] if kind in ("class", "algorithmic") else _c["BP"]), "the kind of pair")
            ctx.check(p.first is as_[i], "first is the item of the after stream")
            ctx.check((p.second.src if kind == "algorithmic" else p.second) is bs[i], "second is that of the before stream")
            ctx.check(t == max(ta[i], tb[i]), "compared as soon as both are there", got=t, b=tb[i], a=ta[i])
    if not flush:
        ctx.check(inner.m_matches == match.count(True), "the matches are counted", got=inner.m_matches, want=match)
        ctx.check(inner.m_mismatches == match.count(False), "the mismatches are counted", got=inner.m_mismatches, want=match)
    else:
        k = log["before"][2]
        ctx.check(log["before"][:2] == (match[:k].count(True), match[:k].count(False)), "counted so far", got=log["before"], want=match)
        ctx.check(log["flushed"] == (0, 0), "flush resets the counts", got=log["flushed"])
        ctx.check((inner.m_matches, inner.m_mismatches) == (match[k:].count(True), match[k:].count(False)), "counted since",
                  got=(inner.m_matches, inner.m_mismatches), k=k, want=match)
    own = [r for r in uvmenv.reports() if r[1] == "Comparator Mismatch"]
    ctx.check(len(own) == match.count(False) and all(r[0] == _c["E"] for r in own), "an error for each mismatch", got=own)
    if True in match and False in match:
        ctx.cover("both")
    if tb[0] < ta[0]:
        ctx.cover("before first")
    if ta[0] < tb[0]:
        ctx.cover("after first")


def h_pair(ctx, kind):
    """pairs are values: equal when both parts are, copied with them"""
    _c["ctx"] = ctx
    uvmenv.clear()
    none = [ctx.choice("none%d" % i, 3) == 2 if kind == "class" else False for i in range(4)]
    vs = [ctx.bits("v%d" % i, 8) for i in range(4)]

    def part(i):
        if kind == "built_in":
            return vs[i]
        if none[i]:
            return None
        o = _c["O"]("o%d" % i)
        o.v = vs[i]
        return o
    parts = [part(i) for i in range(4)]
    P = _c["CP" if kind == "class" else "BP"]
    p, q = P("p"), P("q")
    if kind == "built_in":
        ctx.check(p.first == 0 and p.second == 0, "a new pair holds zeros")
        ctx.check(truth(ctx, p.compare(q)), "new pairs are equal")
    p.first, p.second, q.first, q.second = parts

    def same(i, j):
        if none[i] or none[j]:
            return none[i] and none[j]
        return truth(ctx, eq(vs[i], vs[j]))
    want = same(0, 2) and same(1, 3)
    ctx.check(truth(ctx, p.compare(q)) == want, "equal when both parts are equal", want=want)
    ctx.check(truth(ctx, q.compare(p)) == want, "in both directions", want=want)
    ctx.cover("equal" if want else "different")
    via = ctx.choice("copied_by", ["copy", "clone"])
    if via == "copy":
        q.copy(p)
    else:
        q = p.clone()
    ctx.check(type(q) is P, "a pair of the same kind")
    for i, (a, b) in enumerate(((p.first, q.first), (p.second, q.second))):
        ctx.check(a is parts[i], "the source is left alone")
        if kind == "built_in":
            ctx.check(eq(b, vs[i]), "the copy has the same parts")
        elif none[i]:
            ctx.check(b is None, "the copy has the same parts")
        else:
            ctx.check(b is not None and b is not a, "the copy has objects of its own")
            ctx.check(eq(b.v, vs[i]), "the copy has equal objects")
    ctx.check(truth(ctx, p.compare(q)), "the copy is equal")
    if not none[0] and kind == "class":
        q.first.v = q.first.v + 1
        ctx.check(not truth(ctx, p.compare(q)), "a copy that is changed is not")
        ctx.check(p.first.v is vs[0], "nor is the source changed")
    other = _c["O"]("other")
    uvmenv.clear()
    if kind == "built_in":
        ctx.check(not truth(ctx, p.compare(other)), "not equal to another kind of object")
        ctx.check(any(r[1] == "WRONG_TYPE" for r in uvmenv.errors()), "which is an error")


K = dict(str_mode="conc", fmt_cut=False)
CV = ("both", "before first", "after first")
CB = "%d and %d items with symbolic 8-bit values, each arriving at the same time as, 1 or 3 steps after the one before"
HARNESSES = [
    Harness(h_compare, "policy", kind="policy", nb=2, na=2, covers=CV, bounds=CB % (2, 2) + "; 4 kinds of answer of the policy", **K),
    Harness(h_compare, "built_in", kind="built_in", nb=3, na=2, covers=CV, bounds=CB % (3, 2), **K),
    Harness(h_compare, "class", kind="class", nb=2, na=3, covers=CV, bounds=CB % (2, 3), **K),
    Harness(h_compare, "algorithmic", kind="algorithmic", nb=2, na=2, covers=CV, bounds=CB % (2, 2), **K),
    Harness(h_compare, "flush", kind="built_in", nb=2, na=2, flush=True, covers=CV, bounds=CB % (2, 2) + "; flush after 2 or 5 steps", **K),
    Harness(h_pair, "pair_built_in", kind="built_in", covers=("equal", "different"), bounds="two pairs of 8-bit values", **K),
    Harness(h_pair, "pair_class", kind="class", covers=("equal", "different"), bounds="two pairs of objects with an 8-bit value, or of none", **K),
    Harness(h_compare, "policy3", kind="policy", nb=3, na=3, tiers=("thorough",), covers=CV, bounds=CB % (3, 3), **K),
    Harness(h_compare, "class3", kind="class", nb=3, na=3, tiers=("thorough",), covers=CV, bounds=CB % (3, 3), **K),
    Harness(h_compare, "flush3", kind="class", nb=3, na=3, flush=True, tiers=("thorough",), covers=CV, bounds=CB % (3, 3), **K),
]
