"""B08: objections and drains"""
import re

from engine import simk, uvmenv
from engine.runner import Harness
from engine.symex import eq, and_, or_, not_, iff, ne
from .b05 import truth

_c = {}
LOG = []


def setup():
    uvmenv.setup()
    from uvm.base.uvm_objection import UVMObjection
    from uvm.base.uvm_component import UVMComponent
    from uvm.base.uvm_coreservice import UVMCoreService
    from uvm.base.uvm_exceptions import UVMFinishError
    from uvm.base import uvm_object_globals as g
    from uvm.seq.uvm_sequence import UVMSequence
    from uvm.seq.uvm_sequencer import UVMSequencer

    class C(UVMComponent):
        hook = None

        def raised(self, objection, source_obj, description, count):
            LOG.append(("raised", self, source_obj, count))

        def dropped(self, objection, source_obj, description, count):
            LOG.append(("dropped", self, source_obj, count))

        async def all_dropped(self, objection, source_obj, description, count):
            LOG.append(("all", self, simk.now(), objection))
            if self.hook is not None:
                await self.hook(objection)

    p = C("p", None)
    a, b = C("a", p), C("b", p)
    top = UVMCoreService.get().get_root()
    sqr = UVMSequencer("q", p)
    sq = UVMSequence("s")
    sq.set_item_context(None, sqr)
    _c.update(O=UVMObjection, p=p, a=a, b=b, top=top, Fin=UVMFinishError, g=g, q=sqr, s=sq)


PARENT = {"a": "p", "b": "p", "p": "top", "q": "p", "s": "q"}
KIDS = {"top": ["p"], "p": ["a", "b"], "a": [], "b": []}


def start(name="o"):
    del LOG[:]
    O = _c["O"]
    from cocotb.triggers import Event
    O.m_scheduled_list_not_empty_event = Event("e")
    del O.m_scheduled_list[:]
    o = O(name)
    import cocotb
    cocotb.start_soon(O.m_init_objections())
    return o


def counts(ctx, o, src, txt, msg):
    """source counts are exact; a total is at least the sum below it"""
    def total(n):
        s = src.get(n, 0)
        for k in KIDS[n]:
            s = s + total(k)
        return s
    for n in KIDS:
        ctx.check(eq(o.get_objection_count(_c[n]), src.get(n, 0)), "source count = raised - dropped" + txt, obj=n)
        t = total(n)
        ctx.check(o.get_objection_total(_c[n]) >= t, "the total covers everything raised below" + txt, obj=n)
        if msg:
            ctx.check(eq(o.get_objection_total(_c[n]), t), "with nothing draining, the total is what is raised below" + txt, obj=n)


class Busy:
    """intervals in which an object counts as objecting, from the operations' times"""

    def __init__(self, ctx, ops, dt):
        self.ctx, self.ops, self.dt = ctx, ops, dt
        self.ends = {}
        self.ext = {}

    def own(self, n):
        """(start op, time, end op, time or None): source count above zero"""
        out, c, st = [], 0, None
        for i, (t, who, d) in enumerate(self.ops):
            if who != n:
                continue
            was = truth(self.ctx, ne(c, 0))
            c = c + d
            now = truth(self.ctx, ne(c, 0))
            if now and not was:
                st = (i, t)
            elif was and not now:
                out.append((st, (i, t, False)))
        if truth(self.ctx, ne(c, 0)):
            out.append((st, None))
        return out

    def busy(self, n):
        iv = self.own(n)
        for k in KIDS[n]:
            iv = iv + self.busy(k)
        iv.sort(key=lambda x: x[0][0])
        mer = []
        for s, e in iv:              # union: overlapping, or starting before the end
            if mer and (mer[-1][1] is None or self.before(s, mer[-1][1])):
                mer[-1] = (mer[-1][0], self.later(mer[-1][1], e))
            else:
                mer.append((s, e))
        ext, d = [], self.dt[n]
        for s, e in mer:
            if ext and (ext[-1][1] is None or self.before(s, ext[-1][1])):
                ext[-1] = (ext[-1][0], self.extend(e, d))
            else:
                ext.append((s, self.extend(e, d)))
        self.ext[n] = ext
        self.ends[n] = [e[1] for _, e in ext if e is not None]
        return ext

    def extend(self, e, d):
        if e is None:
            return None
        if truth(self.ctx, eq(d, 0)):
            return e
        return (e[0], e[1] + d, True)

    def before(self, s, e):
        """did start s come before end e?  a raise at the very step a drain time
        ends may go either way: excluded"""
        if s[0] <= e[0]:
            return True
        if e[2]:
            self.ctx.assume(ne(s[1], e[1]))
            return truth(self.ctx, s[1] < e[1])
        return truth(self.ctx, eq(s[1], e[1]))

    def later(self, x, y):
        if x is None or y is None:
            return None
        return y if truth(self.ctx, y[1] >= x[1]) else x


def h_drain(ctx, n, maxd, cnt, objs):
    """every history of raises and drops"""
    dt = {k: ctx.int("drain_" + k, 0, maxd) for k in objs}
    for k in KIDS:
        dt.setdefault(k, 0)
    ops, ends = [], []

    async def main():
        import cocotb
        o = start()
        for k in objs:
            o.set_drain_time(_c[k], dt[k])
        src = {}

        async def watch():
            while True:
                await o.wait_for(_c["g"].UVM_ALL_DROPPED, _c["top"])
                ends.append(simk.now())
        cocotb.start_soon(watch())
        for i in range(n):
            w = ctx.choice("who%d" % i, objs)
            if i and ctx.bool("raise%d" % i) or not i:
                d = ctx.int("n%d" % i, 1, cnt)
                o.raise_objection(_c[w], "", d)
            else:
                if isinstance(src.get(w, 0), int) and src.get(w, 0) == 0:
                    ctx.assume(False)
                d = ctx.int("n%d" % i, 1, cnt)
                ctx.assume(d <= src[w])
                o.drop_objection(_c[w], "", d)
                d = -d
            src[w] = src.get(w, 0) + d
            ops.append((simk.now(), w, d))
            counts(ctx, o, src, " (right away)", False)
            if ctx.bool("wait%d" % i):
                await simk.delay(ctx.int("t%d" % i, 1, 2 * maxd + 1))
                counts(ctx, o, src, "", False)
        await simk.delay(10 * maxd + 10)
        counts(ctx, o, src, " (at the end)", True)
    ctx.check(simk.run(main()) == "done", "finishes")
    ctx.check(not uvmenv.errors(), "no error")
    b = Busy(ctx, ops, dt)
    b.busy("top")
    for k in ("a", "b", "p"):
        if k in objs or k == "p":
            got = [x[2] for x in LOG if x[0] == "all" and x[1] is _c[k]]
            ctx.check(len(got) == len(b.ends[k]), "all_dropped is called once per time everything below is dropped and drained", obj=k)
            for x, y in zip(got, b.ends[k]):
                ctx.check(eq(x, y), "all_dropped is called when the drain time has passed", obj=k)
    ctx.check(len(ends) == len(b.ends["top"]), "waiting for all_dropped of the top returns once everything is dropped and drained")
    for x, y in zip(ends, b.ends["top"]):
        ctx.check(eq(x, y), "and at that time")
    ctx.cover("ended") if ends else None


def h_two(ctx, n, maxd):
    """two objections used by the same objects do not influence each other"""
    dt = [{k: 0 for k in KIDS} for _ in range(2)]
    ops = [[], []]
    objs = ["a", "p"]

    async def main():
        o = [start("o0"), _c["O"]("o1")]
        for j in range(2):
            dt[j]["a"] = ctx.choice("drain%d" % j, [0, maxd])
            o[j].set_drain_time(_c["a"], dt[j]["a"])
        src = [{}, {}]
        for i in range(n):
            j = ctx.choice("which%d" % i, [0, 1]) if i else 0
            w = ctx.choice("who%d" % i, objs) if i else "a"
            if src[j].get(w, 0) and ctx.bool("drop%d" % i):
                d = -1
                o[j].drop_objection(_c[w])
            else:
                d = 1
                o[j].raise_objection(_c[w])
            src[j][w] = src[j].get(w, 0) + d
            ops[j].append((simk.now(), w, d))
            for x in range(2):
                counts(ctx, o[x], src[x], " (of each objection)", False)
            if i < n - 1 and ctx.bool("wait%d" % i):
                await simk.delay(ctx.time("t%d" % i, 1, 20))
        await simk.delay(10 * maxd + 10)
        for x in range(2):
            counts(ctx, o[x], src[x], " (of each objection, at the end)", True)
        for x in range(2):
            b = Busy(ctx, ops[x], dt[x])
            b.busy("top")
            for k in ("a", "p"):
                got = [e[2] for e in LOG if e[0] == "all" and e[1] is _c[k] and e[3] is o[x]]
                ctx.check(len(got) == len(b.ends[k]), "each objection ends on its own", obj=k)
                for g, y in zip(got, b.ends[k]):
                    ctx.check(eq(g, y), "each objection ends when its own drain time has passed", obj=k)
            if b.ends["p"]:
                ctx.cover("ended")
    ctx.check(simk.run(main()) == "done", "finishes")
    ctx.check(not uvmenv.errors(), "no error")


def h_hook(ctx):
    """an objection raised again from within all_dropped keeps the parents waiting"""
    st = {}
    order = ctx.choice("hookdelay", [0, 2])

    async def hook(objection):
        if st.setdefault("n", 0) == 0:
            st["n"] = 1
            if order:
                await simk.delay(order)
            who = ctx.choice("again", ["a", "b", "none"])
            st["again"] = who
            if who != "none":
                objection.raise_objection(_c[who], "", ctx.int("m", 1, 2))

    async def main():
        o = start()
        ends = []

        async def watch():
            while True:
                await o.wait_for(_c["g"].UVM_ALL_DROPPED, _c["top"])
                ends.append(simk.now())
        import cocotb
        cocotb.start_soon(watch())
        _c["a"].hook = hook
        o.raise_objection(_c["a"], "", ctx.int("n", 1, 2))
        o.drop_objection(_c["a"], "", o.get_objection_count(_c["a"]))
        await simk.delay(5)
        w = st["again"]
        ctx.check((len(ends) == 0) == (w != "none"), "raised in all_dropped: the parents keep objecting", who=w)
        if w != "none":
            m = o.get_objection_count(_c[w])
            ctx.check(eq(o.get_objection_total(_c["p"]), m), "total of the parent", who=w)
            ctx.check(eq(o.get_objection_total(_c["top"]), m), "total of the top", who=w)
            ctx.check(eq(o.get_objection_total(_c[w]), m), "total of the object", who=w)
            o.drop_objection(_c[w], "", m)
            await simk.delay(5)
        ctx.check(len(ends) == 1, "all dropped in the end")
        for k in KIDS:
            ctx.check(eq(o.get_objection_total(_c[k]), 0), "nothing is left")
    ctx.check(simk.run(main()) == "done", "finishes")
    ctx.check(not uvmenv.errors(), "no error")


def h_zero(ctx):
    """dropping more than was raised is fatal, wherever it was raised"""
    async def main():
        o = start()
        src = {}
        for i in range(2):
            w = ctx.choice("r%d" % i, ["a", "p", "none"])
            if w != "none":
                d = ctx.int("n%d" % i, 0, 3)
                o.raise_objection(_c[w], "", d)
                src[w] = src.get(w, 0) + d
        w = ctx.choice("w", ["a", "p", "b"])
        d = ctx.int("d", 0, 7)
        try:
            o.drop_objection(_c[w], "", d)
            bad = False
        except _c["Fin"]:
            bad = True
        ctx.check(iff(bad, d > src.get(w, 0)), "dropping below zero is fatal")
        if bad:
            ctx.check(len(uvmenv.reports(rid="OBJTN_ZERO")) == 1, "reported as OBJTN_ZERO")
            return
        src[w] = src.get(w, 0) - d
        await simk.delay(1)
        counts(ctx, o, src, "", True)
    ctx.check(simk.run(main()) == "done", "finishes")


def h_clear(ctx):
    """clear: no counts, no drains, waiters released, and everything works afterwards"""
    dr = ctx.int("drain", 0, 3)

    async def main():
        import cocotb
        o = start()
        ends = []

        async def watch():
            while True:
                await o.wait_for(_c["g"].UVM_ALL_DROPPED, _c["top"])
                ends.append(simk.now())
        cocotb.start_soon(watch())
        await simk.delay(1)
        o.set_drain_time(_c["a"], dr)
        o.set_drain_time(_c["p"], 2)
        live = False
        for i, w in enumerate(["a", "b"]):
            d = ctx.int("n%d" % i, 0, 2)
            o.raise_objection(_c[w], "", d)
            if ctx.bool("drop" + w):
                o.drop_objection(_c[w], "", d)
        t = ctx.int("t", 0, 7)
        if truth(ctx, eq(t, 0)):
            ctx.cover("cleared before the drain")
        else:
            await simk.delay(t)
        was = o.get_objection_total(_c["top"])
        n0, nl = len(ends), len(LOG)
        uvmenv.clear()
        o.clear(_c["p"])
        if ctx.bool("before"):
            ctx.cover("cleared")
        ctx.check(iff(len(uvmenv.reports(rid="OBJTN_CLEAR")) == 1, was > 0), "clearing what is still raised is warned about")
        for k in KIDS:
            ctx.check(eq(o.get_objection_total(_c[k]), 0) , "cleared: total 0", obj=k)
            ctx.check(eq(o.get_objection_count(_c[k]), 0), "cleared: count 0", obj=k)
        if ctx.bool("drop_after"):
            o.drop_objection(_c["a"])
        ctx.check(not uvmenv.errors(), "drops after clear are ignored")
        again = ctx.bool("again")
        if again:
            if ctx.bool("later"):
                await simk.delay(1)
            o.raise_objection(_c["a"], "", 2)
            o.drop_objection(_c["a"], "", 1)
            await simk.delay(20)
            ctx.check(len(ends) == n0 + 1, "clear releases those waiting for all_dropped")
            ctx.check(eq(o.get_objection_total(_c["top"]), 1), "counting goes on from zero")
            o.drop_objection(_c["a"])
            await simk.delay(20)
            ctx.check(len(ends) == n0 + 2, "all dropped again")
            calls = [x for x in LOG[nl:] if x[0] == "all"]
            ctx.check([x[1] for x in calls] == [_c["a"], _c["p"]], "only the new drain ends with all_dropped")
        else:
            await simk.delay(20)
            ctx.check(len(ends) == n0 + 1, "clear releases those waiting for all_dropped")
            ctx.check(not [x for x in LOG[nl:] if x[0] == "all"], "drains under way are dropped")
    ctx.check(simk.run(main()) == "done", "finishes")
    ctx.check(not uvmenv.errors(), "no error")


def h_seq(ctx):
    """a sequence objects through its sequencer; raised and dropped hooks see every change"""
    async def main():
        o = start()
        tot = 0
        own = 0
        for i in range(3):
            d = ctx.int("n%d" % i, 1, 2)
            del LOG[:]
            if i and ctx.bool("drop%d" % i):
                ctx.assume(d <= tot)
                o.drop_objection(_c["s"], "x", d)
                tot = tot - d
                kind = "dropped"
                # while the sequence drains its parents are not told yet
                par = truth(ctx, ne(tot, 0))
            else:
                o.raise_objection(_c["s"], "x", d)
                tot = tot + d
                kind = "raised"
                par = True
            ctx.check(eq(o.get_objection_total(_c["s"]), tot), "total of the sequence")
            await simk.delay(1)
            ctx.check(eq(o.get_objection_total(_c["q"]), tot), "total of the sequencer")
            ctx.check(eq(o.get_objection_total(_c["p"]), tot), "total of the parent")
            ctx.check(eq(o.get_objection_count(_c["q"]), 0), "the sequencer itself raised nothing")
            ls = [x for x in LOG if x[0] == kind and x[1] is _c["p"]]
            ctx.check(len(ls) == 1 and ls[0][2] is _c["s"] and truth(ctx, eq(ls[0][3], d)), "the parent's hook is told who and how many")
        ctx.check(not uvmenv.errors(), "no error")
    ctx.check(simk.run(main()) == "done", "finishes")


def h_events(ctx):
    """wait_for(raised / dropped) returns at the next such event, not for an earlier one"""
    g = _c["g"]
    who = ctx.choice("who", ["a", "p"])

    async def main():
        import cocotb
        o = start()
        seen = []

        async def watch(k):
            while True:
                await o.wait_for(k, _c[who])
                seen.append(k)
        await simk.delay(1)
        cocotb.start_soon(watch(g.UVM_RAISED))
        if ctx.bool("both"):
            cocotb.start_soon(watch(g.UVM_DROPPED))
            both = True
        else:
            both = False
        await simk.delay(1)
        nr = nd = 0
        for i in range(3):
            w = ctx.choice("w%d" % i, ["a", "b", "p"])
            up = who == w or who == "p"
            o.raise_objection(_c[w], "", 2)
            nr += up
            await simk.delay(1)
            ctx.check(seen.count(g.UVM_RAISED) == nr, "wait_for(UVM_RAISED) sees every raise once")
            if ctx.bool("d%d" % i):
                o.drop_objection(_c[w], "", 1)
                nd += up
                await simk.delay(1)
            ctx.check(seen.count(g.UVM_DROPPED) == (nd if both else 0), "wait_for(UVM_DROPPED) sees every drop once")
    ctx.check(simk.run(main()) == "done", "finishes")


def h_show(ctx):
    """tracing and displaying tell the counts"""
    async def main():
        o = start("obj")
        ctx.check(o.trace_mode(1) == 0 and o.trace_mode() == 1, "trace mode")
        src = {}
        for i in range(2):
            w = ctx.choice("w%d" % i, ["a", "p", "top"])
            d = ctx.choice("n%d" % i, [1, 11])
            uvmenv.clear()
            o.raise_objection(_c[w] if w != "top" or ctx.bool("obj%d" % i) else None, "why", d)
            src[w] = src.get(w, 0) + d
            tr = [r[2] for r in uvmenv.reports(rid="OBJTN_TRC")]
            line, k, up = [w], w, None
            while k != "top":
                k = PARENT[k]
                line.append(k)
            ctx.check(len(tr) == len(line), "one trace message per object of the hierarchy")
            for k, m in zip(line, tr):
                name = _c[k].get_full_name() or "uvm_top"
                tot = sum_below(src, k)
                ctx.check(m.startswith("Object " + name + " ") and "(why)" in m and
                          m.endswith("count=%s  total=%s" % (src.get(k, 0), tot)), "the message names the object and its counts", m=m)
        shown = ctx.choice("show", ["top", "p", "a"])
        uvmenv.clear()
        o.display_objections(_c[shown])
        m = uvmenv.reports(rid="UVM/OBJ/DISPLAY")[0][2]
        rows = re.findall(r"(?m)^(\d+) +(\d+) +('.*')$", str(m))
        below = {"top": ["top", "p", "a"], "p": ["p", "a"], "a": ["a"]}[shown]
        exp = [k for k in below if sum_below(src, k) != 0]
        if sum_below(src, shown) == 0:
            exp = []
        ctx.check([r[2].strip("' ") for r in rows] == [{"top": "uvm_top"}.get(k, k) for k in exp], "displays every objecting object below", m=m)
        for r, k in zip(rows, exp):
            ctx.check(int(r[0]) == src.get(k, 0) and int(r[1]) == sum_below(src, k), "with its counts")
        if ctx.bool("copy"):
            o2 = _c["O"]("o2")
            o2.copy(o)
            for k in KIDS:
                ctx.check(o2.get_objection_total(_c[k]) == o.get_objection_total(_c[k]), "a copy has the same counts")
            o2.raise_objection(_c["a"])
            ctx.check(o.get_objection_count(_c["a"]) == src.get("a", 0), "and is independent")
    ctx.check(simk.run(main()) == "done", "finishes")
    ctx.check(not uvmenv.errors(), "no error")


def sum_below(src, k):
    return src.get(k, 0) + sum(sum_below(src, x) for x in KIDS[k])


HARNESSES = [
    Harness(h_drain, "history", n=4, maxd=2, cnt=1, objs=["a", "p"], tiers=("quick",), covers=["ended"],
            bounds="4 raises or drops by 2 objects, drain times 0-2, delays 0-5"),
    Harness(h_drain, "counts", n=3, maxd=2, cnt=3, objs=["a", "p"], tiers=("quick",), covers=["ended"],
            bounds="3 raises or drops of 1-3 by 2 objects, drain times 0-2, delays 0-5"),
    Harness(h_drain, "history4", n=4, maxd=3, cnt=2, objs=["a", "p"], tiers=("thorough",), covers=["ended"],
            bounds="4 raises or drops of 1-2 by 2 objects, drain times 0-3, delays 0-7"),
    Harness(h_drain, "siblings", n=4, maxd=2, cnt=1, objs=["a", "b"], tiers=("quick",), covers=["ended"],
            bounds="4 raises or drops by 2 siblings, drain times 0-2"),
    Harness(h_drain, "deep", n=5, maxd=2, cnt=2, objs=["a", "b", "p"], tiers=("thorough",), covers=["ended"],
            bounds="5 raises or drops of 1-2 by 3 objects, drain times 0-2"),
    Harness(h_two, "two_objections", n=4, maxd=2, tiers=("quick",), covers=["ended"],
            bounds="4 raises or drops by 2 objects with 2 objections, drain times 0 or 2, any times"),
    Harness(h_two, "two_objections5", n=5, maxd=2, tiers=("thorough",), covers=["ended"],
            bounds="5 raises or drops by 2 objects with 2 objections, drain times 0 or 2, any times"),
    Harness(h_hook, "all_dropped_raises", bounds="1 re-raise from all_dropped, now or later, same object or sibling"),
    Harness(h_zero, "below_zero", bounds="2 raises, 1 drop, counts 0-7"),
    Harness(h_clear, "clear", covers=["cleared"], bounds="2 raises or drops, drain time 0-3, clear after 0-7"),
    Harness(h_seq, "sequence", bounds="3 raises or drops of 1-2 by a sequence"),
    Harness(h_events, "wait_for", bounds="3 raises, up to 3 drops by 3 objects"),
    Harness(h_show, "display", str_mode="conc", fmt_cut=False, bounds="2 raises of 1-12"),
]
