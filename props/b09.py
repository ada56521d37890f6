"""B09: phase order"""
from engine import simk, uvmenv
from engine.runner import Harness
from engine.symex import eq, and_, or_, not_, iff, ne, ite
from .b05 import truth

_c = {}
LOG = []
FUNC = ["build", "connect", "end_of_elaboration", "start_of_simulation", "extract", "check", "report", "final"]
RT = ["pre_reset", "reset", "post_reset", "pre_configure", "configure", "post_configure", "pre_main", "main", "post_main",
      "pre_shutdown", "shutdown", "post_shutdown"]
PLAN = {}


def setup():
    uvmenv.setup()
    from uvm.base.uvm_component import UVMComponent
    from uvm.base.uvm_coreservice import UVMCoreService
    from uvm.base.uvm_phase import UVMPhase
    from uvm.base.uvm_domain import UVMDomain
    from uvm.base.uvm_task_phase import UVMTaskPhase
    from uvm.base.uvm_topdown_phase import UVMTopdownPhase
    from uvm.base.uvm_bottomup_phase import UVMBottomupPhase
    from uvm.base import uvm_object_globals as g
    from uvm.macros import uvm_component_utils

    class C(UVMComponent):
        def phase_started(self, phase):
            LOG.append(("started", self.get_name(), phase.get_name(), simk.now()))

        def phase_ended(self, phase):
            LOG.append(("ended", self.get_name(), phase.get_name(), simk.now()))

        def phase_ready_to_end(self, phase):
            LOG.append(("ready", self.get_name(), phase.get_name(), simk.now()))
            f = PLAN.get(("ready", self.get_name(), phase.get_name()))
            if f:
                f(self, phase)

    def func(n):
        def f(self, phase):
            LOG.append(("exec", self.get_name(), n, simk.now()))
            h = PLAN.get((self.get_name(), n))
            if h:
                h(self)
        return f

    def task(n):
        async def f(self, phase):
            LOG.append(("exec", self.get_name(), n, simk.now()))
            h = PLAN.get((self.get_name(), n))
            if h:
                hold, t = h
                if hold:
                    phase.raise_objection(self)
                await simk.delay(t)
                LOG.append(("ran", self.get_name(), n, simk.now()))
                if hold:
                    phase.drop_objection(self)
        return f

    def build(self, phase):
        UVMComponent.build_phase(self, phase)
        LOG.append(("exec", self.get_name(), "build", simk.now()))
        for n in KIDS[self.get_name()]:
            C(n, self)
        h = PLAN.get((self.get_name(), "build"))
        if h:
            h(self)
    for n in FUNC[1:]:
        setattr(C, n + "_phase", func(n))
    for n in RT + ["run"]:
        setattr(C, n + "_phase", task(n))
    C.build_phase = build
    C.__name__ = "Test"
    uvm_component_utils(C)

    class TP(UVMTaskPhase):
        async def exec_task(self, comp, phase):
            if comp.get_name() == "c":
                n = self.get_name()
                LOG.append(("exec", "c", n, simk.now()))
                phase.raise_objection(comp)
                await simk.delay(PLAN[n])
                phase.drop_objection(comp)

    class FP(UVMTopdownPhase):
        def exec_func(self, comp, phase):
            if comp.get_name() == "c":
                LOG.append(("exec", "c", self.get_name(), simk.now()))

    class BP(UVMBottomupPhase):
        def exec_func(self, comp, phase):
            if comp.get_name() == "c":
                LOG.append(("exec", "c", self.get_name(), simk.now()))
    _c.update(C=C, P=UVMPhase, D=UVMDomain, g=g, root=UVMCoreService.get().get_root(), TP=TP, FP=FP, BP=BP, Comp=UVMComponent)


KIDS = {"uvm_test_top": ["a", "b"], "a": ["x"], "b": [], "x": []}
PARENT = {"a": "uvm_test_top", "b": "uvm_test_top", "x": "a"}
ORDER = FUNC[:4] + ["run"] + FUNC[4:]


def run_test(ctx):
    del LOG[:]
    r = _c["root"]
    return simk.run(r.run_test("Test"))


def mx(ctx, a, b):
    return a if truth(ctx, a >= b) else b


def h_test(ctx, phases, comps, maxd, ready):
    """a whole test: who holds which phase for how long"""
    PLAN.clear()
    for ph in phases:
        for c in comps:
            PLAN[(c, ph)] = (ctx.bool("hold_%s_%s" % (c, ph)), ctx.int("t_%s_%s" % (c, ph), 0 if c != "b" else 1, maxd))
    ext = {}
    if ready:
        ph, c = ctx.choice("extend_ph", phases), ctx.choice("extend_by", comps)
        ext[ph] = e = ctx.int("extend", 1, maxd)
        done = []

        def again(self, phase):
            if done:
                return
            done.append(1)
            phase.raise_objection(self)

            async def later():
                await simk.delay(e)
                phase.drop_objection(self)
            import cocotb
            cocotb.start_soon(later())
        PLAN[("ready", c, ph)] = again
    if ctx.bool("find"):
        f = ctx.choice("finder", ["connect", "build", "extract"])
        for c in ("x", "a"):
            PLAN[(c, f)] = lambda self: [_c["root"].find_all("*", [])] + [k for k in iter_children(_c["root"].get_child("uvm_test_top"))]
    ctx.check(run_test(ctx) == "done", "the test ends")
    ctx.check(not uvmenv.errors(), "no error", e=str(uvmenv.errors()))
    everyone = sorted(KIDS)
    at = {}
    for ph in ORDER + RT:
        ex = [e for e in LOG if e[0] == "exec" and e[2] == ph]
        ctx.check(sorted(e[1] for e in ex) == everyone, "every component runs every phase exactly once", phase=ph)
        for k in ("started", "ended"):
            if ph == "build" and k == "started":
                continue
            ctx.check(sorted(e[1] for e in LOG if e[0] == k and e[2] == ph and e[1] in KIDS) == everyone,
                      "phase_started and phase_ended of every component are called once", phase=ph, what=k)
        names = [e[1] for e in ex]
        for c, p in PARENT.items():
            if ph in FUNC:
                top_down = names.index(p) < names.index(c)
                ctx.check(top_down == (ph in ("build", "final")), "build and final go top down, the others bottom up", phase=ph)
        st = {}
        for i, e in enumerate(LOG):
            if e[2] == ph and e[1] in KIDS:
                st.setdefault((e[0], e[1]), []).append(i)
        for c in everyone:
            if ph != "build":
                ctx.check(st[("started", c)][0] < st[("exec", c)][0], "phase_started comes first")
            ctx.check(st[("ended", c)][0] > st[("exec", c)][0], "phase_ended comes last")
            if ph in RT or ph == "run":
                rd = st.get(("ready", c), [])
                ctx.check(bool(rd) and rd[-1] < st[("ended", c)][0] and rd[0] > st[("exec", c)][0],
                          "phase_ready_to_end is called before the phase ends", phase=ph)
        at[ph] = (min(i for i, e in enumerate(LOG) if e[0] == "exec" and e[2] == ph),
                  max(i for i, e in enumerate(LOG) if e[0] == "ended" and e[2] == ph), ex[0][3])
        for e in ex:
            ctx.check(eq(e[3], ex[0][3]), "all components start a phase at the same time", phase=ph)
    for seq in (ORDER, ["start_of_simulation"] + RT + ["extract"]):
        for p, q in zip(seq, seq[1:]):
            ctx.check(at[p][1] < at[q][0], "a phase ends before the next one starts", phase=p)

    def end(ph, start):
        e = start
        for c in comps:
            hold, t = PLAN.get((c, ph), (False, 0))
            if truth(ctx, hold):
                e = mx(ctx, e, start + t)
        if ph in ext:
            e = e + ext[ph]
        return e
    for ph in FUNC[:4] + ["run", "pre_reset"]:
        ctx.check(eq(at[ph][2], 0), "elaboration takes no time", phase=ph)
    t = 0
    ends = {}
    r = end("run", 0)
    for ph in RT:
        ctx.check(eq(at[ph][2], t), "a runtime phase starts when the one before it has no objections left", phase=ph)
        if ph == "post_shutdown":
            # ends together with the run phase
            t = mx(ctx, end(ph, t), r)
            if ph in ext:
                t = None
        else:
            t = end(ph, t)
        ends[ph] = t
    if "run" in ext:
        t = None       # run is extended after both are ready: the end is not simply the latest
    if t is not None:
        ends["run"] = t
        for ph in FUNC[4:]:
            ctx.check(eq(at[ph][2], t), "extract follows when run and the runtime phases have no objections left", phase=ph)
    # a component's task does not outlive its phase
    for ph in phases:
        for c in comps:
            hold, d = PLAN[(c, ph)]
            s = at[ph][2]
            ran = [e for e in LOG if e[0] == "ran" and e[1] == c and e[2] == ph]
            if truth(ctx, hold):
                ctx.check(len(ran) == 1, "the phase waits for who objects", phase=ph)
            elif ends.get(ph) is not None:
                if truth(ctx, eq(s + d, ends[ph])):
                    continue
                ctx.check(iff(len(ran) == 1, s + d < ends[ph]), "a component's task ends with its phase", phase=ph)


def iter_children(c):
    x = c.get_first_child()
    while x is not None:
        yield x
        x = c.get_next_child()


class Bad(Exception):
    pass


def grow(ctx, d, n, kinds, hows):
    """add n phases to d in any ways; returns the nodes, the edges asked for, and helpers"""
    nodes = {"begin": d, "end": d.m_end_node}
    imps = {}
    edges = {("begin", "end")}
    made = []

    def preds(x):
        return [a for a, b in edges if b == x]

    def succs(x):
        return [b for a, b in edges if a == x]

    def reach(a, b):
        todo, seen = [a], set()
        while todo:
            x = todo.pop()
            for y in succs(x):
                if y == b:
                    return True
                if y not in seen:
                    seen.add(y)
                    todo.append(y)
        return False
    first = {}
    for i in range(n):
        nm = "p%d" % i
        kind = ctx.choice("kind%d" % i, kinds)
        if kind == "sched":
            ph = _c["P"](nm, _c["g"].UVM_PHASE_SCHEDULE)
            ph.add(_c["TP"](nm + "i"))
            b, e = nm, nm + " end"
        else:
            ph = _c[kind](nm)
            b = e = nm
        how = ctx.choice("how%d" % i, hows) if made else "none"
        kw = {}
        if how in ("before", "after", "with"):
            x = ctx.choice("x%d" % i, made)
            ctx.assume(how == "before" or first[x][0] == first[x][1])   # a schedule as such is one node
            kw[how + "_phase"] = imps[x]
        if how == "between":
            x, y = ctx.choice("x%d" % i, made), ctx.choice("y%d" % i, made)
            ctx.assume(x != y and first[x][0] == first[x][1])
            ok = reach(first[x][1], first[y][0])
            if not ok:
                try:
                    d.add(ph, after_phase=imps[x], before_phase=imps[y])
                    bad = False
                except Exception as e:
                    bad = "PH_ADD_PHASE" in str(e)
                ctx.check(bad, "between two phases in the wrong order is fatal")
                raise Bad
            kw = {"after_phase": imps[x], "before_phase": imps[y]}
        d.add(ph, **kw)
        if how == "none":
            xb, xe = "end", "end"
        elif how != "between":
            xb, xe = first[x]
        if how in ("none", "before"):
            for p in preds(xb):
                edges.discard((p, xb))
                edges.add((p, b))
            new = {(e, xb)}
        elif how == "after":
            for s in succs(xe):
                edges.discard((xe, s))
                edges.add((e, s))
            new = {(xe, b)}
        elif how == "with":
            new = {(p, b) for p in preds(xb)} | {(e, s) for s in succs(xe)}
        else:
            edges.discard((first[x][1], first[y][0]))
            new = {(first[x][1], b), (e, first[y][0])}
        edges |= new
        first[nm] = (b, e)
        if kind == "sched":
            edges |= {(b, nm + "i"), (nm + "i", e)}
            nodes[b], nodes[e] = ph, ph.m_end_node
            nodes[nm + "i"] = [s for s in ph.m_successors][0]
            imps[nm] = ph
        else:
            nodes[nm] = d.find(ph, False)
            imps[nm] = ph
            ctx.check(nodes[nm] is not None and nodes[nm].m_imp is ph, "find returns the phase added", who=nm)
            ctx.check(d.find_by_name(nm, False) is nodes[nm], "find_by_name agrees", who=nm)
        made.append(nm)
    return nodes, made, succs, reach


ALLHOW = ["none", "before", "after", "with", "between"]


def adjacent(a, isnode, succs):
    exp, todo, seen = set(), list(succs(a)), set()
    while todo:
        y = todo.pop()
        if y in isnode:
            exp.add(y)
        elif y not in seen:
            seen.add(y)
            todo += succs(y)
    return exp


def h_graph(ctx, n, kinds):
    """building a schedule: the order is what was asked for"""
    try:
        nodes, made, succs, reach = grow(ctx, _c["D"]("dom"), n, kinds, ALLHOW)
    except Bad:
        return
    real = {id(v): k for k, v in nodes.items()}
    for a in nodes:
        for b in nodes:
            if a == b:
                continue
            ctx.check(bool(nodes[a].is_before(nodes[b])) == reach(a, b), "is_before is the order asked for", a=a, b=b)
            ctx.check(bool(nodes[b].is_after(nodes[a])) == reach(a, b), "is_after agrees", a=a, b=b)
    isnode = [k for k in nodes if nodes[k].get_phase_type() == _c["g"].UVM_PHASE_NODE]
    for a in isnode:
        exp = adjacent(a, isnode, succs)
        got = {real[id(x)] for x in nodes[a].get_adjacent_successor_nodes()}
        ctx.check(got == exp, "get_adjacent_successor_nodes", a=a)


def h_exec(ctx, n, maxd, kinds, hows):
    """executing any schedule: every phase once, after all phases before it"""
    d = _c["D"]("dom")
    del LOG[:]
    PLAN.clear()
    nodes, made, succs, reach = grow(ctx, d, n, kinds, hows)
    for m in made:
        if nodes[m].m_imp.is_task_phase():
            PLAN[m] = ctx.int("t" + m, 0, maxd)
    _c["Comp"]("c", None)
    _c["D"].m_common_domain = d
    node = nodes
    if ctx.bool("trace"):
        _c["P"].m_phase_trace = True
    seen = []

    async def watch(m, op, st):
        await node[m].wait_for_state(st, op)
        seen.append((m, node[m].get_state()))

    async def main():
        import cocotb
        from uvm.base.uvm_objection import UVMObjection
        cocotb.start_soon(UVMObjection.m_init_objections())
        g = _c["g"]
        for m in made:
            for k in range(2):
                cocotb.start_soon(watch(m, g.UVM_GTE, g.UVM_PHASE_EXECUTING))
        cocotb.start_soon(_c["P"].m_run_phases())
        await _c["root"].wait_all_phases_done()
    _c["C"].log = True
    ctx.check(simk.run(main()) == "done", "all phases get done")
    ctx.check(not uvmenv.errors(), "no error")
    ex = [e[2] for e in LOG if e[0] == "exec"]
    ctx.check(sorted(ex) == made, "every phase is executed exactly once")
    ctx.check(len(seen) == 2 * n and sorted(m for m, _ in seen) == sorted(made * 2), "every waiter for a state is woken once it is reached")
    when = {e[2]: (i, e[3]) for i, e in enumerate(LOG) if e[0] == "exec"}
    for a in made:
        ctx.check(node[a].get_state() == _c["g"].UVM_PHASE_DONE, "every phase is done")
        for b in made:
            if reach(a, b):
                ctx.check(when[a][0] < when[b][0], "a phase comes after every phase before it", a=a, b=b)
                ctx.check(when[b][1] >= when[a][1] + PLAN.get(a, 0), "and not before that has no objections left", a=a, b=b)
    # a phase starts as soon as the phases before it are over
    for b in made:
        pre = [a for a in made if reach(a, b)]
        t = 0
        for a in pre:
            t = mx(ctx, t, over(ctx, a, made, succs, when))
        ctx.check(eq(when[b][1], t), "a phase starts when all phases before it are over", b=b)


def over(ctx, a, made, succs, when):
    """phases with a common next phase end together"""
    t = 0
    for x in made:
        if x == a or adjacent(a, made, succs) & adjacent(x, made, succs):
            t = mx(ctx, t, when[x][1] + PLAN.get(x, 0))
    return t


def h_two(ctx):
    """the runtime phases can be given to several domains"""
    D = _c["D"]
    for i in range(2):
        s = _c["P"]("sched%d" % i, _c["g"].UVM_PHASE_SCHEDULE)
        D.add_uvm_phases(s)
        n = ctx.choice("a%d" % i, list(range(12)))
        a = s.find_by_name(RT[n])
        ctx.check(a is not None, "every runtime phase is in the schedule")
        for m in range(12):
            b = s.find_by_name(RT[m])
            ctx.check(bool(a.is_before(b)) == (n < m), "in order")


HARNESSES = [
    Harness(h_test, "one_phase", phases=["main"], comps=["uvm_test_top", "x"], maxd=3, ready=False, tiers=("quick",),
            bounds="whole test of 4 components; 2 hold main or not, for 0-3"),
    Harness(h_test, "run_and_runtime", phases=["run", "reset", "post_shutdown"], comps=["uvm_test_top"], maxd=3, ready=False,
            tiers=("quick",), bounds="run, reset and post_shutdown held or not, each for 0-3"),
    Harness(h_test, "ready_to_end", phases=["main"], comps=["a", "b"], maxd=2, ready=True, tiers=("quick",),
            bounds="one phase extended from phase_ready_to_end"),
    Harness(h_test, "more", phases=["run", "main"], comps=["uvm_test_top", "b"], maxd=3, ready=True, tiers=("thorough",),
            bounds="run and main held by 2 components, one extended"),
    Harness(h_graph, "schedule", n=3, kinds=["TP", "sched"], tiers=("quick",), bounds="3 phases or schedules added in 5 ways"),
    Harness(h_graph, "schedule4", n=4, kinds=["TP"], bounds="4 phases added in 5 ways"),
    Harness(h_graph, "schedule_deep", n=4, kinds=["TP", "sched"], tiers=("thorough",), bounds="4 phases or schedules added in 5 ways"),
    Harness(h_exec, "execute", n=3, maxd=2, kinds=["TP", "FP"], hows=["none", "before", "after", "with"], tiers=("quick",),
            bounds="all schedules of 3 phases (task or function), held for 0-2"),
    Harness(h_exec, "execute4", n=4, maxd=2, kinds=["TP", "BP"], hows=["none", "before", "after", "with"], tiers=("thorough",),
            bounds="all schedules of 4 phases"),
    Harness(h_two, "domains", bounds="2 schedules with the 12 runtime phases"),
]
