"""B28: transaction times, events and recording"""
import cocotb

from engine import simk, uvmenv
from engine.runner import Harness
from engine.symex import and_, eq
from .b05 import truth

_c = {}
_n = [0]


def setup():
    uvmenv.setup()
    from uvm.base.uvm_component import UVMComponent
    from uvm.base.uvm_transaction import UVMTransaction
    from uvm.base.uvm_recorder import UVMRecorder
    from uvm.base.uvm_tr_stream import UVMTrStream
    from uvm.base.uvm_tr_database import UVMTrDatabase
    from uvm.base import uvm_links, uvm_object_globals as g

    class Rec(UVMRecorder):
        def __init__(self, name):
            super().__init__(name)
            self.what, self.vals = [], {}

        def do_open(self, stream, open_time, type_name):
            self.what.append(("open", open_time, type_name))
            self.of = stream

        def do_close(self, close_time):
            self.what.append(("close", close_time))

        def do_free(self):
            self.what.append(("free",))

        def do_record_string(self, name, value):
            self.vals[name] = value

        def do_record_field(self, name, value, size, radix):
            self.vals[name] = value

        def do_record_field_int(self, name, value, size, radix):
            self.vals[name] = value

        def do_record_object(self, name, value):
            self.vals[name] = value

    class Stream(UVMTrStream):
        def do_open(self, db, scope, stream_type_name):
            self.what = [("open", scope, stream_type_name)]

        def do_close(self):
            self.what.append(("close",))

        def do_free(self):
            self.what.append(("free",))

        def do_open_recorder(self, name, open_time, type_name):
            r = Rec(name)
            self.get_db().recs.append(r)
            return r

    class Db(UVMTrDatabase):
        def __init__(self, name="db"):
            super().__init__(name)
            self.recs, self.strs, self.links, self.opens = [], [], [], 0

        def do_open_db(self):
            self.opens += 1
            return True

        def do_close_db(self):
            return True

        def do_open_stream(self, name, scope, type_name):
            s = Stream(name)
            self.strs.append(s)
            return s

        def do_establish_link(self, link):
            self.links.append((type(link).__name__, link.get_lhs(), link.get_rhs()))

    class Tr(UVMTransaction):
        def __init__(self, name):
            super().__init__(name)
            self.calls = []

        def do_accept_tr(self):
            self.calls.append(("accept", simk.now()))

        def do_begin_tr(self):
            self.calls.append(("begin", simk.now()))

        def do_end_tr(self):
            self.calls.append(("end", simk.now(), self.get_tr_handle()))

    class Comp(UVMComponent):
        def __init__(self, name, parent):
            super().__init__(name, parent)
            self.calls = []

        def do_accept_tr(self, tr):
            self.calls.append(("accept", tr))

        def do_begin_tr(self, tr, stream_name, tr_handle):
            self.calls.append(("begin", tr, stream_name, tr_handle))

        def do_end_tr(self, tr, tr_handle):
            self.calls.append(("end", tr, tr_handle))
    from uvm.base.uvm_recorder import UVMRecorder as R
    _c.update(C=Comp, T=Tr, Db=Db, g=g, R=R, L=uvm_links)


def h_times(ctx, via):
    """accepted, begun and ended at any time, told or taken from the clock"""
    _n[0] += 1
    tr = _c["T"]("tr")
    comp = _c["C"]("c%d" % _n[0], None)
    o = tr if via == "transaction" else comp
    a = [] if via == "transaction" else [tr]
    ctx.check((tr.get_accept_time(), tr.get_begin_time(), tr.get_end_time()) == (-1, -1, -1), "no times at first")
    d = [ctx.time("gap%d" % i, 1, 20) for i in range(6)]
    given = [ctx.choice("told%d" % i, 2) for i in range(3)]
    told = [ctx.time("time%d" % i, 1, 500) for i in range(3)]
    twice = ctx.choice("begun_again", ["no", "before it ends", "after it ended"])
    seen, at, cseen = [], {}, []
    order = ["accept", "begin"] + {"no": [], "before it ends": ["begin"], "after it ended": ["end", "begin"]}[twice] + ["end"]

    async def watch(pool, name, log):
        e = pool.get(name)
        while True:
            await e.wait_trigger()
            log.append((name, simk.now(), e.get_trigger_data()))

    async def main():
        for nm in ("accept", "begin", "end"):
            cocotb.start_soon(watch(tr.get_event_pool(), nm, seen))
            cocotb.start_soon(watch(comp.event_pool, nm + "_tr", cseen))
        for i, op in enumerate(order):
            await simk.delay(d[i])
            n = {"accept": 0, "begin": 1, "end": 2}[op]
            kw = {op + "_time": told[n]} if given[n] else {}
            at.setdefault(op, []).append((simk.now(), told[n] if given[n] else simk.now()))
            r = getattr(o, op + "_tr")(*a, **kw)
            if op == "begin":
                ctx.check(r == 0, "nothing is recorded unless asked for")
                ctx.check(bool(tr.is_active()), "active once it has begun")
                ctx.check(eq(tr.get_end_time(), -1), "without end until it ends")
            if op == "end":
                ctx.check(not tr.is_active(), "not active once it has ended")
        await simk.delay(d[5])
    ctx.check(simk.run(main()) == "done", "no hang")
    want = and_(eq(tr.get_accept_time(), at["accept"][-1][1]), eq(tr.get_begin_time(), at["begin"][-1][1]),
                eq(tr.get_end_time(), at["end"][-1][1]))
    ctx.check(want, "the times are those told, else those of the calls")
    flat = [(op, at[op][order[:i].count(op)][0]) for i, op in enumerate(order)]
    for log, sfx in ((seen, ""), (cseen, "_tr")):
        if sfx and via == "transaction":
            ctx.check(not log, "a component not asked does not trigger")
            continue
        ctx.check([x[0] for x in log] == [x + sfx for x in order], "each event is triggered once, in order", got=str([x[0] for x in log]))
        ctx.check(and_(*[eq(x[1], f[1]) for x, f in zip(log, flat)]), "events are triggered at once")
    ctx.check([x[0] for x in tr.calls] == order, "the hooks of the transaction are called", got=str([x[0] for x in tr.calls]))
    if via == "component":
        ctx.check([x for x in comp.calls if x[0] == "accept"] == [("accept", tr)], "the component's hook is called")
        ctx.check([x[2] for x in cseen if x[0] == "begin_tr"] == [tr] * order.count("begin"), "begin_tr tells which transaction")
    tr.set_transaction_id(7)
    ctx.check(tr.get_transaction_id() == 7, "the id set")
    if twice != "no":
        ctx.cover("again")
    if given[1]:
        ctx.cover("told")


def h_record(ctx, n, free=True):
    """a component records n transactions; each may be a child of the one before"""
    _n[0] += 1
    uvmenv.clear()
    db = _c["Db"]("db%d" % _n[0])
    top = _c["C"]("t%d" % _n[0], None)
    comp = _c["C"]("c", top)
    comp.tr_database = db
    on = ctx.choice("recording", 2)
    comp.recording_detail = _c["g"].UVM_FULL if on else _c["g"].UVM_NONE
    trs, hs, streams, par, labels = [], [], [], [], []
    d = [ctx.time("gap%d" % i, 1, 20) for i in range(2 * n)]
    tb = [ctx.time("begin_time%d" % i, 0, 300) for i in range(n)]
    te = [ctx.time("end_time%d" % i, 0, 300) for i in range(n)]
    fr = [ctx.choice("free%d" % i, 2) if free else 1 for i in range(n)]
    own = ctx.choice("own_stream", 2)
    nest = ctx.choice("nested", 2)
    begun, ended = {}, {}
    order = [("b", i) for i in range(n)] + [("e", i) for i in range(n)] if nest else [(x, i) for i in range(n) for x in "be"]
    ostr = db.open_stream("own", "scope", "kind") if own else None
    n0 = len(db.strs)

    async def main():
        for k, (op, i) in enumerate(order):
            await simk.delay(d[k])
            if op == "b":
                tr = _c["T"]("tr%d" % i)
                trs.append(tr)
                if own and i == 0:
                    tr.enable_recording(ostr)
                st = ctx.choice("stream%d" % i, ["main", "", "aux"])
                streams.append(st)
                p = hs[-1] if i and nest and ctx.choice("child%d" % i, 2) else 0
                par.append(i - 1 if p else None)
                labels.append("L%d" % i if i == 0 else "")
                begun[i] = (simk.now(), tb[i])
                if p:
                    h = comp.begin_child_tr(tr, p, st, labels[-1], "", tb[i])
                else:
                    h = comp.begin_tr(tr, st, labels[-1], "", tb[i])
                hs.append(h)
            else:
                ended[i] = (simk.now(), te[i])
                comp.end_tr(trs[i], te[i], fr[i])
                ctx.check(trs[i].get_tr_handle() == 0, "its own recorder is done with")
    ctx.check(simk.run(main()) == "done", "no hang")
    ctx.check(not uvmenv.reports(), "nothing is reported", got=str([r[1] for r in uvmenv.reports()]))

    def when(x):
        return x[0] if truth(ctx, eq(x[1], 0)) else x[1]
    for i in range(n):
        ctx.check(eq(trs[i].get_begin_time(), when(begun[i])), "begin time")
        ctx.check(eq(trs[i].get_end_time(), when(ended[i])), "end time")
    mine = [r for r in db.recs if r.of is ostr] if own else []
    recs = [r for r in db.recs if r not in mine]
    ctx.check(len(mine) == own, "a transaction records on its own stream, once")
    if own:
        ctx.check(mine[0].what[0][0] == "open" and mine[0].what[1][0] == "close" and mine[0].what[2:] == ([("free",)] if fr[0] else []),
                  "its own recorder is opened, closed and freed", got=str([x[0] for x in mine[0].what]))
        ctx.check(and_(eq(mine[0].what[0][1], when(begun[0])), eq(mine[0].what[1][1], when(ended[0]))), "with its times")
    if not on:
        ctx.check(not recs and hs == [0] * n, "nothing is recorded unless asked for")
        ctx.check(len(db.strs) == n0, "no stream is opened")
        return
    ctx.check(len(recs) == n, "every transaction is recorded once", got=len(recs))
    names = {}
    for i, r in enumerate(recs):
        key = "aux" if streams[i] == "aux" else "main"
        names.setdefault(key, r.of)
        ctx.check(r.of is names[key] and r.of.get_name() == key, "on the stream asked for", got=r.of.get_name(), want=key)
        ctx.check(r.of.what == [("open", comp.get_full_name(), "TVM" if key == "main" else "")], "a stream of the component, opened once",
                  got=str(r.of.what))
        ctx.check(r.of.get_scope() == comp.get_full_name() and r.of.get_stream_type_name() == ("TVM" if key == "main" else ""), "scope and type")
        ctx.check(r.get_name() == "tr%d" % i, "named after the transaction")
        ctx.check(r.vals.get("label") == (labels[i] or None), "with its label")
        ops = [x[0] for x in r.what]
        ctx.check(ops == ["open", "close"] + ["free"] * fr[i], "opened, closed, freed once", got=str(ops), free=fr[i])
        ctx.check(eq(r.what[0][1], when(begun[i])), "from its begin time")
        ctx.check(eq(r.what[1][1], when(ended[i])), "to its end time")
        ctx.check(r.what[0][2] == ("Begin_End, Link" if par[i] is not None else "Begin_No_Parent, Link"), "the kind tells whether it has a parent")
        ctx.check(hs[i] != 0 and hs.count(hs[i]) == 1, "handles are distinct")
        ctx.check(_c["R"].get_recorder_from_handle(hs[i]) is (None if fr[i] else r), "a handle finds its recorder until it is freed")
        ctx.check(r.get_handle() == (0 if fr[i] else hs[i]), "a recorder has a handle until it is freed", got=r.get_handle())
        ctx.check((bool(r.is_open()), bool(r.is_closed())) == (False, not fr[i]), "closed, until it is freed")
    ctx.check(len(db.strs) == n0 + len(names), "one stream each")
    links = [("UVMParentChildLink", recs[p], recs[i]) for i, p in enumerate(par) if p is not None]
    got = [x for x in db.links if x[0] == "UVMParentChildLink"]
    ctx.check(len(got) == len(links) and all(x[1] is y[1] and x[2] is y[2] for x, y in zip(got, links)), "parents are linked to their children",
              got=str([(a, b.get_name(), c.get_name()) for a, b, c in got]))
    rel = [x for x in db.links if x[0] == "UVMRelatedLink"]
    ctx.check(len(rel) == own and all(x[1] is recs[0] and x[2] is mine[0] for x in rel), "the two records of one transaction are related")
    ctx.check([c[:2] for c in comp.calls] == [("begin" if op == "b" else "end", trs[i]) for op, i in order], "the hooks are called")
    ctx.check([c[3] for c in comp.calls if c[0] == "begin"] == hs and [c[2] for c in comp.calls if c[0] == "end"] == hs, "with the handle")
    if links:
        ctx.cover("child")
    ctx.cover("recorded")
    if not all(fr):
        # the stream frees what is left
        which = names[next(iter(names))]
        left = [r for r in recs if r.of is which and r.is_closed()]
        which.free()
        ctx.check(which.what[1:] == [("close",), ("free",)] and not which.is_open() and not which.is_closed(), "a stream is closed and freed")
        ctx.check(all(r.what[-1] == ("free",) and r.get_handle() == 0 for r in left), "freeing a stream frees its recorders")
        ctx.check(all(r.what.count(("free",)) == 1 for r in left), "once")
        ctx.check(which.get_handle() == 0, "a freed stream has no handle")


def h_event(ctx):
    """single events and errors are recorded at one time"""
    _n[0] += 1
    uvmenv.clear()
    db = _c["Db"]("db%d" % _n[0])
    comp = _c["C"]("e%d" % _n[0], None)
    comp.tr_database = db
    kind = ctx.choice("kind", ["event", "error"])
    st = ctx.choice("stream", ["main", "aux"])
    keep = ctx.choice("keep_active", 2)
    t, tt = ctx.time("gap", 1, 20), ctx.time("time", 0, 100)
    hs = []

    async def main():
        await simk.delay(t)
        for _ in range(2):
            f = comp.record_event_tr if kind == "event" else comp.record_error_tr
            hs.append(f(st, None, "lab", "text", tt, keep))
    ctx.check(simk.run(main()) == "done", "no hang")
    ctx.check(len(db.recs) == 2 and len(db.strs) == 1, "each is recorded on one stream")
    for r, h in zip(db.recs, hs):
        ctx.check(r.of.get_name() == st and r.get_name() == "lab" and r.vals == {"label": "lab", "desc": "text"}, "with its label and description")
        w = t if truth(ctx, eq(tt, 0)) else tt
        ctx.check([x[0] for x in r.what] == ["open", "close"] + ["free"] * (1 - keep), "opened and closed")
        ctx.check(and_(eq(r.what[0][1], w), eq(r.what[1][1], w)), "at one time")
        ctx.check(r.what[0][2] == ("Event, Link" if keep else "Event"), "the kind of record")
        ctx.check(h == r.get_handle() and (h != 0) == bool(keep), "the handle is good if it is kept", got=h)
    s = comp.get_tr_stream("aux")
    ctx.check(s is comp.get_tr_stream("aux") and (st == "main" or s is db.recs[0].of), "a stream is kept by its name")
    s2 = comp.get_tr_stream("aux", "other")
    ctx.check(s2 is not s and s2.get_stream_type_name() == "other", "and by its type")
    comp.free_tr_stream(s)
    ctx.check(s.what[-1] == ("free",) and comp.get_tr_stream("aux") is not s, "a freed stream is made anew")
    ctx.check(comp.get_tr_stream("aux", "other") is s2 and s2.is_open(), "others are kept")
    ctx.check(db.opens == 1, "the database is opened once")


def h_links(ctx):
    """a link is established between recorders or streams of this database, and no others"""
    _n[0] += 1
    dbs = [_c["Db"]("db%d" % i) for i in range(2)]
    strs = [db.open_stream("s", "", "") for db in dbs]
    recs = [s.open_recorder("r", 1, "") for s in strs]
    objs = [None, dbs[0]] + strs + recs
    kind = ctx.choice("kind", ["UVMParentChildLink", "UVMCauseEffectLink", "UVMRelatedLink"])
    i, j = ctx.choice("left", 6), ctx.choice("right", 6)
    uvmenv.clear()
    L = getattr(_c["L"], kind)
    link = L.get_link(objs[i], objs[j])
    ctx.check(type(link) is L and link.get_lhs() is objs[i] and link.get_rhs() is objs[j], "a link has two sides")
    dbs[0].establish_link(link)
    good = i in (2, 4) and j in (2, 4)
    ctx.check(len(dbs[0].links) == int(good) and not dbs[1].links, "a link within the database is established", left=i, right=j)
    ctx.check([r[1] for r in uvmenv.reports()] == ([] if good else ["UVM/TR_DB/BAD_LINK"]), "any other is refused with a warning",
              got=str(uvmenv.reports()))
    if good:
        ctx.cover("good")
    link.set(objs[j], objs[i])
    ctx.check(link.get_lhs() is objs[j] and link.get_rhs() is objs[i], "sides can be set")


K = dict(str_mode="conc", fmt_cut=False)
B = "%d transactions one after the other or overlapping, on 2 streams and one's own, children or not, freed or not; times symbolic, given or not"
HARNESSES = [
    Harness(h_times, "times", via="transaction", covers=("again", "told"), bounds="one transaction, begun once or twice, before or after it ended; times symbolic", **K),
    Harness(h_times, "times_component", via="component", covers=("again", "told"), bounds="the same through a component", **K),
    Harness(h_record, "record", n=2, covers=("recorded", "child"), bounds=B % 2, **K),
    Harness(h_record, "record3", n=3, free=False, covers=("recorded", "child"), tiers=("thorough",), bounds=B % 3, **K),
    Harness(h_event, "event", bounds="2 events or errors on one of 2 streams; 3 streams of a component", **K),
    Harness(h_links, "links", covers=("good",), bounds="3 kinds of link between any of 6 objects of 2 databases", **K),
]
