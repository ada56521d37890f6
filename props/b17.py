"""B17: report catchers, counters and the quit count"""
from engine import simk, uvmenv
from engine.runner import Harness
from engine.symex import ge
from .b05 import truth
from . import b16
from .b16 import server, of, SEVN

_c = b16._c
_n = [0]
THROW, CAUGHT = 1, 2


def setup():
    b16.setup()
    from uvm.base import uvm_report_catcher as rc

    class Cat(rc.UVMReportCatcher):
        def __init__(self, name, ops):
            super().__init__(name)
            self.ops, self.seen = ops, []

        def catch(self):
            if "UVM/REPORT" in self.get_id():
                return THROW
            self.seen.append((self.get_severity(), self.get_id(), self.get_message(), self.get_action(), self.get_verbosity(),
                              self.get_client(), self.get_context(), self.get_fname(), self.get_line()))
            for o, v in self.ops:
                if o == "sev":
                    self.set_severity(v)
                elif o == "id":
                    self.set_id(v)
                elif o == "msg":
                    self.set_message(self.get_message() + v)
                elif o == "act":
                    self.set_action(v)
                elif o == "verb":
                    self.set_verbosity(v)
                elif o == "ctx":
                    self.set_context(v)
                elif o == "issue":
                    self.issue()
                elif o == "report":
                    self.uvm_report_error("CATID", "from the catcher", 0)
                elif o == "macro":
                    _c["md"].uvm_warning("CATID", "from the catcher")
                elif o == "add":
                    self.add_int("num", 5, 8, 0)
                elif o == "caught":
                    return CAUGHT
            return THROW
    _c.update(rc=rc, Cat=Cat, R=rc.UVMReportCatcher, CB=rc.UVMReportCb)
    from uvm.base.uvm_callback import UVMCallbacksBase
    _c["CBB"] = UVMCallbacksBase


def act_of(sev):
    return (1, 1, 5, 9)[sev]


class M:
    """model: what is shown and counted"""

    def __init__(self):
        self.shown, self.sev, self.ids, self.fin = [], [0] * 4, {}, False

    def issue(self, m):
        if m["act"] == 0:
            return
        self.sev[m["sev"]] += 1
        self.ids[m["id"]] = self.ids.get(m["id"], 0) + 1
        if m["act"] & 1:
            self.shown.append((m["sev"], m["id"], m["msg"], m["ctx"]))
        if m["act"] & 8:
            self.fin = True


KINDS = {
    "throw": (), "caught": (("caught", 0),),
    "info": (("sev", 0),), "warn": (("sev", 1),), "error": (("sev", 2),), "fatal": (("sev", 3),),
    "sevact": (("sev", 0), ("act", 5)), "actsev": (("act", 5), ("sev", 0)), "mute": (("act", 0),), "show": (("act", 1),),
    "id": (("id", "NEWID"),), "msg": (("msg", "+m"),), "ctx": (("ctx", "there"),), "verb": (("verb", 500),),
    "issue": (("issue", 0),), "swallow": (("sev", 0), ("issue", 0), ("caught", 0)), "report": (("report", 0),),
    "macro": (("macro", 0), ("caught", 0)), "lowcaught": (("sev", 0), ("caught", 0)),
}


def h_catch(ctx, n, kinds, sevs, flags=(0,), scopes=("all", "a", "b"), reps=1, onoff=True):
    srv, shown = server()
    top, a, b, x = b16.tree()
    R = _c["R"]
    cats = []
    for i in range(n):
        k = ctx.choice("kind%d" % i, kinds)
        c = _c["Cat"]("c%d" % i, KINDS[k])
        where = ctx.choice("where%d" % i, scopes)
        on = ctx.choice("on%d" % i, (1, 0)) if onoff else 1
        _c["CB"].add({"all": None, "a": a, "b": b}[where], c)
        if not on:
            c.callback_mode(0)
        cats.append((c, KINDS[k], where, on))
    fl = ctx.choice("flags", flags)
    R.debug_report_catcher(fl)
    model = M()
    dem, cau = [0] * 4, [0] * 4
    for rep in range(reps):
        sev = ctx.choice("sev%d" % rep, sevs)
        fin = False
        for c in cats:
            del c[0].seen[:]
        del shown[:]
        model.shown = []
        try:
            a.uvm_report(sev, "ID", "the text", 100, "f.py", 7)
        except _c["Fin"]:
            fin = True
        # the model
        m = dict(sev=sev, id="ID", msg="the text", act=act_of(sev), verb=100, ctx="")
        orig = dict(m)
        gone = False
        for c, ops, where, on in cats:
            if where == "b" or not on:
                ctx.check(not c.seen, "catchers of others, and those turned off, are not called")
                continue
            if gone or model.fin:
                ctx.check(not c.seen, "a caught report reaches no further catcher", sev=sev)
                continue
            ctx.check(len(c.seen) == 1, "each catcher sees the report once", got=len(c.seen))
            ctx.check(c.seen[0] == (m["sev"], m["id"], m["msg"], m["act"], m["verb"], a, m["ctx"] or a.get_full_name(), "f.py", 7),
                      "a catcher sees the report as those before left it", got=str(c.seen), want=str(m))
            prev, acted, res = m["sev"], False, THROW
            for o, v in ops:
                if o == "msg":
                    m["msg"] += v
                elif o in ("sev", "id", "act", "verb", "ctx"):
                    m[o] = v
                    acted |= o == "act"
                elif o == "issue":
                    model.issue(m)
                elif o in ("report", "macro"):
                    e = dict(sev=2 if o == "report" else 1, id="CATID", msg="from the catcher", act=0, ctx="")
                    e["act"] = act_of(e["sev"])
                    model.issue(e)
                elif o == "caught":
                    res = CAUGHT
                if model.fin:
                    break
            if model.fin:
                break
            if fl & 2:
                m = dict(orig)
                acted = False
            if not acted and m["sev"] != prev and m["act"] == act_of(prev):
                m["act"] = act_of(m["sev"])
            if res == CAUGHT and not fl & 1:
                gone = True
                cau[sev] += 1
        if m["sev"] < sev and not model.fin:
            dem[sev] += 1
        if not gone and not model.fin:
            model.issue(m)
        text = [t for t in shown if "Summary" not in t]
        ctx.check(len(text) == len(model.shown), "exactly the reports that were not caught are shown", got=text, want=str(model.shown))
        for t, (s, i, msg, cx) in zip(text, model.shown):
            ctx.check(t.startswith(SEVN[s] + " ") and t.endswith(" [%s] %s" % (i, msg)) and ("@@" + cx if cx else "") in t,
                      "a report is shown as the catchers left it", got=t, want=str((s, i, msg, cx)))
        ctx.check(fin == model.fin, "the simulation ends when the report, as the catchers left it, says so", fin=fin)
        if fin:
            break
    info = srv.get_id_count("UVM/REPORT/SERVER") + srv.get_id_count("UVM/REPORT/CATCHER")
    for s in range(4):
        ctx.check(srv.get_severity_count(s) - (info if s == 0 else 0) == model.sev[s], "reports are counted as the catchers left them",
                  sev=s, got=srv.get_severity_count(s), want=model.sev[s])
    for i in ("ID", "NEWID", "CATID"):
        ctx.check(srv.get_id_count(i) == model.ids.get(i, 0), "ids are counted as the catchers left them", id=i)
    base = b_stats()
    ctx.check(base[0][1:] == cau[1:] or model.fin, "caught reports are counted by their original severity", got=str(base), want=str(cau))
    ctx.check(base[1][1:] == dem[1:] or model.fin, "demoted reports are counted by their original severity", got=str(base), want=str(dem))
    # catchers still work afterwards
    _c["CBB"].m_tracing = False
    for c in cats:
        c[0].callback_mode(0)
    last = _c["Cat"]("last", ())
    _c["CB"].add(None, last)
    R.debug_report_catcher(0)
    del shown[:]
    b.uvm_report(1, "LAST", "another", 0)
    ctx.check(len(last.seen) == 1 and len(of(shown, "another")) == 1, "later reports are still caught", seen=len(last.seen), shown=shown)
    ctx.cover("caught" if gone else "ended" if fin else "passed")


def b_stats():
    R = _c["R"]
    return ([0, R.m_caught_warning, R.m_caught_error, R.m_caught_fatal], [0, R.m_demoted_warning, R.m_demoted_error, R.m_demoted_fatal])


def h_quit(ctx, n):
    """the quit count"""
    srv, shown = server()
    top, a, b, x = b16.tree()
    mx = ctx.int("max", -1, n)
    lock = ctx.choice("lock", 2)
    srv.set_max_quit_count(mx, not lock)
    if ctx.choice("again", 2):
        mx2 = ctx.int("max2", 0, n)
        srv.set_max_quit_count(mx2)
        if not lock:
            mx = mx2
    limit = mx if truth(ctx, ge(mx, 1)) else None
    ctx.check(truth(ctx, ge(srv.get_max_quit_count(), 0)), "never negative")
    start = ctx.int("start", -1, 2)
    srv.set_quit_count(start)
    q = start if truth(ctx, ge(start, 0)) else 0
    for i in range(n):
        sev = ctx.choice("sev%d" % i, (1, 2))
        (a, b)[i % 2].set_report_severity_action(1, ctx.choice("warn%d" % i, (1, 5)))
        c = (a, b)[i % 2]
        count = sev == 2 or c.get_report_action(1, "ID") & 4
        if count and limit is not None:
            q = q + 1
        try:
            c.uvm_report(sev, "ID", "the text", 0)
            fin = False
        except _c["Fin"]:
            fin = True
        ctx.check(srv.get_quit_count() == q, "errors are counted when there is a limit", got=srv.get_quit_count(), want=q)
        ctx.check(fin == bool(count and limit is not None and truth(ctx, ge(q, limit))), "the simulation ends when the limit is reached, "
                  "and not before", count=q, limit=limit, fin=fin)
        if fin:
            break
    s = srv.get_summary_string()
    if limit is not None:
        ctx.check(("Quit count : %d of %d" % (q, limit)) in s and ("Quit count reached!" in s) == truth(ctx, ge(q, limit)), "the summary tells", got=s)
        ctx.cover("limit")
    else:
        ctx.check("Quit count" not in s, "the summary does not mention it", got=s)
        ctx.cover("no limit")
    if fin:
        ctx.cover("reached")


def h_counts(ctx, n):
    """counters can be set, read and summarised"""
    srv, shown = server()
    sev, ids = [0] * 4, {}
    top, a, b, x = b16.tree()
    for i in range(n):
        op = ctx.choice("op%d" % i, ("report", "setsev", "setid", "incsev", "incid", "reset", "knob"))
        s = ctx.choice("s%d" % i, 3) if op in ("report", "setsev", "incsev") else 0
        d = ctx.choice("d%d" % i, ("X", "Y")) if op in ("report", "setid", "incid") else ""
        if op == "report":
            a.uvm_report(s, d, "text", 0)
            sev[s] += 1
            ids[d] = ids.get(d, 0) + 1
        elif op == "setsev":
            v = ctx.choice("v%d" % i, (-1, 0, 7))
            srv.set_severity_count(s, v)
            sev[s] = max(0, v)
        elif op == "setid":
            v = ctx.choice("v%d" % i, (-1, 0, 7))
            srv.set_id_count(d, v)
            ids[d] = max(0, v)
        elif op == "incsev":
            srv.incr_severity_count(s)
            sev[s] += 1
        elif op == "incid":
            srv.incr_id_count(d)
            ids[d] = ids.get(d, 0) + 1
        elif op == "reset":
            srv.reset_severity_counts()
            sev = [0] * 4
        else:
            srv.enable_report_id_count_summary = not srv.enable_report_id_count_summary
    for _ in range(2):
        for s in range(4):
            ctx.check(srv.get_severity_count(s) == sev[s], "the count of a severity is what was reported", sev=s, got=srv.get_severity_count(s))
        for d in ("X", "Y", "Z"):
            ctx.check(srv.get_id_count(d) == ids.get(d, 0), "the count of an id is what was reported", id=d, got=srv.get_id_count(d))
        q, r = [], ["kept"]
        srv.get_severity_set(q)
        srv.get_id_set(r)
        ctx.check(sorted(q) == [0, 1, 2, 3], "all severities are listed", got=q)
        ctx.check(r[0] == "kept" and sorted(r[1:]) == sorted(ids), "the ids reported are listed", got=r, want=sorted(ids))
    lines = srv.get_summary_string().split("\n")
    for s in range(4):
        ctx.check("%s : %d" % (SEVN[s], sev[s]) in lines, "the summary lists the severities", got=lines)
    on = srv.enable_report_id_count_summary
    for d in ids:
        ctx.check(("[%s] %d" % (d, ids[d]) in lines) == on, "the summary lists the ids if wanted", got=lines)
    ctx.check(sum(1 for t in lines if t.startswith("[")) == (len(ids) if on else 0), "and no others", got=lines)
    ctx.cover("done")


def h_foreign(ctx):
    """a catcher that fails does not turn off catching"""
    srv, shown = server()
    top, a, b, x = b16.tree()

    class Bad(_c["R"]):
        armed = True

        def catch(self):
            if self.armed:
                raise ValueError("mine")
            return THROW
    c = Bad("bad")
    _c["CB"].add(None, c)
    sev = ctx.choice("sev", 4)
    try:
        a.uvm_report(sev, "ID", "the text", 0)
        ok = False
    except ValueError:
        ok = True
    ctx.check(ok, "the failure is not hidden")
    c.armed = False
    k = _c["Cat"]("k", (("caught", 0),))
    _c["CB"].add(None, k)
    a.uvm_report(1, "ID", "the text", 0)
    ctx.check(len(k.seen) == 1 and not of(shown, "the text"), "later reports are still caught")
    ctx.cover("done")


ALL = ("throw", "caught", "info", "error", "sevact", "actsev", "mute", "id", "msg", "issue", "swallow", "report")
HARNESSES = [
    Harness(h_catch, "two", n=2, kinds=ALL, sevs=(1, 2), scopes=("all", "a"), onoff=False, covers=("caught", "passed"), str_mode="conc",
            fmt_cut=False, bounds="2 catchers of 12 kinds, for all or one component, any of 2 severities"),
    Harness(h_catch, "single", n=1, kinds=tuple(KINDS), sevs=(0, 1, 2, 3), flags=(0, 1, 2, 3), covers=("caught", "passed", "ended"), reps=2,
            str_mode="conc", fmt_cut=False, bounds="1 catcher of 19 kinds, on or off, all debug flags, 2 reports of any severity"),
    Harness(h_catch, "order", n=3, kinds=("msg", "caught", "error"), sevs=(1, 2), covers=("caught", "passed"), str_mode="conc", fmt_cut=False,
            bounds="3 catchers of 3 kinds on or off, for all, the reporting or another component"),
    Harness(h_quit, "quit", n=3, covers=("limit", "no limit", "reached"), str_mode="conc", fmt_cut=False,
            bounds="3 reports, symbolic limit -1..3 and start value, limit set twice, overridable or not"),
    Harness(h_counts, "counts", n=2, covers=("done",), str_mode="conc", fmt_cut=False, bounds="2 operations of 7 kinds on the counters"),
    Harness(h_foreign, "failing", covers=("done",), str_mode="conc", fmt_cut=False, bounds="a catcher that raises, any severity"),
    Harness(h_catch, "deep", tiers=("thorough",), n=3, kinds=ALL, sevs=(1, 2, 3), onoff=False, covers=("caught", "passed"), str_mode="conc",
            fmt_cut=False, bounds="3 catchers of 12 kinds"),
    Harness(h_quit, "quit5", tiers=("thorough",), n=5, covers=("limit", "no limit", "reached"), str_mode="conc", fmt_cut=False,
            bounds="5 reports"),
    Harness(h_counts, "counts3", tiers=("thorough",), n=3, covers=("done",), str_mode="conc", fmt_cut=False, bounds="3 operations"),
]
