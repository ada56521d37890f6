"""B16: which reports are issued, as what and where to"""
import random

from engine import simk, uvmenv
from engine.runner import Harness
from engine.symex import eq, ge, iff, and_, ne, bit
from .b05 import truth

_c = {}
_n = [0]


def setup():
    uvmenv.setup()
    from uvm.base.uvm_coreservice import UVMCoreService
    from uvm.base.uvm_component import UVMComponent
    from uvm.base.uvm_exceptions import UVMFinishError
    from uvm.base.uvm_report_server import UVMReportServer
    from uvm.base.uvm_report_object import UVMReportObject
    from uvm.base.uvm_report_catcher import UVMReportCatcher
    from uvm.base import uvm_object_globals as g
    from uvm.base import uvm_globals as gf
    from uvm.macros import uvm_message_defines as md

    class C(UVMComponent):
        def by_macro(self, sev, rid, msg, verb):
            if sev == 0:
                md.uvm_info(rid, msg, verb)
            elif sev == 1:
                md.uvm_warning(rid, msg)
            elif sev == 2:
                md.uvm_error(rid, msg)
            else:
                md.uvm_fatal(rid, msg)
    UVMReportCatcher.do_report = False
    _c.update(C=C, S=UVMReportServer, RO=UVMReportObject, Fin=UVMFinishError, g=g, gf=gf, md=md, cs=UVMCoreService,
              Cat=UVMReportCatcher)


class File:
    closed = False

    def __init__(self, name):
        self.name, self.text = name, []

    def write(self, s):
        self.text.append(s)


def server():
    s = _c["S"]("srv")
    shown = []
    s.set_logger(shown.append)
    _c["S"].set_server(s)
    return s, shown


def tree():
    _n[0] += 1
    top = _c["C"]("t%d" % _n[0], None)
    a = _c["C"]("a", top)
    return top, a, _c["C"]("b", top), _c["C"]("x", a)


def of(shown, msg):
    return [s for s in shown if msg in s]


SEVN = ("UVM_INFO", "UVM_WARNING", "UVM_ERROR", "UVM_FATAL")
DEFVERB = (200, 200, 100, 0)


class H:
    """model of the report handler of one component"""

    def __init__(self):
        self.max = 200
        self.idv, self.sidv = {}, {}
        self.act = {0: 1, 1: 1, 2: 1 | 4, 3: 1 | 8}
        self.ida, self.sida = {}, {}
        self.so, self.sio = {}, {}
        self.dfile, self.idf, self.sf, self.sidf = 0, {}, {}, {}

    def level(self, sev, rid):
        return self.sidv.get((sev, rid), self.idv.get(rid, self.max))

    def action(self, sev, rid):
        return self.sida.get((sev, rid), self.ida.get(rid, self.act[sev]))

    def override(self, sev, rid):
        return self.sio.get((sev, rid), self.so.get(sev, sev))

    def file(self, sev, rid):
        return self.sidf.get((sev, rid)) or self.idf.get(rid) or self.sf.get(sev) or self.dfile


def h_config(ctx, n, ops, via, sevs=(0, 2), froms=("a", "b", "x"), rids=("ID", "OTHER"), log=False, opsevs=None):
    """any n settings, on a component or a subtree, then one report by each way there is"""
    srv, shown = server()
    comps = tree()
    names = ("top", "a", "b", "x")
    under = {"top": names, "a": ("a", "x"), "b": ("b",), "x": ("x",)}
    m = {k: H() for k in names}
    C = dict(zip(names, comps))
    files = [File("f%d" % i) for i in range(n)]
    first = ctx.choice("first", 2)
    if log:
        v = ctx.int("act", 0, 3)
        for s in sevs:
            C["top"].set_report_severity_action_hier(s, v)
            for h in m.values():
                h.act[s] = v
    for i in range(n):
        op = ctx.choice("op%d" % i, ops)
        who = ("top", "a")[(first + i) % 2]
        hier = ctx.choice("hier%d" % i, 2) if "over" not in op else 0
        c = C[who]
        tgt = [m[k] for k in (under[who] if hier else (who,))]
        sfx = "_hier" if hier else ""
        rid = "ID" if op in ("idv", "sidv", "ida", "sida", "sidover", "idf", "sidf") else None
        sev = ctx.choice("sev%d" % i, opsevs or sevs) if op in ("sidv", "act", "sida", "over", "sidover", "sf", "sidf") else None
        if op in ("max", "idv", "sidv"):
            v = ctx.int("v%d" % i, 0, 500)
        elif op in ("act", "ida", "sida"):
            v = ctx.int("act%d" % i, 0, 15)
        elif op in ("over", "sidover"):
            v = ctx.choice("to%d" % i, (1, 2))
        else:
            v = files[i]
        f = {"max": "set_report_verbosity_level", "idv": "set_report_id_verbosity", "sidv": "set_report_severity_id_verbosity",
             "act": "set_report_severity_action", "ida": "set_report_id_action", "sida": "set_report_severity_id_action",
             "over": "set_report_severity_override", "sidover": "set_report_severity_id_override",
             "df": "set_report_default_file", "idf": "set_report_id_file", "sf": "set_report_severity_file",
             "sidf": "set_report_severity_id_file"}[op] + sfx
        args = ([sev] if sev is not None else []) + ([rid] if rid else []) + [v]
        getattr(c, f)(*args)
        for h in tgt:
            if op == "max":
                h.max = v
            elif op == "df":
                h.dfile = v
            else:
                d = {"idv": h.idv, "sidv": h.sidv, "act": h.act, "ida": h.ida, "sida": h.sida, "over": h.so, "sidover": h.sio,
                     "idf": h.idf, "sf": h.sf, "sidf": h.sidf}[op]
                d[rid if sev is None else sev if rid is None else (sev, rid)] = v
    who = ctx.choice("from", froms)
    c, h = C[who], m[who]
    sev = ctx.choice("sev", sevs)
    rid = ctx.choice("rid", rids)
    if h.sio and not any(k == (sev, "ID") for k in h.sio) and rid == "ID":
        return      # id overrides for other severities only: whether the general one applies is not specified
    verb = DEFVERB[sev]
    how = ctx.choice("via", via)
    del shown[:]
    st = random.getstate()
    try:
        if how == "macro":
            verb = ctx.int("verb", 0, 500) if sev == 0 else 0
            c.by_macro(sev, rid, "the text", verb)
        elif how == "method":
            verb = ctx.int("verb", 0, 500)
            getattr(c, "uvm_report_" + SEVN[sev][4:].lower())(rid, "the text", verb)
        elif how == "default":
            getattr(c, "uvm_report_" + SEVN[sev][4:].lower())(rid, "the text")
        else:
            c.uvm_report(sev, rid, "the text")
        fin = False
    except _c["Fin"]:
        fin = True
    ctx.check(random.getstate() == st or fin, "a report does not disturb the random state")
    issued = truth(ctx, ge(h.level(sev, rid), verb))
    fsev = h.override(sev, rid)
    act = h.action(fsev, rid) if issued else 0
    mine = of(shown, "the text")
    F = h.file(fsev, rid)
    log, count, exits = truth(ctx, ne(bit(act, 1), 0)), truth(ctx, ne(bit(act, 2), 0)), truth(ctx, ne(bit(act, 3), 0))
    some = truth(ctx, ne(act, 0))
    want = (1 if truth(ctx, ne(bit(act, 0), 0)) else 0) + (1 if log and not F else 0)
    ctx.check(len(mine) == want, "a report is shown when it is within the verbosity and its action says so, and only then",
              shown=mine, action=act, issued=issued, sev=sev, rid=rid, level=h.level(sev, rid), verbosity=verb)
    for x in mine:
        ctx.check(x.startswith(SEVN[fsev] + " ") and (" %s [%s] the text" % (c.get_full_name(), rid)) in x,
                  "it names severity, reporter, id and text", got=x)
    for k in files:
        ctx.check(len(k.text) == (1 if log and k is F else 0), "a logged report goes to the most specific file, once",
                  got=str([(z.name, z.text) for z in files]), want=str(F and F.name))
    ctx.check(fin == exits, "a report ends the simulation when its action says so", fin=fin, action=act)
    for s in range(4):
        ctx.check(srv.get_severity_count(s) - (1 if fin and s == 0 else 0) == (1 if some and s == fsev else 0),
                  "reports are counted by the severity they were issued with", sev=s, got=srv.get_severity_count(s))
    ctx.check(srv.get_id_count(rid) == (1 if some else 0), "reports are counted by id")
    ctx.cover("issued" if issued else "filtered")
    if fsev != sev and issued:
        ctx.cover("overridden")


def h_global(ctx):
    """reports outside of components follow the settings of the root"""
    srv, shown = server()
    root = _c["cs"].get().get_root()
    lv, verb = ctx.int("level", 0, 500), ctx.int("verb", 0, 500)
    old = root.get_report_verbosity_level()
    root.set_report_verbosity_level(lv)
    sev = ctx.choice("sev", 3)
    fn = (_c["gf"].uvm_report_info, _c["gf"].uvm_report_warning, _c["gf"].uvm_report_error)[sev]
    if ctx.choice("macro", 2):
        if sev:
            verb = 0
        (lambda: _c["md"].uvm_info("ID", "the text", verb), lambda: _c["md"].uvm_warning("ID", "the text"),
         lambda: _c["md"].uvm_error("ID", "the text"))[sev]()
    else:
        fn("ID", "the text", verb)
    root.set_report_verbosity_level(old)
    issued = truth(ctx, ge(lv, verb))
    mine = of(shown, "the text")
    ctx.check(len(mine) == (1 if issued else 0), "a report is shown when it is within the verbosity, and only then", shown=mine)
    ctx.check(all(x.startswith(SEVN[sev]) and "[ID] the text" in x for x in mine), "it names severity, id and text", got=str(mine))
    ctx.cover("issued" if issued else "filtered")


def h_knobs(ctx):
    """the display knobs of the server add to the text and never get in its way"""
    srv, shown = server()
    srv.show_verbosity = truth(ctx, ctx.bool("sv"))
    srv.show_terminator = truth(ctx, ctx.bool("st"))
    srv.record_all_messages = truth(ctx, ctx.bool("rec"))
    top, a, b, x = tree()
    verb = ctx.choice("verb", (0, 100, 150, 200))
    name = {0: "UVM_NONE", 100: "UVM_LOW", 150: "150", 200: "UVM_MEDIUM"}[verb]
    sev = ctx.choice("sev", 3)
    twice = ctx.choice("twice", (1, 2))
    for _ in range(twice):
        a.uvm_report(sev, "ID", "the text", verb, "file.py", 42, "ctx")
    mine = of(shown, "the text")
    verb_ok = not (sev == 2 and False)
    ctx.check(len(mine) == twice, "shown", got=mine)
    for t in mine:
        w = SEVN[sev] + ("(%s)" % name if srv.show_verbosity else "")
        ctx.check(t.startswith(w + " "), "show_verbosity adds the verbosity", got=t, want=w)
        ctx.check(t.endswith("the text" + (" -" + SEVN[sev] if srv.show_terminator else "")), "show_terminator adds the severity at "
                  "the end", got=t)
        ctx.check("file.py(42)" in t and "@@ctx" in t, "file, line and context are shown", got=t)
    ctx.cover("done")


VOPS = ("max", "idv", "sidv")
AOPS = ("act", "ida", "sida")
C1 = ("issued", "filtered")
HARNESSES = [
    Harness(h_config, "verbosity", n=2, ops=VOPS, via=("macro", "method"), sevs=(0, 2), froms=("a", "x"), covers=C1, str_mode="conc", fmt_cut=False,
            bounds="2 verbosity settings (level, id, severity+id) on 2 of 4 components, hierarchical or not, symbolic levels; a report "
                   "of 2 severities and symbolic verbosity from 2 components by macro or method"),
    Harness(h_config, "actions", n=2, ops=AOPS, via=("default",), sevs=(2,), froms=("a", "x"), covers=("issued",), str_mode="conc",
            fmt_cut=False, bounds="2 settings of symbolic actions (severity, id, severity+id) in any order, on the component, its parent "
                                  "or a subtree, reports from the component and its child"),
    Harness(h_config, "overrides", n=2, ops=("over", "sidover", "act"), via=("generic",), sevs=(0, 2), froms=("a",),
            covers=("issued", "overridden"), str_mode="conc", fmt_cut=False,
            bounds="2 severity overrides or action settings in any order"),
    Harness(h_config, "files", n=2, ops=("df", "idf", "sf", "sidf"), via=("default",), sevs=(0, 2), opsevs=(2,), froms=("a", "x"),
            log=True, covers=("issued",), str_mode="conc", fmt_cut=False,
            bounds="symbolic action, 2 file settings (default, id, severity, severity+id) in any order"),
    Harness(h_config, "sevs", n=1, ops=VOPS + AOPS + ("over", "sidover", "sf", "sidf"), via=("macro", "method", "default", "generic"),
            sevs=(0, 1, 2, 3), opsevs=(1, 3), froms=("a", "x"), rids=("ID",), covers=C1 + ("overridden",), str_mode="conc", fmt_cut=False,
            bounds="1 setting of any kind, reports of all severities by all ways of reporting from 2 components"),
    Harness(h_global, "global", covers=C1, str_mode="conc", fmt_cut=False, bounds="symbolic level and verbosity"),
    Harness(h_knobs, "knobs", covers=("done",), str_mode="conc", fmt_cut=False, bounds="all settings of 3 knobs, 4 verbosities"),
    Harness(h_config, "deep", tiers=("thorough",), n=3, ops=VOPS + AOPS + ("over",), via=("default", "macro"), covers=C1,
            sevs=(0, 2), froms=("a", "x"), str_mode="conc", fmt_cut=False, bounds="3 settings of any kind"),
]
