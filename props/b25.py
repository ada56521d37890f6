"""B25: settings given on the command line"""
import re

from engine import simk, uvmenv
from engine.runner import Harness
from engine.symex import and_, eq, ge, gt, iff, le, lt, ne
from .b05 import truth
from .b06 import code, glob

_c = {}
LOG, PLAN = [], {}
SEV = ["UVM_INFO", "UVM_WARNING", "UVM_ERROR", "UVM_FATAL"]
VERB = {"NONE": 0, "LOW": 100, "MEDIUM": 200, "HIGH": 300, "FULL": 400, "DEBUG": 500}
ACT = {"UVM_NO_ACTION": 0, "UVM_DISPLAY": 1, "UVM_LOG": 2, "UVM_COUNT": 4, "UVM_EXIT": 8, "UVM_CALL_HOOK": 16, "UVM_STOP": 32, "UVM_RM_RECORD": 64}


def setup():
    uvmenv.setup()
    from uvm.base.uvm_component import UVMComponent
    from uvm.base.uvm_object import UVMObject
    from uvm.base.uvm_coreservice import UVMCoreService
    from uvm.base.uvm_config_db import UVMConfigDb
    from uvm.base.uvm_cmdline_processor import UVMCmdlineProcessor
    from uvm.base.uvm_exceptions import UVMFinishError
    from uvm.base.uvm_report_server import UVMReportServer
    from uvm.base import uvm_globals as g
    from uvm.seq.uvm_sequencer import UVMSequencer
    from uvm.seq.uvm_sequence import UVMSequence
    from uvm.macros import uvm_component_utils, uvm_object_utils

    class ClComp(UVMComponent):
        def build_phase(self, phase):
            super().build_phase(phase)
            PLAN["build"](self)

        def connect_phase(self, phase):
            PLAN["connect"](self)

        async def run_phase(self, phase):
            await PLAN["run"](self, phase)
    uvm_component_utils(ClComp)

    class ClTop(ClComp):
        pass
    uvm_component_utils(ClTop)

    class ClTopB(ClTop):
        pass
    uvm_component_utils(ClTopB)

    class ClObj(UVMObject):
        pass
    uvm_object_utils(ClObj)

    class ClObjB(ClObj):
        pass
    uvm_object_utils(ClObjB)

    class ClObjC(ClObjB):
        pass
    uvm_object_utils(ClObjC)

    class ClSeq(UVMSequence):
        async def body(self):
            p = self.get_starting_phase()
            p.raise_objection(self)
            await simk.delay(3)
            LOG.append((self.get_sequencer().get_full_name(), p.get_name()))
            p.drop_objection(self)
    uvm_object_utils(ClSeq)
    _c.update(root=UVMCoreService.get().get_root(), clp=UVMCmdlineProcessor.get_inst(), C=ClComp, O=ClObj, db=UVMConfigDb, Fin=UVMFinishError,
              fac=UVMCoreService.get().get_factory(), S=UVMReportServer, g=g, Sqr=UVMSequencer)


def given(args):
    c = _c["clp"]
    del c.m_argv[:], c.m_plus_argv[:], c.m_uvm_argv[:]
    c.extract_args(["sim"] + args)
    return c


def go(test="ClTop", build=None, connect=None, run=None):
    """run the whole of a test"""
    async def nothing(c, phase):
        pass
    PLAN.update(build=build or (lambda c: None), connect=connect or (lambda c: None), run=run or nothing)
    uvmenv.clear()
    return simk.run(_c["root"].run_test(test))


def same(a, b):
    """lists of strings are the same"""
    return len(a) == len(b) and and_(True, *[x_eq(x, y) for x, y in zip(a, b)])


def x_eq(a, b):
    return len(a) == len(b) and and_(True, *[eq(code(a, i), code(b, i)) for i in range(len(a))])


def h_args(ctx, n, ln):
    """which arguments are found"""
    al = ctx.choice("alphabet", ["+-ab=", "+-uvm", "-UVmx"])
    args = [ctx.string("arg%d" % i, ctx.choice("len%d" % i, list(range(ln - 1, ln + 1))), al) for i in range(n)]
    c = given(args)
    all_ = ["sim"] + args
    ctx.check(same(c.get_args(), all_), "get_args gives every argument in order")
    plus = [a for a in args if truth(ctx, eq(code(a, 0), ord("+")))]
    ctx.check(same(c.get_plusargs(), plus), "get_plusargs gives the arguments that start with +")
    if al != "+-ab=":
        def isuvm(a):
            return len(a) >= 4 and and_(*[truth(ctx, eq(code(a, i + 1), ord(u))) or truth(ctx, eq(code(a, i + 1), ord(u.lower()))) for i, u in enumerate("UVM")])
        uv = [a for a in args if (truth(ctx, eq(code(a, 0), ord("+"))) or truth(ctx, eq(code(a, 0), ord("-")))) and truth(ctx, isuvm(a))]
        ctx.check(same(c.get_uvm_args(), uv), "get_uvm_args gives the arguments that start with + or - and uvm")
        if uv:
            ctx.cover("uvm")
        return
    m = ctx.choice("match", ["+", "+a", "+a=", "-b", "a", ""])
    hit = [a for a in all_ if len(a) >= len(m) and truth(ctx, x_eq(a[:len(m)], m))]
    got = ["junk"]
    k = c.get_arg_matches(m, got)
    ctx.check(k == len(hit) and same(got, hit), "get_arg_matches gives the arguments that start so", match=m)
    got = ["junk"]
    k = c.get_arg_values(m, got)
    ctx.check(k == len(hit) and same(got, [a[len(m):] for a in hit]), "get_arg_values gives what follows in each", match=m)
    got = []
    k = c.get_arg_value(m, got)
    ctx.check(k == len(hit) and same(got, [a[len(m):] for a in hit[:1]]), "get_arg_value gives what follows in the first", match=m)
    ctx.cover("hit" if hit else "miss")


def h_regex(ctx):
    """arguments that match a regular expression"""
    args = [ctx.choice("arg%d" % i, ["+foo", "+foobar", "foo.sv", "-f", "barfo", "+fox.svh"]) for i in range(2)]
    rx, f = ctx.choice("rx", [("foo", lambda s: "foo" in s), ("^foo.*\\.sv", lambda s: s.startswith("foo") and ".sv" in s[3:]),
                              ("r", lambda s: "r" in s), ("o$", lambda s: s.endswith("o")), ("^\\+fo[ox]$", lambda s: s in ("+foo", "+fox")),
                              ("fo.*", lambda s: "fo" in s), ("^[+-]f", lambda s: s[:2] in ("+f", "-f")), ("(", None), ("([", None)])
    c = given(args)
    got = ["junk"]
    uvmenv.clear()
    k = c.get_arg_matches("/" + rx + "/", got)
    want = [a for a in ["sim"] + args if f and f(a)]
    try:                    # a known finding, of which nothing else may be wrong
        cut = [a for a in ["sim"] + args if re.search(rx[:-1], a)]
    except re.error:
        cut = want
    if got == cut and k == len(cut) and not uvmenv.errors():
        ctx.check(got == want and f is not None, "the last character of an expression counts", expr=rx, got=str(got), want=str(want))
    ctx.check(k == len(want) and got == want, "/expr/ gives the arguments it matches anywhere", got=str(got), want=str(want))
    ctx.check(len(uvmenv.errors()) == (0 if f else 1), "a bad expression is an error")


def h_verb(ctx):
    """+UVM_VERBOSITY"""
    n = ctx.choice("n", [0, 1, 2])
    vs = [ctx.choice("v%d" % i, ["NONE", "UVM_LOW", "UVM_MEDIUM", "HIGH", "UVM_FULL", "DEBUG", "350", "1", "FOO", ""][:10 if not i else 2]) for i in range(n)]
    given(["+UVM_VERBOSITY=" + v for v in vs])
    uvmenv.clear()
    r = type(_c["root"])()
    want, ill = 200, False
    if vs:
        v = vs[0].replace("UVM_", "")
        want = VERB.get(v, int(v) if v.isdigit() else 200)
        ill = v not in VERB and not v.isdigit()
    ctx.check(r.get_report_verbosity_level() == want, "+UVM_VERBOSITY: the first setting is the verbosity", got=r.get_report_verbosity_level(), want=want)
    ctx.check(len(uvmenv.reports(rid="ILLVERB")) == int(ill), "an illegal verbosity is reported, and UVM_MEDIUM used")
    ctx.check(len(uvmenv.reports(rid="MULTVERB")) == int(n > 1), "several settings are reported")
    ctx.cover("n%d" % n)


PATS = ["uvm_test_top", "*", "uvm_test_top.a", "uvm_test_top.*", "nobody"]
WHEN = {"build": ",build", "time 0": ",time,0", "connect": ",connect", "run": ",run", "time 5": ",time,5", "time 7": ",time,7",
        "main 5": ",main,5", "run 7": ",run,7", "run 0": ",run,0"}
BAD = ["uvm_test_top,_ALL_", "*,_ALL_,UVM_HIGH", "*,_ALL_,UVM_HIGH,build,0,1", "*,_ALL_,LOUD,build", "*"]


def h_set_verb(ctx, whens, pats, whens2, pats2):
    """+uvm_set_verbosity, seen in each phase and at any time of the run"""
    ss = []
    args = []
    bad = ctx.choice("bad", [None, 0, 1])
    form = BAD[ctx.choice("form", len(BAD) if bad else 2)] if bad is not None else ""
    for i in range(2):
        if bad == i:
            args.append("+uvm_set_verbosity=" + form)
        w = ctx.choice("when%d" % i, (whens, whens2)[i])
        if w == "none":
            continue
        p = ctx.choice("comp%d" % i, (pats, pats2)[i])
        rid = ctx.choice("id%d" % i, ["_ALL_", "ID"]) if bad is None else "_ALL_"
        v = ["HIGH", "UVM_LOW"][i]
        ss.append((p, rid, VERB[v.replace("UVM_", "")], w))
        args.append("+uvm_set_verbosity=%s,%s,%s%s" % (p, rid, v, WHEN[w]))
    given(args)
    t = ctx.time("t", 1, 10)
    ctx.assume(ne(t, 5))
    ctx.assume(ne(t, 7))
    seen = {}

    def look(c, when):
        seen[(c.get_full_name(), when)] = (c.get_report_verbosity_level(), c.get_report_verbosity_level(0, "ID"))

    def build(c):
        look(c, "build")
        if c.get_name() == "uvm_test_top":
            _c["C"]("a", c)
        elif c.get_name() == "a":
            _c["C"]("x", c)

    async def run(c, phase):
        phase.raise_objection(c)
        await simk.delay(t)
        look(c, "run")
        phase.drop_objection(c)
    r = go("ClTop", build, lambda c: look(c, "connect"), run)
    ctx.check(r == "done", "the test runs to its end")
    warn = [m for m in uvmenv.REPORTS if m[1] in ("INVLCMDARGS", "INVLCMDVERB")]
    ctx.check(len(warn) == int(bad is not None), "a malformed setting is reported", got=str(warn))
    ctx.check(not uvmenv.errors(), "no errors are reported", errors=str(uvmenv.errors()))
    names = ["uvm_test_top", "uvm_test_top.a", "uvm_test_top.a.x"]
    at = {"build": -3, "time 0": -3, "connect": -2, "run": -1, "run 0": -1, "time 5": 5, "main 5": 5, "time 7": 7, "run 7": 7}
    up = 200
    for nm in names:
        hits = sorted([s for s in ss if glob(s[0], nm)], key=lambda s: at[s[3]])
        lvl, idl = up, None
        for when in ("build", "connect", "run"):
            lo, hi = {"build": (-3, -3), "connect": (-2, -2), "run": (-1, None)}[when]
            for s in hits:
                a = at[s[3]]
                if a < lo or (hi is not None and a > hi):
                    continue
                if a > 0 and truth(ctx, lt(t, a)):
                    continue
                if s[1] == "_ALL_":
                    lvl = s[2]
                else:
                    idl = s[2]
            got = seen[(nm, when)]
            ctx.check(got[0] == lvl, "a verbosity setting takes effect in its components, when it says", comp=nm, when=when, got=got[0], want=lvl)
            ctx.check(got[1] == (lvl if idl is None else idl), "a setting for an id takes effect for that id only", comp=nm, when=when, got=got[1])
            if when == "build":
                up = lvl
            if when == "run" and any(at[s[3]] > 0 for s in hits):
                ctx.cover("timed")
    if bad is not None:
        ctx.cover("malformed")


def h_set_action(ctx, n):
    """+uvm_set_action: as the set_report_*_action calls"""
    ss, args = [], []
    bad = 0
    for i in range(n):
        p = ctx.choice("comp%d" % i, ["t", "t.*", "no"]) if i == 0 else ctx.choice("comp%d" % i, ["t", "*"])
        rid = ctx.choice("id%d" % i, ["_ALL_", "ID"])
        sev = ctx.choice("sev%d" % i, ["_ALL_", "UVM_INFO", "UVM_ERROR", "LOUD"] if i == 0 else ["_ALL_", "UVM_INFO"])
        act = ctx.choice("act%d" % i, ["UVM_NO_ACTION", "UVM_DISPLAY|UVM_COUNT", "UVM_LOG|UVM_CALL_HOOK|UVM_STOP", "UVM_EXIT|UVM_RM_RECORD", "UVM_DISPLAY|X"] if i == 0
                         else ["UVM_NO_ACTION", "UVM_COUNT"])
        form = ctx.choice("form%d" % i, ["ok", "short", "long"]) if i == 0 else "ok"
        s = ",".join([p, rid, sev, act][:3 if form == "short" else 4]) + (",x" if form == "long" else "")
        args.append("+uvm_set_action=" + s)
        if form != "ok" or sev == "LOUD" or act.endswith("|X"):
            bad += 1
        else:
            ss.append((p, rid, sev, sum(ACT[a] for a in act.split("|"))))
    given(args)
    uvmenv.clear()
    top = _c["C"]("t", None)
    cs = [top, _c["C"]("u", top)]
    ctx.check(len(uvmenv.reports(rid="INVLCMDARGS")) == bad, "malformed settings are reported", got=len(uvmenv.reports(rid="INVLCMDARGS")), want=bad)
    for c in cs:
        hits = [s for s in ss if glob(s[0], c.get_full_name())]
        for sev in range(4):
            base, ida, sida = {0: 1, 1: 1, 2: 5, 3: 9}[sev], None, None
            for _, rid, sv_, act in hits:
                if sv_ not in ("_ALL_", SEV[sev]):
                    continue
                if rid == "_ALL_":
                    base = act
                elif sv_ == "_ALL_":
                    ida = act
                else:
                    sida = act
            want = {"OTHER": base, "ID": sida if sida is not None else ida if ida is not None else base}
            for rid in ("ID", "OTHER"):
                ctx.check(c.get_report_action(sev, rid) == want[rid], "an action setting takes effect for its components, ids and severities",
                          comp=c.get_full_name(), sev=sev, id=rid, got=c.get_report_action(sev, rid), want=want[rid])
    ctx.cover("bad" if bad else "good")


def h_set_sev(ctx, n):
    """+uvm_set_severity: as the set_report_*_severity_override calls"""
    ss, args = [], []
    bad = 0
    for i in range(n):
        p = ctx.choice("comp%d" % i, ["t", "t.*", "no"]) if i == 0 else "*"
        rid = ctx.choice("id%d" % i, ["_ALL_", "ID"])
        sev = ctx.choice("sev%d" % i, ["_ALL_", "UVM_INFO", "UVM_ERROR", "LOUD"] if i == 0 else ["_ALL_", "UVM_ERROR"])
        new = ctx.choice("new%d" % i, ["UVM_INFO", "UVM_WARNING", "UVM_ERROR", "X"] if i == 0 else ["UVM_INFO"])
        form = ctx.choice("form%d" % i, ["ok", "short", "long"]) if i == 0 else "ok"
        s = ",".join([p, rid, sev, new][:3 if form == "short" else 4]) + (",x" if form == "long" else "")
        args.append("+uvm_set_severity=" + s)
        if form != "ok" or "LOUD" == sev or "X" == new:
            bad += 1
        else:
            ss.append((p, rid, sev, SEV.index(new)))
    given(args)
    uvmenv.clear()
    top = _c["C"]("t", None)
    cs = [top, _c["C"]("u", top)]
    ctx.check(len(uvmenv.reports(rid="INVLCMDARGS")) == bad, "malformed settings are reported", got=len(uvmenv.reports(rid="INVLCMDARGS")), want=bad)
    for c in cs:
        hits = [s for s in ss if glob(s[0], c.get_full_name())]
        for sev in range(3):
            base, sid = sev, None
            for _, rid, sv_, new in hits:
                if sv_ not in ("_ALL_", SEV[sev]):
                    continue
                if rid == "_ALL_":
                    base = new
                else:
                    sid = new
            for rid, want in (("OTHER", base), ("ID", base if sid is None else sid)):
                uvmenv.clear()
                [c.uvm_report_info, c.uvm_report_warning, c.uvm_report_error][sev](rid, "hello", 0)
                got = [m[0] for m in uvmenv.reports(rid=rid)]
                ctx.check(got == [want], "a severity setting takes effect for its components, ids and severities", comp=c.get_full_name(), sev=sev, id=rid,
                          got=str(got), want=want)
    ctx.cover("bad" if bad else "good")


def h_override(ctx):
    """+uvm_set_type_override and +uvm_set_inst_override"""
    args, want = [], {"a": "ClObj", "b": "ClObj"}
    errs = 0
    tov = None
    for i in range(2):
        k = ctx.choice("kind%d" % i, ["none", "type", "type0", "type1", "bad", "badrep"])
        to = ["ClObjB", "ClObjC"][i]
        caps = ctx.choice("caps", 2) if k == "type" and not i else 0
        if k in ("type", "type0", "type1"):
            args.append(("+UVM_SET_TYPE_OVERRIDE=" if caps else "+uvm_set_type_override=") + "ClObj," + to + {"type": "", "type0": ",0", "type1": ",1"}[k])
            if tov is None or k != "type0":
                tov = to
        elif k != "none":
            args.append("+uvm_set_type_override=ClObj" + ("" if k == "bad" else ",ClObjB,2"))
            errs += 1
    inst = ctx.choice("inst", ["none", "uvm_test_top.a", "*", "bad"])
    if inst == "bad":
        args.append("+uvm_set_inst_override=ClObj,ClObjB")
        errs += 1
    elif inst != "none":
        args.append("+uvm_set_inst_override=ClObj,ClObjB," + inst)
    given(args)
    made = {}

    def build(c):
        for n in ("a", "b"):
            made[n] = _c["O"].type_id.create(n, c).get_type_name()
    try:
        go("ClTop", build)
    except _c["Fin"]:
        pass
    # from ClObj to B; B itself is not overridden unless ClObj was asked for
    for n in ("a", "b"):
        w = tov or "ClObj"
        if inst == "*" or inst == "uvm_test_top." + n:
            w = "ClObjB"
        ctx.check(made.get(n) == w, "an override from the command line takes effect as the factory call", name=n, got=str(made.get(n)), want=w)
    ctx.check(len(uvmenv.reports(rid="UVM_CMDLINE_PROC")) == errs, "malformed overrides are errors", got=len(uvmenv.reports(rid="UVM_CMDLINE_PROC")))
    ctx.cover("bad" if errs else "good")


def h_config(ctx):
    """+uvm_set_config_int and +uvm_set_config_string"""
    d = "".join(ctx.choice("d%d" % i, ["0", "1", "7"]) for i in range(3))
    base = ctx.choice("base", ["", "'b", "0b", "'o", "'d", "'h", "'x", "0x"])
    if "b" in base:
        d = d.replace("7", "1")
    val = int(d, {"b": 2, "o": 8, "h": 16, "x": 16}.get(base[-1:], 10))
    caps = ctx.choice("caps", 2)
    kind = ctx.choice("kind", ["int", "string"])
    where = ctx.choice("comp", ["uvm_test_top", "*", "uvm_test_top.a"])
    if caps or where != "*":
        ctx.assume(d in ("101", "110"))
    form = ctx.choice("form", ["ok", "1", "2", "4"]) if where == "*" and d == "101" else "ok"
    name = "+uvm_set_config_%s=" % kind
    if caps:
        name = name.upper()
    full = [where, "f", base + d]
    given([name + ",".join({"ok": full, "1": full[:1], "2": full[:2], "4": full + ["x"]}[form])])
    got = {}

    def build(c):
        arr = []
        if _c["db"].get(c, "", "f", arr):
            got[c.get_full_name()] = arr[0]
        if c.get_name() == "uvm_test_top":
            _c["C"]("a", c)
    try:
        go("ClTop", build)
    except _c["Fin"]:
        ctx.check(form != "ok", "the test runs")
    if form != "ok":
        ctx.check(not got and len(uvmenv.errors()) >= 1, "a malformed setting is an error")
        return
    want = {n: (val if kind == "int" else base + d) for n in ("uvm_test_top", "uvm_test_top.a") if glob(where, n)}
    ctx.check(got == want, "a configuration setting gives the components that value", got=str(got), want=str(want))
    ctx.cover(kind)


def h_limits(ctx, what):
    """+UVM_TIMEOUT and +UVM_MAX_QUIT_COUNT with what user code sets later"""
    n = ctx.choice("n", [0, 1, 2])
    spec = ctx.choice("spec", ["", ",YES", ",NO", ",MAYBE"]) if n else ""
    first = [5, 12][ctx.choice("first", 2)] if n else None
    args = ["+%s=%d%s" % (what, first, spec)] if n else []
    if n == 2:
        args.append("+%s=3,YES" % what)
    given(args)
    user = ctx.time("user", 1, 20) if what == "UVM_TIMEOUT" else ctx.int("user", 0, 20)
    sets = ctx.choice("user sets", 2)
    locked = bool(n and spec == ",NO")
    want = user if sets and not locked else first
    dur = ctx.time("dur", 1, 20)
    st = {}

    def build(c):
        if sets and what == "UVM_TIMEOUT":
            _c["root"].set_timeout(user)
        elif sets:
            _c["S"].get_server().set_max_quit_count(user)

    async def run(c, phase):
        phase.raise_objection(c)
        await simk.delay(dur)
        st["end"] = True
        phase.drop_objection(c)
    if want is not None and what == "UVM_TIMEOUT":
        ctx.assume(ne(want, dur))
    fin = False
    try:
        r = go("ClTop", build, None, run)
    except _c["Fin"]:
        fin, r = True, None
    mult = uvmenv.reports(rid="MULTTIMOUT" if what == "UVM_TIMEOUT" else "MULTMAXQUIT")
    ctx.check(len(mult) == int(n == 2), "several settings are reported")
    nov = uvmenv.reports(rid="NOTIMOUTOVR" if what == "UVM_TIMEOUT" else "NOMAXQUITOVR")
    ctx.check(len(nov) == int(locked and sets), "an attempt to change a setting that is not overridable is reported", got=len(nov))
    if what == "UVM_TIMEOUT":
        late = want is not None and truth(ctx, gt(dur, want))
        ctx.check(bool(st.get("end")) == (not late), "the run phase ends with a fatal at the timeout, and not before")
        ctx.check(len(uvmenv.reports(rid="PH_TIMEOUT")) == int(late) and fin == late, "the timeout is a fatal error", reports=str(uvmenv.errors()))
        ctx.check(eq(simk.now(), want if late else dur), "the timeout is counted from the start", got=simk.now())
        ctx.cover("timeout" if late else "in time")
        return
    got = _c["S"].get_server().get_max_quit_count()
    ctx.check(eq(got, want if want is not None else 0), "the quit count is the one set", got=got)
    ctx.cover("locked" if locked else "open")


def h_test(ctx):
    """+UVM_TESTNAME wins over the argument of run_test; the first one is taken"""
    n = ctx.choice("n", [0, 1, 2])
    ts = [ctx.choice("t%d" % i, ["ClTop", "ClTopB", "Nothing"]) for i in range(n)]
    arg = ctx.choice("arg", ["", "ClTop", "ClTopB", "Missing"])
    given(["+UVM_TESTNAME=" + t for t in ts])
    ran = []
    try:
        go(arg, lambda c: ran.append((c.get_type_name(), c.get_full_name())))
    except _c["Fin"]:
        pass
    want = ts[0] if ts else arg
    ok = want in ("ClTop", "ClTopB")
    ctx.check(ran == ([(want, "uvm_test_top")] if ok else []), "the test of the command line, else of run_test, is run as uvm_test_top", got=str(ran), want=want)
    rid = None if ok else ("INVTST" if want else "NOCOMP")
    ctx.check([m[1] for m in uvmenv.errors() if m[1] in ("INVTST", "NOCOMP", "TTINST")] == ([rid] if rid else []), "a missing test is fatal", got=str(uvmenv.errors()))
    ctx.check(len(uvmenv.reports(rid="MULTTST")) == int(n == 2), "several test names are reported")
    ctx.cover("run" if ok else "fatal")


def h_default_seq(ctx):
    """+uvm_set_default_sequence"""
    k = ctx.choice("form", ["ok", "caps", "short", "long", "type"])
    where = ctx.choice("seqr", ["uvm_test_top.s", "*", "uvm_test_top.r"])
    ph = ctx.choice("phase", ["main", "shutdown"])
    f = [where, ph + "_phase", "Nobody" if k == "type" else "ClSeq"]
    f = f[:2] if k == "short" else f + ["x"] if k == "long" else f
    given([("+UVM_SET_DEFAULT_SEQUENCE=" if k == "caps" else "+uvm_set_default_sequence=") + ",".join(f)])
    del LOG[:]

    def build(c):
        _c["Sqr"]("s", c)
        _c["Sqr"]("r", c)
    try:
        go("ClTop", build)
    except _c["Fin"]:
        ctx.check(k not in ("ok", "caps"), "the test runs")
    if k not in ("ok", "caps"):
        ctx.check(not LOG and len(uvmenv.errors()) >= 1, "a malformed setting is an error")
        ctx.cover("bad")
        return
    want = sorted((n, ph) for n in ("uvm_test_top.s", "uvm_test_top.r") if glob(where, n))
    ctx.check(sorted(LOG) == want, "the sequence is run by the sequencers and phase named", got=str(LOG), want=str(want))
    ctx.cover("run")


_O = dict(fmt_cut=False)
_T = dict(str_mode="opaque", fmt_cut=False)
W = list(WHEN)
HARNESSES = [
    Harness(h_args, "args", n=1, ln=4, covers=("uvm", "hit", "miss"), bounds="all arguments of 3 or 4 characters of 3 alphabets", **_O),
    Harness(h_args, "args2", n=2, ln=2, covers=("hit", "miss"), bounds="2 arguments of 1 or 2 characters", tiers=("thorough",), **_O),
    Harness(h_regex, "regex", bounds="2 of 6 arguments, 9 expressions", **_O),
    Harness(h_verb, "verbosity", covers=("n0", "n1", "n2"), bounds="up to 2 settings of 10 values", **_O),
    Harness(h_set_verb, "set_verbosity", whens=["none", "build", "connect", "time 5", "main 5"], pats=["uvm_test_top", "uvm_test_top.*", "uvm_test_top.a"],
            whens2=["none", "run", "time 7"], pats2=["*"], covers=("timed", "malformed"), tiers=("quick",),
            bounds="up to 2 settings and a malformed one, seen at any time of the run", **_T),
    Harness(h_set_verb, "set_verbosity_all", whens=["none"] + W, pats=PATS, whens2=["none", "build", "run 0", "time 7", "run 7"], pats2=PATS[:3],
            covers=("timed", "malformed"), tiers=("thorough",), bounds="up to 2 settings of 9 kinds and a malformed one", **_T),
    Harness(h_set_action, "set_action", n=1, covers=("good", "bad"), tiers=("quick",), bounds="1 setting", **_O),
    Harness(h_set_action, "set_action2", n=2, covers=("good", "bad"), tiers=("thorough",), bounds="2 settings", **_O),
    Harness(h_set_sev, "set_severity", n=1, covers=("good", "bad"), tiers=("quick",), bounds="1 setting", **_O),
    Harness(h_set_sev, "set_severity2", n=2, covers=("good", "bad"), tiers=("thorough",), bounds="2 settings", **_O),
    Harness(h_override, "override", covers=("good", "bad"), bounds="2 type and 1 instance overrides", **_O),
    Harness(h_config, "config", covers=("int", "string"), bounds="8 bases, 3 digits, 3 patterns", **_O),
    Harness(h_limits, "timeout", what="UVM_TIMEOUT", covers=("timeout", "in time"), bounds="all times up to 20", **_T),
    Harness(h_limits, "max_quit", what="UVM_MAX_QUIT_COUNT", covers=("locked", "open"), bounds="all counts up to 20", **_T),
    Harness(h_test, "testname", covers=("run", "fatal"), bounds="up to 2 names", **_O),
    Harness(h_default_seq, "default_sequence", covers=("run", "bad"), bounds="2 sequencers, 2 phases", **_O),
]
