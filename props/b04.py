"""B04: configuration database: which setting a get sees"""
from engine import uvmenv
from engine.runner import Harness
from engine.symex import and_, eq, iff, ite, not_, or_
from . import b06

_c = {}
glob = b06.glob


class _Build:
    def get_name(self):
        return "build"


def setup():
    uvmenv.setup()
    b06.setup()
    from uvm.base.uvm_config_db import UVMConfigDb
    from uvm.base.uvm_component import UVMComponent
    from uvm.base.uvm_coreservice import UVMCoreService
    from uvm.base.uvm_resource import UVMResourcePool, UVMResourceBase
    from uvm.comps.uvm_agent import UVMAgent
    from uvm.macros import uvm_object_defines as M
    from uvm.macros import uvm_component_utils_begin, uvm_component_utils_end

    class Comp(UVMComponent):
        def __init__(self, name, parent):
            super().__init__(name, parent)
            self.v = -1
            self.w = -2
            self.s = "d"
            self.ro = -3

    from uvm.base.uvm_object_globals import UVM_ALL_ON, UVM_READONLY
    uvm_component_utils_begin(Comp)
    M.uvm_field_int("v")
    M.uvm_field_int("w")
    M.uvm_field_string("s")
    M.uvm_field_int("ro", UVM_ALL_ON | UVM_READONLY)
    uvm_component_utils_end(Comp)
    root = UVMCoreService.get().get_root()
    top = Comp("t", None)
    a = Comp("a", top)
    b = Comp("b", a)
    sib = Comp("ab", top)
    ag = UVMAgent("g", a)
    _c.update(DB=UVMConfigDb, root=root, comps=[None, top, a, b, sib], agent=ag, Pool=UVMResourcePool)


def path(c, inst):
    p = c.get_full_name() if c is not None else ""
    return inst if p == "" else (p if inst == "" else p + "." + inst)


def depth(c):
    return 0 if c is None else c.get_full_name().count(".") + 1


class Model:
    """what the documentation of UVMConfigDb.set says"""

    def __init__(self):
        self.d = {}
        self.t = 0

    def set(self, c, inst, field, val, build):
        self.t += 1
        self.d[(c, inst, field)] = (1000 - depth(c) if build else 1000, self.t, path(c, inst), val)

    def get(self, scope, field):
        """list of (condition that this setting is the one, value), condition of none"""
        cand = sorted((x for k, x in self.d.items() if k[2] == field), key=lambda x: (-x[0], -x[1]))
        out, free = [], True
        for prec, t, pat, val in cand:
            m = glob(pat, scope) if pat else True
            out.append((and_(free, m), val))
            free = and_(free, not_(m))
        return out, free


def do_sets(ctx, m, n, insts, fields, comps=(0, 1, 2), builds=(False, True), lo=-3, hi=1 << 20):
    for i in range(n):
        c = _c["comps"][ctx.choice("c%d" % i, list(comps))]
        inst = ctx.choice("i%d" % i, insts[depth(c)])
        f = ctx.choice("f%d" % i, fields)
        build = ctx.choice("b%d" % i, list(builds))
        v = ctx.int("v%d" % i, lo, hi)
        _c["root"].m_current_phase = _Build() if build else None
        _c["DB"].set(c, inst, f, v)
        m.set(c, inst, f, v, build)
    _c["root"].m_current_phase = None


def check_get(ctx, m, c, inst, f, T=None):
    scope = path(c, inst)
    got = []
    ok = _c["DB"].get(c, inst, f, got, T)
    want, none = m.get(scope, f)
    ctx.check(iff(bool(ok), not_(none)), "get succeeds iff a setting applies to the scope", field=f)
    ctx.check(len(got) == (1 if ok else 0), "get returns one value iff it succeeds")
    ctx.check(iff(bool(_c["DB"].exists(c, inst, f)), bool(ok)), "exists iff get would succeed")
    if ok:
        for cond, val in want:
            ctx.check(or_(not_(cond), eq(got[0], val)), "the last set of the highest precedence wins", field=f)
    return ok


INSTS = [["", "t.a", "t.*", "*", "t.a?", "*b"], ["", "a", "*", "ab"], ["", "b", "*b"], [""]]


def h_get(ctx, n, ns, fields):
    m = Model()
    do_sets(ctx, m, n, INSTS, fields)
    c = _c["comps"][ctx.choice("gc", [0, 1, 2])]
    inst = ctx.string("gs", ctx.choice("gl", list(range(ns + 1))), "ab.t")
    f = ctx.choice("gf", fields + (["u"] if len(fields) > 1 else []))
    if check_get(ctx, m, c, inst, f):
        ctx.cover("found")


def h_reset(ctx, n):
    """settings made again, also from other contexts, keep one order"""
    m = Model()
    do_sets(ctx, m, n, [["t.a", "*"], ["a"]], ["f"], comps=(0, 1))
    check_get(ctx, m, None, ctx.choice("gs", ["t.a", "t.b"]), "f")


def h_names(ctx):
    """settings whose scope and field name read the same when put together are told apart"""
    m = Model()
    keys = [("a", "bc"), ("ab", "c"), ("a.b", "c"), ("a", "b.c"), ("", "abc")]
    for i in range(2):
        inst, f = ctx.choice("k%d" % i, keys)
        v = ctx.int("v%d" % i, -3, 1 << 20)
        _c["DB"].set(None, inst, f, v)
        m.set(None, inst, f, v, False)
    inst, f = ctx.choice("g", keys)
    check_get(ctx, m, None, inst, f)


def h_types(ctx):
    """get of a typed value sees only values of that type"""
    D = _c["DB"]
    v, w = ctx.int("v", -5, 1 << 30), ctx.choice("w", ["x", "y"])
    order = ctx.bool("order")
    for k in ([0, 1] if order else [1, 0]):
        if k:
            D.set(None, "t.a", "f", v)
        else:
            D.set(None, "t.*", "f", w)
    for T, val in ((int, v), (str, w)):
        got = []
        ctx.check(D.get(_c["comps"][2], "", "f", got, T) and len(got) == 1, "typed get succeeds")
        ctx.check(eq(got[0], val) if T is int else got[0] == val, "typed get returns the value of the type")
    got = []
    ctx.check(not D.get(_c["comps"][2], "", "f", got, float) and not got, "no value of this type")
    got = []
    ctx.check(D.get(_c["comps"][2], "", "f", got), "untyped get succeeds")
    last = v if order else w
    ctx.check(type(got[0]) is str and got[0] == last if isinstance(last, str) else eq(got[0], last), "untyped get: last wins")


def h_apply(ctx, n):
    """automatic configuration of a component assigns what get would return"""
    m = Model()
    do_sets(ctx, m, n, [["t.a", "*", "t.a.b"], ["a", "*"], [""]], ["v", "w", "ro"])
    c = _c["comps"][ctx.choice("c", [2, 3])]
    c.apply_config_settings()
    for f, dflt in (("v", -1), ("w", -2)):
        want, none = m.get(c.get_full_name(), f)
        for cond, val in want:
            ctx.check(or_(not_(cond), eq(getattr(c, f), val)), "field has the value of highest precedence", field=f)
        ctx.check(or_(not_(none), eq(getattr(c, f), dflt)), "a field nobody set keeps its value", field=f)
    ctx.check(eq(c.ro, -3), "read-only fields are not configured")


def h_agent(ctx, n):
    m = Model()
    do_sets(ctx, m, n, [["t.a.g", "*"], ["a.*"], ["g"]], ["is_active"], lo=0, hi=1)
    g = _c["agent"]
    g.m_phasing_active = 1
    g.build_phase(None)
    want, none = m.get("t.a.g", "is_active")
    for cond, val in want:
        ctx.check(or_(not_(cond), eq(g.get_is_active(), val)), "is_active has the value of highest precedence")
    ctx.check(or_(not_(none), eq(g.get_is_active(), 1)), "agents are active by default")


HARNESSES = [
    Harness(h_get, "get", n=2, ns=3, fields=["f"], tiers=("quick",), covers=["found"],
            bounds="2 settings (3 contexts, 13 scopes, in build or not, all values), any scope of up to 3 characters below 3 contexts"),
    Harness(h_get, "get_deep", n=2, ns=5, fields=["f", "g"], tiers=("thorough",), bounds="same, scopes of 5 characters, 3 fields"),
    Harness(h_reset, "reset", n=3, bounds="3 settings of 3 keys"),
    Harness(h_reset, "reset4", n=4, tiers=("thorough",), bounds="4 settings of 3 keys"),
    Harness(h_names, "names", bounds="2 settings of 5 keys"),
    Harness(h_types, "types"),
    Harness(h_apply, "apply", n=2, bounds="2 settings of 3 fields"),
    Harness(h_agent, "agent", n=2, bounds="2 settings of is_active"),
]
