"""B07: factory overrides"""
from engine import uvmenv
from engine.runner import Harness
from engine.symex import SymStr
from . import b06

_c = {}
glob = b06.glob


def setup():
    uvmenv.setup()
    b06.setup()
    from uvm.base.uvm_factory import UVMDefaultFactory
    from uvm.base.uvm_coreservice import UVMCoreService
    from uvm.base.uvm_object import UVMObject
    from uvm.base.uvm_component import UVMComponent
    from uvm.macros import uvm_object_utils, uvm_component_utils
    objs, comps = {}, {}
    for n in "ABCD":
        k = type("O" + n, (UVMObject,), {"__init__": lambda self, name="": UVMObject.__init__(self, name)})
        uvm_object_utils(k)
        objs[n] = k
        k = type("C" + n, (UVMComponent,), {"__init__": lambda self, name, parent: UVMComponent.__init__(self, name, parent)})
        uvm_component_utils(k)
        comps[n] = k
    cs = UVMCoreService.get()
    _c.update(F=UVMDefaultFactory, cs=cs, o=objs, c=comps, fact=cs.get_factory(), parent=UVMComponent("p", None))


class Model:
    def __init__(self):
        self.inst = []      # (orig, new, path)
        self.types = {}     # orig -> new
        self.order = []

    def type(self, o, n, replace, by_name):
        if by_name and o == n:
            return
        if o in self.types and not replace:
            return
        self.types[o] = n

    def instance(self, o, n, path):
        if (o, n, path) not in self.inst:
            self.inst.append((o, n, path))

    def resolve(self, t, path, truth):
        """type to create, and whether the overrides go round in a circle"""
        seen = []
        while True:
            if t in seen:
                return t, True
            o = None
            if len(path):
                for a, b, p in self.inst:
                    if a == t and truth(glob(p, path)):
                        o = b
                        break
            if o is None:
                o = self.types.get(t)
            if o is None or o == t:
                return t, False
            seen.append(t)
            t = o


def truth(ctx):
    return lambda c: ctx.branch(c) if hasattr(ctx, "branch") else bool(c)


PATHS = ["p.a", "p.*", "*a", "p.a?"]


def override(ctx, m, i, ts, kind, ops, reps, paths):
    o, n = ctx.choice("o%d" % i, ts[:2]), ctx.choice("n%d" % i, ts)
    op = ctx.choice("op%d" % i, ops)
    K, f = _c[kind], _c["cs"].get_factory()
    pre = kind.upper()
    if op in ("inst", "instn"):
        p = ctx.choice("p%d" % i, paths)
        m.instance(o, n, p)
        if op == "inst":
            f.set_inst_override_by_type(K[o].get_type(), K[n].get_type(), p)
        else:
            f.set_inst_override_by_name(pre + o, pre + n, p)
    elif op == "reginst":
        m.instance(o, n, "p.a")
        if ctx.bool("full%d" % i):
            K[o].type_id.set_inst_override(K[n].get_type(), "p.a")
        else:
            K[o].type_id.set_inst_override(K[n].get_type(), "a", _c["parent"])
    else:
        r = ctx.choice("r%d" % i, reps)
        m.type(o, n, r, op == "tname")
        if op == "tname":
            f.set_type_override_by_name(pre + o, pre + n, r)
        elif op == "ttype":
            f.set_type_override_by_type(K[o].get_type(), K[n].get_type(), r)
        else:
            K[o].type_id.set_type_override(K[n].get_type(), r)


def produced(x):
    return type(x).__name__[1:] if x is not None else None


def h_create(ctx, n, ts, kind, ops, ns, reps=(True,), paths=PATHS, pars=("p",)):
    m = Model()
    for i in range(n):
        override(ctx, m, i, list(ts), kind, list(ops), list(reps), list(paths))
    K, f, pre = _c[kind], _c["cs"].get_factory(), kind.upper()
    t = ts[0]           # the types are alike
    par = ctx.choice("par", list(pars))
    nm = ctx.string("nm", ctx.choice("len", list(range(1 if par else 0, ns + 1))), "ab")
    path = nm if par == "" else SymStr.of(par + ".") + nm if type(nm) is SymStr else par + "." + nm
    want, loop = m.resolve(t, path, truth(ctx))
    P = _c["parent"] if par else None

    def made(x, what):
        ctx.check(produced(x) == want, "the factory makes the type the overrides lead to", want=want, got=produced(x), by=what)
        ctx.check(x.get_name() == nm or kind == "c" and not len(nm), "the object has the name given")
        ctx.check(bool(uvmenv.reports(rid="OVRDLOOP")) == loop, "circular overrides are reported, others not", by=what)
        uvmenv.clear()
    uvmenv.clear()
    if kind == "o":
        made(f.create_object_by_type(K[t].get_type(), par, nm), "type")
        made(f.create_object_by_name("O" + t, par, nm), "name")
        made(K[t].type_id.create(nm, P), "registry")
    else:
        made(f.create_component_by_type(K[t].get_type(), par, nm, P), "type")
        P.m_children.clear()
        made(f.create_component_by_name("C" + t, par, nm, P), "name")
        P.m_children.clear()
        made(K[t].type_id.create(nm, P), "registry")
        P.m_children.clear()
    uvmenv.clear()
    for byname in (False, True):
        if byname:
            f.debug_create_by_name(pre + t, par, nm)
        else:
            f.debug_create_by_type(K[t].get_type(), par, nm)
        r = uvmenv.reports(rid="UVM/FACTORY/DUMP")
        ctx.check(len(r) == 1 and ("type '%s'" % (pre + want)) in r[0][2].split("Result:")[1], "debug_create names the type made")
        uvmenv.clear()
    if kind == "o":
        made(f.create_object_by_type(K[t].get_type(), par, nm), "type, after debug_create")
    if loop:
        ctx.cover("loop")
    if want != t:
        ctx.cover("overridden")


def h_names(ctx):
    """type names: unregistered originals, unregistered replacements, later registration"""
    f = _c["F"]()
    K = _c["o"]
    reg = [c for c in "ABC" if ctx.bool("reg" + c)]
    ws = {c: K[c].type_id for c in "ABC"}
    for c in reg:
        f.register(ws[c])
    types = {}
    for i in range(2):
        o, n = ctx.choice("o%d" % i, ["A", "B", "Z"]), ctx.choice("n%d" % i, ["B", "C"])
        uvmenv.clear()
        f.set_type_override_by_name("O" + o, "O" + n)
        if n not in reg:
            ctx.check(len(uvmenv.errors()) == 1, "an unregistered replacement is an error")
        else:
            ctx.check(not uvmenv.errors(), "no error")
            if o != n:
                types[o] = n
    for t in ["A", "B", "Z"]:
        seen, w = [], t
        while w in types and w not in seen:
            seen.append(w)
            w = types[w]
        uvmenv.clear()
        x = f.create_object_by_name("O" + t, "", "n")
        if w in seen:
            continue
        ctx.check(produced(x) == (w if w in reg else None), "created by name iff registered or overridden", t=t)
        ctx.check(bool(uvmenv.reports(rid="BDTYP")) == (x is None), "an unknown type is reported")
        wr = f.find_wrapper_by_name("O" + t)
        ctx.check(wr is (ws[t] if t in reg else None), "find_wrapper_by_name gives the type registered")


def h_inst_names(ctx, n):
    """instance overrides by name: of types not registered (yet), and of all types a name matches"""
    f = _c["F"]()
    K = _c["o"]
    ws = {c: K[c].type_id for c in "ABC"}
    reg = ["C"] + [c for c in "AB" if ctx.bool("reg" + c)]
    for c in reg:
        f.register(ws[c])
    ovr = []
    for i in range(n):
        o = ctx.choice("o%d" % i, ["OA", "OZ", "O*", "O?", "*B"])
        new = ctx.choice("n%d" % i, ["OC", "OB"])
        p = ctx.choice("p%d" % i, ["p.a", "*"])
        uvmenv.clear()
        f.set_inst_override_by_name(o, new, p)
        if new[1] not in reg:
            ctx.check(len(uvmenv.errors()) == 1, "an unregistered replacement is an error")
            continue
        ctx.check(not uvmenv.errors(), "no error")
        ovr.append((o, new[1], p))
    late = [c for c in "AB" if c not in reg and ctx.bool("late" + c)]
    for c in late:
        f.register(ws[c])
    reg += late
    t = ctx.choice("t", ["A", "B", "Z"])
    path = ctx.choice("path", ["p", "p.b", ""])
    full = (path + "." if path else "") + "a"

    def step(w):
        """the replacements that apply, an override for the very name or one by wildcard"""
        return [b for o, b, p in ovr if glob(o, "O" + w) and glob(p, full) and (w in reg or "*" not in o and "?" not in o)]
    cands = step(t)
    uvmenv.clear()
    if len(set(cands)) > 1 or any(step(c) not in ([], [c]) for c in cands):
        return      # which of several, and chains, are decided by the other harnesses
    want = cands[0] if cands else t
    x = f.create_object_by_name("O" + t, path, "a")
    ctx.check(produced(x) == (want if want in reg else None), "an instance override by name applies to the types and instances it names", t=t, got=produced(x), want=want)
    if t in reg and not (t in late and any(w[0] in ("O*", "O?", "*B") for w in ovr)):
        x = f.create_object_by_type(ws[t], path, "a")
        ctx.check(produced(x) == want, "also for a creation by type", t=t, got=produced(x), want=want)
    ctx.cover("overridden" if cands else "not")
    if late and cands:
        ctx.cover("late")


ALL = ["ttype", "tname", "treg", "inst", "reginst"]
K = dict(str_mode="conc", fmt_cut=False)
HARNESSES = [
    Harness(h_create, "types", n=2, ts="ABC", kind="o", ops=["ttype", "tname"], ns=1, reps=(True, 0), tiers=("quick",),
            covers=["loop", "overridden"], bounds="2 type overrides of 3 types", **K),
    Harness(h_create, "instances", n=2, ts="ABC", kind="o", ops=["inst"], ns=2, tiers=("quick",), pars=("", "p"),
            bounds="2 instance overrides of 3 types, 4 path globs, all instance names of up to 2 characters", **K),
    Harness(h_create, "mixed", n=3, ts="AB", kind="o", ops=["tname", "instn"], ns=1, tiers=("quick",), paths=["p.a", "*"],
            bounds="3 overrides of 2 types", **K),
    Harness(h_create, "components", n=2, ts="AB", kind="c", ops=["treg", "tname", "instn", "reginst"], ns=1, tiers=("quick",),
            paths=["p.a", "p.*"], bounds="2 overrides of 2 component types", **K),
    Harness(h_create, "deep", n=3, ts="ABC", kind="o", ops=["tname", "ttype", "inst", "instn"], ns=2, paths=["p.a", "*b"], tiers=("thorough",),
            bounds="3 overrides of 3 types", **K),
    Harness(h_inst_names, "inst_names", n=1, covers=["overridden", "not", "late"], tiers=("quick",),
            bounds="1 instance override by name, of 5 names, with types registered before, after or never", **K),
    Harness(h_inst_names, "inst_names2", n=2, covers=["overridden", "not", "late"], tiers=("thorough",),
            bounds="2 instance overrides by name, of 5 names, with types registered before, after or never", **K),
    Harness(h_names, "names", bounds="3 types registered or not, 2 overrides by name", **K),
]
