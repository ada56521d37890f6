"""B24: the tree of components"""
from engine import uvmenv
from engine.runner import Harness
from engine.symex import and_, eq, iff
from .b05 import truth
from .b06 import code, glob

_c = {}
VIS = []


def setup():
    uvmenv.setup()
    from uvm.base.uvm_component import UVMComponent
    from uvm.base.uvm_coreservice import UVMCoreService
    from uvm.base.uvm_domain import UVMDomain
    from uvm.base.uvm_exceptions import UVMFinishError
    from uvm.macros import uvm_component_utils

    class TreeC(UVMComponent):
        def resolve_bindings(self):
            VIS.append(("resolve", self))

        def pre_abort(self):
            VIS.append(("abort", self))

        def flush(self):
            VIS.append(("flush", self))

        def define_domain(self, domain):
            VIS.append(("domain", self))
            super().define_domain(domain)
    uvm_component_utils(TreeC)
    _c.update(C=TreeC, root=UVMCoreService.get().get_root(), D=UVMDomain, Fin=UVMFinishError)


class N:
    """one node of the reference tree"""

    def __init__(self, name, up, comp):
        self.name, self.up, self.comp, self.kids = name, up, comp, []

    def full(self):
        return self.name if self.up is None or self.up.up is None else self.up.full() + "." + self.name

    def depth(self):
        return 0 if self.up is None else self.up.depth() + 1

    def kid(self, name):
        for k in self.kids:
            if k.name == name:
                return k
        return None

    def below(self):
        """the nodes below and itself, children first"""
        return [x for k in self.kids for x in k.below()] + [self]


def grow(ctx, n, names, make=None):
    """n components with any parents and names; a name taken already is refused"""
    root = _c["root"]
    top = N("", None, root)
    nodes = [top]
    for i in range(n):
        par = ctx.choice("parent%d" % i, len(nodes))
        name = ctx.choice("name%d" % i, names)
        up = nodes[par]
        uvmenv.clear()
        got = None
        try:
            got = make(name, up.comp) if make else _c["C"](name, None if up is top else up.comp)
        except _c["Fin"]:
            pass
        if up.kid(name) is not None:
            ctx.check(got is None and len(uvmenv.reports(rid="CLDEXT")) == 1, "a second child of that name is refused")
            ctx.cover("duplicate")
            continue
        ctx.check(got is not None and not uvmenv.errors(), "a component with a new name is created", errors=str(uvmenv.errors()))
        k = N(name, up, got)
        up.kids.append(k)
        nodes.append(k)
    uvmenv.clear()
    return top, nodes


def same(ctx, nodes):
    for x in nodes:
        c = x.comp
        if x.up is not None:
            ctx.check(c.get_name() == x.name and c.get_full_name() == x.full(), "names follow the place in the tree", got=c.get_full_name(), want=x.full())
            ctx.check(c.get_parent() is x.up.comp, "a component has the parent it was created with", of=x.full())
        ctx.check(c.get_depth() == x.depth(), "the depth counts the levels below the root", of=x.full(), got=c.get_depth())
        ctx.check(c.get_num_children() == len(x.kids), "the number of children", of=x.full(), got=c.get_num_children())
        ks = []
        c.get_children(ks)
        want = [k.comp for k in x.kids]
        ctx.check(len(ks) == len(want) and all(a is b for a, b in zip(ks, want)), "get_children gives each child once, in order of creation", of=x.full())
        for k in x.kids:
            ctx.check(c.get_child(k.name) is k.comp and c.has_child(k.name), "a child is found by its name", of=k.full())
        ctx.check(c.get_child("nobody") is None and not c.has_child("nobody"), "no child is found by another name")
        w, k = [], c.get_first_child()
        while k is not None and len(w) < 9:
            w.append(k)
            k = c.get_next_child()
        ctx.check(len(w) == len(want) and all(a is b for a, b in zip(w, want)), "get_first_child and get_next_child walk the children", of=x.full())


def resolve(x, path):
    for p in path.split("."):
        x = x.kid(p)
        if x is None:
            return None
    return x


def h_tree(ctx, n, names, via=False):
    make = None
    if via:
        def make(name, up):
            return _c["C"].type_id.create(name, None if up is _c["root"] else up)
    top, nodes = grow(ctx, n, names, make)
    same(ctx, nodes)
    if max(x.depth() for x in nodes) == n:
        ctx.cover("chain")
    if len(top.kids) > 1:
        ctx.cover("forest")


def h_lookup(ctx, n, names, depth):
    """lookup of any relative or absolute name, from anywhere"""
    top, nodes = grow(ctx, n, names)
    frm = nodes[ctx.choice("from", len(nodes))]
    d = ctx.choice("levels", list(range(1, depth + 1)))
    path = ".".join(ctx.choice("p%d" % i, names) for i in range(d))
    absolute = ctx.choice("absolute", 2)
    want = resolve(top if absolute else frm, path)
    uvmenv.clear()
    got = frm.comp.lookup(("." if absolute else "") + path)
    ctx.check(got is (want.comp if want else None), "lookup finds the component of that relative or absolute name, and no other", path=path)
    warn = len(uvmenv.reports(rid="Lookup Error"))
    ctx.check(warn == (0 if want else 1), "a failed lookup warns, and only that", got=warn)
    ctx.cover("found" if want else "missing")
    same(ctx, nodes)


def h_find(ctx, n, names, np):
    """find and find_all, with any pattern"""
    top, nodes = grow(ctx, n, names)
    m = ctx.choice("len", list(range(1, np + 1)))
    pat = ctx.choice("pre", ["", "top."]) + "".join(ctx.choice("p%d" % i, ["a", "b", ".", "*", "?"]) for i in range(m))
    ms = [x for x in top.below() if x.up is not None and glob(pat, x.full())]
    got = []
    uvmenv.clear()
    _c["root"].find_all(pat, got)
    ctx.check(len(got) == len(ms) and all(any(g is x.comp for g in got) for x in ms), "find_all gives the components whose full name matches, each once",
              pattern=pat, got=str([g.get_full_name() for g in got]))
    s = nodes[ctx.choice("from", len(nodes))]
    sub = []
    _c["root"].find_all(pat, sub, s.comp)
    below = [x for x in s.below() if x.up is not None and glob(pat, x.full())]
    ctx.check(len(sub) == len(below) and all(any(g is x.comp for g in sub) for x in below), "find_all from a component looks at it and what is below", pattern=pat)
    ctx.check(not uvmenv.REPORTS, "find_all reports nothing", reports=str(uvmenv.REPORTS))
    one = _c["root"].find(pat)
    if not ms:
        ctx.check(one is None and len(uvmenv.reports(rid="CMPNFD")) == 1, "find warns and gives None when nothing matches")
        ctx.cover("none")
    else:
        ctx.check(any(one is x.comp for x in ms) and one is got[0], "find gives the first match")
        ctx.check(len(uvmenv.reports(rid="MMATCH")) == (1 if len(ms) > 1 else 0), "find warns when there are several")
        ctx.cover("several" if len(ms) > 1 else "one")
    same(ctx, nodes)


def h_walk(ctx, n):
    """what is done for a whole tree is done once for each component"""
    top, nodes = grow(ctx, n, ["a", "b"])
    x = nodes[ctx.choice("of", len(nodes))]
    op = ctx.choice("op", ["resolve", "abort", "flush", "domain", "domain0", "hier"])
    if op == "hier":
        v, w = ctx.int("verbosity", 0, 500), ctx.int("before", 0, 500)
        for y in nodes:
            y.comp.set_report_verbosity_level(w)
        x.comp.set_report_verbosity_level_hier(v)
        ins = x.below()
        for y in nodes:
            want = v if any(y is z for z in ins) else w
            ctx.check(y.comp.get_report_verbosity_level() == want, "a _hier setting reaches the subtree and nothing else", of=y.full())
        # a new child starts with the verbosity of its parent
        k = _c["C"]("new", None if x is top else x.comp)
        ctx.check(k.get_report_verbosity_level() == v, "a new component takes the verbosity of its parent")
        ctx.cover("hier")
        return
    del VIS[:]
    want = x.below()
    if op in ("resolve", "abort", "flush"):
        getattr(x.comp, {"resolve": "do_resolve_bindings", "abort": "m_do_pre_abort", "flush": "do_flush"}[op])()
        if x is top:
            want = want[:-1]
    else:
        if x is top:
            return
        d = _c["D"]("dom")
        hier = op == "domain"
        x.comp.set_domain(d, ctx.choice("as", [True, 1]) if hier else ctx.choice("as", [False, 0]))
        if not hier:
            want = [x]
        for y in nodes:
            ctx.check((y.comp.get_domain() is d) == any(y is z for z in want), "set_domain reaches the component, and what is below if hier", of=y.full())
        if x.kids:
            k = _c["C"]("new", x.comp)
            ctx.check(k.get_domain() is d, "a new component is in the domain of its parent")
        op = "domain"
    got = [c for o, c in VIS if o == op]
    ctx.check(len(got) == len(want) and len(VIS) == len(got), "each component of the tree is visited once", got=str([c.get_full_name() for c in got]))
    for y in want:
        ctx.check(any(c is y.comp for c in got), "every component is visited", missed=y.full())
    if op in ("resolve", "abort", "flush"):
        ctx.check(all(c is y.comp for c, y in zip(got, want)), "children are visited before their parent", got=str([c.get_full_name() for c in got]))
        ctx.cover(op)
    else:
        ctx.cover("domain")


def h_names(ctx):
    """names that are given, left out or changed"""
    top, nodes = grow(ctx, 2, ["a", "b"])
    x = nodes[ctx.choice("of", len(nodes))]
    op = ctx.choice("op", ["rename", "noname", "self", "late", "clone"])
    uvmenv.clear()
    if op == "rename":
        if x is top:
            return
        x.comp.set_name(ctx.choice("to", ["a", "c"]))
        ctx.check(len(uvmenv.reports(rid="INVSTNM")) == 1, "renaming a component is an error")
    elif op == "noname":
        up = None if x is top else x.comp
        k, k2 = _c["C"]("", up), _c["C"]("", up)
        ctx.check(k.get_name() != "" and k2.get_name() != k.get_name() and not uvmenv.errors(), "a component without a name gets one of its own")
        ctx.check(k.get_parent() is x.comp and x.comp.get_child(k2.get_name()) is k2, "it is a child as any other")
        x.kids += [N(k.get_name(), x, k), N(k2.get_name(), x, k2)]
    elif op == "clone":
        ctx.check(x.comp.clone() is None and x.comp.create("z") is None and len(uvmenv.errors()) == 2, "components are not cloned or created by create")
    else:
        return
    ctx.cover(op)
    same(ctx, nodes)


def h_any_names(ctx, ln, np):
    """three components with any names: siblings x and y, z below x"""
    C, root = _c["C"], _c["root"]
    nm = [ctx.string("n%d" % i, ctx.choice("len%d" % i, list(range(1, ln + 1))), "abt") for i in range(3)]
    x = C(nm[0], None)
    clash = truth(ctx, eq_str(nm[0], nm[1]))
    try:
        y = C(nm[1], None)
        ctx.check(not clash, "a sibling of the same name is refused")
        ctx.cover("distinct")
    except _c["Fin"]:
        ctx.check(clash, "a sibling with another name is created")
        ctx.cover("clash")
        return
    z = C(nm[2], x)
    full = [nm[0], nm[1], nm[0] + "." + nm[2]]
    cs = [x, y, z]
    for c, f in zip(cs, full):
        ctx.check(eq_str(c.get_full_name(), f), "the full name is the path of names")
    ctx.check(z.get_depth() == 2 and x.get_depth() == 1, "the depth counts the levels")
    q = ctx.choice("q", ["lookup", "abs", "find"])
    if q == "find":
        m = ctx.choice("len", list(range(1, np + 1)))
        pat = "".join(ctx.choice("p%d" % i, ["a", ".", "*", "?"]) for i in range(m))
        got = []
        root.find_all(pat, got)
        for c, f in zip(cs, full):
            ctx.check(iff(any(c is g for g in got), glob(pat, f)), "find_all gives exactly the components whose full name matches", pattern=pat)
        ctx.check(len(got) <= 3, "find_all gives each once")
        return
    s = ctx.string("s", ctx.choice("slen", list(range(1, ln + 1))), "abt")
    t = ctx.string("t", 1, "abt")
    deep = ctx.choice("deep", 2)
    path = s + "." + t if deep else s
    got = (root if q == "lookup" else z).lookup(path if q == "lookup" else "." + path)
    if deep:
        want = [False, False, and_(eq_str(s, nm[0]), eq_str(t, nm[2]))]
    else:
        want = [eq_str(s, nm[0]), eq_str(s, nm[1]), False]
    for c, w in zip(cs, want):
        ctx.check(iff(got is c, w), "lookup gives exactly the component of that name")
    ctx.cover("found" if got is not None else "missing")


def eq_str(a, b):
    return len(a) == len(b) and and_(*[eq(code(a, i), code(b, i)) for i in range(len(a))])


_O = dict(fmt_cut=False)
HARNESSES = [
    Harness(h_tree, "tree", n=4, names=["a", "b"], covers=("duplicate", "chain", "forest"), tiers=("quick",),
            bounds="every tree of 4 components with names a and b", **_O),
    Harness(h_tree, "tree_factory", n=3, names=["a", "ab"], via=True, covers=("duplicate", "chain", "forest"),
            bounds="every tree of 3 components made by the factory", **_O),
    Harness(h_tree, "tree5", n=5, names=["a", "b"], covers=("duplicate", "chain", "forest"), tiers=("thorough",),
            bounds="every tree of 5 components with names a and b", **_O),
    Harness(h_lookup, "lookup", n=3, names=["a", "b"], depth=3, covers=("found", "missing"), tiers=("quick",),
            bounds="every tree of 3 components, every path of up to 3 levels from every component", **_O),
    Harness(h_lookup, "lookup_names", n=2, names=["top", "t", "to"], depth=2, covers=("found", "missing"),
            bounds="every tree of 2 components with names that are prefixes of each other", **_O),
    Harness(h_lookup, "lookup4", n=4, names=["a", "b"], depth=4, covers=("found", "missing"), tiers=("thorough",),
            bounds="every tree of 4 components, every path of up to 4 levels", **_O),
    Harness(h_find, "find", n=2, names=["a", "top"], np=2, covers=("none", "one", "several"), tiers=("quick",),
            bounds="every tree of 2 components, every pattern of up to 2 of 5 characters, with a prefix", **_O),
    Harness(h_find, "find3", n=3, names=["a", "top"], np=3, covers=("none", "one", "several"), tiers=("thorough",),
            bounds="every tree of 3 components, every pattern of up to 3 of 5 characters, with a prefix", **_O),
    Harness(h_walk, "walk", n=3, covers=("resolve", "abort", "flush", "domain", "hier"), tiers=("quick",),
            bounds="every tree of 3 components, all verbosities", **_O),
    Harness(h_walk, "walk4", n=4, covers=("resolve", "abort", "flush", "domain", "hier"), tiers=("thorough",),
            bounds="every tree of 4 components, all verbosities", **_O),
    Harness(h_any_names, "any_names", ln=1, np=2, covers=("distinct", "clash", "found", "missing"),
            bounds="3 components with all one-letter names, all lookups of up to 2 levels, all patterns of up to 2 of 4 characters", **_O),
    Harness(h_names, "names", covers=("rename", "noname", "clone"), bounds="every tree of 2 components", **_O),
]
