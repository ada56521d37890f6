"""B15: port connections"""
import cocotb

from engine import simk, uvmenv
from engine.runner import Harness
from engine.symex import eq, or_, and_, lt, gt, ne
from .b05 import truth

_c = {}
_n = [0]
METHODS = {"put": ["put"], "nb_put": ["try_put", "can_put"], "get": ["get"], "nb_get": ["try_get", "can_get"], "peek": ["peek"],
           "nb_peek": ["try_peek", "can_peek"], "transport": ["transport"], "nb_transport": ["nb_transport"]}
KINDS = ["Put", "Get", "Peek", "GetPeek", "Transport", "Master", "Slave"]


def roles(kind, flavour):
    base = {"Put": ["put"], "Get": ["get"], "Peek": ["peek"], "GetPeek": ["get", "peek"], "Transport": ["transport"],
            "Master": ["put", "get", "peek"], "Slave": ["put", "get", "peek"]}[kind]
    r = set()
    if flavour in ("Blocking", ""):
        r |= set(base)
    if flavour in ("NonBlocking", ""):
        r |= {"nb_" + b for b in base}
    if kind in ("Master", "Slave"):
        r.add(kind)
    return r


def setup():
    uvmenv.setup()
    import uvm.tlm1 as t
    from uvm.base.uvm_component import UVMComponent

    class Target(UVMComponent):
        """implements every interface; records the calls"""

        def __init__(self, name, parent):
            super().__init__(name, parent)
            self.calls = []

    def fn(name, is_async):
        async def a(self, *args):
            self.calls.append((name, args))
            if name in ("get", "peek", "transport"):
                args[-1].append(77)

        def s(self, *args):
            self.calls.append((name, args))
            if name in ("try_get", "try_peek", "nb_transport"):
                args[-1].append(77)
            return True
        return a if is_async else s
    for r, ms in METHODS.items():
        for m in ms:
            setattr(Target, m, fn(m, not r.startswith("nb_")))

    def write(self, x):
        self.calls.append(("write", (x,)))
    Target.write = write
    _c.update(t=t, C=UVMComponent, T=Target)
    import uvm.tlm1.uvm_exports as ex
    import uvm.tlm1.uvm_imps as im
    import uvm.tlm1.uvm_ports as po
    _c.update(po=po, ex=ex, im=im)


def cls(mod, kind, flavour, suffix):
    return getattr(_c[mod], "UVM%s%s%s" % (flavour, kind, suffix))


def top():
    _n[0] += 1
    return _c["C"]("top%d" % _n[0], None)


def h_types(ctx, via):
    """any port class with any implementation class: refused unless the implementation provides all
    the port requires; if accepted every method reaches the implementation with its arguments"""
    fl = ("Blocking", "NonBlocking", "")
    pk, pf = ctx.choice("pk", KINDS), ctx.choice("pf", fl)
    ik, jf = ctx.choice("ik", KINDS), ctx.choice("if", fl)
    t = top()
    a, b = _c["C"]("a", t), _c["T"]("b", t)
    port = cls("po", pk, pf, "Port")("p", a)
    if ik in ("Master", "Slave"):
        imp = cls("im", ik, jf, "Imp")("i", b, b, b)
    else:
        imp = cls("im", ik, jf, "Imp")("i", b)
    prov = imp
    if via:
        e = _c["C"]("e", t)
        b2 = _c["T"]("b", e)
        imp = cls("im", ik, jf, "Imp")("i", b2)
        exp = cls("ex", ik, jf, "Export")("x", e)
        exp.connect(imp)
        prov, b = exp, b2
    uvmenv.clear()
    port.connect(prov)
    need, have = roles(pk, pf), roles(ik, jf)
    ok = need <= have
    ctx.check(bool(uvmenv.errors()) == (not ok), "a provider lacking part of the interface is refused, others accepted",
              port=pf + pk, imp=jf + ik, errors=str(uvmenv.errors()))
    port.resolve_bindings()
    ctx.check(port.size() == (1 if ok else 0), "a refused provider is not connected")
    if not ok:
        ctx.cover("refused")
        return
    ctx.check(port.get_if(0) is imp, "the port leads to the implementation")
    got = []

    async def main():
        for r in sorted(need):
            for m in METHODS.get(r, []):
                del b.calls[:]
                out = []
                args = {"put": (5,), "try_put": (5,), "can_put": (), "can_get": (), "can_peek": ()}.get(m)
                if args is None:
                    args = (9, out) if "transport" in m else (out,)
                f = getattr(port, m)(*args)
                if not r.startswith("nb_"):
                    await f
                else:
                    ctx.check(f is True, "the result of the implementation is returned", method=m)
                if r.startswith("nb_") and m.startswith("can"):
                    ctx.check(b.calls == [(m, ())], "the call reaches the implementation", method=m, calls=str(b.calls))
                else:
                    ctx.check(len(b.calls) == 1 and b.calls[0][0] == m and b.calls[0][1][0] is args[0] and
                              b.calls[0][1][-1] is args[-1], "the call reaches the implementation once, with its arguments",
                              method=m, calls=str(b.calls))
                got.append(m)
    ctx.check(simk.run(main()) == "done", "no hang")
    ctx.cover("called")


def h_graph(ctx, analysis):
    """a port connected through parents, exports and directly, in any combination: it reaches every
    implementation it is connected to exactly once; its number is held against the limits"""
    t = top()
    a = _c["C"]("a", t)
    a1 = _c["C"]("a1", a)
    b = _c["C"]("b", t)
    b1, b2, c = _c["T"]("b1", b), _c["T"]("b2", b), _c["T"]("c", t)
    if analysis:
        P, E, Im = _c["t"].UVMAnalysisPort, _c["t"].UVMAnalysisExport, _c["t"].UVMAnalysisImp
        mk = lambda C, n, p: C(n, p)
    else:
        lo, hi = ctx.int("min", 0, 3), ctx.int("max", -1, 2)
        P, E, Im = _c["po"].UVMPutPort, _c["ex"].UVMPutExport, _c["im"].UVMPutImp
        mk = lambda C, n, p: C(n, p, 0, -1) if C is not Im else C(n, p)
    n = {"inner": mk(P, "inner", a1), "outer": mk(P, "outer", a), "exp": mk(E, "exp", b),
         "i1": Im("imp", b1), "i2": Im("imp", b2), "i3": Im("imp", c)}
    if not analysis:
        n["inner"] = _c["po"].UVMPutPort("limited", a1, lo, hi)
    edges = [("inner", "outer"), ("outer", "exp"), ("exp", "i1"), ("exp", "i2"), ("outer", "i3"), ("inner", "i3"), ("inner", "exp")]
    if not analysis:
        edges = edges[:-1]
    E_ = [e for i, e in enumerate(edges) if truth(ctx, ctx.bool("e%d" % i))]
    order = list(E_)
    if ctx.choice("rev", 2):
        order.reverse()
    uvmenv.clear()
    for x, y in order:
        n[x].connect(n[y])
    ctx.check(uvmenv.errors() == [], "legal connections are accepted", got=str(uvmenv.errors()))
    reach = {}

    def go(x):
        if x not in reach:
            r = set([x] if x.startswith("i") and x != "inner" else [])
            for p, q in E_:
                if p == x:
                    r |= go(q)
            reach[x] = r
        return reach[x]
    for x in n:
        go(x)
    first = ctx.choice("first", ("inner", "exp", "outer"))
    others = [n[x] for x in ("outer", "inner", "exp", "i1", "i2", "i3") if x != first]
    uvmenv.clear()
    for p in [n[first]] + others:
        p.resolve_bindings()
    for p in others:
        p.resolve_bindings()
    for x in n:
        ctx.check(n[x].size() == len(reach[x]), "a port has each implementation it leads to, once", port=x,
                  got=n[x].size(), want=str(sorted(reach[x])))
        ctx.check({n[x].get_if(i).get_full_name() for i in range(n[x].size())} == {n[y].get_full_name() for y in reach[x]},
                  "a port has exactly the implementations it leads to", port=x)
    errs = len(uvmenv.errors())
    if analysis:
        ctx.check(errs == 0, "no limits for analysis ports")
        tg = {"i1": b1, "i2": b2, "i3": c}
        for x in ("inner", "outer", "exp"):
            for q in tg.values():
                del q.calls[:]
            item = object()
            n[x].write(item)
            for k, q in tg.items():
                ctx.check(len(q.calls) == (1 if k in reach[x] else 0) and all(d[1][0] is item for d in q.calls),
                          "write calls each connected implementation once and no other", port=x, imp=k, calls=str(q.calls))
        ctx.cover("written")
    else:
        k = len(reach["inner"])
        bad = or_(lt(k, lo), and_(ne(hi, -1), gt(k, hi)))
        want = truth(ctx, bad)
        ctx.check((errs > 0) == want, "too few or too many connections are an error, and nothing else", n=k, lo=lo, hi=hi,
                  errors=str(uvmenv.errors()))
        ctx.cover("limits violated" if want else "within limits")
    ctx.cover("several" if len(reach["inner"]) > 1 else "few")


def h_illegal(ctx):
    """connections in the wrong direction are refused; reads out of range warn"""
    t = top()
    a, b = _c["C"]("a", t), _c["T"]("b", t)
    port, port2 = _c["po"].UVMPutPort("p", a, 0), _c["po"].UVMPutPort("p2", t, 0)
    exp, imp = _c["ex"].UVMPutExport("x", b, 0), _c["im"].UVMPutImp("i", b)
    nodes = {"port": port, "port2": port2, "exp": exp, "imp": imp, "none": None}
    x = ctx.choice("x", ("port", "exp", "imp"))
    y = ctx.choice("y", ("port", "port2", "exp", "imp", "none"))
    uvmenv.clear()
    nodes[x].connect(nodes[y])
    legal = {"port": ("port2", "exp", "imp"), "exp": ("imp",), "imp": ()}[x]
    ctx.check(bool(uvmenv.errors()) == (y not in legal), "connections in the wrong direction are refused", x=x, y=y,
              errors=str(uvmenv.errors()))
    if x != "imp":
        nodes[x].resolve_bindings()
        n = nodes[x].size()
        ctx.check(n == (1 if y in legal and y == "imp" else 0), "a refused connection is not made")
        i = ctx.int("i", -1, 2)
        r = nodes[x].get_if(i)
        ctx.check((r is imp) if (n == 1 and truth(ctx, eq(i, 0))) else r is None, "get_if gives an interface within range only")
    ctx.cover("tried")


HARNESSES = [
    Harness(h_types, "types", via=False, covers=("called", "refused"), str_mode="conc", fmt_cut=False,
            bounds="all 21 port classes with all 21 implementation classes"),
    Harness(h_graph, "limits", analysis=False, covers=("limits violated", "within limits", "several", "few"), str_mode="conc",
            fmt_cut=False, bounds="a put port of 6 connections in any combination, minimum 0..3, maximum -1..2"),
    Harness(h_graph, "analysis", analysis=True, covers=("written", "several", "few"), str_mode="conc", fmt_cut=False,
            bounds="an analysis port of 7 connections in any combination"),
    Harness(h_illegal, "illegal", covers=("tried",), str_mode="conc", fmt_cut=False, bounds="3 x 5 pairs of port, export, imp, none"),
]
