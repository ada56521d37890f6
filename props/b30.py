"""B30: TLM2 sockets"""
from engine import simk, uvmenv
from engine.runner import Harness
from engine.symex import eq

_c = {}
_n = [0]
CHAINS = [(), ("i",), ("t",), ("i", "i"), ("i", "t"), ("t", "t"), ("i", "i", "t"), ("i", "t", "t"), ("i", "i", "t", "t")]


def setup():
    uvmenv.setup()
    from uvm.base.uvm_component import UVMComponent
    from uvm.tlm2 import uvm_tlm2_sockets as s, uvm_tlm2_ports as p, uvm_tlm2_exports as e, uvm_tlm2_imps as i
    from uvm.tlm2.uvm_tlm2_ifs import uvm_tlm_sync_e, uvm_tlm_phase_e

    class End(UVMComponent):
        """an initiator or a target: notes what is called"""

        def __init__(self, name, parent):
            super().__init__(name, parent)
            self.calls, self.answer, self.wait = [], None, 1

        def nb_transport_fw(self, t, p, delay):
            self.calls.append(("fw", t, p, delay))
            t.data = t.data ^ 0x5A
            return self.answer

        def nb_transport_bw(self, t, p, delay):
            self.calls.append(("bw", t, p, delay))
            t.data = t.data ^ 0xA5
            return self.answer

        async def b_transport(self, t, delay):
            self.calls.append(("b", t, delay))
            await simk.delay(self.wait)
            t.data = t.data ^ 0x5A
    _c.update(C=UVMComponent, E=End, s=s, p=p, e=e, i=i, sync=list(uvm_tlm_sync_e), ph=list(uvm_tlm_phase_e))


class Tr:
    def __init__(self, data):
        self.data = data


def go(ctx, coro):
    ctx.check(simk.run(coro) == "done", "completes")


def h_chain(ctx, kind, longest, rival=False):
    """an initiator and a target with any passthrough sockets between, connected in any order"""
    s = _c["s"]
    top = uvm_top("top")
    chain = ctx.choice("between", [c for c in CHAINS if len(c) <= longest])
    ni, nt = chain.count("i"), chain.count("t")
    other = ctx.choice("own_imp", 2)
    pair = []
    for k in range(2 if rival else 1):
        up = [top]
        for x in range(ni):
            up.append(_c["C"]("wi%d_%d" % (k, x), up[-1]))
        ini = _c["E"]("ini%d" % k, up[-1])
        dn = [top]
        for x in range(nt):
            dn.append(_c["C"]("wt%d_%d" % (k, x), dn[-1]))
        tgt = _c["E"]("tgt%d" % k, dn[-1])
        iimp = _c["E"]("iimp%d" % k, up[-1]) if other else ini
        timp = _c["E"]("timp%d" % k, dn[-1]) if other else tgt
        arg = lambda x: (x,) if other else ()
        P = "UVMTLM%s" % kind
        if kind == "Nb":
            a = s.UVMTLMNbInitiatorSocket("sock", ini, *arg(iimp))
        else:
            a = s.UVMTLMBInitiatorSocket("sock", ini)
        b = getattr(s, P + "TargetSocket")("sock", tgt, *arg(timp))
        path = [a]
        path += [getattr(s, P + "PassthroughInitiatorSocket")("pi", c) for c in reversed(up[1:])]
        path += [getattr(s, P + "PassthroughTargetSocket")("pt", c) for c in dn[1:]]
        path.append(b)
        pair.append((a, b, iimp, timp, path, {ini, tgt} - {iimp, timp}))
    uvmenv.clear()
    links = [(p[i], p[i + 1]) for x in pair for p in [x[4]] for i in range(len(p) - 1)]
    o = ctx.choice("order", ["forth", "back", "odd"])
    for x, y in {"forth": links, "back": links[::-1], "odd": links[1::2] + links[::2]}[o]:
        x.connect(y)
    ctx.check(not uvmenv.errors(), "legal connections are accepted", got=str(uvmenv.errors()))
    ports = []

    def walk(c):
        kids = []
        c.get_children(kids)
        for k in kids:
            ports.append(k) if hasattr(k, "resolve_bindings") and not isinstance(k, _c["E"]) else None
            walk(k)
    walk(top)
    if ctx.choice("resolve", 2):
        ports.reverse()
    for p in ports:
        p.resolve_bindings()
    ctx.check(not uvmenv.errors(), "and complete", got=str(uvmenv.errors()))
    ends = [x for p in pair for x in p[2:4]]
    for k, (a, b, iimp, timp, path, idle) in enumerate(pair):
        tr = Tr(ctx.bits("data%d" % k, 8))
        d0 = tr.data
        delay = object()
        ops = ["b"] if kind == "B" else ["fw", "bw", "bw2", "fw2"]
        where = ctx.choice("from%d" % k, len(path) - 1 if kind == "B" or len(path) == 2 else len(path))
        for op in ops:
            for x in ends:
                x.calls.clear()
            at = path[where] if op.endswith("2") else a if op != "bw" else b
            if op == "b":
                at = path[where]
                timp.wait = ctx.time("service%d" % k, 1, 50)

                async def run():
                    t0 = simk.now()
                    await at.b_transport(tr, delay)
                    ctx.check(eq(simk.now(), t0 + timp.wait), "returns when the target is done")
                go(ctx, run())
                want, who, mask = ("b", tr, delay), timp, 0x5A
            else:
                fw = op.startswith("fw")
                if at is (b if fw else a):
                    continue
                who = timp if fw else iimp
                who.answer = _c["sync"][ctx.choice("answer_%s%d" % (op[:2], k), 3) if not op.endswith("2") else 1]
                ph = [_c["ph"][1 if fw else 3]]
                r = (at.nb_transport_fw if fw else at.nb_transport_bw)(tr, ph, delay)
                ctx.check(r is who.answer, "the answer of the other side is returned", op=op)
                want, mask = (op[:2], tr, ph, delay), 0x5A if fw else 0xA5
            ctx.check(len(who.calls) == 1 and len(who.calls[0]) == len(want) and all(x is y for x, y in zip(who.calls[0][1:], want[1:]))
                      and who.calls[0][0] == want[0], "the other side is called once with the same things", op=op,
                      calls=str([c[0] for c in who.calls]))
            ctx.check(not any(x.calls for x in ends if x is not who) and not any(x.calls for x in idle), "and no one else")
            ctx.check(eq(tr.data, d0 ^ mask), "what it changes is seen")
            d0 = tr.data
        for x in ends:
            x.calls.clear()
        uvmenv.clear()
        if kind == "B":
            async def none():
                await a.b_transport(tr, None)
            go(ctx, none())
            bad = 1
        else:
            r = a.nb_transport_fw(tr, [0], None), b.nb_transport_bw(tr, [0], None)
            ctx.check(r == (_c["sync"][2],) * 2, "completed")
            bad = 2
        ctx.check([x[1] for x in uvmenv.reports()] == ["UVM/TLM/NULLDELAY"] * bad and not any(x.calls for x in ends),
                  "a call without delay is an error and goes nowhere", got=str(uvmenv.reports()))
    if len(chain) == longest:
        ctx.cover("longest")


def uvm_top(name):
    _n[0] += 1
    return _c["C"]("%s%d" % (name, _n[0]), None)


def h_plain(ctx):
    """the plain ports and exports of each interface"""
    top = uvm_top("plain")
    which = ctx.choice("interface", ["BTransport", "NbTransportFw", "NbTransportBw"])
    n_exp = ctx.choice("exports", 3)
    n_port = ctx.choice("ports", [1, 2])
    up = [top]
    for i in range(n_port):
        up.append(_c["C"]("u%d" % i, up[-1]))
    dn = [top]
    for i in range(n_exp):
        dn.append(_c["C"]("d%d" % i, dn[-1]))
    t = _c["E"]("t", dn[-1])
    ps = [getattr(_c["p"], "UVMTLM%sPort" % which)("p", c) for c in reversed(up[1:])]
    es = [getattr(_c["e"], "UVMTLM%sExport" % which)("e", c) for c in dn[1:]]
    imp = getattr(_c["i"], "UVMTLM%sImp" % which)("imp", t)
    path = ps + es + [imp]
    other = ctx.choice("target", ["BTransport", "NbTransportFw", "NbTransportBw"])
    uvmenv.clear()
    links = list(zip(path, path[1:]))
    if other != which:
        bad = getattr(_c["i"], "UVMTLM%sImp" % other)("imp2", t)
        path[0].connect(bad)
        ctx.check(len(uvmenv.errors()) == 1, "another interface is refused")
        path[0].resolve_bindings()
        ctx.check(path[0].size() == 0, "and not connected")
        ctx.cover("refused")
        return
    for x, y in links if ctx.choice("order", 2) else links[::-1]:
        x.connect(y)
    for x in path:
        x.resolve_bindings()
    ctx.check(not uvmenv.errors(), "accepted", got=str(uvmenv.errors()))
    t.answer = _c["sync"][ctx.choice("answer", 3)]
    t.wait = ctx.time("service", 1, 50)
    tr, ph, delay = Tr(ctx.bits("data", 8)), [_c["ph"][ctx.choice("phase", 5)]], object()
    d0 = tr.data
    x = path[ctx.choice("at", len(path))]
    if which == "BTransport":
        async def run():
            await x.b_transport(tr, delay)
            ctx.check(eq(simk.now(), t.wait), "returns when the target is done")
        go(ctx, run())
        want = ("b", tr, delay)
    else:
        f = which[-2:].lower()
        r = getattr(x, "nb_transport_" + f)(tr, ph, delay)
        ctx.check(r is t.answer, "the answer of the other side is returned")
        want = (f, tr, ph, delay)
    ctx.check(len(t.calls) == 1 and all(a is b for a, b in zip(t.calls[0][1:], want[1:])) and t.calls[0][0] == want[0],
              "the implementation is called once with the same things")
    ctx.check(eq(tr.data, d0 ^ (0xA5 if want[0] == "bw" else 0x5A)), "what it changes is seen")
    ctx.cover("called")


K = dict(str_mode="conc", fmt_cut=False)
B = "1 initiator and target with up to %d passthrough sockets of either kind, connected and resolved in 3 x 2 orders; any data, phase, answer and time"
HARNESSES = [
    Harness(h_chain, "blocking", kind="B", longest=4, covers=("longest",), bounds=B % 4, **K),
    Harness(h_chain, "nonblocking", kind="Nb", longest=4, covers=("longest",), bounds=B % 4, **K),
    Harness(h_chain, "two", kind="Nb", longest=2, rival=True, covers=("longest",), tiers=("thorough",), bounds="two such pairs, up to 2 passthrough sockets", **K),
    Harness(h_plain, "plain", covers=("called", "refused"), bounds="up to 2 ports and 2 exports of each of 3 interfaces", **K),
]
