from engine import simk, uvmenv  # noqa: F401
from engine.runner import Harness
from engine.symex import and_, eq, iff, implies, ne, not_, or_
from . import reglib as L
from .r05 import kinds, run


def setup():
    uvmenv.setup()
    L.bus_classes()


def wr(pol, cur, v):
    return v if pol == "RW" else cur & (v ^ 0xffffffff)


IDX, DATA, TBL = 0x10, 0x20, 0x100


def model(ctx, n, mapped):
    """index register, data register and n indirectly accessed registers"""
    from uvm.reg.uvm_reg_indirect import UVMRegIndirectData
    b = L.block()
    m = b.create_map(L.uniq("map"), 0, 4, L.little())
    idx, (fi,) = L.reg(b, [(8, 0, "RW")], n_bits=32)
    tbl = []
    pols = []
    for i in range(n):
        pol = ctx.choice("pol%d" % i, ["RW", "W1C"]) if i == 0 else "RW"
        pols.append(pol)
        r, (f,) = L.reg(b, [(32, 0, pol)], n_bits=32)
        tbl.append(r)
    data = UVMRegIndirectData(L.uniq("data"), 32, False)
    data.configure(idx, tbl, b, None)
    data.build()
    if mapped:
        for i, r in enumerate(tbl):
            m.add_reg(r, TBL + 4 * i)
    m.add_reg(idx, IDX)
    m.add_reg(data, DATA)
    b.lock_model()
    return b, m, idx, data, tbl, pols


def h_indirect(ctx, n, steps, mapped=False, faults=True):
    """accesses to an indirect register write its index and then go to the data address; accesses to the data register
    act on the register the index selects; failures are reported and leave everything usable"""
    RD, WR, OK, BAD = kinds()
    b, m, idx, data, tbl, pols = model(ctx, n, mapped)
    hw = [ctx.bits("hw%d" % i, 32) for i in range(n)]
    mir = list(hw)
    for r, v in zip(tbl, hw):
        r.predict(v)
    hwi = 0
    ctx.check(not uvmenv.errors(), "model builds cleanly")
    state = dict(hwi=0, fail=None, seen=[])

    def serve(it):
        j = len(state["seen"])
        state["seen"].append((it.kind, it.addr, it.data))
        it.status = BAD if state["fail"] == j else OK
        if it.addr == IDX:
            if it.kind == WR and it.status == OK:
                state["hwi"] = it.data
        elif it.addr == DATA and it.status == OK:
            k = state["hwi"]
            if it.kind == RD:
                it.data = hw[k] if k < n else 0
            elif k < n:
                hw[k] = wr(pols[k], hw[k], it.data)
        elif it.status != OK and it.kind == RD:
            it.data = 0
    L.bus(m, serve)
    m.set_auto_predict(True)
    m.set_check_on_read(0)

    async def body():
        sel = 0
        broken = False
        for s in range(steps):
            op = ctx.choice("op%d" % s, ["write", "read", "iwrite", "dwrite", "dread"])
            k = ctx.choice("k%d" % s, n)
            v = ctx.bits("v%d" % s, 32)
            nb = {"write": 2, "read": 2}.get(op, 1)
            fail = ctx.choice("fail%d" % s, nb + 1) if faults else nb
            state["fail"], state["seen"] = (fail if fail < nb else None), []
            uvmenv.clear()
            st, out = [], []
            if op == "write":
                await tbl[k].write(st, v)
                sel = k if fail != 0 else sel
            elif op == "read":
                await tbl[k].read(st, out)
                sel = k if fail != 0 else sel
            elif op == "iwrite":
                sel_v = ctx.bits("sel%d" % s, 2)
                await idx.write(st, sel_v)
                if fail != 0:
                    sel = sel_v
            elif op == "dwrite":
                await data.write(st, v)
            else:
                await data.read(st, out)
            seen = state["seen"]
            kind = RD if op in ("read", "dread") else WR
            if op in ("write", "read"):
                ctx.check(len(seen) == min(2, fail + 1), "beats", op=op)
                ctx.check(and_(seen[0][0] == WR, seen[0][1] == IDX, eq(seen[0][2], k)), "index written first", op=op)
                if fail != 0:
                    ctx.check(and_(seen[1][0] == kind, seen[1][1] == DATA), "then the data register accessed", op=op)
            elif op == "iwrite":
                ctx.check(len(seen) == 1 and and_(seen[0][1] == IDX, eq(seen[0][2], sel_v)), "index write")
            else:
                ctx.check(len(seen) == 1 and seen[0][1] == DATA and seen[0][0] == kind, "data access", op=op)
            if kind == WR and op != "iwrite" and (fail == nb or fail == 1):
                ctx.check(eq(seen[-1][2], v), "data written", op=op)
            if fail < nb:
                broken = True
            oob = op in ("dwrite", "dread") and not (sel < n)
            ctx.check(len(st) == 1, "one status")
            if oob:
                ctx.check(broken or len(uvmenv.errors()) > 0, "index out of range reported")
            else:
                ctx.check(st[0] == (BAD if fail < nb else OK), "status", op=op, fail=fail, s=s)
            if kind == RD and fail == nb and not oob:
                ctx.check(eq(out[0], hw[k if op == "read" else sel]), "value read", op=op)
            if not broken:
                for i in range(n):
                    ctx.check(eq(tbl[i].get_mirrored_value(), hw[i]), "mirrors follow the hardware", op=op, i=i)
                    ctx.check(eq(idx.get_mirrored_value(), sel), "index mirror", op=op)
                if sel < n:
                    ctx.check(data.get_indirect_reg() is tbl[sel], "selected register")
            for r in [idx, data] + tbl:
                ctx.check(not r.is_busy(), "nothing stays busy")
    ctx.check(run(ctx, m._drv, body) == "done", "every access completes")


HARNESSES = [
    Harness(h_indirect, n=3, steps=1, hash_mode="const"),
    Harness(h_indirect, name="h_indirect2", n=2, steps=2, hash_mode="const"),
    Harness(h_indirect, name="h_indirect3", n=3, steps=3, hash_mode="const", tiers=("thorough",)),
]
