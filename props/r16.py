"""R16: HDL paths and the default back door"""
from engine import simk, uvmenv
from engine.runner import Harness
from engine.symex import and_, eq, ne, not_, or_
from . import reglib as L

_c = {}


def setup():
    uvmenv.setup()
    from uvm.dpi.uvm_hdl import uvm_hdl
    from uvm.reg.uvm_reg_block import UVMRegBlock
    from uvm.reg.uvm_reg_file import UVMRegFile
    from uvm.reg.uvm_reg import UVMReg
    from uvm.reg.uvm_mem import UVMMem
    from uvm.reg.uvm_reg_item import UVMRegItem
    from uvm.reg.uvm_reg_model import UVM_BACKDOOR, UVM_IS_OK, UVM_NOT_OK
    _c.update(I=UVMRegItem, hdl=uvm_hdl, B=UVMRegBlock, F=UVMRegFile, R=UVMReg, M=UVMMem, BD=UVM_BACKDOOR, OK=UVM_IS_OK, BAD=UVM_NOT_OK)


class Node:
    """an object of the design: named parts below it"""

    def __init__(self, **kids):
        self.__dict__["kids"] = kids

    def __getattr__(self, n):
        try:
            return self.__dict__["kids"][n]
        except KeyError:
            raise AttributeError(n)

    def __setattr__(self, n, v):
        raise RuntimeError("value of a scope")

    def __int__(self):
        raise RuntimeError("value of a scope")


class Leaf:
    def __init__(self, v):
        self.__dict__.update(v=v, n=0)

    @property
    def value(self):
        return self.v

    @value.setter
    def value(self, v):
        self.__dict__["v"] = v
        self.__dict__["n"] += 1

    def _symint(self):
        return self.v

    def __int__(self):
        return int(self.v)

    def __index__(self):
        return int(self.v)


class Array:
    """a memory as Verilator shows it"""

    def __init__(self, cells):
        self.cells = cells

    def __getitem__(self, i):
        return self.cells[i]


def dut(sim, top):
    import cocotb
    cocotb.SIM_NAME = sim
    _c["hdl"].set_dut(top)


def expand(levels, kind, sep):
    """levels: (paths per kind, root per kind), outermost first -> (full paths, error?)"""
    full, err = [], False
    for paths, root in levels:
        if kind in root:
            full = [root[kind]] if root[kind] != "" else []
            err = False
            continue
        if kind not in paths:
            full, err = [], True
            continue
        new = []
        for p in paths[kind]:
            if not full:
                new += [p] if p != "" else []
            else:
                new += [f if p == "" else f + sep + p for f in full]
        full = new
    return full, err


def h_paths(ctx, files, items):
    """paths of blocks, register files, registers and memories, at each level and for each kind"""
    names = [ctx.string("name%d" % i, 1, "abc") for i in range(3)]
    sep = ctx.choice("sep", [".", "/"]) if items else "."
    kinds = ["RTL", "GATE"]
    specs = [[""], [names[0]], [names[0], names[1]]]
    top, sub = _c["B"]("top"), _c["B"]("sub")
    levels = []
    top.configure(None, "")
    sub.configure(top, "")
    objs = [top, sub] + [_c["F"]("rf%d" % i) for i in range(files)]
    for i in range(files):
        objs[2 + i].configure(sub, objs[1 + i] if i else None, "")
    kind = ctx.choice("kind", kinds + [""])
    dflt = ctx.choice("default", kinds)
    inner = objs[-1]
    inner.set_default_hdl_path(dflt)
    use = kind or dflt
    for i, o in enumerate(objs):
        have, root = {"RTL": [""]}, {}
        sp = ctx.choice("spec%d" % i, [0, 2] if items else [None, 0, 1, 2])
        for p in specs[sp] if sp is not None else []:
            o.add_hdl_path(p, use)
            have.setdefault(use, []).append(p)
        if i < 2 and not items and ctx.choice("root%d" % i, [False, True]):
            root[use] = ctx.choice("rootpath%d" % i, ["", "dut"])
            o.set_hdl_path_root(root[use], use)
        if i == len(objs) - 1:
            ctx.check((not o.has_hdl_path(use)) == (use not in have), "has a path of that kind")
            if files:
                ctx.check(o.get_default_hdl_path() == dflt, "the default kind")
        levels.append((have, root))
    uvmenv.clear()
    full, err = expand(levels, use, sep)
    got = []
    inner.get_full_hdl_path(got, kind, sep)
    ctx.check(len(got) == len(full) and and_(True, *[eq(a, b) for a, b in zip(got, full)]), "full paths", full=full, got=got)
    ctx.check(not err or len(uvmenv.errors()) >= 1, "an error if the kind is not there")
    ctx.check(err or full == [] or len(full) > 0 and (not uvmenv.errors() or any(use not in h and use not in r for h, r in levels)), "no error otherwise")
    if not items:
        return
    what = ctx.choice("of", ["reg"] if files else ["reg", "mem"])
    if what == "reg":
        it = _c["R"]("r", 8)
        it.configure(sub, inner if files else None, "")
    else:
        it = _c["M"]("m", 4, 8)
        it.configure(sub, "")
    lay = ctx.choice("layout", [None, 0, 1, 2, 3])
    concats = [] if lay is None else [[[(names[2], -1, -1)]], [[("hi", 4, 4), ("lo", 0, 4)]],
                                      [[(names[2], -1, -1)], [("lo", 0, 4), ("hi", 4, 4)]], [[("", -1, -1)]]][lay]
    for c in concats:
        for j, (p, o, s) in enumerate(c):
            it.add_hdl_path_slice(p, o, s, j == 0, use)
    ctx.check(bool(it.has_hdl_path(kind)) == bool(concats), "the register or memory has a path")
    uvmenv.clear()
    got = []
    it.get_full_hdl_path(got, kind, sep)
    if not concats:
        ctx.check(not got and len(uvmenv.errors()) == 1, "no path: an error")
        return
    exp = [[((f if p == "" else f + sep + p), o, s) for p, o, s in c] for c in concats for f in full]
    ctx.check(len(got) == len(exp), "one concatenation for each path and each path of the block", n=len(got), e=len(exp))
    for g, e in zip(got, exp):
        ctx.check(len(g.slices) == len(e), "its slices")
        for s, x in zip(g.slices, e):
            ctx.check(and_(eq(s.path, x[0]), (s.offset, s.size) == x[1:]), "a slice")


def layouts(k, w):
    whole, split = [("r", -1, -1)], [("hi", k, w - k), ("lo", 0, k)]
    three = [("c", w - 1, 1), ("b", w - 3, 2), ("a", 0, w - 3)]
    return {"whole": [whole], "split": [split], "twice": [whole, [("r2", -1, -1)]], "both": [split, [("r2", -1, -1)]], "three": [three]}


def design(ctx, lay, w=8, miss=None):
    """leaves for the slices of a layout, with any values; returns (leaves, value in each path)"""
    leaves, vals = {}, []
    for c in lay:
        v = 0
        for p, o, s in c:
            x = ctx.bits("hw_" + p, w if o < 0 else s)
            leaves[p] = Leaf(x)
            v = x if o < 0 else v | x << o
        vals.append(v)
    if miss is not None:
        leaves.pop(miss)
    return leaves, vals


def h_reg(ctx, broken, w):
    """back-door writes, reads and checks of a register whose bits lie anywhere in the design"""
    k = ctx.choice("at", [1, w - 1])
    name = ctx.choice("layout", list(layouts(k, w)))
    lay = layouts(k, w)[name]
    parts = [p for c in lay for p, o, s in c]
    miss = ctx.choice("missing", parts) if broken else None
    leaves, vals = design(ctx, lay, w, miss)
    root = ctx.choice("root", ["dut", "dut.core"])
    dut("Icarus Verilog", Node(core=Node(u=Node(**leaves)), u=Node(**leaves)))
    b = _c["B"]("top")
    b.configure(None, "")
    b.set_hdl_path_root(root)
    sub = _c["B"]("sub")
    sub.configure(b, "u")
    r = _c["R"]("r", w)
    r.configure(sub)
    from uvm.reg.uvm_reg_field import UVMRegField
    pol = ctx.choice("policy", ["RW", "RO", "W1C", "RC", "WO"] if not broken else ["RW"])
    f = UVMRegField("f")
    f.configure(r, w, 0, pol, False, 0, True, True, False)
    for c in lay:
        for j, (p, o, s) in enumerate(c):
            r.add_hdl_path_slice(p, o, s, j == 0)
    m = b.create_map("m", 0, 4, L.little())
    sm = sub.create_map("sm", 0, 4, L.little())
    m.add_submap(sm, 0)
    sm.add_reg(r, 0)
    b.lock_model()
    f.predict(vals[0])
    uvmenv.clear()
    op = ctx.choice("op", ["write", "read", "poke", "peek"])
    v = ctx.bits("v", w)
    st, out = [], []

    async def body():
        if op in ("poke", "peek"):
            rw = _c["I"]("item")
            rw.value = [v]
            rw.path = _c["BD"]
            x = r.backdoor_write(rw) if op == "poke" else r.backdoor_read(rw)
            if x is not None:
                await x
            st.append(rw.status)
            out.append(rw.value[0])
        elif op == "write":
            await r.write(st, v, path=_c["BD"])
        else:
            await r.read(st, out, path=_c["BD"])
    ctx.check(simk.run(body()) == "done", "completes")
    ctx.check(len(st) == 1, "one status")
    after = []
    for c in lay:
        x = 0
        for p, o, s in c:
            if p != miss:
                x = leaves[p].v if o < 0 else x | leaves[p].v << o
        after.append(x)
    if miss is not None:
        ctx.check(st[0] == _c["BAD"], "a part of it is not there: not OK")
        ctx.cover("missing")
        return
    if op != "poke" and len(vals) > 1 and not ctx.branch(eq(vals[0], vals[1])) if hasattr(ctx, "branch") else op != "poke" and len(vals) > 1 and vals[0] != vals[1]:
        ctx.check(st[0] == _c["BAD"] and len(uvmenv.errors()) == 1, "copies with different values: an error")
        ctx.check(and_(*[eq(a, o) for a, o in zip(after, vals)]), "and nothing changed")
        ctx.cover("different")
        return
    ctx.check(st[0] == _c["OK"] and not uvmenv.errors(), "status", e=str(uvmenv.errors()))
    if op in ("write", "poke"):
        exp = v if op == "poke" else L.hw_write(pol, vals[0], v, (1 << w) - 1, False)
        ctx.check(and_(*[eq(a, exp) for a in after]), "each copy has the value", pol=pol)
        ctx.check(op == "poke" or eq(f.get_mirrored_value(), exp), "the mirror too")
    else:
        rv, new = (vals[0],) * 2 if op == "peek" else L.hw_read(pol, vals[0], (1 << w) - 1)
        ctx.check(eq(out[0], 0 if rv is None else rv), "the value read")
        ctx.check(and_(*[eq(a, new) for a in after]), "the effect of reading", pol=pol)


def h_mem(ctx, n):
    """back-door accesses of any kind to any location of a memory"""
    k = ctx.choice("at", [3, 4])
    name = ctx.choice("layout", ["whole", "split", "twice"])
    lay = layouts(k, 8)[name]
    sim = ctx.choice("sim", ["Verilator", "Icarus Verilog"])
    size, cells = 4, {}
    for c in lay:
        for p, o, s in c:
            cells[p] = [Leaf(ctx.bits("hw_%s%d" % (p, i), 8 if o < 0 else s)) for i in range(size)]
    old = {p: [x.v for x in xs] for p, xs in cells.items()}
    kids = {p: Array(xs) for p, xs in cells.items()} if sim == "Verilator" else \
        {"%s[%d]" % (p, i): x for p, xs in cells.items() for i, x in enumerate(xs)}
    dut(sim, Node(core=Node(**kids)))
    acc = ctx.choice("access", ["RW", "RO"])
    b = _c["B"]("top")
    b.configure(None, "core")
    m = _c["M"]("m", size, 8, acc)
    m.configure(b)
    for c in lay:
        for j, (p, o, s) in enumerate(c):
            m.add_hdl_path_slice(p, o, s, j == 0)
    mp = b.create_map("map", 0, 4, L.little())
    mp.add_mem(m, 0)
    b.lock_model()
    off = ctx.choice("offset", range(size + 1))
    op = ctx.choice("op", ["write", "read", "poke", "peek", "burst_write", "burst_read"])
    num = n if op.startswith("burst") else 1
    uvmenv.clear()
    vs = [ctx.bits("v%d" % i, 8) for i in range(num)] if op in ("write", "poke", "burst_write") else None
    st, out = [], []

    async def body():
        if op == "write":
            await m.write(st, off, vs[0], path=_c["BD"])
        elif op == "read":
            await m.read(st, off, out, path=_c["BD"])
        elif op == "poke":
            await m.poke(st, off, vs[0])
        elif op == "peek":
            await m.peek(st, off, out)
        elif op == "burst_write":
            await m.burst_write(st, off, list(vs), path=_c["BD"])
        else:
            out.extend([0] * num)
            await m.burst_read(st, off, out, path=_c["BD"])
    ctx.check(simk.run(body()) == "done", "completes")
    ctx.check(len(st) == 1, "one status", st=str(st))

    def whole(i, vals):
        r = []
        for c in lay:
            x = 0
            for p, o, s in c:
                x = vals[p][i] if o < 0 else x | vals[p][i] << o
            r.append(x)
        return r
    new = {p: [x.v for x in xs] for p, xs in cells.items()}
    here = range(off, off + num)
    for i in range(size):
        if vs is None or i not in here:
            ctx.check(and_(*[eq(a, o) for a, o in zip(whole(i, new), whole(i, old))]), "other locations stay")
    if off + num > size:
        if off < size and acc == "RO" and vs is not None:
            return  # nothing to do
        ctx.check(st[0] == _c["BAD"], "outside of the memory: not OK")
        ctx.cover("outside")
        return
    if vs is not None:
        keep = acc == "RO" and op != "poke"
        ctx.check(st[0] == _c["OK"], "status")
        for j, i in enumerate(here):
            ctx.check(and_(*[eq(a, o if keep else vs[j]) for a, o in zip(whole(i, new), whole(i, old))]), "written there, if it may be")
        return
    same = and_(True, *[eq(whole(i, old)[0], x) for i in here for x in whole(i, old)])
    if ctx.branch(same) if hasattr(ctx, "branch") else bool(same):
        ctx.check(st[0] == _c["OK"], "status")
        got = out if num == 1 else out[-num:]
        ctx.check(len(out) >= num and and_(*[eq(g, whole(i, old)[0]) for g, i in zip(got, here)]), "the values there", out=str(out))
    else:
        ctx.check(st[0] == _c["BAD"] and len(uvmenv.errors()) >= 1, "copies with different values: an error")
        ctx.cover("different")


HARNESSES = [
    Harness(h_paths, "paths", files=0, items=False, bounds="two blocks; 0..2 paths each, root paths, two kinds, default kind; any 1-character names"),
    Harness(h_paths, "paths_rf", files=1, items=False, bounds="same, and a register file"),
    Harness(h_paths, "paths_rf2", files=2, items=False, tiers=("thorough",), bounds="same, and two nested register files"),
    Harness(h_paths, "items", files=0, items=True, bounds="registers and memories in 5 layouts in a block of one or two paths; any 1-character names"),
    Harness(h_paths, "items_rf", files=1, items=True, bounds="registers in 5 layouts in a register file"),
    Harness(h_reg, "reg", broken=False, w=4, covers=("different",), bounds="4-bit register in 5 layouts (whole, two or three slices, copies), any values, 5 policies, write and read"),
    Harness(h_reg, "reg_missing", broken=True, w=4, covers=("missing",), bounds="any one of the parts missing in the design"),
    Harness(h_reg, "reg7", broken=False, w=7, tiers=("thorough",), covers=("different",), bounds="7-bit register"),
    Harness(h_mem, "mem", n=2, covers=("outside", "different"), bounds="4-location memory, 3 layouts, any values, any offset, 6 kinds of access, two simulators"),
]
