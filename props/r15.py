"""R15: the structure of a register model"""
from engine import uvmenv
from engine.runner import Harness
from engine.symex import and_, eq, gt, iff, le, lt, not_, or_
from . import reglib as L
from .b05 import truth


def setup():
    uvmenv.setup()


def mem(blk, name, size=16, n_bits=32):
    from uvm.reg.uvm_mem import UVMMem
    m = UVMMem(name, size, n_bits)
    m.configure(blk)
    return m


def blk(name, parent):
    from uvm.reg.uvm_reg_block import UVMRegBlock
    b = UVMRegBlock(name)
    b.configure(parent, "")
    return b


def same(a, b):
    return len(a) == len(b) and all(x is y for x, y in zip(a, b))


class T:
    """a block of the reference tree"""

    def __init__(self, b, up):
        self.b, self.up, self.kids, self.regs, self.mems = b, up, [], [], []

    def full(self):
        n = self.b.get_name()
        return n if self.up is None else self.up.full() + "." + n

    def blocks(self):
        return [x for k in self.kids for x in [k.b] + k.blocks()]

    def all(self, what):
        return getattr(self, what) + [x for k in self.kids for x in k.all(what)]

    def find(self, name):
        for r in self.all("regs"):
            if r.get_name() == name:
                return r
        return None


def forest(ctx, n, roots=True):
    from uvm.reg.uvm_reg_block import UVMRegBlock
    UVMRegBlock.m_roots.clear()
    ts = []
    for i in range(n):
        p = ctx.choice("parent%d" % i, i + 1 if roots or i == 0 else i)
        up = ts[p] if p < i else None
        t = T(blk("b%d" % i, up.b if up else None), up)
        if up:
            up.kids.append(t)
        ts.append(t)
    return ts


def h_tree(ctx, n, regs, mems):
    """registers and memories in any blocks of any forest, under names that may be the same"""
    from uvm.reg.uvm_reg_block import UVMRegBlock
    from uvm.reg.uvm_reg_model import UVM_NO_HIER
    ts = forest(ctx, n)
    for i in range(regs):
        t = ts[ctx.choice("in%d" % i, n)]
        r, _ = L.reg(t.b, [(8, 0, "RW")], name=ctx.choice("name%d" % i, ["x", "y"]))
        t.regs.append(r)
    for i in range(mems):
        t = ts[ctx.choice("mem_in%d" % i, n)]
        t.mems.append(mem(t.b, "m%d" % i))
    ctx.check(not uvmenv.reports(), "nothing reported while building", r=str(uvmenv.reports()))
    roots = []
    ts[0].b.get_root_blocks(roots)
    ctx.check(same(roots, [t.b for t in ts if t.up is None]), "root blocks")
    if ctx.bool("locked"):
        for t in ts:
            if t.up is None:
                t.b.lock_model()
        ctx.check(all(t.b.is_locked() for t in ts), "all locked")
        ctx.check(not uvmenv.errors(), "no error locking")
    for t in ts:
        ctx.check(t.b.get_full_name() == t.full() and t.b.get_parent() is (t.up.b if t.up else None), "block name and parent")
        for what, get in (("regs", t.b.get_registers), ("mems", t.b.get_memories)):
            a, o = [], []
            get(a)
            get(o, UVM_NO_HIER)
            ctx.check(same(a, t.all(what)), "all below, own first, block by block", what=what)
            ctx.check(same(o, getattr(t, what)), "own only", what=what)
        a, o = [], []
        t.b.get_blocks(a)
        t.b.get_blocks(o, UVM_NO_HIER)
        ctx.check(same(a, t.blocks()) and same(o, [k.b for k in t.kids]), "sub-blocks")
        for x in t.regs + t.mems:
            ctx.check(x.get_full_name() == t.full() + "." + x.get_name(), "full name")
            ctx.check(x.get_parent() is t.b and x.get_block() is t.b, "parent")
        for name in ("x", "y", "z"):
            uvmenv.clear()
            exp = t.find(name)
            ctx.check(t.b.get_reg_by_name(name) is exp, "register of that name", name=name)
            ctx.check(len(uvmenv.reports(rid="RegModel")) == (exp is None), "warned when there is none")


def h_locked(ctx, n):
    """a locked model is not changed, and what is registered already is not registered again"""
    from uvm.reg.uvm_reg_field import UVMRegField
    from uvm.reg.uvm_reg_map import UVMRegMap
    from uvm.reg.uvm_reg import UVMReg
    from uvm.reg.uvm_mem import UVMMem
    from uvm.reg.uvm_reg_block import UVMRegBlock
    ts = forest(ctx, n, roots=False)
    x = [L.reg(t.b, [(8, 0, "RW")])[0] for t in ts]
    y = [mem(t.b, "m") for t in ts]
    z = [t.b.create_map("map", 0, 4, L.little()) for t in ts]
    j = ctx.choice("lock", n + 1)
    if j < n:
        ts[j].b.lock_model()
    t = ts[k := ctx.choice("change", n)]
    up, locked = t, False
    while up is not None:
        locked = locked or (j < n and up is ts[j])
        up = up.up
    ctx.check(truth(ctx, t.b.is_locked()) == locked, "locked as its blocks are")
    uvmenv.clear()
    again = ctx.bool("again")
    op = ctx.choice("op", ["reg", "mem", "block", "map", "create_map", "field"])

    def see():
        r, m, b, p = [], [], [], []
        t.b.get_registers(r, 0)
        t.b.get_memories(m, 0)
        t.b.get_blocks(b, 0)
        t.b.get_maps(p)
        return [r, m, b, p, x[k].get_fields([])]
    from uvm.reg.uvm_reg_model import UVM_NO_HIER
    assert UVM_NO_HIER == 0
    old = see()
    i = ["reg", "mem", "block", "map", "create_map", "field"].index(op)
    new, ok = None, not locked and not (again and op not in ("create_map", "field"))
    if op == "reg":
        new = x[k] if again else UVMReg("new", 32)
        t.b.add_reg(new)
    elif op == "mem":
        new = y[k] if again else UVMMem("new", 4, 32)
        t.b.add_mem(new)
    elif op == "block":
        if again and not t.kids:
            return
        new = t.kids[0].b if again else UVMRegBlock("new")
        t.b.add_block(new)
    elif op == "map":
        new = z[k] if again else UVMRegMap("new")
        t.b.add_map(new)
    elif op == "create_map":
        new = t.b.create_map("new", 0, 4, L.little())
        ctx.check((new is None) == locked, "no map made in a locked block")
        i = 3
    else:
        f = UVMRegField("new")
        f.configure(x[k], 8, 8, "RW", False, 0, False, False, False)
        new, i = f, 4
    exp = [q[:] for q in old]
    if ok:
        exp[i].append(new)
    ctx.check(all(same(a, b) for a, b in zip(see(), exp)), "changed only if it may be", op=op, again=again, locked=locked)
    ctx.check((not uvmenv.errors()) == ok, "an error exactly if not", op=op, again=again, locked=locked, e=str(uvmenv.errors()))
    ctx.check(t.b.get_default_map() is z[k], "default map is the first")
    ctx.cover("locked" if locked else "open")


def h_fields(ctx, n):
    """fields of any place and size: listed from the least significant up, and reported when they overlap or do not fit"""
    from uvm.reg.uvm_reg import UVMReg
    from uvm.reg.uvm_reg_field import UVMRegField
    b = blk("b", None)
    nb = ctx.choice("n_bits", [20, 32])
    r = UVMReg("r", nb)
    r.configure(b)
    fs, pos = [], []
    names = []
    for i in range(n):
        lsb, sz = ctx.int("lsb%d" % i, 0, 31), ctx.int("size%d" % i, 1, 16)
        uvmenv.clear()
        bad = or_(False, *[and_(lt(lsb, p + s), lt(p, lsb + sz)) for p, s in pos])
        used = sz
        for p, s in pos:
            used = used + s
        nm = ctx.choice("fname%d" % i, ["f", "g"]) if i < 2 else "f"
        f = UVMRegField(nm)
        f.configure(r, sz, lsb, "RW", False, 0, True, True, False)
        over = [m for m in uvmenv.reports(rid="RegModel") if "overlaps" in str(m)]
        use = [m for m in uvmenv.reports(rid="RegModel") if "use more bits" in str(m)]
        ctx.check(iff(len(over) > 0, bad), "overlap reported when there is one")
        ctx.check(iff(len(use) > 0, gt(used, nb)), "too many bits reported")
        names.append(nm)
        fs.append(f)
        pos.append((lsb, sz))
        ctx.assume(not_(bad))
        ctx.check(and_(eq(f.get_lsb_pos(), lsb), eq(f.get_n_bits(), sz)), "where it was put")
        ctx.check(f.get_parent() is r and f.get_full_name() == "b.r." + nm, "parent and name")
    got = r.get_fields([])
    ctx.check(len(got) == n and all(any(x is y for y in got) for x in fs), "each once")
    at = [next(p for f, p in zip(fs, pos) if f is g) for g in got]
    ctx.check(and_(True, *[lt(at[i][0], at[i + 1][0]) for i in range(n - 1)]), "in order of position")
    uvmenv.clear()
    for nm in ("f", "g", "h"):
        exp = next((g for g in got if g.get_name() == nm), None)
        ctx.check(r.get_field_by_name(nm) is exp, "the first field of that name")
    if n > 1:
        ctx.check(r.get_n_bits() == nb and r.get_n_bytes() == (nb + 7) // 8, "size of the register")


def h_maps(ctx, n):
    """maps in any blocks of any tree, any of them below others: names, parents, search, default"""
    from uvm.reg.uvm_reg_model import UVM_NO_HIER
    ts = forest(ctx, 3, roots=False)
    ms = []  # [map, T, parent index, offset, name]
    for i in range(n):
        k = ctx.choice("block%d" % i, 3)
        name = ctx.choice("mname%d" % i, ["p", "q"])
        base = ctx.int("base%d" % i, 0, 1 << 20)
        m = ts[k].b.create_map(name, base, 4, L.little())
        ms.append([m, ts[k], None, 0, name, base])
        ctx.check(m.get_full_name() == ts[k].full() + "." + name and m.get_parent() is ts[k].b, "name and block")

    def desc(a, b):
        """block a is strictly below block b"""
        a = a.up
        while a is not None:
            if a is b:
                return True
            a = a.up
        return False

    order = {i: [] for i in range(n)}
    for i in range(1, n):
        j = ctx.choice("under%d" % i, n)
        off = ctx.int("off%d" % i, 0, 1 << 20)
        if j == i:
            continue
        uvmenv.clear()
        ms[j][0].add_submap(ms[i][0], off)
        ok = desc(ms[i][1], ms[j][1])
        ctx.check((not uvmenv.errors()) == ok, "a map goes under a map of a block above, only", e=str(uvmenv.errors()))
        if ok:
            ms[i][2], ms[i][3] = j, off
            order[j].append(i)
            uvmenv.clear()
            ms[0][0].add_submap(ms[i][0], 0)
            ctx.check(len(uvmenv.errors()) == 1, "a map is put under one map only")

    def subs(j):
        a = list(order[j])
        for i in order[j]:
            a += subs(i)
        return a
    for j, (m, t, up, off, name, base) in enumerate(ms):
        a, o = [], []
        m.get_submaps(a)
        m.get_submaps(o, UVM_NO_HIER)
        ctx.check(same(a, [ms[i][0] for i in subs(j)]), "maps below it")
        ctx.check(same(o, [ms[i][0] for i in order[j]]), "maps right below it")
        ctx.check(m.get_parent_map() is (None if up is None else ms[up][0]), "map above")
        root, b = j, 0
        while ms[root][2] is not None:
            b = b + ms[root][3]
            root = ms[root][2]
        ctx.check(m.get_root_map() is ms[root][0], "top map")
        ctx.check(eq(m.get_base_addr(), b + ms[root][5]), "base address in the system")
        ctx.check(eq(m.get_base_addr(UVM_NO_HIER), base), "base address of its own")
        if up is not None:
            ctx.check(eq(ms[up][0].get_submap_offset(m), off), "offset")
    for t in ts:
        own = [i for i, x in enumerate(ms) if x[1] is t]
        a = []
        t.b.get_maps(a)
        ctx.check(same(a, [ms[i][0] for i in own]), "maps of the block")
        ctx.check(t.b.get_default_map() is (ms[own[0]][0] if own else None), "the first map is the default")
        for name in ("p", "q", "r"):
            seq = own + [i for k in own for i in subs(k)]
            exp = next((ms[i][0] for i in seq if ms[i][4] == name), None)
            uvmenv.clear()
            ctx.check(t.b.get_map_by_name(name) is exp, "map of that name")
            ctx.check(len(uvmenv.reports(rid="RegModel")) == (exp is None), "warned when there is none")
    k = ctx.choice("default", n)
    t = ts[ctx.choice("default_of", 3)]
    uvmenv.clear()
    t.b.set_default_map(ms[k][0])
    ctx.check(t.b.get_default_map() is ms[k][0], "the default map set")
    ctx.check(len(uvmenv.reports(rid="RegModel")) == (ms[k][1] is not t), "warned of a map of another block")


def h_reg_maps(ctx, n):
    """a register in several maps: which maps, offsets and rights it has"""
    b = blk("b", None)
    sub = blk("sub", b)
    r, _ = L.reg(sub, [(8, 0, "RW")])
    mm = mem(sub, "mem")
    kind = ctx.choice("of", ["reg", "mem"])
    it = r if kind == "reg" else mm
    top, other = b.create_map("top", 0, 4, L.little()), b.create_map("other", 0, 4, L.little())
    ms, info = [], []
    uvmenv.clear()
    ctx.check(it.get_n_maps() == 0 and it.get_default_map() is None, "in no map yet")
    ctx.check(len(uvmenv.reports(rid="RegModel")) == 1, "warned")
    under = ctx.choice("under", n)
    for i in range(n):
        m = sub.create_map("m%d" % i, 0, 4, L.little())
        (top if i == under else other).add_submap(m, 0x1000 * (i + 1))
        ms.append(m)
        inn = ctx.bool("in%d" % i)
        off, rights = ctx.choice("off%d" % i, [64 * i, 64 * i + 4]), ctx.choice("rights%d" % i, ["RW", "RO", "WO"]) if inn else None
        info.append((inn, off, rights))
        if inn:
            (m.add_reg if kind == "reg" else m.add_mem)(it, off, rights)
    dflt = ctx.choice("default", n)
    sub.set_default_map(ms[dflt])
    uvmenv.clear()
    b.lock_model()
    ins = [i for i in range(n) if info[i][0]]
    got = []
    it.get_maps(got)
    ctx.check(same(got, [ms[i] for i in ins]) and it.get_n_maps() == len(ins), "its maps")
    if not ins:
        ctx.cover("none")
        return
    d = dflt if dflt in ins else ins[0]
    uvmenv.clear()
    ctx.check(it.get_default_map() is ms[d], "its default map")
    ctx.check(it.get_local_map(None) is ms[d], "no map asked for: the default")
    ctx.check(it.get_rights() == info[d][2] or it.get_n_maps() == 1 and kind == "mem", "rights in the default map")
    uvmenv.clear()
    for i in range(n):
        loc = it.get_local_map(ms[i])
        ctx.check(loc is (ms[i] if i in ins else None), "the map itself, if in it")
        if kind == "reg":
            ctx.check(truth(ctx, it.is_in_map(ms[i])) == (i in ins), "in the map")
        if i in ins:
            if it.get_n_maps() > 1 or kind == "reg":
                ctx.check(it.get_rights(ms[i]) == info[i][2], "rights there")
            ctx.check(eq(it.get_offset(ms[i]) if kind == "reg" else ms[i].get_mem_map_info(it).offset, info[i][1]), "offset there")
    ctx.check(len(uvmenv.reports(rid="RegModel")) == n - len(ins), "warned for each map it is not in")
    uvmenv.clear()
    loc = it.get_local_map(top)
    ctx.check(loc is (ms[under] if under in ins else None), "through the map above")
    if kind == "reg":
        ctx.check(truth(ctx, it.is_in_map(top)) == (under in ins), "in the map above")


def h_other_block(ctx):
    """registers and memories of another block, and ones already there, are not put in a map"""
    b = blk("b", None)
    sub = blk("sub", b)
    bs = [b, sub]
    i, j = ctx.choice("block", 2), ctx.choice("map", 2)
    kind = ctx.choice("of", ["reg", "mem"])
    m = bs[j].create_map("m", 0, 4, L.little())
    it = L.reg(bs[i], [(8, 0, "RW")])[0] if kind == "reg" else mem(bs[i], "mem")
    add = m.add_reg if kind == "reg" else m.add_mem
    o1, o2 = ctx.int("off", 0, 255), ctx.int("off2", 0, 255)
    uvmenv.clear()
    add(it, o1, "RO")
    ctx.check((len(uvmenv.errors()) == 1) == (i != j), "an error for another block's", e=str(uvmenv.errors()))
    ctx.check(it.get_n_maps() == (i == j), "in the map if not")
    if i != j:
        return
    uvmenv.clear()
    add(it, o2, "RW")
    ctx.check(len(uvmenv.errors()) == 1 and it.get_n_maps() == 1, "not twice")
    bs[j].parent = None
    bs[j].lock_model()
    info = m.get_reg_map_info(it) if kind == "reg" else m.get_mem_map_info(it)
    ctx.check(and_(eq(info.offset, o1), info.rights == "RO"), "still what was given first")


def h_cover(ctx, n):
    """coverage models: those present, and those turned on in a block and everything below it"""
    from uvm.reg.uvm_reg import UVMReg
    from uvm.reg.uvm_mem import UVMMem
    from uvm.reg.uvm_reg_block import UVMRegBlock
    has = {k: ctx.bits("has_" + k, 4) for k in ("top", "sub", "reg", "mem")}
    top = UVMRegBlock("top", has["top"])
    top.configure(None, "")
    sub = UVMRegBlock("sub", has["sub"])
    sub.configure(top, "")
    r = UVMReg("r", 32, has["reg"])
    r.configure(sub)
    m = UVMMem("m", 4, 32, "RW", has["mem"])
    m.configure(sub)
    objs = {"top": top, "sub": sub, "reg": r, "mem": m}
    who = ctx.choice("add_to", [None] + list(objs))
    if who:
        add = ctx.bits("add", 4)
        objs[who].add_coverage(add)
        has[who] = has[who] | add
    ask = ctx.bits("ask", 4)
    ctx.assume(gt(ask, 0))
    on = {k: 0 for k in objs}
    for i in range(n):
        t = ctx.choice("turn%d" % i, ["top", "sub", "reg", "mem"])
        want = ctx.bits("on%d" % i, 4)
        objs[t].set_coverage(want)
        for k in {"top": list(objs), "sub": ["sub", "reg", "mem"]}.get(t, [t]):
            on[k] = want & has[k]
    for k, o in objs.items():
        ctx.check(iff(bool(o.has_coverage(ask)), eq(ask & has[k], ask)), "present", of=k)
        ctx.check(iff(bool(o.get_coverage(ask)), eq(on[k] & ask, ask)), "on", of=k)


def h_include(ctx):
    """a coverage model is built where it was included, for whom it was"""
    from uvm.reg.uvm_reg import UVMReg
    from uvm.reg.uvm_mem import UVMMem
    top = blk("top", None)
    sub = blk("sub", top)
    # (a scope without wildcards is found in longer ones too: B05-partial-scope)
    scopes = {"*": lambda n: True, "top.sub.*": lambda n: n.startswith("top.sub."),
              "top.sub*": lambda n: n.startswith("top.sub"), "top.sub.r": lambda n: n == "top.sub.r"}
    which = {}
    val = 0
    for i in range(2):
        s = ctx.choice("scope%d" % i, [None] + list(scopes))
        if s is None:
            continue
        v = ctx.bits("models%d" % i, 4)
        UVMReg.include_coverage(s, v)
        which[i] = (s, v)
    r = UVMReg("r", 32, 15)
    r.configure(sub)
    m = UVMMem("m", 4, 32, "RW", 15)
    m.configure(sub)
    ask = ctx.bits("ask", 4)
    for o in (top, sub, r, m):
        exp = 0
        for i in which:
            if scopes[which[i][0]](o.get_full_name()):
                exp = which[i][1]
                break
        got = o.build_coverage(ask)
        ctx.check(eq(got, exp & ask), "built", of=o.get_full_name(), which=str(which))


def h_regfile(ctx, n):
    """registers in nested register files: their names and where they are"""
    from uvm.reg.uvm_reg_file import UVMRegFile
    from uvm.reg.uvm_reg import UVMReg
    top = blk("top", None)
    sub = blk("sub", top)
    b = [top, sub][ctx.choice("block", 2)]
    files, full = [], []
    for i in range(n):
        f = UVMRegFile("rf%d" % i)
        p = ctx.choice("in%d" % i, i + 1)
        f.configure(b, files[p] if p < i else None, "")
        files.append(f)
        full.append((full[p] if p < i else b.get_full_name()) + ".rf%d" % i)
        ctx.check(f.get_full_name() == full[i] and f.get_block() is b and f.get_parent() is b, "a register file")
        ctx.check(f.get_regfile() is (files[p] if p < i else None), "the register file around it")
    k = ctx.choice("reg_in", n + 1)
    r = UVMReg("r", 32)
    r.configure(b, files[k] if k < n else None)
    ctx.check(r.get_full_name() == (full[k] if k < n else b.get_full_name()) + ".r", "full name")
    ctx.check(r.get_regfile() is (files[k] if k < n else None) and r.get_block() is b, "where it is")
    got = []
    b.get_registers(got)
    ctx.check(same(got, [r]), "a register of the block")
    from uvm.reg.uvm_reg_field import UVMRegField
    f = UVMRegField("f")
    f.configure(r, 8, 0, "RW", False, 0, True, True, False)
    ctx.check(f.get_full_name() == r.get_full_name() + ".f", "field name")
    uvmenv.clear()
    UVMRegFile("lost").configure(None, None)
    ctx.check(len(uvmenv.reports(rid="UVM/RFILE/CFG/NOBLK")) == 1, "no register file without a block")


def h_roots(ctx, n):
    """two top blocks of one name are reported when the model is locked"""
    from uvm.reg.uvm_reg_block import UVMRegBlock
    UVMRegBlock.m_roots.clear()
    bs = [blk(ctx.choice("name%d" % i, ["a", "b"]), None) for i in range(n)]
    uvmenv.clear()
    bs[0].lock_model()
    k = sum(b.get_name() == bs[0].get_name() for b in bs)
    ctx.check(len(uvmenv.reports(rid="UVM/REG/DUPLROOT")) == (k > 1), "duplicate top blocks")


HARNESSES = [
    Harness(h_tree, "tree", n=3, regs=2, mems=1, bounds="forests of 3 blocks, 2 registers (2 names) and 1 memory in any of them"),
    Harness(h_tree, "tree4", n=4, regs=2, mems=0, tiers=("thorough",), bounds="forests of 4 blocks, 2 registers (2 names)"),
    Harness(h_locked, "locked", n=3, covers=("locked", "open"), bounds="trees of 3 blocks, any one locked, one addition (6 kinds, new or again) to any"),
    Harness(h_fields, "fields", n=3, bounds="3 fields of any lsb 0..31 and size 1..16 in registers of 20 or 32 bits"),
    Harness(h_maps, "maps", n=3, tiers=("thorough",), bounds="3 maps in any of 3 blocks of any tree, any nesting, any offsets and base addresses"),
    Harness(h_maps, "maps2", n=2, bounds="2 maps in any of 3 blocks of any tree, any nesting, any offsets and base addresses"),
    Harness(h_reg_maps, "reg_maps", n=2, covers=("none",), bounds="a register or memory in any of 2 maps, one of them under the map of the block above"),
    Harness(h_reg_maps, "reg_maps3", n=3, tiers=("thorough",), bounds="a register or memory in any of 3 maps"),
    Harness(h_other_block, "other_block", bounds="any block and map of two, register or memory, any offsets"),
    Harness(h_cover, "cover", n=1, bounds="any 4-bit sets of models in two blocks, a register and a memory; one setting anywhere"),
    Harness(h_cover, "cover2", n=2, tiers=("thorough",), bounds="any 4-bit sets of models in two blocks, a register and a memory; two settings anywhere"),
    Harness(h_include, "include", bounds="two inclusions under any of 4 scopes, any 4-bit sets of models"),
    Harness(h_regfile, "regfile", n=2, bounds="2 register files in any nesting in either of two blocks"),
    Harness(h_regfile, "regfile3", n=3, tiers=("thorough",), bounds="3 register files in any nesting"),
    Harness(h_roots, "roots", n=3, bounds="3 top blocks under two names"),
]
