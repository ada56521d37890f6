"""Shared builders for the register-layer harnesses, and an independent model of
what the access policies of the UVM register field documentation mean."""
from engine import uvmenv

RD_CLR = {"RC", "WRC", "WSRC", "W1SRC", "W0SRC"}
RD_SET = {"RS", "WRS", "WCRS", "W1CRS", "W0CRS"}
WR_ONLY = {"WO", "WOC", "WOS", "WO1"}
POLICIES = ["RO", "RW", "RC", "RS", "WRC", "WRS", "WC", "WS", "WSRC", "WCRS", "W1C", "W1S", "W1T",
            "W0C", "W0S", "W0T", "W1SRC", "W1CRS", "W0SRC", "W0CRS", "WO", "WOC", "WOS", "W1", "WO1"]


def hw_write(policy, cur, wr, mask, written):
    """value of the hardware field after a write of wr (0 <= cur, wr <= mask)"""
    n = wr ^ mask
    if policy in ("RO", "RC", "RS", "NOACCESS"):
        return cur
    if policy in ("RW", "WRC", "WRS", "WO"):
        return wr
    if policy in ("WC", "WCRS", "WOC"):
        return 0
    if policy in ("WS", "WSRC", "WOS"):
        return mask
    if policy in ("W1C", "W1CRS"):
        return cur & n
    if policy in ("W1S", "W1SRC"):
        return cur | wr
    if policy == "W1T":
        return cur ^ wr
    if policy in ("W0C", "W0CRS"):
        return cur & wr
    if policy in ("W0S", "W0SRC"):
        return cur | n
    if policy == "W0T":
        return cur ^ n
    if policy in ("W1", "WO1"):
        return cur if written else wr
    raise AssertionError(policy)


def hw_read(policy, cur, mask):
    """(value returned, value after) of a read"""
    if policy in WR_ONLY or policy == "NOACCESS":
        return None, cur
    if policy in RD_CLR:
        return cur, 0
    if policy in RD_SET:
        return cur, mask
    return cur, cur


def effective(policy, rights):
    """access policy seen through a map with the given rights"""
    if rights == "RW":
        return policy
    if rights == "RO":
        if policy in RD_CLR:
            return "RC"
        if policy in RD_SET:
            return "RS"
        if policy in WR_ONLY:
            return "NOACCESS"
        return "RO"
    if rights == "WO":
        return "WO" if policy in ("RW", "WO") else "NOACCESS"
    raise AssertionError(rights)


_n = [0]


def uniq(p):
    _n[0] += 1
    return "%s%d" % (p, _n[0])


def block(name=None, parent=None):
    from uvm.reg.uvm_reg_block import UVMRegBlock
    b = UVMRegBlock(name or uniq("blk"))
    if parent is not None:
        b.configure(parent, "")
    return b


def reg(blk, fields, n_bits=32, name=None, cls=None):
    """fields: (size, lsb, policy[, volatile[, reset]])"""
    from uvm.reg.uvm_reg import UVMReg
    from uvm.reg.uvm_reg_field import UVMRegField
    r = (cls or UVMReg)(name or uniq("r"), n_bits)
    r.configure(blk)
    out = []
    for i, f in enumerate(fields):
        size, lsb, pol = f[:3]
        vol = f[3] if len(f) > 3 else False
        rst = f[4] if len(f) > 4 else 0
        fld = UVMRegField("f%d" % i)
        fld.configure(r, size, lsb, pol, vol, rst, True, True, False)
        out.append(fld)
    return r, out


def little():
    from uvm.reg.uvm_reg_model import UVM_LITTLE_ENDIAN
    return UVM_LITTLE_ENDIAN


def one_reg(fields, n_bits=32, rights="RW", n_bytes=4, base=0, off=0):
    b = block()
    m = b.create_map(uniq("map"), base, n_bytes, little())
    r, fs = reg(b, fields, n_bits)
    m.add_reg(r, off, rights)
    b.lock_model()
    return b, m, r, fs


_cls = {}


def bus_classes():
    """item, adapter and driver of a byte-wide memory-mapped bus (test bench code, not code under test)"""
    if _cls:
        return _cls
    from uvm.seq.uvm_sequence_item import UVMSequenceItem
    from uvm.reg.uvm_reg_adapter import UVMRegAdapter
    from uvm.comps.uvm_driver import UVMDriver
    from uvm.macros import uvm_object_utils
    from engine import simk

    class BusItem(UVMSequenceItem):
        def __init__(self, name="bus_item"):
            super().__init__(name)
            self.kind = self.addr = self.data = self.byte_en = self.n_bits = self.status = None
    uvm_object_utils(BusItem)

    class Adapter(UVMRegAdapter):
        def reg2bus(self, rw):
            t = BusItem("bus")
            t.kind, t.addr, t.data, t.byte_en, t.n_bits = rw.kind, rw.addr, rw.data, rw.byte_en, rw.n_bits
            return t

        def bus2reg(self, it, rw):
            rw.kind, rw.addr, rw.data, rw.status = it.kind, it.addr, it.data, it.status

    class Driver(UVMDriver):
        """serves items through self.serve(item) -> None; logs (start, end) order"""
        serve = None
        latency = None
        respond = False

        async def go(self):
            while True:
                it = await self.seq_item_port.get_next_item()
                self.log.append(("begin", it))
                if self.latency is not None:
                    await simk.delay(self.latency())
                self.serve(it)
                self.log.append(("end", it))
                if self.respond:
                    rsp = BusItem("rsp")
                    rsp.kind, rsp.addr, rsp.data, rsp.status = it.kind, it.addr, it.data, it.status
                    it.data = it.status = None
                    rsp.set_id_info(it)
                    self.seq_item_port.item_done(rsp)
                else:
                    self.seq_item_port.item_done()
    _cls.update(item=BusItem, adapter=Adapter, driver=Driver)
    return _cls


def bus(m, serve, latency=None, respond=False):
    """sequencer + driver behind map m; returns (sequencer, driver, adapter)"""
    from uvm.seq.uvm_sequencer import UVMSequencer
    c = bus_classes()
    s = UVMSequencer(uniq("sqr"), None)
    d = c["driver"](uniq("drv"), None)
    d.log, d.serve, d.latency, d.respond = [], serve, latency, respond
    d.seq_item_port.connect(s.seq_item_export)
    d.seq_item_port.resolve_bindings()
    ad = c["adapter"]("adapter")
    ad.provides_responses = respond
    m.set_sequencer(s, ad)
    m._drv = d
    return s, d, ad
