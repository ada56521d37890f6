"""B01: packer: what is packed is what is unpacked, in the documented layout"""
from engine import uvmenv
from engine.runner import Harness
from engine.symex import and_, eq, ite, bit

SIZES = [1, 3, 8, 9]
_c = {}


def setup():
    uvmenv.setup()
    from uvm.base.uvm_object import UVMObject
    from uvm.base.uvm_packer import UVMPacker
    from uvm.macros import uvm_object_defines as M

    class In(UVMObject):
        def __init__(self, name="in"):
            super().__init__(name)
            self.u = 0

    class Out(UVMObject):
        def __init__(self, name="out"):
            super().__init__(name)
            self.a = 0
            self.n = In("n")
            self.s = ""
            self.z = 0

        def do_pack(self, packer):
            packer.pack_field_int(self.z, 9)

        def do_unpack(self, packer):
            self.z = packer.unpack_field_int(9)

    M.uvm_object_utils_begin(In)
    M.uvm_field_int("u")
    M.uvm_object_utils_end(In)
    M.uvm_object_utils_begin(Out)
    M.uvm_field_int("a")
    M.uvm_field_object("n")
    M.uvm_field_string("s")
    M.uvm_object_utils_end(Out)
    _c.update(P=UVMPacker, Out=Out)


def packer(ctx):
    p = _c["P"]()
    p.big_endian = 1 if ctx.bool("big") else 0
    return p


def rev(v, n):
    r = 0
    for i in range(n):
        r = r | (bit(v, i) << (n - 1 - i))
    return r


def image(p, items):
    """expected stream: items are (value, size)"""
    out, at = 0, 0
    for v, n in items:
        v = v & ((1 << n) - 1)
        out = out | ((rev(v, n) if p.big_endian else v) << at)
        at += n
    return out, at


def h_fields(ctx, sizes, n):
    """n fields: any values, negative or too wide ones included, and any sizes of the list"""
    p = packer(ctx)
    items = []
    for i in range(n):
        sz = ctx.choice("sz%d" % i, sizes)
        v = ctx.int("v%d" % i, -(1 << (sz - 1)), (1 << (sz + 1)) - 1)
        if ctx.bool("f%d" % i):
            p.pack_field(v, sz)
        else:
            p.pack_field_int(v, sz)
        items.append((v, sz))
    p.set_packed_size()
    img, tot = image(p, items)
    ctx.check(p.get_packed_size() == tot, "size of the stream")
    ctx.check(eq(p.get_packed_bits(), img), "layout of the stream")
    k = ctx.choice("bit", [0, tot // 2, tot - 1])
    ctx.check(eq(p.get_bit(k), bit(img, k)), "single bits")
    for nb, got in ((8, p.get_bytes()), (32, p.get_ints())):
        ctx.check(len(got) == (tot + nb - 1) // nb, "as many words as needed", nb=nb)
        w = 0
        for i, x in enumerate(got):
            w = w | ((rev(x, nb) if p.big_endian else x) << (i * nb))
        ctx.check(eq(w, img), "words carry the stream", nb=nb)
    for v, sz in items:
        ctx.check(eq(p.unpack_field_int(sz), v & ((1 << sz) - 1)), "field comes back")
    ctx.check(len(uvmenv.errors()) == 0, "no error")
    p.unpack_field(1)
    ctx.check(len(uvmenv.errors()) == 1, "unpacking past the end is an error")


def h_arrays(ctx, nb):
    """a field, then an array of words packed whole or up to any size, then a field; unpacked over old contents"""
    p = packer(ctx)
    n = ctx.choice("n", [1, 2])
    words = [ctx.bits("w%d" % i, nb) for i in range(n)]
    if nb == 32:
        # only the four topmost and lowest bits vary: the reversal loops fork per bit
        words = [(w & 0xF) | (w & 0xF0000000) for w in words]
    # what does not fit a word is cut off
    extra = ctx.choice("extra", [0, -(1 << nb), 1 << nb])
    full = n * nb
    sz = ctx.choice("size", [-1, 0, 1, nb - 1, full - 3, full, full + 1])
    pre, post = ctx.bits("pre", 3), ctx.bits("post", 2)
    p.pack_field_int(pre, 3)
    if nb == 8:
        p.pack_bytes([words[0] + extra] + words[1:], sz)
    else:
        p.pack_ints([words[0] + extra] + words[1:], sz)
    uvm_bad = sz > full
    ctx.check(len(uvmenv.errors()) == (1 if uvm_bad else 0), "a size beyond the array is an error")
    uvmenv.clear()
    eff = full if sz < 0 else 0 if uvm_bad else sz
    p.pack_field_int(post, 2)
    p.set_packed_size()
    allw = 0
    for i, w in enumerate(words):
        allw = allw | (w << (i * nb))
    img, tot = image(p, [(pre, 3), (allw, eff), (post, 2)])
    ctx.check(p.get_packed_size() == tot, "size of the stream")
    ctx.check(eq(p.get_bits(), img), "layout of the stream")
    ctx.check(eq(p.unpack_field_int(3), pre), "field before the array")
    old = [ctx.bits("old%d" % i, nb) for i in range(n)]
    arr = list(old)
    u = p.unpack_bytes if nb == 8 else p.unpack_ints
    if uvm_bad:
        u(arr, sz)
        ctx.check(len(uvmenv.errors()) == 1, "a size beyond the array is an error")
        ctx.check(and_(*[eq(a, b) for a, b in zip(arr, old)]), "array untouched")
        return
    got = u(arr, eff)
    ctx.check(got is arr, "array is filled in place")
    m = (1 << eff) - 1
    g = o = 0
    for i in range(n):
        g = g | (arr[i] << (i * nb))
        o = o | (old[i] << (i * nb))
    ctx.check(eq(g, (allw & m) | (o & ~m & ((1 << full) - 1))), "array comes back")
    ctx.check(eq(p.unpack_field_int(2), post), "field after the array")
    ctx.check(len(uvmenv.errors()) == 0, "no error")


def h_strings(ctx):
    """strings (plain, with two- and three-byte characters, empty) between fields, by length and terminated"""
    p = packer(ctx)
    alpha = ["a", "\x01", "Z", "\u00e4", "\u20ac"]
    n = ctx.choice("n", [0, 1, 2, 3])
    s = "".join(ctx.choice("c%d" % i, alpha) for i in range(n))
    pre, post = ctx.bits("pre", 2), ctx.bits("post", 3)
    meta = ctx.bool("meta")
    p.use_metadata = 1 if meta else 0
    by_len = ctx.bool("by_len") and not meta
    p.pack_field_int(pre, 2)
    p.pack_string(s)
    if not by_len and not meta:
        p.pack_field_int(0, 8)
    p.pack_field_int(post, 3)
    p.set_packed_size()
    nb = len(s.encode())
    ctx.check(p.get_packed_size() == 5 + 8 * nb + (0 if by_len else 8), "size of the stream")
    ctx.check(eq(p.unpack_field_int(2), pre), "field before the string")
    ctx.check(p.unpack_string(nb if by_len else -1) == s, "string comes back")
    ctx.check(eq(p.unpack_field_int(3), post), "field after the string")
    ctx.check(len(uvmenv.errors()) == 0, "no error")


def h_object(ctx, wide):
    """objects with fields, a sub-object and hooks: through bits, bytes and ints, both bit orders"""
    p = packer(ctx)
    p.use_metadata = 1
    a, b = _c["Out"]("a"), _c["Out"]("b")
    hi = ctx.choice("hi", [0, 20] + ([27] if wide else []))
    a.a = ctx.bits("a", 4) << hi
    a.n.u = ctx.bits("u", 4)
    a.z = ctx.bits("z", 3) << (6 if wide else 1)
    a.s = ctx.choice("s", ["", "x", "Az"])
    b.a, b.n.u, b.z, b.s = 5, 6, 7, "old"
    inner = b.n
    way = ctx.choice("way", ["bits", "bytes", "ints"])
    if way == "bits":
        n, stream = a.pack(p)
        m = b.unpack(stream, p)
    elif way == "bytes":
        stream = []
        n = a.pack_bytes(stream, p)
        m = b.unpack_bytes(stream, p)
    else:
        stream = []
        n = a.pack_ints(stream, p)
        m = b.unpack_ints(stream, p)
    tot = 32 + 4 + 32 + 8 * len(a.s) + 8 + 9
    ctx.check(n == tot and m == tot, "sizes returned", n=n, m=m)
    ctx.check(and_(eq(a.a, b.a), eq(a.n.u, b.n.u), eq(a.z, b.z)), "integral fields come back")
    ctx.check(b.s == a.s, "string field comes back")
    ctx.check(b.n is inner, "unpacked into the sub-object there")
    ctx.check(a.compare(b), "unpacked object equals the packed one")
    ctx.check(len(uvmenv.errors()) == 0, "no error")


HARNESSES = [
    Harness(h_fields, "fields", sizes=SIZES, n=2, bounds="2 fields of 1, 3, 8 or 9 bits, all values and negatives, both orders"),
    Harness(h_fields, "wide", sizes=[32, 64], n=1, bounds="1 field of 32 or 64 bits"),
    Harness(h_fields, "fields3", sizes=[1, 5, 16], n=3, tiers=("thorough",), bounds="3 fields of 1, 5 or 16 bits"),
    Harness(h_arrays, "bytes", nb=8, bounds="1-2 bytes, partial sizes"),
    Harness(h_arrays, "ints", nb=32, bounds="1-2 words (8 free bits each), partial sizes"),
    Harness(h_strings, "strings", bounds="up to 3 characters of 1-3 bytes"),
    Harness(h_object, "object", wide=False, tiers=("quick",), bounds="one nested object, 11 free bits, three transports"),
    Harness(h_object, "objects", wide=True, tiers=("thorough",), bounds="same, more field positions"),
]
