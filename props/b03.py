"""B03: copying and cloning objects"""
from engine import uvmenv
from engine.runner import Harness
from engine.symex import and_, eq, iff
from . import b02

_c = b02._c


def setup():
    b02.setup()


def leaf(ctx, t):
    k = _c["Leaf"](t)
    k.v, k.h = ctx.bits(t + "v", 5), ctx.bits(t + "h", 5)
    return k


def build(ctx, derived):
    T = _c["Derived"] if derived else _c["Base"]
    a = T("a")
    a.i, a.x, a.y, a.n = (ctx.bits(t, 6) for t in ("i", "x", "y", "n"))
    a.s = ctx.choice("s", ["", "txt"])
    a.m = {"p": ctx.bits("p", 3)} if ctx.bool("hasp") else {}
    g = ctx.choice("graph", ["none", "tree", "deep", "self", "loop", "ref"])
    if g == "tree":
        a.k = leaf(ctx, "k")
    elif g == "deep":
        a.k = _c["Base"]("k")
        a.k.i = ctx.bits("ki", 6)
        a.k.k = leaf(ctx, "kk")
        a.k.any = a.k.k          # the same object twice
    elif g == "self":
        a.k = a
    elif g == "loop":
        a.k = _c["Base"]("k")
        a.k.i = ctx.bits("ki", 6)
        a.k.k = a
    elif g == "ref":
        a.r = leaf(ctx, "r")
    if derived:
        a.d, a.e = ctx.bits("d", 4), ctx.bits("e", 4)
    return a, g


def verify(ctx, a, b, g, n0, derived):
    ctx.check(and_(eq(a.i, b.i), eq(a.x, b.x), eq(a.y, b.y)), "integral fields are copied")
    ctx.check(eq(b.n, n0), "fields not to be copied are left alone")
    ctx.check(a.s == b.s, "string fields are copied")
    ctx.check(len(a.m) == len(b.m) and and_(*[eq(a.m[q], b.m[q]) for q in a.m]), "containers are copied")
    ctx.check(b.m is not a.m, "containers are not shared")
    ctx.check(b.r is a.r, "reference fields refer to the same object")
    if derived:
        ctx.check(eq(a.d, b.d), "fields of the derived class are copied")
    if g in ("none", "ref"):
        ctx.check(b.k is None, "no sub-object")
    elif g == "tree":
        ctx.check(b.k is not a.k and type(b.k) is type(a.k), "sub-objects are cloned")
        ctx.check(and_(eq(a.k.v, b.k.v), eq(a.k.h, b.k.h)), "contents of sub-objects are copied")
        ctx.check(b.k.get_name() == a.k.get_name(), "sub-objects keep their names")
    elif g == "deep":
        ctx.check(b.k is not a.k and b.k.k is not a.k.k, "sub-objects are cloned")
        ctx.check(and_(eq(a.k.i, b.k.i), eq(a.k.k.v, b.k.k.v)), "contents of sub-objects are copied")
        ctx.check(b.k.any is b.k.k, "an object referred to twice is copied once")
    elif g == "self":
        ctx.check(b.k is b, "cycles are closed in the copy")
    elif g == "loop":
        ctx.check(b.k is not a.k and b.k.k is b and eq(b.k.i, a.k.i), "cycles are closed in the copy")


def h_copy(ctx, derived):
    """clone and copy of any contents: trees, shared sub-objects, cycles, references; originals untouched; repeatable"""
    a, g = build(ctx, derived)
    b = a.clone()
    ctx.check(type(b) is type(a) and b is not a and b.get_name() == a.get_name(), "clone has the type and name")
    verify(ctx, a, b, g, 0, derived)
    if g != "deep":
        a2 = a.n
        b.n = a2
        if not derived:
            ctx.check(b.compare(a), "the clone equals the original")
    # changing the copy does not change the original
    m0, i0 = dict(a.m), a.i
    b.i = b.i + 1
    b.m["new"] = 1
    if g == "tree":
        v0 = a.k.v
        b.k.v = b.k.v + 1
        ctx.check(eq(a.k.v, v0), "the original's sub-object is independent")
    ctx.check(eq(a.i, i0) and a.m == m0, "the original is independent")
    # copying again over existing contents
    c = type(a)("c")
    c.n = ctx.bits("n0", 3)
    c.k = _c["Leaf"]("old")
    c.m = {"old": 1}
    c.copy(a)
    verify(ctx, a, c, g, c.n, derived)
    ctx.check(c.get_name() == "c", "copy keeps the name")
    b.copy(a)
    ctx.check(eq(b.i, a.i), "a copy can be refreshed")
    b.copy(None)
    ctx.check(eq(b.i, a.i) and len(uvmenv.REPORTS) >= 1, "copying None is refused")


def h_base(ctx):
    """copying between base and derived class objects copies the common fields"""
    a, d = _c["Base"]("a"), _c["Derived"]("d")
    a.i, d.i, d.d = ctx.bits("ai", 6), ctx.bits("di", 6), ctx.bits("dd", 6)
    d0 = d.d
    if ctx.bool("up"):
        i = a.i
        d.copy(a)
        ctx.check(and_(eq(d.i, i), eq(d.d, d0)), "derived from base")
    else:
        i = d.i
        a.copy(d)
        ctx.check(eq(a.i, i) and not hasattr(a, "d"), "base from derived")
    e = _c["Base"]("e")
    ctx.check(e.clone().i == 0, "base objects unaffected by the derived class")


def h_local(ctx):
    """set_int_local / set_string_local / set_object_local set exactly the matching fields"""
    o = _c["Derived"]("o")
    name = ctx.choice("name", ["i", "d", "y", "zz", "?"])
    v = ctx.bits("v", 6)
    o.i, o.d, o.y = ctx.bits("i0", 6), ctx.bits("d0", 6), ctx.bits("y0", 6)
    old = dict(i=o.i, d=o.d, y=o.y)
    o.set_int_local(name, v)
    for f in old:
        hit = name in (f, "?")
        ctx.check(eq(getattr(o, f), v if hit else old[f]), "exactly the matching fields are set")
    s = _c["Derived"]("s")
    s.set_string_local("s", "new")
    ctx.check(s.s == "new" and s.i == 0, "string field set")
    k = leaf(ctx, "k")
    cl = ctx.bool("clone")
    s.set_object_local("k", k, 1 if cl else 0)
    ctx.check((s.k is k) == (not cl) and eq(s.k.v, k.v), "object field set, cloned when asked")


HARNESSES = [
    Harness(h_copy, "copy", derived=False, bounds="6 graph shapes, all field values of 6 bits"),
    Harness(h_copy, "derived", derived=True, bounds="same, derived class"),
    Harness(h_base, "base_derived"),
    Harness(h_local, "local", fmt_cut=False),
]
