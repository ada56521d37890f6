"""B02: comparing objects: equal exactly when every compared field is"""
from engine import uvmenv
from engine.runner import Harness
from engine.symex import and_, eq, iff, ne, not_, or_, ite

_c = {}


def setup():
    uvmenv.setup()
    from uvm.base.uvm_object import UVMObject
    from uvm.base.uvm_comparer import UVMComparer
    from uvm.base import uvm_object_globals as G
    from uvm.macros import uvm_object_defines as M

    class Leaf(UVMObject):
        def __init__(self, name="leaf"):
            super().__init__(name)
            self.v = 0
            self.h = 0

        def do_copy(self, rhs):
            self.h = rhs.h

        def do_compare(self, rhs, comparer):
            return hasattr(rhs, "h") and self.h == rhs.h

    class Base(UVMObject):
        def __init__(self, name="obj"):
            super().__init__(name)
            self.i = 0
            self.x = 0
            self.y = 0
            self.n = 0
            self.s = ""
            self.any = None
            self.k = None
            self.r = None
            self.m = {}

    class Derived(Base):
        def __init__(self, name="obj"):
            super().__init__(name)
            self.d = 0
            self.e = 0

        def do_compare(self, rhs, comparer):
            return comparer.compare_field("e", self.e, rhs.e, 4)

    M.uvm_object_utils_begin(Leaf)
    M.uvm_field_int("v")
    M.uvm_object_utils_end(Leaf)
    M.uvm_object_utils_begin(Base)
    M.uvm_field_int("i")
    M.uvm_field_int("x", G.UVM_ALL_ON | G.UVM_NOCOMPARE)
    M.uvm_field_int("y", G.UVM_COPY)
    M.uvm_field_int("n", G.UVM_ALL_ON | G.UVM_NOCOPY)
    M.uvm_field_string("s")
    M.uvm_field_int("any")
    M.uvm_field_object("k")
    M.uvm_field_object("r", G.UVM_ALL_ON | G.UVM_REFERENCE)
    M.uvm_field_aa("m")
    M.uvm_object_utils_end(Base)
    M.uvm_object_utils_begin(Derived)
    M.uvm_field_int("d")
    M.uvm_object_utils_end(Derived)
    _c.update(Leaf=Leaf, Base=Base, Derived=Derived, C=UVMComparer, G=G)


def comparer(n=1000):
    c = _c["C"]()
    c.show_max = n
    return c


def h_field(ctx, sizes):
    """compare_field: sizes and all values, negatives included"""
    size = ctx.choice("size", sizes)
    lim = 1 << (size + 1)
    a, b = ctx.int("a", -lim, lim), ctx.int("b", -lim, lim)
    c = comparer(ctx.choice("show_max", [0, 1, 2]))
    small = size <= 64 and ctx.bool("small")
    same = eq(a & ((1 << size) - 1), b & ((1 << size) - 1))
    n = 0
    for i in range(2):
        r = (c.compare_field_int if small else c.compare_field)("f", a, b, size)
        ctx.check(iff(r, same), "equal iff the low size bits are", size=size)
        n += 0 if r else 1
        ctx.check(c.result == n, "miscompares counted")
        ctx.check(len(uvmenv.REPORTS) == min(n, c.show_max), "as many miscompares shown as asked for")
    r = c.compare_field("f", b, b, size)
    ctx.check(bool(r) and c.result == n, "a value equals itself")


def h_string(ctx):
    c = comparer()
    al = ["", "a", "b", "ab"]
    x, y = ctx.choice("x", al), ctx.choice("y", al)
    ctx.check(bool(c.compare_string("s", x, y)) == (x == y), "strings equal iff the same")
    ctx.check(c.result == (0 if x == y else 1), "miscompares counted")
    f, g = ctx.choice("f", [0.0, 1.5]), ctx.choice("g", [0.0, 1.5])
    ctx.check(bool(c.compare_field_real("r", f, g)) == (f == g), "reals equal iff the same")


def fill(ctx, o, t, kinds):
    o.i = ctx.bits(t + "i", 40)
    o.x, o.y, o.n = ctx.bits(t + "x", 3), ctx.bits(t + "y", 3), ctx.bits(t + "n", 3)
    o.s = ctx.choice(t + "s", ["", "p"]) if "s" in kinds else "q"
    if "any" in kinds:
        w = ctx.choice(t + "w", ["none", "int", "str", "float"])
        o.any = {"none": None, "int": ctx.bits(t + "a", 4), "str": "z", "float": 0.5}[w]
        o.m = ctx.choice(t + "m", [{}, {"p": 1}, {"p": 2}])
    if "k" in kinds and ctx.bool(t + "hask"):
        o.k = _c["Leaf"]("k")
        o.k.v, o.k.h = ctx.bits(t + "kv", 5), ctx.bits(t + "kh", 5)


def anydiff(a, b):
    if type(a) is float or type(b) is float or a is None or b is None or isinstance(a, str) or isinstance(b, str):
        return not (type(a) is type(b) and a == b)
    return ne(a, b)


def diffs(a, b):
    """the compared fields that differ (nested ones one by one)"""
    out = [ne(a.i, b.i), ne(a.n, b.n), a.s != b.s, anydiff(a.any, b.any), a.m != b.m, a.r is not b.r]
    if a.k is None or b.k is None:
        out.append(a.k is not b.k)
    elif a.k is not b.k:
        # a sub-object whose do_compare alone objects counts once
        out.append(ne(a.k.v, b.k.v))
    return out


def hdiff(a, b):
    return a.k is not None and b.k is not None and ne(a.k.h, b.k.h)


def h_compare(ctx, kinds, derived):
    """two objects with any contents: equal iff no compared field differs; all differences counted; symmetric"""
    T = _c["Derived"] if derived else _c["Base"]
    a, b = T("a"), T("b")
    fill(ctx, a, "a.", kinds)
    fill(ctx, b, "b.", kinds)
    if "r" in kinds:
        l1, l2 = _c["Leaf"](), _c["Leaf"]()
        a.r = l1
        b.r = ctx.choice("ref", [0, 1]) and l2 or l1
        if ctx.bool("samekid"):
            b.k = a.k
    d = diffs(a, b)
    extra = []
    if derived:
        a.d, b.d, a.e, b.e = (ctx.bits(n, 5) for n in ("ad", "bd", "ae", "be"))
        d.append(ne(a.d, b.d))
        d.append(ne(a.e & 15, b.e & 15))
    hd = hdiff(a, b)
    want = and_(not_(or_(*d)), not_(hd))
    c = comparer()
    r = a.compare(b, c)
    ctx.check(iff(r, want), "equal iff no compared field differs")
    n = sum(ite(x, 1, 0) for x in d)
    ctx.check(or_(eq(c.result, n), and_(hd, eq(c.result, n + 1))), "every difference is counted")
    ctx.check(or_(r, len(uvmenv.REPORTS) >= 1), "a difference is shown")
    ctx.check(iff(b.compare(a, c), want), "comparing is symmetric")
    ctx.check(a.compare(a, c) and c.result == 0, "an object equals itself")
    r1 = a.compare(b)
    ctx.check(iff(r1, want), "default comparer: equal iff no compared field differs")


def h_shown(ctx, n):
    """as many differences are shown as show_max allows, whatever they are differences of"""
    c = comparer(ctx.int("show_max", 0, n + 1))
    o = _c["Base"]("o")
    cnt = 0
    for i in range(n):
        k = ctx.choice("kind%d" % i, ["int", "str", "real", "none", "ref", "sub", "msg"])
        uvmenv.clear()
        if k == "int":
            a, b = ctx.bits("a%d" % i, 4), ctx.bits("b%d" % i, 4)
            r = c.compare_field("f", a, b, 3)
            cnt = cnt + ite(ne(a & 7, b & 7), 1, 0)
        elif k == "str":
            r = c.compare_string("f", "x", "y")
        elif k == "real":
            r = c.compare_field_real("f", 0.5, 1.5)
        elif k == "none":
            r = c.compare_object("f", o, None) if ctx.bool("rhs%d" % i) else c.compare_object("f", None, o)
        elif k == "ref":
            c.policy = _c["G"].UVM_REFERENCE
            r = c.compare_object("f", o, _c["Base"]("p"))
            c.policy = _c["G"].UVM_DEEP
        elif k == "sub":
            # the fields of a sub-object are counted and shown as those of an object are
            p, q = _c["Leaf"]("p"), _c["Leaf"]("q")
            p.v = 1
            c2 = comparer(c.show_max)
            r = c2.compare_object("f", p, q)
            ctx.check(eq(len(uvmenv.REPORTS), ite(c2.show_max > 0, 1, 0)) and c2.result == 1, "a different field of a sub-object is shown")
            continue
        else:
            c.print_msg("f")
            r = False
        if k != "int":
            ctx.check(not r, "a difference is found", kind=k)
            cnt = cnt + 1
        ctx.check(eq(c.result, cnt), "differences are counted", kind=k)
        last = 0 if k == "int" and r else 1
        ctx.check(eq(len(uvmenv.REPORTS), ite(cnt <= c.show_max, last, 0)), "the first show_max differences are shown, no more", kind=k)


def h_types(ctx):
    """objects of different types, None, cycles"""
    c = comparer()
    a, d = _c["Base"]("a"), _c["Derived"]("d")
    a.i, d.i = ctx.bits("ai", 4), ctx.bits("di", 4)
    d.d, d.e = ctx.bits("dd", 2), ctx.bits("de", 2)
    what = ctx.choice("what", ["types", "types_off", "none", "cycle"])
    if what == "types":
        ctx.check(not a.compare(d, c), "different types differ")
        ctx.check(not _c["Leaf"]("a").compare(a, c), "unrelated types differ")
    elif what == "types_off":
        c.check_type = 0
        ctx.check(iff(a.compare(d, c), eq(a.i, d.i)), "types ignored when told so")
    elif what == "none":
        ctx.check(not a.compare(None, c) and c.result == 1, "nothing equals None")
    else:
        b = _c["Base"]("b")
        b.i = d.i
        a.k, b.k = a, b
        ctx.check(iff(a.compare(b, c), eq(a.i, b.i)), "cyclic objects are compared")
        ctx.check(iff(a.compare(b, c), eq(a.i, b.i)), "cyclic objects are compared again")
    e = _c["Base"]("a")
    e.i = ctx.bits("ei", 4)
    f = _c["Base"]("f")
    f.i = a.i
    ctx.check(a.k is not None or iff(e.compare(f, c), eq(e.i, a.i)), "later compares start afresh")


HARNESSES = [
    Harness(h_field, "field", sizes=[1, 2, 8, 31, 32, 33, 63, 64, 65, 100], bounds="10 sizes, all values of one bit more and sign"),
    Harness(h_string, "string"),
    Harness(h_compare, "plain", kinds=["s"], derived=False, bounds="all ints"),
    Harness(h_compare, "mixed", kinds=["any"], derived=False, bounds="fields of None, int, str, float; dicts"),
    Harness(h_compare, "nested", kinds=["k"], derived=False, bounds="sub-object or none on each side"),
    Harness(h_compare, "refs", kinds=["r"], derived=False, bounds="reference fields, same sub-object"),
    Harness(h_compare, "derived", kinds=["k"], derived=True, bounds="fields of base and derived class, do_compare hooks"),
    Harness(h_shown, "shown", n=3, bounds="3 differences of 7 kinds, show_max 0-4"),
    Harness(h_types, "types", bounds="mismatched types, None, self-cycles"),
]
