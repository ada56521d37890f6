"""B23: printing objects"""
from engine import uvmenv
from engine.runner import Harness
from engine.symex import eq, ge, lt, ne, shows, and_, bit
from .b05 import truth

_c = {}
PLAN = {}
TOK = "".join(chr(0xE100 + i) for i in range(64))


def setup():
    uvmenv.setup()
    from uvm.base import uvm_object_globals as g
    from uvm.base.uvm_object import UVMObject
    from uvm.base.uvm_component import UVMComponent
    from uvm.base import uvm_printer as pr
    from uvm.macros import uvm_object_utils, uvm_object_utils_begin, uvm_object_utils_end, uvm_field_int, \
        uvm_field_string, uvm_field_object, uvm_component_utils

    class PrInner(UVMObject):
        def do_print(self, printer):
            for n, v, w in self.fields:
                printer.print_field_int(n, v, w, g.UVM_HEX)
    uvm_object_utils(PrInner)

    class PrDo(UVMObject):
        def do_print(self, printer):
            self.plan(printer)
    uvm_object_utils(PrDo)

    class PrMacro(UVMObject):
        def __init__(self, name="m"):
            super().__init__(name)
            self.a = self.b = self.c = self.h = 0
            self.s, self.o, self.r, self.n = "xy", None, None, None
    uvm_object_utils_begin(PrMacro)
    uvm_field_int("a", g.UVM_ALL_ON | g.UVM_HEX)
    uvm_field_int("b", g.UVM_ALL_ON | g.UVM_DEC)
    uvm_field_int("h", g.UVM_ALL_ON | g.UVM_NOPRINT)
    uvm_field_string("s")
    uvm_field_object("o")
    uvm_field_object("n")
    uvm_field_object("r", g.UVM_ALL_ON | g.UVM_REFERENCE)
    uvm_field_int("c", g.UVM_ALL_ON | g.UVM_BIN)
    uvm_object_utils_end(PrMacro)

    class PrSub(PrMacro):
        def __init__(self, name="s"):
            super().__init__(name)
            self.z = 0
    uvm_object_utils_begin(PrSub)
    uvm_field_int("z", g.UVM_ALL_ON | g.UVM_OCT)
    uvm_object_utils_end(PrSub)

    class PrComp(UVMComponent):
        def do_print(self, printer):
            printer.print_field_int("v", self.v, 16, g.UVM_HEX)
    uvm_component_utils(PrComp)
    _c.update(g=g, Inner=PrInner, Do=PrDo, Mac=PrMacro, Sub=PrSub, Comp=PrComp, T=pr.UVMTablePrinter, Tr=pr.UVMTreePrinter,
              Li=pr.UVMLinePrinter)


def table(ctx, txt):
    """rows of a table: (indentation, name, type, size, value)"""
    out, seen = [], 0
    for ln in txt.split("\n"):
        s = ln.strip()
        if s and set(s) == {"-"}:
            seen += 1
            continue
        if seen == 2 and s:
            w = ln.split()
            ctx.check(len(w) == 4, "a row has a name, a type, a size and a value", row=repr(ln))
            out.append((len(ln) - len(ln.lstrip()),) + tuple(w))
    ctx.check(seen == 3, "a table has a header and a footer")
    return out


def rows_are(ctx, rows, want):
    """want: (level, name, type or None, size or None, value check)"""
    ctx.check([r[1].strip("[]") for r in rows] == [w[1] for w in want], "one row for each field, in order",
              got=[r[1] for r in rows], want=[w[1] for w in want])
    ind = {}
    for r, w in zip(rows, want):
        ctx.check(ind.setdefault(w[0], r[0]) == r[0], "rows of one nesting level are indented alike", name=w[1])
        if w[2] is not None:
            ctx.check(r[2] == w[2], "the row shows the type", got=r[2], want=w[2])
        if w[3] is not None:
            ctx.check(r[3] == str(w[3]), "the row shows the size", got=r[3], want=w[3])
        v = w[4]
        ctx.check(v(r[4]) if callable(v) else r[4] == v, "the row shows the value of the field", field=w[1])
    lv = sorted(ind)
    for a, b in zip(lv, lv[1:]):
        ctx.check(ind[a] < ind[b], "a nested row is indented further than its parent")


def num(ctx, x, radix, width):
    """check of a printed integer field"""
    g = _c["g"]
    pre, spec = {g.UVM_BIN: ("'b", "b"), g.UVM_OCT: ("'o", "o"), g.UVM_HEX: ("'h", "X"), g.UVM_DEC: ("'d", ""),
                 g.UVM_UNSIGNED: ("'d", ""), g.UVM_NORADIX: ("'h", "X")}[radix]

    def f(text):
        if radix == g.UVM_DEC and truth(ctx, x < 0):
            return shows(ctx, text, x, spec)
        if radix == g.UVM_DEC and truth(ctx, ne(bit(x, width - 1), 0)):
            return shows(ctx, text, x & ((1 << width) - 1), spec)
        ok = text.startswith(pre)
        return shows(ctx, text[len(pre):], x & ((1 << width) - 1), spec) if ok else False
    return f


def ref(o):
    return "@%d" % o.get_inst_id()


def h_values(ctx, widths, kinds=("field_int", "field", "int")):
    """integers of any value, width and radix"""
    g = _c["g"]
    radix = ctx.choice("radix", [g.UVM_BIN, g.UVM_OCT, g.UVM_DEC, g.UVM_HEX, g.UVM_UNSIGNED, g.UVM_NORADIX])
    w = ctx.choice("width", widths)
    neg = radix == g.UVM_DEC and ctx.choice("negative", 2)
    x = ctx.int("x", -(1 << (w - 1)), -1) if neg else ctx.int("x", 0, (1 << w) - 1)
    wide = ctx.choice("wide", 2) if not neg and radix != g.UVM_DEC else 0
    if wide:
        x = ctx.int("xw", 0, (1 << (w + 3)) - 1)
        ctx.cover("more bits than the field has")
    d = _c["Do"]("d")
    kind = ctx.choice("kind", list(kinds))

    def plan(p):
        if kind == "field_int":
            p.print_field_int("f", x, w, radix)
        elif kind == "field":
            p.print_field("f", x, w, radix)
        else:
            p.print_int("f", x, w, radix)
    d.plan = plan
    p = _c["T"]()
    sr = ctx.choice("show_radix", 2)
    p.knobs.show_radix = bool(sr)
    chk = num(ctx, x, radix, w)
    if not sr:
        chk = (lambda c: lambda t: c({g.UVM_BIN: "'b", g.UVM_OCT: "'o", g.UVM_HEX: "'h", g.UVM_NORADIX: "'h"}.get(radix, "'d") + t
                                     if not (radix == g.UVM_DEC and truth(ctx, ne(bit(x, w - 1), 0))) else t))(chk)
    rows = table(ctx, d.sprint(p))
    rows_are(ctx, rows, [(0, "d", "PrDo", "-", ref(d)), (1, "f", "integral", w, chk)])


def h_default_radix(ctx):
    g = _c["g"]
    r = ctx.choice("default", [g.UVM_BIN, g.UVM_OCT, g.UVM_DEC, g.UVM_HEX])
    x = ctx.int("x", 0, 0x7FFF)
    d = _c["Do"]("d")
    d.plan = lambda p: p.print_field_int("f", x, 16)
    p = _c["T"]()
    p.knobs.default_radix = r
    rows_are(ctx, table(ctx, d.sprint(p)), [(0, "d", "PrDo", "-", ref(d)), (1, "f", "integral", 16, num(ctx, x, r, 16))])


def h_struct(ctx, n):
    """nested objects, arrays, references: rows, levels and order"""
    g = _c["g"]
    p = _c["T"]()
    p.knobs.reference = bool(ctx.choice("reference", 2))
    depth = ctx.choice("depth", [-1, 1, 2])
    p.knobs.depth = depth
    ids = (lambda o: ref(o)) if p.knobs.reference else (lambda o: "-")
    d = _c["Do"]("d")
    acts, want = [], [(0, "d", "PrDo", "-", ids(d))]
    deep = depth == -1 or depth > 0

    def inner(name, lv):
        i = _c["Inner"](name)
        i.fields = [("p", ctx.int("p_" + name, 0, 255), 8), ("q", ctx.int("q_" + name, 0, 15), 4)]
        rows = [(lv, name, "PrInner", "-", ids(i))]
        if depth == -1 or depth > lv:
            rows += [(lv + 1, fn, "integral", w, num(ctx, v, g.UVM_HEX, w)) for fn, v, w in i.fields]
        return i, rows
    for k in range(n):
        a = ctx.choice("act%d" % k, ["int", "string", "object", "null", "header", "array", "objarray", "real", "time", "generic", "nested"])
        nm = "f%d" % k
        if a == "int":
            v = ctx.int("v%d" % k, 0, 255)
            acts.append(lambda p, nm=nm, v=v: p.print_field_int(nm, v, 8, g.UVM_HEX))
            want.append((1, nm, "integral", 8, num(ctx, v, g.UVM_HEX, 8)))
        elif a == "string":
            s = ctx.choice("s%d" % k, ["", "abc"])
            acts.append(lambda p, nm=nm, s=s: p.print_string(nm, s))
            want.append((1, nm, "string", len(s), s if s else '""'))
        elif a in ("object", "header"):
            o, rows = inner(nm, 1)
            acts.append((lambda p, nm=nm, o=o: p.print_object(nm, o)) if a == "object" else
                        (lambda p, nm=nm, o=o: p.print_object_header(nm, o)))
            want += rows if a == "object" else rows[:1]
        elif a == "null":
            acts.append(lambda p, nm=nm: p.print_object(nm, None))
            want.append((1, nm, "object", "-", "<null>" if p.knobs.reference else "-"))
        elif a == "real":
            acts.append(lambda p, nm=nm: p.print_real(nm, 2.5))
            want.append((1, nm, "real", 64, "2.5"))
        elif a == "time":
            v = ctx.int("v%d" % k, 0, 1000)
            acts.append(lambda p, nm=nm, v=v: p.print_time(nm, v))
            want.append((1, nm, "time", 64, lambda t, v=v: shows(ctx, t, v)))
        elif a == "generic":
            acts.append(lambda p, nm=nm: p.print_generic(nm, "mytype", 7, "val"))
            want.append((1, nm, "mytype", 7, "val"))
        elif a == "array":
            vs = [ctx.int("e%d_%d" % (k, i), 0, 15) for i in range(2)]

            def arr(p, nm=nm, vs=vs):
                p.print_array_header(nm, 2, "da")
                for i, v in enumerate(vs):
                    p.print_field_int("[%d]" % i, v, 4, g.UVM_HEX)
                p.print_array_footer()
            acts.append(arr)
            want.append((1, nm, "da", 2, "-"))
            want += [(2, str(i), "integral", 4, num(ctx, v, g.UVM_HEX, 4)) for i, v in enumerate(vs)]
        elif a == "objarray":
            os = [inner("[%d]" % i, 2) for i in range(2)]

            def oarr(p, nm=nm, os=os):
                p.print_array_header(nm, 2, "da")
                for i, (o, _) in enumerate(os):
                    p.print_object("[%d]" % i, o, "[")
                p.print_array_footer()
            acts.append(oarr)
            want.append((1, nm, "da", 2, "-"))
            for i, (o, rows) in enumerate(os):
                want += [(rows[0][0], str(i)) + rows[0][2:]] + rows[1:]
            ctx.cover("array of objects")
        else:
            mid = _c["Do"](nm)
            o, rows = inner("in", 2)
            mid.plan = lambda p, o=o: (p.print_object("in", o), p.print_field_int("after", 5, 8, g.UVM_DEC))
            acts.append(lambda p, nm=nm, mid=mid: p.print_object(nm, mid))
            want.append((1, nm, "PrDo", "-", ids(mid)))
            if depth == -1 or depth > 1:
                want += rows + [(2, "after", "integral", 8, "'d5")]
            ctx.cover("nested twice")
    d.plan = lambda p: [a(p) for a in acts]
    if not deep:
        want = want[:1]
    t1 = d.sprint(p)
    rows_are(ctx, table(ctx, t1), want)
    t2 = d.sprint(p)
    strip = lambda t: "".join("#" if c in TOK else c for c in t)
    ctx.check(strip(t1) == strip(t2), "printing again gives the same text")


def h_macro(ctx, sub):
    """fields registered with the field macros"""
    g = _c["g"]
    d = _c["Sub" if sub else "Mac"]("d")
    d.a, d.b, d.c, d.h = (ctx.int(n, 0, 0x7FFFFFFF) for n in "abch")
    want = [(0, "d", d.get_type_name(), "-", ref(d)), (1, "a", "integral", 32, num(ctx, d.a, g.UVM_HEX, 32)),
            (1, "b", "integral", 32, num(ctx, d.b, g.UVM_DEC, 32)), (1, "s", "string", 2, "xy")]
    k = ctx.choice("o", ["none", "object", "cycle", "macro"])
    if k == "object":
        d.o = _c["Inner"]("other_name")
        d.o.fields = [("p", ctx.int("p", 0, 255), 8)]
        want += [(1, "o", "PrInner", "-", ref(d.o)), (2, "p", "integral", 8, num(ctx, d.o.fields[0][1], g.UVM_HEX, 8))]
    elif k == "cycle":
        d.o = d
        want.append((1, "o", d.get_type_name(), "-", ref(d)))
        ctx.cover("cycle")
    elif k == "macro":
        d.o = _c["Mac"]("x")
        d.o.a = ctx.int("oa", 0, 255)
        want += [(1, "o", "PrMacro", "-", ref(d.o)), (2, "a", "integral", 32, num(ctx, d.o.a, g.UVM_HEX, 32)),
                 (2, "b", "integral", 32, "'d0"), (2, "s", "string", 2, "xy"), (2, "c", "integral", 32, "'b0")]
    if ctx.choice("r", 2):
        d.r = _c["Inner"]("rr")
        d.r.fields = [("hidden", 1, 8)]
        want.append((1, "r", "PrInner", "-", ref(d.r)))
        ctx.cover("reference")
    want.append((1, "c", "integral", 32, num(ctx, d.c, g.UVM_BIN, 32)))
    if sub:
        d.z = ctx.int("z", 0, 0x7FFFFFFF)
        want.append((1, "z", "integral", 32, num(ctx, d.z, g.UVM_OCT, 32)))
    p = _c["T"]()
    for rep in range(2):
        rows_are(ctx, table(ctx, d.sprint(p)), want)
        ctx.check(p.istop(), "the printer is back at the top")


def h_tree(ctx, line):
    """the tree and line printers show every field with its value"""
    g = _c["g"]
    p = _c["Li" if line else "Tr"]()
    d = _c["Do"]("d")
    i = _c["Inner"]("i")
    i.fields = [("p", ctx.int("p", 0, 255), 8)]
    v, w = ctx.int("v", 0, 255), ctx.int("w", 0, 255)
    ks = [ctx.choice("k%d" % k, ["int", "obj", "str"]) for k in range(2)]

    def plan(p):
        for n, k in enumerate(ks):
            if k == "int":
                p.print_field_int("f%d" % n, v, 8, g.UVM_HEX)
            elif k == "obj":
                p.print_object("f%d" % n, i)
            else:
                p.print_string("f%d" % n, "abc")
        p.print_field_int("last", w, 8, g.UVM_BIN)
    d.plan = plan
    txt = d.sprint(p)
    w_ = [x for x in txt.replace("{", " ").replace("}", " ").split()]
    want = [("d:", "(PrDo" + ref(d) + ")")]
    for n, k in enumerate(ks):
        if k == "int":
            want.append(("f%d:" % n, num(ctx, v, g.UVM_HEX, 8)))
        elif k == "obj":
            want += [("f%d:" % n, "(PrInner" + ref(i) + ")"), ("p:", num(ctx, i.fields[0][1], g.UVM_HEX, 8))]
        else:
            want.append(("f%d:" % n, "abc"))
    want.append(("last:", num(ctx, w, g.UVM_BIN, 8)))
    ctx.check(len(w_) == 2 * len(want), "the text has each name and value once", got=len(w_), want=2 * len(want))
    for j, (n, c) in enumerate(want):
        ctx.check(w_[2 * j] == n, "the fields are printed in order", got=w_[2 * j], want=n)
        ctx.check(c(w_[2 * j + 1]) if callable(c) else w_[2 * j + 1] == c, "the value of the field is printed", field=n)
    if line:
        ctx.check("\n" not in txt.rstrip("\n"), "the line printer prints one line")
    else:
        lv = [len(ln) - len(ln.lstrip()) for ln in txt.split("\n") if ln.strip() not in ("", "{", "}")]
        ctx.check(len(lv) == len(want), "the tree printer prints one line for each field", got=lv)


def h_comp(ctx):
    """a component prints its children that have printing enabled"""
    g = _c["g"]
    PLAN["n"] = PLAN.get("n", 0) + 1
    t = _c["Comp"]("pt%d" % PLAN["n"], None)
    a, b = _c["Comp"]("a", t), _c["Comp"]("b", t)
    x = _c["Comp"]("x", a)
    cs = [t, a, b, x]
    for i, c in enumerate(cs):
        c.v = ctx.int("v%d" % i, 0, 0xFFFF)
    a.print_enabled, b.print_enabled, x.print_enabled = (bool(ctx.choice("en%d" % i, 2)) for i in range(3))

    def rows(c, lv, kids):
        out = [(lv, c.get_name(), "PrComp", "-", ref(c))]
        for k, kk in kids:
            if k.print_enabled:
                out += rows(k, lv + 1, kk)
        return out + [(lv + 1, "v", "integral", 16, num(ctx, c.v, g.UVM_HEX, 16))]
    rows_are(ctx, table(ctx, t.sprint(_c["T"]())), rows(t, 0, [(a, [(x, [])]), (b, [])]))


TOKM = dict(str_mode="token", fmt_cut=False)
HARNESSES = [
    Harness(h_values, "values", widths=[1, 8, 33], kinds=("field_int", "field"), tiers=("quick",), covers=("more bits than the field has",),
            bounds="6 radices, 3 widths, every value (also wider than the field, or negative)", **TOKM),
    Harness(h_values, "values_deep", widths=[1, 2, 7, 8, 16, 31, 32, 64, 65], tiers=("thorough",), bounds="9 widths", **TOKM),
    Harness(h_default_radix, "default_radix", bounds="4 radices", **TOKM),
    Harness(h_struct, "struct", n=2, tiers=("quick",), covers=("array of objects", "nested twice"),
            bounds="every pair of 11 kinds of field, 3 depths, any values", **TOKM),
    Harness(h_struct, "struct3", n=3, tiers=("thorough",), bounds="every three of 11 kinds of field", **TOKM),
    Harness(h_macro, "macro", sub=False, covers=("cycle", "reference"), bounds="8 macro fields, any values", **TOKM),
    Harness(h_macro, "macro_sub", sub=True, bounds="with a derived class", **TOKM),
    Harness(h_tree, "tree", line=False, bounds="3 fields of 3 kinds", **TOKM),
    Harness(h_tree, "line", line=True, bounds="3 fields of 3 kinds", **TOKM),
    Harness(h_comp, "comp", bounds="4 components, printing of each on or off", **TOKM),
]
