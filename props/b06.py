"""B06: glob and /regular expression/ matching of names"""
from engine import uvmenv
from engine.runner import Harness
from engine.symex import and_, eq, iff, or_

_c = {}
AL = "ab.[]*?+(x "


def setup():
    uvmenv.setup()
    from uvm.base.sv import uvm_glob_to_re, uvm_re_match
    from uvm.base.uvm_globals import uvm_is_match
    from uvm.base.uvm_resource import UVMResource
    _c.update(g=uvm_glob_to_re, m=uvm_re_match, i=uvm_is_match, R=UVMResource)


def glob(p, s):
    """documented meaning: the whole of s, * any characters, + one or more, ? exactly one"""
    if p == "":
        return len(s) == 0
    if p[0] == "*":
        return or_(*[glob(p[1:], s[i:]) for i in range(len(s) + 1)])
    if p[0] == "+":
        return or_(*[glob(p[1:], s[i:]) for i in range(1, len(s) + 1)])
    if not len(s):
        return False
    if p[0] == "?":
        return glob(p[1:], s[1:])
    return and_(eq(code(s, 0), ord(p[0])), glob(p[1:], s[1:]))


def code(s, i):
    return s.cs[i] if hasattr(s, "cs") else ord(s[i])


def h_glob(ctx, toks, np, ns):
    n = ctx.choice("n", list(range(np + 1)))
    p = "".join(ctx.choice("p%d" % i, toks) for i in range(n))
    if len(p) > 1 and p[0] == p[-1] == "/":
        return
    s = ctx.string("s", ctx.choice("len", list(range(ns + 1))), AL)
    want = glob(p, s) if p else True        # an empty scope is no restriction
    ctx.check(iff(bool(_c["i"](p, s)), want), "uvm_is_match: whole name matches the glob", pattern=p)
    ctx.check(iff(_c["R"]("n", p).match_scope(s), want), "match_scope: whole scope matches the glob", pattern=p)
    if n == np:
        ctx.cover("full length")


def h_long(ctx, ns):
    """hierarchical scopes against long names"""
    p = ctx.choice("p", ["top.a", "top.*", "*.a", "top.*.b", "*", "top.a?", "*a*", "t?p.+", "top.a[0]", "top.a[*", "+.+"])
    pre = ctx.choice("pre", ["", "top", "top.", "x", "top.a"])
    s = pre + ctx.string("s", ctx.choice("len", list(range(ns + 1))), "ab.0[]t")
    ctx.check(iff(bool(_c["i"](p, s)), glob(p, s)), "hierarchical globs match whole names", pattern=p)


def h_regex(ctx, ns):
    """/.../ is a regular expression"""
    rx, f = ctx.choice("rx", [
        ("^top$", lambda s: s_eq(s, "top")), ("^a+$", lambda s: and_(len(s) > 0, *[eq(code(s, i), 97) for i in range(len(s))])),
        ("b", lambda s: or_(*[eq(code(s, i), 98) for i in range(len(s))])),
        ("^a|b$", lambda s: and_(len(s) > 0, or_(eq(code(s, 0), 97), eq(code(s, len(s) - 1), 98))) if len(s) else False),
        ("^[ab]?$", lambda s: len(s) == 0 if len(s) != 1 else or_(eq(code(s, 0), 97), eq(code(s, 0), 98))),
    ])
    s = ctx.string("s", ctx.choice("len", list(range(ns + 1))), "abtop.x/")
    p = "/" + rx + "/"
    ctx.check(iff(_c["R"]("n", p).match_scope(s), f(s)), "/regular expressions/ are matched as such", pattern=p)
    ctx.check(iff(bool(_c["i"](p, s)), f(s)), "uvm_is_match takes /regular expressions/", pattern=p)


def s_eq(s, lit):
    return len(s) == len(lit) and and_(*[eq(code(s, i), ord(c)) for i, c in enumerate(lit)])


HARNESSES = [
    Harness(h_glob, "globs", toks=["a", ".", "*", "?", "+", "[", "("], np=3, ns=4, tiers=("quick",), covers=["full length"],
            bounds="all globs of up to 3 of 7 characters, all strings of up to 4 of 11 characters"),
    Harness(h_glob, "globs_deep", toks=["a", "b", ".", "*", "?", "+", "[", "]"], np=4, ns=5, tiers=("thorough",),
            bounds="all globs of up to 4 of 8 characters, all strings of up to 5"),
    Harness(h_long, "scopes", ns=4, bounds="11 globs, names of up to 9 characters"),
    Harness(h_regex, "regex", ns=4, bounds="5 regular expressions"),
]
ASSUMPTIONS = ["re is modelled for symbolic strings (engine/sre.py); replays use the real one"]
