from engine import uvmenv, simk
from engine.symex import *
from engine.runner import Harness

def setup():
    uvmenv.setup()

def h_basic(ctx):
    a = ctx.bits("a", 8); b = ctx.bits("b", 8)
    ctx.check(eq((a & b) + (a | b), a + b), "and-or")
    ctx.check(eq((a ^ b) + 2 * (a & b), a + b), "xor")
    if a > b:
        ctx.check(gt(a - b, 0), "gt"); ctx.cover("gt")
    else:
        ctx.check(ge(b - a, 0), "le"); ctx.cover("le")

def h_bad(ctx):
    a = ctx.bits("a", 16)
    ctx.check(ne(a * a, 1369), "no sqrt 1369")

def h_sched(ctx):
    import cocotb
    d = [ctx.int("d%d" % i, 1, 5) for i in range(3)]
    log = []
    async def w(i):
        await simk.delay(d[i]); log.append(i)
    async def main():
        ts = [cocotb.start_soon(w(i)) for i in range(3)]
        for t in ts: await t
    r = simk.run(main())
    ctx.check(r == "done", "done")
    for x, y in zip(log, log[1:]):
        ctx.check(le(d[x], d[y]), "order")
def h_ops(ctx):
    """each operator's term against plain Python on the solver's own model values"""
    import operator as op
    from engine.symex import SymInt
    a = ctx.int("a", -9, 9); b = ctx.int("b", -9, 9)
    o = ctx.choice("op", ["add", "sub", "mul", "floordiv", "mod", "and_", "or_", "xor", "lshift", "rshift"])
    f = getattr(op, o)
    if o in ("floordiv", "mod"):
        ctx.assume(ne(b, 0))
    if o in ("lshift", "rshift"):
        ctx.assume(ge(b, 0))
    r = f(a, b)
    ca, cb = int.__index__(a.__index__()) if hasattr(a, "lo") else a, b.__index__()
    ctx.check(eq(r, f(ca, cb)), "operator", op=o)

HARNESSES = [Harness(h_ops), Harness(h_basic, covers=("gt","le")), Harness(h_bad), Harness(h_sched)]
