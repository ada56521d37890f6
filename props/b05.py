"""B05: resource pool and resource database"""
from engine import uvmenv, simk
from engine.runner import Harness
from engine.symex import and_, eq, ge, gt, iff, le, not_, or_
from . import b06

_c = {}
glob = b06.glob
SCOPES = ["a", "a.*", "*", "*b", ""]


def setup():
    uvmenv.setup()
    b06.setup()
    from uvm.base.uvm_resource import UVMResource, UVMResourcePool, PRI_HIGH, PRI_LOW
    from uvm.base.uvm_resource_db import UVMResourceDb
    from uvm.base.uvm_component import UVMComponent
    _c.update(R=UVMResource, P=UVMResourcePool, DB=UVMResourceDb, HI=PRI_HIGH, LO=PRI_LOW, acc=UVMComponent("acc", None))


def part(p, s):
    """the glob p matches a part of s"""
    n = len(s)
    return or_(*[glob(p, s[i:j]) for i in range(n + 1) for j in range(i, n + 1)])


def m(p, s):
    return glob(p, s) if p else True


class Entry:
    def __init__(self, scope, name, val, r=None):
        self.scope, self.name, self.val, self.r, self.prec, self.ro = scope, name, val, r, 1000, False


def make(ctx, n, names=("f",), precs=True, scopes=SCOPES, hows=("db", "set", "override", "type")):
    """n resources put into the pool; returns entries in search order"""
    q = []
    for i in range(n):
        scope = ctx.choice("s%d" % i, list(scopes))
        name = ctx.choice("n%d" % i, list(names))
        v = ctx.int("v%d" % i, 0, 1 << 40)
        how = ctx.choice("h%d" % i, list(hows))
        if how == "db":
            _c["DB"].set(scope, name, v, ctx.choice("acc%d" % i, [None, _c["acc"]]) if i == 0 else None)
            q.append(Entry(scope, name, v))
            rs = _c["P"].get().rtab[name]
            q[-1].r = rs[len(rs) - 1]
            continue
        r = _c["R"](name, scope)
        e = Entry(scope, name, v, r)
        if precs:
            r.precedence = e.prec = ctx.choice("p%d" % i, [1000, 1001, 999]) if precs == "few" else ctx.int("p%d" % i, 0, 2000)
        r.write(v)
        if how == "override":
            r.set_override()
            q.insert(0, e)
        elif how == "type":
            r.set_override(1)
            q.append(e)
        else:
            r.set()
            q.append(e)
    return q


def winners(q, s, name):
    """[(condition, entry)] of the resource found, condition that none is"""
    cand = [(e, m(e.scope, s)) for e in q if e.name == name]
    out = []
    for i, (e, c) in enumerate(cand):
        beaten = [and_(c2, ge(e2.prec, e.prec) if j < i else gt(e2.prec, e.prec))
                  for j, (e2, c2) in enumerate(cand) if j != i]
        out.append((and_(c, not_(or_(*beaten))) if beaten else c, e))
    return out, not_(or_(*[c for _, c in cand])) if cand else True


def lookup(ctx, q, s, name):
    out, none = winners(q, s, name)
    # lookups that match only a part of a scope: see h_partial
    ctx.assume(or_(not_(none), not_(or_(*[part(e.scope, s) for e in q if e.name == name]))))
    r = _c["DB"].get_by_name(s, name, False)
    ctx.check(iff(r is not None, not_(none)), "found iff a resource of the name has a matching scope")
    got = []
    ok = _c["DB"].read_by_name(s, name, got)
    ctx.check(bool(ok) == (r is not None) and len(got) == (1 if ok else 0), "read_by_name succeeds iff the resource exists")
    for c, e in out:
        ctx.check(or_(not_(c), r is e.r), "highest precedence wins, then the first in search order")
        if ok:
            ctx.check(or_(not_(c), eq(got[0], e.val)), "read_by_name reads the resource found")
    return r


def h_lookup(ctx, n, ns, names):
    q = make(ctx, n, names)
    s = ctx.string("s", ctx.choice("len", list(range(ns + 1))), "ab.")
    lookup(ctx, q, s, ctx.choice("name", list(names)))


def h_three(ctx):
    q = make(ctx, 3, scopes=["*", "a"], hows=("set", "override"))
    s = ctx.choice("s", ["a", "b"])
    r = lookup(ctx, q, s, "f")
    best = _c["R"].get_highest_precedence([e.r for e in q if m(e.scope, s)])
    ctx.check(best is r, "the resource class picks the same one")


def h_priority(ctx, n):
    """priorities change the order among equals; writes go to the resource found"""
    q = make(ctx, n, precs=False, scopes=["a", "*", "*b"])
    e = q[ctx.choice("who", list(range(n)))]
    if ctx.bool("hi"):
        _c["P"].get().set_priority_name(e.r, _c["HI"])
        q.remove(e)
        q.insert(0, e)
    else:
        _c["P"].get().set_priority_name(e.r, _c["LO"])
        q.remove(e)
        q.append(e)
    s = ctx.choice("s", ["a", "a.b", "b"])
    r = lookup(ctx, q, s, "f")
    nv = ctx.int("nv", 0, 1 << 40)
    ok = _c["DB"].write_by_name(s, "f", nv)
    ctx.check(bool(ok) == (r is not None), "write_by_name succeeds iff the resource exists")
    for e in q:
        if r is e.r:
            e.val = nv
        ctx.check(eq(e.r.read(), e.val), "only the resource found is written")
    ctx.check(not uvmenv.REPORTS, "no message")


def h_sort(ctx, n):
    """lookup_scope and sort_by_precedence"""
    q = make(ctx, n, ("f", "g"), scopes=["a", "*", "*b"], hows=("set", "override"), precs="few")
    s = ctx.choice("s", ["a", "a.b", "b"])
    P = _c["P"]
    rq = P.get().lookup_scope(s)
    found = [rq[i] for i in range(len(rq))]
    exp = [e for e in q if m(e.scope, s)]
    ctx.check(len(found) == len(exp) and all(any(r is e.r for r in found) for e in exp), "lookup_scope finds every match")
    for f in ("f", "g"):
        mine = [e.r for e in exp if e.name == f]
        ctx.check(len(mine) == len([r for r in found if r.get_name() == f]) and
                  all(x is y for x, y in zip(mine, [r for r in found if r.get_name() == f])), "in search order per name")
    srt = P.sort_by_precedence(rq)
    srt = [srt[i] for i in range(len(srt))]
    ctx.check(len(srt) == len(found) and all(any(x is y for x in srt) for y in found), "sorting keeps every match")
    at = [next(i for i, y in enumerate(found) if y is x) for x in srt]
    for i in range(len(srt) - 1):
        a, b = srt[i].precedence, srt[i + 1].precedence
        ctx.check(gt(a, b) if at[i] > at[i + 1] else ge(a, b), "sorted by precedence, stable")


def h_rw(ctx, n):
    """read-only resources are not written; modification is seen by waiters"""
    r = _c["R"]("f", "a")
    val, ro, woken = None, False, []

    async def waiter():
        await r.wait_modified()
        woken.append(1)

    async def main():
        nonlocal val, ro
        import cocotb
        cocotb.start_soon(waiter())
        await simk.delay(1)
        changed = False
        for i in range(n):
            k = ctx.choice("k%d" % i, ["w", "ro", "rw"])
            uvmenv.clear()
            if k == "w":
                v = ctx.int("v%d" % i, 0, 3)
                r.write(v, ctx.choice("acc%d" % i, [None, _c["acc"]]))
                if ro:
                    ctx.check(len(uvmenv.errors()) == 1, "writing a read-only resource is an error")
                else:
                    ctx.check(not uvmenv.errors(), "writing is no error")
                    changed = or_(changed, val is None, eq(v, val) if val is None else not_(eq(v, val)))
                    val = v
            elif k == "ro":
                r.set_read_only()
                ro = True
            else:
                r.set_read_write()
                ro = False
            ctx.check(bool(r.is_read_only()) == ro, "is_read_only")
            got = r.read(_c["acc"])
            ctx.check(got is None if val is None else eq(got, val), "read returns the last value written")
            await simk.delay(1)
            ctx.check(iff(len(woken) == 1, changed), "wait_modified returns when the value changes")
    ctx.check(simk.run(main()) != "livelock", "no livelock")


def h_partial(ctx, ns):
    """one resource for scope a.b"""
    _c["DB"].set("a.b", "f", 5)
    s = ctx.string("s", ctx.choice("len", list(range(ns + 1))), "ab.")
    r = _c["DB"].get_by_name(s, "f", False)
    if truth(ctx, glob("a.b", s)):
        ctx.check(r is not None, "found in its scope")
    elif truth(ctx, part("a.b", s)):
        ctx.check(r is None, "not found in a scope of which its scope is a part")
    else:
        ctx.check(r is None, "not found in another scope")


def truth(ctx, cond):
    return ctx.branch(cond) if hasattr(ctx, "branch") else bool(cond)


HARNESSES = [
    Harness(h_lookup, "lookup", n=2, ns=3, names=("f",), tiers=("quick",),
            bounds="2 resources (5 scopes, 3 precedences, 4 ways to set), any scope of up to 3 characters"),
    Harness(h_lookup, "lookup_deep", n=2, ns=4, names=("f", "g"), tiers=("thorough",), bounds="same, 2 names, 4 characters"),
    Harness(h_three, "three", tiers=("quick",), bounds="3 resources of any precedences, set in any order"),
    Harness(h_priority, "priority", n=2, tiers=("quick",), bounds="2 resources, 1 priority change, 1 write"),
    Harness(h_priority, "priority3", n=3, tiers=("thorough",), bounds="3 resources"),
    Harness(h_sort, "sort", n=2, bounds="2 resources"),
    Harness(h_rw, "read_write", n=3, bounds="3 operations"),
    Harness(h_partial, "partial", ns=4, bounds="scopes of up to 4 characters"),
]
