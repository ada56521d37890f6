"""B22: pools and queues"""
from engine import uvmenv
from engine.runner import Harness
from engine.symex import eq, ge, lt, ne
from .b05 import truth
from .b23 import table

_c = {}


def setup():
    uvmenv.setup()
    from uvm.base.uvm_pool import UVMPool, UVMObjectStringPool, UVMEventPool, UVMBarrierPool
    from uvm.base.uvm_queue import UVMQueue
    from uvm.base.uvm_event import UVMEvent
    from uvm.base.uvm_barrier import UVMBarrier
    from uvm.base.uvm_object import UVMObject
    from uvm.base.uvm_printer import UVMTablePrinter
    _c.update(P=UVMPool, SP=UVMObjectStringPool, EP=UVMEventPool, BP=UVMBarrierPool, Q=UVMQueue, E=UVMEvent,
              B=UVMBarrier, O=UVMObject, Pr=UVMTablePrinter)


# --- pools
class Model:
    """an associative array in order of insertion"""

    def __init__(self):
        self.it = []    # [key, value]

    def at(self, k):
        for i, e in enumerate(self.it):
            if truth(_c["ctx"], eq(e[0], k)):
                return i
        return None


def same(ctx, p, m, t):
    ctx.check(p.num() == len(m.it) and len(p) == len(m.it), "the pool holds as many items as were added and not deleted" + t)
    ks = p.key_list()
    ctx.check(len(ks) == len(m.it) and len(list(p.keys())) == len(ks), "every key is listed once" + t)
    for a, b in zip(ks, m.it):
        ctx.check(eq(a, b[0]), "keys are listed in the order they were added" + t)
    ctx.check(bool(p.has_first()) == bool(m.it) and bool(p.has_last()) == bool(m.it), "has_first and has_last tell an empty pool" + t)


def h_pool(ctx, n, ops=None):
    _c["ctx"] = ctx
    T = [None, list][ctx.choice("default", 2)]
    p = _c["P"]("p", T)
    m = Model()
    for s in range(n):
        op = ctx.choice("op%d" % s, ops or ["add", "set", "get", "delete", "delete_all", "ask", "copy"])
        k = ctx.int("k%d" % s, 0, 5) if op not in ("delete_all", "copy") else None
        i = m.at(k) if k is not None else None
        t = " (after %s)" % op
        if op in ("add", "set"):
            v = ctx.int("v%d" % s, 0, 99)
            if op == "add":
                p.add(k, v)
            else:
                p[k] = v
            if i is None:
                m.it.append([k, v])
            else:
                m.it[i][1] = v
            ctx.cover("replaced" if i is not None else "added")
        elif op == "get":
            v = p.get(k)
            if i is not None:
                ctx.check(eq(v, m.it[i][1]) if m.it[i][1] is not T_MARK else isinstance(v, list), "get returns the item last stored under the key")
            elif T is None:
                ctx.check(v is None, "get of a missing key in a pool without a default returns nothing")
            else:
                ctx.check(isinstance(v, T) and p.get(k) is v, "get of a missing key makes a new item and keeps it")
                m.it.append([k, T_MARK])
                ctx.cover("made")
        elif op == "delete":
            p.delete(k)
            if i is not None:
                del m.it[i]
                ctx.cover("deleted")
        elif op == "delete_all":
            p.delete()
            m.it = []
        elif op == "copy":
            q = p.create("q")
            q.copy(p)
            same(ctx, q, m, " (in a copy)")
            p.add(77, 1)
            p.delete(77)
            q.add(78, 1)
            if m.it:
                q.delete(m.it[0][0])
            ctx.cover("copied")
        else:
            ctx.check(bool(p.exists(k)) == (i is not None), "exists tells whether the key is there")
            ctx.check((k in p) == (i is not None), "`in` tells whether the key is there")
            try:
                v = p[k]
                ok = i is not None and (m.it[i][1] is T_MARK or truth(ctx, eq(v, m.it[i][1])))
            except IndexError:
                ok = i is None
            ctx.check(ok, "[] returns the item stored under the key or raises IndexError")
        same(ctx, p, m, t)


T_MARK = object()


def h_walk(ctx, n):
    """first/next/last/prev visit the keys in order, whatever is deleted on the way"""
    _c["ctx"] = ctx
    p = _c["P"]("p")
    ks = [ctx.int("k%d" % i, 0, 9) for i in range(n)]
    for i in range(n):
        for j in range(i):
            ctx.assume(ne(ks[i], ks[j]))
        p.add(ks[i], i)
    if ctx.choice("back", 2):
        got = [p.last()]
        while p.has_prev():
            got.append(p.prev())
        ctx.check(p.prev() is None, "prev at the first key returns nothing")
        want = ks[::-1]
        ctx.cover("backward")
        ctx.check(len(got) == len(want), "the walk visits every key once")
        for a, b in zip(got, want):
            ctx.check(eq(a, b), "the walk visits the keys in order")
        if n > 1:
            p.last()
            a = p.prev()
            ctx.check(eq(a, ks[-2]) and eq(p.next(), ks[-1]), "next undoes prev")
        return
    at = ctx.choice("at", n + 1)        # before visiting number `at`
    what = ctx.choice("what", ["delete", "print", "copy", "add", "nothing", "lookup"])
    victim = ctx.choice("victim", n) if what == "delete" else None
    got = []
    for i in range(n + 2):
        if i == at:
            if what == "delete":
                p.delete(ks[victim])
                ctx.cover("deleted the current one" if victim == i - 1 else
                          "deleted one already visited" if victim < i else "deleted one to come")
            elif what == "print":
                p.sprint(_c["Pr"]())
            elif what == "copy":
                _c["P"]("q").copy(p)
            elif what == "lookup":
                p.get(ks[0])
                p.exists(ks[-1])
                p.key_list()
            elif what == "add":
                p.add(99, 99)
        k = (p.first() if p.has_first() else None) if not got else p.next()
        if k is None:
            break
        got.append(k)
    want = [k for j, k in enumerate(ks) if j < at or j != victim] + ([99] if what == "add" else [])
    ctx.check(len(got) == len(want), "the walk visits every key that is left exactly once", got=len(got), want=len(want))
    for a, b in zip(got, want):
        ctx.check(eq(a, b), "the walk visits the keys in order")
    ctx.check(p.next() is None and not p.has_next(), "next after the last key returns nothing")


def h_string(ctx, kind, n=3):
    """pools that make their items"""
    C, I = {"object": ("SP", "O"), "event": ("EP", "E"), "barrier": ("BP", "B")}[kind]
    uvmenv.clear()
    p = _c[C]("p")
    m = {}
    old = []
    for s in range(n):
        k = ctx.choice("k%d" % s, ["a", "b", "cc"])
        op = ctx.choice("op%d" % s, ["get", "delete", "add"])
        if op == "get":
            x = p.get(k)
            ctx.check(type(x) is _c[I] and x.get_name() == k, "the item made carries the key as its name")
            ctx.check(x is m[k] if k in m else not any(x is o for o in old), "the same key always gets the same item")
            m[k] = x
            if not any(x is o for o in old):
                old.append(x)
            ctx.cover("got")
        elif op == "add":
            x = _c[I](k)
            p.add(k, x)
            m[k] = x
            old.append(x)
        else:
            n = len(uvmenv.reports(rid="POOLDEL"))
            p.delete(k)
            ctx.check(len(uvmenv.reports(rid="POOLDEL")) == n + (0 if k in m else 1), "deleting a missing key warns")
            m.pop(k, None)
            ctx.cover("deleted")
        ctx.check(sorted(p.key_list()) == sorted(m) and p.num() == len(m), "the pool holds the keys used and not deleted")
        for x in m:
            ctx.check(p[x] is m[x] and p.exists(x), "an item stays under its key")
    if m:
        p.first()
    txt = p.sprint(_c["Pr"]())
    rows = table(ctx, txt)
    ctx.check([r[1].strip("[]") for r in rows] == ["p", "pool"] + p.key_list(), "every item is printed")
    ctx.check(len(set(r[0] for r in rows[2:])) <= 1, "the items are printed at one level")
    ctx.check([k for k in [p.next() for _ in range(5)] if k] == p.key_list()[1:], "printing leaves an iteration where it is")


def h_global(ctx):
    """global pools and queue: one of each, shared"""
    P, SP, Q = _c["P"], _c["SP"], _c["Q"]
    ctx.check(P.get_global_pool() is P.get_global_pool() and SP.get_global_pool() is SP.get_global_pool() and
              P.get_global_pool() is not SP.get_global_pool(), "one global pool of each kind")
    v = ctx.int("v", 0, 99)
    P.get_global_pool().delete()
    P.get_global_pool().add("x", v)
    ctx.check(eq(P.get_global("x"), v), "get_global reads the global pool")
    o = SP.get_global("x")
    ctx.check(SP.get_global_pool().get("x") is o and SP.get_global("x") is o, "get_global makes an item once")
    q = Q.get_global_queue()
    q.delete()
    ctx.check(Q.get_global_queue() is q, "one global queue")
    q.push_back(1)
    q.push_back(v)
    ctx.check(eq(Q.get_global(1), v), "get_global reads the global queue")
    SP.get_global_pool().delete("x")
    q.delete()


# --- queues
def h_queue(ctx, n, q0=2):
    q = _c["Q"]("q")
    m = [ctx.int("i%d" % i, 0, 99) for i in range(ctx.choice("n", q0 + 1))]
    for x in m:
        q.push_back(x)
    for s in range(n):
        op = ctx.choice("op%d" % s, ["push_back", "push_front", "pop_front", "pop_back", "insert", "delete", "clear",
                                     "set", "get", "ends", "find", "copy", "slice"])
        uvmenv.clear()
        v = ctx.int("v%d" % s, 0, 99) if op in ("push_back", "push_front", "insert", "set", "find") else None
        i = ctx.int("x%d" % s, -2 if op in ("insert", "delete", "get") else 0, 4) if op in ("insert", "delete", "set", "get") else None
        bad = i is not None and truth(ctx, i < 0) or (i is not None and truth(ctx, i >= len(m)))
        k = ctx.concretise(i) if i is not None and hasattr(ctx, "concretise") else i
        if op == "push_back":
            q.push_back(v)
            m.append(v)
        elif op == "push_front":
            q.push_front(v)
            m.insert(0, v)
        elif op in ("pop_front", "pop_back"):
            if m:
                w = m.pop(0 if op == "pop_front" else -1)
                ctx.check(eq(getattr(q, op)(), w), op + " returns the item at its end")
        elif op == "insert":
            q.insert(i, v)
            if not bad:
                m.insert(k, v)
            ctx.check(len(uvmenv.reports(rid="QUEUEINS")) == int(bad), "an insert out of range warns and changes nothing")
        elif op == "delete":
            q.delete(i)
            if k == -1:
                m = []
            elif not bad:
                m.pop(k)
            ctx.check(len(uvmenv.reports(rid="QUEUEDEL")) == int(bad and k != -1), "a delete out of range warns and changes nothing")
        elif op == "clear":
            q.delete()
            m = []
        elif op == "set":
            try:
                q[i] = v
                ctx.check(not bad, "[]= out of range raises an exception")
                m[k] = v
            except Exception:
                ctx.check(bad, "[]= within range succeeds")
        elif op == "get":
            w = q.get(i)
            ctx.check(eq(w, 0 if bad else m[k]), "get returns the item at the index, or 0 when out of range")
            ctx.check(len(uvmenv.reports(rid="QUEUEGET")) == int(bad), "a get out of range warns")
            if not bad:
                ctx.check(eq(q[i], m[k]), "[] returns the item at the index")
        elif op == "ends":
            ctx.check(q.front() is None if not m else eq(q.front(), m[0]), "front is the first item")
            ctx.check(q.back() is None if not m else eq(q.back(), m[-1]), "back is the last item")
        elif op == "find":
            f = q.find_with(lambda e: e >= v)
            want = [e for e in m if truth(ctx, e >= v)]
            ctx.check(f.size() == len(want), "find_with finds every item that qualifies")
            for a, b in zip(f, want):
                ctx.check(eq(a, b), "find_with keeps the order")
            j = q.find_first_index(lambda e: e >= v)
            first = next((j for j, e in enumerate(m) if truth(ctx, e >= v)), -1)
            ctx.check(j == first, "find_first_index finds the first item that qualifies")
        elif op == "slice":
            a, b = ctx.choice("a%d" % s, 3), ctx.choice("b%d" % s, 4)
            w = q[a:b]
            ctx.check(len(w) == len(m[a:b]), "a slice has the items from the first to before the last index")
            for x, y in zip(w, m[a:b]):
                ctx.check(eq(x, y), "a slice has the items from the first to before the last index")
        else:
            c = q.clone() if ctx.choice("clone%d" % s, 2) else _c["Q"]("c")
            c.copy(q)
            for a, b in zip(c, m):
                ctx.check(eq(a, b), "a copy holds the same items in the same order")
            ctx.check(c.size() == len(m), "a copy holds the same items in the same order")
            c.push_back(5)
            c.push_front(6)
            ctx.cover("copied")
        ctx.check(q.size() == len(m) and len(q) == len(m), "the size is the number of items (after %s)" % op)
        for j, w in enumerate(m):
            ctx.check(eq(q[j], w), "the items are those stored, in order (after %s)" % op)
        ctx.check(len([1 for w in q]) == len(m), "iterating visits every item")


HARNESSES = [
    Harness(h_pool, "pool", hash_mode="const", n=3, tiers=("quick",), covers=("added", "replaced", "deleted", "made", "copied"),
            bounds="every sequence of 3 of 7 operations, any keys and values"),
    Harness(h_pool, "pool4", hash_mode="const", n=4, tiers=("thorough",), bounds="every sequence of 4 of 7 operations"),
    Harness(h_walk, "walk1", hash_mode="const", n=1, bounds="pool of 1 key"),
    Harness(h_walk, "walk3", hash_mode="const", n=3, covers=("backward", "deleted the current one", "deleted one already visited",
            "deleted one to come"), bounds="pool of 3 keys; one deleted, added, printed or copied at any step"),
    Harness(h_walk, "walk5", hash_mode="const", n=5, tiers=("thorough",), bounds="pool of 5 keys"),
    Harness(h_string, "strings", kind="object", str_mode="conc", fmt_cut=False, covers=("got", "deleted"), bounds="3 of 3 operations on 3 keys"),
    Harness(h_string, "events", kind="event", n=4, str_mode="conc", fmt_cut=False, bounds="same, event pool", tiers=("thorough",)),
    Harness(h_string, "barriers", kind="barrier", str_mode="conc", fmt_cut=False, bounds="same, barrier pool", tiers=("thorough",)),
    Harness(h_global, "globals", str_mode="conc", fmt_cut=False, bounds="any value"),
    Harness(h_queue, "queue", n=2, tiers=("quick",), covers=("copied",), bounds="queue of up to 2 items, every 2 of 13 operations, any index from -2 to 4"),
    Harness(h_queue, "queue3", n=3, tiers=("thorough",), bounds="every 3 of 13 operations"),
]
