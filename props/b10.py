"""B10: callbacks"""
from engine import simk, uvmenv
from engine.runner import Harness
from engine.symex import eq

_c = {}
CALLS = []


def setup():
    uvmenv.setup()
    from uvm.base.uvm_callback import UVMCallback, UVMCallbacks, UVMCallbackIter, UVMCallbacksBase
    from uvm.base.uvm_object import UVMObject
    from uvm.base.uvm_report_object import UVMReportObject
    from uvm.base.uvm_misc import UVM_APPEND, UVM_PREPEND
    from uvm.macros import (uvm_register_cb, uvm_do_callbacks, uvm_do_callbacks_async, uvm_do_callbacks_exit_on)

    class K1(UVMCallback):
        ret = 0

        def hit(self, *a):
            CALLS.append((self, a))
            f = getattr(self, "then", None)
            if f:
                f()
            return self.ret

        async def ahit(self, *a):
            await simk.delay(1)
            CALLS.append((self, a))

    class K2(K1):
        pass

    class K3(UVMCallback):
        def hit(self, *a):
            CALLS.append((self, a))

    class U(UVMObject):
        pass

    class V(UVMReportObject):
        pass
    for t in (U, V):
        uvm_register_cb(t, K1)
        uvm_register_cb(t, K3)
    UVMCallbacksBase.m_tracing = False
    _c.update(CB=UVMCallbacks, It=UVMCallbackIter, K1=K1, K2=K2, K3=K3, U=U, V=V, A=UVM_APPEND, P=UVM_PREPEND,
              do=uvm_do_callbacks, ado=uvm_do_callbacks_async, ex=uvm_do_callbacks_exit_on)


class Model:
    def __init__(self):
        self.tw = []
        self.q = {}

    def put(self, q, cb, app):
        if cb in q:
            return False
        q.append(cb) if app else q.insert(0, cb)
        return True

    def add(self, o, cb, app):
        if o is None:
            if not self.put(self.tw, cb, app):
                return False
            for q in self.q.values():
                self.put(q, cb, app)
            return True
        if o not in self.q:
            self.q[o] = list(self.tw)
        return self.put(self.q[o], cb, app)

    def get(self, o):
        return self.q.get(o, self.tw)


def h_history(ctx, n, cbs, ocls, modes):
    C, m = _c["CB"], Model()
    objs = [_c[k]("o%d" % i) for i, k in enumerate(ocls)]
    ks = [_c[k]("c%d" % i) for i, k in enumerate(cbs)]
    on = [True] * len(ks)
    for i in range(n):
        k = ctx.choice("cb%d" % i, list(range(len(ks))))
        op = ctx.choice("op%d" % i, ["add", "mode"] if modes and i else ["add"])
        uvmenv.clear()
        if op == "mode":
            v = ctx.choice("on%d" % i, [0, 1])
            ctx.check(bool(ks[k].callback_mode(v)) == on[k], "callback_mode returns the mode before")
            on[k] = bool(v)
            ctx.check(bool(ks[k].is_enabled()) == on[k], "is_enabled")
            continue
        o = ctx.choice("o%d" % i, [None] + list(range(len(objs))))
        app = ctx.bool("append%d" % i)
        C.add(None if o is None else objs[o], ks[k], _c["A"] if app else _c["P"])
        fresh = m.add(o, ks[k], app)
        ctx.check(bool(uvmenv.reports(rid="CBPREG")) == (not fresh), "adding a callback again is warned about", fresh=fresh)
    uvmenv.clear()
    for o in range(len(objs)):
        for K in ("K1", "K2", "K3"):
            exp = [c for c in m.get(o) if isinstance(c, _c[K]) and on[ks.index(c)]]
            del CALLS[:]
            _c["do"](objs[o], _c[K], "hit", 5, o)
            ctx.check([c for c, _ in CALLS] == exp, "the enabled callbacks of the type are called, once each, in order",
                      exp=[c.get_name() for c in exp], got=[c.get_name() for c, _ in CALLS])
            ctx.check(all(a == (5, o) for _, a in CALLS), "with the arguments")
            it = _c["It"](objs[o], _c[K])
            got, c = [], it.first()
            while c is not None and len(got) < 9:
                ctx.check(it.get_cb() is c, "get_cb is the current one")
                got.append(c)
                c = it.next()
            ctx.check(got == exp, "first and next go through them")
            got, c = [], it.last()
            while c is not None and len(got) < 9:
                got.append(c)
                c = it.prev()
            ctx.check(got == exp[::-1], "last and prev go back through them")
            if K == "K1":
                which = None
                for j, c in enumerate(exp):
                    c.ret = j + 1
                for stop in range(1, len(exp) + 2):
                    del CALLS[:]
                    for j, c in enumerate(exp):
                        c.ret = int(j + 1 == stop)
                    r = _c["ex"](objs[o], _c[K], "hit", 1)
                    ctx.check([c for c, _ in CALLS] == exp[:stop], "exit_on stops at the first that returns the value")
                    ctx.check(bool(r) == (stop <= len(exp)), "and says so")
    ctx.check(not uvmenv.REPORTS, "no message")


def h_async(ctx, n):
    """coroutine callbacks are called one after the other; a callback may switch others off"""
    C = _c["CB"]
    o = _c["V"]("o")
    ks = [_c["K1"]("c%d" % i) for i in range(n)]
    for k in ks:
        C.add(o if ctx.bool("own" + k.get_name()) else None, k)
    order = []
    it = _c["It"](o, _c["K1"])
    c = it.first()
    while c is not None:
        order.append(c)
        c = it.next()
    ctx.check(set(map(id, order)) == set(map(id, ks)), "all of them")
    who, whom = ctx.choice("who", list(range(n))), ctx.choice("whom", list(range(n)))
    order[who].then = lambda: order[whom].callback_mode(0)
    del CALLS[:]

    async def main():
        await _c["ado"](o, _c["K1"], "ahit", 1)
    ctx.check(simk.run(main()) == "done", "finishes")
    ctx.check([c for c, _ in CALLS] == order and eq(simk.now(), n), "one after the other")
    del CALLS[:]
    _c["do"](o, _c["K1"], "hit")
    ctx.check([c for c, _ in CALLS] == [c for i, c in enumerate(order) if i != whom or whom <= who],
              "a callback switched off is not called any more")


def h_gc(ctx):
    """callbacks of a report object that raises messages from its own callback, and of many objects"""
    C = _c["CB"]
    n = ctx.choice("n", [1, 2, 3, 4])
    objs = [_c["U"]("u%d" % i) for i in range(n)]
    own = [_c["K1"]("k%d" % i) for i in range(n)]
    tw = _c["K1"]("tw")
    late = ctx.bool("late")
    app = _c["A"] if ctx.bool("app") else _c["P"]
    if not late:
        C.add(None, tw, app)
    for o, k in zip(objs, own):
        C.add(o, k)
    if late:
        C.add(None, tw, app)
    for o, k in zip(objs, own):
        del CALLS[:]
        _c["do"](o, _c["K1"], "hit")
        exp = [k, tw] if late and app == _c["A"] else [tw, k]
        ctx.check([c for c, _ in CALLS] == exp, "every object calls its own and the type's callbacks")
    o = _c["U"]("other")
    del CALLS[:]
    _c["do"](o, _c["K1"], "hit")
    ctx.check([c for c, _ in CALLS] == [tw], "an object without callbacks of its own calls the type's")


HARNESSES = [
    Harness(h_history, "history", n=3, cbs=["K1", "K2", "K3"], ocls=["U", "V"], modes=True, tiers=("quick",),
            bounds="3 operations on 3 callbacks of 3 classes, 2 objects and type-wide"),
    Harness(h_history, "deep", n=4, cbs=["K1", "K1", "K2"], ocls=["U", "U"], modes=True, tiers=("thorough",),
            bounds="4 operations on 3 callbacks, 2 objects and type-wide"),
    Harness(h_async, "coroutines", n=3, bounds="3 callbacks, one switching off another"),
    Harness(h_gc, "many", bounds="up to 4 objects"),
]
