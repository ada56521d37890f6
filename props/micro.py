"""A few lines of event-driven simulator for oracles: processes are generators which
yield ("t", delay) to let time pass or a list (a wait list) to block on it."""


from engine.symex import gt


class Micro:
    def __init__(self, ctx=None):
        """with a ctx, it is assumed that no two timed events coincide"""
        self.ctx = ctx
        self.now = 0
        self.timed = []
        self.ready = []

    def spawn(self, gen):
        self.ready.append(gen)

    def wake(self, lst, n=None):
        got = lst[:] if n is None else lst[:n]
        del lst[:len(got)]
        self.ready += got
        return got

    def run(self, until=None):
        while True:
            while self.ready:
                g = self.ready.pop(0)
                y = next(g, None)
                if isinstance(y, tuple):
                    self.timed.append((self.now + y[1], g))
                elif y is not None:
                    y.append(g)
            if not self.timed:
                return
            b = 0
            for i in range(1, len(self.timed)):
                if self.timed[i][0] < self.timed[b][0]:
                    b = i
                elif self.ctx is not None:
                    self.ctx.assume(gt(self.timed[i][0], self.timed[b][0]))
            if until is not None and self.timed[b][0] >= until:
                return
            self.now, g = self.timed.pop(b)
            self.ready.append(g)


def distinct(ctx, times):
    """no two of the (symbolic) times coincide"""
    from engine.symex import ne, and_
    cs = [ne(a, b) for i, a in enumerate(times) for b in times[:i]]
    if cs:
        ctx.assume(and_(*cs))
