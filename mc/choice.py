"""Stateless exploration of a program with explicit choice points."""


class Divergence(Exception):
    """Replaying a prefix met a different choice point."""


class Chooser:
    __slots__ = ("prefix", "points", "labels")

    def __init__(self, prefix):
        self.prefix = prefix
        self.points = []      # (n, chosen, costs)
        self.labels = []

    def pick(self, n, label=None, costs=None):
        """Choose one of n alternatives; alternative 0 is the default answer.
        costs[i] is the deviation cost of alternative i (default 0 for 0, else
        1)."""
        i = len(self.points)
        if n <= 0:
            raise Divergence("choice point without alternatives")
        if i < len(self.prefix):
            c, pn, pl = self.prefix[i]
            if pn != n or pl != label:
                raise Divergence("choice %d was (%s,%s), is now (%s,%s)" %
                                 (i, pn, pl, n, label))
        else:
            c = 0
        self.points.append((n, c, costs, label))
        return c

    def trace(self):
        return [p[1] for p in self.points]


def explore(run, bound=None, max_runs=None, on_cap=None):
    """Run `run(chooser)` for every sequence of choices whose total deviation
    cost is at most `bound` (None: all of them).  Yields (result, chooser)."""
    stack = [[]]
    runs = 0
    while stack:
        prefix = stack.pop()
        ch = Chooser(prefix)
        res = run(ch)
        runs += 1
        yield res, ch
        if max_runs is not None and runs >= max_runs:
            if stack and on_cap:
                on_cap()
            return
        spent = 0
        pts = ch.points
        pre = []
        alts = []
        for i, (n, c, costs, label) in enumerate(pts):
            if i >= len(prefix):
                for a in range(1, n):
                    cost = (costs[a] if costs else 1)
                    if bound is None or spent + cost <= bound:
                        alts.append(list(pre) + [(a, n, label)])
            spent += (costs[c] if costs else (1 if c else 0))
            pre.append((c, n, label))
        # fewest deviations first would need a queue; depth-first with reversed
        # push explores the later (shorter) deviations first.
        stack.extend(alts)


def replay(run, trace):
    """Re-execute one recorded list of choices."""
    class R(Chooser):
        __slots__ = ()

        def pick(self, n, label=None, costs=None):
            i = len(self.points)
            c = trace[i] if i < len(trace) else 0
            if not 0 <= c < n:
                raise Divergence("recorded choice %d out of range" % i)
            self.points.append((n, c, costs, label))
            return c
    ch = R([])
    return run(ch), ch
