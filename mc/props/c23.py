import itertools
import random

from .. import choice, env
from ..core import Violation

ID = "C23"
LEVEL = "model_checking"
TECH = "all histories of selections (with every random draw) and scores from " \
       "initial and scored start states, against a reference tuner"
RULE = ("from every start state of the bounds, every history of operations "
        "{select, score the last selection, score an index} and every outcome "
        "of every random draw; after each operation the returned value, the "
        "counts and the final scores are compared with the reference; the set "
        "of values reachable over the draws of one selection is compared with "
        "the allowed set")
BOUNDS = {"quick": "1..4 values, exploration count 0..3 (also 4..7 for two "
                   "values and flags 1, 2, 4), factor 0.3 or 0; start states: "
                   "every value scored 0, 3, 4 or 5 times with one of 3 score "
                   "patterns; histories of 4 operations (5 from the initial "
                   "state); values scored 9, 16, 33, 60, 101 or 257 times; 5, 6, 9, 13, 26 and "
                   "40 values; 44 selections and "
                   "scores in a row of 2..11 values with exploration counts "
                   "0..20 and flags 1..16, under 5 schemes of draws",
          "thorough": "histories of 5 operations (6 from the initial state)"}
ASSUMES = ["random numbers are drawn through random.Random"]

PAT = [(-0.5,), (-0.2, -1.4), (-0.25, -0.25, -0.75)]


def scenarios(tier):
    d = 4 if tier == "quick" else 5
    out = []
    for n in (1, 2, 3, 4):
        for ex in (0, 1, 2, 3):
            for cf in (0.3, 0.0):
                out.append({"n": n, "explore": ex, "flag": 1, "cf": cf,
                            "start": [[0, 0]] * n, "depth": d + 1})
    for flag in (1, 2, 4):
        for ex in (3, 4, 5, 6, 7):
            out.append({"n": 2, "explore": ex, "flag": flag, "cf": 0.3,
                        "start": [[0, 0]] * 2, "depth": ex + 1, "sel": 1})
    st = [[k, q] for k in (3, 4, 5) for q in range(len(PAT))] + [[0, 0]]
    for n in (1, 2):
        for s in itertools.product(st, repeat=n):
            out.append({"n": n, "explore": 0, "flag": 1, "cf": 0.3,
                        "start": list(s), "depth": d})
    for s in itertools.product([[3, 0], [4, 0], [4, 1], [5, 2]], repeat=3):
        out.append({"n": 3, "explore": 0, "flag": 1, "cf": 0.3,
                    "start": list(s), "depth": d - 1})
    for s in itertools.product([[4, 1], [5, 0]], repeat=4):
        out.append({"n": 4, "explore": 0, "flag": 1, "cf": 0.3,
                    "start": list(s), "depth": d - 2})
    for s in itertools.product([[9, 1], [16, 2], [33, 0]], repeat=2):
        for cf in (0.3, 2.0):
            out.append({"n": 2, "explore": 0, "flag": 1, "cf": cf,
                        "start": list(s), "depth": 2})
            out.append({"n": 3, "explore": 0, "flag": 1, "cf": cf,
                        "start": list(s) + [[12, 0]], "depth": 2})
    # many values, many of them near best or seldom scored
    for n in (5, 6, 9, 13, 26, 40):
        for s in itertools.product([[4, 1], [4, 0], [3, 0]], repeat=2):
            for alt in (0, 1):
                st = [list(s[i * (i + alt) // 2 % 2]) for i in range(n)]
                out.append({"n": n, "explore": 0, "flag": 1, "cf": 0.3,
                            "start": st, "depth": 1})
                out.append({"n": n, "explore": 2, "flag": 1, "cf": 0.3,
                            "start": st, "depth": 1})
    for s in itertools.product([[60, 1], [101, 2], [257, 0]], repeat=2):
        out.append({"n": 2, "explore": 0, "flag": 1, "cf": 40.0,
                    "start": list(s), "depth": 2})
    for n in (2, 3, 5, 11):
        for ex in (0, 1, 9, 10, 20):
            for flag in (1, 2, 4, 8, 16) if n == 2 else (1,):
                for cf in (0.3, -1.0):
                    out.append({"n": n, "explore": ex, "flag": flag, "cf": cf,
                                "start": [[0, 0]] * n, "chain": 44})
    return out


class Ref:
    def __init__(self, n, cf, explore, flag):
        self.h = [[] for _ in range(n)]
        self.cf, self.explore, self.flag = cf, explore, flag
        self.cur = 0

    def final(self, i):
        h = self.h[i]
        return sum(h) / len(h) + self.cf / len(h) if h else 5.0

    def std(self, i):
        h = self.h[i]
        if len(h) < 2:
            return 0.0
        m = sum(h) / len(h)
        return (sum((x - m) ** 2 for x in h) / (len(h) - 1)) ** 0.5

    def allowed(self):
        """(certain, possible) indices of the next selection."""
        n = len(self.h)
        if self.explore > 0:
            if n == 2:
                i = 1 if self.flag & self.explore else 0
                return {i}, {i}
            return set(range(n)), set(range(n))
        few = {i for i in range(n) if len(self.h[i]) < 4}
        if few:
            return few, few
        best = max(range(n), key=self.final)
        b = self.final(best)
        sure, may = set(), set()
        for i in range(n):
            v = self.final(i) + self.std(i) / 10
            if v >= b + 1e-9 or self.h[i] == self.h[best]:
                sure.add(i)
            if v >= b - 1e-9:
                may.add(i)
        return sure, may


OPS_SCORE = [(None, -0.5), (None, -1.25)]


def run_chain(sc, ctx):
    import col_gen_estimator as c
    n = sc["n"]
    for scheme in range(5):
        for marks in ((-0.5,), (-0.3, -0.9, -0.1), (-1.0, -1.0, -0.2, 0.4)):
            p = c.Parameter(sc["cf"], "p", 7)
            for i in range(n):
                p.add_value(i)
            p.set_switch_flag(sc["flag"])
            p.set_explore_count(sc["explore"])
            ref = Ref(n, sc["cf"], sc["explore"], sc["flag"])
            t = [0]

            def pick(m):
                t[0] += 1
                return (0, m - 1, t[0], t[0] * t[0] + t[0] // 3,
                        5 * t[0] + t[0] // 4)[scheme] % m
            gens = [g for g in vars(p).values()
                    if isinstance(g, random.Random)] + [random._inst]
            cms = [env.scripted_random(pick, g) for g in gens]
            hist = []
            for cm in cms:
                cm.__enter__()
            try:
                for k in range(sc["chain"]):
                    _, may = ref.allowed()
                    got = p.get_best_value()
                    hist.append(got)
                    if got not in may:
                        raise Violation("value must not be selected here",
                                        selections=hist, allowed=sorted(may),
                                        start=sc, scheme=scheme)
                    ref.cur = got
                    if ref.explore > 0:
                        ref.explore -= 1
                    s = marks[(k + got) % len(marks)]
                    p.adjust_score(s)
                    ref.h[got].append(s)
                    ctx.step()
                    ctx.state(n, ref.h, ref.explore, ref.flag, sc["cf"])
                    if list(p.counts_) != [len(h) for h in ref.h]:
                        raise Violation("counts of scores",
                                        got=list(p.counts_), selections=hist)
                    if any(abs(a - ref.final(i)) > 1e-9
                           for i, a in enumerate(p.final_scores_)):
                        raise Violation("final scores", selections=hist,
                                        got=list(p.final_scores_))
            finally:
                for cm in cms:
                    cm.__exit__()
            ctx.trace()
            ctx.outcome("chain")


def run(sc, ctx):
    if "chain" in sc:
        return run_chain(sc, ctx)
    import col_gen_estimator as c
    n, depth = sc["n"], sc["depth"]
    vals = ["v%d" % i for i in range(n)]
    ops = [("sel",)]
    if not sc.get("sel"):
        ops += [("score", None, -0.5), ("score", None, -1.25),
                ("score", 0, -0.75)]
        if n > 1:
            ops.append(("score", n - 1, 0.25))
    else:
        ops.append(("score", None, -0.5))

    def execute(seq, ch):
        """Runs one history; the last operation's result, the values that
        must be possible for it and the number of draws before it."""
        p = c.Parameter(sc["cf"], "p", 7)
        other = c.Parameter(sc["cf"], "p", 7)
        for v in vals:
            p.add_value(v)
            other.add_value(v)
        p.set_switch_flag(sc["flag"])
        p.set_explore_count(sc["explore"])
        ref = Ref(n, sc["cf"], sc["explore"], sc["flag"])
        for i, (k, q) in enumerate(sc["start"]):
            for j in range(k):
                s = PAT[q][j % len(PAT[q])]
                p.adjust_score(s, i)
                ref.h[i].append(s)
        gens = [g for g in vars(p).values() if isinstance(g, random.Random)]
        ctxs = [env.scripted_random(lambda m: ch.pick(m, "draw"), g)
                for g in gens + [random._inst]]
        for cm in ctxs:
            cm.__enter__()
        try:
            for op in seq:
                sure = may = got = None
                base = len(ch.points)
                if op[0] == "sel":
                    sure, may = ref.allowed()
                    got = p.get_best_value()
                    if got not in vals:
                        raise Violation("not a registered value", got=got,
                                        history=seq, start=sc)
                    got = vals.index(got)
                    if got not in may:
                        raise Violation("value must not be selected here",
                                        got=got, allowed=sorted(may),
                                        history=seq, start=sc,
                                        draws=ch.trace())
                    ref.cur = got
                    if ref.explore > 0:
                        ref.explore -= 1
                else:
                    if op[1] is None:
                        p.adjust_score(op[2])
                        ref.h[ref.cur].append(op[2])
                    else:
                        p.adjust_score(op[2], op[1])
                        ref.h[op[1]].append(op[2])
        finally:
            for cm in ctxs:
                cm.__exit__()
        want = [len(h) for h in ref.h]
        fin = [ref.final(i) for i in range(n)]
        info = dict(history=seq, start=sc, draws=ch.trace())
        if list(p.counts_) != want or sum(p.counts_) != sum(want):
            raise Violation("counts of scores", got=list(p.counts_),
                            want=want, **info)
        if any(abs(a - b) > 1e-9 for a, b in zip(p.final_scores_, fin)):
            raise Violation("final scores", got=list(p.final_scores_),
                            want=fin, **info)
        if any(other.counts_) or list(other.values_) != vals \
                or list(p.values_) != vals:
            raise Violation("another tuner changed", **info)
        ctx.state(sc["n"], ref.h, ref.explore, ref.flag, ref.cur, sc["cf"])
        return got, sure, base

    level = [()]
    for d in range(1, depth + 1):
        nxt = []
        for seq in level:
            for op in ops:
                s = seq + (op,)
                nxt.append(s)
                # group the results of the last selection by earlier draws
                seen = {}
                for (got, sure, base), ch in choice.explore(
                        lambda ch: execute(s, ch)):
                    ctx.step()
                    ctx.trace()
                    if op[0] == "sel":
                        key = tuple(ch.trace()[:base])
                        e = seen.setdefault(key, (set(), sure))
                        e[0].add(got)
                if op[0] == "sel":
                    for key, (gots, sure) in seen.items():
                        if not sure <= gots:
                            raise Violation(
                                "a value that must be possible is never "
                                "selected", possible=sorted(gots),
                                allowed=sorted(sure), history=s, start=sc,
                                draws=key)
                        ctx.outcome("%d of %d values" % (len(gots), n))
        level = nxt
    ctx.sample({"start": sc, "history": level[-1]})

