from .. import choice, loop, env
from ..core import Violation
from ..refs import lcg
import itertools

import numpy as np

ID = "C02"
LEVEL = "model_checking"
TECH = ("every sequence of component answers times every placement of "
        "time jumps (virtual clock) driven through the real fit loop, "
        "replayed on a reference loop")
RULE = ("every execution of ColGenClassifier.fit with stub components and a "
        "virtual clock: every sequence of pricing answers, every placement of "
        "up to the stated number of time jumps among the component calls, "
        "every iteration and time limit of the alphabet; flags, counters, "
        "component times and the reason for stopping are compared with the "
        "reference loop")
BOUNDS = {"quick": "shapes up to 3 subproblems, up to 3 answering iterations, "
                   "iteration limit none/0/1/2/3, time limit none/0/0.5/5/10, at most "
                   "2 time jumps of 4, 7 or 11 s, improvement reports free; "
                   "second fits with the same or other limits; "
                   "up to 16 subproblems per level and 6 levels: the limit "
                   "passing during each single component call of three answer "
                   "schemes, or little by little over 45 answering iterations "
                   "under 24 schemes, iteration limits up to 60",
          "thorough": "as quick with up to 3 jumps and 4 iterations"}
ASSUMES = ["time passes only inside component calls",
           "elapsed time exactly equal to the limit is not exercised"]

B = [(), ("A",)]
LONG = [[1], [1, 1], [12], [1, 16], [3, 9], [1, 1, 1, 1, 1, 1], [2, 4, 8]]
BR = [(), ("A",), ("R",), ("R", "A")]
X = np.array([[0.0, 1.0], [1.0, 0.0], [2.0, 2.0]])
Y = np.array([3, -2, 3])


def scenarios(tier):
    th = tier == "thorough"
    out = []
    shapes = [[1], [1, 1], [2], [1, 2], [2, 1], [1, 1, 1]]
    for s in shapes:
        n = sum(s)
        for mi in (-1, 1, 2, 3):
            out.append(dict(shape=s, mi=mi, tl=-1, jump=7.0, dev=1,
                            h=3, b="B", impr=n < 3, fits=1))
            out.append(dict(shape=s, mi=mi, tl=-1, jump=7.0, dev=0,
                            h=2, b="BR" if n < 3 else "B", impr=n < 3, fits=1))
            out.append(dict(shape=s, mi=mi, tl=-1, jump=0.0, dev=9,
                            h=2, b="B", impr=True, fits=2 if n < 3 else 1))
            for tl, jump in ((5, 7.0), (5, 4.0), (10, 7.0), (10, 11.0),
                             (0.5, 1.0)):
                if mi == 3 and n == 3:
                    continue
                out.append(dict(shape=s, mi=mi, tl=tl, jump=jump,
                                dev=2 if jump < tl or n < 3 else 1,
                                h=2, b="B", impr=False, fits=1))
        out.append(dict(shape=s, mi=2, tl=5, jump=7.0, dev=1, h=1, b="B",
                        impr=False, fits=2))
        # limits changed between two fits
        for a, b in (((-1, -1), (1, 5)), ((1, 5), (-1, -1)),
                     ((2, 10), (3, 5)), ((1, -1), (2, -1)), ((2, 5), (2, 0)),
                     ((-1, 5), (-1, 10))):
            out.append(dict(shape=s, mi=a[0], tl=a[1], then=b, jump=7.0,
                            dev=1, h=2 if n == 1 else 1, b="B", impr=False,
                            fits=2))
        if th:
            for mi in (-1, 3):
                for tl, jump in ((5, 7.0), (10, 7.0), (5, 2.0), (20, 7.0)):
                    out.append(dict(shape=s, mi=mi, tl=tl, jump=jump, dev=3,
                                    h=3 if n < 3 else 2, b="B", impr=False,
                                    fits=1))
                    if n < 3:
                        out.append(dict(shape=s, mi=mi, tl=tl, jump=jump,
                                        dev=2, h=2, b="BR", impr=False,
                                        fits=1))
    # limits of zero are no limits
    for s in ([1], [1, 1], [2]):
        out.append(dict(shape=s, mi=0, tl=0, jump=7.0, dev=2, h=3, b="B",
                        impr=False, fits=1))
        out.append(dict(shape=s, mi=0, tl=5, jump=7.0, dev=1, h=2, b="B",
                        impr=False, fits=1))
        out.append(dict(shape=s, mi=2, tl=0, jump=7.0, dev=1, h=2, b="B",
                        impr=False, fits=1))
    for s in LONG:
        for k in range(24):
            for mi in (-1, 7, 40, 60):
                out.append(dict(shape=s, mi=mi, tl=(5, 40, 300, -1)[k % 4],
                                jump=0.3, h=45, long=k, fits=2,
                                then=[(mi, (5, 40, 300, -1)[k % 4]),
                                      (-1, 40), (9, -1)][k // 4 % 3]))
        for k in range(3):
            out.append(dict(shape=s, mi=-1, tl=50, jump=70.0, h=4, each=k))
    return out


def close(a, b):
    return abs(a - b) <= 1e-6


def limits(sc, f):
    return sc["then"] if f and "then" in sc else (sc["mi"], sc["tl"])


def verify(w, sc, clf, t0, t1, ctx, f):
    shape, (mi, tl) = sc["shape"], limits(sc, f)
    pre, its = loop.split_iterations(w.log)
    ctx.step(len(w.log))
    rounds, end = loop.expected(w, shape, mi, tl, t0)
    got = [[(e["level"], e["ind"]) for e in evs if e["kind"] == "price"]
           for s, evs in its]
    info = dict(got=got, want=rounds, end=end, max_iterations=mi,
                time_limit=tl)
    for e in w.log:
        if e["kind"] == "price" and tl > 0 and e["t"] - t0 > tl:
            raise Violation("a subproblem was priced after the time limit had "
                            "passed", elapsed=e["t"] - t0, **info)
    if mi > 0 and len(its) > mi:
        raise Violation("iteration limit exceeded", **info)
    if got != rounds or end == "more":
        raise Violation("the fit did not go on / stop where it must", **info)
    if bool(clf.mp_optimal_) != (end == "optimal"):
        raise Violation("optimality flag", flag=clf.mp_optimal_, **info)
    if bool(clf.time_limit_reached_) != (end == "time"):
        raise Violation("time limit flag", flag=clf.time_limit_reached_, **info)
    if clf.performed_iter_ != len(its):
        raise Violation("reported number of performed iterations",
                        reported=clf.performed_iter_, performed=len(its))
    if hasattr(clf, "iter_") and clf.iter_ != len(its):
        raise Violation("iter_", reported=clf.iter_, performed=len(its))
    if clf.num_improving_iter_ != sum(
            bool(w.impr.get(i + 1)) for i in range(len(its))):
        raise Violation("number of improving iterations",
                        reported=clf.num_improving_iter_, answers=w.impr)
    if not close(clf.time_spent_master_, w.dur.get("master", 0.0)):
        raise Violation("time spent in the master",
                        got=clf.time_spent_master_, want=w.dur.get("master"))
    if not close(clf.time_add_col_, w.dur.get("add", 0.0)):
        raise Violation("time spent adding columns",
                        got=clf.time_add_col_, want=w.dur.get("add"))
    for l, n in enumerate(shape):
        for i in range(n):
            if not close(clf.time_spent_sp_[l][i],
                         w.dur.get(("sp", l, i), 0.0)):
                raise Violation("time spent in a subproblem", at=(l, i),
                                got=clf.time_spent_sp_[l][i],
                                want=w.dur.get(("sp", l, i), 0.0))
    nip = [e["kind"] for e in w.log].count("solve_ip")
    if nip != 1 or w.log[-1]["kind"] != "solve_ip":
        raise Violation("integer master must be solved once at the end")
    if not close(clf.time_spent_master_ip_, w.dur.get("ip", 0.0)):
        raise Violation("time spent in the integer master",
                        got=clf.time_spent_master_ip_, want=w.dur.get("ip"))
    if not close(clf.time_elapsed_, t1 - t0):
        raise Violation("total elapsed time", got=clf.time_elapsed_,
                        want=t1 - t0)
    return end


def driven(sc, ctx, pick, fits):
    env.CLOCK.set(1000.0)
    clf = None
    ends = []
    for f in range(fits):
        w = loop.World(pick(f), sc["h"], BR, improve=True, clock=True,
                       jump=sc["jump"])
        if clf is None:
            clf = loop.build(w, sc["shape"], sc["mi"], sc["tl"], True)
        else:
            clf.master_problem.w = w
            for lv in clf.subproblems:
                for s in lv:
                    s.w = w
            env.CLOCK.advance(3.0)
            clf.set_params(max_iterations=limits(sc, f)[0],
                           time_limit=limits(sc, f)[1])
        t0 = env.CLOCK.now
        clf.fit(X, Y)
        ends.append(verify(w, sc, clf, t0, env.CLOCK.now, ctx, f))
        ctx.state(sc, f, len(w.log))
    ctx.trace()
    for e in ends:
        ctx.outcome("long: " + e)
    return w


def run_long(sc, ctx):
    n = sum(sc["shape"])
    if "each" in sc:
        def scheme(at):
            def make(f):
                calls, answers = itertools.count(), itertools.count()

                def pick(m, label):
                    if label == "jump":
                        return int(next(calls) == at)
                    if label == "impr":
                        return 1
                    i = next(answers)
                    return [0, (i % n == n - 1) * 1,
                            (i % (n + 2) == n // 2) * 1][sc["each"]]
                return pick
            return make
        total = len([e for e in driven(sc, ctx, scheme(-1), 1).log])
        for at in range(total):
            driven(sc, ctx, scheme(at), 1)
        return
    k = sc["long"]

    def make(f):
        calls, answers, impr = (itertools.count(), itertools.count(),
                                itertools.count())
        every = [1, 2, 5, 9][(k // 4) % 4]
        g = lcg(500 + k + 97 * f)

        def pick(m, label):
            if label == "jump":
                return int(next(calls) % every == 0)
            if label == "impr":
                return next(impr) % (2 + f) % 2
            i = next(answers)
            if k % 3 == 0:
                return 1 if i % n == n - 1 else 0
            if k % 3 == 1:
                return 1 if next(g) % (2 * n) == 0 else 0
            return next(g) % m if next(g) % n == 0 else 0
        return pick
    driven(sc, ctx, make, sc["fits"])


def run(sc, ctx):
    if "long" in sc or "each" in sc:
        return run_long(sc, ctx)
    batches = B if sc["b"] == "B" else BR

    def one(ch):
        def pick(n, label):
            if label == "jump":
                return ch.pick(n, label, costs=[0, 1])
            return ch.pick(n, label, costs=[0] * n)
        env.CLOCK.set(1000.0)
        ends = []
        clf = None
        w = None
        for k in range(sc["fits"]):
            w = loop.World(pick, sc["h"], batches, improve=sc["impr"],
                           clock=True, jump=sc["jump"])
            if clf is None:
                clf = loop.build(w, sc["shape"], sc["mi"], sc["tl"], True)
            else:
                clf.master_problem.w = w
                for lv in clf.subproblems:
                    for s in lv:
                        s.w = w
                env.CLOCK.advance(3.0)
                clf.set_params(max_iterations=limits(sc, k)[0],
                               time_limit=limits(sc, k)[1])
            t0 = env.CLOCK.now
            clf.fit(X, Y)
            ends.append(verify(w, sc, clf, t0, env.CLOCK.now, ctx, k))
        return ends, w

    for (ends, w), ch in choice.explore(one, bound=sc["dev"]):
        ctx.trace()
        ctx.state(sc["shape"], sc["mi"], sc["tl"], sc["jump"], ch.trace())
        for e in ends:
            ctx.outcome(e)
        ctx.sample({"scenario": sc, "choices": ch.trace(), "ended": ends})
