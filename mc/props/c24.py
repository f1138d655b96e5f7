import itertools
import random

from ortools.sat import cp_model_pb2
from ortools.sat.python import cp_model

from .. import choice, cpsat, env
from ..core import Violation

ID = "C24"
LEVEL = "model_checking"
TECH = "all sequences of solver answers (status, values, time) and of tuner " \
       "draws given to the real solve routine through a stand-in solver"
RULE = ("every sequence of solver answers from the alphabet (status x "
        "objective/bound x solve time), time limits and tuner draws up to the "
        "depth bound, on two subproblem objects; the solver parameters are "
        "read at the moment of the call and the tuner counts, mean scores, "
        "recorded times and gaps are compared after it")
BOUNDS = {"quick": "31 answers x 3 time limits for one solve with every "
                   "combination of the tuners' draws; all pairs of answers, "
                   "which subproblem is asked and draws default; 24 solves in "
                   "a row for 12 answer patterns (past exploration); "
                   "300 solves in a row on two subproblems and 200 on "
                   "twelve, for four answer patterns",
          "thorough": "all triples over 10 answers; 60 solves in a row"}
ASSUMES = ["a feasible answer with objective and bound both zero is not "
           "considered (the relative gap is undefined)"]

FEAS = [(10.0, 12.0), (10.0, 10.0), (-10.0, -4.0), (0.0, 5.0), (5.0, 0.0),
        (-3.0, 4.0), (3.0, -4.0), (2.0, 1e6)]
TIMES = [0.0, 0.5, 2.0]
ANS = [("OPTIMAL", 7.0, 7.0, t) for t in TIMES] + \
    [("OPTIMAL", 0.0, 0.0, 0.5)] + \
    [("FEASIBLE", a, b, t) for a, b in FEAS for t in TIMES] + \
    [("INFEASIBLE", 0.0, 0.0, 0.5), ("UNKNOWN", 0.0, 0.0, 2.0),
     ("MODEL_INVALID", 0.0, 0.0, 0.0)]
LIMITS = [2, 30, 0.5]


def scenarios(tier):
    out = []
    for i in range(len(ANS)):
        for lim in LIMITS:
            out.append({"seqs": [[[0, i, lim]]], "draws": True})
    for i in range(len(ANS)):
        out.append({"seqs": [[[0, i, 2], [w, j, lim]] for j in range(len(ANS))
                             for w in (0, 1) for lim in (2, 30)],
                    "draws": False})
    k = 24 if tier == "quick" else 60
    pats = [[0], [5], [3, 9], [28, 0], [10, 11, 12], [30, 29, 28, 0],
            [0, 1, 2], [6, 0], [25, 3], [15, 2, 28], [2, 21], [8, 14, 20, 26]]
    for pat in pats:
        out.append({"seqs": [[[n % 3 == 2, pat[n % len(pat)], 2]
                              for n in range(k)]], "draws": False})
    for q, pat in enumerate(([3, 0, 12, 28], [0, 1], [9, 14, 29, 2, 20],
                             [6, 0, 0, 0, 0, 0, 0])):
        out.append({"seqs": [[[n % 5 == q, pat[n % len(pat)], 2 + n % 7]
                              for n in range(300)]], "draws": False})
        out.append({"seqs": [[[(n * (q + 1) + n // 12) % 12,
                               pat[n % len(pat)], 2 + n % 7]
                              for n in range(200)]], "draws": False,
                    "sps": 12})
    if tier == "thorough":
        sub = [0, 2, 3, 5, 8, 14, 18, 28, 29, 30]
        for a in sub:
            for b in sub:
                out.append({"seqs": [[[0, a, 2], [1, b, 2], [0, c, 30]]
                                     for c in sub], "draws": False})
    return out


def want_scores(ans, lim):
    st, obj, bound, t = ans
    tp = t / lim if st == "OPTIMAL" else 1
    if st == "OPTIMAL":
        gp = 0
    elif st == "FEASIBLE" and obj * bound >= 0:
        gp = abs(obj - bound) / max(abs(obj), abs(bound))
    else:
        gp = 1
    return -(tp + gp), t, gp


def snapshot(sp):
    return {k: ([x for x in p.counts_], [s.mean() for s in p.scores_],
                list(p.values_)) for k, p in sp.tunable_params_.items()}, \
        list(sp.solve_times_), list(sp.gaps_)


def execute(seq, pick, ctx, nsp=2):
    from col_gen_estimator import BaseSubproblem
    sps = [BaseSubproblem() for _ in range(nsp)]
    gens = [g for sp in sps for p in sp.tunable_params_.values()
            for g in vars(p).values() if isinstance(g, random.Random)]
    cms = [env.scripted_random(pick, g) for g in gens] if pick else []
    for cm in cms:
        cm.__enter__()
    hist = []
    try:
        for which, ai, lim in seq:
            which = int(which)
            ans = ANS[ai]
            sp = sps[which]
            calls = []
            model = cp_model.CpModel()
            model.NewBoolVar("x")
            cb = cp_model.CpSolverSolutionCallback()

            def solve(self, m, callback=None):
                p = type(self.parameters)()
                p.CopyFrom(self.parameters)
                calls.append((self, m, callback, p))
                r = cp_model_pb2.CpSolverResponse()
                r.status = getattr(cp_model, ans[0])
                r.objective_value, r.best_objective_bound = ans[1], ans[2]
                r.wall_time = ans[3]
                if ans[0] in ("OPTIMAL", "FEASIBLE"):
                    r.solution.append(0)
                setattr(self, cpsat._SOL, r)
                return r.status
            before = [snapshot(s) for s in sps]
            cpsat.install(solve)
            sp.solve_model(model, lim, cb)
            cpsat.install_default()
            after = [snapshot(s) for s in sps]
            hist.append([which, ans, lim])
            info = dict(history=hist)
            ctx.step()
            if len(calls) != 1:
                raise Violation("solved %d times" % len(calls), **info)
            _, m, callback, p = calls[0]
            if m is not model or callback is not cb:
                raise Violation("not the caller's model or callback", **info)
            if p.max_time_in_seconds != lim:
                raise Violation("time limit not applied",
                                got=p.max_time_in_seconds, want=lim, **info)
            if any(before[o] != after[o] for o in range(nsp) if o != which):
                raise Violation("another subproblem's tuning changed", **info)
            score, tm, gp = want_scores(ans, lim)
            for k in before[which][0]:
                c0, m0, vals = before[which][0][k]
                c1, m1, vals1 = after[which][0][k]
                d = [b - a for a, b in zip(c0, c1)]
                if sorted(d) != [0] * (len(d) - 1) + [1] or vals != vals1:
                    raise Violation("exactly one score per setting expected",
                                    setting=k, got=d, **info)
                i = d.index(1)
                used = getattr(p, k)
                if used != vals[i]:
                    raise Violation("score credited to a value that was not "
                                    "used", setting=k, used=used,
                                    credited=vals[i], **info)
                wm = (m0[i] * c0[i] + score) / c1[i] if c0[i] else score
                if abs(m1[i] - wm) > 1e-9:
                    raise Violation("wrong score", setting=k, got=m1[i],
                                    want=wm, **info)
                if [x for j, x in enumerate(m0) if j != i] != [
                        x for j, x in enumerate(m1) if j != i]:
                    raise Violation("another value's score changed",
                                    setting=k, **info)
            if len(after[which][1]) != len(before[which][1]) + 1 or abs(
                    after[which][1][-1] - tm) > 1e-12:
                raise Violation("recorded solve time", got=after[which][1],
                                want=tm, **info)
            if len(after[which][2]) != len(before[which][2]) + 1 or abs(
                    after[which][2][-1] - gp) > 1e-12:
                raise Violation("recorded gap", got=after[which][2], want=gp,
                                **info)
            ctx.state(before[which][0], ans, lim)
            ctx.outcome(ans[0])
    finally:
        cpsat.install_default()
        for cm in cms:
            cm.__exit__()


def run(sc, ctx):
    for seq in sc["seqs"]:
        if sc["draws"]:
            for _ in choice.explore(lambda ch: execute(
                    seq, lambda n: ch.pick(n, "draw"), ctx)):
                ctx.trace()
        else:
            execute(seq, None, ctx, sc.get("sps", 2))
            ctx.trace()
    ctx.sample({"sequence": seq})
