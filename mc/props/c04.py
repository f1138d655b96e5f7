import itertools

import numpy as np

from .. import refs
from ..core import Violation

ID = "C04"
LEVEL = "model_checking"
TECH = ("all histories of adding clauses, refused clauses and re- "
        "solves on the real master; optimum and dual certificate "
        "against an independent LP")
RULE = ("for every binary data set (multiset of labelled rows), budget and "
        "weight of the bounds, every ordered history of adding distinct "
        "clauses, each followed or not by a re-solve, plus refused empty "
        "clauses; after every solve the objective is compared with the "
        "reference LP optimum and the duals with its dual constraints")
BOUNDS = {"quick": "2..4 rows x 2 features (all 3 clauses, all orders), 2..3 "
                   "rows x 3 features (ordered histories of up to 2 of the 7 "
                   "clauses), up to renaming of the features for 4 rows and "
                   "for 3 features; C in {1,2,3,5}, p in {0.5,1,3}; all row "
                   "orders of two five-row sets starting with two of the rows; "
                   "6 wide sets (14..15 rows x 12 features) growing to all 78 "
                   "clauses of up to two features and 19 of 3..12, both ways, "
                   "re-solved as they grow, C in {2,7,13,100}, p in "
                   "{1/3,1,20,1000}; 14 sets of 27..571 rows over 5..70 "
                   "features, C in {13,61,100,119,130}, p up to 1000",
          "thorough": "up to 5 rows x 2 features; 2..4 rows x 3 features, "
                      "histories of up to 3 of the 7 clauses for up to 3 "
                      "rows"}
ASSUMES = ["HiGHS (scipy) computes the reference optimum"]


def scenarios(tier):
    th = tier == "thorough"
    out = []
    for n in (2, 3, 4, 5) if th else (2, 3, 4):
        for X, y in refs.multisets(2, n, sym=n >= 4):
            out.append({"X": X, "y": y, "depth": 3})
    for n in (2, 3):
        for X, y in refs.multisets(3, n, sym=True):
            out.append({"X": X, "y": y, "depth": 2})
    if th:
        for n in (2, 3):
            for X, y in refs.multisets(3, n, sym=True):
                out.append({"X": X, "y": y, "depth": 3})
        for X, y in refs.multisets(3, 4, sym=True):
            out.append({"X": X, "y": y, "depth": 2})
    # interleaved label orders (data order matters for the duals)
    for X, y in (([[1, 0], [0, 1], [1, 1], [0, 0], [1, 0]], [1, 0, 1, 0, 1]),
                 ([[1, 1, 0], [0, 1, 1], [1, 0, 1], [0, 1, 0], [1, 1, 1]],
                  [0, 1, 0, 1, 1])):
        for perm in itertools.permutations(range(len(X))):
            if perm[0] < 2 or tier == "thorough":
                out.append({"X": [X[i] for i in perm],
                            "y": [y[i] for i in perm], "depth": 1})
    for k in range(12 if th else 6):
        for way in (0, 1):
            out.append({"wide": k, "way": way, "every": 1 if th else 4})
    for k in range(8 if th else 4):
        out.append({"big": "heavy", "k": k, "n": (150, 40, 300, 90)[k % 4]})
        out.append({"big": "tall", "k": k, "n": (100, 180)[k % 2]})
    for m, zeros in ((60, 200), (24, 500), (70, 20)):
        out.append({"big": "ident", "m": m, "zeros": zeros})
    for k in range(3):
        out.append({"big": "full", "k": k, "m": (30, 24, 40)[k]})
    return out


def run_big(sc, ctx):
    """Hundreds of rows, large budgets and weights."""
    from col_gen_estimator import _bdr_classifier as bd
    if sc["big"] == "ident":
        X, y = refs.ident(sc["m"], sc["zeros"])
        seq = refs.all_clauses(len(X[0]), 1)[1:]
        ps, every = (3, 12, 20, 1000), 20
    elif sc["big"] == "full":
        X, y = refs.near_full(sc["m"], sc["k"])
        seq = refs.all_clauses(sc["m"], 1)[1::3] + \
            refs.long_clauses(sc["m"])[sc["k"]::2]
        seq += [[j for j in range(sc["m"]) if j != sc["k"]]]
        ps, every = (1, 20), 9
    elif sc["big"] == "heavy":
        X, y = refs.heavy(sc["k"], sc["n"])
        seq = refs.all_clauses(5, 3)[1:]
        ps, every = (1 / 3, 5, 20, 64, 1000), 6
    else:
        X, y = refs.tall(24, sc["n"], sc["k"])
        seq = refs.all_clauses(24, 1)[1:] + refs.all_clauses(24, 2)[25::9]
        ps, every = (1, 5, 20), 9
    for C, p in [(C, p) for C in (13, 61, 100, 119, 130) for p in ps]:
        mp = bd.BDRMasterProblem(C, p, "glop")
        mp.generate_mp(np.array(X), np.array(y))
        clauses = [[]]
        for i, cl in enumerate(seq):
            if not mp.add_column(list(cl)):
                raise Violation("clause refused", clause=cl)
            clauses.append(cl)
            ctx.step()
            if i % every == 3 or i == len(seq) - 1:
                check_lp(mp, mp.solve_rmp(), X, y, C, p, clauses, {}, ctx)
                ctx.state(sc, C, p, i)
        ctx.trace()


def run_wide(sc, ctx):
    from col_gen_estimator import _bdr_classifier as bd
    X, y = refs.wide(k=sc["wide"])
    seq = refs.all_clauses(12, 2)[1:]
    if sc["wide"] % 2:
        X, y = refs.near_full(12, sc["wide"])
    seq = seq[:40] + refs.long_clauses(12) + seq[40:]
    if sc["way"]:
        seq = seq[::-1]
    for C, p in [(C, p) for C in (2, 7, 13, 100)
                 for p in (1 / 3, 1, 20, 1000)]:
        mp = bd.BDRMasterProblem(C, p, "glop")
        mp.generate_mp(np.array(X), np.array(y))
        clauses, cache = [[]], {}
        for i, cl in enumerate(seq):
            if not mp.add_column(list(cl)):
                raise Violation("clause refused", clause=cl)
            clauses.append(cl)
            ctx.step()
            if (i + 2) % sc["every"] == 0 or i < 2 or i == len(seq) - 1:
                check_lp(mp, mp.solve_rmp(), X, y, C, p, clauses, cache, ctx)
                ctx.state(X, y, C, p, i, sc["way"])
        ctx.trace()


PARAMS = [(C, p) for C in (1, 2, 3, 5) for p in (0.5, 1, 3)]


def check_lp(mp, ret, X, y, C, p, clauses, cache, ctx):
    cc, cs = ret
    key = tuple(sorted(map(tuple, clauses)))
    if key not in cache:
        cache[key] = refs.bdr_lp(X, y, C, p, clauses)
    want = cache[key]
    obj = mp.solver_.Objective().Value()
    info = dict(X=X, y=y, C=C, p=p, clauses=clauses, cc=cc, cs=list(cs))
    if not refs.close(obj, want):
        raise Violation("LP objective", got=obj, want=want, **info)
    if len(cs) != sum(y):
        raise Violation("one dual per positive sample expected", **info)
    if cc < -1e-9 or min(list(cs) + [0]) < -1e-9:
        raise Violation("negative dual", **info)
    val, viol = refs.bdr_cert(X, y, C, p, clauses, cc, cs)
    if viol > 1e-6 * max(1, p) or not refs.close(val, want):
        raise Violation("the duals do not certify the optimum", value=val,
                        want=want, infeasible_by=viol, **info)
    ctx.step()


def run(sc, ctx):
    from col_gen_estimator import _bdr_classifier as bd
    if "wide" in sc:
        return run_wide(sc, ctx)
    if "big" in sc:
        return run_big(sc, ctx)
    X, y = sc["X"], sc["y"]
    m = len(X[0])
    alpha = refs.all_clauses(m, m)[1:]
    aX, ay = np.array(X), np.array(y)
    for C, p in PARAMS:
        cache = {}
        for d in range(0, sc["depth"] + 1):
            for seq in itertools.permutations(alpha, d):
                for solves in range(1 << d):
                    if d == 3 and solves not in (0, 1, 5, 7):
                        continue
                    mp = bd.BDRMasterProblem(C, p, "glop")
                    mp.generate_mp(aX, ay)
                    clauses = [[]]
                    if d == 0:
                        if mp.add_column([]):
                            raise Violation("empty clause accepted")
                        ctx.step()
                    for k, cl in enumerate(seq):
                        if solves >> k & 1:
                            check_lp(mp, mp.solve_rmp(), X, y, C, p, clauses,
                                     cache, ctx)
                        if not mp.add_column(list(cl)):
                            raise Violation("clause refused", clause=cl)
                        clauses.append(cl)
                        ctx.step()
                        if k == 0 and solves & 1:
                            if mp.add_column([]):
                                raise Violation("empty clause accepted")
                            ctx.step()
                    for _ in range(2 if d <= 1 else 1):
                        check_lp(mp, mp.solve_rmp(), X, y, C, p, clauses,
                                 cache, ctx)
                    ctx.trace()
                    ctx.state(X, y, C, p, seq, solves)
        ctx.outcome("lp=%g" % round(cache[min(cache)], 3))
    ctx.sample({"X": X, "y": y, "history": seq, "C": C, "p": p})
