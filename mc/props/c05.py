import itertools

import numpy as np

from .. import refs
from ..core import Violation

ID = "C05"
LEVEL = "model_checking"
TECH = ("all histories of adding clauses and solving before the "
        "integer solve of the real master; the selection against all "
        "subsets of the clauses")
RULE = ("for every data set, budget and weight of the bounds: every ordered "
        "history of adding distinct clauses with or without LP solves before, "
        "then the integer solve (also twice, and after adding more clauses); "
        "the explanation is compared with the optimum over all subsets of the "
        "available clauses")
BOUNDS = {"quick": "2..3 rows x 2 features with every history of up to 3 "
                   "clauses; 3 rows x 3 features (up to renaming) with "
                   "histories of all clauses of length 1, 2 or all 7; C in "
                   "{1,2,3,5}, p in {0.5,1,3}; 6 wide sets (14 rows x 12 "
                   "features) with pools growing to 45 clauses, integer solve "
                   "after every eleventh, C in {2,5,9,12}, p in "
                   "{1/3,1,100}; 15 sets of 27..571 rows over 5..70 features (5 of them knapsack problems), "
                   "C up to 130, p up to 1000",
          "thorough": "as quick with 4 rows"}
ASSUMES = []
PARAMS = [(C, p) for C in (1, 2, 3, 5) for p in (0.5, 1, 3)]


def scenarios(tier):
    th = tier == "thorough"
    out = []
    for n in (2, 3, 4) if th else (2, 3):
        for X, y in refs.multisets(2, n, sym=n > 2):
            out.append({"X": X, "y": y, "mode": "hist"})
    for n in (3, 4) if th else (3,):
        for X, y in refs.multisets(3, n, sym=True):
            out.append({"X": X, "y": y, "mode": "pool"})
    # overlapping / conflicting data where greedy or over-budget choices tempt
    for X, y in TEMPT:
        out.append({"X": X, "y": y, "mode": "pool"})
    for k in range(12 if th else 6):
        for way in (0, 1, 2):
            out.append({"wide": k, "way": way, "mode": "wide"})
    for k in range(8 if th else 4):
        out.append({"mode": "big", "k": k, "n": (150, 40, 300, 90)[k % 4]})
    for m, zeros in ((60, 200), (24, 500), (70, 20)):
        out.append({"mode": "ident", "m": m, "zeros": zeros})
    for k in range(12 if th else 5):
        out.append({"mode": "knapsack", "k": k})
    for k in range(3):
        out.append({"mode": "full", "k": k, "m": (30, 24, 40)[k]})
    return out


def run_big(sc, ctx):
    """Hundreds of rows, large budgets and weights."""
    from col_gen_estimator import _bdr_classifier as bd
    if sc["mode"] == "ident":
        X, y = refs.ident(sc["m"], sc["zeros"])
        seq = refs.all_clauses(len(X[0]), 1)[1:]
        Cs, ps = (13, 61, 100, 119, 130), (3, 12, 20, 1000)
    elif sc["mode"] == "knapsack":
        X, y, gr = refs.knapsack(sc["k"], 10 + 3 * (sc["k"] % 3))
        seq = [c for c, _ in gr[1::2] + gr[::2]]
        Cs, ps = range(9, 61, 4), (1,)
    elif sc["mode"] == "full":
        X, y = refs.near_full(sc["m"], sc["k"])
        seq = refs.all_clauses(sc["m"], 1)[1::6] + \
            refs.long_clauses(sc["m"])[sc["k"]::3]
        seq += [[j for j in range(sc["m"]) if j != sc["k"]]]
        Cs, ps = (9, 26, 32, 45), (1, 20)
    else:
        X, y = refs.heavy(sc["k"], sc["n"])
        seq = refs.all_clauses(5, 2)[1:] + [[0, 1, 4], [1, 2, 3, 4]]
        Cs, ps = (2, 5, 9, 30), (1 / 3, 5, 20, 64, 1000)
    for C, p in [(C, p) for C in Cs for p in ps]:
        for solve in (0, 1):
            mp = bd.BDRMasterProblem(C, p, "glop")
            mp.generate_mp(np.array(X), np.array(y))
            clauses = [[]]
            for i, cl in enumerate(seq):
                mp.add_column(list(cl))
                clauses.append(list(cl))
                ctx.step()
                if solve and i % 9 == 4:
                    mp.solve_rmp()
            best = None
            if sc["mode"] == "ident":
                best = refs.best_ident(sc["m"], sc["zeros"], C, p)
            if sc["mode"] == "knapsack":
                best = refs.best_knapsack(gr, C, p, len(y) - sum(y))
            judge(mp, X, y, C, p, clauses, ctx, best)
            ctx.state(sc, C, p, solve)


def run_wide(sc, ctx):
    from col_gen_estimator import _bdr_classifier as bd
    X, y = refs.wide(k=sc["wide"])
    one = refs.all_clauses(12, 1)[1:]
    two = [c for c in refs.all_clauses(12, 2) if len(c) == 2][sc["wide"]::2]
    seq = {0: one + two, 1: two[::-1] + one[::-1],
           2: [c for t in zip(two, two[::-1], one) for c in t]}[sc["way"]]
    if sc["wide"] % 2:
        X, y = refs.near_full(12, sc["wide"])
    seq = seq[:20] + refs.long_clauses(12) + seq[20:]
    for C, p in [(C, p) for C in (2, 5, 9, 12) for p in (1 / 3, 1, 100)]:
        mp = bd.BDRMasterProblem(C, p, "glop")
        mp.generate_mp(np.array(X), np.array(y))
        clauses = [[]]
        for i, cl in enumerate(seq):
            mp.add_column(list(cl))
            clauses.append(list(cl))
            ctx.step()
            if i % 11 == 10 or i == len(seq) - 1:
                judge(mp, X, y, C, p, clauses, ctx)
                ctx.state(X, y, C, p, i, sc["way"])
            elif i % 5 == 0:
                mp.solve_rmp()


TEMPT = [
    ([[1, 0, 0], [0, 1, 0], [0, 0, 1], [1, 1, 0], [0, 0, 0]], [1, 1, 1, 0, 0]),
    ([[1, 1, 0], [1, 1, 0], [0, 1, 1], [1, 0, 1], [0, 1, 0]], [1, 1, 1, 1, 0]),
    ([[1, 1, 1], [1, 1, 0], [1, 0, 0], [0, 1, 1], [0, 0, 1]], [1, 0, 1, 1, 0]),
    ([[0, 0, 0], [1, 1, 1], [0, 0, 0], [1, 0, 1]], [1, 0, 1, 1]),
]


def judge(mp, X, y, C, p, clauses, ctx, best=None):
    ok = mp.solve_ip()
    ctx.step()
    expl = [list(c) for c in mp.explanation]
    info = dict(X=X, y=y, C=C, p=p, clauses=clauses, explanation=expl)
    if not ok:
        raise Violation("integer solve reported failure", **info)
    for c in expl:
        if c not in clauses:
            raise Violation("explanation uses a clause that is not available",
                            **info)
    if len(set(map(tuple, expl))) != len(expl):
        raise Violation("clause chosen twice", **info)
    if refs.complexity(expl) > C + 1e-9:
        raise Violation("explanation exceeds the complexity budget", **info)
    cost = refs.rule_cost(X, y, p, expl)
    if best is None:
        best = (refs.best_rule if len(clauses) < 9 else refs.best_rule_dfs)(
            X, y, C, p, clauses)
    if not refs.close(cost, best):
        raise Violation("explanation is not the cheapest", cost=cost,
                        best=best, **info)
    ctx.trace()
    ctx.outcome("%d clauses" % len(expl))


def run(sc, ctx):
    from col_gen_estimator import _bdr_classifier as bd
    if sc["mode"] == "wide":
        return run_wide(sc, ctx)
    if sc["mode"] in ("big", "ident", "full", "knapsack"):
        return run_big(sc, ctx)
    X, y = sc["X"], sc["y"]
    aX, ay = np.array(X), np.array(y)
    m = len(X[0])
    alpha = refs.all_clauses(m, m)[1:]
    if sc["mode"] == "hist":
        seqs = [s for d in range(0, len(alpha) + 1)
                for s in itertools.permutations(alpha, d)]
    else:
        l1 = refs.all_clauses(m, 1)[1:]
        l2 = [c for c in alpha if len(c) == 2]
        seqs = [l1, l2, alpha, alpha[::-1], [alpha[-1]] + l1]
    for C, p in PARAMS:
        for seq in seqs:
            for pat in (0, 1, 2):
                if pat == 2 and len(seq) < 1:
                    continue
                mp = bd.BDRMasterProblem(C, p, "glop")
                mp.generate_mp(aX, ay)
                clauses = [[]]
                for k, cl in enumerate(seq):
                    if pat == 2 and k == len(seq) // 2:
                        judge(mp, X, y, C, p, clauses, ctx)
                    mp.add_column(list(cl))
                    clauses.append(list(cl))
                    ctx.step()
                if pat == 1:
                    mp.solve_rmp()
                    ctx.step()
                judge(mp, X, y, C, p, clauses, ctx)
                ctx.state(X, y, C, p, seq, pat)
    ctx.sample({"X": X, "y": y, "C": C, "p": p, "history": seq,
                "explanation": mp.explanation})
