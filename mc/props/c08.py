import numpy as np

from .. import refs
from ..core import Violation

ID = "C08"
LEVEL = "exploration"
TECH = ("complete fits of the real classifiers on every data set, "
        "budget, weight and variant; the LP over all clauses and the "
        "best rule over the generated ones are the reference")
RULE = ("BooleanDecisionRuleClassifier and ...WithHeuristic fitted without "
        "limits on every data set, budget and weight of the bounds; the final "
        "LP value is compared with the LP over all clauses, the rule with the "
        "budget, the LP bound and the optimum over the generated clauses. "
        "Non-trivial: a distinct (data, C, p, variant) whose fit added at "
        "least one clause")
BOUNDS = {"quick": "2..4 rows x 2 features, 2..3 rows x 3 features (up to "
                   "renaming), C in {1,2,3,4,6} with p in {0.5,1,2} and C in {2,3,5,9} "
                   "with p in {0.1,5}, both "
                   "variants, plus larger structured sets (parity, "
                   "thresholds, duplicated and conflicting rows) and 6 wide "
                   "sets (14 rows x 8 features, C in {2,5,9}, p in {1/3,1,10}), 3 "
                   "sets whose best clauses have 5..9 features (C in "
                   "{m-1,m,m+1,2m+3}, p in {1,5,20})",
          "thorough": "as quick with 4 rows x 3 features and 5 rows x 2"}
ASSUMES = ["CBC, GLOP and SAT answers are deterministic"]
PARAMS = [(C, p) for C in (1, 2, 3, 4, 6) for p in (0.5, 1, 2)] + [
    (C, p) for C in (2, 3, 5, 9) for p in (0.1, 5)]


def big():
    out = []
    for m in (3, 4):
        rows = refs.binary_rows(m)
        par = [sum(r) % 2 for r in rows]
        thr = [int(sum(r) >= 2) for r in rows]
        out.append((rows, par))
        out.append((rows, thr))
        out.append((rows, [1 - t for t in thr]))
        out.append((rows + rows[:5], thr + [1, 1, 1, 1, 1]))
        out.append((rows + rows[-4:], [1] + par[1:] + [0, 1, 0, 0]))
    return out


def scenarios(tier):
    th = tier == "thorough"
    out = []
    for m, n in ((2, 2), (2, 3), (2, 4), (3, 2), (3, 3)) + (
            ((3, 4), (2, 5)) if th else ()):
        for X, y in refs.multisets(m, n, sym=n > 2 or m > 2):
            out.append({"X": X, "y": y})
    for X, y in big():
        out.append({"X": X, "y": y})
    for k in range(16 if th else 6):
        X, y = refs.wide(8, 14, k + 20)
        out.append({"X": X, "y": y, "wide": 1})
    for k, m in enumerate((6, 9, 10)):
        X, y = refs.near_full(m, k)
        out.append({"X": X, "y": y, "long": 1})
    return out


def run(sc, ctx):
    from col_gen_estimator import _bdr_classifier as bd
    X, y = sc["X"], sc["y"]
    m = len(X[0])
    aX, ay = np.array(X), np.array(y)
    params = PARAMS
    if "wide" in sc:
        params = [(C, p) for C in (2, 5, 9) for p in (1 / 3, 1, 10)]
    elif "long" in sc:
        params = [(C, p) for C in (m - 1, m, m + 1, 2 * m + 3)
                  for p in (1, 5, 20)]
    for C, p in params:
        full = refs.all_clauses(m, C)
        want = refs.bdr_lp(X, y, C, p, full)
        for cls in ("BooleanDecisionRuleClassifier",
                    "BooleanDecisionRuleClassifierWithHeuristic"):
            clf = getattr(bd, cls)(C=C, p=p)
            orig, n = bd.BDRMasterProblem.solve_rmp, [0]

            def solve_rmp(*a, **k):
                n[0] += 1
                if n[0] > 2 ** m + 2:
                    raise Violation("the fit does not terminate", X=X, y=y,
                                    C=C, p=p, cls=cls)
                return orig(*a, **k)
            bd.BDRMasterProblem.solve_rmp = solve_rmp
            try:
                clf.fit(aX, ay)
                pred = list(clf.predict(aX))
            finally:
                bd.BDRMasterProblem.solve_rmp = orig
            mp = clf.master_problem
            ctx.eval()
            info = dict(X=X, y=y, C=C, p=p, cls=cls,
                        explanation=mp.explanation,
                        clauses=list(mp.clause_dict_.values()))
            if not clf.mp_optimal_:
                raise Violation("optimality not declared", **info)
            lp = mp.solver_.Objective().Value()
            if not refs.close(lp, want):
                raise Violation("final LP value is not the LP optimum over all "
                                "clauses", got=lp, want=want, **info)
            expl = [list(c) for c in mp.explanation]
            if refs.complexity(expl) > C:
                raise Violation("rule exceeds the budget", **info)
            cost = refs.rule_cost(X, y, p, expl)
            if cost < want - 1e-6:
                raise Violation("rule is better than the LP bound", cost=cost,
                                want=want, **info)
            pool = [list(c) for c in mp.clause_dict_.values()]
            best = (refs.best_rule if len(pool) < 9 else refs.best_rule_dfs)(
                X, y, C, p, pool)
            if cost > best + 1e-6:
                raise Violation("a better rule is available", cost=cost,
                                best=best, **info)
            rule = [int(any(refs.sat_clause(r, c) for c in expl)) for r in X]
            if pred != rule:
                raise Violation("training predictions differ from the rule",
                                pred=pred, rule=rule, **info)
            if len(pool) > 1:
                ctx.case(X, y, C, p, cls)
            ctx.outcome("%d clauses added" % min(4, len(pool) - 1))
            ctx.count("fits")
    ctx.sample({"X": X, "y": y, "C": C, "p": p, "explanation": expl,
                "lp": want})
