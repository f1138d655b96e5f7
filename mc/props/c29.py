import numpy as np

from .. import env, refs, tree
from ..core import Violation
from ..refs import close
from . import c08, c18

ID = "C29"
LEVEL = "model_checking"
TECH = "complete fits of the real classifiers stopped after every number of " \
       "iterations and by time passing inside every single component call, " \
       "compared with each other and with the unlimited fit"
RULE = ("for every problem and configuration the unlimited fit is run, then "
        "one fit for every smaller iteration limit and one for every "
        "component call (master solve, pricing update, pricing, column) "
        "inside which the time limit passes; each interrupted model is "
        "checked for validity against its own generated columns and for "
        "monotony against the fits with smaller limits")
BOUNDS = {"quick": "trees: a third of the small problems of C18 and 2 wide "
                   "ones x 2 configurations each, draw policies rotating, "
                   "every iteration limit up to the natural end and every "
                   "component call among the first 40; rules: 2..3 rows x 2 "
                   "features, 2 rows x 3 features, 10 structured and 4 wide "
                   "data sets, 3 (C, p), both variants, every iteration "
                   "limit, every component call",
          "thorough": "all problems of C18's quick tier, all configurations, "
                      "80 component calls"}
ASSUMES = ["CP-SAT, GLOP, CBC answers are deterministic; an LP value is "
           "compared with 1e-6, the pricing optimum with 1e-3"]
HANG_S = 400
TOL = 1e-3


def scenarios(tier):
    th = tier == "thorough"
    out = []
    ps = c18.problems("quick")
    wide = [s for s in ps if s["t"] == "wide"]
    small = [s for s in ps if s["t"] != "wide"]
    must = [s for s in tree.GAPS + tree.MULTI + tree.HEAVY]
    if not th:
        small = small[::3] + [s for s in must if s not in small[::3]]
        wide = wide[:2]
    for k, s in enumerate(small + wide):
        n = 1
        for c in s["cands"]:
            n *= len(c)
        for j in range(6 if th else 2):
            out.append({"kind": "tree", "p": s, "tree": (5 * k + 3 * j) % n,
                        "conf": (k + j * (1 if th else 3 + k % 2)) % 6,
                        "policy": (k + j) % 4, "weights": (k + j) % 3,
                        "calls": 80 if th else 40})
    sets = []
    for m, n in ((2, 2), (2, 3), (3, 2)) + (((2, 4), (3, 3)) if th else ()):
        sets += list(refs.multisets(m, n, sym=n > 2 or m > 2))
    sets += c08.big()
    for k in range(12 if th else 4):
        sets.append(refs.wide(8, 14, k + 60))
    for k, (X, y) in enumerate(sets):
        for v in range(2):
            out.append({"kind": "rule", "X": X, "y": y, "heuristic": v,
                        "calls": 80 if th else 40})
    # the cheap ones first
    return sorted(out, key=lambda s: s["kind"])


CALLS = ("solve_rmp", "add_column", "update_subproblem", "generate_columns")


class Stop:
    """Wraps the component methods of all masters and subproblems: counts
    their calls and lets the virtual time pass the limit inside the chosen
    one."""

    def __init__(self, at=None):
        self.at, self.n, self.log, self.depth = at, 0, [], 0
        self.lp, self.cuts = None, []

    def wrap(self, orig, name):
        def f(obj, *a, **k):
            if self.depth:
                return orig(obj, *a, **k)
            i = self.n
            self.n += 1
            if self.n > 5000:
                raise Violation("the fit does not terminate")
            self.depth += 1
            try:
                r = orig(obj, *a, **k)
            finally:
                self.depth -= 1
            self.log.append(name)
            if name == "solve_rmp":
                self.lp = obj.solver_.Objective().Value()
                if len(r) > 4:
                    self.cuts.extend([[bool(v) for v in c] for c in r[4]])
            env.CLOCK.advance(1000.0 if i == self.at else 2.0 ** -20)
            return r
        return f

    def fit(self, clf, X, y):
        from col_gen_estimator import _bdr_classifier as bd
        from col_gen_estimator import _col_gen_classifier as cg
        from col_gen_estimator import _dtree_classifier as dt
        saved = []
        base = (cg.BaseMasterProblem, cg.BaseSubproblem)
        for mod in (cg, bd, dt):
            for c in {v for v in vars(mod).values() if isinstance(v, type)
                      and issubclass(v, base) and v.__module__ ==
                      mod.__name__}:
                for name in CALLS:
                    if name in vars(c):
                        saved.append((c, name, vars(c)[name]))
        for c, name, orig in saved:
            setattr(c, name, self.wrap(orig, name))
        env.CLOCK.set(1000000.0)
        try:
            clf.fit(X, y)
        finally:
            env.CLOCK.set(None)
            for c, name, orig in saved:
                setattr(c, name, orig)


def flags(clf, limit, stop, info):
    if limit is not None and clf.iter_ > limit:
        raise Violation("more iterations than the limit", got=clf.iter_,
                        **info)
    if stop.at is None and clf.time_limit_reached_:
        raise Violation("time limit reported although no time passed", **info)
    if clf.time_limit_reached_ and clf.mp_optimal_:
        raise Violation("both optimal and out of time", **info)


# ---- trees -----------------------------------------------------------------

def run_tree(sc, ctx):
    import col_gen_estimator as c
    from examples import dtree_experiment as ex
    p = tree.prob(sc["p"])
    asg = list(p.trees())[sc["tree"]]
    old, beta, gen = c18.CONF[sc["conf"]]
    X, y = np.array(p.X, dtype=float), np.array(p.y)
    targets = None if sc["weights"] != 1 else [
        (l * 3 + sc["tree"]) % p.nt for l in range(p.nl)]
    init = p.tree_paths(asg, targets)
    have = sum(q[3] for q in init)
    cache = {}

    def fit(limit=None, at=None):
        o = tree.objects(p)
        rows = None
        if sc["weights"] == 2:
            rows = ex.preprocess(o.nodes, o.splits, X, y, p.depth,
                                 aggressive=True, time_limit=-1)
        clf = c.DTreeClassifier(
            [tree.mkpath(q, id=i) for i, q in enumerate(init)], o.leaves,
            o.nodes, o.splits, tree_depth=p.depth,
            targets=list(range(p.nt)), data_rows=rows, use_old_sp=old,
            max_iterations=-1 if limit is None else limit,
            time_limit=-1 if at is None else 500,
            master_beta_constraints_as_cuts=beta, master_generate_cuts=gen,
            num_master_cuts_round=3)
        info = dict(problem=[p.X, p.y, p.splits, p.cands], initial=init,
                    conf=dict(old_pricer=old, rows_as_cuts=beta,
                              generated_cuts=gen),
                    merged_rows=rows is not None, iteration_limit=limit,
                    time_passes_in_call=at, policy=c18.POLICIES[sc["policy"]])
        stop = Stop(at)
        with env.scripted_random(c18.policy(sc["policy"])):
            stop.fit(clf, X, y)
        flags(clf, limit, stop, info)
        mp = clf.master_problem
        got = [tree.unpath(q) for q in mp.selected_paths]
        bad = tree.valid_tree(p, got)
        if bad:
            raise Violation("an interrupted fit leaves no valid tree",
                            problems=bad, got=got, **info)
        tot = sum(q[3] for q in got)
        pool = [tree.unpath(q) for q in mp.paths_]
        best = tree.best_tree(p, pool)
        if not close(tot, best):
            raise Violation("not the best tree of the generated paths",
                            got=tot, want=best, **info)
        if tot < have:
            raise Violation("worse than the initial tree", got=tot,
                            initial=have, **info)
        pred = list(clf.predict(X))
        hit = sum(int(a) == b for a, b in zip(pred, p.y))
        if hit != tot:
            raise Violation("training predictions and objective disagree",
                            correct=hit, objective=tot, **info)
        cols = sum(sum(v) for v in clf.num_col_added_sp_)
        if cols != len(pool) - len(init):
            raise Violation("column counts", got=cols,
                            want=len(pool) - len(init), **info)
        lp = mp.rmp_objective_
        if clf.mp_optimal_:
            present = range(p.n) if not beta and not gen else [
                r for r in range(p.n) if mp.added_row[r]]
            want = c18.reference(p, present, stop.cuts, cache)
            if want is None or not close(lp, want, TOL):
                raise Violation("optimality declared at another LP value",
                                got=lp, want=want, **info)
        ctx.step(stop.n)
        ctx.state(sc["p"], sc["tree"], sc["conf"], sc["policy"],
                  sc["weights"], sorted(pool))
        return dict(tot=tot, lp=lp, iters=clf.iter_, info=info,
                    optimal=bool(clf.mp_optimal_), stop=stop, clf=clf,
                    pool=len(pool), time=bool(clf.time_limit_reached_))
    full = fit()
    if not full["optimal"]:
        raise Violation("optimality not declared", **full["info"])
    compare(full, fit, sc, ctx, sign=1, lp_monotone=not beta and not gen)
    ctx.sample({"scenario": sc, "iterations": full["iters"]})


def compare(full, fit, sc, ctx, sign, lp_monotone):
    """sign 1: larger is better (trees), -1: smaller is better (rules)."""
    last = None
    limits = list(range(1, full["iters"] + 2))
    if len(limits) > 16:
        limits = limits[:8] + limits[8:-6:max(1, len(limits) // 8)] + \
            limits[-6:]
    for k in limits:
        r = fit(limit=k)
        ctx.trace()
        if r["iters"] != min(k, full["iters"]):
            raise Violation("a limited fit stops at another iteration",
                            got=r["iters"], want=min(k, full["iters"]),
                            **r["info"])
        if r["optimal"] != (k >= full["iters"]):
            raise Violation("optimality flag of a limited fit",
                            got=r["optimal"], **r["info"])
        if last is not None:
            if sign * (r["tot"] - last["tot"]) < -1e-6:
                raise Violation("one more iteration makes the model worse",
                                got=r["tot"], before=last["tot"],
                                **r["info"])
            if r["pool"] < last["pool"]:
                raise Violation("one more iteration loses columns",
                                got=r["pool"], before=last["pool"],
                                **r["info"])
            if lp_monotone and sign * (r["lp"] - last["lp"]) < -1e-6:
                raise Violation("one more iteration makes the LP value worse",
                                got=r["lp"], before=last["lp"], **r["info"])
        last = r
    if not close(last["tot"], full["tot"]) or \
            not close(last["lp"], full["lp"], 1e-6):
        raise Violation("a limit that is not reached changes the result",
                        got=[last["tot"], last["lp"]],
                        want=[full["tot"], full["lp"]], **last["info"])
    n = full["stop"].n
    ats = range(n)
    if n > sc["calls"]:
        ats = list(range(sc["calls"] // 2)) + list(range(
            sc["calls"] // 2, n, max(1, 2 * n // sc["calls"])))
    for at in ats:
        r = fit(at=at)
        ctx.trace()
        if sign * (full["tot"] - r["tot"]) < -1e-6 and lp_monotone:
            # the unlimited fit goes on from the interrupted one
            raise Violation("the interrupted model is better than the "
                            "complete one", got=r["tot"], want=full["tot"],
                            **r["info"])
        ctx.outcome("%s, %s" % (
            full["stop"].log[at], "out of time" if r["time"] else "finished"))
    ctx.outcome("%d iterations" % min(12, full["iters"]))


# ---- rules -----------------------------------------------------------------

def run_rule(sc, ctx):
    from col_gen_estimator import _bdr_classifier as bd
    X, y = sc["X"], sc["y"]
    m = len(X[0])
    aX, ay = np.array(X), np.array(y)
    cls = ["BooleanDecisionRuleClassifier",
           "BooleanDecisionRuleClassifierWithHeuristic"][sc["heuristic"]]
    for C, p in ((2, 1), (4, 0.5), (6, 3)):
        want = refs.bdr_lp(X, y, C, p, refs.all_clauses(m, C))

        def fit(limit=None, at=None):
            clf = getattr(bd, cls)(
                C=C, p=p, max_iterations=-1 if limit is None else limit)
            if at is not None:
                # an attribute of the base class, not of the constructor
                clf.time_limit = 500
            info = dict(X=X, y=y, C=C, p=p, cls=cls, iteration_limit=limit,
                        time_passes_in_call=at)
            stop = Stop(at)
            stop.fit(clf, aX, ay)
            flags(clf, limit, stop, info)
            mp = clf.master_problem
            expl = [list(map(int, c)) for c in mp.explanation]
            info["explanation"] = expl
            if refs.complexity(expl) > C:
                raise Violation("rule exceeds the budget", **info)
            cost = refs.rule_cost(X, y, p, expl)
            pool = [list(c) for c in mp.clause_dict_.values()]
            best = (refs.best_rule if len(pool) < 9 else refs.best_rule_dfs)(
                X, y, C, p, pool)
            if not close(cost, best):
                raise Violation("not the best rule of the generated clauses",
                                cost=cost, best=best, clauses=pool, **info)
            pred = list(clf.predict(aX))
            rule = [int(any(refs.sat_clause(r, c) for c in expl)) for r in X]
            if pred != rule:
                raise Violation("training predictions differ from the rule",
                                pred=pred, rule=rule, **info)
            cols = sum(sum(v) for v in clf.num_col_added_sp_)
            if cols != len(pool) - 1:
                raise Violation("column counts", got=cols,
                                want=len(pool) - 1, **info)
            lp = stop.lp
            if lp < want - 1e-6 or (clf.mp_optimal_ and not
                                    refs.close(lp, want)):
                raise Violation("LP value of an interrupted fit", got=lp,
                                want=want, optimal=clf.mp_optimal_, **info)
            ctx.step(stop.n)
            ctx.state(X, y, C, p, cls, sorted(pool))
            return dict(tot=cost, lp=lp, iters=clf.iter_, info=info,
                        optimal=bool(clf.mp_optimal_), stop=stop,
                        pool=len(pool), time=bool(clf.time_limit_reached_))
        full = fit()
        if not full["optimal"]:
            raise Violation("optimality not declared", **full["info"])
        compare(full, fit, sc, ctx, sign=-1, lp_monotone=True)
    ctx.sample({"scenario": sc, "iterations": full["iters"]})


def run(sc, ctx):
    if sc["kind"] == "tree":
        run_tree(sc, ctx)
    else:
        run_rule(sc, ctx)
