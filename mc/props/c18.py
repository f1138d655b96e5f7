import itertools

import numpy as np

from .. import choice, cpsat, env, tree
from ..core import Violation
from ..refs import close

ID = "C18"
LEVEL = "model_checking"
TECH = "complete fits of the real classifier for every small problem, initial " \
       "tree and configuration, under controlled random draws and, for some, " \
       "every first answer of the CP-SAT search; compared with the LP over all paths"
RULE = ("every problem and configuration of the bounds is fitted without "
        "limits under each draw policy (and for the 'solver' scenarios under "
        "every choice of one reported intermediate solution and of the "
        "optimum of one pricing call); the flags, the LP optimum against the "
        "reference LP over all paths with the rows and cuts present, the "
        "final tree and its training predictions are checked")
BOUNDS = {"quick": "all data sets of 3 rows over 2 tables and depth 1 and 2, "
                   "3-class sets, 8 sets with a fractional gap or several "
                   "cuts, 4 sets of hundreds of repeated and a few odd rows; all 6 configurations ({new,old pricer} x "
                   "rows as constraints, as cuts, with generated cuts) under "
                   "all 4 draw policies, initial trees rotating; 4 wide "
                   "problems (14 rows, 5 features, 15 splits, 3..4 classes, "
                   "depth 2 and 3); deep problems (20 rows, depth 4, 15 nodes, 16 leaves); 3 "
                   "problems with 8 leaves that need up to 20 cuts",
          "thorough": "every initial tree, configuration and policy; 4 rows"}
ASSUMES = ["CP-SAT pricing objective has resolution 1e-5 (optima are compared "
           "with 1e-3)", "GLOP and SAT answers are deterministic"]
HANG_S = 400

CONF = [(old, beta, gen) for old in (False, True)
        for beta, gen in ((False, False), (True, False), (True, True))]
POLICIES = ["first", "last", "cycle", "seed"]
TOL = 1e-3
MANY = [(50, 12, 4), (0, 12, 4), (53, 14, 2)]


def problems(tier):
    out = []
    for X, y in tree.datasets("bin2", 3):
        out.append(tree.spec("bin2", 1, X, y, [[0, 1]]))
        out.append(tree.spec("bin2", 2, X, y, [[0, 1]] * 3))
    for X, y in tree.datasets("num1", 3):
        out.append(tree.spec("num1", 2, X, y, [[0, 1]] * 3))
    for X, y in tree.datasets("num1", 3, 3):
        out.append(tree.spec("num1", 2, X, y, [[1], [0, 1], [1, 0]]))
    for X, y in list(tree.datasets("mix", 4, 3))[::60]:
        out.append(tree.spec("mix", 2, X, y, [[0, 2], [1, 0], [2, 1]]))
    for X, y in list(tree.datasets("bin3", 4))[::(40 if tier == "quick" else 3)]:
        out.append(tree.spec("bin3", 2, X, y, [[0, 1], [1, 2], [0, 2]]))
    if tier == "thorough":
        for X, y in tree.datasets("bin2", 4):
            out.append(tree.spec("bin2", 2, X, y, [[1, 0], [0, 1], [1]]))
        for X, y in list(tree.datasets("bin3", 3))[::9]:
            out.append(tree.spec("bin3", 3, X, y,
                                 [[0, 1], [1], [2, 1], [2], [0], [0], [2]]))
    out += tree.GAPS + tree.MULTI + tree.HEAVY
    for k in range(6 if tier == "thorough" else 2):
        out.append(tree.wide(k, 2, 14, 3 + k % 2))
        out.append(tree.wide(k, 3, 14, 3 + k % 2, 2))
        out.append(tree.deep(k))
    return out


def scenarios(tier):
    out = []
    k = 0
    for s in problems(tier):
        n = 1
        for c in s["cands"]:
            n *= len(c)
        big = n > 8
        if tier == "thorough":
            combos = [(t, c, q) for t in range(n)[:: 5 if big else 1]
                      for c in range(6) for q in range(4)]
        else:
            combos = []
            for j in range(24):
                combos.append(((k * 3 + j * 5) % n, j % 6, j // 6))
            k += 1
        for t, c, q in combos:
            out.append({"p": s, "tree": t, "conf": c, "policy": q,
                        "weights": (t + c + q) % 3})
    # fractional problems that need many cuts
    for i, (k, n, c) in enumerate(MANY):
        s = tree.wide(k, 3, n, c, 3)
        for j, conf in enumerate((2, 5, 0, 1)):
            out.append({"p": s, "tree": (97 * k + 31 * j) % 2187, "conf": conf,
                        "policy": (i + j) % 4, "weights": (i + j) % 3})
    for s in (problems(tier)[1], problems(tier)[41], tree.GAPS[0],
              tree.MULTI[0]):
        for call in range(4 if tier == "quick" else 8):
            out.append({"p": s, "tree": 0, "conf": 0, "policy": 0,
                        "weights": 0, "call": call})
    return out


def policy(k):
    st = {"i": 0}

    def first(n):
        return 0

    def last(n):
        return n - 1

    def cycle(n):
        st["i"] += 1
        return (st["i"] * 7 + st["i"] // 5) % n

    def seed(n):
        st["i"] = (st["i"] * 1103515245 + 12345) % 2147483648
        return (st["i"] >> 8) % n
    return [first, last, cycle, seed][k]


def reference(p, rows, cuts, cache):
    key = (tuple(rows), tuple(map(tuple, cuts)))
    if key not in cache:
        cache[key] = tree.master_lp(p, p.paths(targets=False), rows, cuts)
    return cache[key]


def fit(p, sc, asg, ctx, ctl=None, cache=None):
    """One complete fit and all its checks."""
    import col_gen_estimator as c
    from examples import dtree_experiment as ex
    old, beta, gen = CONF[sc["conf"]]
    o = tree.objects(p)
    X, y = np.array(p.X, dtype=float), np.array(p.y)
    # initial tree, with poor targets in some scenarios
    targets = None if sc["weights"] != 1 else [
        (l * 3 + sc["tree"]) % p.nt for l in range(p.nl)]
    init = p.tree_paths(asg, targets)
    rows = None
    if sc["weights"] == 2:
        rows = ex.preprocess(o.nodes, o.splits, X, y, p.depth,
                             aggressive=True, time_limit=-1)
    clf = c.DTreeClassifier(
        [tree.mkpath(q, id=i) for i, q in enumerate(init)], o.leaves, o.nodes,
        o.splits, tree_depth=p.depth, targets=list(range(p.nt)),
        data_rows=rows, use_old_sp=old, master_beta_constraints_as_cuts=beta,
        master_generate_cuts=gen, num_master_cuts_round=3)
    mp = clf.master_problem
    orig = mp.solve_rmp
    n, cuts = [0], []
    info = dict(problem=[p.X, p.y, p.splits, p.cands], initial=init,
                conf=dict(old_pricer=old, rows_as_cuts=beta,
                          generated_cuts=gen), merged_rows=rows is not None,
                policy=POLICIES[sc["policy"]])

    def solve_rmp(*a, **k):
        n[0] += 1
        if n[0] > 300:
            raise Violation("the fit does not terminate", **info)
        res = orig(*a, **k)
        cuts.extend([[bool(v) for v in r] for r in res[4]])
        return res
    mp.solve_rmp = solve_rmp
    if ctl is not None:
        cpsat.use(ctl)
    try:
        with env.scripted_random(policy(sc["policy"])):
            clf.fit(X, y)
    finally:
        cpsat.install_default()
    ctx.step(n[0])
    mp = clf.master_problem
    if not clf.mp_optimal_ or clf.time_limit_reached_:
        raise Violation("optimality not declared", **info)
    lp = mp.solver_.Objective().Value()
    if not close(lp, mp.rmp_objective_, 1e-9):
        raise Violation("reported LP value", got=mp.rmp_objective_, want=lp,
                        **info)
    if not beta and not gen:
        present = range(p.n)
    else:
        present = [r for r in range(p.n) if mp.added_row[r]]
    want = reference(p, present, cuts, cache)
    if want is None or not close(lp, want, TOL):
        raise Violation("final LP value", got=lp, want=want, cuts=cuts,
                        rows=list(present), **info)
    got = [tree.unpath(q) for q in mp.selected_paths]
    bad = tree.valid_tree(p, got)
    if bad:
        raise Violation("final tree", problems=bad, got=got, **info)
    tot = sum(q[3] for q in got)
    have = sum(q[3] for q in init)
    if tot < have - 1e-6 or tot > lp + TOL:
        raise Violation("accuracy of the final tree", got=tot, initial=have,
                        lp=lp, **info)
    pool = [tree.unpath(q) for q in mp.paths_]
    best = tree.best_tree(p, pool)
    if not close(tot, best):
        raise Violation("not the best tree of the generated paths", got=tot,
                        want=best, **info)
    pred = list(clf.predict(X))
    hit = sum(int(a) == b for a, b in zip(pred, p.y))
    if hit != tot:
        raise Violation("training predictions and objective disagree",
                        correct=hit, objective=tot, **info)
    # every path in the master is genuine
    for q in pool[len(init):]:
        cnt = p.counts(q[0], dict(q[1]))
        if not 0 <= q[2] < p.nt or not close(cnt[q[2]], q[3]):
            raise Violation("generated path has a wrong target or cost",
                            path=q, **info)
    sums = sum(sum(v) for v in clf.num_col_added_sp_)
    if sums != len(pool) - len(init):
        raise Violation("column counts", got=sums, want=len(pool) - len(init),
                        **info)
    ctx.trace()
    ctx.outcome("lp %s tree, %d iterations" % (
        ">" if lp > tot + TOL else "=", min(clf.iter_, 12)))
    ctx.state(sc["p"], sc["tree"], sc["conf"], sc["policy"], sc["weights"],
              sorted(pool))


def run(sc, ctx):
    p = tree.prob(sc["p"])
    asg = list(p.trees())[sc["tree"]]
    cache = {}
    if "call" not in sc:
        fit(p, sc, asg, ctx, None, cache)
        ctx.sample({"scenario": sc})
        return
    # one pricing call of the CP-SAT search answers in every possible way
    k = sc["call"]

    def body(ch):
        box = {"n": -1}

        def pick(m, label):
            return ch.pick(m, label) if box["n"] == k else 0

        class Ctl(cpsat.Controlled):
            def solve(self, solver, model, cb):
                box["n"] += 1
                return super().solve(solver, model, cb)
        fit(p, sc, asg, ctx, Ctl(pick, max_intermediate=1, limit=100000),
            cache)
    for _ in choice.explore(body, bound=2, max_runs=400,
                            on_cap=lambda: ctx.cap("solver answers")):
        pass
