import itertools

import numpy as np

from .. import tree
from ..core import Violation
from ..refs import close

ID = "C12"
LEVEL = "model_checking"
TECH = "all histories of initial trees, added paths and re-solves up to a " \
       "depth; optimum and dual certificate compared with an independent LP"
RULE = ("for every problem of the bounds and every valid initial tree, every "
        "ordered history of added paths (with and without a re-solve after "
        "each) and histories adding every path; after every solve the "
        "objective is compared with the reference LP over the same paths, the "
        "duals are checked to certify it and the improvement report with the "
        "previous optimum; each path set is also supplied up front")
BOUNDS = {"quick": "depth 1: all data sets of 3 rows over 2 splits (3 "
                   "classes: 6 sets) ; depth 2: all data sets of 3 rows over "
                   "2 nested splits, of 3 rows over 2 independent splits, 4 "
                   "with a fractional gap over 3 splits; every initial tree; "
                   "histories of up to 2 added paths, and all paths added in "
                   "3 orders; 6 wide problems (14 rows, 5 features, 15 splits, "
                   "3..4 classes, depth 2 and 3): all 36..64 paths one by one "
                   "in 3 orders; deep problems (36 rows, depth 4, 15 nodes, 16 leaves; 24 rows, depth 5); one with "
                   "13 candidates per node, 20..300 paths up front",
          "thorough": "4 rows, and histories of up to 3 added paths for the "
                      "3-row sets"}
ASSUMES = ["HiGHS (scipy) computes the reference optimum"]


def problems(tier):
    out = []
    th = tier == "thorough"
    for X, y in tree.datasets("bin2", 3):
        out.append((tree.spec("bin2", 1, X, y, [[0, 1]]), 2))
        out.append((tree.spec("bin2", 2, X, y, [[0, 1]] * 3), 2))
        if th:
            out.append((tree.spec("bin2", 2, X, y, [[1, 0], [0], [0, 1]]), 3))
    for X, y in tree.datasets("num1", 3):
        out.append((tree.spec("num1", 1, X, y, [[0, 1]]), 2))
        out.append((tree.spec("num1", 2, X, y, [[0, 1]] * 3), 2))
        if th:
            out.append((tree.spec("num1", 2, X, y, [[0, 1]] * 3), 3))
    for X, y in itertools.islice(tree.datasets("num1", 3, 3), None):
        out.append((tree.spec("num1", 2, X, y, [[1], [0, 1], [1, 0]]), 2))
    for s in tree.GAPS:
        out.append((s, 1))
    for k in range(8 if th else 3):
        out.append((tree.wide(k, 2, classes=3 + k % 2), 0))
        out.append((tree.wide(k, 3, classes=3 + k % 2, ncand=2), 0))
        out.append((tree.deep(k, n=36), 0))
    out.append((tree.deep(3, depth=5, n=24), 0))
    out.append((tree.wide(80, 2, classes=3, ncand=13), -1))
    if th:
        for t in ("bin2", "num1"):
            for X, y in tree.datasets(t, 4):
                out.append((tree.spec(t, 2, X, y, [[0, 1]] * 3), 2))
        for X, y in tree.datasets("bin3", 3):
            out.append((tree.spec("bin3", 2, X, y, [[0, 1], [1, 2], [0, 2]]),
                        1))
    return out


def scenarios(tier):
    out = []
    for s, d in problems(tier):
        p = tree.prob(s)
        trees = list(itertools.islice(p.trees(), 200))
        if d <= 0:
            trees = [trees[0], trees[-1]]
        elif len(trees) > 8:
            trees = trees[:4] + trees[-4:]
        for a in trees:
            out.append({"p": s, "tree": [a[n] for n in range(p.nn)],
                        "depth": d})
    return out


def new_master(p, init):
    from col_gen_estimator import DTreeMasterProblem
    o = tree.objects(p)
    mp = DTreeMasterProblem([tree.mkpath(q, id=i, initial=True)
                             for i, q in enumerate(init)],
                            o.leaves, o.nodes, o.splits)
    mp.generate_mp(np.array(p.X, dtype=float), np.array(p.y))
    return mp


def solve(mp, p, paths, prev, cache, ctx, hist):
    duals = mp.solve_rmp()
    key = tuple(sorted(paths))
    if key not in cache:
        cache[key] = tree.master_lp(p, paths, range(p.n))
    want = cache[key]
    obj = mp.solver_.Objective().Value()
    info = dict(problem=[p.X, p.y, p.splits, p.cands], history=hist)
    if want is None or not close(obj, want, 1e-6):
        raise Violation("master objective", got=obj, want=want, **info)
    bad = tree.certify(p, paths, duals, set(range(p.n)), [], obj)
    if bad:
        raise Violation("duals do not certify the optimum", problems=bad,
                        duals=duals[:4], **info)
    if len(duals[4]):
        raise Violation("cut rows reported without cuts", **info)
    if prev is not None:
        imp = bool(mp.rmp_objective_improved())
        if abs(prev - want) > 1e-6 and not imp or (
                hist[-1] == "solve" and hist[-2:-1] == ["solve"] and imp):
            raise Violation("improvement report", got=imp, before=prev,
                            now=want, **info)
    ctx.step()
    return want


def run_front(p, sc, ctx):
    """Many paths supplied up front, the rest one by one; solves between."""
    init = p.tree_paths(dict(enumerate(sc["tree"])))
    new = [q for q in p.paths(targets=False) if q not in init]
    for k in (20, 45, 70, 130, 300):
        start, rest = init + new[:k], new[k:k + 60]
        mp = new_master(p, start)
        paths, prev, hist = list(start), None, ["%d up front" % k, "solve"]
        prev = solve(mp, p, paths, prev, {}, ctx, hist)
        for i, q in enumerate(rest):
            mp.add_column(tree.mkpath(q))
            paths.append(q)
            ctx.step()
            if i % 12 == 11:
                hist = hist + [i, "solve"]
                prev = solve(mp, p, paths, prev, {}, ctx, hist)
                ctx.state(sc["p"], k, i)
        ctx.trace()
    ctx.outcome("many up front")


def run(sc, ctx):
    p = tree.prob(sc["p"])
    if sc["depth"] < 0:
        return run_front(p, sc, ctx)
    asg = dict(enumerate(sc["tree"]))
    pool = p.paths(targets=False)
    if sc["depth"] and (p.nt > 2 or p.depth == 1):
        pool = p.paths()
    init = p.tree_paths(asg)
    odd = p.tree_paths(asg, targets=[(l + 1) % p.nt for l in range(p.nl)])
    cache = {}
    # the pool offers what is not there yet, plus one duplicate
    new = [q for q in pool if q not in init] + init[:1]
    for start in (init, odd):
        for d in range(0, sc["depth"] + 1):
            for seq in itertools.permutations(new, d):
                masks = {0, (1 << d) - 1}
                for mask in masks:
                    mp = new_master(p, start)
                    paths = list(start)
                    prev = None
                    hist = []
                    for k, q in enumerate(seq):
                        if mask >> k & 1:
                            hist.append("solve")
                            prev = solve(mp, p, paths, prev, cache, ctx, hist)
                        hist.append(q)
                        if not mp.add_column(tree.mkpath(q, 1 - 2 * (k & 1))):
                            raise Violation("path refused", path=q)
                        paths.append(q)
                        ctx.step()
                    for _ in range(2):
                        hist.append("solve")
                        prev = solve(mp, p, paths, prev, cache, ctx, hist)
                    ctx.trace()
                    ctx.state(sc["p"], sc["tree"], start is odd, seq, mask)
                if d and start is init:
                    mp = new_master(p, list(start) + list(seq))
                    solve(mp, p, list(start) + list(seq), None, cache, ctx,
                          ["up front", seq, "solve"])
                    ctx.trace()
            if start is odd and d == 1:
                break
    # everything, or all but the last, up front
    for order in (new, new[::-1], new[1::2] + new[::2]):
        for k in (len(order), len(order) - 1):
            mp = new_master(p, init + order[:k])
            paths, hist = init + order[:k], ["all up front", "solve"]
            prev = solve(mp, p, paths, None, cache, ctx, hist)
            for q in order[k:]:
                mp.add_column(tree.mkpath(q))
                hist = hist + [q, "solve"]
                solve(mp, p, paths + [q], prev, cache, ctx, hist)
            ctx.trace()
    # long histories: everything, one by one
    for order in (new, new[::-1], new[1::2] + new[::2]):
        for every in (1, 3):
            mp = new_master(p, init)
            paths, prev, hist = list(init), None, ["solve"]
            prev = solve(mp, p, paths, prev, cache, ctx, hist)
            for k, q in enumerate(order[:24] if sc["depth"] else order):
                mp.add_column(tree.mkpath(q))
                paths.append(q)
                hist = hist + [q]
                ctx.step()
                if k % every == every - 1:
                    hist = hist + ["solve"]
                    prev = solve(mp, p, paths, prev, cache, ctx, hist)
            ctx.trace()
    ctx.outcome("lp=%g" % round(max(v for v in cache.values()), 3))
    ctx.sample({"problem": sc["p"], "tree": sc["tree"], "history": hist[:4]})
