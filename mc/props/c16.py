import itertools

import numpy as np

from .. import env, tree
from ..core import Violation
from ..refs import close

ID = "C16"
LEVEL = "model_checking"
TECH = "every small data set and candidate layout through the real " \
       "preprocessing (with every placement of its time limit), results " \
       "compared with the definition and LP / tree optima over all rows"
RULE = ("for every data set and layout of the bounds: the master's own "
        "preprocessing, plain and aggressive, and the experiment's, plain, "
        "aggressive, and aggressive interrupted at every clock reading; flags, "
        "weights, reachable sets and node numbering are compared with the "
        "definition, and over the real master the LP optimum, the best tree "
        "and every path's weighted cost with those of all rows")
BOUNDS = {"quick": "all data sets of 3 rows (2 classes) over 3 tables, "
                   "selected ones of 4..5 rows with duplicates and conflicts; "
                   "6 layouts of depth 1..3; LP over all paths and over the "
                   "paths of every pair of trees for depth <= 2; 9 wide problems (14 "
                   "to 24 rows, 5 features, 15 splits, 3..4 classes, depth 2 "
                   "and 3); deep problems (20 rows, depth 4, 15 nodes, 16 leaves)",
          "thorough": "all data sets of 4 rows, 3 classes"}
ASSUMES = ["HiGHS (scipy) computes the reference optimum"]
HANG_S = 300


def layouts(table):
    k = len(tree.TABLES[table][0])
    a = list(range(k))
    one = [[i % k] for i in range(7)]
    out = [(1, [a]), (2, [a, a, a]), (2, [[0], [1], a]), (2, [[1], a, [0]])]
    out.append((3, one))
    mix3 = [[i % k] for i in range(7)]
    mix3[0] = [0, 1]
    mix3[4] = [1, 0]
    out.append((3, mix3))
    return out


def data(tier, table):
    out = list(tree.datasets(table, 3))
    if tier == "thorough":
        out += list(tree.datasets(table, 4))
        out += list(tree.datasets(table, 3, 3))
    else:
        out += list(tree.datasets(table, 4))[::5]
    grid = tree.TABLES[table][1]
    a, b = grid[0], grid[-1]
    out.append(([a, b, a, a, b], [0, 1, 0, 1, 1]))
    out.append(([a, a, a, b, a], [0, 1, 1, 0, 0]))
    out.append(([b, a, b, b, a], [1, 0, 2, 1, 2]))
    return out


def scenarios(tier):
    out = []
    for t in ("bin2", "num1", "mix"):
        n = len(data(tier, t))
        for i in range(0, n, 4):
            out.append({"t": t, "from": i, "to": min(n, i + 4),
                        "tier": tier})
    for k in range(8 if tier == "thorough" else 3):
        out.append({"wide": tree.wide(k, 2, 24, 3 + k % 2)})
        out.append({"wide": tree.wide(k, 3, 14, 3 + k % 2, 2)})
        out.append({"wide": tree.wide(k, 2, 16, 3, 10)})
        out.append({"wide": tree.deep(k)})
    return out


def run(sc, ctx):
    if "wide" in sc:
        one(tree.prob(sc["wide"]), sc, ctx)
        ctx.sample({"problem": sc["wide"]})
        return
    ds = data(sc["tier"], sc["t"])[sc["from"]:sc["to"]]
    for X, y in ds:
        for depth, cands in layouts(sc["t"]):
            p = tree.prob(tree.spec(sc["t"], depth, X, y, cands))
            one(p, sc, ctx)
    ctx.sample({"X": X, "y": y, "candidates": cands})


def applicable(p, nodes):
    return {s for n in nodes for s in p.cands[n]}


def check_rows(p, rows, aggressive, complete, sp_merge, info):
    """Flags, weights and reachable sets against the definition."""
    if len(rows) != p.n:
        raise Violation("one row object per sample expected", **info)
    reach = [p.reach(r) for r in range(p.n)]
    pat = []
    for r in range(p.n):
        nodes = reach[r][0]
        pat.append((tuple(sorted(nodes)), tuple(
            (s, p.left[s][r]) for s in sorted(applicable(p, nodes)))))
    for r, row in enumerate(rows):
        if set(row.reachable_nodes) != reach[r][0] or \
                set(row.reachable_leaves) != reach[r][1]:
            raise Violation("reachable nodes or leaves", row=r,
                            got=[row.reachable_nodes, row.reachable_leaves],
                            want=reach[r], **info)
        want = {i for i in range(len(p.splits)) if p.left[i][r]}
        if set(row.left_splits) != want or set(row.right_splits) != set(
                range(len(p.splits))) - want:
            raise Violation("split memberships of a row", row=r, **info)
        twins = [q for q in range(p.n) if q != r and pat[q] == pat[r]]
        few = len(reach[r][1]) <= 2
        if row.removed_from_master and not few:
            if not any(not rows[q].removed_from_master for q in twins):
                raise Violation("row dropped from the master without a kept "
                                "equivalent", row=r, **info)
        if row.removed_from_sp:
            if not row.removed_from_master:
                raise Violation("row merged away in pricing but kept in the "
                                "master", row=r, **info)
            if not any(not rows[q].removed_from_sp and p.y[q] == p.y[r]
                       for q in twins):
                raise Violation("row merged away in pricing without a kept "
                                "equivalent of its class", row=r, **info)
    # weights: per pattern and class, the kept rows stand for all of them
    for key in {(pat[r], p.y[r]) for r in range(p.n)}:
        mem = [r for r in range(p.n) if (pat[r], p.y[r]) == key]
        w = sum(rows[r].weight for r in mem if not rows[r].removed_from_sp)
        if w != len(mem):
            raise Violation("weights of equivalent rows", rows=mem,
                            weight=w, want=len(mem), **info)
    gone = [sum(r.removed_from_master for r in rows),
            sum(r.removed_from_sp for r in rows)]
    return gone


def check_nodes(p, nodes, info):
    for n, nd in enumerate(nodes):
        bottom = 2 * n + 1 >= p.nn
        off = p.nn if bottom else 0
        want = (n, (n - 1) // 2 if n else -1, 2 * n + 1 - off,
                2 * n + 2 - off, bottom)
        got = (nd.id, nd.parent, nd.left_child, nd.right_child,
               nd.children_are_leaves)
        if got != want:
            raise Violation("numbering of a node", got=got, want=want, **info)


def one(p, sc, ctx):
    import col_gen_estimator as c
    from col_gen_estimator import DTreeMasterProblem
    from examples import dtree_experiment as ex
    X, y = np.array(p.X, dtype=float), np.array(p.y)
    info = dict(problem=[p.X, p.y, p.splits, p.cands])
    full = p.paths(targets=False)
    pools = [full] if p.depth < 3 else []
    trees = list(p.trees())
    if p.depth >= 3:
        pools.append(sorted({q for a in trees for q in p.tree_paths(a)}))
    else:
        for a, b in itertools.combinations(trees[:6], 2):
            pools.append(sorted(set(p.tree_paths(a)) | set(p.tree_paths(b))))
        pools = pools[:8]
    ref = {}

    def lp(i, kept):
        k = (i, tuple(kept))
        if k not in ref:
            ref[k] = tree.master_lp(p, pools[i], kept)
        return ref[k]

    def optima(rows, tag):
        kept = [r for r in range(p.n) if not rows[r].removed_from_master]
        for i in range(len(pools)):
            a, b = lp(i, kept), lp(i, range(p.n))
            if not close(a, b):
                raise Violation("LP optimum changed by dropping rows", how=tag,
                                got=a, want=b, paths=pools[i], kept=kept,
                                **info)
            ctx.step()
        # weighted cost of every path and class
        skip = {r for r in range(p.n) if rows[r].removed_from_sp}
        w = [r.weight for r in rows]
        for leaf in range(p.nl):
            for asg in p.assignments(leaf):
                if p.counts(leaf, asg, w, skip) != p.counts(leaf, asg):
                    raise Violation("weighted cost of a path", how=tag,
                                    leaf=leaf, splits=asg, **info)

    # the master's own preprocessing
    base = p.tree_paths(trees[0])
    for aggr in (False, True):
        o = tree.objects(p)
        for nd in o.nodes:
            nd.parent = nd.left_child = nd.right_child = -1
            nd.children_are_leaves = False
        mp = DTreeMasterProblem([tree.mkpath(q, id=i) for i, q in
                                 enumerate(base)], o.leaves, o.nodes, o.splits)
        mp.generate_mp(X, y)
        rows = mp.preprocess_rows(aggressive=True) if aggr else mp.data_rows
        check_nodes(p, o.nodes, dict(info, how="master"))
        g = check_rows(p, rows, aggr, True, False,
                       dict(info, how="master", aggressive=aggr))
        if g[1]:
            raise Violation("the master merged rows of the pricing", **info)
        optima(rows, "master aggressive=%s" % aggr)
        ctx.state("m", p.X, p.y, p.cands, aggr)
        ctx.outcome("master: %d dropped" % g[0])
        ctx.trace()

    # the experiment's
    plans = [("plain", None), ("aggressive", None)]
    kmax = 1
    k = 0
    while k < len(plans) + kmax:
        if k < len(plans):
            tag, stop = plans[k]
        else:
            tag, stop = "interrupted", k - len(plans) + 1
        k += 1
        o = tree.objects(p, rows_sets=False)
        for nd in o.nodes:
            nd.parent = nd.left_child = nd.right_child = -1
            nd.children_are_leaves = False
        splits = ex.add_rows_to_splits(o.splits, X)
        for s in splits:
            want = {r for r in range(p.n) if p.left[s.id][r]}
            if set(s.left_rows) != want or set(s.right_rows) != set(
                    range(p.n)) - want:
                raise Violation("row memberships of a split", split=s.id,
                                **info)
        reads = [0]

        def on_read():
            reads[0] += 1
            if stop is not None and reads[0] > stop:
                env.CLOCK.now = 1000.0
        env.CLOCK.set(1.0)
        env.CLOCK.on_read = on_read
        try:
            rows = ex.preprocess(o.nodes, splits, X, y, p.depth,
                                 aggressive=tag != "plain",
                                 time_limit=10 if stop else -1)
        finally:
            env.CLOCK.now = None
            env.CLOCK.on_read = None
        inf = dict(info, how="experiment " + tag, interrupted_at=stop)
        check_nodes(p, o.nodes, inf)
        g = check_rows(p, rows, tag != "plain", stop is None, True, inf)
        for r in range(p.n):
            if rows[r].target != p.y[r]:
                raise Violation("target of a row", row=r, **inf)
        optima(rows, tag)
        ctx.state("e", p.X, p.y, p.cands, tag, stop)
        ctx.outcome("experiment: %d dropped, %d merged" % tuple(g))
        ctx.trace()
        if stop is not None:
            # as many placements as the run reads the clock
            kmax = max(kmax, min(reads[0], 40)) if reads[0] > stop else kmax
        # the real master on these rows
        if tag == "aggressive":
            for i, pool in enumerate(pools[:3]):
                for rr in (rows, None):
                    for cuts in (False, True):
                        for row in rows:
                            row.reachable_paths = set()
                        mp = DTreeMasterProblem(
                            [tree.mkpath(q, id=j) for j, q in
                             enumerate(pool)], o.leaves, o.nodes, splits,
                            beta_constraints_as_cuts=cuts,
                            num_cuts_round=20 if cuts else 0, data_rows=rr)
                        mp.generate_mp(X, y)
                        for _ in range(10 if cuts else 1):
                            mp.solve_rmp()
                        got = mp.solver_.Objective().Value()
                        want = lp(i, range(p.n))
                        if not close(got, want, 1e-6):
                            raise Violation("master optimum with merged rows",
                                            got=got, want=want, paths=pool,
                                            as_cuts=cuts, given=rr is rows,
                                            **inf)
                        if not mp.solve_ip():
                            raise Violation("integer solve failed", **inf)
                        tot = sum(q.cost for q in mp.selected_paths)
                        best = tree.best_tree(p, pool)
                        if not close(tot, best):
                            raise Violation("best tree with merged rows",
                                            got=tot, want=best, paths=pool,
                                            as_cuts=cuts, **inf)
                        ctx.step(2)
