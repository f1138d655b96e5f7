import itertools

import numpy as np

from .. import tree
from ..core import Violation
from ..refs import close

ID = "C17"
LEVEL = "model_checking"
TECH = "all small path pools, add orders and LP / cut histories before the " \
       "integer solve of the real master; the selection is compared with the " \
       "best of all trees over the candidates"
RULE = ("for every problem and path pool of the bounds that contains a valid "
        "tree: the pool is supplied up front or added in several orders with "
        "LP solves in between, rows as constraints or as cuts, with or without "
        "generated cuts, then the integer master is solved, more paths are "
        "added and it is solved again; the selection must be one valid tree "
        "of maximum total cost over all valid trees of the pool")
BOUNDS = {"quick": "depth 1: every subset of the 8 paths over 2 splits and 2 "
                   "classes; depth 2: every subset of the 8 paths over "
                   "layouts with one choice per level, unions of up to three "
                   "trees plus lures over the layouts with a fractional gap; "
                   "true and distorted costs; 3 orders, 5 histories; 14 wide "
                   "problems (14..400 rows, 5 features, 12..15 splits, 3..10 classes, "
                   "depth 2 and 3, up to 400 paths), some trees with lures and unions; deep problems (20 rows, depth 4, 15 nodes, 16 leaves)",
          "thorough": "more data sets, every union of three trees"}
ASSUMES = ["the integer solver proves optimality on these instances"]
HANG_S = 300


def problems(tier):
    out = []
    B = "bin2"
    small = [tree.spec(B, 1, [[0, 1], [1, 0], [1, 1]], [0, 1, 0], [[0, 1]]),
             tree.spec("num1", 1, [[0], [1], [2]], [1, 0, 1], [[1, 0]])]
    two = [tree.spec(B, 2, [[0, 1], [1, 0], [1, 1]], [0, 1, 0],
                     [[0, 1], [0], [1]]),
           tree.spec(B, 2, [[0, 0], [0, 1], [1, 0], [1, 1]], [0, 1, 1, 0],
                     [[1, 0], [1], [1]]),
           tree.spec("num1", 2, [[0], [1], [2]], [1, 0, 1],
                     [[1], [0, 1], [0, 1]]),
           tree.spec("mix", 2, [[0, 1], [1, 0], [2, 1]], [0, 1, 2],
                     [[0, 2], [1], [1]])]
    if tier == "thorough":
        for X, y in tree.datasets(B, 3):
            two.append(tree.spec(B, 2, X, y, [[0, 1], [0], [1]]))
        for X, y in tree.datasets("num1", 3):
            two.append(tree.spec("num1", 2, X, y, [[0, 1], [1], [0, 1]]))
            small.append(tree.spec("num1", 1, X, y, [[0, 1]]))
    for s in small + two:
        out.append((s, "subsets"))
    for s in tree.GAPS + tree.MULTI:
        out.append((s, "unions"))
    for k in range(6 if tier == "thorough" else 3):
        out.append((tree.wide(k, 2, 14, 3 + k % 2), "wide"))
        out.append((tree.wide(k, 3, 14, 3 + k % 2, 2), "wide"))
        out.append((tree.wide(k, 2, 14, 3 + k % 2, 6), "wide"))
        out.append((tree.deep(k), "wide"))
    # hundreds of paths
    out.append((tree.wide(11, 2, 14, 3, 10), "wide"))
    out.append((tree.wide(50, 3, 12, 4, 3), "wide"))
    # hundreds of rows: trees that differ by a fraction of a percent
    for k in range(6 if tier == "thorough" else 2):
        out.append((tree.wide(90 + k, 2, 400, 2, 7), "wide"))
    out.append((tree.wide(95, 3, 300, 2, 2), "wide"))
    return out


def scenarios(tier):
    out = []
    for s, kind in problems(tier):
        p = tree.prob(s)
        if kind == "subsets":
            pool = p.paths(targets=p.depth == 1)
            n = 2 ** len(pool)
            step = max(1, n // 16)
            for a in range(0, n, step):
                out.append({"p": s, "kind": kind, "from": a,
                            "to": min(n, a + step)})
        else:
            k = len(list(p.trees()))
            step = 1 if kind == "unions" else -(-k // 3)
            for i in range(0, k, step):
                out.append({"p": s, "kind": kind, "first": i,
                            "three": tier == "thorough" and step == 1})
    return out


def pools(p, sc):
    if sc["kind"] == "subsets":
        allp = p.paths(targets=p.depth == 1)
        for mask in range(sc["from"], sc["to"]):
            yield [q for i, q in enumerate(allp) if mask >> i & 1]
        return
    trees = list(p.trees())
    a = trees[sc["first"]]
    everything = p.paths(targets=False)
    mine = p.tree_paths(a)
    lures = sorted(set(everything) - set(mine), key=lambda q: -q[3])
    yield mine + lures[:8]
    yield mine + lures
    rest = [t for i, t in enumerate(trees) if i > sc["first"]]
    if sc["kind"] == "wide":
        rest = trees[(sc["first"] * 5 + 2) % 7::11][:6]
    for b in rest:
        yield sorted(set(mine) | set(p.tree_paths(b)))
    if sc["three"]:
        for b, c in itertools.islice(
                itertools.combinations(rest, 2), 0, None, 3):
            yield sorted(set(mine) | set(p.tree_paths(b))
                         | set(p.tree_paths(c)))


def distort(pool, k):
    """Costs that make inconsistent combinations attractive."""
    if k == 0:
        return pool
    return [(q[0], q[1], q[2], q[3] + (3 * i * i + 5 * q[0]) % 7)
            for i, q in enumerate(pool)]


HIST = ["ip", "lp,ip", "rows", "gen", "both"]


def run(sc, ctx):
    p = tree.prob(sc["p"])
    k = sc.get("from", 0) + sc.get("first", 0) * 5
    for pool in pools(p, sc):
        if tree.best_tree(p, pool) is None:
            ctx.outcome("no tree in the pool")
            continue
        k += 1
        for costs in (0, 1):
            # every history for true costs, a rotating one otherwise
            for h in (HIST if costs == 0 else [HIST[k % 5]]):
                one(p, sc, distort(pool, costs), h, k % 3, costs == 0, ctx)
    ctx.sample({"scenario": sc, "pool": pool[:3]})


def start_tree(p, pool):
    for asg in p.trees():
        t = []
        for l in range(p.nl):
            key = (l, tuple(sorted((n, asg[n]) for n, _ in p.desc[l])))
            m = [q for q in pool if q[:2] == key]
            if not m:
                break
            t.append(m[0])
        else:
            return t


def one(p, sc, pool, hist, order, true_costs, ctx):
    from col_gen_estimator import DTreeMasterProblem
    o = tree.objects(p)
    init = list(pool) if order == 0 else start_tree(p, pool)
    later = [q for q in pool if q not in init]
    if order == 2:
        later = later[::-1]
    beta, gen = hist in ("rows", "both"), hist in ("gen", "both")
    mp = DTreeMasterProblem([tree.mkpath(q, id=i, initial=True)
                             for i, q in enumerate(init)],
                            o.leaves, o.nodes, o.splits,
                            beta_constraints_as_cuts=beta, generate_cuts=gen,
                            num_cuts_round=3 if beta or gen else 0)
    X, y = np.array(p.X, dtype=float), np.array(p.y)
    mp.generate_mp(X, y)
    added = []
    info = dict(problem=[p.X, p.y, p.splits, p.cands], pool=pool,
                history=hist, order=order)

    def lp():
        for _ in range(10 if beta or gen else 1):
            mp.solve_rmp()
            ctx.step()

    half = len(later) // 2
    if hist != "ip":
        lp()
    if order == 2 and later:          # an integer solve in between
        select(mp, p, init, X, true_costs, info, ctx)
    for i, q in enumerate(later):
        if hist not in ("ip",) and i == half:
            lp()
        mp.add_column(tree.mkpath(q, 1 - 2 * (i & 1)))
        added.append(q)
        ctx.step()
    if hist != "ip" and order:
        mp.solve_rmp()
    a = select(mp, p, pool, X, true_costs, info, ctx)
    b = select(mp, p, pool, X, true_costs, info, ctx)
    if not close(a, b):
        raise Violation("solving again gives another cost", got=[a, b], **info)
    ctx.trace()
    ctx.state(sc["p"], pool, hist, order)
    ctx.outcome("%s: %d of %d paths" % (hist, p.nl, len(pool)))


def select(mp, p, pool, X, true_costs, info, ctx):
    if not mp.solve_ip():
        raise Violation("the integer solve reports failure", **info)
    ctx.step()
    got = [tree.unpath(q) for q in mp.selected_paths]
    for q in got:
        if not any(q[:3] == z[:3] and close(q[3], z[3]) for z in pool):
            raise Violation("selected path is not available", path=q, **info)
    bad = tree.valid_tree(p, got)
    if bad:
        raise Violation("selection is not one valid tree", got=got,
                        problems=bad, **info)
    tot = sum(q[3] for q in got)
    best = tree.best_tree(p, pool)
    if not close(tot, best):
        raise Violation("selection is not the best tree", got=tot, want=best,
                        selected=got, **info)
    if true_costs:
        hits = 0
        for r in range(p.n):
            f = [q for q in got if tree.pattern_follows(
                p, tree.row_pattern(p, r), q)]
            hits += f[0][2] == p.y[r]
        if hits != tot:
            raise Violation("cost is not the number of correctly classified "
                            "rows", got=tot, want=hits, **info)
    return tot
