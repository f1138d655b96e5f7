import itertools

import numpy as np

from .. import tree
from ..core import Violation

ID = "C11"
LEVEL = "exploration"
TECH = ("every assignment of splits, leaf and node order against the "
        "definition of routing on every row of value grids next to "
        "the thresholds")
RULE = ("every split table, data set over value grids that hit the thresholds, "
        "leaf, split assignment and listing order of the nodes of the bounds: "
        "direct test, row-set intersection and cut-set intersection against "
        "the definition; and every tree partitions the rows. Non-trivial: a "
        "distinct (splits, leaf, assignment) with both followed and not "
        "followed rows")
BOUNDS = {"quick": "grid 0,0.5,1,1.5,2 per feature (25 rows), 2 features, "
                   "thresholds 0.5, 1, 1.5; grids of 49..64 rows of values "
                   "adjacent to the thresholds, around zero and around 1e9 "
                   "and 2^52; "
                   "depth 1..3, all assignments of 4 splits for depth 1..2, "
                   "of 3 splits for depth 3, all node orders; 8 wide problems "
                   "(14 rows, 5 features, 15 splits) of depth 2..5",
          "thorough": "6 splits for depth 2, 4 for depth 3"}
ASSUMES = []

TABLES = [
    [(0, 1.0), (1, 0.5), (0, 0.5), (1, 1.5)],
    [(0, 1.0), (0, 0.5), (0, 1.5), (1, 1.0)],
    [(1, 0.0), (0, 2.0), (1, 2.0), (0, -1.0)],
]
GRIDS = [[0.0, 0.5, 1.0, 1.5, 2.0]] * 3
# values next to the thresholds, very small and very large ones
TABLES += [
    [(0, 1.0), (1, 0.5), (0, 0.5), (1, 1.0)],
    [(0, 1e-12), (1, 0.0), (1, 1e-12), (0, -1e-9)],
    [(0, 1e9), (1, 1e9), (0, 1e9 + 0.5), (1, 2.0 ** 52)],
]
GRIDS += [
    [0.5, float(np.nextafter(0.5, 1)), float(np.nextafter(1, 0)), 1.0,
     float(np.nextafter(1, 2)), 1 + 5e-7, 1 - 5e-7, 1.0001],
    [0.0, -0.0, 1e-12, 2e-12, -1e-12, -1e-9, 5e-324, -5e-324],
    [1e9, 1e9 + 0.25, 1e9 + 0.5, 1e9 - 1e-6, 1e9 + 1, 2.0 ** 52,
     2.0 ** 52 + 1],
]


def scenarios(tier):
    th = tier == "thorough"
    out = []
    for ti in range(len(TABLES)):
        for depth in (1, 2, 3):
            k = {1: 4, 2: 4, 3: 4 if th else 3}[depth]
            for leaf in range(2 ** depth):
                out.append({"kind": "path", "t": ti, "depth": depth,
                            "leaf": leaf, "k": k})
            for first in range(k):
                out.append({"kind": "tree", "t": ti, "depth": depth,
                            "k": k if depth < 3 else 2, "first": first})
    for depth in (2, 3, 4, 5):
        for k in (0, 1):
            out.append({"kind": "wide", "depth": depth, "t": k})
    return out


def run_wide(sc, ctx, dt):
    p = tree.prob(tree.wide(sc["t"], sc["depth"], ncand=2))
    o = tree.objects(p)
    aX = np.array(p.X)
    for i, s in enumerate(o.splits):
        s.left_cuts = {p.n - 1 - r for r in s.left_rows}
        s.right_cuts = {p.n - 1 - r for r in s.right_rows}
    for leaf in range(p.nl):
        for asg in p.assignments(leaf):
            want = set(p.rows_of(leaf, asg))
            items = sorted(asg.items())
            for order in (items, items[::-1], items[1:] + items[:1]):
                q = tree.mkpath((leaf, order, 0, 0))
                got = [{r for r in range(p.n) if dt.row_satisfies_path(
                    aX[r], o.leaves[leaf], o.splits, q)},
                    set(dt.get_satisfied_rows(q, o.leaves[leaf], o.splits)),
                    {p.n - 1 - c for c in dt.get_satisfied_cuts(
                        q, o.leaves[leaf], o.splits)}]
                ctx.eval(3)
                if got != [want] * 3:
                    raise Violation("routing is wrong", leaf=leaf,
                                    order=order, splits=p.splits, want=want,
                                    got=got)
            if want:
                ctx.case(sc, leaf, items)
    ctx.outcome("wide")


def prob(sc):
    grid = GRIDS[sc["t"]]
    rows = [[a, b] for a in grid for b in grid]
    sp = TABLES[sc["t"]][:sc["k"]]
    return tree.Prob(sc["depth"], rows, [0] * len(rows), sp,
                     [list(range(len(sp)))] * (2 ** sc["depth"] - 1), nt=2)


def run(sc, ctx):
    from col_gen_estimator import _dtree_classifier as dt
    if sc["kind"] == "wide":
        return run_wide(sc, ctx, dt)
    p = prob(sc)
    o = tree.objects(p)
    aX = np.array(p.X)
    # cuts with the same membership as the rows, numbered differently
    for i, s in enumerate(o.splits):
        s.left_cuts = {p.n - 1 - r for r in s.left_rows}
        s.right_cuts = {p.n - 1 - r for r in s.right_rows}
    keep = [(set(s.left_rows), set(s.right_rows), set(s.left_cuts),
             set(s.right_cuts)) for s in o.splits]
    if sc["kind"] == "path":
        leaf = sc["leaf"]
        for asg in p.assignments(leaf):
            want = set(p.rows_of(leaf, asg))
            items = sorted(asg.items())
            for order in itertools.permutations(items):
                q = tree.mkpath((leaf, order, 0, 0))
                got1 = {r for r in range(p.n) if dt.row_satisfies_path(
                    aX[r], o.leaves[leaf], o.splits, q)}
                got2 = set(dt.get_satisfied_rows(q, o.leaves[leaf], o.splits))
                got3 = {p.n - 1 - c for c in dt.get_satisfied_cuts(
                    q, o.leaves[leaf], o.splits)}
                ctx.eval(3)
                info = dict(leaf=leaf, order=order, splits=p.splits,
                            want=want)
                if got1 != want:
                    raise Violation("direct test is wrong", got=got1, **info)
                if got2 != want:
                    raise Violation("row-set intersection is wrong", got=got2,
                                    **info)
                if got3 != want:
                    raise Violation("cut-set intersection is wrong", got=got3,
                                    **info)
                if q.node_ids != [n for n, _ in order] or q.splits != [
                        s for _, s in order]:
                    raise Violation("the path was changed", **info)
            if 0 < len(want) < p.n:
                ctx.case(p.splits, leaf, items)
            ctx.outcome("empty" if not want else "some")
        ctx.sample({"leaf": leaf, "path": items, "rows": sorted(want)})
    else:
        rest = p.nn - 1
        for combo in itertools.product(range(sc["k"]), repeat=rest):
            asg = dict(enumerate((sc["first"],) + combo))
            if sc["first"] >= len(p.splits):
                return
            paths = [tree.mkpath(r) for r in p.tree_paths(asg)]
            cover = [0] * p.n
            for q in paths:
                for r in dt.get_satisfied_rows(q, o.leaves[q.leaf_id],
                                               o.splits):
                    cover[r] += 1
            direct = [sum(dt.row_satisfies_path(
                aX[r], o.leaves[q.leaf_id], o.splits, q) for q in paths)
                for r in range(p.n)]
            ctx.eval()
            if cover != [1] * p.n or direct != [1] * p.n:
                raise Violation("the tree does not partition the rows",
                                tree=asg, splits=p.splits, sets=cover,
                                direct=direct)
            ctx.case(p.splits, asg)
            ctx.outcome("tree")
    if keep != [(s.left_rows, s.right_rows, s.left_cuts, s.right_cuts)
                for s in o.splits]:
        raise Violation("the split sets were changed")
