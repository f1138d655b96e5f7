import itertools

import numpy as np

from .. import tree
from ..core import Violation

ID = "C19"
LEVEL = "exploration"
TECH = "every small fitted tree of the bounds predicted on the full grid of " \
       "rows around the thresholds, in every batch form, against the tree"
RULE = ("for every assignment of splits to the nodes (single candidates, so "
        "the tree is known), training set and label alphabet the classifier "
        "is fitted; every row of a value grid hitting the thresholds from "
        "both sides is predicted alone, in pairs, reversed, repeated and in "
        "several array types and compared with the leaf label; leaves without "
        "training rows follow the selected path. Also fits with several "
        "candidates. Non-trivial: a distinct (tree, labels, row)")
BOUNDS = {"quick": "depth 1 and 2: all assignments of 4 splits (two features, "
                   "three thresholds on one, one of them negative), 3 training "
                   "sets, 7 label alphabets of 2..3 classes rotating, 33-row "
                   "grid, sets of 130 and 300 classes; depth 3: 40 assignments; 10 wide problems (14 rows, 5 "
                   "features, 15 splits, 3..4 classes, depth 1..5) on all 1024 "
                   "grid rows and batches of every size 1..44, two "
                   "of them on a batch of 70001 rows",
          "thorough": "all alphabets for every tree, 5 training sets, 200 "
                      "trees of depth 3"}
ASSUMES = ["finite numeric rows"]
HANG_S = 300

SPLITS = [(0, 0.5), (1, 0.5), (0, 1.5), (0, -2.0)]
# both sides of the thresholds, also by the last bit
G0 = [-1e9, -2.0, float(np.nextafter(-2.0, 0)), -1.5, 0, 0.5,
      float(np.nextafter(0.5, 1)), 0.6, 1.5, float(np.nextafter(1.5, 2)), 1e9]
G1 = [0, 0.5, 2]
GRID = [[a, b] for a in G0 for b in G1]
TRAIN = [
    ([[0, 0], [1, 1], [2, 0], [2, 1]], [0, 1, 1, 0]),
    ([[0, 1], [1, 1], [0, 1], [1, 0], [-3, 1]], [1, 0, 1, 0, 1]),
    ([[0.5, 0.5], [1.5, 0.5], [-2, 2]], [0, 1, 2]),
    ([[2, 0], [2, 0], [-5, 2]], [1, 1, 0]),
    ([[0, 0], [0, 1], [1, 0], [1, 1], [2, 2], [-3, 0]], [2, 0, 1, 0, 2, 1]),
]
ALPH = [[0, 1, 2], [-1, 1, 4], [5, 2, 9], ["no", "yes", "maybe"],
        ["z", "aa", "m"], [1.0, -2.0, 7.0], [False, True, None]]


def scenarios(tier):
    out = []
    th = tier == "thorough"
    k = 0
    for depth in (1, 2):
        nn = 2 ** depth - 1
        for asg in itertools.product(range(len(SPLITS)), repeat=nn):
            for ti in range(5 if th else 3):
                k += 1
                al = range(7) if th else [k % 7, (k * 3 + 1) % 7]
                out.append({"depth": depth, "asg": list(asg), "train": ti,
                            "alph": sorted(set(al))})
    n3 = 200 if th else 40
    for j in range(n3):
        asg = [(j * 7 + i * (1 + j % 3) + j // 4) % 4 for i in range(7)]
        out.append({"depth": 3, "asg": asg, "train": j % 5, "alph": [j % 7]})
    for ti in range(5):
        for j in range(7):
            out.append({"depth": 2, "asg": None, "train": ti, "alph": [j]})
    for n in (130, 300):
        for a in range(2):
            out.append({"classes": n, "alph": a})
    for k in range(2):
        for depth in (1, 2, 3, 4, 5):
            for a in range(3):
                out.append({"wide": k, "depth": depth, "alph": a})
    return out


def run_wide(sc, ctx):
    import col_gen_estimator as c
    k, depth = sc["wide"], sc["depth"]
    p = tree.prob(tree.wide(k, depth, 14, 3 + k, 2))
    o = tree.objects(p)
    labs = [[0, 1, 2, 3], [9, -4, 70, 11], ["no", "yes", "maybe", "b"]][
        sc["alph"]][:p.nt]
    labs = sorted(labs)
    init = p.tree_paths({n: cs[-1] for n, cs in enumerate(p.cands)})
    clf = c.DTreeClassifier(
        [tree.mkpath(q, id=i) for i, q in enumerate(init)], o.leaves, o.nodes,
        o.splits, tree_depth=depth, targets=list(range(p.nt)),
        max_iterations=1 if depth > 3 else 4)
    X = np.array(p.X, dtype=float)
    ay = np.array([labs[t] for t in p.y])
    clf.fit(X, ay)
    sel = [tree.unpath(q) for q in clf.master_problem.selected_paths]
    info = dict(scenario=sc, labels=labs, selected=sel)
    bad = tree.valid_tree(p, sel)
    if bad:
        raise Violation("selected tree", problems=bad, **info)
    rows = [list(r) for r in itertools.product(range(4), repeat=5)]
    want = []
    for row in rows:
        f = [q for q in sel if p.follows(row, q[0], dict(q[1]))]
        if len(f) != 1:
            raise Violation("row follows %d selected paths" % len(f), row=row,
                            **info)
        want.append(labs[f[0][2]])
    ctx.case(sc, sel)
    grid = np.array(rows)

    def ask(batch, exp, what):
        got = list(clf.predict(batch))
        ctx.eval()
        if got != exp:
            raise Violation("prediction differs from the tree (%s)" % what,
                            got=got[:60], want=exp[:60], **info)
    ask(grid, want, "full batch")
    ask(grid.astype(float), want, "floats")
    at = 0
    for n in range(1, 45):
        ask(grid[at:at + n], want[at:at + n], "batch of %d" % n)
        at += n
    idx = [(i * 389 + 7) % len(rows) for i in range(300)]
    ask(grid[idx], [want[i] for i in idx], "scattered rows")
    for i in idx[:150]:
        ask(grid[i:i + 1], [want[i]], "single row")
    if sc["alph"] == 0 and k == 0 and depth in (1, 3):
        idx = [(i * 389 + 7) % len(rows) for i in range(70001)]
        ask(grid[idx], [want[i] for i in idx], "70001 rows")
    ctx.outcome("wide, depth %d, %d labels used" % (depth, len(set(want))))


def run_classes(sc, ctx):
    """More classes than fit into small integers."""
    import col_gen_estimator as c
    n = sc["classes"]
    labs = list(range(-7, n - 7)) if sc["alph"] == 0 else [
        "c%04d" % (3 * i) for i in range(n)]
    X, y = [], []
    for t in range(n):
        X.append([t % 2, t // 2 % 2])
        y.append(t)
    for q, t in enumerate((n - 1, 128, 0, 127)):
        X += [[q % 2, q // 2]] * 4
        y += [t] * 4
    p = tree.Prob(2, X, y, [(0, 0.5), (1, 0.5)], [[0], [1], [1]], n)
    o = tree.objects(p)
    init = p.tree_paths({0: 0, 1: 1, 2: 1})
    clf = c.DTreeClassifier(
        [tree.mkpath(q, id=i) for i, q in enumerate(init)], o.leaves, o.nodes,
        o.splits, tree_depth=2, targets=list(range(n)), max_iterations=1)
    clf.fit(np.array(X, dtype=float), np.array([labs[t] for t in y]))
    sel = [tree.unpath(q) for q in clf.master_problem.selected_paths]
    rows = [[a, b] for a in (0, 1) for b in (0, 1)]
    want = [labs[[q for q in sel if p.follows(r, q[0], dict(q[1]))][0][2]]
            for r in rows]
    got = list(clf.predict(np.array(rows)))
    ctx.eval()
    if got != want:
        raise Violation("prediction differs from the tree", classes=n,
                        got=got, want=want, selected=sel)
    ctx.case(n, sc["alph"])
    ctx.outcome("%d classes" % n)


def run(sc, ctx):
    if "classes" in sc:
        return run_classes(sc, ctx)
    if "wide" in sc:
        return run_wide(sc, ctx)
    for a in sc["alph"]:
        one(sc, ALPH[a], ctx)
    ctx.sample({"scenario": sc})


def one(sc, alph, ctx):
    import col_gen_estimator as c
    from sklearn.exceptions import NotFittedError
    X, y = TRAIN[sc["train"]]
    nt = max(y) + 1
    if None in alph[:nt]:
        alph = [40, -7, 12]
    labs = sorted(alph[:nt])
    cands = [[s] for s in sc["asg"]] if sc["asg"] else [
        [0, 1], [1, 2, 3], [2, 3]]
    p = tree.Prob(sc["depth"], X, y, SPLITS, cands, nt)
    o = tree.objects(p)
    init = p.tree_paths({n: cs[0] for n, cs in enumerate(cands)},
                        targets=[(l + 1) % nt for l in range(p.nl)])
    clf = c.DTreeClassifier(
        [tree.mkpath(q, id=i) for i, q in enumerate(init)], o.leaves, o.nodes,
        o.splits, tree_depth=p.depth, targets=list(range(nt)),
        max_iterations=-1)
    grid = np.array(GRID, dtype=float)
    try:
        clf.predict(grid)
        raise Violation("predicting before fitting must raise NotFittedError")
    except NotFittedError:
        pass
    ay = np.array([labs[t] for t in y])
    # half of the trees are fitted on integer rows, all are asked for others
    clf.fit(np.array(X, dtype=float if sum(sc["asg"] or [0]) % 2 else None),
            ay)
    sel = [tree.unpath(q) for q in clf.master_problem.selected_paths]
    info = dict(splits=SPLITS, candidates=cands, training=[X, y], labels=labs,
                selected=sel)
    bad = tree.valid_tree(p, sel)
    if bad:
        raise Violation("selected tree", problems=bad, **info)
    want = []
    for row in GRID:
        f = [q for q in sel if p.follows(row, q[0], dict(q[1]))]
        if len(f) != 1:
            raise Violation("row follows %d selected paths" % len(f), row=row,
                            **info)
        cnt = p.counts(f[0][0], dict(f[0][1]))
        # a leaf reached in training carries a most frequent class
        if sc["asg"] and max(cnt) and (not 0 <= f[0][2] < nt
                         or cnt[f[0][2]] != max(cnt)):
            raise Violation("leaf label is not a most frequent class",
                            path=f[0], counts=cnt, **info)
        if not 0 <= f[0][2] < nt:
            raise Violation("selected path without a class", path=f[0],
                            **info)
        want.append(labs[f[0][2]])
        ctx.case(sc["depth"], [(q[1], q[2]) for q in sel], labs, row)

    def ask(batch, exp, what):
        got = clf.predict(batch)
        ctx.eval()
        g = np.asarray(got)
        if list(got) != exp or g.dtype.kind != ay.dtype.kind or \
                g.shape != (len(exp),):
            raise Violation("prediction differs from the tree (%s)" % what,
                            got=list(got), want=exp, dtype=str(g.dtype),
                            **info)
    n = len(GRID)
    ask(grid, want, "full batch")
    ask(grid.tolist(), want, "lists")
    ask(grid[::-1], want[::-1], "reversed")
    ask(np.asfortranarray(grid), want, "fortran order")
    ints = [i for i in range(n) if all(v == int(v) for v in GRID[i])]
    ask(np.array([GRID[i] for i in ints]).astype(int),
        [want[i] for i in ints], "integers")
    for i in range(n):
        ask(grid[i:i + 1], [want[i]], "single row")
    for i in range(n):
        for j in ((i * 7 + 3) % n, (i + 1) % n, i):
            ask(grid[[i, j]], [want[i], want[j]], "pair")
    order = [(i * 11 + 5) % n for i in range(n)]
    ask(grid[order], [want[i] for i in order], "shuffled")
    ask(grid, want, "repeated")
    if [tree.unpath(q) for q in clf.master_problem.selected_paths] != sel or \
            list(clf.classes_) != labs:
        raise Violation("predicting changed the fitted estimator", **info)
    ctx.outcome("depth %d, %d labels used" % (sc["depth"], len(set(want))))
