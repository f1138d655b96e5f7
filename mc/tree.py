"""Reference model of the tree problem and builders of package objects."""
import itertools

import numpy as np
from scipy.optimize import linprog

from .refs import close


def descent(leaf, depth):
    node, out = 0, []
    for k in range(depth):
        left = not (leaf >> (depth - 1 - k)) & 1
        out.append((node, left))
        node = 2 * node + 1 if left else 2 * node + 2
    return out


class Prob:
    """A tree problem: depth, data, splits (feature, threshold), candidate
    split ids per node."""

    def __init__(self, depth, X, y, splits, cands, nt=None):
        self.depth = depth
        self.X = [list(r) for r in X]
        self.y = list(y)
        self.splits = [tuple(s) for s in splits]
        self.cands = [list(c) for c in cands]
        self.nt = nt if nt is not None else (max(self.y) + 1)
        self.nl = 2 ** depth
        self.nn = 2 ** depth - 1
        self.desc = [descent(l, depth) for l in range(self.nl)]
        self.left = [[x[f] <= t for x in self.X] for f, t in self.splits]
        self.n = len(self.X)

    def goes_left(self, row, s):
        f, t = self.splits[s]
        return row[f] <= t

    def follows(self, row, leaf, asg):
        """asg: {node: split}"""
        return all(self.goes_left(row, asg[n]) == l
                   for n, l in self.desc[leaf])

    def rows_of(self, leaf, asg):
        return [r for r in range(self.n) if all(
            self.left[asg[n]][r] == l for n, l in self.desc[leaf])]

    def counts(self, leaf, asg, weights=None, skip=()):
        c = [0] * self.nt
        for r in self.rows_of(leaf, asg):
            if r in skip:
                continue
            c[self.y[r]] += weights[r] if weights else 1
        return c

    def assignments(self, leaf, distinct=False):
        nodes = [n for n, _ in self.desc[leaf]]
        for combo in itertools.product(*[self.cands[n] for n in nodes]):
            if distinct and len(set(combo)) < len(combo):
                continue
            yield dict(zip(nodes, combo))

    def paths(self, weights=None, skip=(), targets=True):
        """All reference paths (leaf, asg tuple, target, cost)."""
        out = []
        for leaf in range(self.nl):
            for asg in self.assignments(leaf):
                c = self.counts(leaf, asg, weights, skip)
                ts = range(self.nt) if targets else [c.index(max(c))]
                for t in ts:
                    out.append((leaf, tuple(sorted(asg.items())), t, c[t]))
        return out

    def trees(self):
        """All assignments node -> candidate split."""
        for combo in itertools.product(*self.cands):
            yield dict(enumerate(combo))

    def tree_paths(self, asg, targets=None):
        out = []
        for leaf in range(self.nl):
            a = {n: asg[n] for n, _ in self.desc[leaf]}
            c = self.counts(leaf, a)
            t = c.index(max(c)) if targets is None else targets[leaf]
            out.append((leaf, tuple(sorted(a.items())), t, c[t]))
        return out

    def reach(self, r):
        """(nodes, leaves) some choice of candidate splits produces."""
        nodes, leaves = {0}, set()
        for n in range(self.nn):
            if n not in nodes:
                continue
            for s in self.cands[n]:
                ch = 2 * n + 1 if self.left[s][r] else 2 * n + 2
                if ch >= self.nn:
                    leaves.add(ch - self.nn)
                else:
                    nodes.add(ch)
        return nodes, leaves


# ---- package objects -------------------------------------------------------

class Objs:
    pass


def objects(p, rows_sets=True, leaf_api=True):
    """Fresh package objects (leaves, nodes, splits) for a problem."""
    import col_gen_estimator as c
    o = Objs()
    o.leaves = []
    for l in range(p.nl):
        lf = c.Leaf()
        lf.create_leaf(l, p.depth)
        o.leaves.append(lf)
    o.nodes = []
    for n in range(p.nn):
        nd = c.Node()
        nd.id = n
        nd.candidate_splits = list(p.cands[n])
        nd.last_split = p.cands[n][-1] if p.cands[n] else -1
        nd.candidate_splits_count = [1] * len(p.cands[n])
        nd.parent = (n - 1) // 2 if n else -1
        nd.left_child, nd.right_child = 2 * n + 1, 2 * n + 2
        if nd.left_child >= p.nn:
            nd.left_child -= p.nn
            nd.right_child -= p.nn
            nd.children_are_leaves = True
        o.nodes.append(nd)
    o.splits = []
    for i, (f, t) in enumerate(p.splits):
        s = c.Split()
        s.id, s.feature, s.threshold = i, f, t
        if rows_sets:
            s.left_rows = {r for r in range(p.n) if p.left[i][r]}
            s.right_rows = {r for r in range(p.n) if not p.left[i][r]}
        o.splits.append(s)
    return o


def mkpath(ref, order=1, id=-1, initial=False):
    """Package Path of a reference path."""
    import col_gen_estimator as c
    leaf, asg, target, cost = ref
    q = c.Path()
    q.leaf_id = leaf
    items = list(asg)[::order]
    q.node_ids = [n for n, _ in items]
    q.splits = [s for _, s in items]
    q.target = target
    q.cost = cost
    q.id = id
    q.initial = initial
    return q


def unpath(q):
    return (int(q.leaf_id), tuple(sorted(
        (int(n), int(s)) for n, s in zip(q.node_ids, q.splits))),
        int(q.target), float(q.cost))


# ---- the master LP ---------------------------------------------------------

def pattern_follows(p, pat, ref):
    leaf, asg = ref[0], dict(ref[1])
    return all(bool(pat[asg[n]]) == l for n, l in p.desc[leaf])


def row_pattern(p, r):
    return [p.left[s][r] for s in range(len(p.splits))]


def master_lp(p, paths, rows, cuts=(), eq_cuts=True):
    """Optimum of: max cost x; one path per leaf; <= 1 per row of `rows`;
    == 1 per cut pattern; consistency with split variables.  None if
    infeasible."""
    k = len(paths)
    rho = [(n, s) for n in range(p.nn) for s in dict.fromkeys(p.cands[n])]
    ri = {v: k + i for i, v in enumerate(rho)}
    nv = k + len(rho)
    c = [-q[3] for q in paths] + [0.0] * len(rho)
    Ae, be, Au, bu = [], [], [], []
    for l in range(p.nl):
        row = [0.0] * nv
        for i, q in enumerate(paths):
            if q[0] == l:
                row[i] = 1.0
        Ae.append(row)
        be.append(1.0)
        for n, _ in p.desc[l]:
            for s in dict.fromkeys(p.cands[n]):
                row = [0.0] * nv
                row[ri[n, s]] = -1.0
                for i, q in enumerate(paths):
                    if q[0] == l and (n, s) in q[1]:
                        row[i] = 1.0
                Ae.append(row)
                be.append(0.0)
    for r in rows:
        pat = row_pattern(p, r)
        Au.append([1.0 if pattern_follows(p, pat, q) else 0.0
                   for q in paths] + [0.0] * len(rho))
        bu.append(1.0)
    for pat in cuts:
        row = [1.0 if pattern_follows(p, pat, q) else 0.0
               for q in paths] + [0.0] * len(rho)
        Ae.append(row)
        be.append(1.0)
    res = linprog(c, A_ub=Au or None, b_ub=bu or None, A_eq=Ae, b_eq=be,
                  bounds=(0, None), method="highs")
    if res.status == 2:
        return None
    assert res.status == 0, res.message
    return -res.fun


def redcost(p, q, duals, cuts=()):
    """Reduced cost of a reference path: cost minus the duals it meets."""
    ld, rd, ns, cd = duals[:4]
    leaf, asg = q[0], dict(q[1])
    v = q[3] - ld[leaf]
    for r in p.rows_of(leaf, asg):
        v -= rd[r]
    for n, s in asg.items():
        v -= ns[leaf][n][s]
    for c, pat in enumerate(cuts):
        if pattern_follows(p, pat, q):
            v -= cd[c]
    return v


def certify(p, paths, duals, rows, cuts, obj, tol=1e-5):
    """Problems with the dual certificate (empty list: it is one)."""
    bad = []
    ld, rd, ns, cd = duals[:4]
    if len(ld) != p.nl or len(rd) != p.n or len(cd) != len(cuts):
        return ["wrong number of duals: %d leaves, %d rows, %d cuts" % (
            len(ld), len(rd), len(cd))]
    for r in range(p.n):
        if rd[r] < -tol:
            bad.append("row %d dual negative: %g" % (r, rd[r]))
        if r not in rows and abs(rd[r]) > tol:
            bad.append("row %d has a dual although it is not present" % r)
    for n in range(p.nn):
        for s in dict.fromkeys(p.cands[n]):
            tot = sum(ns[l][n][s] for l in range(p.nl)
                      if n in [a for a, _ in p.desc[l]])
            if tot > tol:
                bad.append("split variable (%d,%d) not dual feasible: %g" % (
                    n, s, tot))
    for q in paths:
        v = redcost(p, q, duals, cuts)
        if v > tol:
            bad.append("present path %s has reduced cost %g" % (q, v))
    tot = sum(ld) + sum(rd) + sum(cd)
    if not close(tot, obj, tol):
        bad.append("duals sum to %g, objective %g" % (tot, obj))
    return bad


def valid_tree(p, chosen):
    """Problems of a set of chosen reference paths as one complete tree."""
    bad = []
    if sorted(q[0] for q in chosen) != list(range(p.nl)):
        bad.append("leaves %s" % sorted(q[0] for q in chosen))
    asg = {}
    for q in chosen:
        if [n for n, _ in q[1]] != sorted(n for n, _ in p.desc[q[0]]):
            bad.append("path nodes %s" % (q,))
        for n, s in q[1]:
            if asg.setdefault(n, s) != s:
                bad.append("node %d has splits %d and %d" % (n, asg[n], s))
    for r in range(p.n):
        k = sum(pattern_follows(p, row_pattern(p, r), q) for q in chosen)
        if k != 1:
            bad.append("row %d follows %d paths" % (r, k))
    return bad


def best_tree(p, paths):
    """Best total cost of a valid tree assembled from the paths, or None."""
    idx = {}
    for q in paths:
        k = (q[0], q[1])
        if k not in idx or idx[k] < q[3]:
            idx[k] = q[3]
    best = None
    for asg in p.trees():
        tot = 0
        for l in range(p.nl):
            k = (l, tuple(sorted((n, asg[n]) for n, _ in p.desc[l])))
            if k not in idx:
                tot = None
                break
            tot += idx[k]
        if tot is not None and (best is None or tot > best):
            best = tot
    return best


def zero_duals(p, ncuts=0):
    return ([0.0] * p.nl, [0.0] * p.n,
            {l: {n: {s: 0.0 for s in p.cands[n]} for n, _ in p.desc[l]}
             for l in range(p.nl)}, [0.0] * ncuts, [])


# ---- families of problems --------------------------------------------------

TABLES = {
    # two independent binary features
    "bin2": ([(0, 0.5), (1, 0.5)],
             [[a, b] for a in (0, 1) for b in (0, 1)]),
    # two thresholds of one feature, both values of rows
    "num1": ([(0, 0.0), (0, 1.0)], [[a] for a in (0, 1, 2)]),
    # two thresholds of one feature and one of another
    "mix": ([(0, 0.5), (1, 0.5), (0, 1.5)],
            [[a, b] for a in (0, 1, 2) for b in (0, 1)]),
    # the same listed with decreasing thresholds, two of them values of rows
    "mixd": ([(0, 1.0), (1, 0.0), (0, 0.5)],
             [[a, b] for a in (0, 1, 2) for b in (0, 1)]),
    # three thresholds of one feature, not sorted
    "numd3": ([(0, 2.5), (0, 0.5), (0, 1.5)], [[a] for a in (0, 1, 2, 3)]),
    # three independent binary features
    "bin3": ([(0, 0.5), (1, 0.5), (2, 0.5)],
             [[a, b, c] for a in (0, 1) for b in (0, 1) for c in (0, 1)]),
}


def datasets(table, n, classes=2, every_class=True):
    """All multisets of n labelled grid rows up to renaming of the classes."""
    splits, grid = TABLES[table]
    types = [(i, c) for i in range(len(grid)) for c in range(classes)]
    seen = set()
    for ms in itertools.combinations_with_replacement(types, n):
        labels = {c for _, c in ms}
        if every_class and len(labels) < classes:
            continue
        key = min(tuple(sorted((i, perm[c]) for i, c in ms))
                  for perm in itertools.permutations(range(classes)))
        if key in seen:
            continue
        seen.add(key)
        # interleave so that the row order is not sorted by pattern
        ms = ms[::2] + ms[1::2]
        yield [grid[i] for i, _ in ms], [c for _, c in ms]


def spec(table, depth, X, y, cands, nt=None):
    return {"t": table, "depth": depth, "X": X, "y": y, "cands": cands,
            "nt": nt if nt is not None else max(y) + 1}


def prob(s):
    return Prob(s["depth"], s["X"], s["y"], TABLES[s["t"]][0], s["cands"],
                s["nt"])


GAPS = [   # LP bound above the best tree (found by search over the family)
    spec("bin3", 2, [[0, 0, 0], [0, 0, 1], [0, 1, 1], [1, 0, 0]],
         [1, 0, 1, 0], [[0, 1], [1, 2], [0, 2]]),
    spec("bin3", 2, [[0, 0, 1], [0, 1, 0], [1, 0, 1], [1, 1, 0], [1, 1, 1]],
         [0, 1, 0, 0, 1], [[0, 1], [1, 2], [0, 2]]),
    spec("bin3", 2, [[0, 0, 1], [0, 1, 0], [1, 0, 1], [1, 1, 0], [1, 1, 1]],
         [1, 1, 0, 0, 1], [[0, 1, 2]] * 3),
    spec("bin3", 2, [[0, 0, 0], [0, 0, 1], [1, 0, 1], [1, 1, 0], [1, 1, 1]],
         [0, 1, 0, 0, 1], [[0, 1, 2]] * 3),
]

MULTI = [  # several generated cuts are needed (found by search)
    spec("bin3", 2, [[0, 1, 0], [1, 1, 1], [0, 1, 1]], [0, 0, 1],
         [[0, 1, 2]] * 3),
    spec("bin3", 2, [[0, 0, 0], [1, 0, 0], [0, 1, 1]], [0, 0, 1],
         [[0, 1, 2]] * 3),
]


def repeated(table, depth, X, y, times, cands):
    """The rows repeated: paths of high cost with small differences."""
    rows, lab = [], []
    for x, c, k in zip(X, y, times):
        rows += [x] * k
        lab += [c] * k
    return spec(table, depth, rows, lab, cands)


HEAVY = [
    repeated("bin3", 2, [[0, 0, 0], [1, 1, 0], [0, 1, 1], [1, 0, 1]],
             [0, 1, 1, 0], [110, 120, 1, 1], [[0, 1, 2]] * 3),
    repeated("bin3", 2, [[0, 0, 0], [0, 0, 1], [1, 0, 1], [1, 1, 0], [1, 1, 1]],
             [0, 1, 0, 0, 1], [130, 1, 110, 1, 1], [[0, 1, 2]] * 3),
    repeated("num1", 2, [[0], [1], [2]], [0, 1, 0], [150, 1, 140],
             [[0, 1]] * 3),
    repeated("bin2", 2, [[0, 0], [0, 1], [1, 0], [1, 1]], [0, 1, 0, 1],
             [120, 1, 1, 120], [[1, 0], [0, 1], [1]]),
]


# many features, thresholds (in no order), rows and classes; the candidates
# have numbers on both sides of ten
TABLES["wide"] = ([(f, t) for t in (1.0, 0.5, 2.0) for f in (4, 0, 3, 1, 2)],
                  None)


def wide(k, depth=2, n=14, classes=3, ncand=3):
    """The k-th wide problem (fixed: part of the bounds): the label depends on
    a few features, with noise, repeated and conflicting rows."""
    from .refs import lcg
    g = lcg(1000 + 17 * k + depth)
    X = [[next(g) % 4 for _ in range(5)] for _ in range(n - 2)]
    y = [(2 * (r[4] > 1) + (r[0] > r[3])) % classes for r in X]
    for i in range(0, n - 2, 4):
        y[i] = next(g) % classes
    for c in range(classes):
        y[c * 3] = c
    X += [list(X[2]), list(X[5])]
    y += [(y[2] + 1) % classes, y[5]]
    cands = []
    for v in range(2 ** depth - 1):
        c = []
        while len(c) < ncand:
            s = next(g) % 15
            if s not in c:
                c.append(s)
        cands.append(c)
    return spec("wide", depth, X, y, cands, nt=classes)


def deep(k, depth=4, n=20, classes=3):
    """A problem like wide() whose nodes have one candidate each, but two at
    the root and two other nodes."""
    s = wide(30 + k, depth, n, classes, 2)
    for v in range(1, 2 ** depth - 1):
        if v not in (2, 2 ** (depth - 1) - 2, 2 ** (depth - 1) + 2 * k):
            s["cands"][v] = s["cands"][v][:1]
    return s


def many(k, depth=2, n=90, classes=12, ncand=4):
    """A problem like wide() with many rows and more classes than leaves."""
    from .refs import lcg
    s = wide(70 + k, depth, n, classes, ncand)
    g = lcg(900 + k)
    s["y"] = [(classes - 1 - (3 * r[0] + r[4] + r[2])) % classes
              if next(g) % 3 else next(g) % classes for r in s["X"]]
    for c in range(classes):
        s["y"][c * 5] = c
    return s
