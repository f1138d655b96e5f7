import itertools

import numpy as np

from .. import cart, tree
from ..core import Violation

ID = "C26"
LEVEL = "model_checking"
TECH = "all sequences of CART trees over a split alphabet fed to the real " \
       "import functions, compared with a reference after every tree"
RULE = ("every sequence of CART trees (as sklearn arrays) of the bounds merged "
        "one after the other; after every merge the split numbering and the "
        "node tables, at the end the split and node lists and the initial "
        "paths are compared with the reference")
BOUNDS = {"quick": "depth 2 over 3 splits (two on one feature): all pairs of "
                   "trees and all triples whose middle tree is one of 6; "
                   "depth 3 over 3 splits: every tree alone and every pair "
                   "with every tree of depth 2; unit and weighted merges",
          "thorough": "all triples of depth-2 trees"}
ASSUMES = ["a CART tree never repeats a split on a path"]

TABLE = [(0, 0.5), (1, 0.5), (0, 1.5)]
ROWS = [[a, b] for a in (0.0, 0.5, 1.0, 2.0) for b in (0.0, 1.0)]
LABELS = [[0, 1, 1, 0, 0, 0, 1, 1], [2, 0, 1, 1, 2, 2, 0, 2],
          [1, 1, 1, 1, 0, 1, 1, 1]]


def scenarios(tier):
    out = []
    t2 = cart.trees(2, [0, 1, 2])
    n = len(t2)
    for i in range(n):
        out.append({"depth": 2, "first": i, "kind": "pairs"})
        out.append({"depth": 2, "first": i, "kind": "triples",
                    "middle": list(range(n)) if tier == "thorough" else
                    [0, 1, n // 3, n // 2, n - 2, n - 1]})
    t3 = len(cart.trees(3, [0, 1, 2]))
    for i in range(0, t3, 8):
        out.append({"depth": 3, "first": i, "kind": "deep"})
    return out


class Ref:
    """Reference of the merged state."""

    def __init__(self, depth):
        self.order = []                       # (feature, threshold) in id order
        self.use = {n: {} for n in range(2 ** depth - 1)}
        self.seq = {n: [] for n in range(2 ** depth - 1)}
        self.last = {}

    def add(self, t, w, preorder):
        for s in preorder:
            if TABLE[s] not in self.order:
                self.order.append(TABLE[s])
        for n, s in cart.walk(t):
            i = self.order.index(TABLE[s])
            self.use[n][i] = self.use[n].get(i, 0) + w
            self.last[n] = i


def pre(t):
    return [] if t is None else [t[0]] + pre(t[1]) + pre(t[2])


def sequence(ts, weights, depth, y, ctx):
    import col_gen_estimator as c
    from examples import dtree_experiment as ex
    nn = 2 ** depth - 1
    X = np.array(ROWS)
    ay = np.array(y)
    splits, nodes = {}, {}
    for i in range(nn):
        nodes[i] = c.Node()
        nodes[i].id = i
        nodes[i].candidate_splits = []
    ref = Ref(depth)
    info = dict(trees=ts, weights=weights, table=TABLE)
    ids = {}
    for t, w in zip(ts, weights):
        a = cart.TreeArrays(t, TABLE)
        lv = ex.get_is_leaves(a.node_count, a.children_left, a.children_right)
        if [bool(v) for v in lv] != [v == -1 for v in a.children_left]:
            raise Violation("leaves of the CART tree", **info)
        mine = ex.get_all_splits(a.node_count, a.feature, a.threshold, lv)
        splits = ex.merge_all_splits(splits, mine)
        tn = ex.get_all_nodes(a.children_left, a.children_right, a.node_count,
                              a.feature, a.threshold, lv, splits)
        nodes = ex.merge_all_nodes(nodes, tn) if w == 1 else \
            ex.merge_all_nodes(nodes, tn, w)
        ctx.step()
        used = set(pre(t))
        ref.add(t, w, pre(t))
        # splits: one number per distinct pair, consecutive, stable
        got = {(int(k[0]), float(k[1])): s.id for k, s in splits.items()}
        if set(got) != set(ref.order):
            raise Violation("set of splits", got=sorted(got), **info)
        if sorted(got.values()) != list(range(len(got))):
            raise Violation("split numbers not consecutive", got=got, **info)
        for k, s in splits.items():
            if (s.feature, s.threshold) != (k[0], k[1]):
                raise Violation("split attributes", **info)
        for k, v in ids.items():
            if got[k] != v:
                raise Violation("split number changed", split=k, **info)
        ids = got
        ren = {i: got[p] for i, p in enumerate(ref.order)}
        # this tree's nodes
        wantn = {n: got[TABLE[s]] for n, s in cart.walk(t)}
        gotn = {int(k): (list(v.candidate_splits), v.last_split)
                for k, v in tn.items()}
        if gotn != {n: ([s], s) for n, s in wantn.items()} or any(
                v.id != k for k, v in tn.items()):
            raise Violation("node table of a tree", got=gotn, want=wantn,
                            **info)
        for n in range(nn):
            nd = nodes[n]
            gc = dict(zip(nd.candidate_splits, nd.candidate_splits_count))
            wc = {ren[i]: k for i, k in ref.use[n].items()}
            if gc != wc or len(gc) != len(nd.candidate_splits) or len(
                    nd.candidate_splits) != len(nd.candidate_splits_count):
                raise Violation("candidates of node %d" % n,
                                got=[nd.candidate_splits,
                                     nd.candidate_splits_count], want=wc,
                                **info)
            wl = ren[ref.last[n]] if n in ref.last else -1
            if nd.last_split != wl:
                raise Violation("last split of node %d" % n,
                                got=nd.last_split, want=wl, **info)
        ctx.state(depth, [(ref.order[i], k) for n in range(nn)
                          for i, k in sorted(ref.use[n].items())],
                  ref.order, ref.last)
    del used
    sl, nl = ex.get_splits_list(splits), ex.get_nodes_list(nodes)
    if [s.id for s in sl] != list(range(len(splits))) or [
            n.id for n in nl] != list(range(nn)):
        raise Violation("lists not in number order", **info)
    # initial paths of the last tree
    t = ts[-1]
    desc = {l: tree.descent(l, depth) for l in range(2 ** depth)}
    chosen = {n: got[TABLE[s]] for n, s in cart.walk(t)}
    for removed in [None] + sorted(set(chosen.values())):
        for s in sl:
            s.removed = s.id == removed
        for l in range(2 ** depth):
            lf = c.Leaf()
            lf.create_leaf(l, depth)
            q = ex.get_path_for_leaf(lf, tn, depth, sl, X, ay)
            ctx.step()
            okay = all(n in chosen and chosen[n] != removed
                       for n, _ in desc[l])
            inf = dict(leaf=l, removed=removed, y=y, **info)
            if not okay:
                if q is not None:
                    raise Violation("a path for a leaf without its ancestors",
                                    **inf)
                continue
            if q is None:
                raise Violation("no path although all ancestors are there",
                                **inf)
            check_path(q, l, desc[l], chosen, t, sl, X, y, depth, inf)
    for s in sl:
        s.removed = False
    # initial tree over all nodes (every node must have been used)
    if all(n in ref.last for n in range(nn)):
        al, ap = ex.get_all_leaves_paths(nodes, depth, sl, X, ay)
        full = {n: ren[ref.last[n]] for n in range(nn)}
        if sorted(al) != list(range(2 ** depth)) or any(
                al[l].id != l for l in al):
            raise Violation("leaves", **info)
        pl, ll = ex.get_paths_list(ap), ex.get_leaves_list(al)
        if sorted(q.leaf_id for q in pl) != list(range(2 ** depth)):
            raise Violation("one path per leaf expected", **info)
        for q in pl:
            d = desc[q.leaf_id]
            lf = ll[q.leaf_id]
            if set(lf.left_nodes) != {n for n, s in d if s} or set(
                    lf.right_nodes) != {n for n, s in d if not s}:
                raise Violation("ancestors of leaf %d" % q.leaf_id, **info)
            check_path(q, q.leaf_id, d, full, None, sl, X, y, depth,
                       dict(leaf=q.leaf_id, y=y, **info))
        ctx.outcome("all nodes used")
    else:
        ctx.outcome("some nodes unused")
    ctx.trace()


def check_path(q, leaf, desc, asg, t, sl, X, y, depth, info):
    want = {n: asg[n] for n, _ in desc}
    if q.leaf_id != leaf or len(q.node_ids) != depth or dict(
            zip(q.node_ids, q.splits)) != want:
        raise Violation("nodes and splits of a path",
                        got=[q.node_ids, q.splits], want=want, **info)
    rows = []
    for r in range(len(y)):
        ok = all((X[r][sl[asg[n]].feature] <= sl[asg[n]].threshold) == left
                 for n, left in desc)
        if t is not None and ok != (cart.region(t, X[r], TABLE)[0]
                                    == 2 ** depth - 1 + leaf):
            raise AssertionError("reference routing")
        if ok:
            rows.append(r)
    cnt = {}
    for r in rows:
        cnt[y[r]] = cnt.get(y[r], 0) + 1
    best = max(cnt.values()) if cnt else 0
    if q.cost != best:
        raise Violation("cost of a path", got=q.cost, want=best, **info)
    if cnt.get(int(q.target), 0) != best or int(q.target) not in y:
        raise Violation("target of a path", got=q.target, counts=cnt, **info)


def run(sc, ctx):
    d = sc["depth"]
    if sc["kind"] == "deep":
        t3 = cart.trees(3, [0, 1, 2])
        t2 = cart.trees(2, [0, 1, 2])
        for i in range(sc["first"], min(sc["first"] + 8, len(t3))):
            sequence([t3[i]], [1], d, LABELS[i % 3], ctx)
            for j in range(len(t2)):
                sequence([t2[j], t3[i]], [1, 1000], d, LABELS[j % 3], ctx)
                sequence([t3[i], t2[j]], [1, 1], d, LABELS[j % 3], ctx)
        return
    t2 = cart.trees(2, [0, 1, 2])
    a = t2[sc["first"]]
    if sc["kind"] == "pairs":
        for b in t2:
            for w in ([1, 1], [1, 1000], [2, 3]):
                for y in LABELS:
                    sequence([a, b], w, d, y, ctx)
    else:
        for m in sc["middle"]:
            for b in t2:
                sequence([a, t2[m], b], [1, 1, 1000], d,
                         LABELS[(m + len(b or ())) % 3], ctx)
    ctx.sample({"trees": [a, b], "table": TABLE})
