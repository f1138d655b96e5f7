import itertools

import numpy as np

from .. import refs, tree
from ..core import Violation

ID = "C21"
LEVEL = "model_checking"
TECH = "all histories of fit, predict and score up to a depth on every " \
       "classifier and configuration, with a deep comparison of all the " \
       "caller's arguments after every operation"
RULE = ("every history of the bounds for every classifier, configuration, "
        "argument container and problem; after each operation the caller's "
        "matrix, labels, path list and members, candidate lists, thresholds, "
        "row memberships, targets are compared with a snapshot; predictions "
        "repeated at any distance are compared")
BOUNDS = {"quick": "histories of 3 operations (tree) and 4 (rules) out of fit, "
                   "predict training rows, predict other rows, score; 2 rule "
                   "classifiers x 5 containers x 3 data sets x 4 parameter "
                   "sets; 10 tree problems x 12 configurations x 3 containers; one "
                   "history of 6 operations on 4 wide tree problems x 4 "
                   "configurations and on 2 wide rule data sets",
          "thorough": "one more operation; also pairs of estimators sharing "
                      "all arguments"}
ASSUMES = ["derived fields the code documents as its own (node children, path "
           "ids) are not the caller's data"]
HANG_S = 300

DATA = [
    ([[a, b, c] for a in (0, 1) for b in (0, 1) for c in (0, 1)],
     [0, 1, 0, 1, 0, 1, 1, 1]),
    ([[0, 0, 1], [1, 1, 1], [0, 1, 0], [1, 0, 0], [1, 1, 0]],
     ["b", "a", "b", "a", "b"]),
    ([[1, 1], [0, 1], [1, 0], [0, 0], [1, 1], [0, 1]], [-1, 7, -1, -1, 7, 7]),
]
PARAMS = [{"C": 5, "p": 1}, {"C": 2, "p": 0.5}, {"C": 4, "max_iterations": 1},
          {"C": 10, "p": 2}]
CLS = ["BooleanDecisionRuleClassifier",
       "BooleanDecisionRuleClassifierWithHeuristic"]
BOX = ["list", "int array", "float array", "fortran array", "read only array"]
OPS = ["fit", "predict", "predict other", "score"]
CONF = [(beta, gen, rows, old) for beta, gen in (
    (False, False), (True, False), (True, True)) for rows in (False, True)
    for old in (False, True)]


def problems():
    out = list(tree.GAPS) + list(tree.MULTI)
    out.append(tree.spec("bin2", 2, [[0, 1], [1, 0], [1, 1], [0, 0]],
                         [0, 1, 0, 1], [[0, 1]] * 3))
    out.append(tree.spec("num1", 2, [[0], [1], [2], [1]], [1, 0, 1, 1],
                         [[0, 1]] * 3))
    out.append(tree.spec("mix", 1, [[0, 1], [1, 0], [2, 1], [1, 1]],
                         [2, 0, 1, 1], [[0, 1, 2]]))
    # candidates in no order
    out.append(tree.spec("mixd", 2, [[0, 1], [1, 0], [2, 1], [1, 1]],
                         [1, 0, 1, 1], [[2, 0, 1], [1, 0], [2, 1]]))
    return out


def scenarios(tier):
    out = []
    for c in range(2):
        for b in range(len(BOX)):
            for d in range(len(DATA)):
                for q in range(len(PARAMS)):
                    out.append({"kind": "rule", "cls": c, "box": b, "d": d,
                                "q": q, "len": 5 if tier == "thorough" else 4})
    for i in range(len(problems())):
        for c in range(len(CONF)):
            for b in (0, 2, 4):
                out.append({"kind": "tree", "p": i, "conf": c, "box": b,
                            "len": 4 if tier == "thorough" else 3,
                            "two": tier == "thorough"})
    for w in range(4):
        for c in ((0, 1, 6, 10) if w < 3 else (2, 8)):
            out.append({"kind": "tree", "wide": w, "conf": c, "box": w + 1,
                        "len": 0, "two": False})
    for w in range(2):
        for c in range(2):
            for b in range(len(BOX)):
                out.append({"kind": "rule", "cls": c, "box": b, "wide": w,
                            "q": 0, "len": 0})
    return out


def box(b, X, y):
    if BOX[b] == "list":
        return [list(r) for r in X], list(y)
    if BOX[b] == "int array":
        return np.array(X), np.array(y)
    if BOX[b] == "float array":
        return np.array(X, dtype=float), np.array(y)
    if BOX[b] == "fortran array":
        return np.asfortranarray(np.array(X, dtype=float)), np.array(y)
    X, y = np.array(X, dtype=float), np.array(y)
    X.flags.writeable = y.flags.writeable = False
    return X, y


def snap(v):
    if isinstance(v, np.ndarray):
        return ("array", str(v.dtype), v.shape, v.tolist())
    if isinstance(v, (list, tuple)):
        return [snap(x) for x in v]
    return (type(v).__name__, v)


def histories(n):
    """A history starts with a fit: predicting before is another property."""
    if not n:
        yield ["fit", "predict", "predict other", "score", "fit", "predict"]
        return
    for rest in itertools.product(range(len(OPS)), repeat=n - 1):
        yield [OPS[0]] + [OPS[i] for i in rest]


def play(hist, clf, X, y, other, snapshot, ctx, info):
    want = snapshot()
    seen = {}
    for i, op in enumerate(hist):
        if op == "fit":
            clf.fit(X, y)
            seen = {}
        elif op == "score":
            got = clf.score(X, y)
            if seen.setdefault(op, got) != got:
                raise Violation("the score changed", got=got, want=seen[op],
                                history=hist[:i + 1], **info)
        else:
            got = [str(v) for v in clf.predict(X if op == "predict"
                                               else other)]
            if seen.setdefault(op, got) != got:
                raise Violation("a repeated prediction differs", got=got,
                                want=seen[op], history=hist[:i + 1], **info)
        ctx.step()
        now = snapshot()
        if now != want:
            raise Violation("an argument of the caller changed",
                            what=[k for k in want if want[k] != now[k]],
                            got=[now[k] for k in want if want[k] != now[k]],
                            want=[want[k] for k in want if want[k] != now[k]],
                            history=hist[:i + 1], **info)
    ctx.trace()


def run(sc, ctx):
    if sc["kind"] == "rule":
        from col_gen_estimator import _bdr_classifier as bd
        dX, dy = refs.wide(10, 20, sc["wide"]) if "wide" in sc else \
            DATA[sc["d"]]
        params = PARAMS[sc["q"]]
        for hist in histories(sc["len"]):
            X, y = box(sc["box"], dX, dy)
            # also rows that are not binary, to be left alone all the same
            m = len(dX[0])
            other, _ = box(sc["box"], refs.binary_rows(m) + [
                [[0.5, -1.25, 1.75, 2][(i + j) % 4] for i in range(m)]
                for j in range(3)], [0])
            par = dict(params)
            clf = getattr(bd, CLS[sc["cls"]])(**par)
            play(hist, clf, X, y, other, lambda: {
                "X": snap(X), "y": snap(y), "other": snap(other),
                "parameters": dict(par)}, ctx, dict(
                    cls=CLS[sc["cls"]], params=params, box=BOX[sc["box"]],
                    data=[dX, dy]))
            ctx.state(sc, hist)
        ctx.sample({"history": hist, "data": dX, "cls": CLS[sc["cls"]]})
        ctx.outcome("rule histories", 4 ** max(0, sc["len"] - 1))
        return
    import col_gen_estimator as c
    from examples import dtree_experiment as ex
    p = tree.prob(tree.wide(sc["wide"], 2, n=[14, 24, 14, 40][sc["wide"]])
                  if "wide" in sc else problems()[sc["p"]])
    beta, gen, rows, old = CONF[sc["conf"]]
    asg = list(p.trees())[0]
    for hist in histories(sc["len"]):
        o = tree.objects(p)
        init = [tree.mkpath(q, id=i) for i, q in enumerate(p.tree_paths(asg))]
        data_rows = ex.preprocess(
            o.nodes, o.splits, np.array(p.X, dtype=float), np.array(p.y),
            p.depth, aggressive=False) if rows else None
        X, y = box(sc["box"], p.X, p.y)
        other, _ = box(sc["box"], [[v[0] + 1] + v[1:] for v in p.X] + [
            [a + 0.3 * (j + 1) for j, a in enumerate(v)] for v in p.X[:3]],
            [0])
        targets = list(range(p.nt))
        members = list(init)

        def snapshot():
            return {
                "X": snap(X), "y": snap(y), "other": snap(other),
                "number of initial paths": len(init),
                "initial paths": [a is b for a, b in zip(init, members)] + [
                    [tree.unpath(q), list(q.node_ids), list(q.splits)]
                    for q in init],
                "leaves": [[lf.id, list(lf.left_nodes), list(lf.right_nodes)]
                           for lf in o.leaves],
                "candidates": [[nd.id, list(nd.candidate_splits),
                                list(nd.candidate_splits_count),
                                nd.last_split] for nd in o.nodes],
                "splits": [[s.id, s.feature, s.threshold, set(s.left_rows),
                            set(s.right_rows)] for s in o.splits],
                "lists": [len(o.leaves), len(o.nodes), len(o.splits)],
                "targets": snap(targets),
                "rows": None if data_rows is None else [
                    [set(r.left_splits), set(r.right_splits),
                     set(r.reachable_leaves), set(r.reachable_nodes),
                     r.removed_from_sp, r.removed_from_master, r.weight]
                    for r in data_rows]}

        def make():
            return c.DTreeClassifier(
                init, o.leaves, o.nodes, o.splits, tree_depth=p.depth,
                targets=targets, data_rows=data_rows, use_old_sp=old,
                master_beta_constraints_as_cuts=beta,
                master_generate_cuts=gen, num_master_cuts_round=10)
        info = dict(problem=[p.X, p.y, p.splits, p.cands],
                    configuration=CONF[sc["conf"]], box=BOX[sc["box"]])
        clf = make()
        play(hist, clf, X, y, other, snapshot, ctx, info)
        if sc["two"]:
            play(hist, make(), X, y, other, snapshot, ctx, info)
        ctx.state(sc, hist)
    ctx.sample({"history": hist, "problem": [p.X, p.y, p.splits, p.cands],
                "configuration": CONF[sc["conf"]]})
    ctx.outcome("tree histories", 4 ** max(0, sc["len"] - 1))
