import itertools

import numpy as np

from .. import env, refs, tree
from ..core import Violation
from ..refs import close
from . import c18

ID = "C30"
LEVEL = "exploration"
TECH = ("complete fits of the real classifiers on every representation and "
        "every order of the same data, compared with the plain fit")
RULE = ("for every data set of the bounds every container / dtype / layout of "
        "the matrix and of the labels for fitting, every one for predicting, "
        "and every order of the rows (and features, candidate splits), and "
        "repetition of all rows: same LP optimum (times the repetition), same "
        "flags; for other representations also the same cost; predictions "
        "are those of the model whatever the representation. Non-trivial: a distinct (data, representation or "
        "order, classifier) fitted")
BOUNDS = {"quick": "19 matrix and 7 label representations; rules: 8 data sets "
                   "(one of 504 rows, one with values of 40 features), both "
                   "variants, all 24..120 row orders of 4..5 rows, all "
                   "feature orders of 3, 1/2/3/130-fold repetition; trees: 8 "
                   "problems x 6 configurations, all row orders of 4 rows (20 of more), "
                   "all candidate orders of the root, 1/2/3/130-fold repetition",
          "thorough": "more data sets"}
ASSUMES = ["CBC, GLOP, CP-SAT answers are deterministic; which of several "
           "equally good rules is taken is not compared"]
HANG_S = 300
CLS = ["BooleanDecisionRuleClassifier",
       "BooleanDecisionRuleClassifierWithHeuristic"]


def strided(X):
    big = np.full((2 * len(X) + 1, 2 * len(X[0]) + 1), 7.0)
    big[1::2, 1::2] = X
    return big[1::2, 1::2]


def backwards(X):
    return np.array(X, dtype=float)[::-1, ::-1].copy()[::-1, ::-1]


def frozen(X):
    a = np.array(X, dtype=float)
    a.setflags(write=False)
    return a


def frame(X):
    import pandas as pd
    # labels of rows and columns that are not their positions
    return pd.DataFrame(np.array(X, dtype=float), index=[
        5 * i + 3 for i in range(len(X))][::-1])


def nest(X):
    return [np.array(r, dtype=float) for r in X]


BOX = {
    "float64": lambda X: np.array(X, dtype=float),
    "list": lambda X: [list(r) for r in X],
    "tuple": lambda X: tuple(tuple(r) for r in X),
    "rows": nest,
    "int64": lambda X: np.array(X, dtype=np.int64),
    "int32": lambda X: np.array(X, dtype=np.int32),
    "int8": lambda X: np.array(X, dtype=np.int8),
    "uint8": lambda X: np.array(X, dtype=np.uint8),
    "uint64": lambda X: np.array(X, dtype=np.uint64),
    "float32": lambda X: np.array(X, dtype=np.float32),
    "float16": lambda X: np.array(X, dtype=np.float16),
    "bool": lambda X: np.array(X, dtype=bool),
    "fortran": lambda X: np.asfortranarray(np.array(X, dtype=float)),
    "strided": strided,
    "backwards": backwards,
    "frozen": frozen,
    "frame": frame,
    "object": lambda X: np.array(X, dtype=object),
    "swapped": lambda X: np.array(X, dtype=float).astype(">f8"),
}


def series(y):
    import pandas as pd
    return pd.Series(y, index=[7 * i + 1 for i in range(len(y))][::-1])


def ystride(y):
    a = np.array([v for t in y for v in (t, 1 - t)])
    return a[::2]


YBOX = {
    "int64": lambda y: np.array(y),
    "list": lambda y: list(y),
    "uint8": lambda y: np.array(y, dtype=np.uint8),
    "int8": lambda y: np.array(y, dtype=np.int8),
    "float64": lambda y: np.array(y, dtype=float),
    "strided": ystride,
    "series": series,
}


def is01(X):
    return all(v in (0, 1) for r in X for v in r)


def boxes(X):
    return [b for b in BOX if b != "bool" or is01(X)]


def data(tier):
    out = [refs.wide(8, 14, 3), refs.wide(40, 12, 5)]
    cube = refs.binary_rows(3)
    X, y = cube + cube[1:7], [int(a or b and c) for a, b, c in cube] + [
        0, 1, 0, 0, 1, 0]
    out.append((X * 36, y * 36))
    out.append((cube + cube[:3], [int(a and b or c) for a, b, c in cube] +
                [1, 0, 1]))
    out.append(([[1, 1], [0, 1], [1, 0], [0, 0], [1, 1]], [0, 1, 1, 0, 1]))
    out.append(([[0, 0, 1], [1, 1, 1], [0, 1, 0], [1, 0, 0]], [1, 0, 1, 0]))
    out.append(([[1, 0, 1], [1, 1, 0], [0, 1, 1], [1, 1, 1]], [1, 1, 0, 0]))
    out.append(([[1], [0], [1]], [1, 0, 0]))
    if tier == "thorough":
        for k in range(8):
            out.append(refs.wide(8, 16, 30 + k))
        out += list(refs.multisets(2, 4, sym=True))
    return out


def trees(tier):
    out = list(tree.GAPS[:2]) + list(tree.MULTI[:1]) + [
        tree.spec("mix", 2, [[0, 1], [1, 0], [2, 1], [1, 1]], [2, 0, 1, 1],
                  [[0, 2, 1], [1, 0], [2, 1]]),
        tree.spec("bin2", 2, [[0, 1], [1, 0], [1, 1], [0, 0]], [0, 1, 0, 1],
                  [[0, 1]] * 3),
        tree.spec("num1", 2, [[0], [1], [2], [1]], [1, 0, 1, 1],
                  [[0, 1]] * 3), tree.wide(3, 2)]
    out.append(tree.HEAVY[1])
    if tier == "thorough":
        out += [tree.wide(k, d) for k in (4, 5) for d in (2, 3)]
        out += tree.GAPS[2:] + tree.MULTI[1:]
    return out


def scenarios(tier):
    out = []
    for d in range(len(data(tier))):
        X, y = data(tier)[d]
        for cls in range(2):
            for kind in ("box", "order", "times"):
                out.append({"kind": kind, "d": d, "cls": cls, "tier": tier})
    for d in range(len(trees(tier))):
        for conf in range(6):
            for kind in ("tbox", "torder", "ttimes"):
                out.append({"kind": kind, "d": d, "conf": conf,
                            "tier": tier})
    return out


# ---- rules -----------------------------------------------------------------

PARAMS = [(4, 1), (7, 0.5)]


def rule_fit(cls, C, p, X, y, rows, info):
    """Fits and returns what the values of the data determine."""
    from col_gen_estimator import _bdr_classifier as bd
    clf = getattr(bd, CLS[cls])(C=C, p=p)
    clf.fit(X, y)
    mp = clf.master_problem
    expl = [[int(j) for j in c] for c in mp.explanation]
    if not clf.mp_optimal_:
        raise Violation("optimality not declared", **info)
    return clf, {"lp": mp.solver_.Objective().Value(),
                 "iterations": clf.iter_,
                 "rule": expl}


def same(got, want, info, fields):
    for f in fields:
        a, b = got[f], want[f]
        if (close(a, b, 1e-6) if isinstance(a, float) else a == b):
            continue
        raise Violation("%s differs" % f, got=a, want=b, **info)


def run_rule(sc, ctx):
    X, y = data(sc["tier"])[sc["d"]]
    cls = sc["cls"]
    rows = X if len(X[0]) > 4 else refs.binary_rows(len(X[0]))
    big = len(X) * len(X[0]) > 100
    for C, p in PARAMS[:1] if big else PARAMS:
        base = dict(data=sc["d"], X=X[:20], y=y[:20], C=C, p=p, cls=CLS[cls])
        clf0, want = rule_fit(cls, C, p, np.array(X, dtype=float),
                              np.array(y), rows, base)
        want["cost"] = refs.rule_cost(X, y, p, want["rule"])

        def ask(clf, res, box, info):
            pr = [int(v) for v in clf.predict(BOX[box](rows))]
            exp = [int(any(refs.sat_clause(r, c) for c in res["rule"]))
                   for r in rows]
            if pr != exp:
                raise Violation("predictions are not those of the rule",
                                got=pr, want=exp, predict_with=box,
                                rule=res["rule"], **info)
            ctx.eval()
        if sc["kind"] == "box":
            for b in boxes(X):
                ask(clf0, want, b, base)
            todo = [(b, "int64") for b in boxes(X)] + [
                ("int64", b) for b in YBOX] + [
                ("uint8", "uint8"), ("int8", "int8"), ("frame", "series"),
                ("list", "list"), ("strided", "strided")]
            for k, (b, yb) in enumerate(todo):
                info = dict(base, matrix=b, labels=yb)
                clf, res = rule_fit(cls, C, p, BOX[b](X), YBOX[yb](y), rows,
                                    info)
                res["cost"] = refs.rule_cost(X, y, p, res["rule"])
                same(res, want, info, ("lp", "cost"))
                bs = boxes(rows)
                for o in {b, "float64", bs[k % len(bs)]}:
                    ask(clf, res, o, info)
                ctx.case(sc["d"], C, p, cls, b, yb)
            ctx.outcome("representations, %d iterations" % min(
                9, want["iterations"]))
        elif sc["kind"] == "order":
            n, m = len(X), len(X[0])
            if n <= 5:
                ro = list(itertools.permutations(range(n)))
            else:
                ro = shuffles(n, 8)
            fo = list(itertools.permutations(range(m))) if m <= 3 else \
                shuffles(m, 6)
            for r, f in [(r, fo[0]) for r in ro] + [(ro[0], f) for f in fo] + [
                    (ro[-1], fo[-1])]:
                PX = [[X[i][j] for j in f] for i in r]
                py = [y[i] for i in r]
                info = dict(base, row_order=r[:20], feature_order=f)
                clf, res = rule_fit(cls, C, p, np.array(PX), np.array(py),
                                    rows, info)
                same(res, want, info, ("lp",))
                ctx.eval()
                ctx.case(sc["d"], C, p, cls, r, f)
            ctx.outcome("orders, value %.2f" % want["lp"])
        else:
            for k in (1, 2, 3, 130):
                if len(X) * k > 700:
                    continue
                for inter in (False, True):
                    PX = X * k if inter else [r for r in X for _ in range(k)]
                    py = y * k if inter else [v for v in y for _ in range(k)]
                    info = dict(base, repeated=k, interleaved=inter)
                    clf, res = rule_fit(cls, C, p, np.array(PX),
                                        np.array(py), rows, info)
                    if not close(res["lp"], k * want["lp"], 1e-6 * k):
                        raise Violation("LP value of repeated rows",
                                        got=res["lp"], want=k * want["lp"],
                                        **info)
                    ctx.eval()
                    ctx.case(sc["d"], C, p, cls, "times", k, inter)
            ctx.outcome("repeated, value %.2f" % want["lp"])
    ctx.sample({"scenario": sc, "lp": want["lp"]})


def shuffles(n, k):
    g = refs.lcg(n + 5)
    out = [tuple(range(n)), tuple(range(n))[::-1]]
    while len(out) < k:
        p = list(range(n))
        for i in range(n - 1, 0, -1):
            j = next(g) % (i + 1)
            p[i], p[j] = p[j], p[i]
        out.append(tuple(p))
    return out


# ---- trees -----------------------------------------------------------------

def tree_fit(s, conf, box, ybox, info):
    import col_gen_estimator as c
    old, beta, gen = c18.CONF[conf]
    p = tree.prob(s)
    o = tree.objects(p)
    # the same initial tree whatever the order of the candidates
    asg = [min(c) for c in p.cands]
    init = p.tree_paths(asg)
    clf = c.DTreeClassifier(
        [tree.mkpath(q, id=i) for i, q in enumerate(init)], o.leaves, o.nodes,
        o.splits, tree_depth=p.depth, targets=list(range(p.nt)),
        use_old_sp=old, master_beta_constraints_as_cuts=beta,
        master_generate_cuts=gen, num_master_cuts_round=3)
    with env.scripted_random(c18.policy(2)):
        clf.fit(BOX[box](p.X), YBOX[ybox](p.y))
    mp = clf.master_problem
    got = [tree.unpath(q) for q in mp.selected_paths]
    if not clf.mp_optimal_ or clf.time_limit_reached_:
        raise Violation("optimality not declared", **info)
    bad = tree.valid_tree(p, got)
    if bad:
        raise Violation("final tree", problems=bad, **info)
    return p, clf, {"lp": mp.rmp_objective_,
                    "cost": float(sum(q[3] for q in got))}


def run_tree(sc, ctx):
    s = trees(sc["tier"])[sc["d"]]
    conf = sc["conf"]
    base = dict(problem=s if len(s["X"]) < 30 else s["t"],
                conf=dict(zip(("old_pricer", "rows_as_cuts",
                               "generated_cuts"), c18.CONF[conf])))
    p, clf0, want = tree_fit(s, conf, "float64", "int64", base)
    rows = s["X"]

    def ask(clf, box, info):
        pr = [int(v) for v in clf.predict(BOX[box](rows))]
        hit = sum(a == b for a, b in zip(pr, s["y"]))
        if hit != want["cost"]:
            raise Violation("training predictions and objective disagree",
                            correct=hit, objective=want["cost"],
                            predict_with=box, **info)
        first = [int(v) for v in clf.predict(np.array(rows, dtype=float))]
        if pr != first:
            raise Violation("predictions differ", got=pr, want=first,
                            predict_with=box, **info)
        ctx.eval()
    away = [[v + d if i == j else v for i, v in enumerate(r)]
            for r in s["X"][:8] for j in range(len(r))
            for d in (0.25, -0.25, 0.75, 1000, -1000)]

    def others(clf, info):
        """Rows with values the training matrix cannot hold."""
        sel = [tree.unpath(q) for q in clf.master_problem.selected_paths]
        for box in ("float64", "float32", "list", "frame"):
            pr = [int(v) for v in clf.predict(BOX[box](away))]
            exp = [[q[2] for q in sel if p.follows(r, q[0], dict(q[1]))][0]
                   for r in away]
            ctx.eval()
            if pr != exp:
                raise Violation("prediction of other rows is not the tree's",
                                rows=away, got=pr, want=exp,
                                predict_with=box, **info)
    if sc["kind"] == "tbox":
        for b in boxes(rows):
            ask(clf0, b, base)
        todo = [(b, "int64") for b in boxes(rows)] + [
            ("int64", b) for b in YBOX if b != "strided" or max(s["y"]) < 2]
        if len(s["X"]) > 30:
            todo = [("int8", "int8"), ("uint8", "uint8"), ("list", "list"),
                    ("frame", "series")]
        for b, yb in todo:
            info = dict(base, matrix=b, labels=yb)
            _, clf, res = tree_fit(s, conf, b, yb, info)
            same(res, want, info, ("lp", "cost"))
            for o in {b, "float64"}:
                ask(clf, o, info)
            others(clf, info)
            ctx.case(sc["d"], conf, b, yb)
        ctx.outcome("tree representations, cost %g" % want["cost"])
    elif sc["kind"] == "torder":
        n = len(s["X"])
        ro = list(itertools.permutations(range(n))) if n <= 4 else \
            shuffles(n, 20 if n < 30 else 4)
        co = list(itertools.permutations(s["cands"][0]))
        for r, c in [(r, co[0]) for r in ro] + [(ro[0], c) for c in co] + [
                (ro[-1], co[-1])]:
            t = dict(s, X=[s["X"][i] for i in r], y=[s["y"][i] for i in r],
                     cands=[list(c)] + [list(reversed(v)) if c != co[0] else v
                                        for v in s["cands"][1:]])
            info = dict(base, row_order=r[:20], root_candidates=c)
            q, clf, res = tree_fit(t, conf, "float64", "int64", info)
            if conf % 3 == 0:
                if not close(res["lp"], want["lp"], 1e-3):
                    raise Violation("LP value differs", got=res["lp"],
                                    want=want["lp"], **info)
            ctx.eval()
            ctx.case(sc["d"], conf, r, c)
        ctx.outcome("tree orders, value %.2f" % want["lp"])
    else:
        for k in (1, 2, 3, 130):
            if len(s["X"]) * k > 700:
                continue
            t = dict(s, X=s["X"] * k, y=s["y"] * k)
            info = dict(base, repeated=k)
            _, clf, res = tree_fit(t, conf, "float64", "int64", info)
            if conf % 3 == 0:
                if not close(res["lp"], k * want["lp"], 1e-3 * k):
                    raise Violation("LP value of repeated rows",
                                    got=res["lp"], want=k * want["lp"],
                                    **info)
            ctx.eval()
            ctx.case(sc["d"], conf, "times", k)
        ctx.outcome("tree repeated, value %.2f" % want["lp"])
    ctx.sample({"scenario": sc, "lp": want["lp"]})


def run(sc, ctx):
    if sc["kind"].startswith("t") and sc["kind"] != "times":
        run_tree(sc, ctx)
    else:
        run_rule(sc, ctx)
