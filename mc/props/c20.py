import itertools

import numpy as np

from .. import refs, tree
from ..core import Violation
from ..refs import close

ID = "C20"
LEVEL = "model_checking"
TECH = "all histories up to a depth of fitting, parameter changes, cloning, " \
       "predicting and failing fits over one and two estimators, each fit " \
       "compared with a fresh estimator"
RULE = ("every history of operations of the bounds; after every successful fit "
        "the explanation, predictions, flags, counts and parameters are "
        "compared with those of an estimator constructed with the same "
        "parameters and fitted once; tree classifiers are re-fitted and "
        "fitted one after the other on shared problem objects, compared with "
        "separate objects")
BOUNDS = {"quick": "rule classifiers: 3 data sets of different shape and "
                   "labels, 7 parameter changes, clone, predict, rejected fit, fits "
                   "on more than two classes; "
                   "histories of 3 operations on one estimator (4 when only "
                   "fits and changes), of 4 over two estimators; trees: 8 "
                   "problems, 6 configurations in every order of two, re-fits; "
                   "24 fixed histories of 40 operations that also use two "
                   "sets of 14 rows x 8 features; 3 wide tree problems",
          "thorough": "one more operation"}
ASSUMES = ["CBC and GLOP answers are deterministic (SAT's choice among equally good integer solutions is not, and is not compared)"]
HANG_S = 300

CUBE = [[a, b, c] for a in (0, 1) for b in (0, 1) for c in (0, 1)]
DATA = [
    (CUBE + [[1, 1, 0], [0, 0, 1], [1, 0, 0]],
     [int(a and b or c) for a, b, c in CUBE] + [1, 0, 1]),
    ([[0, 0, 1], [1, 1, 1], [0, 1, 0], [1, 0, 0], [1, 1, 0]],
     ["b", "a", "b", "a", "b"]),
    ([[1, 1], [0, 1], [1, 0], [0, 0], [1, 1], [0, 1]],
     [-1, 7, -1, -1, 7, 7]),
]
NSMALL = len(DATA)
for _k in range(2):
    _X, _y = refs.wide(8, 14, _k)
    DATA.append((_X, ["no" if v else "yes" for v in _y] if _k else _y))
# more than two classes: what comes of such a fit is not asked, but it must
# leave nothing behind
MANY = [([[1, 0, 1], [0, 1, 1], [1, 1, 0], [0, 0, 1], [1, 0, 0]],
         [0, -1, -5, 1, 7]),
        ([[1, 0, 1], [0, 1, 1], [1, 1, 0]], ["b", "A", "a"])]
BAD = ([[1, 0, 1], [0, 1, 1]], [1, 1])
SETS = [{"C": 2}, {"C": 4}, {"p": 2.5}, {"p": 0.25}, {"max_iterations": 1},
        {"max_iterations": -1, "C": 6}, {"rmp_solver": "clp"}]
OPS = [["fit", 0], ["fit", 1], ["fit", 2]] + [
    ["set", i] for i in range(len(SETS))] + [["clone"], ["predict"], ["bad"], ["many", 0], ["many", 1]]
CLS = ["BooleanDecisionRuleClassifier",
       "BooleanDecisionRuleClassifierWithHeuristic"]
BASE = {"C": 5, "p": 1}


def scenarios(tier):
    more = tier == "thorough"
    out = []
    for cls in range(2):
        for a in range(len(OPS)):
            for b in range(len(OPS)):
                out.append({"kind": "one", "cls": cls, "pre": [a, b],
                            "more": 2 if more else 1})
        for a in range(3):
            for b in range(len(SETS)):
                out.append({"kind": "one", "cls": cls, "pre": [a, 3 + b],
                            "more": 3 if more else 2, "few": True})
    for a in range(2):
        for b in range(2):
            for first in range(6):
                out.append({"kind": "two", "cls": [a, b], "first": first,
                            "len": 5 if more else 4})
        for k in range(12):
            out.append({"kind": "long", "cls": a, "k": k})
    n = len(trees()) - 3
    for i in range(n, n + 3):
        for c1, c2 in ((1, 4), (5, 0), (3, 2)):
            out.append({"kind": "tree", "p": i, "conf": c1, "only": c2})
    for i in range(n):
        for c1 in range(6):
            out.append({"kind": "tree", "p": i, "conf": c1})
    return out


def run(sc, ctx):
    if sc["kind"] == "one":
        tail = [x for x in range(len(OPS)) if not sc.get("few")
                or OPS[x][0] in ("fit", "set", "many")]
        for rest in itertools.product(tail, repeat=sc["more"]):
            seq = [OPS[i] for i in list(sc["pre"]) + list(rest)]
            # a history that ends without a fit shows nothing new
            if seq[-1][0] != "fit":
                continue
            Est(sc["cls"]).play(seq, ctx)
            ctx.trace()
        ctx.sample({"history": seq, "class": CLS[sc["cls"]]})
    elif sc["kind"] == "long":
        g = refs.lcg(300 + sc["k"])
        ops = OPS + [["fit", NSMALL], ["fit", NSMALL + 1]] * 2
        seq = []
        while len(seq) < 40:
            o = ops[next(g) % len(ops)]
            seq.append(o)
            if o[0] == "set" and sc["k"] % 2:
                seq.append(["fit", next(g) % len(DATA)])
        Est(sc["cls"]).play(seq, ctx)
        ctx.trace()
        ctx.outcome("long history")
    elif sc["kind"] == "two":
        two = [["fit", 0], ["fit", 1], ["set", 0], ["set", 2], ["predict"],
               ["clone"]]
        for rest in itertools.product(range(2 * len(two)),
                                      repeat=sc["len"] - 1):
            if rest[-1] % len(two) > 1:
                continue
            if len({i // len(two) for i in rest}) < 2:
                continue
            ests = [Est(sc["cls"][0]), Est(sc["cls"][1])]
            ests[0].op(two[sc["first"]], ctx)
            h = [[0, two[sc["first"]]]]
            for i in rest:
                e = i // len(two)
                h.append([e, two[i % len(two)]])
                ests[e].hist = h
                ests[e].op(two[i % len(two)], ctx)
                ctx.step()
            for e in ests:
                e.hist = h
                e.check_last(ctx)
            ctx.trace()
        ctx.sample({"history": h})
    else:
        run_tree(sc, ctx)


_FRESH = {}


def probe(clf, m):
    rows = np.array(refs.binary_rows(m))
    return [str(v) for v in clf.predict(rows)]


def outcome(clf, d, m, used):
    """Everything the last fit determines: not which of several equally good
    rules was taken, which the integer solver's threads decide."""
    X, y = DATA[d]
    expl = [list(map(int, c)) for c in clf.master_problem.explanation]
    rows = refs.binary_rows(m)
    labels = sorted(set(y))
    want = [str(labels[int(any(refs.sat_clause(r, c) for c in expl))])
            for r in rows]
    if probe(clf, m) != want:
        raise Violation("predictions are not those of the rule in force",
                        got=probe(clf, m), want=want, explanation=expl)
    cost = refs.rule_cost(X, [labels.index(v) for v in y],
                          used["p"], expl)
    return {"cost": round(cost, 6),
            "within": None if not expl else m >= max(
                [0] + [j + 1 for c in expl for j in c]),
            "complexity": refs.complexity(expl) <= used["C"],
            "optimal": bool(clf.mp_optimal_),
            "time_limit": bool(clf.time_limit_reached_),
            "iterations": int(clf.iter_),
            "improving": int(clf.num_improving_iter_),
            "columns": [[int(v) for v in r] for r in clf.num_col_added_sp_],
            "master solver": clf.master_problem.solver_.SolverVersion(),
            "classes": [str(c) for c in clf.classes_]}


def make(cls, params):
    from col_gen_estimator import _bdr_classifier as bd
    return getattr(bd, CLS[cls])(**params)


def fresh(cls, params, d):
    key = (cls, tuple(sorted(params.items())), d)
    if key not in _FRESH:
        clf = make(cls, params)
        X, y = DATA[d]
        clf.fit(np.array(X), np.array(y))
        _FRESH[key] = outcome(clf, d, len(X[0]), params)
    return _FRESH[key]


class Est:
    def __init__(self, cls):
        self.cls = cls
        self.params = dict(BASE)
        self.clf = make(cls, self.params)
        self.fitted = None
        self.want = None
        self.hist = []

    def play(self, seq, ctx):
        for i, op in enumerate(seq):
            self.hist = seq[:i + 1]
            self.op(op, ctx)
            ctx.step()
        ctx.state(self.cls, self.params, self.fitted, seq[-2:])

    def fail(self, msg, **d):
        raise Violation(msg, cls=CLS[self.cls], history=self.hist,
                        params=self.params, **d)

    def op(self, op, ctx):
        from sklearn.base import clone
        from sklearn.exceptions import NotFittedError
        if op[0] == "fit":
            X, y = DATA[op[1]]
            r = self.clf.fit(np.array(X), np.array(y))
            if r is not self.clf:
                self.fail("fit does not return the estimator")
            self.fitted = op[1]
            self.used = dict(self.params)
            self.want = fresh(self.cls, self.params, op[1])
            self.check_last(ctx)
        elif op[0] == "set":
            self.clf.set_params(**SETS[op[1]])
            self.params.update(SETS[op[1]])
        elif op[0] == "clone":
            new = clone(self.clf)
            try:
                new.predict(np.array([[1, 0, 1]]))
                self.fail("a clone is already fitted")
            except NotFittedError:
                pass
            self.clf, self.fitted, self.want = new, None, None
        elif op[0] == "predict":
            if self.fitted is None:
                try:
                    self.clf.predict(np.array([[1, 0, 1]]))
                    self.fail("predicting before fitting must raise")
                except NotFittedError:
                    pass
            else:
                self.check_last(ctx)
        elif op[0] == "bad":
            try:
                self.clf.fit(np.array(BAD[0]), np.array(BAD[1]))
                self.fail("a single class must be rejected")
            except ValueError:
                pass
            self.fitted = None if self.fitted is None else -1
            self.want = None
            return
        elif op[0] == "many":
            X, y = MANY[op[1]]
            try:
                self.clf.fit(np.array(X), np.array(y))
            except Exception:
                pass
            self.fitted, self.want = -1, None
            return
        got = self.clf.get_params()
        for k, v in self.params.items():
            if got[k] != v:
                self.fail("get_params", parameter=k, got=got[k])

    def check_last(self, ctx):
        if self.want is None or self.fitted in (None, -1):
            return
        got = outcome(self.clf, self.fitted, len(DATA[self.fitted][0][0]),
                      self.used)
        if got != self.want:
            self.fail("differs from a fresh estimator",
                      fields=[k for k in got if got[k] != self.want[k]],
                      got=got, want=self.want, data=self.fitted)
        ctx.outcome("cost %g" % got["cost"])


# ---- trees -----------------------------------------------------------------

def trees():
    out = list(tree.GAPS) + list(tree.MULTI)
    out.append(tree.spec("bin2", 2, [[0, 1], [1, 0], [1, 1], [0, 0]],
                         [0, 1, 0, 1], [[0, 1]] * 3))
    out.append(tree.spec("num1", 2, [[0], [1], [2], [1]], [1, 0, 1, 1],
                         [[0, 1]] * 3))
    out += [tree.wide(0, 2), tree.wide(1, 2), tree.wide(2, 2, n=24)]
    return out


CONF = [(beta, gen, rows) for beta, gen in (
    (False, False), (True, False), (True, True)) for rows in (False, True)]


def classifier(p, o, init, rows, conf, mi=-1):
    import col_gen_estimator as c
    beta, gen, use = CONF[conf]
    return c.DTreeClassifier(
        init, o.leaves, o.nodes, o.splits, tree_depth=p.depth,
        targets=list(range(p.nt)), data_rows=rows if use else None,
        master_beta_constraints_as_cuts=beta, master_generate_cuts=gen,
        num_master_cuts_round=10, max_iterations=mi)


def objects(p, asg):
    from examples import dtree_experiment as ex
    o = tree.objects(p)
    init = [tree.mkpath(q, id=i) for i, q in enumerate(p.tree_paths(asg))]
    rows = ex.preprocess(o.nodes, o.splits, np.array(p.X, dtype=float),
                         np.array(p.y), p.depth, aggressive=False)
    return o, init, rows


def verdict(p, clf, X):
    """What a fit run to optimality determines, whatever the search did."""
    sel = [tree.unpath(q) for q in clf.master_problem.selected_paths]
    tot = sum(q[3] for q in sel)
    hit = sum(int(a) == b for a, b in zip(clf.predict(X), p.y))
    return sel, tot, hit


def run_tree(sc, ctx):
    import random
    p = tree.prob(trees()[sc["p"]])
    X, y = np.array(p.X, dtype=float), np.array(p.y)
    ts = list(p.trees())
    for other in [sc["only"]] if "only" in sc else range(6):
        for a in (0, len(ts) - 1):
            asg = ts[a]
            info = dict(problem=[p.X, p.y, p.splits, p.cands],
                        configurations=[CONF[sc["conf"]], CONF[other]])
            # separate objects
            o, init, rows = objects(p, asg)
            random.seed(7)
            alone = classifier(p, o, init, rows, other)
            alone.fit(X, y)
            want = verdict(p, alone, X)
            # the same objects after another classifier used them
            o, init, rows = objects(p, asg)
            random.seed(3)
            first = classifier(p, o, init, rows, sc["conf"])
            first.fit(X, y)
            before = verdict(p, first, X)
            random.seed(7)
            second = classifier(p, o, init, rows, other)
            second.fit(X, y)
            got = verdict(p, second, X)
            ctx.step(3)
            for v, who in ((want, "alone"), (before, "first"),
                           (got, "second")):
                bad = tree.valid_tree(p, v[0])
                if bad or v[1] != v[2]:
                    raise Violation("tree of the %s classifier" % who,
                                    problems=bad, cost=v[1], correct=v[2],
                                    **info)
            la, ls = (alone.master_problem.rmp_objective_,
                      second.master_problem.rmp_objective_)
            if not second.mp_optimal_ or not close(la, ls, 1e-3):
                raise Violation("a second classifier on the same problem "
                                "objects reaches another LP value", got=ls,
                                want=la, optimal=second.mp_optimal_, **info)
            if got != want:
                raise Violation("a second classifier on the same problem "
                                "objects learns another tree", got=got,
                                want=want, **info)
            again = verdict(p, first, X)
            if again != before:
                raise Violation("the first classifier changed when a second "
                                "one was fitted", got=again, want=before,
                                **info)
            # a third and a fourth that stop early, on the used objects
            for mi in (1, 2):
                res = []
                for used in (True, False):
                    o1, i1, r1 = (o, init, rows) if used else objects(p, asg)
                    random.seed(11)
                    clf = classifier(p, o1, i1, r1, other, mi)
                    clf.fit(X, y)
                    res.append([verdict(p, clf, X), clf.performed_iter_,
                                clf.num_col_added_sp_, clf.mp_optimal_])
                    ctx.step()
                if res[0] != res[1]:
                    raise Violation("a classifier stopping early on used "
                                    "problem objects differs from one on "
                                    "fresh objects", limit=mi, got=res[0],
                                    want=res[1], **info)
            # re-fit on the same data, also after the other one used it
            for clf, old, who in ((alone, want, "alone"),
                                  (first, before, "first")):
                clf.fit(X, y)
                re = verdict(p, clf, X)
                if tree.valid_tree(p, re[0]) or re[1] != old[1] or \
                        re[2] != old[2]:
                    raise Violation("re-fitting on the same data changes the "
                                    "cost of the tree", got=re, want=old,
                                    who=who, **info)
                ctx.step()
            ctx.trace()
            ctx.state(sc["p"], sc["conf"], other, a)
            ctx.outcome("tree, cost %d" % want[1])
