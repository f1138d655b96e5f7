import itertools

import numpy as np

from .. import refs
from ..core import Violation

ID = "C09"
LEVEL = "exploration"
TECH = ("every monotone rule learned by the real classifiers, "
        "predicted on every row in every small batch order")
RULE = ("every rule the classifiers learn from the truth table of every "
        "monotone Boolean function of up to 4 features (with budgets that do "
        "and do not suffice, extra conflicting rows, several label alphabets), "
        "predicted on every binary row alone, in all pairs, reversed, and in "
        "batches holding every sequence of up to 6, 4, 3, 2 rows of 1, 2, 3, 4 "
        "features, the full batch, as ints, floats, booleans and lists. Non-trivial: a "
        "distinct (explanation, labels, row or batch)")
BOUNDS = {"quick": "all monotone functions of 1..3 features and of 4 features "
                   "up to renaming; budgets 1, 2, 4, 9, 24; "
                   "6 wide sets (14 rows x 12 features) and 5 whose rules have "
                   "up to 26 clauses or a clause of up to 25 features, "
                   "predicted on all 4096 rows (or all of at most two ones or zeros) and on batches of "
                   "every size 1..64, and of 70001 rows",
          "thorough": "all monotone functions of 1..4 features"}
ASSUMES = ["expected labels follow the explanation the estimator reports"]
ALPH = [(0, 1), (-1, 1), (5, 2), ("no", "yes"), ("zebra", "ant"),
        (1.0, -2.0), (False, True)]


def _win():
    return {1: windows(2, 6), 2: windows(4, 4), 3: windows(8, 3),
            4: windows(16, 2)}


def monotone(m):
    """Antichains of clauses = monotone functions of m variables."""
    cl = [frozenset(c) for k in range(m + 1)
          for c in itertools.combinations(range(m), k)]
    out = []

    def rec(i, cur):
        if i == len(cl):
            out.append([sorted(c) for c in cur])
            return
        rec(i + 1, cur)
        if all(not (c <= cl[i]) for c in cur):
            rec(i + 1, cur + [cl[i]])
    rec(0, [])
    return out


def canonical(fn, m):
    t = sorted(map(tuple, fn))
    return all(t <= sorted(tuple(sorted(pm[j] for j in c)) for c in fn)
               for pm in itertools.permutations(range(m)))


def scenarios(tier):
    out = []
    for m in (1, 2, 3, 4):
        for fn in monotone(m):
            if m == 4 and tier == "quick" and not canonical(fn, m):
                continue
            out.append({"m": m, "fn": fn})
    for k in range(6):
        out.append({"wide": k})
    for k in range(5):
        out.append({"wide": k, "long": 1})
    return out


def long_rules(k):
    """Sets whose best rules have many clauses or a long one."""
    m = 12
    if k >= 3:      # more of both than the rows of all 0s and 1s allow
        k, m = k - 3, 26
    if k == 0:      # as many clauses of one feature as features
        X = [[int(i == j) for j in range(m)] for i in range(m)] + [[0] * m]
        return X, [1] * m + [0]
    if k == 1:      # one clause of all but one feature
        X = [[1] * m] + [[int(i != j) for j in range(m)] for i in range(m)]
        return X, [1] + [0] * (m - 1) + [1]
    # clauses of two features, disjoint ones
    X, y = [], []
    for i in range(0, m, 2):
        X.append([int(j in (i, i + 1)) for j in range(m)])
        X.append([int(j == i or j in (i - 1, i - 3)) for j in range(m)])
        X.append([int(j == i + 1 or j in (i + 2, i + 4)) for j in range(m)])
        y += [1, 0, 0]
    return X, y


def sparse_rows(m):
    """All rows of at most two ones or at most two zeros."""
    out = []
    for n in (0, 1, 2):
        for c in itertools.combinations(range(m), n):
            r = [int(j in c) for j in range(m)]
            out += [r, [1 - v for v in r]]
    return out


def windows(k, n):
    """A de Bruijn sequence: every sequence of n of the k rows occurs in it as
    consecutive rows."""
    a, seq = [0] * k * n, []

    def db(t, p):
        if t > n:
            if n % p == 0:
                seq.extend(a[1:p + 1])
            return
        a[t] = a[t - p]
        db(t + 1, p)
        for j in range(a[t - p] + 1, k):
            a[t] = j
            db(t + 1, t)
    db(1, 1)
    return seq + seq[:n - 1]


WIN = _win()


def expect(expl, rows, lo, hi):
    return [hi if any(refs.sat_clause(r, c) for c in expl) else lo
            for r in rows]


def run_wide(sc, ctx, bd, exc):
    X, y = long_rules(sc["wide"]) if "long" in sc else refs.wide(k=sc["wide"])
    m = len(X[0])
    rows = refs.binary_rows(m) if m <= 12 else sparse_rows(m)
    seen = set()
    for C in (12, m + 28) if "long" in sc else (3, 12):
        for cls in ("BooleanDecisionRuleClassifier",
                    "BooleanDecisionRuleClassifierWithHeuristic"):
            for labs in (ALPH[0], ALPH[2], ALPH[4]):
                one(ctx, bd, cls, exc, m, rows, X, y, C, labs, seen,
                    wide=1 + (labs == ALPH[0] and C == 12
                              and sc["wide"] == 0))


def run(sc, ctx):
    from col_gen_estimator import _bdr_classifier as bd
    from sklearn.exceptions import NotFittedError
    if "wide" in sc:
        return run_wide(sc, ctx, bd, NotFittedError)
    m, fn = sc["m"], sc["fn"]
    rows = refs.binary_rows(m)
    y = [int(any(refs.sat_clause(r, c) for c in fn)) for r in rows]
    extra = [([0] * m, 1), ([1] * m, 0)]
    seen = set()
    for ci, C in enumerate((1, 2, 4, 9, 24)):
        for ex in (0, 1):
            Xt = rows + [e[0] for e in extra[:2 * ex]]
            yt = y + [e[1] for e in extra[:2 * ex]]
            if len(set(yt)) < 2:
                continue
            for cls in ("BooleanDecisionRuleClassifier",
                        "BooleanDecisionRuleClassifierWithHeuristic"):
                for ai, labs in enumerate(ALPH):
                    if ai and (ai + ci) % 3 and m > 2:
                        continue
                    one(ctx, bd, cls, NotFittedError, m, rows, Xt, yt, C,
                        labs, seen)
    ctx.sample({"function": fn, "m": m, "explanations": sorted(seen)[:3]})


def one(ctx, bd, cls, NotFittedError, m, rows, Xt, yt, C, labs, seen,
        wide=0):
    lo, hi = sorted(labs)
    clf = getattr(bd, cls)(C=C, p=2)
    try:
        clf.predict(np.array(rows))
        raise Violation("predicting before fitting must raise NotFittedError")
    except NotFittedError:
        pass
    y = np.array([hi if t else lo for t in yt])
    clf.fit(np.array(Xt), y)
    expl = [list(c) for c in clf.master_problem.explanation]
    seen.add(str(expl))
    want = expect(expl, rows, lo, hi)
    info = dict(explanation=expl, m=m, labels=labs, cls=cls, C=C)

    def ask(batch, exp, what):
        got = clf.predict(batch)
        ctx.eval()
        if list(got) != exp or np.asarray(got).dtype.kind != y.dtype.kind:
            raise Violation("prediction differs from the rule (%s)" % what,
                            got=list(got), want=exp,
                            dtype=str(np.asarray(got).dtype),
                            batch=np.asarray(batch), **info)
    full = np.array(rows)
    ask(full, want, "full batch")
    ask(full.astype(float), want, "floats")
    ask(full.astype(bool), want, "booleans")
    ask(full.tolist(), want, "lists")
    ask(full[::-1], want[::-1], "reversed")
    ask(np.asfortranarray(full), want, "fortran order")
    if wide:
        at = 0
        for n in range(1, 65):
            ask(full[at:at + n], want[at:at + n], "batch of %d" % n)
            at = (at + n) % (len(rows) - 64)
        idx = [(i * 1103 + 7) % len(rows) for i in range(400)]
        ask(full[idx], [want[i] for i in idx], "scattered rows")
        for i in idx[:200]:
            ask(full[i:i + 1], [want[i]], "single row")
        if wide == 2:
            idx = [(i * 1103 + 7) % len(rows) for i in range(70001)]
            ask(full[idx], [want[i] for i in idx], "70001 rows")
        ctx.case(expl, labs, m)
        ctx.outcome("wide: %d clauses, longest %d" % (
            len(expl), max([0] + [len(c) for c in expl])))
        return
    for i, r in enumerate(rows):
        ask(np.array([r]), [want[i]], "single row")
    for i, j in itertools.product(range(len(rows)), repeat=2):
        if m <= 2 or (i + j) % 5 == 0:
            ask(np.array([rows[i], rows[j]]), [want[i], want[j]], "pair")
    for seq in (WIN[m], WIN[m][::-1]):
        ask(full[seq], [want[i] for i in seq], "windows")
    ask(full, want, "repeated")
    if [list(c) for c in clf.master_problem.explanation] != expl:
        raise Violation("predicting changed the explanation", **info)
    if list(clf.classes_) != [lo, hi]:
        raise Violation("predicting changed the classes", **info)
    ctx.case(expl, labs, m)
    ctx.outcome("%d clauses" % min(4, len(expl)))
