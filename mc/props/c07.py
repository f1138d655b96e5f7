import itertools

import numpy as np

from .. import refs
from ..core import Violation

ID = "C07"
LEVEL = "model_checking"
TECH = ("all sequences of dual vectors of an alphabet on one real "
        "enumeration pricer; each answer against the set of all "
        "improving clauses")
RULE = ("for every data set and length bound of the bounds, every dual vector "
        "of the alphabet, in sequences on one pricer object; the returned set "
        "is compared with the set of all improving clauses")
BOUNDS = {"quick": "2..4 rows x 2 features, 2..3 rows x 3 features, 2 rows x 4 "
                   "features (3- and 4-feature sets up to renaming), length "
                   "bound 1..3, complexity dual in {0,0.5,1}, sample duals in "
                   "{0,0.5,1,2}; 8 wide sets (14 rows x 12 features), length "
                   "bound 1..3, 58 vectors each; 3 of 90..200 rows over "
                   "24..40 features, length bound 1..2",
          "thorough": "as quick with 4 rows x 3 features"}
ASSUMES = []
CC = (0, 0.5, 1)
MU = (0, 0.5, 1, 2)


def scenarios(tier):
    th = tier == "thorough"
    out = []
    for m, n in ((2, 2), (2, 3), (2, 4), (3, 2), (3, 3), (4, 2)) + (
            ((3, 4), (4, 3)) if th else ()):
        for X, y in refs.multisets(m, n, sym=m > 2):
            out.append({"X": X, "y": y})
    for k in range(24 if th else 8):
        X, y = refs.wide(k=k)
        out.append({"X": X, "y": y, "wide": k})
    for k in range(6 if th else 3):
        X, y = refs.tall((40, 24, 30)[k % 3], (120, 200, 90)[k % 3], k)
        out.append({"X": X, "y": y, "wide": k, "tall": 1})
    return out


def run(sc, ctx):
    from col_gen_estimator import _bdr_classifier as bd
    X, y = sc["X"], sc["y"]
    m = len(X[0])
    P = sum(y)
    mu = MU if P <= 2 else (0, 1, 2)
    if "wide" in sc:
        g = refs.lcg(100 + sc["wide"])
        vecs = [((0, 0.25, 0.5, 1)[i % 4],
                 tuple((0, 0.3, 1, 2.5)[next(g) % 4] for _ in range(P)))
                for i in range(40)]
        # the same at other scales
        for i, f in enumerate((0.00001, 0.001, 0.0101, 40, 1000, 123456)):
            for cc in (0, 0.25 * min(f, 1), f):
                vecs.append((cc, tuple(
                    (0, 0.3, 1, 2.5)[next(g) % 4] * f for _ in range(P))))
    else:
        vecs = [(cc, cs) for cc in CC for cs in itertools.product(mu, repeat=P)]
    if "tall" in sc:
        vecs = vecs[:40:5] + vecs[42::6]
    for K in (1, 2, 3):
        if K > m or "tall" in sc and K == 3:
            continue
        cands = [c for c in refs.all_clauses(m, K) if c]
        sp = bd.BDRHeuristic(K)
        for dt in (int, float):
            aX, ay = np.array(X, dtype=dt), np.array(y)
            for cc, cs in vecs:
                got = sp.generate_columns(aX, ay, (cc, list(cs)), "")
                ctx.step()
                want = [c for c in cands if refs.clause_redcost(
                    X, y, cc, cs, c) < -1e-6]
                g = [list(c) for c in got]
                if sorted(g) != sorted(want):
                    raise Violation(
                        "returned clauses differ from the improving "
                        "clauses", X=X, y=y, K=K, cc=cc, cs=cs, got=g,
                        want=want)
                if not all(type(c) is list for c in got):
                    raise Violation("clauses must be lists", got=got)
                ctx.outcome("%d clauses" % min(len(want), 4))
                ctx.state(X, y, K, cc, cs)
            ctx.trace()
    ctx.sample({"X": X, "y": y, "cc": cc, "cs": cs, "K": K, "answer": g})
