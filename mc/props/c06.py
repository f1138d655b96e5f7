import itertools

import numpy as np

from .. import refs
from ..core import Violation

ID = "C06"
LEVEL = "model_checking"
TECH = ("all sequences of dual vectors of an alphabet on one real "
        "exact pricer; each answer against the minimum over all "
        "clauses")
RULE = ("for every data set and length bound of the bounds, every sequence of "
        "dual vectors from the alphabet presented to one pricer object; each "
        "answer is compared with the minimum over all clauses")
BOUNDS = {"quick": "2..3 rows x 2 features (all), 3 rows x 3 features (up to "
                   "renaming), length bound 1..3, complexity dual in "
                   "{0,0.5,1}, sample duals in {0,0.5,1,2}, sequences of 2 "
                   "vectors (3 with a return to the first); 6 wide sets (14 "
                   "rows x 12 features), length bound 1..3, and 3 whose best "
                   "clauses have 8..11 features, bounds m-3..m+1, one pricer "
                   "asked for 50 vectors of scales 0.001 .. 123456, and ones "
                   "under which the best clause is within 0.00005 of not "
                   "improving; 3 sets of 70..160 rows over 20..33 features",
          "thorough": "as quick with 4 rows x 2 features and all pairs of "
                      "vectors for 3 features"}
ASSUMES = []
CC = (0, 0.5, 1)
MU = (0, 0.5, 1, 2)


def scenarios(tier):
    th = tier == "thorough"
    out = []
    for n in ((2, 3, 4) if th else (2, 3)):
        for X, y in refs.multisets(2, n, sym=n > 2):
            for D in (1, 2):
                out.append({"X": X, "y": y, "D": D, "pairs": n < 3 or th})
    for X, y in refs.multisets(3, 3, sym=True):
        for D in (1, 2, 3):
            out.append({"X": X, "y": y, "D": D, "pairs": False})
    for X, y in EXTRA:
        for D in (1, 2, 3, 10):
            out.append({"X": X, "y": y, "D": D, "pairs": False, "extra": 1})
    for k in range(12 if th else 6):
        for D in (1, 2, 3):
            X, y = refs.wide(k=k)
            out.append({"X": X, "y": y, "D": D, "pairs": False, "wide": k})
    for k, m in enumerate((9, 10, 12)):
        for D in range(m - 3, m + 2):
            X, y = refs.near_full(m, k)
            out.append({"X": X, "y": y, "D": D, "pairs": False, "wide": k,
                        "long": 1})
    for k in range(6 if th else 3):
        X, y = refs.tall((24, 20, 33)[k % 3], (100, 160, 70)[k % 3], k)
        for D in (1, 2):
            out.append({"X": X, "y": y, "D": D, "pairs": False, "wide": k,
                        "tall": 1})
    return out


EXTRA = [
    ([[1, 1, 0], [0, 1, 1], [1, 0, 1], [1, 1, 1], [0, 0, 0]], [0, 1, 0, 1, 1]),
    ([[0, 1, 1], [1, 1, 1], [1, 0, 0], [1, 1, 0]], [1, 0, 1, 0]),
]


def ask(sp, aX, ay, X, y, D, cc, cs, cands, ctx, hist):
    got = sp.generate_columns(aX, ay, (cc, list(cs)), "")
    ctx.step()
    costs = [(refs.clause_redcost(X, y, cc, cs, c), c) for c in cands]
    best = min(costs)[0]
    info = dict(X=X, y=y, D=D, cc=cc, cs=cs, got=got, best=best, history=hist)
    if best >= -1e-6:
        if list(got) != []:
            raise Violation("a clause was returned although none improves",
                            **info)
        return "none"
    if len(got) != 1:
        raise Violation("exactly one clause expected", **info)
    c = list(got[0])
    if c not in cands:
        raise Violation("not a clause within the length bound", **info)
    rc = refs.clause_redcost(X, y, cc, cs, c)
    if rc > best + 1e-6:
        raise Violation("returned clause is not the best", cost=rc, **info)
    return "clause of length %d" % len(c)


def run(sc, ctx):
    from col_gen_estimator import _bdr_classifier as bd
    X, y, D = sc["X"], sc["y"], sc["D"]
    aX, ay = np.array(X), np.array(y)
    P = sum(y)
    mu = MU if P <= 2 else (0, 1, 2)
    if "wide" in sc:
        g = refs.lcg(100 + sc["wide"])
        vecs = [((0, 0.25, 0.5, 1)[i % 4],
                 tuple((0, 0.3, 1, 2.5)[next(g) % 4] for _ in range(P)))
                for i in range(20)]
        # the same at other scales
        for i, f in enumerate((0.001, 0.0101, 40, 1000, 123456)):
            for cc in (0, 0.25 * min(f, 1), f):
                vecs.append((cc, tuple(
                    (0, 0.3, 1, 2.5)[next(g) % 4] * f for _ in range(P))))
                vecs.append((cc, tuple([0.25] * (P - 1) + [f])))
    else:
        vecs = [(cc, cs) for cc in CC
                for cs in itertools.product(mu, repeat=P)]
    cands = refs.all_clauses(len(X[0]), D)
    if "wide" in sc:
        if "tall" in sc:
            vecs = vecs[::2]
        seqs = [vecs]
        # best clauses that hardly improve, or hardly do not
        near = []
        for cc, cs in vecs[:20:3] + vecs[20::4]:
            best, c = min((refs.clause_redcost(X, y, cc, cs, c), c)
                          for c in cands)
            i = next((i for i, r in enumerate(
                [r for r, t in zip(X, y) if t]) if refs.sat_clause(r, c)), None)
            if i is None:
                continue
            big = max(cs) > 30
            for by in (0.5, 0.1, -0.5) if big else (5e-5, 2e-3, -5e-5):
                b = list(cs)
                b[i] = b[i] + best + by
                if b[i] >= 0:
                    near.append((cc, tuple(b)))
        seqs.append(near)
    elif sc["pairs"]:
        seqs = [(a, b) for a in vecs for b in vecs]
    else:
        # every vector first once, then each followed by a spread of others,
        # and one return to the first vector
        seqs = [(a, vecs[(7 * i + 3) % len(vecs)], a)
                for i, a in enumerate(vecs)]
        seqs.append(tuple(vecs))
        seqs.append(tuple(reversed(vecs)))
    for seq in seqs:
        sp = bd.BDRSubProblem(D, "cbc")
        hist = []
        for cc, cs in seq:
            o = ask(sp, aX, ay, X, y, D, cc, cs, cands, ctx, list(hist))
            ctx.outcome(o)
            hist.append((cc, cs))
        ctx.trace()
        ctx.state(X, y, D, seq)
    ctx.sample({"X": X, "y": y, "D": D, "duals": seq[0]})
