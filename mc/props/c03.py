import itertools

import numpy as np

from .. import env, loop
from ..core import Violation
from ..refs import lcg

ID = "C03"
LEVEL = "model_checking"
TECH = ("every label vector, finalisation mode and short answer "
        "sequence driven through the real fit")
RULE = ("every label vector of the stated lengths over every label alphabet, "
        "given as list or array, with every combination of integer "
        "finalisation (off, succeeding, failing) and every short answer "
        "sequence of the components")
BOUNDS = {"quick": "every set of 2 or 3 labels out of -3..4 (as int, int8 "
                   "and float) and out of 7 strings, for every vector of 3 "
                   "samples using them all; 1..4 samples, alphabets of up to 3 labels (ints, negative "
                   "ints, int8, integral floats, strings, object strings, "
                   "booleans), up to 2 answering iterations, iteration limit "
                   "none, 1 or 2; for two samples also a time limit that "
                   "passes during each single component call; 40..300 samples "
                   "with up to 300 classes (ints, floats, strings)",
          "thorough": "1..5 samples"}
ASSUMES = []

ALPH = {
    "int01": [0, 1], "int12": [1, 2], "neg": [-1, 1], "mixed": [-5, 0, 7],
    "big": [10, 9, 100], "int8": [0, 1], "float": [2.0, -1.0, 3.0],
    "str": ["b", "a", "c"], "obj": ["yes", "no"], "bool": [True, False],
    "uint": [200, 3], "len": ["aa", "b", "B"],
}
SETS = {"int": (range(-3, 5), None), "int8": (range(-3, 5), np.int8),
        "float": ([float(i) for i in range(-3, 5)], None),
        "str": (["", "0", "-1", "10", "9", "a", "A"], None),
        "obj": (["", "0", "-1", "10", "9", "a", "A"], object)}
DT = {"int8": np.int8, "obj": object, "uint": np.uint8}


def scenarios(tier):
    out = []
    for name, al in ALPH.items():
        for n in range(1, 6 if tier == "thorough" else 5):
            for aslist in (False, True):
                if aslist and name in DT:
                    continue
                out.append({"alph": name, "n": n, "aslist": aslist})
    out.append({"bad": True})
    for kind in SETS:
        for size in (2, 3):
            out.append({"sets": kind, "size": size})
    for k in range(4):
        for n in (40, 130, 300):
            for kind in ("int", "float", "str", "obj"):
                out.append({"many": k, "n": n, "kind": kind})
    return out


def fit_logged(X, y, pick, rip, ok, mi, h, tl=-1):
    w = loop.World(pick, h, [(), ("A",)], ip_ok=ok, clock=tl > 0, jump=7.0)
    clf = loop.build(w, [1, 1], max_iterations=mi, rmp_is_ip=rip,
                     time_limit=tl)
    err = None
    if tl > 0:
        env.CLOCK.set(1000.0)
    try:
        clf.fit(X, y)
    except Exception as e:
        err = e
    finally:
        env.CLOCK.set(None)
    return clf, w, err


def timed(sc, ctx, combo, y, xs, distinct, want, X):
    """A time limit of 5 s that passes during the k-th component call."""
    for rip, ok in ((False, True), (True, True), (True, False)):
        for mi in (-1, 1, 2):
            for pol in ((), (1, 0, 1), (0, 1)):
                for at in range(-1, 9):
                    seq = iter(pol)
                    calls = itertools.count()

                    def pick(k, label):
                        if label == "jump":
                            return int(next(calls) == at)
                        return next(seq, 0)
                    clf, w, err = fit_logged(xs, y, pick, rip, ok, mi, 2, 5)
                    judge(sc, combo, distinct, want, X, rip, ok, clf, w, err)
                    ctx.step(len(w.log))
                    ctx.trace()
                    ctx.state("timed", sc["alph"], combo, rip, ok, mi, pol,
                              at)
                    ctx.outcome("timed " + (
                        "failed" if err else "limit reached"
                        if clf.time_limit_reached_ else "fitted"))


def many(sc, ctx):
    """Many samples; all different labels, or half as many, or 3, or 2 with
    one sample of the second class."""
    n, k = sc["n"], sc["many"]
    nc = [n, n // 2, 3, 2][k]
    g = lcg(n + k)
    ids = [i % nc if k < 3 else int(i == n - 2) for i in range(n)]
    for i in range(n - 1, 0, -1):
        j = next(g) % (i + 1)
        ids[i], ids[j] = ids[j], ids[i]
    lab = {"int": lambda i: 7 * i - 300, "float": lambda i: float(3 * i - 50),
           "str": lambda i: "c%d" % i, "obj": lambda i: "c%d" % (i * i)}
    names = [lab[sc["kind"]](i) for i in ids]
    y = np.array(names, dtype=object if sc["kind"] == "obj" else None)
    distinct = sorted(set(names))
    want = [distinct.index(v) for v in names]
    X = np.arange(2 * n, dtype=float).reshape(n, 2) * 0.5 - 1
    for rip, ok in ((False, True), (True, True), (True, False)):
        clf, w, err = fit_logged(X, y, lambda m, l: 0, rip, ok, -1, 1)
        judge({"alph": sc["kind"]}, "%d samples" % n, distinct, want, X, rip,
              ok, clf, w, err)
        ctx.step(len(w.log))
        ctx.trace()
        ctx.state("many", sc, rip, ok)
        ctx.outcome("failed" if err else "fitted")


def sets(sc, ctx):
    vals, dt = SETS[sc["sets"]]
    for al in itertools.combinations(vals, sc["size"]):
        distinct = sorted(al)
        X = np.arange(6, dtype=float).reshape(3, 2) * 0.5 - 1
        for combo in itertools.product(al, repeat=3):
            if len(set(combo)) != len(al):
                continue
            want = [distinct.index(v) for v in combo]
            y = np.array(combo, dtype=dt)
            clf, w, err = fit_logged(X, y, lambda m, l: 0, True, True, -1, 1)
            judge({"alph": sc["sets"]}, combo, distinct, want, X, True, True,
                  clf, w, err)
            ctx.step(len(w.log))
            ctx.trace()
            ctx.state("sets", sc["sets"], combo)
            ctx.outcome("fitted")


def run(sc, ctx):
    if "sets" in sc:
        return sets(sc, ctx)
    if sc.get("bad"):
        return run_bad(ctx)
    if "many" in sc:
        return many(sc, ctx)
    al = ALPH[sc["alph"]]
    n = sc["n"]
    X = np.arange(2 * n, dtype=float).reshape(n, 2) * 0.5 - 1
    for combo in itertools.product(al, repeat=n):
        y = list(combo) if sc["aslist"] else np.array(
            combo, dtype=DT.get(sc["alph"]))
        xs = X.tolist() if sc["aslist"] else X
        distinct = sorted(set(combo))
        if len(distinct) < 2:
            clf, w, err = fit_logged(xs, y, lambda n, l: 0, True, True, -1, 0)
            ctx.step()
            ctx.trace()
            if not isinstance(err, ValueError):
                raise Violation("a single class must be rejected with a "
                                "ValueError", y=combo, err=repr(err))
            if w.log:
                raise Violation("components were called although the data was "
                                "rejected", log=[e["kind"] for e in w.log])
            if hasattr(clf, "is_fitted_"):
                raise Violation("marked as fitted after rejection")
            ctx.outcome("rejected")
            ctx.state(sc["alph"], combo)
            continue
        want = [distinct.index(v) for v in combo]
        if n == 2:
            timed(sc, ctx, combo, y, xs, distinct, want, X)
        for rip, ok in ((False, True), (True, True), (True, False)):
            for mi, h in ((-1, 0), (-1, 2), (1, 2)):
                # two answer policies: default, and progress first
                for pol in ((0, 0, 0, 0, 0), (1, 0, 1, 0, 0), (0, 1, 0, 0, 0)):
                    if h == 0 and any(pol):
                        continue
                    seq = iter(pol)

                    def pick(k, label):
                        return next(seq, 0)
                    clf, w, err = fit_logged(xs, y, pick, rip, ok, mi, h)
                    judge(sc, combo, distinct, want, X, rip, ok, clf, w, err)
                    ctx.step(len(w.log))
                    ctx.trace()
                    ctx.state(sc["alph"], combo, rip, ok, mi, h, pol)
                    ctx.outcome("failed" if err else "fitted")
        ctx.sample({"y": combo, "encoded": want})


def judge(sc, combo, distinct, want, X, rip, ok, clf, w, err):
    info = dict(y=combo, rmp_is_ip=rip, ip_ok=ok, alphabet=sc["alph"])
    for e in w.log:
        if "X" in e:
            if e["X"].tolist() != X.tolist():
                raise Violation("another data matrix was passed", **info)
            if e["y"].tolist() != want:
                raise Violation("labels are not encoded by rank",
                                got=e["y"], want=want, call=e["kind"], **info)
    kinds = [e["kind"] for e in w.log]
    if kinds.count("generate_mp") != 1:
        raise Violation("master set up %d times" % kinds.count("generate_mp"),
                        **info)
    if kinds.count("solve_ip") != (1 if rip else 0):
        raise Violation("integer master solved %d times" %
                        kinds.count("solve_ip"), **info)
    if rip:
        if kinds[-1] != "solve_ip":
            raise Violation("the integer solve is not the last step", **info)
        if w.log[-1]["params"] != "ip-params":
            raise Violation("integer solve parameters", **info)
    if rip and not ok:
        if err is None:
            raise Violation("a failed integer solve must raise", **info)
        if hasattr(clf, "is_fitted_"):
            raise Violation("marked as fitted after a failed integer solve",
                            **info)
        return
    if err is not None:
        raise Violation("fit raised %r" % (err,), **info)
    if not getattr(clf, "is_fitted_", False):
        raise Violation("not marked as fitted", **info)
    if list(clf.classes_) != distinct:
        raise Violation("classes_", got=list(clf.classes_), want=distinct,
                        **info)


def run_bad(ctx):
    for n in (1, 2, 7, 40, 300, 2000):
        for v in (0, 1, -1, "a", 2.0, True):
            clf, w, err = fit_logged(np.ones((n, 2)), np.array([v] * n),
                                     lambda n, l: 0, True, True, -1, 0)
            ctx.step()
            ctx.trace()
            ctx.state("single", n, v)
            if not isinstance(err, ValueError) or w.log or \
                    hasattr(clf, "is_fitted_"):
                raise Violation("a single class must be rejected", n=n,
                                label=v, err=repr(err))
            ctx.outcome("rejected")
    for nx, ny in ((2, 3), (3, 2), (4, 1), (1, 2)):
        X = np.zeros((nx, 2))
        y = np.array([0, 1, 1][:ny])
        clf, w, err = fit_logged(X, y, lambda n, l: 0, True, True, -1, 0)
        ctx.step()
        ctx.trace()
        ctx.state("bad", nx, ny)
        if not isinstance(err, ValueError) or w.log:
            raise Violation("mismatched lengths must be rejected before any "
                            "component is asked", nx=nx, ny=ny, err=repr(err),
                            log=[e["kind"] for e in w.log])
        ctx.outcome("rejected")
