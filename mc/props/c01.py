from .. import choice, loop
from ..core import Violation
import itertools

import numpy as np

ID = "C01"
LEVEL = "model_checking"
TECH = ("every sequence of answers of stub master and subproblems "
        "driven through the real fit loop; the full call log is "
        "replayed on a reference loop")
RULE = ("every execution of ColGenClassifier.fit with stub components for each "
        "shape of levels and every sequence of answers (batch of columns per "
        "pricing call, accept/refuse per column) up to the horizon; one or two "
        "fits on the same object; the full call log is compared with the "
        "reference loop")
BOUNDS = {"quick": "up to 4 subproblems on 1..3 levels, up to 3 answering "
                   "iterations, batches of up to 3 columns with every "
                   "accept/refuse pattern, up to 2 fits; up to 16 "
                   "subproblems per level and 6 levels under 60 answer "
                   "schemes of 45 answering iterations and batches of up to "
                   "130 columns, two fits",
          "thorough": "as quick with up to 4 answering iterations and all "
                      "shapes of up to 4 subproblems"}
ASSUMES = ["stub components answer from the stated alphabet"]

B1 = [(), ("A",), ("R",)]
B2 = [(), ("A",), ("R",), ("R", "A"), ("A", "R"), ("A", "A"), ("R", "R")]
BL = [(), ("A",), ("R",), ("R", "A"), ("A",) * 12, ("R",) * 70 + ("A",),
      ("A", "R") * 65]
LONG = [[1], [1, 1], [12], [1, 16], [3, 9], [1, 1, 1, 1, 1, 1], [2, 4, 8]]
B3 = B2 + [("R", "R", "A"), ("A", "R", "A"), ("R", "A", "R")]


def scenarios(tier):
    th = tier == "thorough"
    out = []
    shapes = [[1], [2], [1, 1], [3], [1, 2], [2, 1], [1, 1, 1], [2, 2],
              [1, 3], [3, 1], [1, 1, 2], [2, 1, 1], [1, 2, 1]]
    if th:
        shapes += [[4], [1, 1, 1, 1]]
    for s in shapes:
        n = sum(s)
        out.append({"shape": s, "h": 1, "b": "B3" if n <= 3 else "B2",
                    "fits": 1})
    for s in shapes:
        n = sum(s)
        if n <= 2:
            out.append({"shape": s, "h": 3 if n == 2 else 4, "b": "B2",
                        "fits": 1})
        if n <= 3:
            out.append({"shape": s, "h": 2, "b": "B2", "fits": 1})
        out.append({"shape": s, "h": 2, "b": "B1", "fits": 1})
        out.append({"shape": s, "h": 3, "b": "B1", "fits": 1})
        if n <= 3:
            out.append({"shape": s, "h": 1, "b": "B1", "fits": 2})
        if th and n <= 3:
            out.append({"shape": s, "h": 4 if n <= 2 else 3,
                        "b": "B2", "fits": 1})
            out.append({"shape": s, "h": 5, "b": "B1", "fits": 1})
    for s in LONG:
        for k in range(60):
            out.append({"shape": s, "h": 45, "b": "BL", "fits": 2, "long": k})
    return out


X = np.array([[0.0, 1.0], [1.0, 0.0], [2.0, 2.0]])
Y = np.array(["b", "a", "b"])
PY = [1, 0, 1]


def verify(world, shape, ctx, clf):
    pre, its = loop.split_iterations(world.log)
    ctx.step(len(world.log))
    if [e["kind"] for e in pre] != ["generate_mp"]:
        raise Violation("before the first iteration the master must be set up "
                        "exactly once", got=[e["kind"] for e in pre])
    for e in world.log:
        if "X" in e and (e["X"].tolist() != X.tolist()
                         or e["y"].tolist() != PY):
            raise Violation("component received other data", kind=e["kind"],
                            y=e["y"])
    rounds, end = loop.expected(world, shape, -1, -1, 0.0)
    got = []
    accepted = [[0] * w for w in shape]
    for n, (s, evs) in enumerate(its):
        if s["params"] != "rmp-params":
            raise Violation("solve_rmp parameters", got=s["params"])
        kinds = [e["kind"] for e in evs]
        nu = sum(shape)
        ups = evs[:nu]
        want = sorted((l, i) for l, w in enumerate(shape) for i in range(w))
        if sorted((e["level"], e["ind"]) for e in ups
                  if e["kind"] == "update") != want or "update" in kinds[nu:]:
            raise Violation("each subproblem must be updated exactly once "
                            "before pricing starts", iteration=n + 1,
                            events=kinds)
        prices = []
        i = nu
        while i < len(evs):
            e = evs[i]
            if e["kind"] == "solve_ip":
                raise Violation("integer master solved although not declared")
            if e["kind"] != "price":
                raise Violation("unexpected call", kind=e["kind"])
            key = (n + 1, e["level"], e["ind"])
            if e["params"] != "sp-%d-%d" % key[1:]:
                raise Violation("subproblem parameters", got=e["params"],
                                at=key)
            prices.append(key[1:])
            ans = world.answers[key]
            if len(ans) != 1:
                raise Violation("subproblem priced more than once in one "
                                "iteration", at=key)
            batch = [a["column"] for a in evs[i + 1:i + 1 + len(ans[0])]
                     if a["kind"] == "add"]
            mine = [c for c, f in world.fate.items() if f[1:] == key[1:]]
            if len(batch) != len(ans[0]):
                raise Violation("not every column of the batch was offered",
                                at=key, batch=ans[0], offered=batch)
            for c, a in zip(batch, ans[0]):
                if c not in mine or world.fate[c][0] != (a == "A"):
                    raise Violation("columns offered in another order or from "
                                    "another subproblem", at=key, got=batch)
            if batch != sorted(set(batch)):
                raise Violation("columns offered out of order", got=batch)
            accepted[e["level"]][e["ind"]] += ans[0].count("A")
            i += 1 + len(batch)
        got.append(prices)
        for e in ups + [e for e in evs if e["kind"] == "price"]:
            if e["duals"] != s["duals"]:
                raise Violation("duals passed are not those of this "
                                "iteration's master solve", kind=e["kind"],
                                got=e["duals"], want=s["duals"])
    offered = [e["column"] for e in world.log if e["kind"] == "add"]
    if len(set(offered)) != len(offered) or set(offered) != set(world.fate):
        raise Violation("a column was offered twice or never",
                        offered=offered)
    if got != rounds or end != "optimal":
        raise Violation("pricing calls differ from the reference loop",
                        got=got, want=rounds, end=end)
    if [list(map(int, r)) for r in clf.num_col_added_sp_] != accepted:
        raise Violation("column counts", got=clf.num_col_added_sp_,
                        want=accepted)
    return end, len(its)


def scheme(k, n, n_sp):
    """One of 60 deterministic answer schemes: the i-th answer is a large
    batch, a single column or nothing; long runs of either."""
    from ..refs import lcg
    r = lcg(1000 * k + n_sp)
    mode = k % 6
    run = [1, 3, 7, 15, 31, 64][(k // 6) % 6]

    def pick(m, label):
        i = next(n)
        if mode == 0:                   # mostly nothing
            return 1 + next(r) % (m - 1) if next(r) % (2 * n_sp) == 0 else 0
        if mode == 1:                   # nothing from most, then progress
            return 1 if i % (n_sp + 1) == n_sp else 2 * (i % 2)
        if mode == 2:                   # long runs of one answer
            return (i // run + k) % m
        if mode == 3:                   # only the last subproblem progresses
            return 1 if i % n_sp == n_sp - 1 else 0
        if mode == 4:                   # only the first progresses
            return 1
        return next(r) % m
    return pick


def run(sc, ctx):
    shape = sc["shape"]
    batches = {"B1": B1, "B2": B2, "B3": B3, "BL": BL}[sc["b"]]
    if "long" in sc:
        clf = None
        for f in range(sc["fits"]):
            w = loop.World(scheme(sc["long"] + 7 * f, itertools.count(),
                                  sum(shape)), sc["h"], batches)
            if clf is None:
                clf = loop.build(w, shape)
            else:
                clf.master_problem.w = w
                for lv in clf.subproblems:
                    for s in lv:
                        s.w = w
            clf.fit(X, Y)
            out = verify(w, shape, ctx, clf)
            ctx.state(shape, [(e["kind"], e.get("level"), e.get("ind"))
                              for e in w.log])
            ctx.outcome("long fit")
            ctx.count("iterations of long fits", out[1])
        ctx.trace()
        return

    def one(ch):
        worlds = [loop.World(ch.pick, sc["h"], batches)
                  for _ in range(sc["fits"])]
        clf = loop.build(worlds[0], shape)
        for k, w in enumerate(worlds):
            if k:
                clf.master_problem.w = w
                for lv in clf.subproblems:
                    for s in lv:
                        s.w = w
            r = clf.fit(X, Y)
            if r is not clf:
                raise Violation("fit must return the estimator")
            out = verify(w, shape, ctx, clf)
        return out, worlds

    for (out, worlds), ch in choice.explore(one):
        ctx.trace()
        for w in worlds:
            st = []
            for e in w.log:
                st.append((e["kind"], e.get("level"), e.get("ind"),
                           e.get("column")))
            ctx.state(shape, st, w.fate)
        ctx.outcome("%d iterations" % out[1])
        ctx.sample({"shape": shape, "answers": {
            str(k): v for k, v in worlds[0].answers.items()}})
