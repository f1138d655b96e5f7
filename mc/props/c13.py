import itertools

import numpy as np
from ortools.linear_solver import linear_solver_pb2

from .. import choice, cpsat, tree
from ..core import Violation
from ..refs import close

ID = "C13"
LEVEL = "model_checking"
TECH = "histories of path additions and cut rounds of the real master with " \
       "every answer of a stand-in cut generator; constraints, duals and " \
       "optimum compared with an independent LP"
RULE = ("for every problem, cut configuration and initial tree of the bounds: "
        "all paths but those held back are added, a cut round is reached by "
        "re-solving, the held-back paths are added and further rounds follow; "
        "the CP-SAT cut generator may report any improving solutions before "
        "any optimal one; after every solve every constraint of the exported "
        "LP is compared with the rows and reported patterns, evaluated on "
        "every valid tree, and the duals are checked to certify the optimum")
BOUNDS = {"quick": "depth 2; all data sets of 3 rows over 2 independent "
                   "binary splits and over 2 nested splits, and over 3 "
                   "splits with several thresholds of one feature listed in "
                   "any order, 6 data sets with "
                   "an LP gap or several needed cuts over 3 splits, 3 sets with 12-24 repeated rows; "
                   "7 cut configurations; held-back paths: none, each single "
                   "one for the two-split sets; cut generator: one reported "
                   "intermediate solution or another optimum per history (gap "
                   "sets); 6 wide problems (14 and 26 rows, 5 features, 15 "
                   "splits, 3..4 classes, depth 2 and 3), 21 more with up to "
                   "400 paths, most with the longest improving chain of "
                   "reported cuts in every round, up to 50 cuts, a fifth of "
                   "the paths added after them; deep problems (20 rows, depth 4, 15 nodes, 16 leaves)",
          "thorough": "all data sets of 4 rows; held-back pairs; two "
                      "deviations of the cut generator"}
ASSUMES = ["HiGHS (scipy) computes the reference optimum",
           "the MPSolver export of the master is the model it solves"]
HANG_S = 300

CONF = [(True, False, 1), (True, False, 3), (False, True, 1), (False, True, 3),
        (True, True, 1), (True, True, 3), (False, False, 2)]


# wide problems of depth 3 where tens of cuts are generated (found by search)
MANY = [(50, 12, 4), (0, 12, 4), (53, 14, 2), (8, 14, 2), (57, 12, 4),
        (29, 14, 2), (28, 12, 4), (37, 14, 2), (44, 14, 2), (33, 14, 2),
        (2, 12, 4), (7, 14, 2)]


def scenarios(tier):
    th = tier == "thorough"
    out = []
    for t in ("bin2", "num1"):
        for n in (3, 4) if th else (3,):
            for X, y in tree.datasets(t, n):
                s = tree.spec(t, 2, X, y, [[0, 1]] * 3)
                for cf in CONF:
                    out.append({"p": s, "cf": list(cf), "dev": 0,
                                "hold": 2 if th and n == 3 else 1,
                                "trees": [0, 3, 5]})
    for t, n in (("mixd", 3), ("numd3", 3)) + (
            (("mixd", 4), ("mix", 3), ("numd3", 4)) if th else ()):
        for i, (X, y) in enumerate(tree.datasets(t, n)):
            s = tree.spec(t, 2, X, y, [[0, 1, 2]] * 3)
            out.append({"p": s, "cf": list(CONF[3 + i % 2]), "dev": 0,
                        "hold": 0, "trees": [0, 5]})
    for s in tree.GAPS + tree.MULTI:
        for cf in CONF:
            out.append({"p": s, "cf": list(cf), "dev": 2 if th else 1,
                        "hold": 0, "trees": [0]})
            for k in range(6):
                out.append({"p": s, "cf": list(cf), "dev": 0, "hold": 1,
                            "part": [k, 6], "trees": [3]})
    for X, y, k, t, cands in (
            ([[0, 1], [1, 0], [1, 1]], [0, 1, 1], 8, "bin2", [[0, 1]] * 3),
            ([[0, 1], [1, 0], [1, 1], [0, 0]], [0, 1, 0, 1], 4, "bin2",
             [[0, 1]] * 3),
            (tree.GAPS[0]["X"], tree.GAPS[0]["y"], 3, "bin3",
             tree.GAPS[0]["cands"])):
        s = tree.spec(t, 2, X * k, y * k, cands)
        for cf in CONF:
            out.append({"p": s, "cf": list(cf), "dev": 0, "hold": 0,
                        "trees": [0, 3]})
    for k in range(8 if th else 3):
        for s in (tree.wide(k, 2, 26 if k == 1 else 14, 3 + k % 2),
                  tree.wide(k, 3, 14, 3 + k % 2, 2), tree.deep(k)):
            for cf in CONF:
                for t in (0, -1):
                    out.append({"p": s, "cf": list(cf), "dev": 0, "hold": 0,
                                "trees": [t]})
    # many paths through every row, and long chains of reported cuts
    for k in range(6 if th else 3):
        for s, m in ((tree.wide(10 + k, 2, 14, 3, 6), 0),
                     (tree.wide(10 + k, 2, 26, 2 + k % 2, 6), 30),
                     (tree.wide(10 + k, 3, 14, 3, 2), 30)):
            for cf in CONF[1:6:2] if m == 0 else CONF[3:6:2]:
                out.append({"p": s, "cf": list(cf), "dev": 0, "hold": 0,
                            "trees": [k], "chain": m})
    # rows that are exceeded by little only
    for d, k, n, c, m in ((2, 89, 26, 3, 6), (2, 77, 26, 3, 6),
                          (2, 79, 40, 2, 5), (3, 62, 14, 3, 2)):
        s = tree.wide(k, d, n, c, m)
        for cf in (CONF[1], CONF[5]):
            out.append({"p": s, "cf": list(cf), "dev": 0, "hold": 0,
                        "trees": [k]})
    # more than a hundred paths through a row
    for cf in (CONF[1], CONF[5]):
        out.append({"p": tree.wide(11, 2, 14, 3, 10), "cf": list(cf),
                    "dev": 0, "hold": 0, "late": 1, "trees": [1]})
    for k, n, c in MANY if th else MANY[:6]:
        for cf in (CONF[5], CONF[3]):
            out.append({"p": tree.wide(k, 3, n, c, 3), "cf": list(cf),
                        "dev": 0, "hold": 0, "late": 1, "trees": [k % 4],
                        "chain": 30})
    return out


class Run:
    def __init__(self, p, cf, init, ctx, cache):
        from col_gen_estimator import DTreeMasterProblem
        self.p, self.ctx, self.cache = p, ctx, cache
        self.rounds = cf[2]
        o = tree.objects(p)
        self.objs = [tree.mkpath(q, id=i, initial=True)
                     for i, q in enumerate(init)]
        self.mp = DTreeMasterProblem(
            list(self.objs), o.leaves, o.nodes, o.splits,
            beta_constraints_as_cuts=cf[0], generate_cuts=cf[1],
            num_cuts_round=cf[2])
        self.mp.generate_mp(np.array(p.X, dtype=float), np.array(p.y))
        self.paths = list(init)
        self.cuts = []
        self.hist = []
        self.nrows = None
        self.pats = [tree.row_pattern(p, r) for r in range(p.n)]
        self.cf = cf

    def info(self):
        return dict(problem=[self.p.X, self.p.y, self.p.splits, self.p.cands],
                    config=dict(rows_as_cuts=self.cf[0],
                                generate=self.cf[1], rounds=self.cf[2]),
                    history=self.hist[-30:], cuts=self.cuts)

    def add(self, q):
        o = tree.mkpath(q)
        self.objs.append(o)
        self.mp.add_column(o)
        self.paths.append(q)
        self.hist.append(q)
        self.ctx.step()

    def incidence(self, pat):
        return tuple(i for i, q in enumerate(self.paths)
                     if tree.pattern_follows(self.p, pat, q))

    def model(self):
        """Row constraints (sum <= 1) and sums that must equal 1 of the
        exported master, as path-index tuples."""
        proto = linear_solver_pb2.MPModelProto()
        self.mp.solver_.ExportModelToProto(proto)
        pos = {o.id: i for i, o in enumerate(self.objs)}
        if len(pos) != len(self.objs):
            raise Violation("path numbers not distinct", **self.info())
        le, eq = [], []
        for c in proto.constraint:
            idx = []
            other = False
            for v, a in zip(c.var_index, c.coefficient):
                if a == 0:
                    continue
                if v not in pos:
                    other = True
                    break
                if a != 1:
                    raise Violation("coefficient %g in a path constraint" % a,
                                    **self.info())
                idx.append(pos[v])
            if other:
                continue
            idx = tuple(sorted(idx))
            if c.lower_bound == 1 and c.upper_bound == 1:
                eq.append(idx)
            elif c.upper_bound == 1 and c.lower_bound <= 0:
                le.append(idx)
            elif not idx and c.lower_bound <= 0 <= c.upper_bound:
                continue
            else:
                raise Violation("unexpected constraint", bounds=[
                    c.lower_bound, c.upper_bound], paths=idx, **self.info())
        return le, eq

    def solve(self):
        mp, p = self.mp, self.p
        duals = mp.solve_rmp()
        self.hist.append("solve")
        self.ctx.step()
        obj = mp.solver_.Objective().Value()
        new = [list(map(bool, r)) for r in duals[4]]
        for k, r in enumerate(new):
            if r in self.cuts or r in new[:k]:
                raise Violation("a pattern is cut twice", cut=r,
                                **self.info())
            if len(r) != len(p.splits):
                raise Violation("cut pattern length", cut=r, **self.info())
            for i, (f, t) in enumerate(p.splits):
                for j, (g, u) in enumerate(p.splits):
                    if f == g and t < u and r[i] and not r[j]:
                        raise Violation("cut pattern no data point can have",
                                        cut=r, **self.info())
        self.cuts += new
        le, eq = self.model()
        # equal-one sums: the leaves and the reported patterns
        want = sorted([tuple(i for i, q in enumerate(self.paths) if q[0] == l)
                       for l in range(p.nl)]
                      + [self.incidence(c) for c in self.cuts])
        if sorted(eq) != want:
            raise Violation("leaf and cut constraints of the model", got=eq,
                            want=want, **self.info())
        # at-most-one sums: data rows, each at most once
        inc = {}
        for r in range(p.n):
            inc.setdefault(self.incidence(self.pats[r]), []).append(r)
        rows, used = set(), {}
        for c in le:
            used[c] = used.get(c, 0) + 1
            if used[c] > len(inc.get(c, [])):
                raise Violation("a row constraint that is no data row, or "
                                "repeats one", paths=c, **self.info())
            rows.add(inc[c][0])
        if self.nrows is not None and len(le) > self.nrows + 10 * self.rounds:
            raise Violation("more than ten row cuts in a round",
                            before=self.nrows, after=len(le), **self.info())
        if not self.cf[0] and self.nrows is not None and len(le) != self.nrows:
            raise Violation("row constraints changed", **self.info())
        self.nrows = len(le)
        key = (tuple(sorted(self.paths)), tuple(sorted(rows)),
               tuple(map(tuple, self.cuts)))
        if key not in self.cache:
            self.cache[key] = tree.master_lp(p, self.paths, sorted(rows),
                                             self.cuts)
        w = self.cache[key]
        if w is None or not close(obj, w, 1e-6):
            raise Violation("objective after cutting", got=obj, want=w,
                            **self.info())
        bad = tree.certify(p, self.paths, duals, set(range(p.n)), self.cuts,
                           obj)
        if bad:
            raise Violation("duals do not certify the optimum", problems=bad,
                            **self.info())
        self.ctx.state(self.p.X, self.p.y, self.p.cands, self.cf, key)
        return obj

    def trees(self):
        """Every valid tree of the paths satisfies every constraint."""
        p = self.p
        le, eq = self.model()
        by = {}
        for i, q in enumerate(self.paths):
            by.setdefault((q[0], q[1]), []).append(i)
        for asg in p.trees():
            opts = [by.get((l, tuple(sorted((n, asg[n])
                                            for n, _ in p.desc[l]))), [])
                    for l in range(p.nl)]
            for ch in itertools.product(*opts):
                s = set(ch)
                for c in le:
                    if len(s.intersection(c)) > 1:
                        raise Violation("a row constraint cuts off a tree",
                                        tree=asg, **self.info())
                for c in eq:
                    if len(s.intersection(c)) != 1:
                        raise Violation("a cut cuts off a tree", tree=asg,
                                        **self.info())


def history(p, sc, init, hold, ctx, cache, ch=None):
    cf = tuple(sc["cf"])
    R = Run(p, cf, init, ctx, cache)
    if ch is not None:
        cpsat.use(cpsat.Controlled(lambda n, l: ch.pick(n, l)))
    elif sc.get("chain"):
        # the search improves in the smallest possible steps
        cpsat.use(cpsat.Controlled(
            lambda n, l: n - 1 if l == "intermediate" else 0,
            max_intermediate=sc["chain"]))
    try:
        R.solve()
        pool = [q for q in p.paths(targets=False) if q not in init]
        for q in pool:
            if q not in hold:
                R.add(q)
        for _ in range(10):
            R.solve()
        R.trees()
        for q in hold:
            R.add(q)
            R.solve()
        last = None
        for block in range(p.n + 4):
            for _ in range(10):
                v = R.solve()
            if v == last:
                break
            last = v
        R.trees()
        key = ("all", tuple(sorted(R.paths)), tuple(map(tuple, R.cuts)))
        if key not in cache:
            cache[key] = tree.master_lp(p, R.paths, range(p.n), R.cuts)
        full = cache[key]
        if sc["cf"][0] and (full is None or not close(v, full, 1e-6)):
            raise Violation("after enough rounds the optimum differs from the "
                            "LP with all rows", got=v, want=full, **R.info())
        ctx.trace()
        ctx.outcome("%d generated cuts" % len(R.cuts))
        ctx.count("row constraints separated or present", R.nrows)
    finally:
        cpsat.install_default()
    return R


def run(sc, ctx):
    p = tree.prob(sc["p"])
    cache = {}
    ts = list(p.trees())
    for ti in sc["trees"]:
        init = p.tree_paths(ts[ti % len(ts)])
        pool = [q for q in p.paths(targets=False) if q not in init]
        holds = [pool[2::5] if sc.get("late") else []]
        if sc["hold"] >= 1:
            holds += [[q] for q in pool]
        if sc["hold"] >= 2:
            holds += [list(c) for c in itertools.permutations(pool, 2)]
        if "part" in sc:
            holds = holds[sc["part"][0]::sc["part"][1]]
        for hold in holds:
            if sc["dev"]:
                for _ in choice.explore(
                        lambda ch: history(p, sc, init, hold, ctx, cache, ch),
                        bound=sc["dev"], max_runs=3000,
                        on_cap=lambda: ctx.cap("cut generator runs")):
                    pass
            else:
                history(p, sc, init, hold, ctx, cache)
    ctx.sample({"problem": sc["p"], "config": sc["cf"]})
