import itertools

import numpy as np

from .. import choice, cpsat, refs, tree
from ..core import Violation

ID = "C14"
LEVEL = "model_checking"
TECH = "all dual vectors of an alphabet and growing cut histories presented " \
       "to the real exact pricers, with every intermediate solution the solver " \
       "may report, against exhaustive enumeration of the paths"
RULE = ("for every problem, leaf and pricer of the bounds: every dual vector "
        "of the alphabet is presented to a fresh pricer and, one after the "
        "other in two orders, to the same pricer, with cut patterns added "
        "along the way; additionally a stand-in solver reports every feasible "
        "assignment as an intermediate solution and every optimal one; each "
        "answer is compared with the enumeration of all paths of the leaf")
BOUNDS = {"quick": "depth 1 and 2, 2..3 rows over 2..3 splits, weights and "
                   "merged rows included; leaf duals {-0.5,0,0.995,1,2}, row duals "
                   "{0,0.5}, split duals {-0.5,0,0.25} (sparse: at most two "
                   "non-zero split duals in depth 2), up to 2 cuts (all "
                   "patterns) with duals {-1,0,0.5}; solver: one intermediate "
                   "solution and every optimum; 4 wide problems (14 rows, 5 "
                   "features, 15 splits, 3..4 classes, depth 2 and 3): 24 "
                   "vectors with all duals non-zero and 13..53 cuts to one pricer, "
                   "and ones whose paths differ by multiples of 0.0001; 2 problems with "
                   "60 and 90 rows, 9 and 12 classes; deep problems (20 rows, depth 4, 15 nodes, 16 leaves)",
          "thorough": "4 rows, all data sets of 3 rows, two intermediate "
                      "solutions"}
ASSUMES = ["the CP-SAT pricer's integer objective has resolution 1e-5; the "
           "duals explored are multiples of it",
           "row duals of rows merged away are zero, as the master returns"]
HANG_S = 300


def problems(tier):
    out = []
    B = "bin2"
    out.append(tree.spec(B, 1, [[0, 1], [1, 0]], [0, 1], [[0, 1]]))
    out.append(tree.spec(B, 1, [[0, 1], [1, 1], [1, 0]], [0, 1, 0], [[1, 0]]))
    out.append(tree.spec("num1", 1, [[0], [1], [2]], [0, 1, 2], [[0, 1]]))
    out.append(tree.spec(B, 2, [[0, 1], [1, 0]], [0, 1], [[0, 1]] * 3))
    out.append(tree.spec(B, 2, [[0, 1], [1, 1], [1, 1]], [1, 0, 1],
                         [[1], [0, 1], [1, 0]]))
    out.append(tree.spec("num1", 2, [[0], [1], [2]], [1, 0, 1],
                         [[0, 1], [0], [1, 0]]))
    out.append(tree.spec("mix", 2, [[0, 1], [1, 0], [2, 1]], [0, 1, 0],
                         [[0, 2], [1], [2, 1]]))
    if tier == "thorough":
        for t in (B, "num1"):
            for X, y in tree.datasets(t, 3):
                out.append(tree.spec(t, 1, X, y, [[0, 1]]))
                out.append(tree.spec(t, 2, X, y, [[0, 1]] * 3))
        for X, y in itertools.islice(tree.datasets("bin3", 4), 0, None, 9):
            out.append(tree.spec("bin3", 2, X, y, [[0, 1], [1, 2], [0, 2]]))
    return out


# (weights, merged-away rows) variants; None: no row objects are given
def variants(s):
    n = len(s["X"])
    out = [None, [[1] * n, []]]
    for i in range(n):
        w = [1] * n
        w[i] = 3
        out.append([w, []])
    # merge the last row into an identical one of the same label
    for i in range(n - 1):
        if s["X"][i] == s["X"][-1] and s["y"][i] == s["y"][-1]:
            w = [1] * n
            w[i] = 2
            out.append([w, [n - 1]])
    return out


def duplicate(s):
    """The problem with its first row repeated at the end."""
    return dict(s, X=s["X"] + [s["X"][0]], y=s["y"] + [s["y"][0]])


KINDS = ["sat", "mip", "old"]


def scenarios(tier):
    out = []
    for s in problems(tier):
        for kind in KINDS:
            d = duplicate(s)
            for sp, vs in ((s, variants(s)[:3]), (d, variants(d)[-1:])):
                for v in vs:
                    for leaf in range(2 ** s["depth"]):
                        out.append({"p": sp, "k": kind, "v": v, "leaf": leaf,
                                    "mode": "seq"})
                        if v is None or v[1]:
                            out.append({"p": sp, "k": kind, "v": v,
                                        "leaf": leaf, "mode": "cuts"})
                        if kind == "sat" and len(sp["X"]) < 5:
                            out.append({"p": sp, "k": kind, "v": v,
                                        "leaf": leaf, "mode": "solver",
                                        "inter": 2 if tier == "thorough"
                                        else 1})
    for k in range(8 if tier == "thorough" else 4):
        s = tree.wide(k, 3, 14, 3 + k % 2, 2) if k % 2 else \
            tree.wide(k, 2, 14, 3 + k % 4 // 2, 3)
        if k == 3:
            s = tree.deep(k)
        for kind in KINDS:
            for v in (None, 1):
                for leaf in range(0, 2 ** s["depth"], 1 + (k == 3)):
                    out.append({"p": s, "k": kind, "v": v and wide_rows(s),
                                "leaf": leaf, "mode": "wide", "n": k})
    for k in range(6 if tier == "thorough" else 2):
        s = tree.many(k, 2, (90, 60)[k % 2], (12, 9)[k % 2], 4)
        for kind in KINDS:
            for leaf in range(4):
                v = wide_rows(s) if leaf % 2 else None
                out.append({"p": s, "k": kind, "v": v, "leaf": leaf,
                            "mode": "wide", "n": 20 + k,
                            "calls": 24 if kind == "sat" else 5})
    return out


def wide_rows(s):
    """Different weights, and the repeated row merged away (its class too)."""
    n = len(s["X"])
    w = [1 + i * 5 % 4 for i in range(n)]
    w[n - 1] = 1 + 2 * (s["depth"] % 2)     # of a row that is merged away
    return [w, [n - 1]]


def vectors(p, leaf, skip, ncuts, mode):
    """Dual vectors; only what this leaf sees varies, the rest is 9."""
    nodes = [n for n, _ in p.desc[leaf]]
    slots = [(n, s) for n in nodes for s in dict.fromkeys(p.cands[n])]
    live = [r for r in range(p.n) if r not in skip]
    if mode == "solver":
        leafd, rowd = (0, 1), (0, 0.5)
        splitd = [[0] * len(slots)] + [
            [0.25 if i == j else 0 for i in range(len(slots))]
            for j in range(len(slots))]
    elif len(slots) <= 2:
        leafd, rowd = (-0.5, 0, 0.995, 1, 2), (0, 0.5)
        splitd = list(itertools.product((-0.5, 0, 0.25), repeat=len(slots)))
    else:
        leafd, rowd = (0, 0.995, 2), (0, 0.5)
        splitd = [c for c in itertools.product((-0.5, 0, 0.25),
                                               repeat=len(slots))
                  if sum(v != 0 for v in c) <= (2 if mode == "seq" else 1)]
    if mode == "cuts":
        leafd, cutd = (0, 1), (-1, 0, 0.5)
        splitd = splitd[:: max(1, len(splitd) // 4)]
    else:
        cutd = (0,)
    if len(live) > 3:
        rowsets = [c for c in itertools.product(rowd, repeat=len(live))
                   if sum(v != 0 for v in c) <= 1]
    else:
        rowsets = list(itertools.product(rowd, repeat=len(live)))
    for ld in leafd:
        for rv in rowsets:
            for sv in splitd:
                for cv in itertools.product(cutd, repeat=ncuts):
                    rd = [0.0] * p.n
                    for r, v in zip(live, rv):
                        rd[r] = float(v)
                    ns = {l: {n: {s: 9.0 for s in p.cands[n]}
                              for n, _ in p.desc[l]} for l in range(p.nl)}
                    for (n, s), v in zip(slots, sv):
                        ns[leaf][n][s] = float(v)
                    lds = [9.0] * p.nl
                    lds[leaf] = float(ld)
                    yield (lds, rd, ns, [float(c) for c in cv])


class Pricer:
    def __init__(self, p, sc, target=None):
        import col_gen_estimator as c
        from col_gen_estimator import _dtree_classifier as dt
        self.p, self.sc, self.target = p, sc, target
        o = tree.objects(p)
        v = sc["v"]
        rows = None
        self.skip = set()
        if v is not None:
            rows = []
            self.skip = set(v[1])
            for r in range(p.n):
                row = c.Row()
                row.id, row.target, row.weight = r, p.y[r], v[0][r]
                row.removed_from_sp = row.removed_from_master = r in self.skip
                for i in range(len(p.splits)):
                    (row.left_splits if p.left[i][r]
                     else row.right_splits).add(i)
                row.reachable_nodes, row.reachable_leaves = p.reach(r)
                rows.append(row)
        leaf = o.leaves[sc["leaf"]]
        ts = list(range(p.nt))
        if sc["k"] == "sat":
            self.sp = dt.DTreeSubProblemSat(leaf, o.nodes, o.splits, ts,
                                            p.depth, data_rows=rows)
        elif sc["k"] == "mip":
            self.sp = dt.DTreeSubProblem(leaf, o.nodes, o.splits, ts, p.depth,
                                         data_rows=rows)
        else:
            self.sp = dt.DTreeSubProblemOld(leaf, o.nodes, o.splits, target,
                                            p.depth, solver_str="sat",
                                            data_rows=rows)
        w = v[0] if v is not None else None
        self.ref = []
        for asg in p.assignments(sc["leaf"]):
            cnt = p.counts(sc["leaf"], asg, w, self.skip)
            for t in ts if target is None else [target]:
                self.ref.append((sc["leaf"], tuple(sorted(asg.items())), t,
                                 cnt[t]))
        self.cuts = []
        self.X = np.array(p.X, dtype=float)
        self.y = np.array(p.y)

    def redcost(self, q, duals):
        ld, rd, ns, cd = duals
        live = list(rd)
        for r in self.skip:
            live[r] = 0.0
        return tree.redcost(self.p, q, (ld, live, ns, cd), self.cuts)

    def ask(self, duals, new, ctx, hist, tol=1e-6):
        p = self.p
        self.cuts = self.cuts + [list(c) for c in new]
        full = tuple(duals) + ([list(c) for c in new],)
        self.sp.update_subproblem(self.X, self.y, full)
        got = self.sp.generate_columns(self.X, self.y, full, "")
        ctx.step()
        best = max(self.redcost(q, duals) for q in self.ref)
        refs = set(self.ref)
        lq = [(tree.unpath(q), q) for q in got]
        info = dict(problem=[p.X, p.y, p.splits, p.cands],
                    leaf=self.sc["leaf"], pricer=self.sc["k"],
                    target=self.target, rows=self.sc["v"],
                    duals=[duals[0][self.sc["leaf"]], duals[1],
                           duals[2][self.sc["leaf"]], duals[3]],
                    cuts=self.cuts, got=[q for q, _ in lq],
                    best_reduced_cost=best, asked_before=hist)
        if best <= 1e-6:
            if lq:
                raise Violation("a path although none improves", **info)
            return "none improves"
        if not lq:
            raise Violation("no path although one improves", **info)
        top = None
        for q, o in lq:
            if len(o.node_ids) != p.depth or len(o.splits) != p.depth:
                raise Violation("not one split per node of the leaf", **info)
            q = (q[0], q[1], q[2], round(q[3], 6))
            match = [z for z in refs if z[:3] == q[:3]]
            if not match:
                raise Violation("not a path of this leaf with its candidate "
                                "splits and targets", path=q, **info)
            if abs(match[0][3] - q[3]) > 1e-6:
                raise Violation("cost of the path is not the number of rows "
                                "that follow it with its target", path=q,
                                want=match[0][3], **info)
            rc = self.redcost(match[0], duals)
            if rc <= 1e-6:
                raise Violation("returned path does not improve", path=q,
                                reduced_cost=rc, **info)
            top = rc if top is None else max(top, rc)
        if top < best - tol:
            raise Violation("no path of maximum reduced cost", best_got=top,
                            **info)
        return "%d paths" % len(lq)


def patterns(p):
    out = []
    for pat in itertools.product((False, True), repeat=len(p.splits)):
        if all(not (pat[i] and not pat[j])
               for i, (f, t) in enumerate(p.splits)
               for j, (g, u) in enumerate(p.splits) if f == g and t < u):
            out.append(list(pat))
    return out


def run(sc, ctx):
    p = tree.prob(sc["p"])
    targets = [None] if sc["k"] != "old" else list(range(p.nt))
    for t in targets:
        {"seq": run_seq, "cuts": run_cuts, "solver": run_solver,
         "wide": run_wide}[sc["mode"]](
            p, sc, t, ctx)
    ctx.sample({"scenario": sc})


def run_seq(p, sc, t, ctx):
    skip = set(sc["v"][1]) if sc["v"] else set()
    vs = list(vectors(p, sc["leaf"], skip, 0, "seq"))
    # fresh pricers
    for d in vs[::max(1, len(vs) // 24)]:
        ctx.outcome(Pricer(p, sc, t).ask(d, [], ctx, []))
        ctx.trace()
    # one pricer for everything, and backwards
    for order in (vs, vs[::-1]):
        P = Pricer(p, sc, t)
        prev = []
        for d in order:
            ctx.outcome(P.ask(d, [], ctx, prev[-1:]))
            prev = [d[:2]]
            ctx.state(sc["p"], sc["k"], sc["v"], sc["leaf"], t, d)
        ctx.trace()


def run_cuts(p, sc, t, ctx):
    skip = set(sc["v"][1]) if sc["v"] else set()
    pats = patterns(p)
    z = list(vectors(p, sc["leaf"], skip, 0, "cuts"))
    one = list(vectors(p, sc["leaf"], skip, 1, "cuts"))
    two = list(vectors(p, sc["leaf"], skip, 2, "cuts"))
    thr = list(vectors(p, sc["leaf"], skip, 3, "cuts"))
    k = 0
    for a in pats:
        for b in pats:
            # histories: when the cuts arrive, and together or one by one
            for plan in ("0,a,b", "a,b", "ab", "0,ab", "a,-,b", "ab,c"):
                if plan in ("a,b", "0,ab", "a,-,b") and (a is b):
                    continue
                P = Pricer(p, sc, t)
                hist = []
                for st in plan.split(","):
                    new = {"0": [], "a": [a], "b": [b], "ab": [a, b],
                           "-": [], "c": [a]}[st]
                    nc = len(P.cuts) + len(new)
                    vs = (z, one, two, thr)[nc]
                    d = vs[(k * 31 + 7) % len(vs)]
                    k += 1
                    ctx.outcome(P.ask(d, new, ctx, list(hist)))
                    hist.append([st, d[3]])
                    ctx.state(sc["p"], sc["k"], sc["leaf"], t, P.cuts, d)
                # every vector of a spread with the final set of cuts
                vs = (z, one, two, thr)[len(P.cuts)]
                for d in vs[k % 7::max(1, len(vs) // 9)]:
                    ctx.outcome(P.ask(d, [], ctx, list(hist)))
                    ctx.state(sc["p"], sc["k"], sc["leaf"], t, P.cuts, d)
                ctx.trace()


def run_wide(p, sc, t, ctx):
    """All duals vary at once; cuts arrive before five of the calls."""
    g = refs.lcg(500 + sc["n"] * 8 + sc["leaf"])
    P = Pricer(p, sc, t)
    skip = set(sc["v"][1]) if sc["v"] else set()
    prev = []
    for call in range(sc.get("calls", 24)):
        new = []
        for _ in range({0: 1, 2: 1, 3: 2, 9: 1, 13: 4, 14: 2, 20: 3,
                        22: 40 if sc["n"] < 2 else 0}.get(call, 0)):
            x = [next(g) % 4 for _ in range(5)]
            new.append([x[f] <= th for f, th in p.splits])
        nc = len(P.cuts) + len(new)
        lv = (0, 1, 2, 3)[call % 4]
        d = ([lv + next(g) % 5 / 4 for _ in range(p.nl)],
             [0.0 if r in skip else (0, 0, 0, 0.25, 0.5)[next(g) % 5]
              for r in range(p.n)],
             {l: {n: {s: (next(g) % 7 - 3) / 4 for s in p.cands[n]}
                  for n, _ in p.desc[l]} for l in range(p.nl)},
             [(next(g) % 9 - 4) / 4 for _ in range(nc)])
        ctx.outcome("wide: " + P.ask(d, new, ctx, prev[-1:]))
        prev = [call]
        ctx.state(sc, t, call)
        # nearly the same duals, paths that differ by little, and a best path
        # that hardly improves or hardly does not
        if call % 4 == 3 or len(P.cuts) > 9:
            d = near(g, p, d, skip)
            # (the MIP solver stops at a gap of its own)
            for by in (None, 0.0002, -0.0002, 0.01) if sc["k"] == "sat" \
                    else (0.01,):
                if by is not None:
                    best = max(P.redcost(q, d) for q in P.ref)
                    d[0][sc["leaf"]] = round(
                        d[0][sc["leaf"]] + best - by, 9)
                ctx.outcome("near: " + P.ask(
                    d, [], ctx, [call], 1e-6 if sc["k"] == "sat" else 1e-3))
                ctx.state(sc, t, call, by)
    ctx.trace()


def near(g, p, d, skip):
    """Every dual moved by a small multiple of 0.0001."""
    def m(v):
        return round(v + (next(g) % 41 - 20) / 10000, 6)
    return ([m(v) for v in d[0]],
            [0.0 if r in skip else max(0.0, m(v))
             for r, v in enumerate(d[1])],
            {l: {n: {s: m(v) for s, v in a.items()} for n, a in b.items()}
             for l, b in d[2].items()},
            [m(v) for v in d[3]])


def run_solver(p, sc, t, ctx):
    skip = set(sc["v"][1]) if sc["v"] else set()
    vs = list(vectors(p, sc["leaf"], skip, 0, "solver"))
    for d in vs:
        def body(ch):
            P = Pricer(p, sc, t)
            cpsat.use(cpsat.Controlled(lambda n, l: ch.pick(n, l),
                                       max_intermediate=sc["inter"],
                                       tie_choice=True))
            try:
                ctx.outcome("solver: " + P.ask(d, [], ctx, ch.trace()))
            finally:
                cpsat.install_default()
            ctx.trace()
        for _ in choice.explore(body, bound=sc["inter"]):
            pass
        ctx.state("solver", sc["p"], sc["v"], sc["leaf"], d)
