import itertools

import numpy as np

from .. import choice, env, refs, tree
from ..core import Violation

ID = "C15"
LEVEL = "model_checking"
TECH = "all sequences of random choices of the first draws, and draw scripts " \
       "covering every path, under every dual vector of an alphabet and all " \
       "growing cut histories; each batch is checked against enumeration"
RULE = ("for every problem, row weighting, cut history and script of random "
        "choices of the bounds: the paths of a first call with duals under "
        "which everything improves are the drawn paths; the same script under "
        "every other dual vector must return exactly the drawn paths whose "
        "enumerated reduced cost is above 1e-6, each once, with a most "
        "frequent class and its weighted count; counters are compared with "
        "the draws counted at the random generator")
BOUNDS = {"quick": "depth 1 and 2, 2..4 rows, 2..3 splits, weighted and "
                   "merged rows; every choice for the first 2 draws (depth 2: "
                   "1 draw and every pair differing in at most 2 choices from "
                   "the default) and scripts visiting every path forwards and "
                   "backwards, starting at every offset; sparse dual vectors "
                   "(at most two non-zero entries); every history of up to 2 "
                   "cuts in up to 3 rounds, with a rotating third and fourth; 4 wide "
                   "problems (14 rows, 5 features, 15 splits, 3..4 classes, "
                   "depth 2 and 3) with 30 dense dual vectors and 21..54 cuts; 3 problems with 60..90 rows, 8..12 classes; paths within "
                   "0.000003 of not improving; deep problems (20 rows, depth 4, 15 nodes, 16 leaves)",
          "thorough": "every data set of 3 rows, every choice for the first "
                      "three (depth 2: two) draws"}
ASSUMES = ["random numbers are drawn through the random module",
           "row duals of rows merged away are zero, as the master returns"]
HANG_S = 300


def problems(tier):
    out = []
    out.append(tree.spec("bin3", 1, [[0, 1, 0], [1, 0, 0], [1, 1, 0]],
                         [0, 1, 1], [[0, 1, 2]]))
    out.append(tree.spec("mix", 1, [[0, 1], [1, 1], [2, 0], [2, 0]],
                         [0, 1, 2, 2], [[2, 0, 1]]))
    out.append(tree.spec("bin2", 2, [[0, 1], [1, 0], [1, 1]], [0, 1, 1],
                         [[0, 1]] * 3))
    out.append(tree.spec("mix", 2, [[0, 1], [1, 0], [2, 1], [2, 1]],
                         [0, 1, 0, 0], [[0, 2], [1, 0], [2, 1]]))
    out.append(tree.spec("num1", 2, [[0], [1], [2]], [1, 0, 1],
                         [[0], [1], [1, 0]]))
    # a node none of whose candidates can be drawn after its parent's
    out.append(tree.spec("bin2", 2, [[0, 1], [1, 0]], [0, 1],
                         [[0, 1], [0], [1]]))
    if tier == "thorough":
        for X, y in tree.datasets("bin2", 3):
            out.append(tree.spec("bin2", 2, X, y, [[0, 1]] * 3))
        for X, y in tree.datasets("mix", 3):
            out.append(tree.spec("mix", 1, X, y, [[0, 1, 2]]))
        for X, y in itertools.islice(tree.datasets("mix", 3, 3), 0, None, 2):
            out.append(tree.spec("mix", 2, X, y, [[0, 2], [1, 0], [2, 1]]))
    return out


def variants(s):
    n = len(s["X"])
    out = [None, [[1] * n, []], [[3] + [1] * (n - 1), []],
           [[1] * (n - 1) + [4], []]]
    for i in range(n - 1):
        if s["X"][i] == s["X"][-1] and s["y"][i] == s["y"][-1]:
            w = [1] * n
            w[i] = 2
            out.append([w, [n - 1]])
    return out


def scenarios(tier):
    out = []
    for s in problems(tier):
        for v in variants(s):
            out.append({"p": s, "v": v, "mode": "choices", "tier": tier})
            out.append({"p": s, "v": v, "mode": "sweep"})
        for half in range(4):
            out.append({"p": s, "v": None, "mode": "cuts", "part": half})
    for k in range(8 if tier == "thorough" else 4):
        s = tree.wide(k, 3, 14, 3 + k % 2, 2) if k % 2 else \
            tree.wide(k, 2, 14, 3 + k % 4 // 2, 3)
        if k == 3:
            s = tree.deep(k)
        n = len(s["X"])
        w = [1 + i * 5 % 4 for i in range(n)]
        w[n - 1] = 1 + 2 * (k % 2)    # of a row that is merged away
        for v in (None, [w, [n - 1]]):
            for back in (0, 1):
                out.append({"p": s, "v": v, "mode": "wide", "n": k,
                            "back": back})
    for k in range(6 if tier == "thorough" else 3):
        s = tree.many(k, 2, (90, 60, 75)[k % 3], (12, 9, 8)[k % 3], (2, 3)[k % 2])
        n = len(s["X"])
        for v in (None, [[1 + i * 5 % 4 for i in range(n)], [n - 1]]):
            out.append({"p": s, "v": v, "mode": "wide", "n": 20 + k,
                        "back": k % 2})
    return out


def make(p, v):
    import col_gen_estimator as c
    o = tree.objects(p)
    rows, skip = None, set()
    if v is not None:
        rows, skip = [], set(v[1])
        for r in range(p.n):
            row = c.Row()
            row.id, row.target, row.weight = r, p.y[r], v[0][r]
            row.removed_from_sp = row.removed_from_master = r in skip
            for i in range(len(p.splits)):
                (row.left_splits if p.left[i][r]
                 else row.right_splits).add(i)
            row.reachable_nodes, row.reachable_leaves = p.reach(r)
            rows.append(row)
    sp = c.DTreeSubProblemHeuristic(o.leaves, o.nodes, o.splits,
                                    list(range(p.nt)), p.depth,
                                    data_rows=rows)
    return sp, o, skip


def zero(p, ncuts, leaf=0.0):
    d = tree.zero_duals(p, ncuts)
    return ([leaf] * p.nl, d[1], d[2], d[3])


def vectors(p, skip, ncuts):
    """Everything zero, every single non-zero entry, and pairs."""
    slots = [("l", l, v) for l in range(p.nl) for v in (0.5, 1.0, 2.0)]
    slots += [("r", r, v) for r in range(p.n) if r not in skip
              for v in (0.5, 1.0)]
    slots += [("s", l, n, s, v) for l in range(p.nl) for n, _ in p.desc[l]
              for s in p.cands[n] for v in (-0.5, 1.0)]
    slots += [("c", c, v) for c in range(ncuts) for v in (-0.5, 1.0)]

    def put(d, z):
        if z[0] == "l":
            d[0][z[1]] += z[2]
        elif z[0] == "r":
            d[1][z[1]] += z[2]
        elif z[0] == "s":
            d[2][z[1]][z[2]][z[3]] += z[4]
        else:
            d[3][z[1]] += z[2]
    yield (), zero(p, ncuts)
    for z in slots:
        d = zero(p, ncuts)
        put(d, z)
        yield (z,), d
    cs = [z for z in slots if z[0] == "c"]
    for a, b in itertools.product(cs, cs):
        if a[1] < b[1]:
            d = zero(p, ncuts)
            put(d, a)
            put(d, b)
            yield (a, b), d
    # every leaf at a level, one more entry
    for lv in (1.0, 2.0):
        d = zero(p, ncuts, lv)
        yield (lv,), d
        for z in slots[3 * p.nl:]:
            d = zero(p, ncuts, lv)
            put(d, z)
            yield (lv, z), d


class Call:
    """One pricing call under a script; counts the draws of leaves."""

    def __init__(self, p, script):
        self.p, self.script = p, script
        self.k = 0
        self.leaf_draws = 0

    def pick(self, n):
        if n == self.p.nl:
            self.leaf_draws += 1
        v = self.script(self.k, n)
        self.k += 1
        return v


def price(sp, p, X, y, duals, new, script):
    call = Call(p, script)
    s0, f0 = sp.success_rounds, sp.failed_rounds
    with env.scripted_random(call.pick):
        got = list(sp.generate_columns(X, y, duals + (new,), ""))
    return got, sp.success_rounds - s0, sp.failed_rounds - f0, call.leaf_draws


def verify(p, v, skip, cuts, drawn, res, duals, tag, ctx, info):
    got, ok, bad, draws = res
    w = v[0] if v else None
    info = dict(info, problem=[p.X, p.y, p.splits, p.cands], rows=v,
                cuts=cuts, duals=tag)
    seen = []
    for q in got:
        u = tree.unpath(q)
        leaf, asg, t, cost = u
        if not 0 <= leaf < p.nl or [n for n, _ in asg] != sorted(
                n for n, _ in p.desc[leaf]) or len(q.splits) != p.depth:
            raise Violation("not a path of its leaf", path=u, **info)
        if any(s not in p.cands[n] for n, s in asg) or \
                len({s for _, s in asg}) < p.depth:
            raise Violation("splits are not distinct candidates", path=u,
                            **info)
        if not 0 <= t < p.nt:
            raise Violation("target is no class", path=u, **info)
        cnt = p.counts(leaf, dict(asg), w, skip)
        if cnt[t] != max(cnt):
            raise Violation("target is not a most frequent class", path=u,
                            counts=cnt, **info)
        if abs(cost - cnt[t]) > 1e-9:
            raise Violation("cost is not the weighted count of the target",
                            path=u, counts=cnt, **info)
        rc = tree.redcost(p, u, duals, cuts)
        if rc <= 1e-6:
            raise Violation("returned path does not improve", path=u,
                            reduced_cost=rc, **info)
        key = (leaf, asg)
        if key in seen:
            raise Violation("path returned twice", path=u, **info)
        seen.append(key)
    if ok != len(got):
        raise Violation("success counter", got=ok, want=len(got), **info)
    if draws and ok + bad != draws:
        raise Violation("counters do not add up to the draws", success=ok,
                        failed=bad, draws=draws, **info)
    if drawn is not None:
        for u in drawn:
            leaf, asg = u[0], u[1]
            rc = tree.redcost(p, u, duals, cuts)
            if rc > 1e-6 and (leaf, asg) not in seen:
                raise Violation("an improving drawn path is not returned",
                                path=u, reduced_cost=rc, **info)
        for key in seen:
            if key not in [u[:2] for u in drawn]:
                raise Violation("a path that was not drawn", path=key, **info)
    ctx.step()
    ctx.outcome("%d of %s" % (len(got), "?" if drawn is None else len(drawn)))
    return [tree.unpath(q) for q in got]


def sweep_picks(p):
    """Choices that draw every path of distinct splits, leaf by leaf."""
    out = []
    for l in range(p.nl):
        lf_nodes = [n for n, left in p.desc[l] if left] + \
            [n for n, left in p.desc[l] if not left]

        def rec(k, used, pre):
            if k == len(lf_nodes):
                out.append([l] + pre)
                return
            c = [s for s in p.cands[lf_nodes[k]] if s not in used]
            if not c:
                out.append([l] + pre)
            for i, s in enumerate(c):
                rec(k + 1, used + [s], pre + [i])
        rec(0, [], [])
    return out


def flat(script):
    f = [c for d in script for c in d]
    return lambda k, n: f[k] % n if k < len(f) else 0


def run(sc, ctx):
    p = tree.prob(sc["p"])
    X, y = np.array(p.X, dtype=float), np.array(p.y)
    v = sc["v"]
    low = zero(p, 0, -100.0)
    if sc["mode"] == "cuts":
        return run_cuts(p, sc, X, y, ctx)
    if sc["mode"] == "wide":
        return run_wide(p, sc, v, X, y, ctx)
    skip = set(v[1]) if v else set()
    vecs = list(vectors(p, skip, 0))
    if sc["mode"] == "sweep":
        picks = sweep_picks(p)
        k = len(picks)
        scripts = [picks[i:] + picks[:i] for i in range(k)]
        scripts += [s[::-1] for s in scripts]
        scripts += [[a for a in s for _ in (0, 1)] for s in scripts[:2]]
        for i, s in enumerate(scripts):
            script = flat(s)
            sp, o, _ = make(p, v)
            res = price(sp, p, X, y, low, [], script)
            drawn = verify(p, v, skip, [], None, res, low, "all improve", ctx,
                           {"script": s})
            # all vectors on fresh scripts 0 and k, a rotating part on others
            for j, (tag, d) in enumerate(vecs):
                if i not in (0, k) and (j + i) % 7:
                    continue
                res = price(sp, p, X, y, d, [], script)
                verify(p, v, skip, [], drawn, res, d, tag, ctx, {"script": s})
                ctx.state(sc["p"], v, i, tag)
            ctx.trace()
        ctx.sample({"problem": sc["p"], "rows": v, "script": s})
        return
    few = [x for x in vecs if len(x[0]) < 2][::5] + vecs[-1:]
    deep = sc["tier"] == "thorough"
    free = (3 if deep else 2) * (1 + p.depth) if p.depth == 1 else \
        (2 if deep else 1) * (1 + p.depth)
    more = 2 * (1 + p.depth)

    reached, draws = set(), [0]

    def body(ch):
        taken = []

        def script(k, n):
            draws[0] = max(draws[0], k + 1)
            if k < len(taken):
                return taken[k] % n
            if k < more and k == len(taken):
                c = ch.pick(n, "draw", [0] * n if k < free else None)
                taken.append(c)
                return c
            return 0
        sp, o, _ = make(p, v)
        res = price(sp, p, X, y, low, [], script)
        drawn = verify(p, v, skip, [], None, res, low, "all improve", ctx,
                       {"choices": taken})
        reached.update(u[:2] for u in drawn)
        ctx.state(sc["p"], v, drawn)
        for tag, d in few:
            res = price(sp, p, X, y, d, [], script)
            verify(p, v, skip, [], drawn, res, d, tag, ctx,
                   {"choices": taken})
        ctx.trace()
    for _ in choice.explore(body, bound=2 if not deep else 3):
        pass
    # The first attempt was driven through all its choices: when every path
    # improves, each path of distinct splits was drawn and returned.
    if draws[0] <= 100 * (1 + p.depth):
        for l in range(p.nl):
            for asg in p.assignments(l):
                key = (l, tuple(sorted(asg.items())))
                if len(set(asg.values())) == p.depth and key not in reached:
                    raise Violation("an improving path is never returned, "
                                    "whatever is drawn", path=key,
                                    problem=[p.X, p.y, p.splits, p.cands],
                                    rows=v)


def patterns(p):
    out = []
    for pat in itertools.product((False, True), repeat=len(p.splits)):
        if all(not (pat[i] and not pat[j])
               for i, (f, t) in enumerate(p.splits)
               for j, (g, u) in enumerate(p.splits) if f == g and t < u):
            out.append(list(pat))
    return out


def run_wide(p, sc, v, X, y, ctx):
    """One pricer, dense duals, cuts before five of the calls; every path is
    drawn by the script."""
    g = refs.lcg(700 + sc["n"])
    picks = sweep_picks(p)
    assert len(picks) <= 100
    if sc["back"]:
        picks = picks[::-1]
    skip = set(v[1]) if v else set()
    sp, o, _ = make(p, v)
    cuts = []
    for call in range(30):
        k = call * 7 % len(picks)
        script = flat(picks[k:] + picks[:k])
        new = []
        for _ in range({0: 1, 2: 1, 3: 2, 9: 1, 12: 5, 13: 4, 14: 1,
                        20: 40 if sc["n"] < 2 else 7, 22: 3}.get(call, 0)):
            x = [next(g) % 4 for _ in range(5)]
            new.append([x[f] <= th for f, th in p.splits])
        cuts = cuts + new
        low = zero(p, len(cuts), -100.0)
        lv = (0, 1, 2, 3)[call % 4]
        d = ([lv + next(g) % 5 / 4 for _ in range(p.nl)],
             [0.0 if r in skip else (0, 0, 0, 0.25, 0.5)[next(g) % 5]
              for r in range(p.n)],
             {l: {n: {s: (next(g) % 7 - 3) / 4 for s in p.cands[n]}
                  for n, _ in p.desc[l]} for l in range(p.nl)},
             [(next(g) % 9 - 4) / 4 for _ in range(len(cuts))])
        sp.update_subproblem(X, y, low + ([list(c) for c in new],))
        res = price(sp, p, X, y, low, new, script)
        drawn = verify(p, v, skip, cuts, None, res, low, "all improve", ctx,
                       {"call": call})
        res = price(sp, p, X, y, d, [], script)
        verify(p, v, skip, cuts, drawn, res, d, d, ctx, {"call": call})
        ctx.state(sc, call)
        if call % 3:
            continue
        # paths that hardly improve, or hardly do not
        for i in range(3):
            u = drawn[next(g) % len(drawn)]
            rc = tree.redcost(p, u, d, cuts)
            for by in (5e-5, -5e-5, 3e-6, -3e-6):
                e = (list(d[0]),) + d[1:]
                e[0][u[0]] = round(e[0][u[0]] + rc - by, 9)
                res = price(sp, p, X, y, e, [], script)
                verify(p, v, skip, cuts, drawn, res, e, e, ctx,
                       {"call": call, "by": by})
                ctx.state(sc, call, i, by)
    # mixed draws: no leaf is left out
    want = {l for l in range(p.nl)
            if any(True for _ in p.assignments(l, distinct=True))}
    seen = set()
    low = zero(p, len(cuts), -100.0)
    for call in range(60):
        if seen >= want:
            break
        nums = [next(g) for _ in range(100 * (1 + p.depth))]
        res = price(sp, p, X, y, low, [],
                    lambda k, n: nums[k % len(nums)] % n)
        seen |= {u[0] for u in verify(p, v, skip, cuts, None, res, low,
                                      "all improve", ctx, {"mixed": call})}
    if not seen >= want:
        raise Violation("no path of a leaf is ever returned although all "
                        "improve", leaves=sorted(want - seen),
                        problem=[p.X, p.y, p.splits, p.cands])
    ctx.trace()


def run_cuts(p, sc, X, y, ctx):
    """Cuts arrive in every plan; the sweep script draws every path."""
    script = flat(sweep_picks(p))
    pats = patterns(p)
    for i, (a, b) in enumerate(itertools.product(pats, pats)):
        if i % 4 != sc["part"]:
            continue
        c = pats[(i * 5 + 1) % len(pats)]
        for plan in ("a", "0,a", "ab", "a,b", "a,-,b", "0,ab,-", "a,ab",
                     "a,b,c", "ab,c", "a,b,ca"):
            sp, o, _ = make(p, None)
            cuts = []
            for st in plan.split(","):
                new = {"0": [], "-": [], "a": [a], "b": [b],
                       "ab": [a, b], "c": [c], "ca": [c, a]}[st]
                cuts = cuts + new
                d = zero(p, len(cuts), -100.0)
                info = {"plan": plan, "at": st}
                sp.update_subproblem(X, y, d + ([list(c) for c in new],))
                res = price(sp, p, X, y, d, [list(c) for c in new], script)
                drawn = verify(p, None, set(), cuts, None, res, d,
                               "all improve", ctx, info)
            for tag, d in vectors(p, set(), len(cuts)):
                if not any(z[0] == "c" for z in tag if isinstance(z, tuple)) \
                        and tag != ():
                    continue
                res = price(sp, p, X, y, d, [], script)
                verify(p, None, set(), cuts, drawn, res, d, tag, ctx, info)
                ctx.state(sc["p"], cuts, plan, tag)
            ctx.trace()
