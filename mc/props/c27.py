import itertools

from ..core import Violation

ID = "C27"
LEVEL = "exploration"
TECH = "every table of candidate counts, order and bound"
RULE = ("every assignment of counts to the candidates of every node, every "
        "candidate order of the bounds and both bounds; the result is checked "
        "against the definition (ties may be broken either way). Non-trivial: "
        "a distinct input in which some node loses a candidate")
BOUNDS = {"quick": "1 and 3 nodes, 4 splits, candidate lists of length 1..4, "
                   "counts 0..3, bounds 1..3 for root and others",
          "thorough": "counts 0..4 and up to 5 candidates for one node"}
ASSUMES = ["every node has at least one candidate, as the experiment ensures"]


def scenarios(tier):
    out = []
    cmax = 4 if tier == "quick" else 5
    for k in range(1, cmax + 1):
        for perm in itertools.permutations(range(cmax), k):
            out.append({"kind": "one", "perm": list(perm), "cm": cmax})
    lists = [[0], [1, 0], [2, 1, 3], [3, 0, 1, 2], [1, 3]]
    for a in lists:
        for b in lists:
            for c in lists:
                if len(a) + len(b) + len(c) <= 8:
                    out.append({"kind": "three", "lists": [a, b, c]})
    return out


def check(lists, counts, q0, q1, nsplits, ctx):
    import col_gen_estimator as c
    from examples import dtree_experiment as ex
    nodes, splits = [], []
    for i in range(len(lists)):
        n = c.Node()
        n.id = i
        n.candidate_splits = list(lists[i])
        n.candidate_splits_count = list(counts[i])
        n.last_split = lists[i][-1]
        nodes.append(n)
    for i in range(nsplits):
        s = c.Split()
        s.id, s.feature, s.threshold = i, i % 2, i / 2
        s.removed = i % 2 == 0
        splits.append(s)
    res = ex.reduce_splits(list(nodes), splits, q0, q1)
    ctx.eval()
    info = dict(candidates=lists, counts=counts, q_root=q0, q_node=q1,
                got=[(n.id, n.candidate_splits, n.candidate_splits_count)
                     for n in res])
    if [n.id for n in res] != list(range(len(lists))):
        raise Violation("nodes lost or reordered", **info)
    cut = False
    for i, n in enumerate(res):
        q = q0 if i == 0 else q1
        orig = dict(zip(lists[i], counts[i]))
        got = list(n.candidate_splits)
        if len(got) != min(q, len(lists[i])) or len(set(got)) != len(got):
            raise Violation("number of kept candidates", node=i, **info)
        if any(s not in orig for s in got):
            raise Violation("candidate invented", node=i, **info)
        if [orig[s] for s in got] != list(n.candidate_splits_count):
            raise Violation("counts do not match their splits", node=i, **info)
        want = sorted(counts[i], reverse=True)[:q]
        if sorted(n.candidate_splits_count, reverse=True) != want:
            raise Violation("not the most frequent candidates", node=i, **info)
        cut = cut or len(got) < len(lists[i])
    kept = {s for n in res for s in n.candidate_splits}
    for s in splits:
        if bool(s.removed) != (s.id not in kept):
            raise Violation("removed flag of split %d" % s.id,
                            flag=s.removed, **info)
    if cut:
        ctx.case(lists, counts, q0, q1)
    ctx.outcome("cut" if cut else "all kept")


def run(sc, ctx):
    if sc["kind"] == "one":
        perm = sc["perm"]
        for cnt in itertools.product(range(4 if sc["cm"] == 4 else 5),
                                     repeat=len(perm)):
            for q in (1, 2, 3):
                check([perm], [list(cnt)], q, 1, sc["cm"] + 1, ctx)
        ctx.sample({"candidates": perm, "counts": cnt})
        return
    ls = sc["lists"]
    flat = sum(len(x) for x in ls)
    for cnt in itertools.product((0, 1, 2) if flat <= 7 else (1, 2),
                                 repeat=flat):
        it = iter(cnt)
        counts = [[next(it) for _ in x] for x in ls]
        for q0, q1 in ((1, 1), (2, 1), (1, 2), (3, 2), (2, 3)):
            check(ls, counts, q0, q1, 5, ctx)
