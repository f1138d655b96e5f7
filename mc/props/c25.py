import itertools

from .. import tree
from ..core import Violation

ID = "C25"
LEVEL = "exploration"
TECH = ("all pairs of paths of an alphabet in every listing order "
        "against the definition of equality")
RULE = ("every pair of paths of one alphabet (leaf, split per node, target, "
        "cost) with every listing order, number and origin; compared with the "
        "definition in both directions; triples follow because the definition "
        "is an equivalence. Non-trivial: a distinct pair differing in at most "
        "one component, or in order only")
BOUNDS = {"quick": "depth 1..3, splits from 3 values (2 at depth 3), 2 costs, "
                   "2 targets, all leaves of depth 1..2 and 3 leaves of depth "
                   "3, paths of different depths compared too; depth 2 over 7 "
                   "split numbers up to 1000 with costs up to 1e6 and nearly "
                   "equal ones; depth 4 and 9 with splits from 2 values up "
                   "to two deviations, depth 24 with one, listed in 6 orders",
          "thorough": "depth 3 with 3 splits and 4 leaves"}
ASSUMES = []


def alphabet(depth, ns, leaves, costs, targets):
    out = []
    for leaf in leaves:
        nodes = sorted(n for n, _ in tree.descent(leaf, depth))
        for combo in itertools.product(
                range(ns) if isinstance(ns, int) else ns, repeat=depth):
            for t in targets:
                for c in costs:
                    out.append((leaf, tuple(zip(nodes, combo)), t, c))
    return out


def groups(tier):
    th = tier == "thorough"
    return [
        alphabet(1, 3, (0, 1), (0, 1, 2.0), (0, 1)) +
        alphabet(2, 2, (0, 1), (0, 1), (0, 1)),
        alphabet(2, 3, (0, 1, 2, 3), (0, 3), (0, 1)),
        alphabet(3, 3 if th else 2, (0, 3, 4, 7) if th else (0, 3, 4),
                 (1, 2), (0, 1)),
        alphabet(2, (0, 1, 2, 10, 100, 101, 1000), (0, 3), (5,), (0, 1)),
        alphabet(2, (0, 1000), (0, 2), (0.5, 0.5 + 1e-7, 1000, 1000000,
                                        1000001), (0, 1, 300)),
        deep(4, (0, 7, 15)), deep(9, (0, 255, 299, 300)),
        deep(24, (0, 2 ** 24 - 299), True),
    ]


def deep(depth, leaves, few=False):
    """Paths with at most two nodes (few: one) not using split 500."""
    out = []
    for leaf in leaves:
        nodes = sorted(n for n, _ in tree.descent(leaf, depth))
        for i in range(depth):
            for j in range(i, i + 1 if few else depth):
                out.append((leaf, tuple(
                    (n, 500 + (k == i) + 7 * (k == j))
                    for k, n in enumerate(nodes)), (i + j) % 2, 300 + i % 2))
    return out


def orders(nodes):
    """All listing orders of up to three nodes, 6 of more."""
    if len(nodes) < 4:
        return list(itertools.permutations(nodes))
    n = list(nodes)
    return [tuple(x) for x in (n, n[::-1], n[1:] + n[:1], n[::2] + n[1::2],
                               n[-1:] + n[:-1], n[1::2] + n[::2])]


def fresh(x):
    """Equal number, another object."""
    return int(str(x)) if isinstance(x, int) else float(repr(x))


def scenarios(tier):
    out = []
    for g, al in enumerate(groups(tier)):
        for i in range(0, len(al), 6):
            out.append({"g": g, "lo": i, "hi": min(i + 6, len(al)),
                        "tier": tier})
    return out


def run(sc, ctx):
    al = groups(sc["tier"])[sc["g"]]
    for a in al[sc["lo"]:sc["hi"]]:
        a = (a[0], tuple(map(tuple, a[1])), a[2], a[3])
        oa = orders(a[1])
        for b in al:
            want = a == b
            near = (a[0] == b[0]) + (a[1] == b[1]) + (a[2] == b[2]) + (
                a[3] == b[3]) >= 3
            ob = orders(b[1])
            pairs = [(oa[0], ob[0]), (oa[-1], ob[0])]
            if near:
                pairs = list(itertools.product(oa, ob))
            for k, (x, z) in enumerate(pairs):
                p = tree.mkpath((a[0], x, a[2], a[3]), id=k,
                                initial=bool(k % 2))
                q = tree.mkpath((fresh(b[0]), tuple(
                    (fresh(n), fresh(v)) for n, v in z), fresh(b[2]),
                    fresh(b[3])), id=7)
                before = (dict(p.__dict__, node_ids=list(p.node_ids),
                               splits=list(p.splits)),
                          dict(q.__dict__, node_ids=list(q.node_ids),
                               splits=list(q.splits)))
                r1, r2, r3 = p.is_same_as(q), q.is_same_as(p), p.is_same_as(p)
                ctx.eval(3)
                if bool(r1) != want or bool(r2) != want or not r3:
                    raise Violation("path identity is wrong", a=(a, x),
                                    b=(b, z), forward=r1, backward=r2,
                                    self_=r3, want=want)
                if before != (p.__dict__, q.__dict__):
                    raise Violation("comparing changed a path", a=a, b=b)
            if near:
                ctx.case(a, b)
            ctx.outcome("same" if want else "different")
    ctx.sample({"a": a, "b": b, "same": want})
