from ..core import Violation
from ..refs import lcg

ID = "C10"
LEVEL = "model_checking"
TECH = ("every use, and every pair of consecutive uses, of one leaf "
        "or path object against the descent of the complete tree")
RULE = ("every (depth, leaf) of the bounds and every sequence of two uses of "
        "one Leaf or Path object; compared with the descent from node 0; and "
        "every assignment of branch outcomes to nodes reaches exactly one leaf")
BOUNDS = {"quick": "depth 1..7 alone, all ordered pairs of uses for depth "
                   "1..4, all branch outcomes for depth 1..3 (2^1, 2^3, 2^7)",
          "thorough": "depth 1..10 alone, pairs for depth 1..5"}
ASSUMES = []


def descent(leaf, depth):
    """[(node, goes_left)] from the root to the leaf counted left to right."""
    node, out = 0, []
    for k in range(depth):
        left = not (leaf >> (depth - 1 - k)) & 1
        out.append((node, left))
        node = 2 * node + 1 if left else 2 * node + 2
    return out


def scenarios(tier):
    th = tier == "thorough"
    out = [{"kind": "single", "depth": d}
           for d in range(1, 11 if th else 8)]
    out += [{"kind": "reach", "depth": d} for d in (1, 2, 3)]
    out += [{"kind": "deep", "depth": d} for d in range(8, 21)]
    out += [{"kind": "reuse", "depth": k} for k in range(12)]
    dmax = 5 if th else 4
    out += [{"kind": "pairs", "depth": d, "dmax": dmax}
            for d in range(1, dmax + 1)]
    return out


def check_leaf(lf, leaf, depth, what):
    want = descent(leaf, depth)
    L = sorted(n for n, l in want if l)
    R = sorted(n for n, l in want if not l)
    if (sorted(lf.left_nodes) != L or sorted(lf.right_nodes) != R
            or lf.id != leaf):
        raise Violation("leaf ancestors are wrong (%s)" % what, leaf=leaf,
                        depth=depth, left=lf.left_nodes, right=lf.right_nodes,
                        id=lf.id, want_left=L, want_right=R)


def check_path(p, leaf, depth, what):
    want = sorted(n for n, l in descent(leaf, depth))
    if sorted(p.node_ids) != want or p.leaf_id != leaf:
        raise Violation("path nodes are wrong (%s)" % what, leaf=leaf,
                        depth=depth, nodes=p.node_ids, want=want)


def run(sc, ctx):
    from col_gen_estimator import Leaf, Path
    d = sc["depth"]
    if sc["kind"] == "single":
        for leaf in range(2 ** d):
            lf, p = Leaf(), Path()
            lf.create_leaf(leaf, d)
            p.set_leaf(leaf, d)
            check_leaf(lf, leaf, d, "fresh")
            check_path(p, leaf, d, "fresh")
            ctx.step(2)
            ctx.trace()
            ctx.state("single", d, leaf)
        ctx.outcome("single")
    elif sc["kind"] == "deep":
        n = 2 ** d
        for leaf in sorted(set(list(range(0, n, max(1, n // 300))) +
                               [2 ** k for k in range(d)] +
                               [n - 1 - 2 ** k for k in range(d)] + [n - 1])):
            lf, p = Leaf(), Path()
            lf.create_leaf(leaf, d)
            p.set_leaf(leaf, d)
            check_leaf(lf, leaf, d, "deep")
            check_path(p, leaf, d, "deep")
            ctx.step(2)
            ctx.trace()
            ctx.state("single", d, leaf)
        ctx.outcome("deep")
    elif sc["kind"] == "reuse":
        g = lcg(77 + d)
        lf, p = Leaf(), Path()
        old = []
        for k in range(300):
            dd = 1 + next(g) % (4 if d % 2 else 20)
            leaf = (next(g) << 8 ^ next(g)) % 2 ** dd
            lf.create_leaf(leaf, dd)
            p.set_leaf(leaf, dd)
            other = Leaf()
            other.create_leaf(leaf, dd)
            check_leaf(lf, leaf, dd, "use %d" % k)
            check_path(p, leaf, dd, "use %d" % k)
            old.append((other, leaf, dd))
            ctx.step(3)
            ctx.state("reuse", d, k)
        for o, leaf, dd in old:
            check_leaf(o, leaf, dd, "earlier object")
        ctx.trace()
        ctx.outcome("reuse")
        d = 3
    elif sc["kind"] == "reach":
        leaves = []
        for leaf in range(2 ** d):
            lf = Leaf()
            lf.create_leaf(leaf, d)
            leaves.append(lf)
        n = 2 ** d - 1
        for mask in range(1 << n):
            hit = [lf.id for lf in leaves
                   if all(mask >> v & 1 for v in lf.left_nodes)
                   and not any(mask >> v & 1 for v in lf.right_nodes)]
            node = 0
            while node < n:
                node = 2 * node + 1 if mask >> node & 1 else 2 * node + 2
            ctx.step()
            ctx.trace()
            ctx.state("reach", d, mask)
            if hit != [node - n]:
                raise Violation("branch outcomes must reach exactly one leaf",
                                depth=d, outcomes=mask, reached=hit,
                                want=node - n)
        ctx.outcome("reach")
    else:
        for l1 in range(2 ** d):
            for d2 in range(1, sc["dmax"] + 1):
                for l2 in range(2 ** d2):
                    lf, p = Leaf(), Path()
                    lf.create_leaf(l1, d)
                    p.set_leaf(l1, d)
                    other = Leaf()
                    other.create_leaf(l2, d2)
                    lf.create_leaf(l2, d2)
                    p.set_leaf(l2, d2)
                    check_leaf(lf, l2, d2, "second use")
                    check_leaf(other, l2, d2, "other object")
                    check_path(p, l2, d2, "second use")
                    ctx.step(5)
                    ctx.trace()
                    ctx.state("pair", d, l1, d2, l2)
        ctx.outcome("pairs")
    ctx.sample({"depth": d, "leaf": 2 ** d - 1,
                "descent": descent(2 ** d - 1, d)})
