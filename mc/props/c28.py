import csv
import functools
import inspect
import itertools
import os
import shutil
import tempfile

import numpy as np

from .. import cart, env, tree
from ..core import Violation
from ..refs import close

ID = "C28"
LEVEL = "model_checking"
TECH = "all short sequences of CART trees, training files and placements of " \
       "the preprocessing timeout, run through the experiment's main with the " \
       "classifier's arguments captured and the results file recomputed"
RULE = ("every combination of the bounds runs the real main on real files in a "
        "scratch directory; the constructor arguments are compared with a "
        "reference model of the tree problem, the results file with accuracies "
        "and counts recomputed from the trees; only structure runs stop at "
        "the fit")
BOUNDS = {"quick": "depth 1-2: sequences of up to 2 bootstrap trees, a full tree "
                   "and a later tree over 2 splits (depth 2: every second "
                   "pair of second and later tree; one in 5 of them runs the "
                   "fit, the others stop at the constructor), a long CART "
                   "fit at 12 places in both phases, below and above the "
                   "total limit; depth 6 (7): all "
                   "sequences of 3 (1) one-sided bootstrap trees over 3 splits; "
                   "real CART: all files of 3-4 rows, depth 1-2; 8 command "
                   "line variants",
          "thorough": "all pairs, three splits, files of 5 rows, depth 3, every fit "
                      "run"}
ASSUMES = ["splits have at least one row of the file on each side or come from "
           "the scripted trees; files on which CART finds no split at all are "
           "out of the domain"]
HANG_S = 400
TABLE = "mix"


# ---- scripted CART and captured classifier ---------------------------------

class Stop(Exception):
    pass


class World:
    """What main sees and what it did in one run."""

    def __init__(self, n, script=None, table=None, jump=None):
        self.jump, self.jumped = jump, 0
        self.n = n
        self.script = script
        self.table = table
        self.seen_full = False
        self.k = 0
        self.full = None
        self.calls = []

    def next_tree(self, rows):
        s = self.script
        if rows == self.n:
            self.seen_full, self.k = True, 0
            self.calls.append("full")
            return s["full"]
        seq = s["B"] if self.seen_full else s["A"]
        t = seq[min(self.k, len(seq) - 1)] if seq else None
        self.k += 1
        self.calls.append("B" if self.seen_full else "A")
        return t


def fake_cart(world):
    class Fake:
        def __init__(self, *a, **k):
            pass

        def fit(self, X, y, *a, **k):
            X = np.asarray(X)
            t = world.next_tree(len(X))
            self.t = t
            self.tree_ = cart.TreeArrays(t, world.table)
            if world.jump and len(world.calls) == world.jump[0]:
                world.jumped = world.jump[1]     # time passes during this fit
                env.CLOCK.now += world.jumped
            y = np.asarray(y)
            self.lab = {}
            for x, v in zip(X, y):
                self.lab.setdefault(cart.region(t, x, world.table),
                                    []).append(int(v))
            if len(X) == world.n:
                world.full = self
            return self

        def predict(self, X):
            out = []
            for x in np.asarray(X):
                v = self.lab.get(cart.region(self.t, x, world.table), [0])
                out.append(max(sorted(set(v)), key=v.count))
            return np.array(out)

        def score(self, X, y):
            return float(np.mean(self.predict(X) == np.asarray(y)))
    return Fake


def fake_split(*arrays, test_size=0.25, random_state=None, **k):
    n = len(arrays[0])
    m = max(1, n - max(1, int(n * test_size + 0.999)))
    out = []
    for a in arrays:
        out += [a[:m], a[m:]]
    return out


def walk_tree(t, row):
    """Leaf of a real or fake tree_ object."""
    i = 0
    while t.children_left[i] != -1:
        i = (t.children_left[i] if row[t.feature[i]] <= t.threshold[i]
             else t.children_right[i])
    return i


class Patched:
    def __init__(self, world, fit, real):
        self.world, self.fit, self.real = world, fit, real
        self.got = {}

    def __enter__(self):
        import col_gen_estimator as c
        import sklearn.model_selection as ms
        import sklearn.tree as st
        from examples import dtree_experiment as ex
        self.saved = []
        cls = c.DTreeClassifier
        orig_init, orig_fit = cls.__init__, cls.fit
        sig = inspect.signature(orig_init)
        got = self.got

        @functools.wraps(orig_init)
        def init(this, *a, **k):
            b = sig.bind(this, *a, **k)
            b.apply_defaults()
            got["args"] = dict(b.arguments)
            got["n"] = got.get("n", 0) + 1
            # as handed over: the estimator may work on these objects
            got["now"] = env.CLOCK.now
            orig_init(this, *a, **k)

        def fit(this, X, y, *a, **k):
            got["clf"], got["X"], got["y"] = this, X, y
            if not self.fit:
                raise Stop()
            return orig_fit(this, X, y, *a, **k)
        self.put(cls, "__init__", init)
        self.put(cls, "fit", fit)
        if not self.real:
            fake = fake_cart(self.world)
            for m in (st, ex):
                if hasattr(m, "DecisionTreeClassifier"):
                    self.put(m, "DecisionTreeClassifier", fake)
            for m in (ms, ex):
                if hasattr(m, "train_test_split"):
                    self.put(m, "train_test_split", fake_split)
        else:
            real = st.DecisionTreeClassifier
            world = self.world

            class Spy(real):
                def fit(self, X, y, *a, **k):
                    r = real.fit(self, X, y, *a, **k)
                    if len(X) == world.n:
                        world.full = self
                    return r
            for m in (st, ex):
                if hasattr(m, "DecisionTreeClassifier"):
                    self.put(m, "DecisionTreeClassifier", Spy)
        return self

    def put(self, obj, name, new):
        self.saved.append((obj, name, getattr(obj, name)))
        setattr(obj, name, new)

    def __exit__(self, *a):
        for obj, name, old in reversed(self.saved):
            setattr(obj, name, old)
        return False


# ---- one run ---------------------------------------------------------------

VARIANTS = [  # separator, header, results directory, labels
    (",", 0, None, None), (";", 0, "sub", None), (",", -1, None, None),
    ("\t", 0, "a b", "str"), (",", 0, None, "big"), (";", -1, "deep", "str"),
    (",", 0, "sub", "float"), (" ", 0, None, "big")]
LABELS = {None: lambda v: v, "str": lambda v: "xyz"[v] * (3 - v),
          "big": lambda v: [7, -2, 40][v], "float": lambda v: [0.5, 2.5, 1.5][v]}


def write(path, X, y, var):
    sep, header, _, lab = VARIANTS[var]
    with open(path, "w") as f:
        if header >= 0:
            f.write(sep.join(["f%d" % i for i in range(len(X[0]))] + ["y"])
                    + "\n")
        for r, v in zip(X, y):
            f.write(sep.join([str(a) for a in r] + [str(LABELS[lab](v))])
                    + "\n")


def experiment(depth, X, y, T, ty, script=None, table=None, limit=None,
               iters=None, var=0, jump=None, fit=True):
    """Run main.  jump: (number of the CART fit that takes a long time, how
    long)."""
    from examples import dtree_experiment as ex
    sep, header, sub, _ = VARIANTS[var]
    world = World(len(X), script, table, jump)
    d = tempfile.mkdtemp(prefix="mc28-")
    cwd = os.getcwd()
    try:
        os.chdir(d)
        os.makedirs("results/" + (sub or ""))
        write("train.csv", X, y, var)
        write("test.csv", T, ty, var)
        argv = ["-T", "train.csv", "-t", "test.csv", "-d", str(depth)]
        if sep != ",":
            argv += ["-S", sep]
        if header != 0:
            argv += ["-H", str(header)]
        if sub:
            argv += ["-r", sub]
        if iters is not None:
            argv += ["-i", str(iters)]
        if limit is not None:
            argv += ["-s", str(limit)]
        p = Patched(world, fit, script is None)
        stopped = False
        env.CLOCK.now = 1000.0
        with p:
            try:
                ex.main(argv)
            except Stop:
                stopped = True
        env.CLOCK.now = env.CLOCK.on_read = None
        rows = None
        if not stopped:
            out = []
            for base, _, files in os.walk("."):
                out += [os.path.join(base, f) for f in files
                        if f.endswith("_results.csv")]
            want = "./results/%sT_train.csv_d_%d_results.csv" % (
                sub + "/" if sub else "", depth)
            if out != [want]:
                raise Violation("results files", got=out, want=want)
            with open(want) as f:
                rows = list(csv.DictReader(f))
        return world, p.got, rows, world.jumped
    finally:
        env.CLOCK.now = env.CLOCK.on_read = None
        os.chdir(cwd)
        shutil.rmtree(d, ignore_errors=True)


def check_args(ctx, depth, X, y, nt, got, world, limit, iters, jumped, info):
    """The constructor arguments against the reference model.  Returns the
    problem, CART's training hits, and whether the fit can be judged."""
    judge = True

    def fail(msg, **k):
        raise Violation(msg, **dict(info, **k))
    if got.get("n") != 1:
        fail("the classifier is constructed %s times" % got.get("n"))
    a = got["args"]
    nn, nl = 2 ** depth - 1, 2 ** depth
    if a["tree_depth"] != depth:
        fail("tree depth", got=a["tree_depth"])
    if a["max_iterations"] != (-1 if iters is None else iters):
        fail("iteration limit", got=a["max_iterations"], want=iters)
    lim = 600 if limit is None else limit
    if lim > 0:
        left = lim - jumped
        if left <= 0 and close(a["time_limit"], left):
            ctx.known_or_fail(
                "time-limit-lifted", "a positive time limit used up by the "
                "preprocessing becomes no limit", got=a["time_limit"],
                elapsed=jumped, **info)
        elif not 0 < a["time_limit"] <= max(left, 1.0) + 1e-6:
            fail("time limit handed over", got=a["time_limit"], left=left)
    elif a["time_limit"] > 0:
        fail("time limit handed over", got=a["time_limit"], want="none")
    if [n.id for n in a["nodes"]] != list(range(nn)):
        fail("nodes", got=[n.id for n in a["nodes"]])
    if [lf.id for lf in a["leaves"]] != list(range(nl)):
        fail("leaves", got=[lf.id for lf in a["leaves"]])
    if [s.id for s in a["splits"]] != list(range(len(a["splits"]))):
        fail("splits", got=[s.id for s in a["splits"]])
    sp = [(int(s.feature), float(s.threshold)) for s in a["splits"]]
    if len(set(sp)) < len(sp):
        fail("a split is repeated", got=sp)
    cands = [list(map(int, n.candidate_splits)) for n in a["nodes"]]
    if depth >= 7 and not any(cands[1:]):
        ctx.known_or_fail("deep-no-candidates", "no node below the root has a "
                          "candidate split", **info)
        return None, None, False
    for n, c in enumerate(cands):
        if not c or len(set(c)) < len(c) or min(c) < 0 or max(c) >= len(sp):
            fail("candidate splits of node %d" % n, got=c, splits=len(sp))
    p = tree.Prob(depth, X, y, sp, cands, nt)
    for lf in a["leaves"]:
        want = (sorted(n for n, l in p.desc[lf.id] if l),
                sorted(n for n, l in p.desc[lf.id] if not l))
        if (sorted(lf.left_nodes), sorted(lf.right_nodes)) != want:
            fail("leaf %d" % lf.id, got=[lf.left_nodes, lf.right_nodes],
                 want=want)
    if sorted(int(t) for t in a["targets"]) != list(range(nt)):
        fail("targets", got=list(a["targets"]))
    for s in a["splits"]:
        want = {r for r in range(p.n) if p.left[s.id][r]}
        if set(s.left_rows) != want or \
                set(s.right_rows) != set(range(p.n)) - want:
            fail("row memberships of split %d" % s.id, got=[
                s.left_rows, s.right_rows], split=sp[s.id])
    seen, refs_ = {}, []
    infull = complete_nodes(world.full.tree_)
    for i, q in enumerate(a["initial_paths"]):
        u = tree.unpath(q)
        refs_.append(u)
        if sorted(n for n, _ in u[1]) != sorted(n for n, _ in p.desc[u[0]]):
            fail("nodes of an initial path", path=u)
        out = [(n, s) for n, s in u[1] if s not in cands[n]]
        # the listed finding is about paths that later CART trees really have
        if out and i >= nl and (info["real"] or any(
                set((n, sp[s]) for n, s in u[1]) <= set(
                    (n, (float(world.table[k][0]), float(world.table[k][1])))
                    for n, k in cart.walk(t)) for t in world.script["B"])):
            judge = False
            ctx.known_or_fail(
                "later-path-not-candidate", "an initial path of the second "
                "round of CART trees uses a split that is not a candidate of "
                "its node", path=u, candidates=cands, **info)
            continue
        for n, s in out:
            if i < nl and n not in infull and n and len(cands[n]) == 100 // nn:
                judge = False
                ctx.known_or_fail(
                    "initial-tree-split-dropped", "the initial tree uses a "
                    "split that was dropped from the candidates of a node that "
                    "CART's tree does not have", path=u, node=n, split=s,
                    candidates=cands, **info)
            else:
                fail("an initial path uses a split that is not a candidate of "
                     "its node", path=u, node=n, split=s, candidates=cands)
        c = p.counts(u[0], dict(u[1]))
        if c[u[2]] != u[3] or u[3] != max(c):
            fail("cost of an initial path", path=u, counts=c)
        if u[:2] in seen:
            fail("an initial path is repeated", path=u)
        seen[u[:2]] = u
    # a complete tree at least as good as CART's on the training file
    full = world.full.tree_
    best = 0
    regions = {}
    for x, v in zip(X, y):
        regions.setdefault(walk_tree(full, x), []).append(v)
    best = sum(max(v.count(t) for t in set(v)) for v in regions.values())
    have = best_initial(p, refs_)
    if have is None:
        fail("the initial paths contain no complete tree", paths=refs_)
    if have < best:
        fail("no initial tree is as good as CART's", got=have, want=best,
             paths=refs_)
    if len(a["data_rows"]) != p.n:
        fail("number of data rows", got=len(a["data_rows"]))
    for r, row in enumerate(a["data_rows"]):
        for s in {s for c in cands for s in c}:
            if (s in row.left_splits) == (s in row.right_splits) or \
                    (s in row.left_splits) != p.left[s][r]:
                fail("splits of row %d" % r, left=row.left_splits,
                     right=row.right_splits)
    if not np.array_equal(np.asarray(got["X"], dtype=float),
                          np.array(X, dtype=float)) or list(
                              map(int, got["y"])) != list(y):
        fail("training data of the fit", X=got["X"], y=got["y"])
    return p, best, judge


def complete_nodes(t):
    """Complete-tree numbers of the inner nodes of a tree_ object."""
    out = set()

    def go(i, node):
        if t.children_left[i] != -1:
            out.add(node)
            go(t.children_left[i], 2 * node + 1)
            go(t.children_right[i], 2 * node + 2)
    go(0, 0)
    return out


def best_initial(p, paths):
    """Best total cost of a complete tree made of the paths (search over
    consistent choices, leaf by leaf)."""
    by = {}
    for q in paths:
        by.setdefault(q[0], []).append(q)
    if len(by) < p.nl:
        return None
    best = [None]

    def go(leaf, asg, tot):
        if best[0] is not None and go.stop:
            return
        if leaf == p.nl:
            if best[0] is None or tot > best[0]:
                best[0] = tot
            return
        for q in by[leaf]:
            if all(asg.get(n, s) == s for n, s in q[1]):
                go(leaf + 1, {**asg, **dict(q[1])}, tot + q[3])
    # deep trees have many paths: any complete tree is enough there
    go.stop = False
    if p.nl > 8:
        # the first path of each leaf is the initial tree
        first = [by[l][0] for l in range(p.nl)]
        asg = {}
        if all(asg.setdefault(n, s) == s for q in first for n, s in q[1]):
            return sum(q[3] for q in first)
    go(0, {}, 0)
    return best[0]


def check_results(p, T, ty, rows, got, world, best, info):
    def fail(msg, **k):
        raise Violation(msg, **dict(info, **k))
    clf = got["clf"]
    if [r["name"] for r in rows] != ["CART", "CG1"]:
        fail("rows of the results file", got=[r["name"] for r in rows])
    full = world.full.tree_
    regions = {}
    for x, v in zip(p.X, p.y):
        regions.setdefault(walk_tree(full, x), []).append(v)
    if info["real"]:
        lab = {k: int(np.argmax(full.value[k][0])) for k in range(
            full.node_count)}
        pred = lambda x: lab[walk_tree(full, x)]
    else:
        pred = lambda x: int(world.full.predict([x])[0])

    def same(row, field, want):
        if not close(float(row[field]), want):
            fail("%s of %s in the results file" % (field, row["name"]),
                 got=row[field], want=want)
    same(rows[0], "train_accuracy",
         sum(pred(x) == v for x, v in zip(p.X, p.y)) / p.n)
    same(rows[0], "test_accuracy",
         sum(pred(x) == v for x, v in zip(T, ty)) / len(ty))
    sel = [tree.unpath(q) for q in clf.master_problem.selected_paths]
    bad = tree.valid_tree(p, sel)
    if bad:
        fail("the selected paths are not a tree", problems=bad, selected=sel)

    def cg(x):
        for leaf, asg, t, _ in sel:
            if p.follows(x, leaf, dict(asg)):
                return t
    hit = sum(cg(x) == v for x, v in zip(p.X, p.y))
    same(rows[1], "train_accuracy", hit / p.n)
    same(rows[1], "test_accuracy",
         sum(cg(x) == v for x, v in zip(T, ty)) / len(ty))
    if hit < best:
        fail("the learned tree is worse on the training file than CART's",
             got=hit, cart=best)
    mp = clf.master_problem
    same(rows[1], "total_iterations", clf.performed_iter_)
    same(rows[1], "num_improving_iter", clf.num_improving_iter_)
    same(rows[1], "sp_cols_added_heuristic", clf.num_col_added_sp_[0][0])
    same(rows[1], "sp_cols_added_ip", sum(clf.num_col_added_sp_[1]))
    same(rows[1], "master_num_cuts", mp.total_cuts_added)
    n = len(mp.paths_) - len(got["args"]["initial_paths"])
    if n != float(rows[1]["sp_cols_added_heuristic"]) + float(
            rows[1]["sp_cols_added_ip"]):
        fail("columns in the results file", got=[
            rows[1]["sp_cols_added_heuristic"], rows[1]["sp_cols_added_ip"]],
            want=n)


# ---- scenarios -------------------------------------------------------------

FILES = {   # training and test rows per table
    "bin2": ([[0, 0], [0, 1], [1, 0], [1, 1], [0, 0], [1, 1]],
             [0, 1, 1, 0, 0, 0]),
    "mix": ([[0, 0], [1, 1], [2, 0], [2, 1], [0, 1], [1, 0]],
            [0, 1, 0, 1, 1, 1]),
    "bin3": ([[0, 0, 0], [0, 1, 1], [1, 0, 1], [1, 1, 0], [0, 1, 0], [1, 1, 1]],
             [0, 1, 2, 0, 0, 1])}


def side(t, depth):
    """A deep tree: split t[0] at the root, t[1] at its left child, t[2] at its
    right child (None: leaf), t[3] below all of them."""
    def down(s, d):
        return None if s is None or d == 0 else (s, None, None)
    return (t[0], None if t[1] is None else (t[1], down(t[3], depth), None),
            None if t[2] is None else (t[2], None, None))


def scenarios(tier):
    more = tier == "thorough"
    out = []
    # all short sequences
    for tab, depth, ns in (("bin2", 1, 2), ("bin2", 2, 2), ("mix", 2, 3)):
        ts = cart.trees(depth, range(ns))
        if ns == 3 and not more:
            ts = ts[::3] + [None] if ts[0] is not None else ts[::3]
        for full in ts:
            for a0 in ts:
                out.append({"kind": "script", "t": tab, "depth": depth,
                            "ts": ts, "full": full, "a0": a0,
                            "one": ns == 3 and not more,
                            "half": not more and (tab, depth) == ("bin2", 2),
                            "every": 1 if more else 5})
    # timeouts
    for depth in (1, 2):
        ts = cart.trees(depth, range(2))
        for full in ts:
            out.append({"kind": "time", "t": "bin2", "depth": depth,
                        "full": full})
    # deep trees: the candidate lists are cut
    opts = [None, 0, 1, 2]
    for depth in (6, 7) + ((5, 8) if more else ()):
        for f in itertools.product([0, 1, 2], [None, 1], [None, 2]):
            if len(set(f)) == len(f):
                out.append({"kind": "deep", "t": "bin3", "depth": depth,
                            "full": list(f), "opts": opts})
    # real CART
    for tab, ns in (("bin2", (3, 4)), ("num1", (3, 4))):
        for n in ns + ((5,) if more else ()):
            for X, y in tree.datasets(tab, n):
                for depth in (1, 2) + ((3,) if more else ()):
                    out.append({"kind": "real", "X": X, "y": y,
                                "depth": depth, "var": 0})
    for var in range(len(VARIANTS)):
        for depth in (1, 2, 3):
            for it in (None, 1, 2):
                for tab in ("mix", "bin3"):
                    out.append({"kind": "real", "X": FILES[tab][0],
                                "y": FILES[tab][1], "depth": depth,
                                "var": var, "iters": it})
    return out


def one(ctx, kind, depth, X, y, T, ty, **k):
    lim, jump = k.get("limit"), k.get("jump")
    info = dict(kind=kind, depth=depth, X=X, y=y, real=k.get("script") is None,
                **{a: b for a, b in k.items()})
    nt = len(set(y))
    world, got, rows, jumped = experiment(depth, X, y, T, ty, **k)
    p, best, judge = check_args(ctx, depth, X, y, nt, got, world, lim,
                                k.get("iters"), jumped, info)
    if not judge:
        ctx.outcome("known finding")
        return
    if rows is not None:
        check_results(p, T, ty, rows, got, world, best, info)
        ctx.trace()
        ctx.outcome("reported results")
        if len(rows) > 1 and float(rows[1]["train_accuracy"]) > float(
                rows[0]["train_accuracy"]) + 1e-9:
            ctx.outcome("better than CART")
    else:
        ctx.outcome("handed over")
    ctx.step(len(world.calls) or 400)
    ctx.state(kind, depth, X, y, p.splits, p.cands,
              sorted(tree.unpath(q)[:2] for q in got["args"]["initial_paths"]))


def run(sc, ctx):
    depth = sc["depth"]
    if sc["kind"] == "real":
        var = sc.get("var", 0)
        lab = LABELS[VARIANTS[var][3]]
        order = sorted({lab(v) for v in sc["y"]})
        X, y = sc["X"], sc["y"]
        enc = [order.index(lab(v)) for v in y]
        if len(set(enc)) < 2 or not any(
                len({tuple([r[f]]) for r in X}) > 1 for f in range(len(X[0]))):
            return
        # main writes the raw labels; the reference uses the encoded ones
        T = X[::2] + X[:1]
        w = [v for v in y[::2] + y[:1]]
        run_real(ctx, depth, X, y, enc, T, w, [order.index(lab(v)) for v in w],
                 var, sc.get("iters"))
        return
    X, y = FILES[sc["t"]]
    table = tree.TABLES[sc["t"]][0]
    T, ty = X[1:4] + X[:1], y[1:4] + y[:1]
    full = tup(sc["full"])
    if sc["kind"] == "script":
        ts = [tup(t) for t in sc["ts"]]
        bs = [[t] for t in ts]
        k = 0
        for a1 in ([None] if sc["one"] else [()] + ts):
            A = [tup(sc["a0"])] + ([] if a1 == () else [a1])
            for ib, B in enumerate(bs):
                # quick: every second (second bootstrap tree, later tree) pair
                if sc["half"] and (ib + ([()] + ts).index(a1)) % 2:
                    continue
                if not any(walk for t in A + [full] for walk in cart.walk(t)):
                    continue            # CART found no split at all
                k += 1
                one(ctx, "script", depth, X, y, T, ty, table=table,
                    script={"A": A, "full": full, "B": B}, fit=k % sc["every"] == 0)
        return
    if sc["kind"] == "time":
        ts = cart.trees(depth, range(2))
        for A in itertools.product(ts[1:], repeat=2):
            A = list(A) + [ts[0]]
            for B in (ts[1], ts[-1]):
                for limit in (30, 600, 0):
                    for call in (1, 2, 3, 4, 10, 299, 300, 301, 302, 303, 400,
                                 401):
                        for amount in (limit / 3 + 1, limit * 2):
                            if limit == 0 and amount:
                                amount = 50
                            one(ctx, "time", depth, X, y, T, ty, table=table,
                                script={"A": A, "full": full, "B": [B]},
                                limit=limit, jump=(call, amount), fit=False)
                break
            break
        return
    if sc["kind"] == "deep":
        f = side(list(sc["full"]) + [None], depth)
        alt = [side(t, depth) for t in (
            [0, None, None, None], [0, 1, None, None], [0, 2, None, None],
            [0, None, 2, None], [1, 0, None, None])]
        for A in itertools.product(alt, repeat=3 if depth < 7 else 1):
            for lim in ((30, (3, 11)), (None, None)):
                one(ctx, "deep", depth, X, y, T, ty, table=table,
                    script={"A": list(A), "full": f, "B": [A[0]]},
                    limit=lim[0], jump=lim[1], fit=False)


def run_real(ctx, depth, X, y, enc, T, w, tenc, var, iters):
    info = dict(kind="real", depth=depth, X=X, y=y, var=VARIANTS[var],
                iters=iters, real=True)
    world, got, rows, _ = experiment(depth, X, y, T, w, var=var, iters=iters)
    p, best, judge = check_args(ctx, depth, X, enc, len(set(enc)), got, world,
                                None, iters, 0, info)
    if not judge:
        ctx.outcome("known finding")
        return
    check_results(p, T, tenc, rows, got, world, best, info)
    ctx.trace()
    ctx.step(401)
    ctx.outcome("reported results, real CART")
    ctx.state("real", depth, X, y, var, iters)
    ctx.sample({"X": X, "y": y, "depth": depth, "results": rows[1]})


def tup(t):
    return None if t is None else tuple(
        tup(v) if isinstance(v, (list, tuple)) else v for v in t)
