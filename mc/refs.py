"""Reference models, in plain Python; LP optima from HiGHS (scipy)."""
import itertools

import numpy as np
from scipy.optimize import linprog

TOL = 1e-6


def close(a, b, tol=TOL):
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


# --- boolean decision rules -------------------------------------------------

def sat_clause(row, clause):
    return all(row[j] for j in clause)


def all_clauses(m, maxlen):
    out = []
    for k in range(0, min(m, maxlen) + 1):
        out += [list(c) for c in itertools.combinations(range(m), k)]
    return out


def rule_cost(X, y, p, clauses):
    pos = sum(1 for r, t in zip(X, y) if t and not any(
        sat_clause(r, c) for c in clauses))
    neg = sum(1 for r, t in zip(X, y) if not t for c in clauses
              if sat_clause(r, c))
    return p * pos + neg


def complexity(clauses):
    return sum(len(c) + 1 for c in clauses)


def best_rule(X, y, C, p, clauses):
    best = None
    n = len(clauses)
    for mask in range(1 << n):
        s = [clauses[i] for i in range(n) if mask >> i & 1]
        if complexity(s) > C:
            continue
        c = rule_cost(X, y, p, s)
        if best is None or c < best:
            best = c
    return best


def bdr_lp(X, y, C, p, clauses):
    """Optimal value of the documented LP over the given clauses."""
    P = [r for r, t in zip(X, y) if t]
    N = [r for r, t in zip(X, y) if not t]
    k = len(clauses)
    c = [p] * len(P) + [sum(sat_clause(r, cl) for r in N) for cl in clauses]
    A, b = [], []
    for i, r in enumerate(P):
        row = [0.0] * (len(P) + k)
        row[i] = -1.0
        for j, cl in enumerate(clauses):
            if sat_clause(r, cl):
                row[len(P) + j] = -1.0
        A.append(row)
        b.append(-1.0)
    A.append([0.0] * len(P) + [len(cl) + 1.0 for cl in clauses])
    b.append(float(C))
    res = linprog(c, A_ub=A, b_ub=b, bounds=(0, None), method="highs")
    assert res.status == 0, res.message
    return res.fun


def bdr_cert(X, y, C, p, clauses, cc, cs):
    """Dual value of (cc, cs) and the largest violation of dual feasibility."""
    P = [r for r, t in zip(X, y) if t]
    N = [r for r, t in zip(X, y) if not t]
    viol = max([0.0, -cc] + [-v for v in cs] + [v - p for v in cs])
    for cl in clauses:
        lhs = sum(v for v, r in zip(cs, P) if sat_clause(r, cl)) \
            - (len(cl) + 1) * cc
        viol = max(viol, lhs - sum(sat_clause(r, cl) for r in N))
    return sum(cs) - C * cc, viol


def clause_redcost(X, y, cc, cs, cl):
    v = cc * (len(cl) + 1)
    k = 0
    for r, t in zip(X, y):
        s = sat_clause(r, cl)
        if t:
            if s:
                v -= cs[k]
            k += 1
        elif s:
            v += 1
    return v


def binary_rows(m):
    return [list(r) for r in itertools.product((0, 1), repeat=m)]


def multisets(m, n, sym=False):
    """All (X, y) with n rows over m binary features, both classes present, as
    multisets of (row, label); with sym one representative per renaming of the
    features."""
    kinds = [(r, t) for r in binary_rows(m) for t in (0, 1)]
    num = {(tuple(r), t): i for i, (r, t) in enumerate(kinds)}
    perms = []
    for pm in itertools.permutations(range(m)):
        perms.append([num[tuple(kinds[i][0][j] for j in pm), kinds[i][1]]
                      for i in range(len(kinds))])
    for c in itertools.combinations_with_replacement(range(len(kinds)), n):
        ys = [kinds[i][1] for i in c]
        if not 0 < sum(ys) < n:
            continue
        if sym and any(tuple(sorted(pm[i] for i in c)) < c for pm in perms):
            continue
        yield [kinds[i][0] for i in c], ys


def lcg(seed):
    """A fixed stream of 16-bit numbers."""
    v = seed * 7919 + 12345
    while True:
        v = (v * 1103515245 + 12345) & 0x7fffffff
        yield v >> 13 & 0xffff


def wide(m=12, n=14, k=0):
    """The k-th wide data set: m features of which the late ones matter, n rows
    with a repeated one and two in conflict (fixed: part of the bounds)."""
    g = lcg(k + 1)
    X = [[int(next(g) % 8 < 4) for j in range(m)] for i in range(n - 2)]
    y = [int(r[m - 1] and r[m - 2] or r[m - 3] and not r[0]) for r in X]
    for i in range(0, n - 2, 5):
        y[i] = 1 - y[i]
    X += [list(X[3]), list(X[1])]
    y += [1 - y[3], y[1]]
    return X, y


def near_full(m, k=0):
    """Data whose best clause has all but one of the m features: a positive row
    of ones next to negative rows with a single zero each."""
    rows = [([1] * m, 1)] + [([int(i != j) for j in range(m)], int(i == k))
                             for i in range(m)]
    rows += [([int(j % 3 != k % 3) for j in range(m)], 1), ([0] * m, 0)]
    rows = rows[k + 1:] + rows[:k + 1]
    return [list(r) for r, _ in rows], [t for _, t in rows]


def long_clauses(m):
    """Clauses of three to m features."""
    return [list(range(n)) for n in range(3, m)] + \
        [list(range(m - n, m)) for n in range(3, m + 1)]


def best_rule_dfs(X, y, C, p, clauses):
    """As best_rule, for more clauses: depth first over affordable sets."""
    P = [r for r, t in zip(X, y) if t]
    N = [r for r, t in zip(X, y) if not t]
    info = []
    for c in clauses:
        m = sum(1 << i for i, r in enumerate(P) if sat_clause(r, c))
        info.append((m, sum(sat_clause(r, c) for r in N), len(c) + 1))
    best = [p * len(P)]
    full = (1 << len(P)) - 1

    def rec(i, covered, neg, comp):
        v = neg + p * bin(full & ~covered).count("1")
        best[0] = min(best[0], v)
        for j in range(i, len(info)):
            m, ng, c = info[j]
            if comp + c <= C and neg + ng < best[0] and m & ~covered:
                rec(j + 1, covered | m, neg + ng, comp + c)
    rec(0, 0, 0, 0)
    return best[0]


def heavy(k=0, n=150):
    """n rows, most of them negative and repeated, over 5 features: a few
    positives in conflict with many negatives each."""
    g = lcg(300 + k)
    X = [[int(next(g) % 2) for j in range(5)] for i in range(9)]
    y = [1, 1, 0, 1, 1, 0, 1, 1, 0]
    neg = [list(r) for r, t in zip(X, y) if t] + [[1] * 5, [0] * 5]
    w = [next(g) % 40 + 1 for _ in neg]
    i = 0
    while len(X) < n:
        # the counts are different, the rows interleaved
        j = i % len(neg)
        i += 1
        if w[j]:
            w[j] -= 1
        elif sum(w):
            continue
        X.append(list(neg[j]))
        y.append(0)
    return X, y


def ident(m=60, zeros=200):
    """m positives with one feature each; a negative row of ones and `zeros`
    negative rows of zeros."""
    X, y = [[1] * m], [0]
    for j in range(m):
        X.append([int(i == j) for i in range(m)])
        y.append(1)
        for _ in range(zeros * (j + 1) // m - zeros * j // m):
            X.append([0] * m)
            y.append(0)
    return X, y


def best_ident(m, zeros, C, p):
    """Cheapest rule over the empty clause and the single features of
    ident(m, zeros): k singles cover k positives and the negative k times."""
    costs = [p * (m - k) + k for k in range(min(m, int(C // 2)) + 1)]
    return min(costs + [zeros + 1])


def knapsack(k=0, groups=14):
    """Groups of positives, each with features of its own that form its
    clause: choosing clauses within the budget is a knapsack problem.  Also
    the groups as (clause, number of positives) and a number of negatives."""
    g = lcg(600 + k)
    lens = [1 + next(g) % 6 for _ in range(groups)]
    sizes = [2 + 3 * n + next(g) % 5 for n in lens]
    m = sum(lens)
    X, y, gr, at = [], [], [], 0
    for n, w in zip(lens, sizes):
        cl = list(range(at, at + n))
        at += n
        gr.append((cl, w))
        X += [[int(j in cl) for j in range(m)]] * w
        y += [1] * w
    for i in range(0, 200):
        j = (i * 67 + 5) % (len(X) + 1)
        X.insert(j, [0] * m)
        y.insert(j, 0)
    return X, y, gr


def best_knapsack(gr, C, p, negatives):
    best = [0] * (int(C) + 1)
    for cl, w in gr:
        c = len(cl) + 1
        for b in range(int(C), c - 1, -1):
            best[b] = max(best[b], best[b - c] + w)
    cost = p * (sum(w for _, w in gr) - best[int(C)])
    return min(cost, negatives) if C >= 1 else cost


def tall(m=24, n=100, k=0):
    """n rows over m features of which the late ones matter."""
    g = lcg(400 + k)
    X = [[int(next(g) % 8 < 5) for j in range(m)] for i in range(n)]
    y = [int(r[m - 1] and r[m - 2] or r[m - 4] and not r[0]) for r in X]
    for i in range(0, n, 7):
        y[i] = 1 - y[i]
    return X, y
