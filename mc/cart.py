"""CART trees as nested tuples and as sklearn-style arrays.

A tree is None (a leaf) or (split index, left, right)."""
import itertools

import numpy as np


def trees(depth, splits, leaf=True):
    """All trees of depth at most `depth` over the split indices; a split is
    not repeated on a path (CART never does)."""
    out = [None] if leaf else []
    if depth == 0:
        return out
    for s in splits:
        rest = [x for x in splits if x != s]
        sub = trees(depth - 1, rest)
        for l, r in itertools.product(sub, sub):
            out.append((s, l, r))
    return out


class TreeArrays:
    """The attributes of sklearn's tree_ object the experiment reads."""

    def __init__(self, t, table):
        self.children_left, self.children_right = [], []
        self.feature, self.threshold = [], []

        def add(n):
            i = len(self.feature)
            self.children_left.append(-1)
            self.children_right.append(-1)
            self.feature.append(-2 if n is None else table[n[0]][0])
            self.threshold.append(-2.0 if n is None else table[n[0]][1])
            if n is not None:
                self.children_left[i] = add(n[1])
                self.children_right[i] = add(n[2])
            return i
        add(t)
        self.node_count = len(self.feature)
        self.children_left = np.array(self.children_left)
        self.children_right = np.array(self.children_right)
        self.feature = np.array(self.feature)
        self.threshold = np.array(self.threshold)
        self.value = np.zeros((self.node_count, 1, 2))


def walk(t, node=0):
    """(complete-tree node, split index) of every split of the tree."""
    if t is None:
        return []
    return [(node, t[0])] + walk(t[1], 2 * node + 1) + walk(t[2], 2 * node + 2)


def region(t, row, table):
    """Complete-tree number of the tree's leaf a row reaches, with depth."""
    node, d = 0, 0
    while t is not None:
        f, th = table[t[0]]
        if row[f] <= th:
            t, node = t[1], 2 * node + 1
        else:
            t, node = t[2], 2 * node + 2
        d += 1
    return node, d


def complete(t, depth):
    if depth == 0:
        return True
    return t is not None and complete(t[1], depth - 1) and complete(
        t[2], depth - 1)
