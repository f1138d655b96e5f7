import itertools
import math
from fractions import Fraction

from ..core import Violation
from ..refs import lcg

ID = "C22"
LEVEL = "model_checking"
TECH = "all push/clear histories up to a depth, compared step by step with an " \
       "exact rational reference"
RULE = ("every history over {clear, push v} for each value alphabet up to the "
        "depth bound; after every operation the count, mean, variance and "
        "standard deviation are compared with exact rational arithmetic over "
        "the values pushed since the last clear; a second object fed a "
        "different history must not be affected")
BOUNDS = {"quick": "four alphabets of 4 values (small, mixed sign, large "
                   "offset 1e8, mixed magnitude), histories of length up to 7; "
                   "every word of 3 values repeated up to 66 values, with at "
                   "most one clear (at 12 positions), compared at every step; "
                   "1200 values with a clear never or every 7, 100 or 257",
          "thorough": "histories of length up to 8, plus all 7-value "
                      "histories of length 6"}
ASSUMES = ["floating-point results are compared with relative tolerance 1e-7 "
           "of the scale the data allow"]

ALPHA = [[0.0, 1.0, -1.0, 0.25],
         [-0.3, 5, -0.3, -2.75],
         [1e8, 1e8 + 1, 1e8 - 2, 1e8 + 4],
         [1e-3, 1000.0, -1000.0, 0.0]]
WIDE = [0.0, 1.0, -1.0, 0.1, 7.0, -2.5, 100.0]


def scenarios(tier):
    n = 7 if tier == "quick" else 8
    out = []
    for a in range(len(ALPHA)):
        for first in itertools.product(range(5), repeat=2):
            out.append({"values": ALPHA[a], "first": list(first), "n": n})
    for a in range(len(ALPHA)):
        for first in itertools.product(range(4), repeat=2):
            out.append({"values": ALPHA[a], "first": list(first), "long": 66})
        for every in (0, 7, 100, 257):
            for step in (1, 4, 50):
                out.append({"values": ALPHA[a], "very": every, "step": step})
    if tier == "thorough":
        for first in itertools.product(range(8), repeat=2):
            out.append({"values": WIDE, "first": list(first), "n": 6})
    return out


class Ref:
    """Sum and sum of squares of what was pushed, exactly."""

    def __init__(self):
        self.clear()

    def clear(self):
        self.k, self.s, self.q, self.m = 0, Fraction(0), Fraction(0), 0.0

    def push(self, x):
        f = Fraction(x)
        self.k += 1
        self.s += f
        self.q += f * f
        self.m = max(self.m, abs(x))

    def get(self):
        if not self.k:
            return 0, 0.0, 0.0, 0.0
        mean = self.s / self.k
        var = (self.q - self.s * mean) / (self.k - 1) if self.k > 1 else 0
        return self.k, float(mean), float(var), self.m


def compare(st, ref, hist, ctx):
    n, mean, var, m = ref.get()
    gn, gm, gv = st.num_data_values(), st.mean(), st.variance()
    gs = st.standard_deviation()
    info = dict(history=hist, got=[gn, gm, gv, gs], want=[n, mean, var])
    if gn != n:
        raise Violation("number of values", **info)
    if not abs(gm - mean) <= 1e-12 * (1 + m):
        raise Violation("mean", **info)
    if not gv >= 0:
        raise Violation("negative variance", **info)
    # rounding of a stable method: relative in the variance, plus the error
    # that an error of the mean of a few ulp contributes
    if not abs(gv - var) <= 1e-7 * var + 1e-11 * (1 + m):
        raise Violation("variance", **info)
    if not abs(gs - math.sqrt(gv)) <= 1e-9 * (1 + gs):
        raise Violation("standard deviation", **info)
    if n < 2 and gv != 0:
        raise Violation("variance of fewer than two values", **info)


def run_long(sc, ctx):
    import col_gen_estimator as c
    vals = sc["values"]
    for third in range(4):
        word = list(sc["first"]) + [third]
        for at in (None, 1, 2, 3, 5, 8, 13, 16, 17, 32, 33, 50, 64):
            st, ref = c.RunningStat(), Ref()
            hist = []
            for i in range(sc["long"]):
                if i == at:
                    st.clear()
                    ref.clear()
                    hist.append("clear")
                    compare(st, ref, hist, ctx)
                v = vals[word[i % 3]]
                st.push(v)
                ref.push(v)
                hist.append(v)
                ctx.step()
                compare(st, ref, hist, ctx)
            ctx.trace()
            ctx.state(vals, word, at)


def run_very(sc, ctx):
    import col_gen_estimator as c
    st, ref = c.RunningStat(), Ref()
    g = lcg(sc["very"] + sc["step"])
    for i in range(1200):
        if sc["very"] and i % sc["very"] == sc["very"] - 1:
            st.clear()
            ref.clear()
        v = sc["values"][next(g) % 4] * (1 + i % 3)
        st.push(v)
        ref.push(v)
        ctx.step()
        if i % sc["step"] == 0:
            compare(st, ref, "%s step %d" % (sc, i), ctx)
            ctx.state("very", sc["values"], sc["very"], sc["step"], i)
    ctx.trace()


def run(sc, ctx):
    if "very" in sc:
        return run_very(sc, ctx)
    if "long" in sc:
        return run_long(sc, ctx)
    import col_gen_estimator as c
    vals = sc["values"]
    k = len(vals) + 1
    other = c.RunningStat()
    oref = Ref()
    for v in (3.0, 4.5, 11.0):
        other.push(v)
        oref.push(v)
    for rest in itertools.product(range(k), repeat=sc["n"] - 2):
        ops = tuple(sc["first"]) + rest
        st, ref = c.RunningStat(), Ref()
        for i, o in enumerate(ops):
            if o == len(vals):
                st.clear()
                ref.clear()
            else:
                st.push(vals[o])
                ref.push(vals[o])
            ctx.step()
            # prefixes shared with earlier histories were compared there
            if i == len(ops) - 1 or all(x == 0 for x in ops[i + 1:]):
                compare(st, ref, [("clear" if x == len(vals) else vals[x])
                                  for x in ops[:i + 1]], ctx)
        ctx.trace()
        ctx.state(vals, sorted(ops[len(ops) - ops[::-1].index(len(vals)):]
                               if len(vals) in ops else ops),
                  len(vals) in ops)
        ctx.outcome("n=%d" % ref.k)
    compare(other, oref, "a second object", ctx)
    ctx.sample({"values": vals, "history": ops})
