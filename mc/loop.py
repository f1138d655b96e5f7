"""User-supplied master and subproblem stubs for the column generation loop,
answered by a chooser, with a complete log; and the boring reference loop."""
import numpy as np

from . import env
from .core import Violation

_CLS = None


def classes():
    global _CLS
    if _CLS is not None:
        return _CLS
    from col_gen_estimator import _col_gen_classifier as cg

    # what the base constructors set, built once (they create solvers)
    mbase = dict(cg.BaseMasterProblem().__dict__)
    sbase = dict(cg.BaseSubproblem().__dict__)

    class M(cg.BaseMasterProblem):
        def __init__(self, w):
            self.__dict__.update(mbase)
            self.w = w

        def generate_mp(self, X, y):
            self.w.ev("generate_mp", X=np.array(X), y=np.array(y))

        def add_column(self, column):
            return self.w.add(column)

        def solve_rmp(self, solver_params=''):
            return self.w.solve(solver_params)

        def solve_ip(self, solver_params=''):
            return self.w.ip(solver_params)

        def rmp_objective_improved(self):
            return self.w.improved()

    class S(cg.BaseSubproblem):
        def __init__(self, w, level, ind):
            self.__dict__.update(sbase)
            self.w, self.level, self.ind = w, level, ind

        def update_subproblem(self, X, y, dual_costs):
            self.w.update(self.level, self.ind, X, y, dual_costs)

        def generate_columns(self, X, y, dual_costs, params):
            return self.w.price(self.level, self.ind, X, y, dual_costs, params)

    _CLS = (cg, M, S)
    return _CLS


class Col:
    """A column: neighbours are equal though different, every third is
    false."""

    def __init__(self, n):
        self.n = n

    def __eq__(self, other):
        return isinstance(other, Col) and self.n // 2 == other.n // 2

    def __hash__(self):
        return hash(self.n // 2)

    def __bool__(self):
        return self.n % 3 != 2

    def __repr__(self):
        return "column %d" % self.n


class World:
    """Answers of the environment for one execution, and the log."""

    def __init__(self, pick, horizon, batches=((), ("A",)), improve=False,
                 clock=False, jump=0.0, ip_ok=True):
        self.pick = pick
        self.horizon = horizon
        self.batches = batches      # alphabet of answers: tuples of A / R
        self.improve = improve
        self.log = []
        self.it = 0
        self.ncol = 0
        self.fate = {}              # column -> accepted?
        self.answers = {}           # (it, level, ind) -> tuple
        self.impr = {}
        self.clock = clock
        self.jump = jump
        self.ip_ok = ip_ok
        self.dur = {}               # component -> time
        self.unit = 0

    # -- helpers
    def spend(self, comp, jumpable=True):
        """Virtual duration of one component call."""
        if not self.clock:
            self.log[-1]["end"] = None
            return
        self.unit += 1
        # small, all different, never adding up to the limit on their own
        d = 2.0 ** -12 * (1 + self.unit)
        if jumpable and self.jump and self.pick(2, "jump"):
            d += self.jump
        env.CLOCK.advance(d)
        self.log[-1]["end"] = env.CLOCK.now
        self.dur[comp] = self.dur.get(comp, 0.0) + d

    def ev(self, kind, **kw):
        kw["kind"] = kind
        kw["t"] = env.CLOCK.now
        kw["end"] = kw["t"]
        self.log.append(kw)
        if kind == "generate_mp":
            self.spend("generate_mp")

    def solve(self, params):
        self.it += 1
        duals = ("duals", self.it, (0.5 * self.it, [self.it, 2 * self.it]))
        self.ev("solve_rmp", it=self.it, params=params, duals=duals)
        self.impr[self.it] = bool(self.improve and self.pick(2, "impr"))
        self.spend("master")
        return duals

    def improved(self):
        return self.impr[self.it]

    def update(self, l, i, X, y, duals):
        self.ev("update", level=l, ind=i, it=self.it, duals=duals,
                X=np.array(X), y=np.array(y))
        self.spend(("sp", l, i))

    def price(self, l, i, X, y, duals, params):
        self.ev("price", level=l, ind=i, it=self.it, duals=duals,
                params=params, X=np.array(X), y=np.array(y))
        key = (self.it, l, i)
        if self.it > self.horizon:
            ans = ()
        else:
            ans = self.batches[self.pick(len(self.batches), "batch")]
        self.answers.setdefault(key, []).append(ans)
        self.spend(("sp", l, i))
        cols = []
        for a in ans:
            c = Col(self.ncol)
            self.ncol += 1
            self.fate[c.n] = (a == "A", l, i)
            cols.append(c)
        return cols

    def add(self, column):
        column = getattr(column, "n", column)
        self.ev("add", column=column, it=self.it,
                by=self.fate.get(column, (0, -1, -1))[1:])
        self.spend("add")
        if column not in self.fate:
            raise Violation("a column no subproblem generated was offered",
                            column=column)
        return self.fate[column][0]

    def ip(self, params):
        self.ev("solve_ip", params=params)
        self.spend("ip")
        return self.ip_ok


def build(world, shape, max_iterations=-1, time_limit=-1, rmp_is_ip=False):
    cg, M, S = classes()
    sps = [[S(world, l, i) for i in range(n)] for l, n in enumerate(shape)]
    params = [["sp-%d-%d" % (l, i) for i in range(n)]
              for l, n in enumerate(shape)]
    return cg.ColGenClassifier(
        max_iterations=max_iterations, time_limit=time_limit,
        master_problem=M(world), subproblems=sps, rmp_is_ip=rmp_is_ip,
        rmp_solver_params="rmp-params", master_ip_solver_params="ip-params",
        subproblem_params=params)


def split_iterations(log):
    """[(solve event, [events until the next solve])], events before, ip."""
    pre, its, cur = [], [], None
    for e in log:
        if e["kind"] == "solve_rmp":
            cur = (e, [])
            its.append(cur)
        elif cur is None:
            pre.append(e)
        else:
            cur[1].append(e)
    return pre, its


def expected(world, shape, max_iterations, time_limit, t0):
    """The reference loop over the recorded answers and times.  Returns the
    expected pricing rounds and why the fit must have ended."""
    _, its = split_iterations(world.log)
    rounds = []
    n = 0
    end = None
    while end is None:
        if max_iterations > 0 and n >= max_iterations:
            end = "iterations"
            break
        n += 1
        priced = []
        rounds.append(priced)
        if n > len(its):
            end = "more"          # the code stopped although it must go on
            break
        now = max(e["end"] for e in [its[n - 1][0]] + [
            e for e in its[n - 1][1] if e["kind"] == "update"]) \
            if time_limit > 0 else None
        prices = [e for e in its[n - 1][1] if e["kind"] == "price"]
        progress = False
        for l, i in [(l, i) for l, w in enumerate(shape) for i in range(w)]:
            if time_limit > 0 and now - t0 > time_limit:
                end = "time"
                break
            priced.append((l, i))
            if len(priced) > len(prices):
                end = "more"
                break
            ans = world.answers.get((n, l, i))
            if ans is None:
                end = "more"
                break
            e = prices[len(priced) - 1]
            if time_limit > 0:
                now = max([e["end"]] + [
                    a["end"] for a in its[n - 1][1]
                    if a["kind"] == "add" and a["by"] == (l, i)])
            if "A" in ans[0]:
                progress = True
                break
        if end is None and not progress:
            end = "optimal"
    return rounds, end
