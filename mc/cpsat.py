"""Control of the CP-SAT solver.

default:    the real solver, single worker, no wall-clock limit (the code's
            own parameter values are restored afterwards), so that results do
            not depend on machine load.
controlled: a stand-in `Solve` that enumerates *all* feasible solutions of the
            model (with the real solver, objective stripped) and then lets a
            chooser decide which improving solutions the search reports before
            it reports an optimal one.
"""
from ortools.linear_solver import pywraplp
from ortools.sat.python import cp_model
from ortools.sat import cp_model_pb2

_orig = cp_model.CpSolver.Solve
_SOL = "_CpSolver__solution"
LOG = []


def _default(self, model, solution_callback=None):
    p = self.parameters
    saved = type(p)()
    saved.CopyFrom(p)
    p.num_search_workers = 1
    p.num_workers = 0
    p.max_time_in_seconds = 1e6
    p.random_seed = 1
    try:
        return _orig(self, model, solution_callback)
    finally:
        p.CopyFrom(saved)


_threads = pywraplp.Solver.SetNumThreads


def install_default():
    cp_model.CpSolver.Solve = _default
    pywraplp.Solver.SetNumThreads = lambda self, n: _threads(self, 1)


def install(fn):
    cp_model.CpSolver.Solve = fn


class _Collect(cp_model.CpSolverSolutionCallback):
    def __init__(self, n, limit):
        super().__init__()
        self.n = n
        self.limit = limit
        self.sols = []

    def on_solution_callback(self):
        self.sols.append(tuple(self.SolutionIntegerValue(i)
                               for i in range(self.n)))
        if len(self.sols) >= self.limit:
            self.StopSearch()


_CACHE = {}


def all_solutions(model, limit=20000):
    """Every feasible assignment of the model, sorted (the objective does not
    matter; results are remembered per set of constraints)."""
    m = cp_model.CpModel()
    m.Proto().CopyFrom(model.Proto())
    m.Proto().ClearField("objective")
    m.Proto().ClearField("floating_point_objective")
    m.Proto().ClearField("solution_hint")
    key = (limit, m.Proto().SerializeToString(deterministic=True))
    if key not in _CACHE:
        if len(_CACHE) > 200:
            _CACHE.clear()
        _CACHE[key] = _all_solutions(m, limit)
    return _CACHE[key]


def _all_solutions(m, limit):
    s = cp_model.CpSolver()
    s.parameters.enumerate_all_solutions = True
    s.parameters.num_workers = 1
    s.parameters.cp_model_presolve = True
    s.parameters.keep_all_feasible_solutions_in_presolve = True
    cb = _Collect(len(m.Proto().variables), limit)
    st = _orig(s, m, cb)
    sols = sorted(set(cb.sols))
    return sols, len(cb.sols) >= limit, st


def internal_objective(proto, sol):
    """To be minimised."""
    if proto.HasField("floating_point_objective"):
        o = proto.floating_point_objective
        v = round(sum(c * sol[i] for i, c in zip(o.vars, o.coeffs)), 6)
        return -v if o.maximize else v
    o = proto.objective
    return sum(c * (sol[v] if v >= 0 else 1 - sol[-v - 1])
               for v, c in zip(o.vars, o.coeffs))


def user_objective(proto, internal):
    if proto.HasField("floating_point_objective"):
        o = proto.floating_point_objective
        return (-internal if o.maximize else internal) + o.offset
    o = proto.objective
    sf = o.scaling_factor if o.scaling_factor else 1.0
    return sf * (internal + o.offset)


class Overflow(Exception):
    pass


class Controlled:
    """chooser: callable (n, label) -> index.  `plan(sols, objs, pick)` returns
    the list of solution indices the search reports, the last one optimal."""

    def __init__(self, pick, limit=20000, max_intermediate=1, tie_choice=True,
                 key=None):
        self.pick = pick
        self.limit = limit
        self.max_intermediate = max_intermediate
        self.tie_choice = tie_choice
        self.calls = 0
        self.delivered = []

    def __call__(self):
        ctl = self

        def solve(solver, model, cb=None):
            return ctl.solve(solver, model, cb)
        return solve

    def solve(self, solver, model, cb):
        self.calls += 1
        sols, over, st = all_solutions(model, self.limit)
        if over:
            raise Overflow()
        resp = cp_model_pb2.CpSolverResponse()
        if not sols:
            resp.status = cp_model_pb2.INFEASIBLE
            setattr(solver, _SOL, resp)
            return resp.status
        proto = model.Proto()
        objs = [internal_objective(proto, s) for s in sols]
        best = min(objs)
        opt = [i for i in range(len(sols)) if objs[i] == best]
        worse = sorted((i for i in range(len(sols)) if objs[i] > best),
                       key=lambda i: (objs[i], sols[i]))
        seq = []
        bar = None
        for k in range(self.max_intermediate):
            cand = [i for i in worse if bar is None or objs[i] < bar]
            c = self.pick(len(cand) + 1, "intermediate")
            if c == 0:
                break
            seq.append(cand[c - 1])
            bar = objs[cand[c - 1]]
        c = self.pick(len(opt), "optimum") if self.tie_choice else 0
        seq.append(opt[c])
        for i in seq:
            self.delivered.append(i)
            if cb is not None:
                self.deliver(cb, proto, sols[i], objs[i], best)
        resp.status = cp_model_pb2.OPTIMAL
        resp.solution.extend(sols[seq[-1]])
        resp.objective_value = user_objective(proto, best)
        resp.best_objective_bound = resp.objective_value
        resp.wall_time = 0.25
        setattr(solver, _SOL, resp)
        return resp.status

    @staticmethod
    def deliver(cb, proto, sol, obj, best):
        u = user_objective(proto, obj)
        cb.HasResponse = lambda: True
        cb.SolutionIntegerValue = lambda i: (
            sol[i] if i >= 0 else 1 - sol[-i - 1])
        cb.SolutionBooleanValue = lambda i: bool(
            sol[i] if i >= 0 else 1 - sol[-i - 1])
        cb.ObjectiveValue = lambda: u
        cb.BestObjectiveBound = lambda: user_objective(proto, best)
        cb.WallTime = lambda: 0.25
        cb.UserTime = lambda: 0.25
        cb.NumBooleans = lambda: len(sol)
        cb.NumConflicts = lambda: 0
        cb.NumBranches = lambda: 0
        cb.StopSearch = lambda: None
        try:
            cb.OnSolutionCallback()
        finally:
            for a in ("HasResponse", "SolutionIntegerValue",
                      "SolutionBooleanValue", "ObjectiveValue",
                      "BestObjectiveBound", "WallTime", "UserTime",
                      "NumBooleans", "NumConflicts", "NumBranches",
                      "StopSearch"):
                cb.__dict__.pop(a, None)


def use(ctl):
    install(ctl())
