"""Runner: enumerates the scenarios of one property on a pool of worker
processes, collects coverage, and reports."""
import hashlib
import importlib
import json
import mmap
import multiprocessing as mp
import os
import pickle
import signal
import struct
import sys
import traceback

from . import env

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Violation(Exception):
    def __init__(self, msg, key=None, **detail):
        super().__init__(msg)
        self.msg = msg
        self.key = key
        self.detail = detail


class HarnessError(Exception):
    pass


def canon(x):
    """Deterministic, JSON-able rendering of a value."""
    import numpy as np
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if isinstance(x, (int, np.integer)):
        return int(x)
    if isinstance(x, (float, np.floating)):
        x = float(x)
        return round(x, 9) + 0.0
    if x is None or isinstance(x, str):
        return x
    if isinstance(x, dict):
        return {str(canon(k)): canon(v) for k, v in sorted(
            x.items(), key=lambda kv: str(kv[0]))}
    if isinstance(x, (set, frozenset)):
        return sorted((canon(v) for v in x), key=str)
    if isinstance(x, np.ndarray):
        return canon(x.tolist())
    if isinstance(x, (list, tuple)):
        return [canon(v) for v in x]
    return str(x)


def digest(x):
    s = json.dumps(canon(x), sort_keys=True, separators=(",", ":"))
    return int.from_bytes(hashlib.blake2b(s.encode(), digest_size=8).digest(),
                          "big")


MAXSTATES = 3000000


class Ctx:
    """What one worker measured."""

    def __init__(self):
        self.states = set()
        self.cases = set()
        self.transitions = 0
        self.traces = 0
        self.evaluations = 0
        self.outcomes = {}
        self.samples = []
        self.capped = {}
        self.counters = {}
        self.scenarios = 0
        self.known = {}
        self.hits = {}

    def known_or_fail(self, key, msg, **detail):
        """A violation with a key: recorded if it is a listed finding, so that
        the rest of the scenario is still explored, raised otherwise."""
        if key in self.known:
            self.hits[key] = self.hits.get(key, 0) + 1
            return
        raise Violation(msg, key=key, **detail)

    def state(self, *x):
        if len(self.states) < MAXSTATES:
            self.states.add(digest(x))

    def case(self, *x):
        """A distinct non-trivial case."""
        if len(self.cases) < MAXSTATES:
            self.cases.add(digest(x))

    def step(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def eval(self, n=1):
        self.evaluations += n

    def outcome(self, label, n=1):
        self.outcomes[label] = self.outcomes.get(label, 0) + n

    def count(self, label, n=1):
        self.counters[label] = self.counters.get(label, 0) + n

    def sample(self, x):
        if len(self.samples) < 3:
            self.samples.append(canon(x))

    def cap(self, label):
        self.capped[label] = self.capped.get(label, 0) + 1

    @staticmethod
    def fail(msg, key=None, **detail):
        raise Violation(msg, key=key, **detail)

    @staticmethod
    def check(cond, msg, **detail):
        if not cond:
            raise Violation(msg, **detail)

    def merge(self, o):
        self.states |= o.states
        self.cases |= o.cases
        self.transitions += o.transitions
        self.traces += o.traces
        self.evaluations += o.evaluations
        self.scenarios += o.scenarios
        for k, v in o.outcomes.items():
            self.outcomes[k] = self.outcomes.get(k, 0) + v
        for k, v in o.counters.items():
            self.counters[k] = self.counters.get(k, 0) + v
        for k, v in o.hits.items():
            self.hits[k] = self.hits.get(k, 0) + v
        for k, v in o.capped.items():
            self.capped[k] = self.capped.get(k, 0) + v
        for s in o.samples:
            if len(self.samples) < 5 and s not in self.samples:
                self.samples.append(s)


def quiet():
    """Silence the code's (and the solvers') standard output."""
    fd = os.open(os.devnull, os.O_WRONLY)
    os.dup2(fd, 1)
    if not os.environ.get("MC_DEBUG"):
        os.dup2(fd, 2)
    os.close(fd)
    sys.stdout = open(os.devnull, "w")


def run_one(mod, sc, ctx):
    """Run one scenario; returns None or a dict describing the violation."""
    env.reset_nondeterminism()
    ctx.scenarios += 1
    try:
        mod.run(sc, ctx)
        return None
    except HarnessError:
        raise
    except Violation as v:
        return {"message": v.msg, "key": v.key, "detail": canon(v.detail),
                "where": ""}
    except (KeyboardInterrupt, SystemExit) as e:
        return {"message": "the code raised %s" % type(e).__name__,
                "key": None, "detail": {}, "where": traceback.format_exc()}
    except BaseException as e:      # an in-domain scenario must not raise
        return {"message": "exception %s: %s" % (type(e).__name__, e),
                "key": None, "detail": {}, "where": traceback.format_exc()}
    finally:
        env.reset_nondeterminism()


class Shared:
    """next index, stop flag, and per worker (current index, start time)."""

    def __init__(self, nw):
        self.buf = mmap.mmap(-1, 16 + 16 * nw)
        self.lock = mp.Lock()

    def take(self):
        with self.lock:
            i, stop = struct.unpack_from("<qq", self.buf, 0)
            if stop:
                return -1
            struct.pack_into("<q", self.buf, 0, i + 1)
            return i

    def stop(self):
        struct.pack_into("<q", self.buf, 8, 1)

    def set_current(self, w, i, t):
        struct.pack_into("<qd", self.buf, 16 + 16 * w, i, t)

    def current(self, w):
        return struct.unpack_from("<qd", self.buf, 16 + 16 * w)


def worker(w, mod, scs, shared, outdir, known):
    quiet()
    os.setpgid(0, 0)
    ctx = Ctx()
    ctx.known = known
    done = []
    found = []
    knownhits = []
    err = None
    while True:
        i = shared.take()
        if i < 0 or i >= len(scs):
            break
        shared.set_current(w, i, env.monotonic())
        try:
            v = run_one(mod, scs[i], ctx)
        except HarnessError:
            err = traceback.format_exc()
            shared.stop()
            break
        done.append(i)
        if v is not None:
            v["index"] = i
            v["scenario"] = scs[i]
            v["prefix"] = list(done[:-1])
            if v["key"] and v["key"] in known:
                knownhits.append(v)
            else:
                found.append(v)
                shared.stop()
                break
    shared.set_current(w, -1, env.monotonic())
    with open(os.path.join(outdir, "w%d.pkl" % w), "wb") as f:
        pickle.dump((ctx, found, knownhits, len(done), err), f)
    os._exit(0)


def fork_run(mod, scs, indices, timeout):
    """Run the given scenarios in a fresh process; returns the violation of the
    last one, or 'hang' / 'crash' / None."""
    r, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        res = None
        try:
            os.setpgid(0, 0)
            quiet()
            ctx = Ctx()
            ctx.known = load_known().get(mod.ID, {})
            for i in indices:
                res = run_one(mod, scs[i], ctx)
        except BaseException:
            res = {"message": "harness error " + traceback.format_exc(),
                   "key": "HARNESS"}
        os.write(wfd, json.dumps(canon(res)).encode()[:60000])
        os._exit(0)
    os.close(wfd)
    import select
    t_end = env.monotonic() + timeout
    data = b""
    while True:
        left = t_end - env.monotonic()
        if left <= 0:
            kill(pid)
            os.close(r)
            return "hang"
        rl, _, _ = select.select([r], [], [], left)
        if not rl:
            continue
        b = os.read(r, 65536)
        if not b:
            break
        data += b
    os.close(r)
    os.waitpid(pid, 0)
    if not data:
        return "crash"
    try:
        return json.loads(data.decode())
    except ValueError:
        return {"message": "violation (details too long)", "key": None}


def kill(pid):
    for f in (lambda: os.killpg(pid, signal.SIGKILL),
              lambda: os.kill(pid, signal.SIGKILL)):
        try:
            f()
        except OSError:
            pass
    try:
        os.waitpid(pid, 0)
    except OSError:
        pass


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return {}
    with open(p) as f:
        d = json.load(f)
    out = {}
    for e in d.get("findings", []):
        out.setdefault(e["property"], {})[e["key"]] = e["what"]
    return out


def load_mod(pid):
    return importlib.import_module("mc.props." + pid.lower())


def check(pid, tier, seed, workers=None, only=None):
    t0 = env.monotonic()
    env.load()
    mod = load_mod(pid)
    scs = list(mod.scenarios(tier))
    if only is not None:
        scs = [scs[i] for i in only]
    known = load_known().get(pid, {})
    nw = workers or int(os.environ.get("MC_WORKERS", "0")) or min(
        8, os.cpu_count() or 1)
    nw = max(1, min(nw, len(scs)))
    hang_s = getattr(mod, "HANG_S", 150)
    budget = {"quick": getattr(mod, "QUICK_CAP_S", 420),
              "thorough": getattr(mod, "THOROUGH_CAP_S", 3000)}[tier]
    import tempfile
    import shutil
    outdir = tempfile.mkdtemp(prefix="mc-")
    shared = Shared(nw)
    pids = {}
    sys.stdout.flush()
    for w in range(nw):
        shared.set_current(w, -1, env.monotonic())
        pid_ = os.fork()
        if pid_ == 0:
            try:
                worker(w, mod, scs, shared, outdir, known)
            except BaseException:
                traceback.print_exc()
            os._exit(3)
        pids[pid_] = w
    lost = []          # (scenario index, reason)
    timed_out = False
    import time
    while pids:
        for p in list(pids):
            try:
                q, st = os.waitpid(p, os.WNOHANG)
            except ChildProcessError:
                q, st = p, 0
            if q:
                w = pids.pop(p)
                if st != 0 or not os.path.exists(
                        os.path.join(outdir, "w%d.pkl" % w)):
                    i, _ = shared.current(w)
                    lost.append((i, "crash status %d" % st))
                    shared.stop()
        now = env.monotonic()
        for p in list(pids):
            i, t = shared.current(pids[p])
            if i >= 0 and now - t > hang_s:
                time.sleep(0.05)        # the two fields are not read atomically
                if shared.current(pids[p]) != (i, t):
                    continue
                w = pids.pop(p)
                kill(p)
                lost.append((i, "hang"))
                shared.stop()
        if not timed_out and now - t0 > budget:
            timed_out = True
            shared.stop()
        time.sleep(0.01)
    ctx = Ctx()
    found, knownhits, errs, ndone = [], [], [], 0
    for w in range(nw):
        f = os.path.join(outdir, "w%d.pkl" % w)
        if not os.path.exists(f):
            continue
        with open(f, "rb") as fh:
            c, fo, kh, nd, er = pickle.load(fh)
        ctx.merge(c)
        found += fo
        knownhits += kh
        ndone += nd
        if er:
            errs.append(er)
    shutil.rmtree(outdir, ignore_errors=True)
    for i, why in lost:
        if i < 0:
            errs.append("worker lost outside a scenario: " + why)
            continue
        r = fork_run(mod, scs, [i], hang_s * 1.5)
        if r in ("hang", "crash"):
            found.append({"message": "%s while running the scenario" % r,
                          "key": None, "detail": {}, "index": i,
                          "scenario": scs[i], "prefix": [], "where": ""})
        elif isinstance(r, dict):
            r.update(index=i, scenario=scs[i], prefix=[])
            found.append(r)
        else:
            ctx.cap("scenario %d lost once (%s) and fine on its own" % (i, why))
    if errs and not found:
        sys.stderr.write("HARNESS ERROR\n" + "\n".join(errs) + "\n")
        return 2
    found.sort(key=lambda v: v["index"])
    # finish: coverage and evidence
    post = getattr(mod, "finish", None)
    if post and not found and not timed_out:
        try:
            post(tier, ctx)
        except Violation as v:
            found.append({"message": v.msg, "key": v.key,
                          "detail": canon(v.detail), "index": -1,
                          "scenario": "whole run", "prefix": [], "where": ""})
    complete = (not timed_out and not found and ndone == len(scs)
                and not ctx.capped)
    cov = {"samples": ctx.samples, "exhaustive": bool(complete),
           "rule": mod.RULE, "scenarios": ndone, "scenarios_total": len(scs),
           "bounds": mod.BOUNDS[tier] if isinstance(mod.BOUNDS, dict)
           else mod.BOUNDS,
           "outcomes": ctx.outcomes, "counters": ctx.counters,
           "capped": ctx.capped, "known_findings_hit": ctx.hits}
    if mod.LEVEL == "model_checking":
        cov.update(states=len(ctx.states), transitions=ctx.transitions,
                   traces_validated_against_impl=ctx.traces)
        if ctx.evaluations:
            cov["evaluations"] = ctx.evaluations
        if ctx.cases:
            cov["distinct_nontrivial"] = len(ctx.cases)
    else:
        cov.update(evaluations=ctx.evaluations,
                   distinct_nontrivial=len(ctx.cases))
    if timed_out:
        cov["capped"]["time budget of %d s" % budget] = 1
    ev = {"property": pid, "tier": tier, "seed": seed, "level": mod.LEVEL,
          "coverage": cov, "assumptions": list(getattr(mod, "ASSUMES", [])),
          "wall_s": round(env.monotonic() - t0, 2),
          "violations": len(found)}
    if only is None:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, sort_keys=True)
            f.write("\n")
    for k in sorted({v["key"] for v in knownhits} | set(ctx.hits)):
        print("KNOWN-FINDING: property=%s %s" % (pid, known[k]))
    print("%s %s: %d/%d scenarios, states=%d transitions=%d traces=%d "
          "evaluations=%d distinct=%d outcomes=%s counters=%s%s wall=%.1fs" % (
              pid, tier, ndone, len(scs), len(ctx.states), ctx.transitions,
              ctx.traces, ctx.evaluations, len(ctx.cases),
              json.dumps(ctx.outcomes, sort_keys=True),
              json.dumps(ctx.counters, sort_keys=True),
              (" CAPPED " + json.dumps(cov["capped"])) if cov["capped"] else "",
              env.monotonic() - t0))
    if not found:
        return 0
    v = found[0]
    # does it reproduce alone, or only after what the worker ran before?
    v["needs_prefix"] = None
    if v["index"] >= 0 and "while running the scenario" not in v["message"]:
        r = fork_run(mod, scs, [v["index"]], hang_s * 1.5)
        if r is not None:
            v["needs_prefix"] = False
        else:
            r = fork_run(mod, scs, v["prefix"] + [v["index"]], 300)
            v["needs_prefix"] = True if r is not None else "unreproduced"
    v["property"] = pid
    v["tier"] = tier
    v["prefix_scenarios"] = [scs[j] for j in v.pop("prefix")] \
        if v["needs_prefix"] is True else []
    d = os.path.join(VERIF, "replays", pid)
    os.makedirs(d, exist_ok=True)
    name = "%016x.json" % digest([v["scenario"], v["message"]])
    path = os.path.join(d, name)
    with open(path, "w") as f:
        json.dump(canon(v), f, indent=1)
        f.write("\n")
    print("  " + v["message"][:600].replace("\n", " | "))
    print("  scenario: " + json.dumps(canon(v["scenario"]))[:1500])
    print("  detail: " + json.dumps(canon(v.get("detail")))[:3000])
    if v.get("where"):
        print("  " + "\n  ".join(v["where"].splitlines()[-14:]))
    print("  reproduces alone: %s" % (
        {False: "yes", True: "only after the recorded earlier scenarios",
         None: "n/a"}.get(v["needs_prefix"], "no")))
    print("VIOLATION property=%s replay=%s" % (pid, path))
    return 1
