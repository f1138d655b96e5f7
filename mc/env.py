"""Import the code under test from the working tree and own its sources of
nondeterminism: the clock, the random numbers, the CP-SAT search.

The package is imported from /repo (MC_REPO overrides it for development on
scratch copies; the registered commands never set it).
"""
import os
import random
import sys
import time as _time

REPO = os.environ.get("MC_REPO", "/repo")

_real = {"time": _time.time, "perf_counter": _time.perf_counter,
         "monotonic": _time.monotonic, "process_time": _time.process_time}
monotonic = _real["monotonic"]


class Clock:
    """Virtual clock.  While `now` is None the real clock is used."""

    def __init__(self):
        self.now = None
        self.reads = 0
        self.on_read = None

    def set(self, t):
        self.now = t

    def advance(self, d):
        self.now += d


CLOCK = Clock()


def _disp(name):
    real = _real[name]

    def f():
        if CLOCK.now is None:
            return real()
        CLOCK.reads += 1
        if CLOCK.on_read is not None:
            CLOCK.on_read()
        return CLOCK.now
    return f


_time.time = _disp("time")
_time.perf_counter = _disp("perf_counter")
_time.monotonic = _disp("monotonic")
_time.process_time = _disp("process_time")


def load():
    """Import the package from the working tree (never from stale bytecode)."""
    sys.dont_write_bytecode = True
    sys.pycache_prefix = "/nonexistent/mc-pycache"
    import warnings
    warnings.filterwarnings("ignore")
    if REPO in sys.path:
        sys.path.remove(REPO)
    sys.path.insert(0, REPO)
    import col_gen_estimator
    got = os.path.realpath(os.path.dirname(os.path.dirname(
        col_gen_estimator.__file__)))
    if got != os.path.realpath(REPO):
        raise SystemExit("harness: imported the package from " + got)
    return col_gen_estimator


def reset_nondeterminism():
    """Put every owned source into its default state before a scenario."""
    CLOCK.now = None
    CLOCK.on_read = None
    random.seed(12345)
    import numpy as np
    np.random.seed(12345)
    random._inst.__dict__.pop("_randbelow", None)
    random._inst.__dict__.pop("random", None)
    from . import cpsat
    cpsat.install_default()


class scripted_random:
    """Context manager: every random draw of the global generator is decided by
    `pick(n)` (an integer in range(n)).  randrange, choice, randint, shuffle and
    sample all draw through `_randbelow`; random(), uniform and choices through
    `random`, which gets one of eight evenly spread values."""

    def __init__(self, pick, inst=None):
        self.pick = pick
        self.inst = inst or random._inst

    def __enter__(self):
        self.inst._randbelow = lambda n: self.pick(n)
        self.inst.random = lambda: (self.pick(8) + 0.5) / 8
        return self

    def __exit__(self, *a):
        self.inst.__dict__.pop("_randbelow", None)
        self.inst.__dict__.pop("random", None)
        return False
