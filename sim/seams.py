"""Seams owned by the simulator: random number generators, clocks, stdout,
number of CPUs, process and thread pools.  `install()` has to run before
numpy.random users (scipy.stats, PyDynamic) are imported."""
import importlib.machinery
import io
import multiprocessing
import os
import sys
import threading
import time
import types


import numpy as np

REAL = {
    "time": time.time,
    "monotonic": time.monotonic,
    "perf_counter": time.perf_counter,
    "sleep": time.sleep,
    "RandomState": np.random.RandomState,
    "default_rng": np.random.default_rng,
}
RealRandomState = np.random.RandomState
_get_ident = threading.get_ident


class Hub:
    """Simulated sources of nondeterminism, reset for every run."""

    def __init__(self):
        self.clock = 1.0e9
        self.entropy_count = 0
        self.entropy_seed = 0
        self.recorder = None       # callable(name, args, kwargs, value)
        self.rng_calls = 0         # calls that consumed global random numbers
        self.rng_seeds = 0         # calls of seed()/set_state()
        self.override = {}         # method name -> callable(args, kwargs)
        self.states = {}           # thread ident -> stack of RandomState
        self.default = RealRandomState(0)
        self.pools = []            # every simulated pool created in this run

    def reset(self, seed):
        self.__init__()
        self.entropy_seed = seed & 0xFFFFFFFF
        self.default = RealRandomState(seed & 0xFFFFFFFF)

    def entropy(self):
        self.entropy_count += 1
        r = RealRandomState([self.entropy_seed, self.entropy_count])
        return int(r.randint(2 ** 31))

    def cur(self):
        st = self.states.get(_get_ident())
        return st[-1] if st else self.default

    def push(self, rs, tid=None):
        self.states.setdefault(tid or _get_ident(), []).append(rs)

    def pop(self, tid=None):
        tid = tid or _get_ident()
        self.states[tid].pop()
        if not self.states[tid]:
            del self.states[tid]


HUB = Hub()


class SimGlobalRandomState(RealRandomState):
    """Stands in for numpy's global RandomState; draws from the state that the
    simulator assigned to the running thread or worker."""


def _make(name):
    def method(self, *args, **kwargs):
        if name == "seed":
            HUB.rng_seeds += 1
            if (not args or args[0] is None) and not kwargs.get("seed"):
                args, kwargs = (HUB.entropy(),), {}
        elif name == "set_state":
            HUB.rng_seeds += 1
        elif name != "get_state":
            HUB.rng_calls += 1
            value = NotImplemented
            if name in HUB.override:
                value = HUB.override[name](*args, **kwargs)
            if value is NotImplemented:
                value = getattr(HUB.cur(), name)(*args, **kwargs)
            if HUB.recorder is not None:
                HUB.recorder(name, args, kwargs, value)
            return value
        return getattr(HUB.cur(), name)(*args, **kwargs)

    method.__name__ = name
    return method


_METHODS = [
    n for n in dir(RealRandomState)
    if not n.startswith("_") and callable(getattr(RealRandomState, n))
]
for _n in _METHODS:
    setattr(SimGlobalRandomState, _n, _make(_n))


class SimRandomState(RealRandomState):
    """RandomState() without a seed would read the operating system's entropy."""

    def __init__(self, seed=None):
        super().__init__(HUB.entropy() if seed is None else seed)


def _default_rng(seed=None):
    return REAL["default_rng"](HUB.entropy() if seed is None else seed)


class SimStdout(io.TextIOBase):
    """What the code under test prints; can be made to fail."""

    def __init__(self):
        self.written = 0
        self.chunks = None
        self.fail_at = None    # (nth write from now, exception factory)

    def writable(self):
        return True

    def write(self, s):
        self.written += 1
        if self.fail_at is not None:
            n, exc = self.fail_at
            if n <= 1:
                self.fail_at = None
                raise exc()
            self.fail_at = (n - 1, exc)
        if self.chunks is not None:
            self.chunks.append(s)
        return len(s)

    def flush(self):
        pass

    def isatty(self):
        return False


STDOUT = SimStdout()


def _sim_time():
    HUB.clock += 1e-6
    return HUB.clock


def _sim_sleep(dt):
    HUB.clock += max(float(dt), 0.0)


class _Inert:
    """absorbs whatever is done to it (figures are not part of any property)"""

    def __call__(self, *a, **k):
        return self

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return self

    def __iter__(self):
        return iter((self, self))

    def __getitem__(self, i):
        return self


class _PlotModule(types.ModuleType):
    __path__ = []

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return _Inert()


class _PlotFinder:
    """every matplotlib module is an inert stub"""

    def find_spec(self, name, path=None, target=None):
        if name.split(".")[0] == "matplotlib":
            return importlib.machinery.ModuleSpec(name, self, is_package=True)
        return None

    def create_module(self, spec):
        return _PlotModule(spec.name)

    def exec_module(self, module):
        pass


def install(cpu_count):
    sys.meta_path.insert(0, _PlotFinder())
    g = SimGlobalRandomState(0)
    old = np.random.mtrand._rand
    for name in dir(np.random):
        f = getattr(np.random, name)
        if getattr(f, "__self__", None) is old and hasattr(g, name):
            setattr(np.random, name, getattr(g, name))
    for alias in ("ranf", "sample", "random"):
        setattr(np.random, alias, g.random_sample)
        if hasattr(np.random.mtrand, alias):
            setattr(np.random.mtrand, alias, g.random_sample)
    for name in _METHODS:
        if hasattr(np.random.mtrand, name):
            setattr(np.random.mtrand, name, getattr(g, name))
        if hasattr(np.random, name):
            setattr(np.random, name, getattr(g, name))
    np.random.mtrand._rand = g
    np.random.RandomState = SimRandomState
    np.random.mtrand.RandomState = SimRandomState
    np.random.default_rng = _default_rng
    time.time = _sim_time
    time.monotonic = _sim_time
    time.perf_counter = _sim_time
    time.sleep = _sim_sleep
    multiprocessing.cpu_count = lambda: cpu_count
    os.cpu_count = lambda: cpu_count
    sys.stdout = STDOUT
    from . import simpool
    simpool.install()


def np_global_state():
    return HUB.cur().get_state()
