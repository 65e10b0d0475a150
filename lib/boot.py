"""Environment set-up shared by every check.

Imports the code under test from /repo's working tree, Hypothesis from the
preinstalled tooling venv, and replaces the engine's clock, random source and
memory-measuring helpers by deterministic stand-ins controlled by the case.
"""
import os
import sys

sys.dont_write_bytecode = True
REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HYP = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
for _p in (VERIF, REPO):
    if _p in sys.path:
        sys.path.remove(_p)
    sys.path.insert(0, _p)
if HYP not in sys.path:
    sys.path.append(HYP)
sys.setrecursionlimit(20000)
os.environ.setdefault("HYPOTHESIS_STORAGE_DIRECTORY", "/tmp/verif_hypothesis")

import logging  # noqa: E402
import random as _random  # noqa: E402
import warnings  # noqa: E402

import logzero  # noqa: E402

logzero.loglevel(logging.CRITICAL)
logzero.logger.setLevel(logging.CRITICAL)
warnings.simplefilter("ignore")

import comb_spec_searcher  # noqa: E402

if not os.path.abspath(comb_spec_searcher.__file__).startswith(
    os.path.abspath(REPO) + os.sep
):
    raise RuntimeError("wrong comb_spec_searcher: " + comb_spec_searcher.__file__)

logzero.loglevel(logging.CRITICAL)
logzero.logger.setLevel(logging.CRITICAL)
logzero.logger.disabled = True
warnings.simplefilter("ignore")
import importlib  # noqa: E402
from fractions import Fraction  # noqa: E402
import time as _time  # noqa: E402

CSS = importlib.import_module("comb_spec_searcher.comb_spec_searcher")
MODS = {
    name: importlib.import_module("comb_spec_searcher." + name)
    for name in (
        "comb_spec_searcher",
        "class_db",
        "class_queue",
        "equiv_db",
        "tree_searcher",
        "utils",
        "specification",
        "rule_db.base",
        "rule_db.forest",
        "rule_db.forget",
        "rule_db.abstract",
        "isomorphism",
        "bijection",
        "specification_extrator",
        "proof_tree",
        "strategies.rule",
        "strategies.strategy",
        "strategies.strategy_pack",
        "strategies.constructor.cartesian",
        "strategies.constructor.disjoint",
    )
}


class FakeTime:
    """Monotone clock: every reading advances by the next step of the case."""

    def __init__(self):
        self.reset()

    def reset(self, steps=(1.0,), start=1000.0):
        self.now = float(start)
        self.steps = [float(s) for s in steps] or [1.0]
        self.calls = 0

    def time(self):
        self.now += self.steps[self.calls % len(self.steps)]
        self.calls += 1
        return self.now

    perf_counter = time
    monotonic = time
    process_time = time

    @staticmethod
    def sleep(_):
        return None

    def __getattr__(self, name):
        return getattr(_time, name)


CLOCK = FakeTime()


class ChoiceRandom:
    """Stand-in for the `random` module, driven by a list of integers and then
    by a linear congruential generator seeded from the list."""

    def __init__(self):
        self.reset(())

    def reset(self, stream):
        self.stream = [int(s) for s in stream]
        self.pos = 0
        # when set, an Enumerator that explores every outcome
        self.enum = None
        self.state = 12345
        for s in self.stream:
            self.state = (self.state * 1000003 + s + 7) % (1 << 61)

    def _next(self):
        if self.pos < len(self.stream):
            v = self.stream[self.pos]
            self.pos += 1
            return v
        self.state = (self.state * 6364136223846793005 + 1442695040888963407) % (
            1 << 64
        )
        return self.state >> 33

    def _index(self, n):
        """uniform index below n"""
        if self.enum is not None:
            return self.enum.pick([1] * n)
        return self._next() % n

    def randint(self, a, b):
        if b < a:
            raise ValueError("empty range for randint")
        return a + self._index(b - a + 1)

    def randrange(self, *args):
        r = range(*args)
        if not r:
            raise ValueError("empty range")
        return r[self._index(len(r))]

    def choice(self, seq):
        if len(seq) == 0:
            raise IndexError("Cannot choose from an empty sequence")
        return seq[self._index(len(seq))]

    def shuffle(self, x):
        for i in reversed(range(1, len(x))):
            j = self._index(i + 1)
            x[i], x[j] = x[j], x[i]

    def random(self):
        if self.enum is not None:
            raise NotEnumerable("random()")
        return (self._next() % (1 << 31)) / float(1 << 31)

    def sample(self, pop, k):
        pop = list(pop)
        self.shuffle(pop)
        return pop[:k]

    def choices(self, pop, weights=None, *, cum_weights=None, k=1):
        pop = list(pop)
        if cum_weights is not None:
            weights = [b - a for a, b in zip([0] + list(cum_weights), cum_weights)]
        if weights is not None:
            tot, res = sum(weights), []
            for _ in range(k):
                if self.enum is not None:
                    res.append(pop[self.enum.pick(weights)])
                    continue
                x = (self._next() % 1000003) / 1000003 * tot
                for p, w in zip(pop, weights):
                    if w and x < w:
                        res.append(p)
                        break
                    x -= w
                else:
                    res.append([p for p, w in zip(pop, weights) if w][-1])
            return res
        return [self.choice(pop) for _ in range(k)]

    def seed(self, *_a, **_k):
        return None

    def __getattr__(self, name):
        if self.__dict__.get("enum") is not None:
            raise NotEnumerable(name)
        return getattr(_random, name)


class NotEnumerable(Exception):
    """the decision cannot be enumerated"""


class TooManyOutcomes(Exception):
    pass


class Enumerator:
    """explores every sequence of random decisions of a function"""

    def __init__(self, budget=4000):
        self.budget = budget

    def pick(self, weights):
        if self.depth == len(self.path):
            alive = [i for i, w in enumerate(weights) if w]
            self.path.append([0, alive, list(weights), sum(weights)])
        entry = self.path[self.depth]
        self.depth += 1
        if entry[2] != list(weights):
            raise RuntimeError("decisions are not reproducible")
        i = entry[1][entry[0]]
        self.prob *= Fraction(weights[i], entry[3])
        return i

    def outcomes(self, fun):
        """yields (probability, result) for every outcome of fun()"""
        self.path = []
        runs = 0
        old = RANDOM.enum
        while True:
            runs += 1
            if runs > self.budget:
                raise TooManyOutcomes
            self.depth = 0
            self.prob = Fraction(1)
            RANDOM.enum = self
            try:
                res = fun()
            finally:
                RANDOM.enum = old
            yield self.prob, res
            del self.path[self.depth :]
            while self.path and self.path[-1][0] + 1 >= len(self.path[-1][1]):
                self.path.pop()
            if not self.path:
                return
            self.path[-1][0] += 1


RANDOM = ChoiceRandom()
_SWAP = {"choice", "shuffle", "randint", "random", "randrange", "sample", "choices"}


def install():
    """Route clock and randomness of every library module to the stand-ins."""
    for name, mod in sys.modules.items():
        if not name.startswith("comb_spec_searcher") or mod is None:
            continue
        d = vars(mod)
        for key, val in list(d.items()):
            if val is _time:
                d[key] = CLOCK
            elif val is _random:
                d[key] = RANDOM
            elif (
                key in _SWAP
                and getattr(val, "__module__", None) in ("random", None)
                and getattr(val, "__self__", None) is getattr(_random, "_inst", 0)
            ):
                d[key] = getattr(RANDOM, key)
            elif any(
                val is f
                for f in (
                    _time.time,
                    _time.perf_counter,
                    _time.monotonic,
                    _time.process_time,
                )
            ):
                d[key] = CLOCK.time
    if hasattr(CSS, "asizeof"):
        CSS.asizeof = lambda *_a, **_k: 0
    if hasattr(CSS, "get_mem"):
        CSS.get_mem = lambda *_a, **_k: 0


install()


RESET_HOOKS = []


def reset(steps=(1.0,), stream=()):
    CLOCK.reset(steps)
    RANDOM.reset(stream)
    for hook in RESET_HOOKS:
        hook()


class default_limit:
    """the recursion limit of a fresh interpreter, `room` frames from here"""

    def __init__(self, room=950):
        self.room = room

    def __enter__(self):
        self.old = sys.getrecursionlimit()
        depth, f = 0, sys._getframe()
        while f is not None:
            depth, f = depth + 1, f.f_back
        sys.setrecursionlimit(max(depth + self.room, 1000))
        return self

    def __exit__(self, *_a):
        sys.setrecursionlimit(self.old)
        return False
