"""Process set-up: import path, hypothesis, clock and stdout of the code under test."""
import importlib.machinery
import io
import os
import random
import sys
import time as _time
import warnings

REPO = os.environ.get('VERIF_REPO', '/repo')
HYP = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'

sys.dont_write_bytecode = True
sys.pycache_prefix = '/nonexistent/verif-no-pycache'   # never read stale byte code
warnings.simplefilter('ignore')


class _Finder:
    """Exposes Hypothesis, and nothing else, of the tool venv."""
    names = {'hypothesis', '_hypothesis_globals', '_hypothesis_ftz_detector',
             'sortedcontainers', 'attr', 'attrs'}

    @classmethod
    def find_spec(cls, name, path=None, target=None):
        if path is None and name in cls.names:
            return importlib.machinery.PathFinder.find_spec(name, [HYP])
        return None


sys.meta_path.append(_Finder)
sys.path.insert(0, REPO)


class Clock:
    """Real time, unless a case switches to virtual time."""

    def __init__(self):
        self.virtual = False
        self.now = 0.0
        self.tick = 0.0      # every reading advances by this much
        self.readings = 0
        self.real = _time.time

    def read(self):
        self.readings += 1
        self.now += self.tick
        return self.now

    def advance(self, dt):
        self.now += dt

    def start(self, at=1000.0, tick=0.0):
        self.now, self.tick, self.readings, self.virtual = at, tick, 0, True

    def stop(self):
        self.virtual = False

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.stop()


CLOCK = Clock()


def _wrap(name):
    orig = getattr(_time, name)

    def reading():
        return CLOCK.read() if CLOCK.virtual else orig()
    reading.__name__ = name
    setattr(_time, name, reading)
    return orig


REAL_TIME = _wrap('time')
_wrap('perf_counter')
REAL_MONO = _wrap('monotonic')
_wrap('process_time')


def _wrap_ns(name):
    orig = getattr(_time, name)

    def reading():
        return int(CLOCK.read() * 1e9) if CLOCK.virtual else orig()
    reading.__name__ = name
    setattr(_time, name, reading)


for _n in ('time_ns', 'perf_counter_ns', 'monotonic_ns', 'process_time_ns'):
    _wrap_ns(_n)


class NullOut(io.TextIOBase):
    def write(self, s):
        return len(s)

    def flush(self):
        pass


class silent:
    """The code under test prints a lot."""

    def __enter__(self):
        self.old = sys.stdout
        sys.stdout = NullOut()

    def __exit__(self, *a):
        sys.stdout = self.old


def seed(n):
    random.seed(n)


import numpy as np  # noqa: E402
import hypothesis  # noqa: E402,F401
