"""Collects the command sessions that the checks would run, without running them."""
import importlib
import random


class Recorder:
    def __init__(self, pid, seed, thorough=False):
        self.pid, self.rng, self.thorough = pid, random.Random("%s/rec/%d" % (pid, seed)), thorough
        self.got = []
        self.scripts_total = 0

    def n(self, quick, thorough):
        return quick

    def log(self, *a):
        pass

    def model(self, *a, **k):
        return []

    def build(self, wanted):
        return {w: w for w in wanted}

    def conform(self, exe, sessions, spec, cfg="Trace.cfg", name=None, env=None, cpu=None, chunks=None, fills=None):
        self.got.append((exe, [s if isinstance(s, list) else [s] for s in sessions], spec, env))

    def finish(self, *a, **k):
        return 0


def record(pid, seed):
    r = Recorder(pid, seed)
    importlib.import_module("checks." + pid.lower()).check(r)
    return r.got
