"""Run context of one simulated execution: event log, choices, counters, verdicts."""
import hashlib
import json
import math
import random
import time as _time

_real_time = _time.time
_real_monotonic = _time.monotonic


class Violation(Exception):
    """The property is broken. `cls` names the kind of break and is what minimisation preserves."""

    def __init__(self, cls, msg=""):
        super().__init__("%s: %s" % (cls, msg))
        self.cls = cls
        self.msg = msg


class SimulatedFault(Exception):
    """An error raised by a simulated component (never by the code under test itself)."""


class SimInterrupt(KeyboardInterrupt):
    """A keyboard interrupt delivered by the simulator at a chosen point."""


class SimNoMemory(MemoryError):
    """An allocation failure delivered by the simulator at a chosen point."""


class SimCrash(BaseException):
    """The simulated machine lost power."""


class Ctx:
    def __init__(self, prop, plan):
        self.prop = prop
        self.plan = plan
        self._log = hashlib.sha256()
        self.nlog = 0
        self.tail = []
        self.faults = {}
        self.probes = {}
        self.states = set()
        self.simtime = 0.0
        self.nontrivial = False
        self.kinds = []
        self.ev("plan", hashlib.sha256(json.dumps(plan, sort_keys=True, default=repr).encode()).hexdigest()[:16])

    def ev(self, *what):
        line = json.dumps(what, default=_jd, sort_keys=True)
        self._log.update(line.encode() + b"\n")
        self.nlog += 1
        self.tail.append(line)
        if len(self.tail) > 60:
            del self.tail[:20]

    def digest(self):
        return self._log.hexdigest()[:24]

    def fault(self, kind, n=1):
        self.faults[kind] = self.faults.get(kind, 0) + n

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def state(self, *x):
        h = hashlib.sha256(json.dumps(x, default=_jd, sort_keys=True).encode()).hexdigest()[:16]
        self.states.add(h)

    def fail(self, cls, msg=""):
        self.ev("VIOLATION", cls, str(msg)[:400])
        raise Violation(cls, str(msg)[:2000])

    def check(self, cond, cls, msg=""):
        if not cond:
            self.fail(cls, msg() if callable(msg) else msg)


def _jd(x):
    try:
        import numpy as np
        if isinstance(x, np.generic):
            return x.item()
        if isinstance(x, np.ndarray):
            return x.tolist()
    except ImportError:
        pass
    return repr(x)


def digits(x, n=5):
    """A value for the event log: rounded to n significant digits"""
    if isinstance(x, dict):
        return {k: digits(v, n) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [digits(v, n) for v in x]
    if isinstance(x, float):
        return "%.*g" % (n, 0.0 if abs(x) < 1e-7 else x)
    return x


def rng_for(*key):
    return random.Random("/".join(str(k) for k in key))


def close(a, b, rel=1e-6, abs_=1e-8):
    try:
        a = float(a)
        b = float(b)
    except (TypeError, ValueError):
        return False
    if not (math.isfinite(a) and math.isfinite(b)):
        return False
    return abs(a - b) <= abs_ + rel * max(abs(a), abs(b))
