"""Core of the simulator: seeded runs, event log, verdicts."""
import hashlib
import json
import random
from collections import Counter


def derive(*parts):
    """Derive a 63-bit seed from anything printable."""
    h = hashlib.sha256("|".join(map(str, parts)).encode()).digest()
    return int.from_bytes(h[:8], "big") >> 1


class Violation(Exception):
    """A property is broken. `kind` identifies the class of the violation."""

    def __init__(self, kind, msg=""):
        super().__init__(f"{kind}: {msg}")
        self.kind = kind
        self.msg = msg


class HarnessError(Exception):
    """Something is wrong with the simulator itself."""


class SimCrash(BaseException):
    """The simulated process died here."""


class Run:
    """Everything one simulated execution records. Logging never draws randomness and
    never reads a real clock."""

    def __init__(self, prop, plan, scratch):
        self.prop = prop
        self.plan = plan
        self.scratch = scratch
        self.faults = Counter()  # fault kind -> number of times it actually fired
        self.probes = Counter()  # rare conditions reached
        self.checks = 0  # oracle evaluations
        self.sim_time = 0.0
        self._h = hashlib.sha256()
        self.events = []
        self.n_events = 0

    def log(self, *parts):
        s = " ".join(str(p) for p in parts)
        self._h.update(s.encode() + b"\n")
        self.n_events += 1
        if len(self.events) < 400:
            self.events.append(s)

    def log_array(self, tag, x):
        import numpy as np

        x = np.ascontiguousarray(x)
        self.log(tag, x.shape, hashlib.sha256(x.tobytes()).hexdigest()[:16])

    def fault(self, kind, n=1):
        self.faults[kind] += n
        self.log("fault", kind)

    def probe(self, kind, n=1):
        self.probes[kind] += n

    def check(self, cond, kind, msg=""):
        self.checks += 1
        if not cond:
            raise Violation(kind, msg() if callable(msg) else msg)

    @property
    def digest(self):
        return self._h.hexdigest()[:24]


class Gen(random.Random):
    """Generator of plans. All choices of a plan come from one seed. The lane is the
    part of the seed that decides which worker gets the run, so that a worker meets few
    different array shapes and compiles little."""

    lane = 0
    sub = 0

    def chance(self, p):
        return self.random() < p

    def pick(self, xs):
        return xs[self.randrange(len(xs))]

    def logint(self, lo, hi):
        """Log-uniform integer in [lo, hi]."""
        import math

        return int(round(math.exp(self.uniform(math.log(lo), math.log(hi)))))

    def weighted(self, pairs):
        total = sum(w for _, w in pairs)
        x = self.random() * total
        for v, w in pairs:
            x -= w
            if x < 0:
                return v
        return pairs[-1][0]


def dumps(x):
    return json.dumps(x, sort_keys=True)
