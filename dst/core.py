"""Choice sequences, recorder, violations: what one simulated run is made of.

A run is a pure function of its choice sequence and of the code under test.
Fresh runs draw the choices from one PRNG seeded by (VERIF_SEED, property, run
index); replays and the shrinker feed recorded choices back.  Choice value 0 is
always the simplest alternative (no fault, no preemption, fewer operations).
"""
import math
import hashlib
import json
import random as _random
from contextlib import contextmanager


class Violation(Exception):
    """The code under test broke the property."""

    def __init__(self, cls, msg):
        super().__init__(f"{cls}: {msg}")
        self.cls = cls
        self.msg = msg


class HarnessError(Exception):
    """Something is wrong with the machinery, not with the code under test."""


class Overrun(Exception):
    """A run drew too many choices."""


class Choices:
    MAX = 200000

    def __init__(self, seed=None, prefix=None):
        self.prefix = prefix
        self.rng = None if prefix is not None else _random.Random(seed)
        self.seq = []
        self.spans = []
        self._open = []

    recent = 0.5        # the angle drawn last
    tiny = False        # whether angle() also gives angles far below 1

    def draw(self, n):
        """An integer in range(n)."""
        if n <= 1:
            return 0
        if len(self.seq) >= self.MAX:
            raise Overrun()
        if self.prefix is None:
            v = self.rng.randrange(n)
        elif len(self.seq) < len(self.prefix):
            v = min(int(self.prefix[len(self.seq)]), n - 1)
        else:
            v = 0
        self.seq.append(v)
        return v

    def rng_only(self):
        return self.prefix is None

    def range(self, lo, hi):
        """lo..hi inclusive; lo is simplest."""
        return lo + self.draw(hi - lo + 1)

    def pick(self, seq):
        return seq[self.draw(len(seq))]

    def weighted(self, pairs):
        """pairs: [(weight, item)]; first item is simplest."""
        tot = sum(w for w, _ in pairs)
        r = self.draw(tot)
        for w, it in pairs:
            if r < w:
                return it
            r -= w
        raise AssertionError

    def chance(self, permille):
        """True with the given probability (in 1/1000); 0 means False."""
        return self.draw(1000) >= 1000 - permille

    def loguniform(self, maxbits):
        """0 or an integer with a log-uniform magnitude below 2**maxbits."""
        k = self.draw(maxbits + 1)
        if k == 0:
            return 0
        return (1 << (k - 1)) + self.draw(1 << (k - 1))

    def unit(self):
        """A float in [0,1) on a fine grid."""
        return self.draw(1 << 30) / float(1 << 30)

    def angle(self):
        self.recent = self._angle()
        return self.recent

    def _angle(self):
        k = self.draw(17 if self.tiny else 14)
        if k == 12:                     # many turns
            return (1 - 2 * self.draw(2)) * (7 + self.draw(10 ** 9) / 997.0 / 10.0 ** self.draw(6))
        if k == 13:                     # close to the one before
            return self.recent + (self.draw(1999) - 999) * 10.0 ** -(3 + self.draw(6))
        if k > 13:
            return (1 - 2 * self.draw(2)) * (1 + self.draw(9999)) * 10.0 ** -(6 + self.draw(6))
        nice = [0.5, math.pi, math.pi / 2, -math.pi / 2, math.pi / 4, 1.0, -0.7, 2.2]
        if k < len(nice):
            return nice[k]
        return -7.0 + 14.0 * (self.draw(100000) / 100000.0)

    def bytes_seed(self):
        return self.draw(1 << 32)

    @contextmanager
    def span(self, label=""):
        i = len(self.seq)
        try:
            yield
        finally:
            if len(self.seq) > i:
                self.spans.append((i, len(self.seq)))

    def perm(self, n):
        p = list(range(n))
        for i in range(n - 1):
            j = i + self.draw(n - i)
            p[i], p[j] = p[j], p[i]
        return p

    def subset(self, items, k):
        p = list(items)
        out = []
        for _ in range(k):
            out.append(p.pop(self.draw(len(p))))
        return out


class Recorder:
    """Event log and coverage counters of one run (never draws, never reads clocks)."""

    def __init__(self):
        self.log = []
        self.faults = {}
        self.probes = {}
        self.states = set()
        self.steps = 0          # simulated steps: operations of the workload
        self.simtime = 0        # simulated time: scheduler/trace steps
        self.inter = None       # hasher for the interleaving
        self.nontrivial = False
        self.case = None        # short description of the case

    def ev(self, *parts):
        if len(self.log) < 4000:
            self.log.append(" ".join(str(p) for p in parts))

    def op(self, *parts):
        self.steps += 1
        self.ev("%d:" % self.steps, *parts)

    def fault(self, kind, n=1):
        self.faults[kind] = self.faults.get(kind, 0) + n

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def state(self, *parts):
        h = hashlib.blake2b(repr(parts).encode(), digest_size=8).hexdigest()
        self.states.add(h)

    def digest(self):
        return hashlib.blake2b("\n".join(self.log).encode(), digest_size=12).hexdigest()


def run_seed(base, prop, index):
    h = hashlib.blake2b(f"{base}/{prop}/{index}".encode(), digest_size=8).digest()
    return int.from_bytes(h, "big")


def check(cond, cls, msg, *fmt):
    if not cond:
        raise Violation(cls, msg % fmt if fmt else msg)


def short(x, n=300):
    s = x if isinstance(x, str) else repr(x)
    s = " ".join(s.split())
    return s if len(s) <= n else s[: n - 3] + "..."


def dumps(o):
    return json.dumps(o, indent=1, sort_keys=True, default=str)
