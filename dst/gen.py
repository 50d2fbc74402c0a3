"""Workload generators and statistics shared by the checks."""
import math
import random
from contextlib import contextmanager

import numpy as np
from scipy.special import bdtr, bdtrc, chdtrc

from . import refmodel as rm
from .refmodel import Op

# frequent first (index 0 is what shrinking ends at)
ONE_Q = ["x", "h", "ry", "t", "rx", "u3", "s", "z", "y", "rz", "phase", "u2", "tdg", "sdg", "u1", "i", "r"]
TWO_Q = ["cx", "cz", "swap", "crx", "cry", "cphase", "cu3", "cy", "ch", "crz", "rxx", "ryy", "rzz",
         "cu1", "cu2", "cnot", "cr"]
THREE_Q = ["ccx", "cswap", "toffoli"]
NUMBA_OK = set(ONE_Q) | set(TWO_Q) | set(THREE_Q)


def targets1(ch, n):
    """A one-qubit-gate target expression valid on n qubits (may address several)."""
    k = ch.draw(12)
    if k < 7 or n == 1 and k < 9:
        return ch.draw(n)
    if k == 7:
        m = ch.range(1, min(n, 4))
        t = tuple(ch.subset(range(n), m))
        return t + (t[ch.draw(m)],) if ch.chance(80) else t       # one qubit may be named twice
    if k == 8:
        return slice(None, None, None)
    if k == 9:
        a = ch.draw(n)
        b = ch.range(a + 1, n) if a < n else n
        return slice(a, b)
    if k == 10:
        q = -1 - ch.draw(n)
        j = ch.draw(8)
        if j < 4:
            return q
        return (slice(q, None), slice(None, q), slice(None, None, -1), slice(n + q, None, -1))[j - 4]
    t = slice(ch.draw(n), None, 2)
    return (ch.draw(n), t) if ch.chance(150) else t


def targets2(ch, n):
    p = ch.perm(n) if n <= 4 else ch.subset(range(n), min(n, 4))
    k = ch.draw(24)
    if k < 20 or n < 3 or k < 22 and n < 4:
        if k == 19:          # both, so that they stay different when the register grows
            return (p[0] - n, p[1] - n)
        return (p[0], p[1])
    if k >= 22:
        a, b = slice(None, -1), slice(1, None)                    # a chain: every pair meets the one before
        return (a, b) if ch.draw(2) else (b, a)
    if n % 2 == 0 and ch.draw(2):
        return (slice(0, n, 2), slice(1, n, 2)) if ch.draw(4) else (slice(n - 1, None, -2), slice(n - 2, None, -2))
    return (slice(0, 2), slice(2, 4))


def targets3(ch, n):
    t = tuple(ch.subset(range(n), 3))
    k = ch.draw(16)
    if k == 15:
        return tuple(q - n for q in t)
    if k == 14:
        return (slice(n - 3, n),) if ch.draw(2) else (slice(2, None, -1),)
    return t


def params(ch, name):
    return [ch.angle() for _ in range(rm.NPARAM[name])]


def gate_op(ch, n, names=None):
    """A unitary operation on n qubits."""
    with ch.span("gate"):
        k = ch.draw(20)
        if n >= 2 and 10 <= k < 18:
            name = ch.pick(TWO_Q)
            if names and name not in names:
                name = "cx"
            return Op(name, params(ch, name), targets2(ch, n))
        if n >= 3 and k >= 18:
            name = ch.pick(THREE_Q)
            if names and name not in names:
                name = "ccx"
            return Op(name, (), targets3(ch, n))
        name = ch.pick(ONE_Q)
        if names and name not in names:
            name = "h"
        return Op(name, params(ch, name), targets1(ch, n))


def small_vocabulary(ch, n):
    """One to three gate names: threads and repeated calls then meet in the same code."""
    out = []
    for _ in range(ch.range(1, 3)):
        k = ch.draw(20)
        out.append(ch.pick(THREE_Q) if n >= 3 and k >= 17 else ch.pick(TWO_Q) if n >= 2 and k >= 8
                   else ch.pick(ONE_Q))
    return out


def vocabulary_op(ch, n, names):
    name = ch.pick(names)
    if name in rm.TWO and n < 2 or name in THREE_Q and n < 3:
        name = "h"
    if name in THREE_Q:
        return Op(name, (), targets3(ch, n))
    return Op(name, params(ch, name), targets2(ch, n) if name in rm.TWO else targets1(ch, n))


def any_op(ch, n, meas=150, reset=80, names=None, user=0):
    if user and ch.chance(user):
        k = ch.draw(4 if meas else 3)
        if k == 3:
            return Op("dstmeas", (), targets1(ch, n))
        return Op(("dstflaky", "dstflakydg", "dstflaky")[k], (ch.angle(),), targets1(ch, n))
    k = ch.draw(1000)
    if k >= 1000 - meas:
        return Op(ch.pick(["measure", "m"]), (), targets1(ch, n))
    if k >= 1000 - meas - reset:
        return Op("reset", (), targets1(ch, n))
    if isinstance(names, list):
        return vocabulary_op(ch, n, names)
    return gate_op(ch, n, names)


def program(ch, n, length, meas=150, reset=80, names=None, user=0):
    return [any_op(ch, n, meas, reset, names, user) for _ in range(length)]


def build(Circuit, ops, n=0):
    c = Circuit(n)
    for o in ops:
        o.apply_to(c)
    return c


def width(ch, small, wide):
    """A register: 1 to `small` qubits, once in a while up to `wide`."""
    return ch.range(1, wide if ch.chance(70) else small)


def size(ch, lo, hi):
    """Small sizes are frequent, large ones occasional."""
    k = ch.draw(10)
    if k < 7:
        return lo + ch.draw(max(1, (hi - lo) // 3 + 1))
    return lo + ch.draw(hi - lo + 1)


@contextmanager
def seeded(seed):
    """Both global generators start from `seed`."""
    random.seed(seed)
    np.random.seed(seed & 0xffffffff)
    yield


def seed_all(seed):
    random.seed(seed)
    np.random.seed(seed & 0xffffffff)


@contextmanager
def random_stream(draws):
    """random.random() returns the scripted draws (adversarial stream), then a seeded rest."""
    orig = random.random
    it = iter(draws)

    def fake():
        for v in it:
            return v
        return orig()
    random.random = fake
    try:
        yield
    finally:
        random.random = orig


def extreme_draw(ch):
    k = ch.draw(6)
    if k == 0:
        return 0.5
    if k == 1:
        return 1e-9
    if k == 2:
        return 1 - 1e-9
    if k == 3:
        return 0.25
    if k == 4:
        return 0.75
    return 1e-9 + ch.unit() * (1 - 2e-9)


def binom_pvalue(k, n, p):
    """Two-sided tail bound of a binomial count (exact, doubled one-sided)."""
    if p <= 0:
        return 1.0 if k == 0 else 0.0
    if p >= 1:
        return 1.0 if k == n else 0.0
    lo = bdtr(k, n, p) if k < n else 1.0
    hi = bdtrc(k - 1, n, p) if k > 0 else 1.0
    return float(min(1.0, 2 * min(lo, hi)))


P_MIN = 1e-11


def joint_pvalue(hits, probs, total):
    """Likelihood-ratio (G) test of a whole distribution, cells with expectation below 20 united.

    G follows the multinomial's large deviations, so its tail stays honest far out."""
    cells = sorted(zip(probs, hits), key=lambda c: c[0])     # never by what was observed
    out, p0, h0 = [], 0.0, 0
    for p, h in cells:
        p0, h0 = p0 + p, h0 + h
        if p0 * total >= 20:
            out.append((p0, h0))
            p0, h0 = 0.0, 0
    if out:
        p, h = out[-1]
        out[-1] = (p + p0, h + h0)
    if len(out) < 2:
        return 1.0
    norm = sum(p for p, _ in out)
    n = sum(h for _, h in out)
    g = 2 * sum(h * math.log(h / (n * p / norm)) for p, h in out if h)
    return float(chdtrc(len(out) - 1, max(g, 0.0)))


JOINT_MIN = 1e-13


def freq_violation(counts, probs, total):
    """Exact binomial test of every outcome and of unions of outcomes.

    Returns a message or None.  Each run makes at most a few thousand such tests, so at
    P_MIN = 1e-11 a false alarm is out of reach of any realistic number of runs."""
    for k, c in counts.items():
        if k not in probs:
            return f"outcome {k!r} occurred {c} times but has probability 0"
    worst = None
    groups = [(repr(k), [k]) for k in probs]
    keys = list(probs)
    if keys and isinstance(keys[0], (str, tuple)):
        ln = len(keys[0])
        for i in range(ln):
            groups.append((f"position {i} set", [k for k in keys if str(k[i]) == "1"]))
            for j in range(i):
                groups.append((f"positions {j},{i} differ", [k for k in keys if k[i] != k[j]]))
    for name, ks in groups:
        p = min(1.0, sum(probs[k] for k in ks))
        n = sum(counts.get(k, 0) for k in ks)
        if p > 1 - 1e-9:
            continue
        pv = binom_pvalue(n, total, p)
        if pv < P_MIN and (worst is None or pv < worst[0]):
            worst = (pv, f"{name}: {n} of {total} where probability is {p:.6f} (p-value {pv:.1e})")
    if worst is None:
        pv = joint_pvalue([counts.get(k, 0) for k in keys], [probs[k] for k in keys], total)
        if pv < JOINT_MIN:
            worst = (pv, f"the frequencies as a whole have p-value {pv:.1e}: {fmt_counts(counts)}")
    return worst[1] if worst else None


def same_counts(a, b):
    return dict(a) == dict(b)


def fmt_counts(c):
    return "{" + ", ".join(f"{k}:{v}" for k, v in sorted(c.items())) + "}"


def close(a, b, tol=1e-9):
    a = np.asarray(a)
    b = np.asarray(b)
    return a.shape == b.shape and bool(np.all(np.isfinite(a))) and bool(np.max(np.abs(a - b), initial=0.0) <= tol)
