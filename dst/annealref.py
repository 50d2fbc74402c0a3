"""QUBOs, reference energies and Metropolis chains, and scripted random bits for the annealers."""
import itertools

import numpy as np


def qubo_spec(ch, nmax, generic=False):
    """Upper-triangular QUBO as list of lists of floats."""
    n = ch.range(1, nmax)
    style = 2 if generic else ch.draw(4)
    q = [[0.0] * n for _ in range(n)]
    for i in range(n):
        for j in range(i, n):
            if style == 0:
                v = float(ch.range(-2, 2))
            elif style == 1:
                v = float(ch.pick([0, 1, -1, 4, -3]))
            elif style == 2:
                v = round(ch.unit() * 4 - 2, 5)
            else:
                v = round(ch.unit() * 4 - 2, 5) * (10 ** (ch.draw(3)))
            q[i][j] = v
    return q


SCALES = [1.0, 2.0 ** -3, 2.0 ** -6, 2.0 ** -10, 2.0 ** -20, 16.0, 2.0 ** 20]


def scaled(q, s):
    """The QUBO in other units (a power of two, so that no rounding is involved)."""
    return [[v * s for v in r] for r in q]


def blocks(ch, sizes):
    """A QUBO made of independent problems with their variables interleaved: (QUBO, [(variables, own QUBO)])."""
    n = sum(sizes)
    order = ch.subset(range(n), n)
    q = [[0.0] * n for _ in range(n)]
    parts = []
    for k in sizes:
        vs = sorted(order[:k])
        order = order[k:]
        own = [[0.0] * k for _ in range(k)]
        for i in range(k):
            for j in range(i, k):
                own[i][j] = q[vs[i]][vs[j]] = round(ch.unit() * 4 - 2, 3)
        parts.append((vs, own))
    return q, parts


def lazy(m, k, n):
    """The chain of a block of k of n variables: it is chosen with probability k/n."""
    return m * (k / n) + np.eye(len(m)) * (1 - k / n)


def given(ch, q):
    """One of the forms a user gives a QUBO in."""
    k = ch.draw(4)
    if k == 1:
        return np.array(q)
    if k == 2 and all(v == int(v) for r in q for v in r):
        return np.array(q, dtype=int)
    if k == 3:
        return [np.array(r) for r in q]
    return [list(r) for r in q]


def same_qubo(a, q):
    return len(a) == len(q) and all(len(x) == len(y) and all(float(u) == float(v) for u, v in zip(x, y))
                                    for x, y in zip(a, q))


def energy(q, bits):
    n = len(q)
    return sum(q[i][j] * bits[i] * bits[j] for i in range(n) for j in range(i, n))


def states(n):
    return list(itertools.product((0, 1), repeat=n))


def energies(q):
    return np.array([energy(q, s) for s in states(len(q))])


def boltzmann(e, t):
    w = np.exp(-(e - e.min()) / t)
    return w / w.sum()


def metropolis(e, t, n):
    """Transition matrix: pick one of n bits uniformly, flip with the Metropolis rule."""
    m = len(e)
    p = np.zeros((m, m))
    for s in range(m):
        for b in range(n):
            r = s ^ (1 << (n - 1 - b))
            d = e[r] - e[s]
            a = 1.0 if d <= 0 else float(np.exp(-d / t)) if d / t < 700 else 0.0
            p[s, r] += a / n
            p[s, s] += (1 - a) / n
    return p


def evolve(p, m, steps):
    return p @ np.linalg.matrix_power(m, steps)


# ---- scripted MT19937 output: every numpy.random function draws exactly these words

def _untemper(y):
    y ^= y >> 18
    y ^= (y << 15) & 0xefc60000
    x = y
    for _ in range(5):
        x = y ^ ((x << 7) & 0x9d2c5680)
    y = x & 0xffffffff
    x = y
    for _ in range(3):
        x = y ^ (x >> 11)
    return x & 0xffffffff


def script_bits(words):
    """The next 624 32-bit words of the global generator are `words`, then its regular successors."""
    w = [_untemper(int(x) & 0xffffffff) for x in words[:624]]
    rest = np.random.RandomState(len(words) + sum(words) % 9973).randint(0, 1 << 32, 624 - len(w), dtype=np.uint64)
    keys = np.array(w + [int(x) for x in rest], dtype=np.uint32)
    np.random.set_state(("MT19937", keys, 0))


def extreme_words(ch):
    n = ch.pick([0, 8, 60, 624])
    style = ch.draw(5)
    if style == 0:
        return [0] * n
    if style == 1:
        return [0xffffffff] * n
    if style == 2:
        return [0, 0xffffffff] * (n // 2)
    if style == 3:
        return [1] * n
    return [ch.pick([0, 0xffffffff, 1, 0x80000000, 0x7fffffff]) for _ in range(min(n, 60))]
