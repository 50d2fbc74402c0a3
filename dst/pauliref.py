"""Pauli operators of the reference model: an operator is {pauli string: coefficient}.

The strings are tuples of (qubit, letter) in qubit order; products follow the letters' own
multiplication table.  With dyadic coefficients all arithmetic is exact.  Shares no code with blueqat."""
import numpy as np

from . import refmodel as rm

MAT = {"X": rm.X, "Y": rm.Y, "Z": rm.Z}
TABLE = {}
for _a in "XYZ":
    for _b in "XYZ":
        _m = MAT[_a] @ MAT[_b]
        for _c, _M in (("", rm.I2), ("X", rm.X), ("Y", rm.Y), ("Z", rm.Z)):
            for _k in (1, -1, 1j, -1j):
                if np.allclose(_m, _k * _M):
                    TABLE[_a, _b] = (_k, _c)


def clean(d):
    return {k: v for k, v in d.items() if v != 0}


def add(a, b, sign=1):
    d = dict(a)
    for k, v in b.items():
        d[k] = d.get(k, 0) + sign * v
    return clean(d)


def scale(a, s):
    return clean({k: v * s for k, v in a.items()})


def mul_strings(s, t):
    d, k = dict(s), 1
    for q, p in t:
        if q in d:
            c, r = TABLE[d[q], p]
            k = k * c
            if r:
                d[q] = r
            else:
                del d[q]
        else:
            d[q] = p
    return k, tuple(sorted(d.items()))


def mul(a, b):
    d = {}
    for s, x in a.items():
        for t, y in b.items():
            k, st = mul_strings(s, t)
            d[st] = d.get(st, 0) + k * x * y
    return clean(d)


def power(a, n):
    r = {(): 1}
    for _ in range(n):
        r = mul(r, a)
    return r


def commutator(a, b):
    return add(mul(a, b), mul(b, a), -1)


def of_ops(ops, coeff):
    """The operator of a product of single Pauli operators, read off the value's own data."""
    d = {(): coeff}
    for op in ops:
        letter = op.op
        if letter == "I":
            continue
        d = mul(d, {((op.n, letter),): 1})
    return clean(d)


def of_value(v):
    """The operator a blueqat Pauli value stands for: its terms, products and sums."""
    if hasattr(v, "terms"):
        d = {}
        for t in v.terms:
            d = add(d, of_ops(t.ops, t.coeff))
        return d
    if hasattr(v, "ops"):
        return of_ops(v.ops, v.coeff)
    return of_ops((v,), 1)


def data(v):
    """Everything a value consists of."""
    if hasattr(v, "terms"):
        return ("expr", type(v.terms), tuple(data(t) for t in v.terms))
    if hasattr(v, "ops"):
        return ("term", type(v.ops), tuple((o.op, getattr(o, "n", None)) for o in v.ops), v.coeff)
    return ("pauli", v.op, getattr(v, "n", None))


def max_qubit(d):
    return max([q for s in d for q, _ in s], default=-1)


def matrix(d, n):
    out = np.zeros((2 ** n, 2 ** n), dtype=complex)
    for s, c in d.items():
        at = dict(s)
        m = np.eye(1)
        for q in range(n):
            m = np.kron(MAT[at[q]] if q in at else rm.I2, m)
        out += c * m
    return out


def show(d):
    if not d:
        return "0"
    return " + ".join(f"{c}*" + ("".join(f"{p}{q}" for q, p in s) or "I") for s, c in sorted(d.items(), key=repr)[:8])
