"""Comparing a circuit's recorded operations with the model's, by meaning."""
import numpy as np

from . import refmodel as rm
from .core import check
from .refmodel import Op

ALIAS = {"m": "measure", "cnot": "cx", "toffoli": "ccx", "r": "phase", "cr": "cphase"}


def of_gate(g):
    return Op(g.lowername, tuple(g.params or ()), g.targets)


def _mat(name, params):
    for d in (rm.ONE, rm.TWO, rm.THREE):
        if name in d:
            return d[name](*params), d is rm.ONE
    return None, False


def same_op(a, b):
    na, nb = ALIAS.get(a.name, a.name), ALIAS.get(b.name, b.name)
    if repr(a.targets) != repr(b.targets):
        return False
    if na == nb and len(a.params) == len(b.params) and np.allclose(a.params, b.params, atol=1e-12):
        return True
    (ma, one), (mb, _) = _mat(na, a.params), _mat(nb, b.params)
    if ma is None or mb is None or ma.shape != mb.shape:
        return False
    if one:
        t = np.vdot(mb, ma) / len(ma)
        return abs(abs(t) - 1) < 1e-9
    return bool(np.allclose(ma, mb, atol=1e-9))


def check_ops(gates, ops, who, why):
    got = [of_gate(g) for g in gates]
    check(len(got) == len(ops) and all(same_op(a, b) for a, b in zip(got, ops)), why,
          "%s has operations %s, expected %s", who, got, list(ops))
