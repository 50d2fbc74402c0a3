"""A little world of circuits with a model of each, driven by random histories."""
import copy
import pickle

import numpy as np

from . import gen, refmodel as rm
from .core import Violation, check, short
from .refmodel import Op
from .sched import FAULTS, with_fault


class Handle:
    """A circuit under test with the operations the model says it has."""

    def __init__(self, name, circuit, ops, n):
        self.name = name
        self.c = circuit
        self.ops = list(ops)
        self.n = n
        self.default = None

    def unitary(self):
        return rm.is_unitary(self.ops)


class Kept:
    """A result handed out earlier, with a deep snapshot."""

    def __init__(self, what, value):
        self.what = what
        self.value = value
        self.snap = copy.deepcopy(value)


def same_result(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same_result(x, y) for x, y in zip(a, b))
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and gen.close(a, b)
    if isinstance(a, dict):
        return isinstance(b, dict) and dict(a) == dict(b)
    return a == b


def show(r):
    if isinstance(r, tuple):
        return "(" + ", ".join(show(x) for x in r) + ")"
    if isinstance(r, np.ndarray):
        return "[" + " ".join("%.4f%+.4fj" % (complex(x).real, complex(x).imag) for x in r[:8]) + (" ..." if len(r) > 8 else "") + "]"
    if isinstance(r, dict):
        return gen.fmt_counts(r)
    return short(repr(r), 120)


class World:
    def __init__(self, ch, rec, max_n=4, names=None, meas=120, reset=60, user=0):
        import blueqat
        self.ch = ch
        self.rec = rec
        self.Circuit = blueqat.Circuit
        self.max_n = max_n
        self.names = names
        self.meas = meas
        self.reset = reset
        self.user = user
        self.handles = []
        self.kept = []
        self.backends = []
        self.serial = 0
        self.run_len = {}

    # ---- model-side helpers
    def new_name(self):
        self.serial += 1
        return f"c{self.serial}"

    def add(self, circuit, ops, n, note):
        h = Handle(self.new_name(), circuit, ops, n)
        self.handles.append(h)
        self.rec.op(h.name, "=", note)
        if len(self.handles) > 6:
            self.handles.pop(0)
        return h

    def pick(self):
        return self.handles[-1 - self.ch.draw(len(self.handles))]

    def new_circuit(self):
        ch = self.ch
        n = ch.range(1, self.max_n)
        explicit = ch.draw(2)
        ops = gen.program(ch, n, gen.size(ch, 0, 8), self.meas, self.reset, self.names, self.user)
        c = self.Circuit(n) if explicit else self.Circuit()
        if not explicit and ops:
            # negative and slice targets need the size to be known first
            ops = [Op("i", (), n - 1)] + ops
        for o in ops:
            o.apply_to(c)
        nq = n if explicit else rm.n_qubits_of(ops)
        return self.add(c, ops, nq, f"Circuit({n if explicit else ''})" + "".join(f".{o}" for o in ops))

    def append(self, h, many=1):
        for _ in range(many):
            n = max(h.n, 1)
            if n < self.max_n and self.ch.chance(120):
                n += 1
            o = gen.any_op(self.ch, n, self.meas, self.reset, self.names, self.user)
            if n > h.n:
                o = Op("h", (), n - 1)
            r = o.apply_to(h.c)
            check(r is h.c, "chaining", "applying a gate returned another object")
            h.ops.append(o)
            h.n = max(h.n, rm.max_index(o.targets) + 1)
            self.rec.op(f"{h.name}.{o}")

    def fresh(self, h, backend=None):
        """A newly built circuit with the same operations."""
        c = self.Circuit(h.n)
        for o in h.ops:
            o.apply_to(c)
        return c

    # ---- checks
    def check_kept(self):
        for k in self.kept:
            check(same_result(k.value, k.snap), "earlier-result-changed",
                  "the result of %s, returned earlier, was changed: %s -> %s",
                  k.what, show(k.snap), show(k.value))

    def check_shape(self, h):
        check(h.c.n_qubits == h.n, "n-qubits", "%s has n_qubits %r, expected %r",
              h.name, h.c.n_qubits, h.n)
        check(len(h.c.ops) == len(h.ops), "ops", "%s has %d operations, expected %d",
              h.name, len(h.c.ops), len(h.ops))

    def run_options(self):
        ch = self.ch
        k = ch.draw(10)
        if k < 4:
            kw = {}
        elif k < 6:
            kw = {"shots": gen.size(ch, 1, 40)}
        elif k < 8:
            kw = {"shots": gen.size(ch, 1, 25), "returns": "statevector_and_shots"}
        elif k == 8:
            kw = {"returns": "statevector"}
        elif ch.chance(60):
            kw = {"returns": ch.pick(["shots", "statevector_and_shots"])}     # the default number of shots
        else:
            kw = {"returns": "shots", "shots": gen.size(ch, 1, 40)}
        if ch.chance(100):
            kw["ignore_global"] = True
        return kw

    def do_run(self, h, kw, **more):
        return h.c.run(**kw, **more)
