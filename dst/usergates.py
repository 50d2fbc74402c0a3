"""User-defined gates and backends of the simulated callers, which may fail on schedule."""
import numpy as np

from . import refmodel as rm


class Injected(Exception):
    """Raised by a user-defined gate, backend, sampler, service ... of the workload."""


PLAN = {"countdown": -1, "fired": 0}


def arm(n):
    PLAN["countdown"] = n


def disarm():
    PLAN["countdown"] = -1


def tick(what):
    if PLAN["countdown"] >= 0:
        PLAN["countdown"] -= 1
        if PLAN["countdown"] < 0:
            PLAN["fired"] += 1
            raise Injected(what)


_made = {}


def make():
    """Gate and backend classes (they subclass blueqat's public base classes)."""
    if _made:
        return _made
    from blueqat import gate, BlueqatGlobalSetting
    from blueqat.backends.backendbase import Backend
    from blueqat.backends.numpy_backend import NumPyBackend

    class Flaky(gate.OneQubitGate):
        """RY(theta) then H on each target, by fallback; may raise."""
        lowername = "dstflaky"

        def __init__(self, targets, theta, **kwargs):
            super().__init__(targets, (theta,), **kwargs)
            self.theta = theta

        def fallback(self, n_qubits):
            tick("gate fallback")
            return self._make_fallback_for_target_iter(
                n_qubits, lambda t: [gate.RYGate(t, self.theta), gate.HGate(t)])

        def dagger(self):
            tick("gate dagger")
            return FlakyDag(self.targets, self.theta)

    class FlakyDag(gate.OneQubitGate):
        lowername = "dstflakydg"

        def __init__(self, targets, theta, **kwargs):
            super().__init__(targets, (theta,), **kwargs)
            self.theta = theta

        def fallback(self, n_qubits):
            tick("gate fallback")
            return self._make_fallback_for_target_iter(
                n_qubits, lambda t: [gate.HGate(t), gate.RYGate(t, -self.theta)])

        def dagger(self):
            tick("gate dagger")
            return Flaky(self.targets, self.theta)

    class MeasFlip(gate.OneQubitGate):
        """H then measurement, by fallback: a gate that measures halfway."""
        lowername = "dstmeas"

        def fallback(self, n_qubits):
            tick("gate fallback")
            return self._make_fallback_for_target_iter(
                n_qubits, lambda t: [gate.HGate(t), gate.Measurement(t), gate.XGate(t)])

        def dagger(self):
            raise ValueError("measurement")

    class FlakyBackend(NumPyBackend):
        """The default simulator with user-defined actions that may raise."""

        def gate_h(self, g, ctx):
            tick("backend action h")
            ctx = super().gate_h(g, ctx)
            tick("backend action h done")
            return ctx

        def gate_x(self, g, ctx):
            tick("backend action x")
            return super().gate_x(g, ctx)

        def gate_measure(self, g, ctx):
            tick("backend action measure")
            return super().gate_measure(g, ctx)

    BlueqatGlobalSetting.register_gate("dstflaky", Flaky)
    BlueqatGlobalSetting.register_gate("dstflakydg", FlakyDag)
    BlueqatGlobalSetting.register_gate("dstmeas", MeasFlip)
    BlueqatGlobalSetting.register_backend("dstflakybackend", FlakyBackend)

    rm.NPARAM.update(dstflaky=1, dstflakydg=1, dstmeas=0)
    rm.EXTRA["dstflaky"] = lambda o, n: [("u", rm.H @ rm.rot(rm.Y, o.params[0]), (q,))
                                         for q in rm.qubits_of(o.targets, n)]
    rm.EXTRA["dstflakydg"] = lambda o, n: [("u", rm.rot(rm.Y, -o.params[0]) @ rm.H, (q,))
                                           for q in rm.qubits_of(o.targets, n)]

    def meas(o, n):
        out = []
        for q in rm.qubits_of(o.targets, n):
            out += [("u", rm.H, (q,)), ("m", None, (q,)), ("u", rm.X, (q,))]
        return out
    rm.EXTRA["dstmeas"] = meas
    for k in (Flaky, FlakyDag, MeasFlip, FlakyBackend):
        k.__qualname__ = k.__name__
        globals()[k.__name__] = k
    _made.update(Flaky=Flaky, FlakyDag=FlakyDag, MeasFlip=MeasFlip, FlakyBackend=FlakyBackend,
                 NumPyBackend=NumPyBackend)
    return _made
