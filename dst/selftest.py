"""Checks of the machinery that do not depend on what blueqat does."""
import numpy as np

from . import gen, refmodel as rm, sched
from .core import Choices, Recorder, Violation


def _same_choices():
    a = Choices(seed=7)
    va = [a.draw(10), a.angle(), a.loguniform(8), a.perm(5)]
    b = Choices(prefix=a.seq)
    assert va == [b.draw(10), b.angle(), b.loguniform(8), b.perm(5)]


def _locks():
    ch, rec = Choices(seed=3), Recorder()
    s = sched.Scheduler(ch, rec)
    lock, out = sched.SimRLock(), []

    def body(k):
        def f():
            with lock:
                with lock:
                    out.append(k)
        return f
    for k in range(3):
        s.spawn(str(k), body(k))
    s.run()
    assert sorted(out) == [0, 1, 2]
    a, b = sched.SimLock(), sched.SimLock()

    def ab(x, y, t):
        def f():
            x.acquire()
            cur = sched._current()
            cur[0].yield_now()
            y.acquire()
        return f
    s = sched.Scheduler(Choices(prefix=[1] * 40), Recorder())
    s.spawn("A", ab(a, b, 0))
    s.spawn("B", ab(b, a, 1))
    try:
        s.run()
    except Violation as v:
        assert v.cls == "deadlock"
    else:
        raise AssertionError("deadlock not found")


def _model():
    bell = [rm.Op("h", (), 0), rm.Op("cx", (), (0, 1))]
    v = rm.statevector(bell, 2)
    assert np.allclose(v, [2 ** -.5, 0, 0, 2 ** -.5])
    br = rm.branches(bell + [rm.Op("m", (), slice(None))], 2)
    assert sorted((round(b[0], 6), b[2]) for b in br) == [(0.5, "00"), (0.5, "11")]


def _stats():
    assert gen.freq_violation({"a": 500, "b": 500}, {"a": .5, "b": .5}, 1000) is None
    assert gen.freq_violation({"a": 700, "b": 300}, {"a": .5, "b": .5}, 1000) is not None


def main():
    for f in (_same_choices, _locks, _model, _stats):
        f()
        print("selftest", f.__name__, "ok")
    return 0
