"""Deterministic scheduler for caller threads, and injection of asynchronous faults.

Each task is a real thread, but exactly one holds the baton.  sys.monitoring opcode
events in blueqat's own frames are the yield points; the gap to the next decision
and who runs next are drawn from the run's choice sequence, so the interleaving is
a pure function of it.  Exceptions (interrupt, memory exhaustion, deadline) are
injected at opcodes at which CPython can surface them.
"""
import _thread
import dis
import hashlib
import sys
import threading
from contextlib import contextmanager

from . import env
from .core import Violation, HarnessError

_RealLock = _thread.allocate_lock
_RealRLock = threading.RLock
_tls = {}          # thread ident -> (scheduler, task)


def _current():
    return _tls.get(_thread.get_ident())


class SimLock:
    """threading.Lock for the code under test: blocking is a scheduling decision."""

    def __init__(self):
        self._l = _RealLock()

    def acquire(self, blocking=True, timeout=-1):
        cur = _current()
        if cur is None or not blocking:
            return self._l.acquire(blocking, timeout)
        s, t = cur
        while not self._l.acquire(False):
            if timeout >= 0:
                return False
            s.block(t, self)
        return True

    def release(self):
        self._l.release()
        cur = _current()
        if cur is not None:
            cur[0].unblock(self)

    def locked(self):
        return self._l.locked()

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    def __reduce_ex__(self, p):
        raise TypeError("cannot pickle '_thread.lock' object")

    def _at_fork_reinit(self):
        self._l = _RealLock()


class SimRLock:
    def __init__(self):
        self._l = SimLock()
        self._owner = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        if self._owner == me:
            self._count += 1
            return True
        if not self._l.acquire(blocking, timeout):
            return False
        self._owner = me
        self._count = 1
        return True

    def release(self):
        if self._owner != _thread.get_ident():
            raise RuntimeError("cannot release un-acquired lock")
        self._count -= 1
        if not self._count:
            self._owner = None
            self._l.release()

    def _is_owned(self):
        return self._owner == _thread.get_ident()

    def _release_save(self):
        st = (self._count, self._owner)
        self._count = 0
        self._owner = None
        self._l.release()
        return st

    def _acquire_restore(self, st):
        self._l.acquire()
        self._count, self._owner = st

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    def __reduce_ex__(self, p):
        raise TypeError("cannot pickle '_thread.RLock' object")

    def _at_fork_reinit(self):
        self.__init__()


def install_locks():
    import numpy, scipy.optimize, scipy.sparse, logging, warnings, random, copy, pickle  # noqa
    try:
        import sympy  # noqa
    except ImportError:
        pass
    threading.Lock = SimLock
    threading.RLock = SimRLock


# ------------------------------------------------------------------ opcodes

_ATTR_OPS = {"STORE_ATTR", "LOAD_ATTR", "STORE_GLOBAL", "LOAD_GLOBAL", "STORE_SUBSCR",
             "DELETE_SUBSCR", "BINARY_SUBSCR", "DELETE_ATTR", "LOAD_METHOD"}
_FAULT_OPS_PREFIX = ("CALL", "BINARY_", "BUILD_", "JUMP_BACKWARD", "FOR_ITER", "RESUME",
                     "STORE_SUBSCR", "LIST_", "GET_ITER", "COMPARE_OP", "CONTAINS_OP",
                     "MAKE_FUNCTION", "FORMAT_VALUE", "UNPACK", "SET_", "DICT_", "MAP_ADD")
_opcache = {}


def _classes(code):
    """offset -> bit 1: attribute/global/item access, bit 2: exception may surface."""
    r = _opcache.get(code)
    if r is None:
        r = {}
        for ins in dis.get_instructions(code):
            b = 0
            if ins.opname in _ATTR_OPS:
                b |= 1
            if ins.opname.startswith(_FAULT_OPS_PREFIX):
                b |= 2
            r[ins.offset] = b
        _opcache[code] = r
    return r


_lines = {}


def _line(code, offset):
    m = _lines.get(code)
    if m is None:
        m = _lines[code] = [(a, b, ln) for a, b, ln in code.co_lines()]
    for a, b, ln in m:
        if a <= offset < b:
            return ln
    return 0


_mon = sys.monitoring
_TOOL = 3
_active = False


@contextmanager
def tracing(callback):
    """Call callback(code, offset) before every opcode of blueqat's own code, in every thread."""
    global _active
    if _active:
        raise HarnessError("tracing is already on")
    _active = True
    if _mon.get_tool(_TOOL) is None:
        _mon.use_tool_id(_TOOL, "dst")
    ev = _mon.events.INSTRUCTION
    _mon.register_callback(_TOOL, ev, callback)
    for c in env.CODES:
        _mon.set_local_events(_TOOL, c, ev)
    try:
        yield
    finally:
        _mon.register_callback(_TOOL, ev, None)
        for c in env.CODES:
            _mon.set_local_events(_TOOL, c, 0)
        _active = False


class InjectedTimeout(BaseException):
    """Stands for whatever a signal handler of the caller raises (deadline etc.)."""


FAULTS = [KeyboardInterrupt, MemoryError, InjectedTimeout]


class Task:
    def __init__(self, idx, name, fn):
        self.idx = idx
        self.name = name
        self.fn = fn
        self.lock = _RealLock()
        self.lock.acquire()
        self.state = "ready"
        self.blocked_on = None
        self.result = None
        self.exc = None
        self.fault_at = None       # countdown to an injected exception
        self.fault_cls = None
        self.fault_fired = False
        self.group = None


class Scheduler:
    MAX_DECISIONS = 4000

    def __init__(self, ch, rec, gap_bits=11, attr_only=False, max_steps=6_000_000, where=None):
        self.ch = ch
        self.rec = rec
        self.gap_bits = gap_bits
        self.attr_only = attr_only
        self.tasks = []
        self.main = _RealLock()
        self.main.acquire()
        self.steps = 0
        self.max_steps = max_steps
        self.gap = 0
        self.decisions = 0
        self.switches = 0
        self.hash = hashlib.blake2b(digest_size=10)
        self.abort = None
        self.forked = 0
        # Half of the schedules preempt, from some point on, in one function only: the m-th
        # one that is entered.  Races inside one function need their switches close together.
        m = ch.draw(48)
        self.focus = None
        self.focus_in = m - 24 if m >= 24 else -1
        self.focus_bits = ch.range(3, 6) if self.focus_in >= 0 else 0
        # Or only in files whose path contains `where`, with evenly distributed gaps.
        self.where = where
        if where:
            self.focus_in = -1
        self.seen = set()

    def spawn(self, name, fn, fault=None, fault_after=0):
        t = Task(len(self.tasks), name, fn)
        if fault is not None:
            t.fault_cls = fault
            t.fault_at = fault_after
        self.tasks.append(t)
        return t

    # -- scheduling decisions (only the baton holder calls these)
    def _new_gap(self):
        if self.decisions >= self.MAX_DECISIONS:
            self.gap = 1 << 60
            return
        self.decisions += 1
        if self.focus is not None or self.where:
            self.gap = 1 + self.ch.draw(1 << self.gap_bits)
            return
        g = self.ch.loguniform(self.gap_bits)
        self.gap = g if g else 1 << 60

    def _runnable(self):
        return [t for t in self.tasks if t.state == "ready"]

    def _pick(self, prefer=None):
        r = self._runnable()
        if not r:
            return None
        if prefer is not None and prefer in r:
            r.remove(prefer)
            r.insert(0, prefer)
        return r[self.ch.draw(len(r))]

    def _switch(self, me, nxt):
        if nxt is me:
            return
        self.switches += 1
        self.cur = nxt
        nxt.lock.release()
        me.lock.acquire()
        if self.abort is not None:
            raise SystemExit

    def _decide(self, me, code, offset):
        # at a decision point prefer moving to another task: index 0 = stay
        nxt = self._pick(prefer=me)
        self._new_gap()
        if nxt is not me:
            where = f"{code.co_name}@{offset}"
            self.hash.update(f"{me.idx}>{nxt.idx}:{where};".encode())
            self.rec.ev(f"   switch {me.name} -> {nxt.name} in {code.co_name} line {_line(code, offset)}")
            self._switch(me, nxt)

    def yield_now(self):
        """A scheduling decision asked for by simulated services."""
        me = _current()[1]
        nxt = self._pick(prefer=me)
        if nxt is not me:
            self.hash.update(f"{me.idx}Y{nxt.idx};".encode())
            self._switch(me, nxt)

    def block(self, me, lock):
        me.state = "blocked"
        me.blocked_on = lock
        nxt = self._pick()
        if nxt is None:
            self._stop(Violation("deadlock", "every thread waits for a lock"))
            raise SystemExit
        self.hash.update(f"{me.idx}B{nxt.idx};".encode())
        self._switch(me, nxt)

    def unblock(self, lock):
        for t in self.tasks:
            if t.state == "blocked" and t.blocked_on is lock:
                t.state = "ready"
                t.blocked_on = None

    def fork_join(self, name, fns):
        """The running task waits for worker tasks running fns; their results, in order."""
        me = _current()[1]
        ts = []
        for i, f in enumerate(fns):
            self.forked += 1
            t = Task(100 + self.forked, f"{name}.{i}", f)
            t.group = ts
            ts.append(t)
        self.tasks += ts
        for t in ts:
            _thread.start_new_thread(self._body, (t,))
        me.state = "blocked"
        me.blocked_on = ts
        nxt = self._pick()
        self.hash.update(f"{me.idx}F{nxt.idx};".encode())
        self._switch(me, nxt)
        self.tasks = [t for t in self.tasks if t not in ts]
        for t in ts:
            if t.exc is not None:
                raise t.exc
        return [t.result for t in ts]

    def _stop(self, why):
        if self.abort is None:
            self.abort = why

    # -- tracing
    def _event(self, code, offset):
        cur = _current()
        if cur is None or cur[0] is not self:
            return
        task = cur[1]
        self.steps += 1
        if self.steps > self.max_steps:
            self._stop(Violation("no-progress", f"threads still running after {self.max_steps} steps"))
            raise SystemExit
        cls = None
        if task.fault_at is not None:
            cls = _classes(code).get(offset, 0)
            if cls & 2:
                task.fault_at -= 1
                if task.fault_at < 0:
                    task.fault_at = None
                    task.fault_fired = True
                    self.hash.update(f"{task.idx}!{code.co_name}@{offset};".encode())
                    self.rec.ev(f"   {task.fault_cls.__name__} strikes {task.name} in "
                                f"{code.co_name} line {_line(code, offset)}")
                    self.rec.fault(task.fault_cls.__name__)
                    raise task.fault_cls("injected")
        if self.attr_only:
            if cls is None:
                cls = _classes(code).get(offset, 0)
            if not cls & 1:
                return
        if self.where and self.where not in code.co_filename:
            return
        if self.focus_in >= 0:
            if self.focus is None:
                if code not in self.seen:
                    self.seen.add(code)
                    if len(self.seen) > self.focus_in:
                        self.focus = code
                        self.gap_bits = self.focus_bits
                        self._new_gap()
                        self.rec.ev(f"   preempting in {code.co_name} only")
            if self.focus is not None and code is not self.focus:
                return
        self.gap -= 1
        if self.gap <= 0:
            self._decide(task, code, offset)

    def _body(self, task):
        task.lock.acquire()
        ident = _thread.get_ident()
        _tls[ident] = (self, task)
        try:
            if self.abort is None:
                task.result = task.fn()
        except SystemExit:
            pass
        except BaseException as e:  # noqa
            task.exc = e
        finally:
            _tls.pop(ident, None)
            task.state = "done"
            if task.group is not None and all(t.state == "done" for t in task.group):
                self.unblock(task.group)
            if self.abort is not None:
                nxt = next((t for t in self.tasks if t.state != "done"), None)
            else:
                nxt = self._pick()
                if nxt is None and any(t.state == "blocked" for t in self.tasks):
                    self._stop(Violation("deadlock", "a thread ended and the rest wait for a lock"))
                    nxt = next(t for t in self.tasks if t.state == "blocked")
            if nxt is None:
                self.main.release()
            else:
                self.hash.update(f"{task.idx}E{nxt.idx};".encode())
                self.rec.ev(f"   {task.name} ended; {nxt.name} runs")
                nxt.lock.release()

    def run(self):
        if not self.tasks:
            return
        for t in self.tasks:
            _thread.start_new_thread(self._body, (t,))
        self._new_gap()
        first = self._pick()
        with tracing(self._event):
            first.lock.release()
            self.main.acquire()
        self.rec.simtime += self.steps
        h = self.hash.hexdigest()
        self.rec.inter = h if self.rec.inter is None else hashlib.blake2b(
            (self.rec.inter + h).encode(), digest_size=10).hexdigest()
        self.rec.fault("preemption", self.switches) if self.switches else None
        if self.abort is not None:
            raise self.abort
        for t in self.tasks:
            if isinstance(t.exc, HarnessError):
                raise t.exc


def with_fault(rec, fn, fault, after):
    """Call fn(); at the `after`-th eligible opcode in blueqat code raise `fault`.

    Returns (kind, value, fired): kind 'ok' or 'raised'."""
    state = [after, False]
    me = _thread.get_ident()

    def event(code, offset):
        if _thread.get_ident() != me:
            return
        rec.simtime += 1
        if state[0] >= 0 and _classes(code).get(offset, 0) & 2:
            state[0] -= 1
            if state[0] < 0:
                state[1] = True
                rec.fault(fault.__name__)
                at = f"{fault.__name__}:{code.co_name}@{offset}"
                rec.ev(f"   {fault.__name__} strikes in {code.co_name} line {_line(code, offset)}")
                rec.inter = hashlib.blake2b(((rec.inter or "") + at).encode(), digest_size=10).hexdigest()
                raise fault("injected")

    try:
        with tracing(event):
            v = fn()
    except BaseException as e:  # noqa
        if isinstance(e, (HarnessError, Violation)):
            raise
        return "raised", e, state[1]
    return "ok", v, state[1]
