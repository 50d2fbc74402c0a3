"""C12: QASM-runner backends submit exactly the circuit, once per run."""
import threading

from .. import fakeqiskit, gen, opcmp, qasm, refmodel as rm, usergates
from ..core import Violation, check
from ..refmodel import Op
from ..sched import FAULTS, Scheduler, with_fault
from .base import Check


ERRORS = [ConnectionError, TimeoutError, OSError, RuntimeError, KeyError, ValueError, AttributeError, TypeError,
          ImportError, KeyboardInterrupt, ConnectionResetError, ConnectionAbortedError, ConnectionRefusedError,
          BrokenPipeError, InterruptedError, EOFError, PermissionError, FileNotFoundError, BlockingIOError,
          NotImplementedError, IndexError, AssertionError, ArithmeticError, MemoryError, SystemExit, UserWarning,
          ModuleNotFoundError, Exception]


class RunnerFails(Exception):
    pass


class Token:
    """What a runner returns; told apart by identity."""

    def __init__(self, k):
        self.k = k

    def __eq__(self, other):
        return self is other

    __hash__ = object.__hash__


class Runner:
    """A QASM runner of the user, e.g. a connection: it records what it is given and may fail."""

    def __init__(self, name):
        self.name = name
        self.calls = []
        self.fail = None
        self.lock = threading.Lock()        # connections cannot be copied or pickled

    def __call__(self, qasm, *args, **kwargs):
        t = Token(len(self.calls))
        self.calls.append((qasm, args, kwargs, t))
        if self.fail is not None:
            e, self.fail = self.fail, None
            raise e
        return t

    def method(self, qasm, *args, **kwargs):
        return self(qasm, *args, **kwargs)


class Handle:
    def __init__(self, name, c, ops, n, default):
        self.name, self.c, self.ops, self.n, self.default = name, c, list(ops), n, default


class C12(Check):
    ID = "C12"
    TECHNIQUE = ("seeded histories of submissions to simulated QASM services (a recording runner, and a simulated Qiskit "
                 "installation) with failing, missing, broken and recovering services, interrupts and threads; each "
                 "submitted program is read back and compared with the circuit's model")
    LEVEL_NOTE = ("Sampled programs and histories. Programs are compared as outcome-resolved density matrices from |0..0>, "
                  "so global phases are ignored. The Qiskit API is simulated, the installed one is not called.")
    QUICK = 4500
    THOROUGH = 80000
    RULE = ("1-4 circuits of 1-4 qubits with measurements, resets and user gates; 3-24 steps: append, copy, +, +=, dagger, "
            "runs through 1-2 generated backends (by name, run_with_, default backend or instance) with random arguments, "
            "failing runners and gates, interrupted runs, 2-3 threads; and for the Qiskit backend runs with every "
            "`returns`, shots, backend and failure of import, parsing, execution, result and counts, switching between "
            "absent, incomplete, broken and working installations. Non-trivial = at least two submissions were compared.")
    REAL = ["blueqat.circuit", "blueqat.gate", "QasmOutputBackend", "QasmParsableBackend", "ibmq_backend", "import system",
            "real threads"]
    STUB = ["QASM runner", "qiskit (module, jobs, results)", "thread scheduler"]

    def run(self, ch, rec):
        usergates.make()
        from blueqat import Circuit, BlueqatGlobalSetting
        from blueqat.backends.qasm_parser_backend_generator import generate_backend
        self.Circuit = Circuit
        self.done = 0
        self.user = ch.pick([0, 0, 120])
        self.meas, self.reset = ch.pick([(200, 80), (0, 0), (100, 100)])
        ch.tiny = ch.draw(3) == 2
        self.runners = {}
        self.factories = {}
        for i in range(ch.range(1, 2)):
            r = Runner(f"r{i}")
            f = [r, r.method, lambda q, *a, r=r, **k: r(q, *a, **k)][ch.draw(3)]
            self.factories[f"dstq{i}"] = generate_backend(f)
            BlueqatGlobalSetting.register_backend(f"dstq{i}", self.factories[f"dstq{i}"])
            self.runners[f"dstq{i}"] = r
        self.hs = []
        self.serial = 0
        self.do_new(ch, rec, None)
        self.st = fakeqiskit.State()
        self.st.rng.seed(ch.bytes_seed())
        with fakeqiskit.Installation(self.st) as inst:
            self.inst = inst
            for _ in range(gen.size(ch, 3, 24)):
                with ch.span("step"):
                    if len(self.hs) > 4:
                        self.hs.pop(0)
                    h = self.hs[-1 - ch.draw(len(self.hs))]
                    act = ch.weighted([(6, "run"), (4, "append"), (6, "qiskit"), (2, "derive"), (2, "fail"),
                                       (2, "interrupt"), (1, "threads"), (1, "new"), (1, "default"), (1, "gatefail")])
                    getattr(self, "do_" + act)(ch, rec, h)
                    for x in self.hs:
                        opcmp.check_ops(x.c.ops, x.ops, x.name, "circuit-modified")
                        check(x.c.n_qubits == x.n, "circuit-modified", "%s has %r qubits, had %d", x.name, x.c.n_qubits, x.n)
                    rec.state(act, self.st.mode, [(x.n, x.default, [o.key() for o in x.ops]) for x in self.hs])
        rec.nontrivial = self.done >= 2

    # ---- circuits
    def do_new(self, ch, rec, _):
        n = gen.width(ch, 4, 7)
        ops = gen.program(ch, n, gen.size(ch, 0, 9), self.meas, self.reset, None, self.user)
        self.add(rec, gen.build(self.Circuit, ops, n), ops, n, None, f"Circuit({n})" + "".join(f".{o}" for o in ops))

    def add(self, rec, c, ops, n, default, note):
        self.serial += 1
        h = Handle(f"c{self.serial}", c, ops, n, default)
        self.hs.append(h)
        rec.op(h.name, "=", note)
        return h

    def do_append(self, ch, rec, h):
        for _ in range(ch.range(1, 2)):
            o = gen.any_op(ch, h.n, self.meas, self.reset, None, self.user)
            o.apply_to(h.c)
            h.ops = h.ops + [o]
            rec.op(f"{h.name}.{o}")

    def do_default(self, ch, rec, h):
        b = ch.pick(list(self.runners))
        h.c.set_default_backend(b)
        h.default = b
        rec.op(f"{h.name}.set_default_backend({b!r})")

    def do_derive(self, ch, rec, h):
        k = ch.draw(4)
        if k <= 1:
            cb = k == 0 or ch.draw(2) == 1
            self.add(rec, h.c.copy(copy_backends=cb), h.ops, h.n, h.default, f"{h.name}.copy({cb})")
        elif k == 2:
            g = self.hs[ch.draw(len(self.hs))]
            if len(h.ops) + len(g.ops) < 40:
                self.add(rec, h.c + g.c, h.ops + g.ops, max(h.n, g.n), h.default, f"{h.name} + {g.name}")
        else:
            g = self.hs[ch.draw(len(self.hs))]
            if g is not h and len(h.ops) + len(g.ops) < 40:
                c = h.c
                c += g.c
                h.ops = h.ops + g.ops
                h.n = max(h.n, g.n)
                rec.op(f"{h.name} += {g.name}")

    # ---- submissions to generated backends
    def call(self, ch, h):
        """(thunk, runner, args, kwargs) of a submission."""
        b = ch.pick(list(self.runners))
        way = ch.draw(4)
        args = tuple(ch.pick([1, "a", None, 2.5]) for _ in range(ch.draw(3)))
        kwargs = {k: ch.draw(9) for k in ch.subset(["shots", "returns", "output_prologue", "token", "ignore_global"], ch.draw(3))}
        c = h.c
        if way == 3 and h.default:
            b = h.default
            f = lambda: c.run(*args, **kwargs)
        elif way == 1:
            f = lambda: getattr(c, "run_with_" + b)(*args, **kwargs)
        elif way == 2:
            inst = self.factories[b]()
            if ch.draw(2):
                inst = inst.copy()
            f = lambda: c.run(*args, backend=inst, **kwargs)
        else:
            f = lambda: c.run(*args, backend=b, **kwargs)
        return f, self.runners[b], args, kwargs

    def program(self, text, ops, n, what):
        got, k = qasm.parse(text)
        check(k == n, "wrong-program", "%s: the program has %d qubits, the circuit %d", what, k, n)
        a, b = qasm.meaning(got, n), qasm.meaning(ops, n)
        if a is None or b is None:
            return
        check(qasm.same_meaning(a, b), "wrong-program", "%s: the program means %s, the circuit is %s", what, got, ops)
        self.done += 1

    def submitted(self, h, call, args, kwargs, what):
        text, a, k, t = call
        check(isinstance(text, str), "wrong-program", "%s: the runner got %r", what, text)
        self.program(text, h.ops, h.n, what)
        check(a == args and k == kwargs, "wrong-arguments", "%s: the runner got %s %s, the caller gave %s %s", what, a, k,
              args, kwargs)

    def run_(self, rec, h, f, r, args, kwargs):
        before = len(r.calls)
        others = {x.name: len(x.calls) for x in self.runners.values() if x is not r}
        v = f()
        what = f"{h.name} on {r.name}{args}{kwargs}"
        rec.op("run", what)
        check(len(r.calls) == before + 1, "not-once", "%s: the runner was called %d times", what, len(r.calls) - before)
        check(all(len(x.calls) == others[x.name] for x in self.runners.values() if x is not r), "other-runner",
              "%s: another runner was called", what)
        self.submitted(h, r.calls[-1], args, kwargs, what)
        check(v is r.calls[-1][3], "wrong-result", "%s returned %r instead of the runner's result", what, v)

    def do_run(self, ch, rec, h):
        self.run_(rec, h, *self.call(ch, h))

    def do_fail(self, ch, rec, h):
        f, r, args, kwargs = self.call(ch, h)
        e = ch.pick([RunnerFails, StopIteration] + ERRORS)("service")
        r.fail = e
        before = len(r.calls)
        try:
            v = f()
        except BaseException as x:
            if isinstance(x, Violation):
                raise
            if x is not e:
                raise
            rec.fault("runner-raises")
            rec.op(f"run {h.name} on {r.name}: the runner raises {type(e).__name__}")
        else:
            raise Violation("swallowed", f"the runner raised {e!r}, the run returned {v!r}")
        check(len(r.calls) == before + 1, "not-once", "a failing runner was called %d times", len(r.calls) - before)
        self.submitted(h, r.calls[-1], args, kwargs, "a failing run")

    def do_gatefail(self, ch, rec, h):
        f, r, args, kwargs = self.call(ch, h)
        usergates.arm(ch.draw(4))
        before = len(r.calls)
        try:
            f()
        except usergates.Injected:
            rec.fault("user-code-raises")
            rec.op(f"run {h.name} on {r.name}: a user gate raises")
            check(len(r.calls) == before, "submitted-anyway", "a gate failed and a program was submitted")
        else:
            self.submitted(h, r.calls[-1], args, kwargs, "a run")
        finally:
            usergates.disarm()

    def do_interrupt(self, ch, rec, h):
        f, r, args, kwargs = self.call(ch, h)
        before = len(r.calls)
        k, v, fired = with_fault(rec, f, ch.pick(FAULTS), ch.loguniform(10))
        rec.op(f"interrupted run of {h.name} on {r.name}: {k}, fired={fired}")
        if k == "raised" and not fired:
            raise v
        made = len(r.calls) - before
        check(made == 1 if k == "ok" else made <= 1, "not-once", "an interrupted run called the runner %d times", made)
        if made:
            self.submitted(h, r.calls[-1], args, kwargs, "an interrupted run")

    def do_threads(self, ch, rec, h):
        sch = Scheduler(ch, rec, gap_bits=ch.pick([5, 8, 11]), attr_only=ch.draw(2) == 1)
        jobs = []
        start = {r.name: len(r.calls) for r in self.runners.values()}
        for t in range(ch.range(2, 3)):
            g = h if ch.draw(2) == 0 else ch.pick(self.hs)
            b = ch.pick(list(self.runners))
            many = ch.range(1, 2)
            out = []

            def body(g=g, b=b, t=t, many=many, out=out):
                for j in range(many):
                    out.append(g.c.run(backend=b, tag=(t, j)))
            jobs.append((g, b, t, many, out))
            sch.spawn(f"T{t}", body)
        sch.run()
        for task in sch.tasks:
            if task.exc is not None:
                raise task.exc
        rec.op("threads submitted", [(g.name, b, m) for g, b, _, m, _ in jobs])
        for g, b, t, many, out in jobs:
            r = self.runners[b]
            for j in range(many):
                mine = [c for c in r.calls[start[r.name]:] if c[2] == {"tag": (t, j)}]
                check(len(mine) == 1, "not-once", "thread %d's submission %d reached the runner %d times", t, j, len(mine))
                self.submitted(g, mine[0], (), {"tag": (t, j)}, f"thread {t}")
                check(out[j] is mine[0][3], "wrong-result", "thread %d got another thread's result", t)
        total = sum(len(r.calls) - start[r.name] for r in self.runners.values())
        check(total == sum(m for _, _, _, m, _ in jobs), "not-once", "%d submissions for %d runs", total,
              sum(m for _, _, _, m, _ in jobs))

    # ---- the Qiskit backend
    def do_qiskit(self, ch, rec, h):
        st = self.st
        k = ch.draw(10)
        if k == 7:
            self.inst.set("absent")
        elif k == 8:
            self.inst.set("incomplete")
        elif k == 9:
            self.inst.set("broken", ch.pick([RuntimeError, OSError, SyntaxError, AttributeError, ImportError,
                                             ModuleNotFoundError, ValueError])("broken installation"))
        else:
            self.inst.set("ok")
        if st.mode != "ok":
            rec.fault("qiskit-" + st.mode)
        returns = ch.pick([None, "shots", "qiskit_circuit", "qiskit_job", "qiskit_result", "draw", "_exception", "what"])
        kw = {} if returns is None else {"returns": returns}
        shots = ch.pick([None, 1, 100, 1024])
        be = ch.pick([None, fakeqiskit.FakeBackend("given")])
        if shots:
            kw["shots"] = shots
        if be:
            kw["qiskit_backend"] = be
        extra = {} if ch.draw(3) < 2 else {"seed_simulator": 7}
        c = h.c
        f = (lambda: c.run_with_ibmq(**kw, **extra)) if ch.draw(2) else (lambda: c.run(backend="ibmq", **kw, **extra))
        stages = {None: ["parse", "execute", "result", "get_counts"], "shots": ["parse", "execute", "result", "get_counts"],
                  "qiskit_circuit": ["parse"], "qiskit_job": ["parse", "execute"],
                  "qiskit_result": ["parse", "execute", "result"], "draw": ["parse", "draw"], "_exception": [],
                  "what": []}[returns]
        fail = None
        if st.mode == "ok" and ch.draw(4) == 3 and stages:
            fail = (ch.pick(stages), ch.pick([fakeqiskit.ServiceError, ConnectionError] + ERRORS)("service"))
        st.fail = fail
        if fail is None and ch.draw(8) == 7:
            return self.qiskit_interrupted(ch, rec, h, f)
        before, stages0 = len(st.calls), len(st.stages)
        note = f"{h.name} via Qiskit ({st.mode}) {sorted(kw, key=str)} returns={returns} failing={fail and fail[0]}"
        try:
            v = f()
            exc = None
        except BaseException as e:
            if isinstance(e, Violation):
                raise
            v, exc = None, e
        st.fail = None
        made = st.calls[before:]
        rec.op(note, "->", type(exc).__name__ if exc else type(v).__name__)
        if returns == "what":
            check(isinstance(exc, ValueError), "returns", "an unknown `returns` gave %r %r", exc, v)
            check(not made, "submitted-anyway", "an unknown `returns` was submitted")
            return
        if returns == "_exception":
            if exc is not None:
                raise exc
            if st.mode == "ok":
                check(v is None, "exception-result", "nothing failed, _exception is %r", v)
            elif st.mode == "broken":
                check(v is st.exc, "exception-result", "_exception is %r, importing raised %r", v, st.exc)
            else:
                check(isinstance(v, ImportError), "exception-result", "_exception is %r", v)
            check(not made, "submitted-anyway", "_exception submitted a job")
            return
        if st.mode != "ok":
            want = ImportError if st.mode != "broken" or isinstance(st.exc, ImportError) else ValueError
            check(exc is not None, "no-error", "%s: no exception, result %r", note, v)
            check(isinstance(exc, want) and (want is ImportError or not isinstance(exc, ImportError)), "wrong-error",
                  "%s: raised %r, expected %s", note, exc, want.__name__)
            check(not made, "submitted-anyway", "a job was submitted")
            return
        if fail is not None:
            rec.fault("service-raises-in-" + fail[0])
            check(exc is fail[1], "swallowed", "%s: raised %r / returned %r instead of the service's error", note, exc, v)
            check(len(made) <= 1, "not-once", "%d jobs were submitted", len(made))
            return
        if exc is not None:
            raise exc
        check(len(made) == ("execute" in stages), "not-once", "%s submitted %d jobs", note, len(made))
        if returns == "qiskit_circuit":
            self.program(v.dst[2], h.ops, h.n, note)
            return
        if returns == "draw":
            check(v[0] == "drawing" and v[2] == extra, "draw", "the drawing is %r", v)
            self.program(v[1].dst[2], h.ops, h.n, note)
            return
        job = made[0]
        self.program(job["text"], h.ops, h.n, note)
        check(job["shots"] == (shots or 1024), "shots", "%s: %d shots were requested", note, job["shots"])
        check((job["backend"] is be) if be else (getattr(job["backend"], "name", None) == "qasm_simulator"),
              "wrong-backend", "%s: executed on %r", note, job["backend"])
        check(job["kwargs"] == extra, "wrong-arguments", "%s: execute got %s", note, job["kwargs"])
        if returns == "qiskit_job":
            check(isinstance(v, fakeqiskit.Job) and v.call is job, "wrong-result", "%s returned %r", note, v)
        elif returns == "qiskit_result":
            check(isinstance(v, fakeqiskit.Result) and v.call is job, "wrong-result", "%s returned %r", note, v)
        else:
            check(dict(v) == (job["counts"] or {}), "wrong-counts", "%s returned %s, the service counted %s", note, v,
                  job["counts"])

    def qiskit_interrupted(self, ch, rec, h, f):
        before = len(self.st.calls)
        k, v, fired = with_fault(rec, f, ch.pick(FAULTS), ch.loguniform(9))
        rec.op(f"interrupted run of {h.name} via Qiskit ({self.st.mode}): {k}, fired={fired}")
        check(len(self.st.calls) - before <= 1, "not-once", "an interrupted run submitted %d jobs", len(self.st.calls) - before)


CHECK = C12()
