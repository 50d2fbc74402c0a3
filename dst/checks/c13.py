"""C13: remote Qiskit sampling yields right probabilities for every reply format."""
import numpy as np

from .. import fakeqiskit, gen, opcmp, refmodel as rm, usergates, vqeref
from ..core import Violation, check
from ..refmodel import Op
from ..sched import FAULTS, Scheduler, with_fault
from ..vqeref import ham_expr, ham_spec, scale
from .base import Check
from .c12 import ERRORS


def remap(ops, n, pos):
    """The operations with qubit q moved to pos[q]."""
    out = []
    for o in ops:
        t = o.targets
        if o.name in rm.TWO:
            pairs = list(zip(rm.qubits_of(t[0], n), rm.qubits_of(t[1], n)))
            for c, d in (pairs[::-1] if o.rev else pairs):
                out.append(Op(o.name, o.params, (pos[c], pos[d])))
            continue
        if isinstance(t, tuple) and o.name in gen.THREE_Q:
            t = tuple(pos[q] for q in rm.qubits_of(t, n))
        else:
            qs = rm.qubits_of(t, n)
            t = pos[qs[0]] if len(qs) == 1 else tuple(pos[q] for q in qs)
        out.append(Op(o.name, o.params, t))
    return out


def branches(ops, n, also=(), limit=4096):
    """rm.branches for registers of any width: (probability, {qubit: recorded bit}) pairs.

    Only the qubits in use are simulated; the others stay 0."""
    if n <= 8:
        used = list(range(n))
        br = rm.branches(ops, n, limit=limit)
    else:
        used = sorted({q for o in ops for q in flat(o.targets)} | set(also))
        pos = {q: i for i, q in enumerate(used)}
        br = rm.branches(remap(ops, n, pos), len(used), limit=limit)
    if br is None:
        return None
    return [(p, dict(zip(used, bits))) for p, _, bits, _ in br]


def flat(t):
    return t if isinstance(t, tuple) else (t,)


class C13(Check):
    ID = "C13"
    TECHNIQUE = ("a simulated Qiskit service answers every job with scripted counts in every legal reply format, and fails "
                 "on schedule at every stage; sampler answers, energies and circuits are compared with a model, under "
                 "interrupts, retries by the caller and threads")
    LEVEL_NOTE = "Sampled circuits, replies and failure schedules. The Qiskit API and service are simulated."
    QUICK = 4500
    THOROUGH = 80000
    RULE = ("circuits of 1-5 qubits (some with measurements) or of 1-3 busy qubits in registers of 40-433, 2-14 sampler calls for any qubits in any order, replies in "
            "binary, short binary, hex or padded hex keys in any order with adversarial or exact counts (1-2^20 shots), "
            "jobs failing in parse, execute, result or get_counts, missing or broken installations, interrupted calls, "
            "2-3 threads; VQE objectives over 1-5 Pauli terms with constants, also failing at any job and evaluated "
            "again. Non-trivial = at least two answers were compared.")
    REAL = ["blueqat.vqe", "blueqat.circuit", "ibmq_backend", "QasmParsableBackend", "QasmOutputBackend", "real threads"]
    STUB = ["qiskit (module, jobs, results, service)", "thread scheduler"]

    def run(self, ch, rec):
        usergates.make()
        from blueqat import Circuit, vqe
        self.Circuit, self.vqe = Circuit, vqe
        self.done = 0
        self.st = st = fakeqiskit.State()
        st.rng.seed(ch.bytes_seed())
        with fakeqiskit.Installation(st) as inst:
            self.inst = inst
            self.be = fakeqiskit.FakeBackend("remote")
            self.creation(ch, rec)
            if ch.draw(3) == 2:
                self.energies(ch, rec)
            else:
                self.samples(ch, rec)
        rec.nontrivial = self.done >= 2

    def creation(self, ch, rec):
        """Asking for a sampler without a working Qiskit says so, and works once there is one."""
        if ch.draw(6) == 5:
            mode = ch.pick(["absent", "broken"])
            self.inst.set(mode, ch.pick([ImportError, ModuleNotFoundError])("broken"))
            rec.fault("qiskit-" + mode)
            try:
                self.vqe.get_qiskit_sampler(self.be)
            except ImportError:
                rec.op("no sampler without Qiskit")
            self.inst.set("ok")

    def make(self, ch, rec, shots=None):
        kw = {}
        if shots is None:
            shots = ch.pick([None, 1, 7, 100, 1024, 4096])
        if shots is not None:
            kw["shots"] = shots
        if ch.draw(4) == 3:
            kw["seed_simulator"] = 5
        s = self.vqe.get_qiskit_sampler(self.be, **kw)
        rec.ev("sampler with", kw)
        return s, shots or 1024, kw

    # ---- replies
    def reply(self, ch, counts_of):
        """A reply function: counts (bits, qubit 0 first) -> what the service sends."""
        fmt = ch.pick(["binary", "hex", "short", "paddedhex", "wide"])
        order = ch.draw(3)

        def f(counts):
            counts = counts_of(counts)
            items = list(counts.items())
            if order == 1:
                items.reverse()
            elif order == 2:
                items.sort()
            out = {}
            for bits, v in items:
                b = bits[::-1]
                i = int(b, 2)
                if fmt == "hex":
                    k = hex(i)
                elif fmt == "paddedhex":
                    k = "0x" + format(i, "0%dx" % ((len(b) + 3) // 4))
                elif fmt == "short":
                    k = format(i, "b")
                elif fmt == "wide":
                    k = "0x" + format(i, "08x")
                else:
                    k = b
                out[k] = v
            self.sent.append((dict(counts), fmt))
            return out
        return f

    def adversarial(self, ch):
        """Arbitrary counts over the bits the program measures."""
        k = ch.range(1, 6)
        picks = [(ch.draw(1 << 16), ch.range(1, 9)) for _ in range(k)]

        def f(counts):
            call = self.last_program()
            measured = sorted({q for o in call[0] if o.name == "measure" for q in rm.qubits_of(o.targets, call[1])})
            n = call[1]
            shots = sum(counts.values())
            d = {}
            left = shots
            for j, (bits, w) in enumerate(picks):
                key = ["0"] * n
                for i, q in enumerate(measured):
                    key[q] = str((bits >> i) & 1)
                v = left if j == k - 1 else min(left, w * shots // 20)
                left -= v
                if v:
                    d["".join(key)] = d.get("".join(key), 0) + v
            return d
        return f

    def exact(self, counts):
        """Counts as close to the program's distribution as integers allow."""
        ops, n = self.last_program()
        shots = sum(counts.values())
        kp = {}
        for p, bits in branches(ops, n):
            k = "".join(bits.get(q, "0") for q in range(n))
            kp[k] = kp.get(k, 0.0) + p
        d = {k: int(p * shots) for k, p in sorted(kp.items())}
        big = max(d, key=lambda k: d[k])
        d[big] += shots - sum(d.values())
        return {k: v for k, v in d.items() if v}

    def last_program(self):
        return self.program

    def watch(self):
        """Remember the program being executed for the reply functions."""
        st = self.st
        orig = fakeqiskit.sample

        def sample(rng, ops, n, shots):
            self.program = (ops, n)
            return {"0" * n: shots}
        self._orig = orig
        fakeqiskit.sample = sample

    # ---- sampler calls
    def samples(self, ch, rec):
        n = ch.range(1, 5)
        meas = ch.pick([0, 0, 150])
        ops = gen.program(ch, n, ch.range(0, 6), meas, 0)
        if ch.draw(2):
            ops = [Op("h", (), slice(None))] + ops
        wide = ch.draw(5) == 4
        if wide:        # a few qubits of a register as wide as real devices have
            k = min(n, 3)
            ops = gen.program(ch, k, ch.range(0, 6), meas, 0)
            n = ch.pick([40, 64, 65, 70, 100, 127, 130, 433])
            ops = remap(ops, k, sorted(ch.subset(range(n), k)))
        c = gen.build(self.Circuit, ops, n)
        rec.op("circuit", n, *ops)
        samplers = [self.make(ch, rec) for _ in range(ch.range(1, 2))]
        self.watch()
        try:
            for _ in range(gen.size(ch, 2, 14)):
                with ch.span("call"):
                    s, shots, kw = ch.pick(samplers)
                    act = ch.weighted([(6, "call"), (3, "fail"), (1, "install"), (2, "interrupt"), (1, "threads"),
                                       (1, "append")])
                    if act == "append" and wide:
                        continue
                    if act == "append":
                        o = gen.any_op(ch, n, meas, 0)
                        if rm.branches(ops + [o], n, limit=256) is not None:
                            o.apply_to(c)
                            ops = ops + [o]
                            rec.op("append", o)
                        continue
                    getattr(self, act)(ch, rec, c, ops, n, s, shots, kw)
                    opcmp.check_ops(c.ops, ops, "the circuit after sampling", "circuit-modified")
                    check(c.n_qubits == n, "circuit-modified", "the circuit has %r qubits, had %d", c.n_qubits, n)
                    rec.state(act, [o.key() for o in ops])
            v = None if wide else c.run()
            check(wide or any(rm.same_ray(v, b[1]) for b in rm.branches(ops, n)), "circuit-broken", "the circuit runs wrong after all")
        finally:
            fakeqiskit.sample = self._orig

    def qubits(self, ch, n, ops=()):
        qs = tuple(ch.subset(range(n), ch.range(1, min(n, 5)))) if ch.draw(12) < 11 else ()
        if n > 8 and qs:        # idle qubits and those in use
            busy = sorted({q for o in ops for q in flat(o.targets)} - set(qs))
            if busy and ch.draw(3):
                qs = (ch.pick(busy),) + qs[1:]
        return qs, [qs, list(qs), iter(qs)][ch.draw(3)]

    def expected(self, qs, counts, shots):
        d = {}
        for bits, v in counts.items():
            k = tuple(int(bits[q]) for q in qs)
            d[k] = d.get(k, 0) + v / shots
        return d

    def judge(self, rec, qs, got, n_calls, shots, kw, what):
        jobs = self.st.calls[n_calls:]
        if not qs:
            check(got == {(): 1.0}, "wrong-probs", "%s: %s for no qubits", what, got)
            return
        check(len(jobs) == 1, "not-once", "%s submitted %d jobs", what, len(jobs))
        j = jobs[0]
        check(j["shots"] == shots, "shots", "%s: %r shots requested, expected %d", what, j["shots"], shots)
        check(j["backend"] is self.be, "wrong-backend", "%s ran on %r", what, j["backend"])
        check(j["kwargs"] == {k: v for k, v in kw.items() if k != "shots"}, "wrong-arguments", "%s: %s", what, j["kwargs"])
        want = self.expected(qs, self.sent[-1][0], shots)
        check(all(isinstance(k, tuple) and len(k) == len(qs) for k in got), "wrong-probs", "%s: keys %s", what, list(got))
        bad = any(abs(got.get(k, 0.0) - want.get(k, 0.0)) > 1e-9 for k in set(got) | set(want))
        check(not bad and abs(sum(got.values()) - 1) < 1e-9, "wrong-probs", "%s: reply %s gives %s, expected %s", what,
              j["reply"], got, want)
        self.done += 1

    def check_program(self, qs, ops, n, jobs, what):
        """The submitted program measures the requested qubits of the right state."""
        for j in jobs:
            got = branches(j["ops"], j["n"], qs)
            want = branches(ops + [Op("measure", (), q) for q in qs], n, qs)
            if got is None or want is None:
                continue

            def marg(br):
                d = {}
                for p, bits in br:
                    k = tuple(bits[q] for q in qs)
                    d[k] = d.get(k, 0.0) + p
                return d
            a, b = marg(got), marg(want)
            check(j["n"] == n and all(abs(a.get(k, 0) - b.get(k, 0)) < 1e-7 for k in set(a) | set(b)), "wrong-program",
                  "%s: the submitted program measures %s, expected %s", what, a, b)

    def call(self, ch, rec, c, ops, n, s, shots, kw):
        qs, arg = self.qubits(ch, n, ops)
        self.sent = []
        self.st.reply = self.reply(ch, self.adversarial(ch) if ch.draw(2) else self.exact)
        before = len(self.st.calls)
        what = f"sampler({shots}){list(qs)}"
        got = s(c, arg)
        rec.op(what, "reply", self.st.calls[-1]["reply"] if self.st.calls else None, "->", got)
        self.judge(rec, qs, got, before, shots, kw, what)
        self.check_program(qs, ops, n, self.st.calls[before:], what)

    def fail(self, ch, rec, c, ops, n, s, shots, kw):
        qs, arg = self.qubits(ch, n, ops)
        if not qs:
            return
        self.sent = []
        stage = ch.pick(["execute", "parse", "result", "get_counts"])
        e = ch.pick([fakeqiskit.ServiceError] + ERRORS)("job")
        self.st.fail = (stage, e)
        self.st.reply = self.reply(ch, self.exact)
        before = len(self.st.stages)
        try:
            r = s(c, arg)
        except BaseException as x:
            if isinstance(x, Violation) or x is not e:
                raise
            rec.fault("service-raises-in-" + stage)
            rec.op(f"sampler{list(qs)} failed in {stage}: {type(e).__name__}")
        else:
            raise Violation("swallowed", f"a job failed in {stage} with {e!r}, the sampler returned {r}")
        finally:
            self.st.fail = None
        made = self.st.stages[before:].count("execute")
        check(made <= 1, "retried", "the failing job was executed %d times", made)

    def install(self, ch, rec, c, ops, n, s, shots, kw):
        qs, arg = self.qubits(ch, n, ops)
        if not qs:
            return
        mode = ch.pick(["absent", "broken", "incomplete"])
        self.inst.set(mode, RuntimeError("broken"))
        rec.fault("qiskit-" + mode)
        try:
            r = s(c, arg)
        except (ImportError, ValueError) as e:
            rec.op(f"sampler{list(qs)} with qiskit {mode}: {type(e).__name__}")
        else:
            raise Violation("swallowed", f"qiskit is {mode}, the sampler returned {r}")
        finally:
            self.inst.set("ok")

    def interrupt(self, ch, rec, c, ops, n, s, shots, kw):
        qs, arg = self.qubits(ch, n, ops)
        self.sent = []
        self.st.reply = self.reply(ch, self.exact)
        before = len(self.st.calls)
        k, v, fired = with_fault(rec, lambda: s(c, arg), ch.pick(FAULTS), ch.loguniform(10))
        rec.op(f"interrupted sampler{list(qs)}: {k}, fired={fired}")
        if k == "raised" and not fired:
            raise v
        if k == "ok":
            self.judge(rec, qs, v, before, shots, kw, "an interrupted call")
        check(len(self.st.calls) - before <= 1, "not-once", "an interrupted call submitted %d jobs",
              len(self.st.calls) - before)

    def threads(self, ch, rec, c, ops, n, s, shots, kw):
        self.sent = []
        sch = Scheduler(ch, rec, gap_bits=ch.pick([5, 8, 11]), attr_only=ch.draw(2) == 1)
        self.st.reply = self.reply(ch, self.exact)
        jobs = []
        before = len(self.st.calls)
        for t in range(ch.range(2, 3)):
            qs, arg = self.qubits(ch, n, ops)
            out = []

            def body(arg=arg, out=out):
                out.append(s(c, arg))
            jobs.append((qs, out))
            sch.spawn(f"T{t}", body)
        sch.run()
        for task, (qs, out) in zip(sch.tasks, jobs):
            if task.exc is not None:
                raise task.exc
            if not qs:
                check(out[0] == {(): 1.0}, "wrong-probs", "%s for no qubits", out[0])
                continue
            cands = []
            for cnt, _ in self.sent:
                w = self.expected(qs, cnt, shots)
                if all(abs(out[0].get(k, 0.0) - w.get(k, 0.0)) < 1e-9 for k in set(out[0]) | set(w)):
                    cands.append(w)
            check(cands, "wrong-probs", "a thread's sampler%s returned %s, the replies were %s", list(qs), out[0], self.sent)
            self.done += 1
        made = len(self.st.calls) - before
        check(made == sum(1 for qs, _ in jobs if qs), "not-once", "%d jobs for %d calls", made, len(jobs))
        rec.op("threads sampled", [list(q) for q, _ in jobs])

    # ---- energies
    def energies(self, ch, rec):
        vqe = self.vqe
        n = ch.range(1, 4)
        t = vqeref.Template(ch, n)
        spec = ham_spec(ch, n)
        a = vqeref.make_ansatz_class()(ham_expr(spec), t)
        s, shots, kw = self.make(ch, rec, shots=1 << 20)
        rec.op(f"ansatz {t}; H = {spec}")
        obj = a.get_objective(s)
        points = [[ch.angle() for _ in range(t.n_params)] for _ in range(ch.range(1, 3))]
        tol = 2e-4 * scale(spec)
        self.watch()
        try:
            for _ in range(ch.range(2, 8)):
                with ch.span("eval"):
                    p = ch.pick(points)
                    w = vqeref.expectation(spec, rm.statevector(t.ops(p), n), n)
                    self.sent = []
                    self.st.reply = self.reply(ch, self.exact)
                    act = ch.weighted([(4, "eval"), (2, "fail"), (1, "vqe")])
                    if act == "fail":
                        at = ch.draw(6)
                        e = ch.pick([fakeqiskit.ServiceError] + ERRORS)("job")
                        self.fail_at(at, ch.pick(["execute", "result", "get_counts"]), e)
                        try:
                            got = obj(np.array(p))
                        except BaseException as x:
                            if x is not e:
                                raise
                            rec.fault("service-raises")
                            rec.op(f"evaluation failed at job {at}")
                            continue
                        finally:
                            fired = self.unfail()
                        check(not fired, "swallowed", "job %d failed, the objective returned %r", at, got)
                    elif act == "vqe":
                        r = vqe.Vqe(a, lambda f, k: (f(np.array(p)), np.array(p))[1], s).run()
                        probs = r.get_probs()
                        d = rm.distribution(rm.statevector(t.ops(p), n), range(n))
                        check(all(abs(probs.get(k, 0) - d.get(k, 0)) < 1e-4 for k in set(probs) | set(d)), "wrong-probs",
                              "the result's probabilities are %s, expected %s", probs, d)
                        self.done += 1
                        continue
                    else:
                        got = obj(np.array(p))
                    rec.op("energy at", [round(x, 4) for x in p], "%.6f" % got)
                    check(abs(got - w) < tol, "wrong-energy", "energy %.6f, expected %.6f for H = %s", got, w, spec)
                    self.done += 1
                    rec.state(act, p, w)
        finally:
            fakeqiskit.sample = self._orig

    def fail_at(self, at, stage, exc):
        """The (at+1)-th pass through `stage` fails."""
        self._step = fakeqiskit.step
        left = [at]
        self._fired = [False]

        def step(st, s):
            if s == stage:
                left[0] -= 1
                if left[0] < 0 and not self._fired[0]:
                    self._fired[0] = True
                    raise exc
            return self._step(st, s)
        fakeqiskit.step = step

    def unfail(self):
        fakeqiskit.step = self._step
        return self._fired[0]


CHECK = C13()
