"""C03: concurrent runs in several threads do not disturb each other."""
import numpy as np

from .. import gen, refmodel as rm, usergates
from ..core import Violation, check
from ..sched import FAULTS, Scheduler
from ..world import same_result, show
from .base import Check


class C03(Check):
    ID = "C03"
    TECHNIQUE = ("seeded thread interleavings at opcode granularity over shared circuits and backend objects, "
                 "each run compared with the run alone")
    LEVEL_NOTE = ("Sampled schedules; preemption points are the opcodes of blueqat's Python code (a NumPy call is "
                  "atomic, as under the GIL). Trusts the reference model and the run alone as oracles.")
    QUICK = 6000
    THOROUGH = 100000
    RULE = ("2-4 threads, each 1-3 operations (run with any options, warm-up, copy+extend+run, copy, export) on "
            "different circuits (with mixed gates, or few kinds of gates), copies of one, circuits sharing a backend object, or one shared circuit; the "
            "scheduler preempts at seeded opcode gaps (optionally only at attribute accesses, only in one function, or constantly in the backend); in a third of the "
            "runs one thread is hit by an injected exception; afterwards every circuit is re-run alone. "
            "Non-trivial = control changed hands inside blueqat at least once.")
    REAL = ["blueqat.circuit", "blueqat.gate", "NumPyBackend", "NumbaBackend (interpreted kernels)",
            "QasmOutputBackend", "real threads"]
    STUB = ["thread scheduler", "threading.Lock/RLock (scheduler-aware)", "numba (interpreter)"]
    ASSUMPTIONS = ["NumPy calls are atomic with respect to other threads' Python code"]

    def prepare(self):
        from .. import fakenumba
        self.numba = fakenumba.available()

    def run(self, ch, rec):
        g = usergates.make()
        from blueqat import Circuit
        kind = ch.weighted([(4, "shared-backend"), (4, "same-circuit"), (3, "copies"), (2, "different")])
        be = ch.weighted([(6, "numpy"), (2, "numba"), (1, "user")])
        if be == "numba" and not self.numba:
            be = "numpy"
        if be == "numba":
            from .. import fakenumba
            mk = fakenumba.load().NumbaBackend
            bname = "numba"
        else:
            mk = g["NumPyBackend"] if be == "numpy" else g["FlakyBackend"]
            bname = "numpy" if be == "numpy" else "dstflakybackend"
        # two threads switching all the time inside the backend, doing the same kind of operation
        duel = kind == "shared-backend" and ch.chance(250)
        nthreads = 2 if duel else ch.range(2, 4)
        n = gen.width(ch, 3, 6)
        meas = ch.pick([0, 0, 200])
        if duel:
            n, meas = ch.range(1, 2), ch.pick([0, 500])
        ncirc = 1 if kind in ("same-circuit", "copies") else ch.range(2, 3)
        user = ch.pick([0, 100])
        names = gen.small_vocabulary(ch, n) if duel or ch.chance(400) else None
        progs = []
        if kind == "shared-backend" and ch.chance(400):
            # common prefix, different tails (and equal lengths): the hardest case for a shared cache
            pre = gen.program(ch, n, ch.range(1, 3), 0, 0, names, user)
            progs = [pre + gen.program(ch, n, ch.range(1, 4), meas, meas // 3, names, user) for _ in range(ncirc)]
            sizes = [n] * ncirc
        else:
            sizes = [n if duel or ch.chance(600) else gen.width(ch, 3, 6) for _ in range(ncirc)]
            progs = [gen.program(ch, sizes[i], ch.range(1, 6), meas, meas // 3, names, user) for i in range(ncirc)]
        circs = [gen.build(Circuit, p, s) for p, s in zip(progs, sizes)]
        for i, p in enumerate(progs):
            rec.ev(f"circuit {i} on {sizes[i]} qubits:", " ".join(map(str, p)))
        obj = mk() if kind == "shared-backend" or ch.chance(200) else None
        rec.ev("kind", kind, "backend", be, "threads", nthreads)
        bkarg = obj if obj is not None else bname
        # warm up some prefix first
        gen.seed_all(ch.bytes_seed())
        for i, c in enumerate(circs):
            if ch.chance(300):
                c.run(backend=bkarg)
                rec.ev(f"warm circuit {i}")
            if ch.chance(250):
                extra = gen.program(ch, sizes[i], ch.range(1, 2), 0, 0, None, 0)
                for o in extra:
                    o.apply_to(c)
                progs[i] = progs[i] + extra
                rec.ev(f"extend circuit {i} by", *extra)
        gap_bits = ch.pick([5, 7, 9, 11])
        attr = ch.draw(2) == 1
        sch = Scheduler(ch, rec, gap_bits=ch.range(2, 6), where="backends") if duel else Scheduler(ch, rec, gap_bits=gap_bits, attr_only=attr)
        faulty = ch.draw(3) == 2
        jobs = []
        victim = ch.draw(nthreads) if faulty else -1
        for t in range(nthreads):
            with ch.span("thread"):
                if kind == "copies":
                    c0 = circs[0].copy() if ch.draw(4) else circs[0]
                    idx = 0
                else:
                    idx = ch.draw(ncirc)
                    c0 = circs[idx]
                todo = [("run", {}) if duel and ch.draw(6) else self.plan(ch, sizes[idx]) for _ in range(ch.range(1, 3))]
                rec.ev(f"thread {t} on circuit {idx}:", todo)
                out = []
                jobs.append((idx, todo, out, c0))
                f = ch.pick(FAULTS) if t == victim else None
                after = ch.loguniform(10) if t == victim else 0
                sch.spawn(f"T{t}", self.worker(Circuit, c0, todo, out, bkarg, bname, obj), f, after)
        sch.run()
        rec.steps += sum(len(j[1]) for j in jobs)
        rec.nontrivial = sch.switches > 0
        for t, (task, (idx, todo, out, c0)) in enumerate(zip(sch.tasks, jobs)):
            if task.exc is not None:
                if task.fault_fired:
                    continue
                raise task.exc
            for (what, arg), got in zip(todo, out):
                self.judge(Circuit, progs[idx], sizes[idx], what, arg, got, mk, t)
        # alone again
        for i, c in enumerate(circs):
            check(c.n_qubits == sizes[i] and len(c.ops) == len(progs[i]), "circuit-changed",
                  "circuit %d was modified by running it in threads", i)
            seed = ch.bytes_seed()
            gen.seed_all(seed)
            got = c.run(backend=bkarg, returns="statevector_and_shots", shots=5)
            gen.seed_all(seed)
            want = gen.build(Circuit, progs[i], sizes[i]).run(backend=mk(), returns="statevector_and_shots", shots=5)
            check(same_result(got, want), "wrong-after-threads",
                  "after the threads, circuit %d gives %s instead of %s", i, show(got), show(want))
        rec.state(kind, be, [(s, [o.key() for o in p]) for s, p in zip(sizes, progs)], [j[1] for j in jobs])

    def plan(self, ch, n):
        k = ch.draw(10)
        if k < 4:
            return ("run", {})
        if k < 6:
            return ("run", {"shots": ch.range(1, 6), "returns": ch.pick(["shots", "statevector_and_shots"])})
        if k == 6:
            return ("make_cache", None)
        if k == 7:
            return ("copy+run", [gen.gate_op(ch, n)])
        if k == 8:
            return ("copy", None)
        return ("to_qasm", None)

    def worker(self, Circuit, c, todo, out, bk, bname, obj):
        def body():
            for what, arg in todo:
                if what == "run":
                    out.append(c.run(**arg, backend=bk))
                elif what == "make_cache":
                    if obj is not None:
                        obj.make_cache(c.ops, c.n_qubits)
                    else:
                        c.make_cache(backend=bname)
                    out.append(None)
                elif what == "copy+run":
                    d = c.copy()
                    for o in arg:
                        o.apply_to(d)
                    out.append(d.run(backend=bk))
                elif what == "copy":
                    d = c.copy()
                    out.append((d.n_qubits, [g.lowername for g in d.ops]))
                else:
                    try:
                        out.append(c.to_qasm())
                    except (NotImplementedError, AttributeError, ValueError):
                        out.append(None)
        return body

    def judge(self, Circuit, ops, n, what, arg, got, mk, t):
        who = f"thread {t}: {what} {arg}"
        if what == "make_cache":
            return
        if what == "copy":
            c = gen.build(Circuit, ops, n)
            check(got == (n, [g.lowername for g in c.ops]), "copy-differs", "%s gave %s", who, got)
            return
        if what == "to_qasm":
            if got is not None:
                want = gen.build(Circuit, ops, n).to_qasm()
                check(got == want, "export-differs", "%s gave %r instead of %r", who, got, want)
            return
        if what == "copy+run":
            ops = ops + arg
            arg = {}
        shots = arg.get("shots")
        vec = counts = None
        if isinstance(got, tuple):
            vec, counts = got
        elif isinstance(got, dict):
            counts = got
        else:
            vec = got
        if rm.is_unitary(ops):
            if vec is not None:
                alone = gen.build(Circuit, ops, n).run(backend=mk())
                check(gen.close(vec, alone), "thread-interference", "%s gave %s; alone it gives %s", who,
                      show(vec), show(alone))
                ref = rm.statevector(ops, n)
                check(rm.same_ray(vec, ref), "wrong-state", "%s gave %s, expected %s", who, show(vec), show(ref))
            if counts is not None:
                check(dict(counts) == {"0" * n: shots}, "thread-interference",
                      "%s counted %s without any measurement, %s shots", who, gen.fmt_counts(counts), shots)
            return
        br = rm.branches(ops, n)
        if br is None:
            return
        keys = {b[2] for b in br}
        if vec is not None:
            check(any(rm.same_ray(vec, b[1]) for b in br), "thread-interference",
                  "%s ended in %s, which no outcome of the circuit allows", who, show(vec))
        if counts is not None:
            check(sum(counts.values()) == shots, "thread-interference",
                  "%s counted %s for %s shots", who, gen.fmt_counts(counts), shots)
            for k in counts:
                check(k in keys, "thread-interference", "%s counted %r, impossible for the circuit", who, k)


CHECK = C03()
