"""C17: numba's parallel loops under every thread schedule."""
import numpy as np

from .. import gen, refmodel as rm
from ..core import check
from ..refmodel import Op
from ..sched import Scheduler, _current
from ..world import same_result, show
from .base import Check


class C17(Check):
    ID = "C17"
    TECHNIQUE = ("each prange loop of the numba kernels is split among simulated workers whose partition and interleaving of "
                 "loads and stores the seeded scheduler decides; results against a reference model and the sequential run")
    LEVEL_NOTE = ("Sampled partitions and interleavings of the kernels' Python source, sequentially consistent memory with "
                  "torn complex accesses. The compiled machine code is not run: numba is not installed.")
    QUICK = 5000
    THOROUGH = 40000
    RULE = ("random circuits over every gate the backend accepts, 1-5 (sometimes 6) qubits; every parallel loop runs on 1-6 "
            "workers with contiguous, strided or arbitrary shares, pre-empted at random opcodes or at accesses of arrays, and between the halves of "
            "complex accesses, some stalled until the rest finished; sometimes two callers at once. States of unitary circuits "
            "against matrices, measured ones against the sequential run of the same random stream and the tree of outcomes. "
            "Non-trivial = a loop ran on several workers.")
    STATES = "distinct (loop length, partition) pairs"
    REAL = ["NumbaBackend", "source of the numba kernels (interpreted)", "blueqat.circuit", "blueqat.gate"]
    STUB = ["numba (interpreter; workers are scheduled threads)", "random numbers seeded by the simulator"]
    ASSUMPTIONS = ["numba's compiled kernels compute what their Python source says, scalars assigned in a prange body are "
                   "private to an iteration, `+=` on outer scalars is a reduction, memory is sequentially consistent"]

    def prepare(self):
        from .. import fakenumba
        fakenumba.load()

    def run(self, ch, rec):
        from .. import fakenumba
        from blueqat import Circuit
        mk = fakenumba.load().NumbaBackend
        measured = ch.draw(3) == 2
        callers = 2 if not measured and ch.draw(6) == 5 else 1
        jobs = []
        for k in range(callers):
            with ch.span("circuit"):
                n = ch.pick([2, 3, 1, 4, 5, 3, 6])
                names = gen.small_vocabulary(ch, n) if ch.draw(2) else gen.NUMBA_OK
                ops = [Op("h", (), slice(None))] if isinstance(names, list) else []
                ops += gen.program(ch, n, gen.size(ch, 1, 6 if n > 4 else 10), 250 if measured else 0,
                                   150 if measured else 0, names)
                c = gen.build(Circuit, ops, n)
                rec.op(f"circuit {k}: {n} qubits", *ops)
                jobs.append((c, ops, n))
        kw = {}
        if measured:
            kw = {"shots": ch.range(1, 3), "returns": "statevector_and_shots"}
        elif ch.draw(4) == 3:
            kw = {"dtype": np.complex64}
        seed = ch.bytes_seed()
        want = None
        if measured:
            gen.seed_all(seed)
            want = jobs[0][0].run(backend=mk(), **kw)
        self.every = ch.pick([0, 2, 4, 8, 0, 20])      # switch about every so many accesses of arrays
        self.switches = 0
        gap = ch.pick([5, 3, 7, 9]) if not self.every else 13
        sch = Scheduler(ch, rec, gap_bits=gap)
        self.parallel = 0
        fakenumba.PAR = lambda body, r: self.split(ch, rec, sch, body, r)
        fakenumba.TEAR = lambda: self.tear(ch)
        fakenumba.ACCESS = (lambda: self.access(ch)) if self.every else None
        self.tears = 0
        try:
            gen.seed_all(seed)
            for k, (c, ops, n) in enumerate(jobs):
                sch.spawn(f"caller{k}", lambda c=c: c.run(backend=mk(), **kw))
            sch.run()
        finally:
            fakenumba.PAR = fakenumba.TEAR = fakenumba.ACCESS = None
        if self.switches:
            rec.fault("preemption-at-access", self.switches)
        if self.tears:
            rec.fault("torn-access", self.tears)
        rec.nontrivial = self.parallel > 0
        for t, (c, ops, n) in zip(sch.tasks, jobs):
            if t.exc is not None:
                raise t.exc
            got = t.result
            rec.ev(t.name, "->", show(got))
            if measured:
                check(same_result(got, want), "schedule-dependent", "%s on %d qubits gave %s with these workers, %s sequentially",
                      ops, n, show(got), show(want))
                self.possible(ops, n, *got)
            else:
                ref = rm.statevector(ops, n)
                tol = 1e-4 if kw else 1e-7
                check(rm.same_ray(np.asarray(got, complex), ref, tol), "wrong-state", "%s on %d qubits gave %s, expected %s",
                      ops, n, show(got), show(ref))

    def possible(self, ops, n, vec, shots):
        """The last shot's state and every key can occur."""
        br = rm.branches(ops, n)
        if br is None:
            return
        probs = rm.key_probs(br)
        for k in shots:
            check(probs.get(k, 0) > 1e-12, "impossible-outcome", "%s measured %s, possible: %s", ops, k, sorted(probs))
        check(any(p > 1e-12 and k in shots and rm.same_ray(vec, v) for p, v, k, _ in br), "impossible-state",
              "%s: no outcome leaves %s", ops, show(vec))

    def tear(self, ch):
        cur = _current()
        if cur is None or cur[1].group is None or len(cur[0]._runnable()) < 2:
            return
        if self.tears < 60 and ch.draw(8) == 7:
            self.tears += 1
            cur[0].yield_now()

    def access(self, ch):
        cur = _current()
        if cur is None or cur[1].group is None or self.switches >= 500 or len(cur[0]._runnable()) < 2:
            return
        if ch.draw(self.every) == self.every - 1:
            self.switches += 1
            cur[0].yield_now()

    def split(self, ch, rec, sch, body, r):
        if _current() is None:
            return [body(r)]
        with ch.span("loop"):
            w = ch.range(1, 6)
            if w == 1 or len(r) < 2:
                return [body(r)]
            how = ch.draw(3)
            if how == 0:
                # contiguous chunks, equal or not
                if ch.draw(2):
                    cuts = sorted(ch.draw(len(r) + 1) for _ in range(w - 1))
                else:
                    cuts = [len(r) * i // w for i in range(1, w)]
                cuts = [0] + cuts + [len(r)]
                parts = [r[a:b] for a, b in zip(cuts, cuts[1:])]
            elif how == 1:
                parts = [r[i::w] for i in range(w)]
            else:
                parts = [[] for _ in range(w)]
                for i in r:
                    parts[ch.draw(w)].append(i)
            parts = [p for p in parts if len(p)]
            if ch.draw(3) == 2:
                parts = [list(p)[::-1] if ch.draw(2) else p for p in parts]
                rec.fault("reversed-share")
            parts = [parts[i] for i in ch.perm(len(parts))]
        rec.state(len(r), [list(p) for p in parts])
        self.parallel += 1
        rec.probe("parallel-loops")
        rec.fault("loop-split", len(parts))
        return sch.fork_join("w", [lambda p=p: body(p) for p in parts])


CHECK = C17()
