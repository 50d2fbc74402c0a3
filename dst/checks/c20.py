"""C20: unitary gates act as their matrices on every backend, in any history."""
import copy
import inspect
import pickle

import numpy as np

from .. import gen, opcmp, qasm, refmodel as rm, usergates
from ..core import check
from ..refmodel import Op
from ..sched import FAULTS, Scheduler, with_fault
from .base import Check
from .c01 import dagger_ops
from .c12 import Handle
from .c21 import small


class C20(Check):
    ID = "C20"
    TECHNIQUE = ("seeded histories of growing, copied, combined and inverted unitary circuits run in turn on the default simulator, the "
                 "numba kernels, the symbolic backend, the QASM export and as whole matrices, on shared backend objects, with failing user "
                 "gates, injected exceptions and scheduled threads; every answer is compared with the product of the gates' matrices")
    LEVEL_NOTE = "Sampled circuits, parameters, histories and interleavings; global phases are ignored. Numba's kernels are interpreted."
    QUICK = 2500
    THOROUGH = 60000
    RULE = ("1-5 circuits of 1-6 (sometimes up to 11) qubits over every unitary gate and alias, parameters of several number types, as "
            "positional or keyword arguments, huge and tiny angles; 3-20 steps: append, copy, pickle, +, dagger, runs on numpy, numba, "
            "sympy_unitary and qasm_output by name or as objects shared by all circuits, circuit_to_unitary, ignore_global, caches, "
            "failing user gates, interrupted runs, 2-3 threads. Non-trivial = three answers compared.")
    REAL = ["NumPyBackend", "NumbaBackend's kernels", "SympyBackend", "QasmOutputBackend", "blueqat.circuit", "blueqat.gate",
            "blueqat.experimental.utils", "real threads"]
    STUB = ["thread scheduler", "numba (interpreter)"]
    ASSUMPTIONS = ["numba's compiled kernels compute what their Python source says"]

    def prepare(self):
        import sympy.physics.quantum  # noqa
        from .. import fakenumba
        self.numba = fakenumba.load().NumbaBackend

    def run(self, ch, rec):
        usergates.make()
        from blueqat import Circuit
        from blueqat.circuit import GATE_SET
        from blueqat.backends.numpy_backend import NumPyBackend
        from blueqat.backends.sympy_backend import SympyBackend
        from blueqat.backends.qasm_output_backend import QasmOutputBackend
        self.Circuit, self.gates = Circuit, GATE_SET
        self.objects = {"numpy": [NumPyBackend(), NumPyBackend()], "numba": [self.numba()], "sympy": [SympyBackend()],
                        "qasm": [QasmOutputBackend()]}
        self.done = 0
        self.user = ch.pick([0, 0, 250])
        self.pickles = ch.draw(2) == 1               # which the installed sympy's objects do not survive
        self.numpy_numbers = ch.draw(2) == 1         # which the installed sympy cannot read
        ch.tiny = ch.draw(4) == 3
        self.max = ch.weighted([(6, 4), (3, 6), (1, 11)])
        self.hs, self.serial = [], 0
        self.do_new(ch, rec, None)
        for _ in range(gen.size(ch, 3, 20)):
            with ch.span("step"):
                if len(self.hs) > 5:
                    self.hs.pop(0)
                h = self.hs[-1 - ch.draw(len(self.hs))]
                act = ch.weighted([(9, "answer"), (5, "append"), (3, "derive"), (2 if self.user else 0, "gatefail"), (2, "interrupt"),
                                   (2, "threads"), (1, "new"), (1, "cache")])
                getattr(self, "do_" + act)(ch, rec, h)
                for x in self.hs:
                    opcmp.check_ops(x.c.ops, x.ops, x.name, "circuit-modified")
                    check(x.c.n_qubits == x.n, "circuit-modified", "%s has %r qubits, had %d", x.name, x.c.n_qubits, x.n)
                rec.state(act, [(x.n, [o.key() for o in x.ops]) for x in self.hs])
        for h in self.hs:
            f, judge, what = self.way(ch, h)
            judge(f(), what + " in the end")
        rec.nontrivial = self.done >= 3

    # ---- circuits
    def do_new(self, ch, rec, _):
        n = ch.range(1, self.max)
        ops, n = self.more(ch, n, gen.size(ch, 0, 9))
        if n and ch.draw(2):
            ops = [Op("ry", (0.3 + 2.4 * ch.unit(),), q) for q in range(n)] + ops       # every amplitude is there
        c = self.Circuit(n)
        for o in ops:
            self.put(ch, c, o)
        self.add(rec, c, ops, n, f"Circuit({n})" + "".join(f".{o}" for o in ops))

    def add(self, rec, c, ops, n, note):
        self.serial += 1
        h = Handle(f"c{self.serial}", c, ops, n, None)
        self.hs.append(h)
        rec.op(h.name, "=", note)

    def more(self, ch, n, k):
        out = []
        for _ in range(k):
            o = gen.any_op(ch, n, 0, 0, None, self.user)
            if n < self.max and ch.chance(100):
                o = Op("h", (), n)
            if o.params and ch.draw(4) == 3:
                o = Op(o.name, [ch.pick([p, float(ch.draw(9) - 4), ch.pick([1, -1]) * 1e5 * ch.unit(), 2 * np.pi * ch.draw(4)])
                                for p in o.params], o.targets)
            out.append(o)
            n = max(n, rm.max_index(o.targets) + 1)
        return out, n

    def put(self, ch, c, o):
        """The operation, with its parameters given in one of the ways there are."""
        if not o.params or o.rev or not ch.draw(2):
            o.apply_to(c)
            return
        par = []
        for p in o.params:
            kinds = [float, np.float64] if self.numpy_numbers else [float]
            if p == int(p):
                kinds += [int, np.int64, np.float32] if self.numpy_numbers else [int]
            par.append(ch.pick(kinds)(p))
        g = getattr(c, o.name)
        if ch.draw(3) == 2:
            names = [x for x in inspect.signature(self.gates[o.name].__init__).parameters if x not in ("self", "targets", "kwargs")]
            k = ch.draw(len(par))
            g(*par[:k], **dict(zip(names[k:], par[k:])))[o.targets] if len(names) == len(par) else g(*par)[o.targets]
        else:
            g(*par)[o.targets]

    def do_append(self, ch, rec, h):
        ops, n = self.more(ch, h.n, ch.range(1, 3))
        for o in ops:
            self.put(ch, h.c, o)
            rec.op(f"{h.name}.{o}")
        h.ops, h.n = h.ops + ops, n

    def do_cache(self, ch, rec, h):
        h.c.make_cache(backend="numpy")
        rec.op(f"{h.name}.make_cache()")

    def do_derive(self, ch, rec, h):
        k = ch.draw(5)
        g = self.hs[ch.draw(len(self.hs))]
        if k == 0:
            cb = ch.draw(2) == 1
            self.add(rec, h.c.copy(copy_backends=cb), h.ops, h.n, f"{h.name}.copy({cb})")
        elif k == 1:
            f = copy.deepcopy if self.user or ch.draw(2) else lambda x: pickle.loads(pickle.dumps(x))
            if self.pickles:
                self.add(rec, f(h.c), h.ops, h.n, f"a copy of {h.name}")
        elif k == 2:
            if len(h.ops) + len(g.ops) < 40:
                self.add(rec, h.c + g.c, h.ops + g.ops, max(h.n, g.n), f"{h.name} + {g.name}")
        elif k == 3:
            self.add(rec, h.c.dagger(), dagger_ops(h.ops), h.n, f"{h.name}.dagger()")
        elif g is not h and len(h.ops) + len(g.ops) < 40:
            c = h.c
            c += g.c
            h.ops, h.n = h.ops + g.ops, max(h.n, g.n)
            rec.op(f"{h.name} += {g.name}")

    # ---- answers
    def matrix(self, ops, n):
        m = np.eye(2 ** n, dtype=complex)
        for o in ops:
            for _, u, qs in o.units(n):
                m = np.array([rm.apply(col, n, u, qs) for col in m.T]).T
        return m

    def state(self, ops, n, what, zero):
        want = rm.statevector(ops, n)

        def judge(v, what=what):
            v = np.asarray(v)
            check(v.shape == want.shape, "wrong-state", "%s has shape %s", what, v.shape)
            v = v.astype(complex)
            check(rm.same_ray(v, want), "wrong-state", "%s gives %s, expected %s", what, np.round(v, 4).tolist()[:16],
                  np.round(want, 4).tolist()[:16])
            if zero:
                big = [x for x in v if abs(x) > 1e-6]
                if not any(1e-8 < abs(x) < 1e-6 for x in v):
                    check(abs(big[0].imag) < 1e-6 and big[0].real > 0, "global-phase", "%s: the first amplitude is %s", what, big[0])
            self.done += 1
        return judge

    def whole(self, ops, n, what, columns=False):
        """Judges a matrix, up to one global phase or one for each column."""
        want = self.matrix(ops, n)

        def judge(m, what=what):
            m = np.asarray(m, dtype=complex)
            check(m.shape == want.shape, "wrong-unitary", "%s has shape %s", what, m.shape)
            k = np.sqrt(2 ** n)
            ok = (all(rm.same_ray(a, b) for a, b in zip(m.T, want.T)) if columns else
                  rm.same_ray(m.reshape(-1) / k, want.reshape(-1) / k))
            check(ok, "wrong-unitary", "%s gives %s, expected %s", what, np.round(m, 4).tolist(), np.round(want, 4).tolist())
            self.done += 1
        return judge

    def way(self, ch, h, shared=True):
        """(function, judge, text)."""
        c, ops, n = h.c, list(h.ops), h.n
        k = ch.weighted([(8, "numpy"), (4, "numba"), (3, "qasm"), (2, "sympy"), (2, "whole")])
        if k == "sympy" and (self.pickles or self.numpy_numbers or not n or not small(ops, n) or any(abs(p) > 100 for o in ops for p in o.params)):
            k = "numpy"
        if k == "numba" and n > 8:
            k = "numpy"
        if k == "whole" and n > 5:
            k = "numpy"
        kw = {}
        if k in ("numpy", "numba"):
            zero = ch.draw(5) == 4
            if zero:
                kw["ignore_global"] = True
            if ch.draw(4) == 3:
                kw["returns"] = "statevector"
            b = ch.pick(self.objects[k]) if shared and ch.draw(2) or k == "numba" else None
            if k == "numba" and not shared:
                b = self.numba()
            what = f"{h.name} with operations {ops} on {k} ({'object' if b else 'name'}, {kw})"
            if b is None and ch.draw(2):
                b = "numpy"
            return (lambda: c.run(backend=b, **kw)), self.state(ops, n, what, zero), what
        if k == "whole":
            from blueqat.experimental.utils import circuit_to_unitary
            columns = ch.draw(4) == 3
            if columns:
                kw["ignore_global"] = True
            if ch.draw(3) == 2 and n < 4:
                kw["backend"] = ch.pick(self.objects["numba"]) if shared else self.numba()
            what = f"circuit_to_unitary of {ops} ({', '.join(kw)})"
            return (lambda: circuit_to_unitary(c, **kw)), self.whole(ops, n, what, columns), what
        b = ch.pick(self.objects[k]) if shared and ch.draw(2) else None
        if k == "sympy":
            if ch.draw(4) == 3:
                kw["ignore_global"] = True
            what = f"symbolic unitary of {ops} ({'object' if b else 'name'}, {kw})"
            whole = self.whole(ops, n, what)
            f = (lambda: c.run(backend=b, **kw)) if b else lambda: c.to_unitary(**kw)
            return f, lambda m, what=what: whole(self.numbers(m, n), what), what
        what = f"export of {ops} ({'object' if b else 'name'})"
        state = self.state(ops, n, what, False)

        def judge(text, what=what):
            got, w = qasm.parse(text.replace("cu2(", "cu3(pi/2,"))
            check(w == n, "wrong-state", "%s has %d qubits, the circuit %d", what, w, n)
            state(rm.statevector(got, n), what)
        return (lambda: c.run(backend=b)) if b else c.to_qasm, judge, what

    def numbers(self, m, n):
        from .c23 import C23
        import sympy
        self.sympy, self.vals = sympy, {}
        memo = {}
        check(getattr(m, "shape", None) == (2 ** n, 2 ** n), "wrong-unitary", "a symbolic matrix has shape %s", getattr(m, "shape", None))
        self.number = lambda e, memo: C23.number(self, e, memo)
        return np.array([self.number(x, memo) for x in m], dtype=complex).reshape(m.shape)

    def do_answer(self, ch, rec, h):
        f, judge, what = self.way(ch, h)
        v = f()
        rec.op(what)
        judge(v)
        if isinstance(v, np.ndarray) and v.flags.writeable and ch.draw(3) == 2:
            v *= 0.5                # the caller's own

    def do_gatefail(self, ch, rec, h):
        f, judge, what = self.way(ch, h)
        usergates.arm(ch.draw(4))
        try:
            v = f()
        except usergates.Injected:
            rec.fault("user-code-raises")
            rec.op(what, "fails")
        else:
            judge(v)
        finally:
            usergates.disarm()

    def do_interrupt(self, ch, rec, h):
        f, judge, what = self.way(ch, h)
        kind, v, fired = with_fault(rec, f, ch.pick(FAULTS), ch.loguniform(10))
        rec.op(what, "interrupted" if fired else "finished")
        if kind == "raised" and not fired:
            raise v
        if kind == "ok":
            judge(v)

    def do_threads(self, ch, rec, h):
        sch = Scheduler(ch, rec, gap_bits=ch.pick([4, 7, 10]), attr_only=ch.draw(2) == 1)
        jobs = []
        for t in range(ch.range(2, 3)):
            g = h if ch.draw(3) == 0 else ch.pick(self.hs)
            g = Handle(g.name + "'", g.c.copy(copy_backends=ch.draw(2) == 1), g.ops, g.n, None)
            one = self.way(ch, g, False)
            new, n = self.more(ch, max(g.n, 1), ch.range(0, 2))
            g2 = Handle(g.name + "+", g.c, g.ops + new, max(n, g.n) if new else g.n, None)
            two = self.way(ch, g2, False)
            out = []

            def body(c=g.c, new=new, one=one, two=two, out=out):
                out.append(one[0]())
                for o in new:
                    o.apply_to(c)
                out.append(two[0]())
            jobs.append((one, two, out))
            sch.spawn(f"T{t}", body)
        sch.run()
        for task, (one, two, out) in zip(sch.tasks, jobs):
            if task.exc is not None:
                raise task.exc
            one[1](out[0], "in a thread, " + one[2])
            two[1](out[1], "in a thread, " + two[2])
        rec.op("threads:", [(j[0][2], j[1][2]) for j in jobs])


CHECK = C20()
