"""C22: QASM export describes the circuit as it is now."""
import copy
import pickle

import numpy as np

from .. import gen, opcmp, qasm, refmodel as rm, usergates
from ..core import check
from ..sched import FAULTS, Scheduler, with_fault
from .base import Check
from .c12 import Handle


class C22(Check):
    ID = "C22"
    TECHNIQUE = ("seeded histories of growing, copied, combined and inverted circuits exported again and again, with failing user "
                 "gates, injected exceptions and scheduled threads; every export is read by an independent OpenQASM reader (and some by "
                 "the installed Qiskit) and compared with the circuit's model")
    LEVEL_NOTE = "Sampled programs, histories and interleavings; programs are compared up to global phases."
    QUICK = 4000
    THOROUGH = 80000
    RULE = ("1-5 circuits of 1-7 qubits with measurements, resets and user gates; 3-24 steps: append, copy, pickle, +, +=, dagger, default "
            "backend, exports through to_qasm, run, run_with and the default backend, with and without prologue, ordinary runs in between, "
            "failing user gates, interrupted exports, 2-3 threads exporting shared circuits while others grow their own. Non-trivial = "
            "three exports compared.")
    REAL = ["blueqat.circuit", "blueqat.gate", "QasmOutputBackend", "qiskit.qasm2 (as a second reader)", "real threads"]
    STUB = ["thread scheduler"]
    ASSUMPTIONS = ["cu2, which the export writes under its own name as the tests require, means cu3 with a first angle of pi/2"]

    def prepare(self):
        try:
            import qiskit.quantum_info  # noqa
            from qiskit import qasm2
            qasm2.loads('OPENQASM 2.0;include "qelib1.inc";qreg q[1];x q[0];')
            self.qiskit = True
        except Exception:  # noqa
            self.qiskit = False

    def run(self, ch, rec):
        usergates.make()
        from blueqat import Circuit
        self.Circuit = Circuit
        self.done = 0
        self.rec = rec
        self.user = ch.pick([0, 0, 120])
        self.meas, self.reset = ch.pick([(200, 80), (0, 0), (100, 100)])
        ch.tiny = ch.draw(3) == 2
        self.hs, self.serial = [], 0
        self.do_new(ch, rec, None)
        for _ in range(gen.size(ch, 3, 24)):
            with ch.span("step"):
                if len(self.hs) > 5:
                    self.hs.pop(0)
                h = self.hs[-1 - ch.draw(len(self.hs))]
                act = ch.weighted([(8, "export"), (5, "append"), (3, "derive"), (2, "gatefail"), (2, "interrupt"),
                                   (2, "threads"), (1, "new"), (1, "default"), (1, "use")])
                getattr(self, "do_" + act)(ch, rec, h)
                for x in self.hs:
                    opcmp.check_ops(x.c.ops, x.ops, x.name, "circuit-modified")
                    check(x.c.n_qubits == x.n, "circuit-modified", "%s has %r qubits, had %d", x.name, x.c.n_qubits, x.n)
                rec.state(act, [(x.n, x.default, [o.key() for o in x.ops]) for x in self.hs])
        for h in self.hs:
            self.judge(ch, h.c.to_qasm(), h.ops, h.n, True, f"{h.name} in the end")
        rec.nontrivial = self.done >= 3

    # ---- circuits
    def do_new(self, ch, rec, _):
        n = gen.width(ch, 4, 7)
        ops = gen.program(ch, n, gen.size(ch, 0, 9), self.meas, self.reset, None, self.user)
        self.add(rec, gen.build(self.Circuit, ops, n), ops, n, None, f"Circuit({n})" + "".join(f".{o}" for o in ops))

    def add(self, rec, c, ops, n, default, note):
        self.serial += 1
        h = Handle(f"c{self.serial}", c, ops, n, default)
        self.hs.append(h)
        rec.op(h.name, "=", note)
        return h

    def grow(self, ch, h):
        out = []
        for _ in range(ch.range(1, 2)):
            o = gen.any_op(ch, h.n, self.meas, self.reset, None, self.user)
            if h.n < 7 and ch.chance(150):
                o = rm.Op("h", (), h.n)
            out.append(o)
            h.n = max(h.n, rm.max_index(o.targets) + 1)
        return out

    def do_append(self, ch, rec, h):
        for o in self.grow(ch, h):
            o.apply_to(h.c)
            h.ops = h.ops + [o]
            rec.op(f"{h.name}.{o}")

    def do_default(self, ch, rec, h):
        h.default = ch.pick(["qasm_output", "qasm_output", "numpy"])
        h.c.set_default_backend(h.default)
        rec.op(f"{h.name}.set_default_backend({h.default!r})")

    def do_use(self, ch, rec, h):
        if rm.is_unitary(h.ops):
            v = h.c.run(backend="numpy")
            check(rm.same_ray(v, rm.statevector(h.ops, h.n)), "wrong-state", "%s runs to a wrong state", h.name)
            rec.op(f"run {h.name}")

    def do_derive(self, ch, rec, h):
        k = ch.draw(6)
        g = self.hs[ch.draw(len(self.hs))]
        if k == 0:
            cb = ch.draw(2) == 1
            self.add(rec, h.c.copy(copy_backends=cb), h.ops, h.n, h.default, f"{h.name}.copy({cb})")
        elif k == 1:
            f = [copy.copy, copy.deepcopy, lambda x: pickle.loads(pickle.dumps(x))][ch.draw(3) if not self.user else ch.draw(2)]
            self.add(rec, f(h.c), h.ops, h.n, h.default, f"a copy of {h.name}") if f is not copy.copy else None
        elif k == 2 and rm.is_unitary(h.ops):
            from .c01 import dagger_ops
            if all(o.name not in rm.EXTRA for o in h.ops):
                self.add(rec, h.c.dagger(), dagger_ops(h.ops), h.n, h.default, f"{h.name}.dagger()")
        elif k <= 3:
            if len(h.ops) + len(g.ops) < 40:
                self.add(rec, h.c + g.c, h.ops + g.ops, max(h.n, g.n), h.default, f"{h.name} + {g.name}")
        elif g is not h and len(h.ops) + len(g.ops) < 40:
            c = h.c
            c += g.c
            h.ops = h.ops + g.ops
            h.n = max(h.n, g.n)
            rec.op(f"{h.name} += {g.name}")

    # ---- exports
    def way(self, ch, h):
        """(function, with prologue, text) of an export."""
        c = h.c
        args, kw, pro = ch.pick([((), {}, True), ((), {}, True), ((), {"output_prologue": True}, True),
                                 ((False,), {}, False), ((), {"output_prologue": False}, False), ((True,), {}, True)])
        k = ch.draw(5)
        if k == 4 and h.default == "qasm_output":
            f = lambda: c.run(*args, **kw)  # noqa
        elif k == 1:
            f = lambda: c.run_with_qasm_output(*args, **kw)  # noqa
        elif k == 2:
            f = lambda: c.run(*args, backend="qasm_output", **kw)  # noqa
        elif k == 3:
            from blueqat.backends.qasm_output_backend import QasmOutputBackend
            b = QasmOutputBackend()
            f = lambda: c.run(*args, backend=b, **kw)  # noqa
        else:
            f = lambda: c.to_qasm(*args, **kw)  # noqa
        return f, pro, f"export of {h.name} ({k}, {args}, {kw})"

    def judge(self, ch, text, ops, n, prologue, what):
        check(isinstance(text, str), "wrong-program", "%s is a %s", what, type(text).__name__)
        if not prologue:
            check("OPENQASM" not in text and "qreg" not in text, "prologue", "%s has a prologue: %s", what, text[:80])
            text = f'OPENQASM 2.0;\ninclude "qelib1.inc";\nqreg q[{n}];\ncreg c[{n}];\n{text}'
        import re
        plain = re.sub(r"\bcu2\(", "cu3(pi/2,", text)
        got, k = qasm.parse(plain)
        check(k == n, "wrong-program", "%s: the program has %d qubits, the circuit %d", what, k, n)
        a, b = qasm.meaning(got, n), qasm.meaning(ops, n)
        if a is None or b is None:
            return
        check(qasm.same_meaning(a, b), "wrong-program", "%s: the program means %s, the circuit is %s", what, got, ops)
        self.done += 1
        if self.qiskit and rm.is_unitary(ops) and n and "cu2" not in text and "cu3" not in text and ch.draw(6) == 5:
            from qiskit import qasm2
            from qiskit.quantum_info import Statevector
            try:
                qc = qasm2.loads(text, custom_instructions=qasm2.LEGACY_CUSTOM_INSTRUCTIONS)
            except Exception as e:  # noqa
                check(False, "invalid-program", "%s: Qiskit does not read the program: %s", what, e)
            self.rec.probe("read-by-qiskit")
            v = np.asarray(Statevector(qc).data)
            check(rm.same_ray(v, rm.statevector(ops, n)), "wrong-program", "%s: Qiskit reads it as another circuit than %s", what, ops)

    def do_export(self, ch, rec, h):
        f, pro, what = self.way(ch, h)
        text = f()
        rec.op(what)
        self.judge(ch, text, h.ops, h.n, pro, what)

    def do_gatefail(self, ch, rec, h):
        f, pro, what = self.way(ch, h)
        usergates.arm(ch.draw(4))
        try:
            text = f()
        except usergates.Injected:
            rec.fault("user-code-raises")
            rec.op(what, "fails")
        else:
            self.judge(ch, text, h.ops, h.n, pro, what)
        finally:
            usergates.disarm()

    def do_interrupt(self, ch, rec, h):
        f, pro, what = self.way(ch, h)
        kind, v, fired = with_fault(rec, f, ch.pick(FAULTS), ch.loguniform(9))
        rec.op(what, "interrupted" if fired else "finished")
        if kind == "raised" and not fired:
            raise v
        if kind == "ok":
            self.judge(ch, v, h.ops, h.n, pro, what)

    def do_threads(self, ch, rec, h):
        sch = Scheduler(ch, rec, gap_bits=ch.pick([4, 7, 10]), attr_only=ch.draw(2) == 1)
        jobs = []
        for t in range(ch.range(2, 3)):
            g = h if ch.draw(2) == 0 else ch.pick(self.hs)
            if ch.draw(3) == 2:
                # a thread which grows a copy of its own between two exports
                g = Handle(g.name + "'", g.c.copy(), g.ops, g.n, g.default)
            own = g not in self.hs
            f, pro, what = self.way(ch, g)
            ops1, n1 = list(g.ops), g.n
            new = self.grow(ch, g) if own else []
            out = []

            def body(f=f, g=g, new=new, out=out):
                out.append(f())
                for o in new:
                    o.apply_to(g.c)
                out.append(f())
            jobs.append((what, pro, ops1, n1, ops1 + new, g.n, out))
            sch.spawn(f"T{t}", body)
        sch.run()
        for task, (what, pro, ops1, n1, ops2, n2, out) in zip(sch.tasks, jobs):
            if task.exc is not None:
                raise task.exc
            self.judge(ch, out[0], ops1, n1, pro, "in a thread, " + what)
            self.judge(ch, out[1], ops2, n2, pro, "in a thread, second " + what)
        rec.op("threads:", [j[0] for j in jobs])


CHECK = C22()
