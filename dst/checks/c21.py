"""C21: the dagger is the inverse, in any history."""
import copy
import pickle

import numpy as np

from .. import gen, opcmp, qasm, refmodel as rm, usergates
from ..core import check
from ..refmodel import Op
from ..sched import FAULTS, Scheduler, with_fault
from .base import Check
from .c01 import dagger_ops
from .c12 import Handle

NOT_UNITARY = ("m", "measure", "reset", "dstmeas")
DEFAULTS = [None, None, "numpy", "qasm_output", "sympy_unitary"]


class C21(Check):
    ID = "C21"
    TECHNIQUE = ("seeded histories of growing, copied, combined and inverted circuits, run between inversions on several simulators, with "
                 "failing user gates, injected exceptions and scheduled threads; circuit and dagger are applied to random states, which "
                 "must come back")
    LEVEL_NOTE = "Sampled circuits, states, histories and interleavings; measured circuits only with the measurements ignored."
    QUICK = 2500
    THOROUGH = 60000
    RULE = ("1-6 circuits of 1-6 qubits over every gate, alias and target expression, chained pairs, user gates with, without and with a "
            "failing dagger; 3-20 steps: append, copy, pickle, +, +=, Ops values, dagger with all options, dagger of dagger, runs that "
            "fill caches, failing user gates, interrupted daggers, 2-3 threads inverting shared circuits and growing what they got. "
            "After a random state's preparation circuit and dagger are run in both orders on numpy, the numba kernels, the QASM "
            "export or sympy. Non-trivial = three such round trips.")
    REAL = ["blueqat.circuit", "blueqat.gate", "blueqat.experimental.operations", "NumPyBackend", "NumbaBackend's kernels", "SympyBackend",
            "QasmOutputBackend", "real threads"]
    STUB = ["thread scheduler", "numba (interpreter)"]
    ASSUMPTIONS = ["a gate without a dagger raises NotImplementedError, as the base class documents"]

    def prepare(self):
        import sympy.physics.quantum  # noqa
        from .. import fakenumba
        self.numba = fakenumba.load().NumbaBackend

    def run(self, ch, rec):
        usergates.make()
        nodag()
        from blueqat import Circuit
        from blueqat.backends.numpy_backend import NumPyBackend
        self.Circuit = Circuit
        self.shared = NumPyBackend()
        self.done = 0
        self.user = ch.pick([0, 120, 250])
        self.meas, self.reset = ch.pick([(0, 0), (0, 0), (60, 30)])
        ch.tiny = ch.draw(4) == 3
        self.hs, self.serial = [], 0
        self.do_new(ch, rec, None)
        for _ in range(gen.size(ch, 3, 20)):
            with ch.span("step"):
                if len(self.hs) > 6:
                    self.hs.pop(0)
                h = self.hs[-1 - ch.draw(len(self.hs))]
                act = ch.weighted([(7, "dagger"), (5, "trip"), (4, "append"), (3, "derive"), (2, "use"), (2, "gate"), (2 if self.user else 0, "gatefail"),
                                   (2, "interrupt"), (2, "threads"), (1, "new"), (1, "default"), (1, "nodagger"), (1, "symbols")])
                getattr(self, "do_" + act)(ch, rec, h)
                for x in self.hs:
                    opcmp.check_ops(x.c.ops, x.ops, x.name, "circuit-modified")
                    check(x.c.n_qubits == x.n, "circuit-modified", "%s has %r qubits, had %d", x.name, x.c.n_qubits, x.n)
                    check(x.c.get_default_backend_name() == (x.default or "numpy"), "default-backend", "%s has the default backend %s, "
                          "expected %s", x.name, x.c.get_default_backend_name(), x.default)
                rec.state(act, [(x.n, x.default, [o.key() for o in x.ops]) for x in self.hs])
        for h in self.hs:
            self.trip(ch, rec, h)
        rec.nontrivial = self.done >= 3

    # ---- circuits
    def do_new(self, ch, rec, _):
        n = gen.width(ch, 4, 6)
        ops = gen.program(ch, n, gen.size(ch, 0, 9), self.meas, self.reset, None, self.user)
        self.add(rec, gen.build(self.Circuit, ops, n), ops, n, None, f"Circuit({n})" + "".join(f".{o}" for o in ops))

    def add(self, rec, c, ops, n, default, note):
        self.serial += 1
        h = Handle(f"c{self.serial}", c, ops, n, default)
        self.hs.append(h)
        rec.op(h.name, "=", note)
        return h

    def more(self, ch, n, k):
        out = []
        for _ in range(k):
            o = gen.any_op(ch, n, self.meas, self.reset, None, self.user)
            if n < 6 and ch.chance(120):
                o = Op("h", (), n)
            out.append(o)
            n = max(n, rm.max_index(o.targets) + 1)
        return out, n

    def do_append(self, ch, rec, h):
        ops, n = self.more(ch, h.n, ch.range(1, 3))
        for o in ops:
            o.apply_to(h.c)
            rec.op(f"{h.name}.{o}")
        h.ops, h.n = h.ops + ops, n

    def do_default(self, ch, rec, h):
        h.default = ch.pick(DEFAULTS)
        h.c.set_default_backend(h.default)
        rec.op(f"{h.name}.set_default_backend({h.default!r})")

    def do_use(self, ch, rec, h):
        if not rm.is_unitary(h.ops):
            return
        if ch.draw(3) == 2:
            h.c.make_cache(backend="numpy")
            rec.op(f"{h.name}.make_cache()")
            return
        v = h.c.run(backend="numpy")
        rec.op(f"{h.name}.run()")
        self.same(v, rm.statevector(h.ops, h.n), f"{h.name}.run() with operations {h.ops}")

    def same(self, v, want, what, exact=False):
        v = np.asarray(v, dtype=complex)
        check(v.shape == want.shape and (np.allclose(v, want, atol=1e-8) if exact else rm.same_ray(v, want)), "wrong-state",
              "%s gives %s, expected %s", what, np.round(v, 4).tolist(), np.round(want, 4).tolist())

    def do_derive(self, ch, rec, h):
        k = ch.draw(5)
        g = self.hs[ch.draw(len(self.hs))]
        if k == 0:
            cb = ch.draw(2) == 1
            self.add(rec, h.c.copy(copy_backends=cb), h.ops, h.n, h.default, f"{h.name}.copy({cb})")
        elif k == 1:
            f = copy.deepcopy if self.user or ch.draw(2) else lambda x: pickle.loads(pickle.dumps(x))
            self.add(rec, f(h.c), h.ops, h.n, h.default, f"a copy of {h.name}")
        elif k <= 3:
            if len(h.ops) + len(g.ops) < 40:
                self.add(rec, h.c + g.c, h.ops + g.ops, max(h.n, g.n), h.default, f"{h.name} + {g.name}")
        elif g is not h and len(h.ops) + len(g.ops) < 40:
            c = h.c
            c += g.c
            h.ops, h.n = h.ops + g.ops, max(h.n, g.n)
            rec.op(f"{h.name} += {g.name}")

    # ---- daggers
    def call(self, ch, h):
        """(function, operations or None if it is to be refused, default backend, text)."""
        ig, cb, cd = ch.pick([(False, False, True), (False, False, True), (True, False, True), (False, True, True), (True, True, False),
                              (False, False, False)])
        unit = [o for o in h.ops if o.name not in NOT_UNITARY]
        want = dagger_ops(unit) if ig or len(unit) == len(h.ops) else None
        if not ch.draw(6):
            from blueqat.experimental.operations import Ops
            c, n = h.c, h.n
            return (lambda: Ops(n, tuple(c.ops)).dagger().to_circuit()), None if len(unit) < len(h.ops) else want, None, \
                f"the Ops value of {h.name}, dagger"
        kw = {k: v for k, v in (("ignore_measurement", ig), ("copy_backends", cb), ("copy_default_backend", cd))
              if v != {"copy_default_backend": True}.get(k, False) or ch.draw(4) == 3}
        return (lambda: h.c.dagger(**kw)), want, h.default if cd else None, f"{h.name}.dagger({kw})"

    def do_dagger(self, ch, rec, h):
        f, want, default, what = self.call(ch, h)
        try:
            c = f()
        except ValueError:
            check(want is None, "refused", "%s is refused; the circuit is %s", what, h.ops)
            rec.op(what, "is refused")
            return
        check(want is not None, "not-refused", "%s is not refused; the circuit is %s", what, h.ops)
        g = self.add(rec, c, want, h.n, default, what)
        if ch.draw(2):
            self.trip(ch, rec, g, h)

    def do_gatefail(self, ch, rec, h):
        f, want, default, what = self.call(ch, h)
        usergates.arm(ch.draw(3))
        try:
            c = f()
        except usergates.Injected:
            rec.fault("user-code-raises")
            rec.op(what, "fails")
        except ValueError:
            check(want is None, "refused", "%s is refused; the circuit is %s", what, h.ops)
        else:
            check(want is not None, "not-refused", "%s is not refused; the circuit is %s", what, h.ops)
            self.add(rec, c, want, h.n, default, what)
        finally:
            usergates.disarm()

    def do_interrupt(self, ch, rec, h):
        f, want, default, what = self.call(ch, h)
        kind, v, fired = with_fault(rec, f, ch.pick(FAULTS), ch.loguniform(8))
        rec.op(what, "interrupted" if fired else "finished")
        if kind == "ok":
            check(want is not None, "not-refused", "%s is not refused; the circuit is %s", what, h.ops)
            self.add(rec, v, want, h.n, default, what)
        elif not fired:
            check(want is None and isinstance(v, ValueError), "refused", "%s raised %r; the circuit is %s", what, v, h.ops)

    def do_nodagger(self, ch, rec, h):
        """A gate that has no dagger cannot be inverted, and is not left out either."""
        c = h.c.copy()
        getattr(c, "dstnodag")[ch.draw(max(h.n, 1))]
        new, _ = self.more(ch, max(h.n, 1), ch.draw(3))
        for o in new:
            o.apply_to(c)
        try:
            d = c.dagger(ignore_measurement=ch.draw(2) == 1)
        except (NotImplementedError, ValueError):
            rec.op(f"{h.name} with a gate without dagger is refused")
            return
        check(False, "not-refused", "the dagger of %s with a gate that has none is %s", h.ops, d)

    def do_gate(self, ch, rec, h):
        """The dagger of a single gate object."""
        at = [i for i, o in enumerate(h.ops) if o.name not in NOT_UNITARY]
        if not at or not h.n:
            return
        i = ch.pick(at)
        g, o = h.c.ops[i], h.ops[i]
        n = h.n + ch.draw(2)
        d = g.dagger()
        how = ch.draw(3)
        prep = self.prep(ch, n)
        c = gen.build(self.Circuit, prep, n)
        c.ops += [[g, d], [d, g], [d, d.dagger()]][how]
        self.same(c.run(), rm.statevector(prep, n), f"{o} and its dagger ({how}) after {prep}", True)
        c = gen.build(self.Circuit, prep, n)
        c.ops.append(d.dagger() if how == 0 else d)
        self.same(c.run(), rm.statevector(prep + [o if how == 0 else o.inverse()], n), f"{'dagger of the ' if how == 0 else ''}dagger of {o} after {prep}")
        rec.op(f"gate {o} of {h.name} and its dagger")
        self.done += 1

    # ---- round trips
    def prep(self, ch, n):
        ops = []
        for q in range(n):
            ops += [Op("ry", (0.3 + 2.4 * ch.unit(),), q), Op("rz", (0.2 + 5.8 * ch.unit(),), q)]
        if n > 1:
            p = ch.perm(n)
            ops += [Op("crx", (0.4 + 2 * ch.unit(),), (p[i], p[i + 1])) for i in range(n - 1)]
        return ops

    def do_trip(self, ch, rec, h):
        self.trip(ch, rec, h)

    def parts(self, ch, h, g=None):
        """(circuit, its dagger, text) of the circuit without its measurements."""
        unit = [o for o in h.ops if o.name not in NOT_UNITARY]
        if len(unit) == len(h.ops):
            c = h.c
        else:
            c = gen.build(self.Circuit, unit, h.n)
        kw = {} if ch.draw(3) else {"copy_backends": True}
        d = c.dagger(**kw)
        if g is not None and rm.is_unitary(g.ops) and rm.is_unitary(h.ops):
            d = g.c
        return c, d, unit

    def trip(self, ch, rec, h, g=None):
        if not h.n:
            return
        c, d, unit = self.parts(ch, h, g)
        k = ch.weighted([(8, "numpy"), (2, "numba"), (2, "qasm"), (1, "sympy")])
        n = h.n + (ch.draw(6) == 5)
        back = ch.draw(3) == 2
        prep = self.prep(ch, n)
        pc = gen.build(self.Circuit, prep, n)
        what = f"{h.name} of {unit} {'after' if back else 'before'} its dagger on {n} qubits"
        if k == "sympy":
            if not small(unit, h.n):
                k = "numpy"
            else:
                m = ((d + c) if back else (c + d)).to_unitary()
                self.identity(m, h.n, {}, what)
        if k == "qasm":
            got, w = qasm.parse(((pc + d + c) if back else (pc + c + d)).to_qasm().replace("cu2(", "cu3(pi/2,"))
            check(w == n, "not-inverse", "the export of %s has %d qubits", what, w)
            self.same(rm.statevector(got, n), rm.statevector(prep, n), "the export of " + what)
        elif k in ("numpy", "numba"):
            t = pc
            if ch.draw(4) == 3:
                t.run()                 # the prefix is cached
            t = (t + d + c) if back else (t + c + d)
            b = self.numba() if k == "numba" else [None, "numpy", self.shared][ch.draw(3)]
            v = t.run(backend=b)
            self.same(v, rm.statevector(prep, n), f"{what}, on {k}", k == "numpy")
        rec.op("round trip on", k, "of", what)
        self.done += 1

    def number(self, e, memo):
        from .c23 import C23
        return C23.number(self, e, memo)

    def identity(self, m, n, vals, what):
        import sympy
        self.sympy, self.vals = sympy, vals
        memo = dict(vals)
        got = np.array([self.number(x, memo) for x in m], dtype=complex)
        one = np.eye(2 ** n).reshape(-1)
        check(got.shape == one.shape and rm.same_ray(got / 2 ** (n / 2), one / 2 ** (n / 2)), "not-inverse",
              "the symbolic unitary of %s and its dagger is %s at %s", what, np.round(got, 4).tolist(), vals)

    def do_symbols(self, ch, rec, h):
        """A circuit with symbolic parameters, small as it has to be."""
        import sympy
        n = ch.range(1, 2)
        vals = {sympy.Symbol(s, real=True): 0.1 + 3 * ch.unit() for s in "ab"}
        ops, all_ = [], []
        c = self.Circuit(n)
        for o in gen.program(ch, n, ch.range(1, 3), 0, 0):
            if not small(all_ + [o], n):
                continue
            all_.append(o)
            par = [ch.pick(sorted(vals, key=str)) * ch.pick([1, 2, -1]) if ch.draw(3) else p for p in o.params]
            g = getattr(c, o.name)
            (g(*par) if par else g)[o.targets]
            ops.append(f"{o.name}{tuple(par)}{o.targets}")
        if not ops:
            return
        m = (c + c.dagger()).to_unitary()
        self.identity(m, n, vals, ops)
        rec.op("symbolic round trip of", *ops)
        self.done += 1

    # ---- threads
    def do_threads(self, ch, rec, h):
        sch = Scheduler(ch, rec, gap_bits=ch.pick([4, 7, 10]), attr_only=ch.draw(2) == 1)
        jobs = []
        for t in range(ch.range(2, 3)):
            g = h if ch.draw(2) == 0 else ch.pick(self.hs)
            unit = [o for o in g.ops if o.name not in NOT_UNITARY]
            n = max(g.n, 1)
            new = [o for o in self.more(ch, n, ch.draw(3))[0] if o.name not in NOT_UNITARY]
            prep = self.prep(ch, n)
            pc = gen.build(self.Circuit, prep, n)
            back = ch.draw(2)
            out = []

            def body(g=g, unit=unit, new=new, pc=pc, back=back, out=out):
                d = g.c.dagger(ignore_measurement=True)
                for o in new:
                    o.apply_to(d)
                e = d.dagger()
                out.append(d)
                out.append(e)
                out.append(((pc + e + d) if back else (pc + d + e)).run(backend="numpy"))
            jobs.append((g, dagger_ops(unit) + new, prep, n, out))
            sch.spawn(f"T{t}", body)
        sch.run()
        for task, (g, ops, prep, n, out) in zip(sch.tasks, jobs):
            if task.exc is not None:
                raise task.exc
            opcmp.check_ops(out[0].ops, ops, f"dagger of {g.name}, grown in a thread", "thread-operations")
            opcmp.check_ops(out[1].ops, dagger_ops(ops), f"dagger of the dagger of {g.name} in a thread", "thread-operations")
            n = max(n, out[0].n_qubits)
            self.same(out[2], rm.statevector(prep, n), f"in a thread, round trip of {ops}", True)
            self.done += 1
        rec.op("threads:", [j[0].name for j in jobs])


def small(ops, n):
    """Sympy's expressions grow with every gate."""
    if any(o.name in rm.EXTRA for o in ops) or n > 3:
        return False
    w = sum(len(o.units(n)) * (1 if o.name in rm.ONE else 4 if o.name in ("cu2", "cu3", "rxx", "ryy") or o.name in rm.THREE else 2)
            for o in ops)
    return w <= {1: 6, 2: 4, 3: 3}[n]


_nodag = []


def nodag():
    """Registers a gate that has no dagger."""
    if _nodag:
        return
    from blueqat import gate, BlueqatGlobalSetting

    class NoDag(gate.OneQubitGate):
        lowername = "dstnodag"

        def fallback(self, n_qubits):
            return self._make_fallback_for_target_iter(n_qubits, lambda t: [gate.XGate(t)])
    BlueqatGlobalSetting.register_gate("dstnodag", NoDag)
    _nodag.append(NoDag)


CHECK = C21()
