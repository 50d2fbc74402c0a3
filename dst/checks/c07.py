"""C07: circuits are independent values."""
import numpy as np

from .. import gen, opcmp, refmodel as rm, usergates
from ..core import check
from ..refmodel import Op
from ..sched import FAULTS, Scheduler, with_fault
from ..world import Handle, show
from .base import Check
from .c01 import dagger_ops

NAMES = ["numpy", "dstflakybackend", "qasm_output"]


class MacroFails(Exception):
    pass


class C07(Check):
    ID = "C07"
    TECHNIQUE = ("seeded histories over a family of circuits derived from each other, with failing macros, interrupted "
                 "derivations and concurrent derivations; every circuit is compared with its model after every step")
    LEVEL_NOTE = "Sampled histories and schedules. Operations are compared by meaning (gate matrix and targets)."
    QUICK = 5000
    THOROUGH = 70000
    RULE = ("3-40 steps over up to 8 circuits (build, append, +, +=, also with itself, copy and dagger with every "
            "option, macros that succeed or fail half-way, default backend changes, runs, exports, derivations cut short "
            "by an exception, 2-3 threads deriving circuits from shared ones); after each step every circuit's "
            "operations, qubit count and default backend are compared with the model, at the end also results. "
            "Non-trivial = at least two circuits share history.")
    REAL = ["blueqat.circuit", "blueqat.gate", "NumPyBackend", "real threads"]
    STUB = ["thread scheduler"]

    def run(self, ch, rec):
        usergates.make()
        import blueqat
        from blueqat import Circuit, BlueqatGlobalSetting
        self.G = BlueqatGlobalSetting
        made = {"fail_at": -1}

        def macro(c, ops):
            for i, o in enumerate(ops):
                if i == made["fail_at"]:
                    raise MacroFails()
                o.apply_to(c)
            return c
        self.G.register_macro("dstmacro", macro)
        self.G.register_macro("dstvalue", lambda c, x=0: (c.n_qubits, len(c.ops), x))
        hs = []
        self.hs = hs
        shared = 0
        meas = ch.pick([0, 150])
        user = ch.pick([0, 80])
        prog = lambda n, k: gen.program(ch, n, k, meas, meas // 2, None, user) if n else [Op('x', (), 0)]
        serial = [0]

        def add(c, ops, n, default, note):
            serial[0] += 1
            h = Handle(f"c{serial[0]}", c, ops, n)
            h.default = default
            hs.append(h)
            rec.op(h.name, "=", note)
            return h

        def new():
            n = gen.width(ch, 4, 9)
            ops = prog(n, gen.size(ch, 0, 7))
            if ch.draw(3) == 2 and not any(isinstance(t, int) and t < 0 or isinstance(t, tuple)
                                           for t in [o.targets for o in ops]):
                c = gen.build(Circuit, ops, 0)
                k = rm.n_qubits_of(ops)
            else:
                c = gen.build(Circuit, ops, n)
                k = n
            return add(c, ops, k, None, f"Circuit({k})" + "".join(f".{o}" for o in ops))

        new()
        for _ in range(gen.size(ch, 3, 40)):
            with ch.span("step"):
                if len(hs) > 8:
                    hs.pop(ch.draw(len(hs)))
                h = hs[-1 - ch.draw(len(hs))]
                act = ch.weighted([(4, "append"), (3, "copy"), (3, "add"), (2, "iadd"), (2, "dagger"), (2, "new"),
                                   (2, "default"), (2, "macro"), (1, "badmacro"), (2, "run"), (1, "export"),
                                   (2, "interrupt"), (1, "threads"), (1, "repr"), (1, "unsupported")])
                rec.state(act, [(x.n, x.default, [o.key() for o in x.ops]) for x in hs])
                if act == "append":
                    for o in prog(h.n, ch.range(1, 3)):
                        r = o.apply_to(h.c)
                        check(r is h.c, "chaining", "applying a gate returned another object")
                        h.ops = h.ops + [o]
                        h.n = max(h.n, rm.max_index(o.targets) + 1)
                        rec.op(f"{h.name}.{o}")
                elif act == "new":
                    new()
                elif act == "copy":
                    shared += 1
                    cb, cd = ch.draw(3) != 2, ch.draw(3) != 2
                    c = h.c.copy(copy_backends=cb, copy_default_backend=cd)
                    add(c, h.ops, h.n, h.default if cd else None, f"{h.name}.copy({cb}, {cd})")
                elif act == "add":
                    g = hs[ch.draw(len(hs))]
                    if len(h.ops) + len(g.ops) < 60:
                        shared += 1
                        add(h.c + g.c, h.ops + g.ops, max(h.n, g.n), h.default, f"{h.name} + {g.name}")
                elif act == "iadd":
                    g = hs[ch.draw(len(hs))]
                    if len(h.ops) + len(g.ops) < 60:
                        shared += 1
                        c = h.c
                        c += g.c
                        check(c is h.c, "iadd", "+= made a new circuit")
                        h.ops = h.ops + g.ops
                        h.n = max(h.n, g.n)
                        rec.op(f"{h.name} += {g.name}")
                elif act == "dagger":
                    shared += self.dagger(ch, rec, h, add)
                elif act == "default":
                    b = ch.pick(NAMES)
                    h.c.set_default_backend(b)
                    h.default = b
                    rec.op(f"{h.name}.set_default_backend({b!r})")
                elif act in ("macro", "badmacro"):
                    ops = prog(h.n, ch.range(1, 4))
                    made["fail_at"] = ch.draw(len(ops)) if act == "badmacro" else -1
                    rec.op(f"{h.name}.dstmacro({ops}) failing at {made['fail_at']}")
                    try:
                        r = h.c.dstmacro(ops)
                        check(r is h.c, "macro-result", "the macro's return value was %r", r)
                        check(h.c.dstvalue(x=3)[2] == 3, "macro-result", "macro arguments lost")
                    except MacroFails:
                        rec.fault("macro-raises")
                        check(act == "badmacro", "macro-raises", "the macro raised")
                        ops = ops[:made["fail_at"]]
                    h.ops = h.ops + ops
                    h.n = max([h.n] + [rm.max_index(o.targets) + 1 for o in ops])
                elif act == "run":
                    gen.seed_all(ch.bytes_seed())
                    h.c.run(backend=ch.pick(["numpy", "dstflakybackend"]), **ch.pick([{}, {"shots": 3}]))
                    rec.op(f"{h.name}.run()")
                elif act == "export":
                    try:
                        h.c.to_qasm()
                    except (NotImplementedError, AttributeError, ValueError):
                        pass
                    rec.op(f"{h.name}.to_qasm()")
                elif act == "repr":
                    repr(h.c)
                    str(h.c)
                elif act == "unsupported":
                    for bad in (1, None, "x", [h.c]):
                        try:
                            h.c + bad
                        except TypeError:
                            pass
                        else:
                            check(False, "bad-operand", "circuit + %r was accepted", bad)
                        try:
                            x = h.c
                            x += bad
                        except TypeError:
                            pass
                        else:
                            check(False, "bad-operand", "circuit += %r was accepted", bad)
                    rec.fault("bad-operand")
                elif act == "interrupt":
                    g = hs[ch.draw(len(hs))]
                    f = ch.pick(FAULTS)
                    k = ch.draw(5)
                    fn = [lambda: h.c.copy(), lambda: h.c + g.c, lambda: h.c.dagger(ignore_measurement=True),
                          lambda: repr(h.c), lambda: h.c.run(backend="numpy")][k]
                    kind, v, fired = with_fault(rec, fn, f, ch.loguniform(9))
                    if kind == "raised" and not fired and not isinstance(v, NotImplementedError):
                        raise v
                    rec.op(f"{h.name}: interrupted {('copy', '+', 'dagger', 'repr', 'run')[k]}, fired={fired}")
                else:
                    shared += self.threads(ch, rec, prog, Circuit)
                for x in hs:
                    self.shape(x, act)
        for x in hs:
            if rm.is_unitary(x.ops) and x.n:
                vec = x.c.run(backend="numpy")
                ref = rm.statevector(x.ops, x.n)
                check(rm.same_ray(vec, ref), "wrong-state", "%s runs to %s, expected %s", x.name, show(vec), show(ref))
        rec.nontrivial = shared > 0

    def shape(self, x, act):
        check(x.c.n_qubits == x.n, "n-qubits", "after %s, %s has n_qubits %r, expected %r", act, x.name,
              x.c.n_qubits, x.n)
        opcmp.check_ops(x.c.ops, x.ops, f"after {act}, {x.name}", "operations")
        want = x.default or "numpy"
        check(x.c.get_default_backend_name() == want, "default-backend", "after %s, %s has default backend %r, expected %r",
              act, x.name, x.c.get_default_backend_name(), want)

    def dagger(self, ch, rec, h, add):
        ig, cb, cd = ch.draw(2) == 1, ch.draw(3) == 2, ch.draw(3) != 2
        unit = [o for o in h.ops if o.name not in ("m", "measure", "reset", "dstmeas")]
        try:
            c = h.c.dagger(ignore_measurement=ig, copy_backends=cb, copy_default_backend=cd)
        except ValueError:
            check(not ig and len(unit) != len(h.ops), "dagger-refused", "%s.dagger raised ValueError", h.name)
            rec.op(f"{h.name}.dagger() rejected")
            return 0
        check(ig or len(unit) == len(h.ops), "dagger-accepted", "%s has measurements but dagger() was accepted", h.name)
        add(c, dagger_ops(unit), h.n, h.default if cd else None, f"{h.name}.dagger({ig}, {cb}, {cd})")
        return 1

    def threads(self, ch, rec, prog, Circuit):
        """Several threads derive circuits from the shared ones (which nobody modifies)."""
        sch = Scheduler(ch, rec, gap_bits=ch.pick([5, 8]), attr_only=ch.draw(2) == 1)
        jobs = []
        for t in range(ch.range(2, 3)):
            h = self.hs[ch.draw(len(self.hs))]
            g = self.hs[ch.draw(len(self.hs))]
            extra = prog(h.n, ch.range(1, 3))
            how = ch.pick(["copy", "add", "iadd", "dagger"])
            out = []

            def body(h=h, g=g, extra=extra, how=how, out=out):
                if how == "copy":
                    c = h.c.copy()
                elif how == "add":
                    c = h.c + g.c
                elif how == "iadd":
                    c = Circuit(h.n)
                    c += h.c
                    c += g.c
                else:
                    c = h.c.dagger(ignore_measurement=True)
                for o in extra:
                    o.apply_to(c)
                out.append(c)
            jobs.append((h, g, extra, how, out))
            sch.spawn(f"T{t}", body)
        sch.run()
        for task, (h, g, extra, how, out) in zip(sch.tasks, jobs):
            if task.exc is not None:
                raise task.exc
            unit = [o for o in h.ops if o.name not in ("m", "measure", "reset", "dstmeas")]
            want = {"copy": h.ops, "add": h.ops + g.ops, "iadd": h.ops + g.ops, "dagger": dagger_ops(unit)}[how] + extra
            opcmp.check_ops(out[0].ops, want, f"{how} of {h.name} and {g.name} in a thread", "thread-operations")
        rec.op(f"{len(jobs)} threads derived circuits", [j[3] for j in jobs])
        return 1


CHECK = C07()
