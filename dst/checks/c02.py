"""C02: failed or interrupted calls leave the circuit intact and re-runnable."""
import copy
import pickle

import numpy as np

from .. import gen, refmodel as rm, usergates
from ..core import Violation, check
from ..sched import FAULTS, with_fault
from ..world import World, same_result, show
from .base import Check

BAD_INDEX = [1.5, "0", None, [0], {0: 1}, b"x", (0, "1"), (0, None), (0, 1.5), slice("a", None), slice(0, 1.5)]


class C02(Check):
    ID = "C02"
    TECHNIQUE = ("exceptions injected at seeded instants inside every call, failing user gates and backends, "
                 "then recovery checked against a never-interrupted circuit")
    LEVEL_NOTE = ("Sampled fault instants and sequences (every opcode of blueqat at which CPython can surface an "
                  "exception is eligible). Trusts a freshly built circuit and the reference model as oracles.")
    QUICK = 5000
    THOROUGH = 120000
    RULE = ("random circuits of up to 12 operations (with user-defined gates), 1-6 failing calls each: an exception "
            "(interrupt, memory exhaustion, caller's deadline) at a log-uniform instant of run, make_cache, copy, +, "
            "dagger, to_qasm, to_unitary, repr or pickling, a user-defined gate or backend that raises at its k-th "
            "use, or a gate applied with wrong arguments; after each, operations are compared one by one and the "
            "circuit is re-run; non-trivial = at least one call really failed.")
    REAL = ["blueqat.circuit", "blueqat.gate", "NumPyBackend", "NumbaBackend (interpreted kernels)",
            "QasmOutputBackend", "SympyBackend"]
    STUB = ["numba (sequential interpreter)", "the caller's signal handlers and allocator (injected exceptions)"]
    ASSUMPTIONS = ["exceptions surface at calls, loop back-edges and allocating opcodes of blueqat code, not inside "
                   "NumPy's C code"]

    def prepare(self):
        from .. import fakenumba
        self.numba = fakenumba.available()
        import blueqat
        try:
            blueqat.Circuit().h[0].cx[0, 1].to_unitary()   # imports SymPy's parts once
        except Exception:
            pass

    def run(self, ch, rec):
        g = usergates.make()
        be = ch.weighted([(6, "numpy"), (2, "numba"), (3, "dstflakybackend"), (2, "object")])
        if be == "numba" and not self.numba:
            be = "numpy"
        max_n = ch.weighted([(6, 3), (2, 4), (1, 6)])
        if be == "numba":
            max_n = 3
            from .. import fakenumba
            mk = fakenumba.load().NumbaBackend
        elif be == "numpy":
            mk = g["NumPyBackend"]
        else:
            mk = g["FlakyBackend"]
        obj = mk()
        rec.ev("backend", be)
        w = World(ch, rec, max_n=max_n, meas=ch.pick([0, 100, 250]), reset=ch.pick([0, 80]),
                  user=ch.pick([0, 150, 300]))
        w.new_circuit()
        if ch.chance(300):
            w.new_circuit()
        failures = 0
        for _ in range(ch.range(1, 6)):
            with ch.span("step"):
                h = w.pick()
                if ch.chance(400):
                    w.append(h, ch.range(1, 3))
                if ch.chance(250):
                    self.rerun(ch, rec, w, h, be, obj, mk)
                failures += self.fail(ch, rec, w, h, be, obj, mk)
                if ch.chance(700):
                    self.rerun(ch, rec, w, w.pick() if ch.chance(200) else h, be, obj, mk)
            rec.state([(x.n, [o.key() for o in x.ops]) for x in w.handles], failures)
        for h in list(w.handles):
            self.rerun(ch, rec, w, h, be, obj, mk)
        rec.nontrivial = failures > 0

    def backend(self, be, obj):
        return obj if be == "object" else be

    def intact(self, h, before, what):
        now = list(h.c.ops)
        check(h.c.n_qubits == h.n, "n-qubits", "after a failed %s, %s has n_qubits %r instead of %r",
              what, h.name, h.c.n_qubits, h.n)
        check(len(now) == len(before) and all(a is b for a, b in zip(now, before)), "operations-changed",
              "after a failed %s, %s has operations %s instead of %s", what, h.name,
              [o.lowername for o in now], [o.lowername for o in before])

    def rerun(self, ch, rec, w, h, be, obj, mk):
        kw = w.run_options()
        seed = ch.bytes_seed()
        w.check_shape(h)
        gen.seed_all(seed)
        got = h.c.run(**kw, backend=self.backend(be, obj))
        gen.seed_all(seed)
        want = w.fresh(h).run(**kw, backend=mk())
        rec.op(f"{h.name}.run({kw}) -> {show(got)}")
        check(same_result(got, want), "wrong-after-failure", "%s.run(%s) gave %s; never-interrupted: %s",
              h.name, kw, show(got), show(want))
        vec = got[0] if isinstance(got, tuple) else got
        if h.unitary() and isinstance(vec, np.ndarray):
            ref = rm.statevector(h.ops, h.n)
            check(rm.same_ray(vec, ref), "wrong-state", "%s.run(%s) gave %s, expected %s", h.name, kw,
                  show(vec), show(ref))
        rec.probe("re-run")

    def fail(self, ch, rec, w, h, be, obj, mk):
        before = list(h.c.ops)
        kind = ch.weighted([(8, "inject"), (4, "usergate"), (3, "badargs")])
        gen.seed_all(ch.bytes_seed())
        if kind == "badargs":
            return self.bad_args(ch, rec, h, before)
        kw = w.run_options()
        bk = self.backend(be, obj)
        calls = {
            "run": lambda: h.c.run(**kw, backend=bk),
            "make_cache": lambda: (h.c.make_cache(backend=be) if be != "object"
                                   else obj.make_cache(h.c.ops, h.c.n_qubits)),
            "copy": lambda: h.c.copy(),
            "deepcopy": lambda: copy.deepcopy(h.c),
            "pickle": lambda: pickle.loads(pickle.dumps(h.c)),
            "add": lambda: h.c + h.c,
            "dagger": lambda: h.c.dagger(ignore_measurement=True, copy_backends=True),
            "repr": lambda: repr(h.c),
            "to_qasm": lambda: h.c.to_qasm(),
            "to_unitary": lambda: h.c.to_unitary(),
        }
        names = ["run", "run", "run", "make_cache", "copy", "deepcopy", "pickle", "add", "dagger", "repr"]
        names.append("to_qasm")
        if h.n <= 2 and len(h.ops) <= 3 and h.unitary() and ch.chance(300):
            names.append("to_unitary")
        what = ch.pick(names)
        fn = calls[what]
        if kind == "usergate":
            usergates.arm(ch.loguniform(4))
            f0 = usergates.PLAN["fired"]
            try:
                fn()
                err = None
            except usergates.Injected as e:
                err = e
            except Exception as e:
                if not self.allowed(what, h, e):
                    raise
                err = None
            finally:
                usergates.disarm()
            fired = usergates.PLAN["fired"] > f0
            rec.op(f"{h.name}.{what} with failing user code: fired={fired}")
            if fired:
                rec.fault("user-code-raises")
                check(err is not None, "failure-swallowed",
                      "%s of %s returned normally although user code raised", what, h.name)
        else:
            f = ch.pick(FAULTS)
            after = ch.loguniform(ch.pick([6, 8, 10, 12]))
            k, v, fired = with_fault(rec, fn, f, after)
            rec.op(f"{h.name}.{what} interrupted={fired}")
            if k == "raised" and not fired and not self.allowed(what, h, v):
                raise v
        self.intact(h, before, what)
        check(h.c.get_default_backend_name() == "numpy", "default-backend-changed",
              "after a failed %s, %s has the default backend %r", what, h.name, h.c.get_default_backend_name())
        return 1 if fired else 0

    def allowed(self, what, h, e):
        """Documented refusals: export of gates the target format has no name for, etc."""
        return what in ("to_qasm", "to_unitary") and isinstance(e, (NotImplementedError, ValueError, TypeError,
                                                                    AttributeError))

    def bad_args(self, ch, rec, h, before):
        names = [n for n in gen.ONE_Q + gen.TWO_Q + ["ccx", "measure", "reset"]]
        name = ch.pick(names)
        np_ = rm.NPARAM.get(name, 0)
        mode = ch.draw(3)
        good = 0 if (name in rm.ONE or name in ("measure", "reset")) else (0, 1) if name in rm.TWO else (0, 1, 2)
        params = [0.1] * np_
        tgt = good
        if mode == 0 or (mode == 2 and np_ == 0):
            tgt = ch.pick(BAD_INDEX)
            if isinstance(good, tuple) and ch.draw(2):
                tgt = good[:-1] + (ch.pick(["q", 1.5, None]),)
            if not isinstance(tgt, tuple) and isinstance(good, tuple):
                tgt = good[:-1] + (tgt,)
        elif mode == 1:
            params = [0.1] * (np_ + 2)      # x(p, q)[..]: too many
        else:
            params = [0.1] * (np_ - 1)      # too few
        s = f"{h.name}.{name}({params})[{tgt!r}]"
        n0 = h.n
        # addressing a larger register must not leave a trace either
        if ch.chance(300) and tgt is good:
            tgt = (tgt + 5) if isinstance(tgt, int) else tuple(t + 5 for t in tgt)
        try:
            g = getattr(h.c, name)
            if params:
                g = g(*params)
            g[tgt]
        except Exception as e:
            rec.op(s, "rejected with", type(e).__name__)
            rec.fault("bad-arguments")
            self.intact(h, before, "gate application " + s)
            return 1
        raise Violation("bad-arguments-accepted", f"{s} was accepted")


CHECK = C02()
