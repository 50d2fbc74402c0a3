"""C09: the VQE objective is a pure function of its parameters."""
import numpy as np

from .. import gen, opcmp, refmodel as rm, usergates, vqeref
from ..core import check
from ..sched import FAULTS, Scheduler, with_fault
from ..vqeref import ham_expr, ham_n, ham_spec, scale
from .base import Check


class C09(Check):
    ID = "C09"
    TECHNIQUE = ("seeded histories of objective evaluations in any order, with interrupted and failing evaluations and "
                 "concurrent threads, each value compared with an independent expectation value")
    LEVEL_NOTE = "Sampled ansatz circuits, Hamiltonians and histories; trusts the reference model's expectation values."
    QUICK = 4000
    THOROUGH = 60000
    RULE = ("random Hamiltonians (1-5 Pauli terms, constants) with random parametrised circuits or QAOA (default or own "
            "initial circuit, own mixer) on 1-4 qubits; 2-14 evaluations of sparse and exact-sampler objectives at 1-4 "
            "parameter points in any order with one reused buffer, mixed with interrupted evaluations, failing user "
            "gates and samplers, uses of the circuits, and 2-3 threads evaluating at once. Non-trivial = at least three "
            "values were compared.")
    REAL = ["blueqat.vqe", "blueqat.pauli", "blueqat.circuit", "NumPyBackend", "NumbaBackend (interpreted kernels)",
            "real threads"]
    STUB = ["thread scheduler", "numba (interpreter)"]

    def prepare(self):
        from .. import fakenumba
        import scipy.optimize, scipy.sparse  # noqa
        self.numba = fakenumba.available()

    def build(self, ch, rec):
        from blueqat import Circuit, vqe
        n = gen.width(ch, 4, 6)
        user = ch.pick([0, 120])
        if ch.draw(3) < 2:
            t = vqeref.Template(ch, n, user)
            spec = ham_spec(ch, n)
            base = prefix = None
            if ch.draw(3) == 2:
                prefix = gen.program(ch, n, ch.range(1, 4), 0, 0, None, user)
                base = gen.build(Circuit, prefix, n)
            be = ch.weighted([(6, None), (1, "dstflakybackend"), (1, "numba" if self.numba else None)])
            a = vqeref.make_ansatz_class()(ham_expr(spec), t, base, be)
            rec.ev(f"ansatz on {n} qubits: prefix {prefix} then {t}; backend {be}; H = {spec}")
            ref = lambda p: (prefix or []) + t.ops(p)
            return a, spec, n, t.n_params, ref, base, prefix
        spec = ham_spec(ch, n, diag=True)
        step = ch.range(1, 2)
        kind = ch.pick(["default", "init", "mixer"])
        base = prefix = mixer = None
        m = max(ham_n(spec), 1)
        if ham_n(spec) == 0:
            kind = "init" if kind == "default" else kind
        if kind != "default":
            m = ch.range(m, max(m, 4))
            prefix = gen.program(ch, m, ch.range(1, 4), 0, 0, None, user)
            base = gen.build(Circuit, prefix, m)
            if kind == "mixer":
                mixer = ham_spec(ch, m, const=False)
        mk = lambda b: vqe.QaoaAnsatz(ham_expr(spec), step, b, ham_expr(mixer) if mixer else None)
        a = mk(base)
        rec.ev(f"QAOA({kind}) on {m} qubits, {step} steps, init {prefix}, mixer {mixer}; H = {spec}")

        def ref(p):
            fresh = mk(gen.build(Circuit, prefix, m) if base is not None else None)
            return [opcmp.of_gate(g) for g in fresh.get_circuit(np.array(p, dtype=float)).ops]
        return a, spec, m, 2 * step, ref, base, prefix

    def run(self, ch, rec):
        usergates.make()
        from blueqat import vqe
        a, spec, n, np_, ref, base, prefix = self.build(ch, rec)
        self.tol = 1e-9 * scale(spec)
        check(a.n_params == np_, "n-params", "n_params is %r, expected %r", a.n_params, np_)
        points = [[ch.angle() if ch.draw(4) else round(ch.unit(), 3) for _ in range(np_)] for _ in range(ch.range(1, 4))]
        while np_ and len(points) < 5 and ch.draw(2):     # finite differences: points next to others
            p = list(ch.pick(points))
            p[ch.draw(np_)] += ch.pick([1e-6, -1e-6, 1e-7, 1e-5, -1e-4, 1e-3])
            points.append(p)
        want = {}
        refops = {}
        for i, p in enumerate(points):
            refops[i] = ref(p)
            want[i] = vqeref.expectation(spec, rm.statevector(refops[i], n), n)
        rec.ev("expected", [round(w, 6) for w in want.values()])
        calls = {"n": 0, "fail": -1}

        def flaky(c, meas):
            calls["n"] += 1
            if calls["n"] == calls["fail"]:
                raise usergates.Injected("sampler")
            return vqe.non_sampling_sampler(c, meas)
        fmt = ch.pick([None, "csr", "coo", "csc", "dok"])
        if fmt:
            a.make_sparse(fmt)
        objs = {"sparse": a.get_objective(None), "exact": a.get_objective(vqe.non_sampling_sampler),
                "flaky": a.get_objective(flaky)}
        buf = np.zeros(np_)
        kept = []
        done = 0
        for _ in range(gen.size(ch, 2, 14)):
            with ch.span("step"):
                i = ch.draw(len(points))
                o = ch.pick(["sparse", "exact", "flaky"])
                act = ch.weighted([(6, "eval"), (2, "abort"), (1, "fail"), (1, "circuit"), (1, "newobj"), (1, "threads"),
                                   (1, "direct")])
                calls["n"], calls["fail"] = 0, -1
                arg = buf
                buf[:] = points[i]
                k = ch.draw(4)
                if k == 2:
                    arg = np.array(points[i])
                elif k == 3:
                    arg = np.array(points[i])
                    arg.setflags(write=False)
                if act == "eval":
                    self.value(rec, objs[o](arg), want[i], f"objective[{o}](point {i})")
                    done += 1
                elif act == "direct":
                    c = a.get_circuit(arg)
                    if ch.draw(2):
                        self.value(rec, a.get_energy(c, vqe.non_sampling_sampler), want[i], f"get_energy(point {i})")
                    elif a.sparse is not None:
                        self.value(rec, a.get_energy_sparse(c), want[i], f"get_energy_sparse(point {i})")
                    opcmp.check_ops(c.ops, refops[i], f"the circuit at point {i} after get_energy", "circuit-changed")
                    check(c.n_qubits == n, "circuit-changed", "the circuit has %r qubits after get_energy", c.n_qubits)
                    done += 1
                    for _ in range(ch.draw(4)):
                        # the caller goes on with the circuit and asks again
                        more = gen.vocabulary_op(ch, n, ["x", "h", "z", "s", "y", "cx"])
                        more.apply_to(c)
                        all_ops = (all_ops if _ else list(refops[i])) + [more]
                        w = vqeref.expectation(spec, rm.statevector(all_ops, n), n)
                        sparse = a.sparse is not None and ch.draw(2)
                        self.value(rec, a.get_energy_sparse(c) if sparse else a.get_energy(c, vqe.non_sampling_sampler),
                                   w, f"get_energy(point {i}) after {more}")
                elif act == "newobj":
                    objs[o] = a.get_objective({"sparse": None, "exact": vqe.non_sampling_sampler, "flaky": flaky}[o])
                    rec.op("get_objective", o)
                elif act == "circuit":
                    c = a.get_circuit(arg)
                    opcmp.check_ops(c.ops, refops[i], f"get_circuit(point {i})", "circuit")
                    kept.append((c, i))
                    if ch.draw(2):
                        c = a.get_circuit(arg)
                        gen.seed_all(1)
                        c.x[0].m[:].run(shots=2)
                    rec.op("get_circuit", i)
                elif act == "abort":
                    f = ch.pick(FAULTS)
                    kind, v, fired = with_fault(rec, lambda: objs[o](arg), f, ch.loguniform(13))
                    if kind == "raised" and not fired:
                        raise v
                    if kind == "ok" and not fired:
                        self.value(rec, v, want[i], f"objective[{o}](point {i})")
                    rec.op(f"interrupted objective[{o}](point {i}), fired={fired}")
                elif act == "fail":
                    calls["fail"] = 1 + ch.draw(4)
                    usergates.arm(ch.draw(8)) if ch.draw(2) else None
                    try:
                        self.value(rec, objs["flaky"](arg), want[i], f"objective[flaky](point {i})")
                    except usergates.Injected as e:
                        rec.fault("user-code-raises")
                        rec.op("failing evaluation", e)
                    finally:
                        usergates.disarm()
                else:
                    done += self.threads(ch, rec, objs, points, want)
                check(np.array_equal(np.asarray(arg), np.array(points[i])), "params-modified",
                      "%s changed its parameter array from %s to %s", act, points[i], list(np.asarray(arg)))
                self.inputs(spec, a, base, prefix)
                rec.state(act, o, points[i], want[i])
        for c, i in kept:
            opcmp.check_ops(c.ops, refops[i], f"a circuit got earlier at point {i}", "circuit-changed")
        for i in want:
            for o in objs:
                calls["n"], calls["fail"] = 0, -1
                self.value(rec, objs[o](np.array(points[i])), want[i], f"finally, objective[{o}](point {i})")
                done += 1
        rec.nontrivial = done >= 3

    def value(self, rec, got, want, what):
        rec.op(what, "->", "%.6f" % got)
        check(np.isscalar(got) and not isinstance(got, complex), "value-type", "%s is %r", what, got)
        check(abs(got - want) < self.tol, "wrong-energy", "%s is %.9f, expected %.9f", what, got, want)

    def inputs(self, spec, a, base, prefix):
        if base is not None:
            opcmp.check_ops(base.ops, prefix, "the circuit given to the ansatz", "input-changed")
        got = {}
        for t in a.hamiltonian:
            k = tuple(sorted((op.n, op.op) for op in t.ops))
            got[k] = got.get(k, 0) + t.coeff
        want = {tuple(sorted((q, p) for p, q in t)): c for c, t in spec}
        check(set(got) == set(want) and all(abs(got[k] - want[k]) < 1e-12 for k in got), "input-changed",
              "the Hamiltonian became %s", got)

    def threads(self, ch, rec, objs, points, want):
        sch = Scheduler(ch, rec, gap_bits=ch.pick([6, 9, 12]), attr_only=ch.draw(2) == 1)
        same = ch.draw(2) == 1
        o0 = ch.pick(["sparse", "exact"])
        jobs = []
        for t in range(ch.range(2, 3)):
            o = o0 if same else ch.pick(["sparse", "exact"])
            i = ch.draw(len(points))
            out = []

            def body(f=objs[o], p=np.array(points[i]), out=out):
                out.append(f(p))
            jobs.append((o, i, out))
            sch.spawn(f"T{t}", body)
        sch.run()
        for task, (o, i, out) in zip(sch.tasks, jobs):
            if task.exc is not None:
                raise task.exc
            self.value(rec, out[0], want[i], f"in a thread, objective[{o}](point {i})")
        return len(jobs)


CHECK = C09()
