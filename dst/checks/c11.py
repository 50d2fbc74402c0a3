"""C11: a VQE run reports what its optimiser found, and survives failures."""
import warnings

import numpy as np

from .. import annealref as ar, gen, opcmp, refmodel as rm, usergates, vqeref
from ..core import check
from ..sched import FAULTS, Scheduler, with_fault
from ..vqeref import ham_expr, ham_n, ham_spec, scale
from .base import Check


class OptimiserFails(Exception):
    pass


class SamplerFails(Exception):
    pass


SAMPLER_ERRORS = [RuntimeError, ConnectionError, TimeoutError, OSError, ZeroDivisionError, OverflowError, ValueError,
                  KeyError, IndexError, AttributeError, TypeError, MemoryError, KeyboardInterrupt,
                  np.linalg.LinAlgError]


class Fake:
    """Simulated services: a sampler with scripted failures and an optimiser with a scripted behaviour."""

    def __init__(self, vqe, kind):
        self.vqe = vqe
        self.kind = kind
        self.calls = 0
        self.fail_at = -1
        self.error = SamplerFails
        self.exc = None
        self.seen = []

    def __call__(self, c, meas):
        meas = tuple(meas)
        self.calls += 1
        if self.calls == self.fail_at:
            self.exc = self.error(self.calls)
            raise self.exc
        self.seen.append((c, meas))
        if self.kind == "labelled":         # an answer that tells the calls apart
            k = tuple([1] * len(meas))
            return {k: 1 - self.calls / 1000.0, tuple([0] * len(meas)): self.calls / 1000.0}
        return self.vqe.non_sampling_sampler(c, meas)


class C11(Check):
    ID = "C11"
    TECHNIQUE = ("simulated optimisers and samplers with scripted evaluation orders, reused buffers, answers and failures, "
                 "in seeded histories of runs and result queries with interrupts and threads, against a model of the result")
    LEVEL_NOTE = "Sampled ansatz circuits, optimiser behaviours and histories; trusts the reference model."
    QUICK = 4000
    THOROUGH = 60000
    RULE = ("a random ansatz (parametrised circuit or QAOA, 1-4 qubits), one or two Vqe objects with sampler none, exact, "
            "scripted or state-vector; 2-9 runs by scripted optimisers (0-6 evaluations at 1-4 points in any order, in "
            "one reused buffer or fresh arrays, answering with list, tuple, array or the buffer, directly or as a SciPy "
            "method) or real SciPy ones, some failing in the optimiser or sampler or interrupted or in 2-3 threads, "
            "verbose or not; Opt.qaoa of small QUBOs; then result queries (get_probs with sampler/rerun/store in any combination, most_common) "
            "on old and new results in any order. Non-trivial = a run succeeded and a result was queried.")
    REAL = ["blueqat.vqe", "blueqat.pauli", "blueqat.circuit", "NumPyBackend", "scipy.optimize (part of the runs)",
            "real threads"]
    STUB = ["optimiser", "sampler (part of the runs)", "thread scheduler"]

    def prepare(self):
        import scipy.optimize, scipy.sparse  # noqa

    def build(self, ch, rec):
        from blueqat import Circuit, vqe
        n = gen.width(ch, 4, 6)
        if ch.draw(3) < 2:
            t = vqeref.Template(ch, n)
            spec = ham_spec(ch, n)
            prefix = base = None
            if ch.draw(4) == 3:
                prefix = gen.program(ch, n, ch.range(1, 3), 0, 0)
                base = gen.build(Circuit, prefix, n)
            a = vqeref.make_ansatz_class()(ham_expr(spec), t, base)
            rec.ev(f"ansatz on {n} qubits: {prefix} then {t}; H = {spec}")
            return a, spec, n, t.n_params, lambda p: (prefix or []) + t.ops(p)
        spec = ham_spec(ch, n, diag=True)
        if ham_n(spec) == 0:
            spec = spec + [(1.0, (("Z", 0),))]
        n = ham_n(spec)
        step = ch.range(1, 2)
        a = vqe.QaoaAnsatz(ham_expr(spec), step)
        rec.ev(f"QAOA on {n} qubits, {step} steps; H = {spec}")

        def ref(p):
            fresh = vqe.QaoaAnsatz(ham_expr(spec), step)
            return [opcmp.of_gate(g) for g in fresh.get_circuit(np.array(p, dtype=float)).ops]
        return a, spec, n, 2 * step, ref

    def run(self, ch, rec):
        usergates.make()
        from blueqat import vqe
        self.vqe = vqe
        a, spec, n, np_, ref = self.build(ch, rec)
        self.n, self.np_, self.ref, self.spec = n, np_, ref, spec
        self.tol = 1e-7 * scale(spec)
        self.points = [[ch.angle() for _ in range(np_)] for _ in range(ch.range(1, 4))]
        self.cache = {}
        self.buf = np.zeros(np_)
        self.plan = {}
        runners = []
        self.latest = {}
        for i in range(ch.range(1, 2)):
            kind = ch.pick(["none", "exact", "scripted", "state-vector", "labelled"])
            s = {"none": None, "exact": vqe.non_sampling_sampler, "scripted": Fake(vqe, "exact"),
                 "state-vector": vqe.get_state_vector_sampler(50), "labelled": Fake(vqe, "labelled")}[kind]
            style = ch.pick(["direct", "scipy-method", "Powell", "COBYLA"] if kind in ("none", "exact") else
                            ["direct", "scipy-method"])
            if np_ == 0 and style not in ("direct", "scipy-method"):
                style = "direct"
            mini = {"direct": self.optimiser,
                    "scipy-method": vqe.get_scipy_minimizer(method=self.scipy_method),
                    "Powell": None,
                    "COBYLA": vqe.get_scipy_minimizer(method="COBYLA", options={"maxiter": 15})}[style]
            runners.append((vqe.Vqe(a, mini, s), kind, style, s))
            self.latest[runners[-1][0]] = [None]
            rec.ev(f"vqe {i}: sampler {kind}, optimiser {style}")
        self.results = []
        queried = 0
        for _ in range(gen.size(ch, 3, 16)):
            with ch.span("step"):
                act = ch.weighted([(5, "run"), (6, "query"), (2, "failrun"), (2, "interrupt"), (1, "threads"), (1, "reobj")])
                if ch.draw(100) == 99:
                    act = "qaoa"
                if act == "query" and not self.results:
                    act = "run"
                v, kind, style, s = ch.pick(runners)
                if act == "run":
                    self.do_run(ch, rec, v, kind, style, s)
                elif act == "query":
                    queried += self.query(ch, rec)
                elif act == "failrun":
                    self.fail_run(ch, rec, v, kind, style, s)
                elif act == "interrupt":
                    self.script(ch, style, kind)
                    self.quiet(s)
                    gen.seed_all(ch.bytes_seed())
                    k, r, fired = with_fault(rec, v.run, ch.pick(FAULTS), ch.loguniform(14))
                    rec.op(f"interrupted run: {k}, fired={fired}")
                    if k == "ok" and not fired:
                        self.accept(rec, r, v, kind, style)
                    elif k == "raised" and not fired:
                        raise r
                    else:
                        with warnings.catch_warnings():
                            warnings.simplefilter("ignore")
                            r = v.result            # the run may have been complete
                        if r.params is not None and not any(r is x for x in self.latest[v]):
                            self.accept(rec, r, v, kind, style)
                elif act == "threads":
                    self.threads(ch, rec, v, kind, style, s)
                elif act == "qaoa":
                    queried += self.qaoa(ch, rec)
                else:
                    # the ansatz stays usable directly
                    i = ch.draw(len(self.points))
                    e = a.get_energy(a.get_circuit(np.array(self.points[i])), vqe.non_sampling_sampler)
                    w = self.energy(self.points[i])
                    check(abs(e - w) < self.tol, "ansatz-broken", "energy %r, expected %r", e, w)
                for r in self.results:
                    self.recheck(r)
                if ch.draw(4) == 3:
                    self.last(v)
                rec.state(act, kind, style, len(self.results))
        rec.nontrivial = bool(self.results) and queried > 0

    def last(self, v):
        """Vqe.result: the last run's result, an empty one before."""
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            r = v.result
        check(type(r) is self.vqe.VqeResult, "last-result", "Vqe.result is %r", r)
        got = None if r.params is None else r
        check(any(got is x for x in self.latest[v]), "last-result", "Vqe.result has the parameters %s, the last runs gave %s",
              r.params, [x and x.params for x in self.latest[v]])

    # ---- the simulated optimiser
    def script(self, ch, style, kind):
        """What the optimiser will do in the next run."""
        evals = [(ch.draw(len(self.points)), ch.draw(3)) for _ in range(ch.range(0, 6))]
        self.plan = {"evals": evals, "answer": ch.draw(len(self.points)), "form": ch.draw(4), "fail": -1,
                     "kind": kind, "after": ch.draw(2), "x0": None}

    def optimiser(self, objective, n_params):
        plan = self.plan
        check(n_params == self.np_, "n-params", "the optimiser was asked for %r parameters, not %d", n_params, self.np_)
        for j, (i, how) in enumerate(plan["evals"]):
            if j == plan["fail"]:
                raise plan["exc"]
            if how == 0:
                self.buf[:] = self.points[i]
                x = self.buf
            elif how == 1:
                x = np.array(self.points[i])
            else:
                x = np.array(self.points[i])
                x.setflags(write=False)
            got = objective(x)
            check(np.array_equal(x, np.array(self.points[i])), "params-modified", "an evaluation changed its parameters")
            if plan["kind"] in ("none", "exact", "scripted"):
                w = self.energy(self.points[i])
                check(abs(got - w) < self.tol, "wrong-energy", "the objective at %s is %.9f, expected %.9f",
                      self.points[i], got, w)
        if plan["fail"] >= len(plan["evals"]):
            raise plan["exc"]
        ans = self.points[plan["answer"]]
        if plan["form"] == 0:
            return np.array(ans)
        if plan["form"] == 1:
            self.buf[:] = ans
            return self.buf
        if plan["form"] == 2:
            return list(ans)
        return tuple(ans)

    def scipy_method(self, fun, x0, args, **kw):
        from scipy.optimize import OptimizeResult
        x0 = np.asarray(x0)
        check(x0.shape == (self.np_,), "start", "the optimiser starts at %s", x0)
        x = self.optimiser(fun, self.np_)
        return OptimizeResult(x=np.asarray(x), fun=0.0, success=bool(self.plan["after"]), nit=1)

    # ---- model
    def key(self, p):
        return tuple(float(x) for x in p)

    def model(self, p):
        k = self.key(p)
        if k not in self.cache:
            ops = self.ref(k)
            v = rm.statevector(ops, self.n)
            self.cache[k] = (ops, rm.distribution(v, range(self.n)), vqeref.expectation(self.spec, v, self.n))
        return self.cache[k]

    def energy(self, p):
        return self.model(p)[2]

    def quiet(self, s):
        if isinstance(s, Fake):
            s.fail_at = -1

    def do_run(self, ch, rec, v, kind, style, s):
        self.script(ch, style, kind)
        self.quiet(s)
        gen.seed_all(ch.bytes_seed())
        r = v.run(**ch.pick([{}, {"verbose": True}]))
        rec.op("run ->", [round(float(x), 6) for x in r.params])
        self.accept(rec, r, v, kind, style)

    def accept(self, rec, r, v, kind, style, concurrent=False):
        check(type(r) is self.vqe.VqeResult, "result", "run returned %r", r)
        self.latest[v] = [r] + (self.latest[v] if concurrent else [])
        if style in ("direct", "scipy-method"):
            want = self.points[self.plan["answer"]]
            check(np.array_equal(np.asarray(r.params, dtype=float), np.array(want)), "wrong-params",
                  "the optimiser answered %s, the result says %s", want, r.params)
        else:
            check(np.shape(r.params) == (self.np_,), "wrong-params", "the parameters are %r", r.params)
        p = self.key(r.params)
        ops, dist, e = self.model(p)
        opcmp.check_ops(r.circuit.ops, ops, f"the result's circuit at {p}", "wrong-circuit")
        check(r.circuit.n_qubits == self.n, "wrong-circuit", "the circuit has %r qubits", r.circuit.n_qubits)
        check(r.vqe is v, "result", "the result belongs to %r", r.vqe)
        self.results.append({"r": r, "p": p, "stored": None, "kind": kind, "v": v,
                             "same": self.plan["form"] != 1})
        if len(self.results) > 4:
            self.results.pop(0)

    def recheck(self, h):
        r = h["r"]
        if h["same"]:
            check(self.key(r.params) == h["p"], "result-changed", "parameters %s became %s", h["p"], r.params)
        opcmp.check_ops(r.circuit.ops, self.model(h["p"])[0], "an earlier result's circuit", "result-changed")
        check(r.circuit.n_qubits == self.n, "result-changed", "an earlier result's circuit has %r qubits", r.circuit.n_qubits)

    def fail_run(self, ch, rec, v, kind, style, s):
        self.script(ch, style, kind)
        self.quiet(s)
        gen.seed_all(ch.bytes_seed())
        what = ch.pick(["optimiser", "sampler"])
        if what == "sampler" and isinstance(s, Fake):
            s.calls, s.fail_at = 0, 1 + ch.draw(6)
            expect = s.error = ch.pick([SamplerFails] + SAMPLER_ERRORS)
        elif style in ("direct", "scipy-method"):
            what = "optimiser"
            self.plan["fail"] = ch.draw(len(self.plan["evals"]) + 1)
            cls = ch.pick([OptimiserFails, ValueError, KeyboardInterrupt, AttributeError, StopIteration, RuntimeError, MemoryError, FloatingPointError,
                             ArithmeticError, np.linalg.LinAlgError, SystemExit])
            expect = cls
            self.plan["exc"] = cls("optimiser")
        else:
            return
        try:
            r = v.run()
        except expect as e:
            rec.fault(f"{what}-raises")
            rec.op("run failed as it should:", type(e).__name__)
            check(e is (s.exc if what == "sampler" else self.plan["exc"]), "exception",
                  "another exception reached the caller: %r", e)
        else:
            check(what == "sampler" and s.calls < s.fail_at, "swallowed", "the run returned although the %s failed", what)
            self.accept(rec, r, v, kind, style)
        self.quiet(s)

    def threads(self, ch, rec, v, kind, style, s):
        if style not in ("direct", "scipy-method") or kind not in ("none", "exact"):
            return
        self.script(ch, style, kind)
        self.plan["evals"] = [(i, 1) for i, _ in self.plan["evals"][:3]]
        self.plan["form"] = 0
        sch = Scheduler(ch, rec, gap_bits=ch.pick([6, 9, 12]), attr_only=ch.draw(2) == 1)
        out = []
        for t in range(ch.range(2, 3)):
            sch.spawn(f"T{t}", lambda: out.append(v.run()))
        sch.run()
        for task in sch.tasks:
            if task.exc is not None:
                raise task.exc
        rec.op(f"{len(out)} runs in threads")
        self.latest[v] = []
        for r in out:
            self.accept(rec, r, v, kind, style, True)

    def qaoa(self, ch, rec):
        """Opt.qaoa: a VQE run of the QUBO's own ansatz."""
        from blueqat import wq
        o = wq.Opt()
        q = ar.qubo_spec(ch, 3)
        n = wq.pauli(q).to_expr().n_qubits      # trailing variables without influence have no qubit
        if n == 0:
            return 0
        o.qubo = ar.given(ch, q)
        step = ch.range(1, 2)
        gen.seed_all(ch.bytes_seed())
        r = o.qaoa(step=step)
        rec.op(f"qaoa of {q} in {step} steps")
        check(ar.same_qubo(o.qubo, q), "qubo-changed", "qaoa changed the QUBO to %s, was %s", o.qubo, q)
        check(np.shape(r.params) == (2 * step,), "wrong-params", "%d steps gave the parameters %r", step, r.params)
        fresh = self.vqe.QaoaAnsatz(wq.pauli(q), step).get_circuit(np.array(r.params, dtype=float))
        opcmp.check_ops(r.circuit.ops, [opcmp.of_gate(g) for g in fresh.ops], "the circuit of a qaoa result", "wrong-circuit")
        ops = [opcmp.of_gate(g) for g in fresh.ops]
        v = rm.statevector(ops, n)
        check(r.circuit.n_qubits == n, "wrong-circuit", "the circuit of %d variables has %r qubits", n, r.circuit.n_qubits)
        dist = rm.distribution(v, range(n))
        got = r.get_probs()
        check(self.same(got, dist), "wrong-probs", "qaoa: probabilities %s, expected %s", got, dist)
        best = r.most_common(1)[0]
        check(abs(best[1] - max(dist.values())) < 1e-7, "most-common", "most_common is %s of %s", best, dist)
        return 1

    # ---- queries
    def same(self, a, b):
        return all(abs(a.get(k, 0.0) - b.get(k, 0.0)) < 1e-7 for k in set(a) | set(b))

    def query(self, ch, rec):
        h = ch.pick(self.results)
        r, kind = h["r"], h["kind"]
        own = h["v"].sampler
        dist = self.model(h["p"])[1]
        gen.seed_all(ch.bytes_seed())
        act = ch.weighted([(3, "plain"), (3, "options"), (2, "most_common"), (1, "fail"), (1, "probs"), (1, "interrupt")])
        fake = Fake(self.vqe, "labelled")
        fake.calls = 100 + ch.draw(400)
        kw = {}
        if act in ("options", "fail", "interrupt"):
            k = ch.draw(4)
            if k == 1 and act != "fail":
                kw["sampler"] = self.vqe.non_sampling_sampler
            elif k >= 2 or act == "fail":
                kw["sampler"] = fake
            k = ch.draw(3)
            if k:
                kw["rerun"] = k == 1
            k = ch.draw(3)
            if k:
                kw["store"] = k == 1
        stored = h["stored"]
        rerun = kw.get("rerun")
        if rerun is None:
            rerun = kw.get("sampler") is not None
        reuse = stored is not None and not rerun
        use = kw.get("sampler") or own
        own_calls = own.calls if isinstance(own, Fake) else None
        if isinstance(own, Fake) and act != "fail":
            self.quiet(own)
        note = f"query {sorted((k, v if isinstance(v, bool) else ('fake' if isinstance(v, Fake) else 'exact')) for k, v in kw.items())}"
        if act == "fail":
            fake.fail_at = fake.calls + 1
            fake.error = ch.pick([SamplerFails] + SAMPLER_ERRORS)
            try:
                got = r.get_probs(**kw)
            except fake.error as e:
                if e is not fake.exc:
                    raise
                rec.fault("sampler-raises")
                rec.op(note, "failed as it should")
                check(not reuse, "needless-sampling", "stored probabilities were asked for and the sampler was called")
                return 1
            check(reuse, "swallowed", "the sampler failed, get_probs returned %s", got)
        elif act == "interrupt":
            k, got, fired = with_fault(rec, lambda: r.get_probs(**kw), ch.pick(FAULTS), ch.loguniform(10))
            rec.op("interrupted", note, k, fired)
            if k == "raised":
                if not fired:
                    raise got
                # the old probabilities are still there, or the new ones already are
                if stored is not None:
                    now = r.get_probs()
                    if dict(now) != stored:
                        check(not reuse and kw.get("store", True), "stored-probs", "an interrupted query replaced %s by %s",
                              stored, now)
                        self.judge(rec, h, use, now, dist, fake, own, "stored by an interrupted query")
                else:
                    now = r.get_probs(rerun=True)
                    self.judge(rec, h, own, now, dist, fake, own, "after an interrupted query")
                h["stored"] = dict(now)
                return 1
        elif act == "most_common":
            m = ch.range(1, 4)
            mc = r.most_common(m) if ch.draw(2) else r.most_common(n=m)
            rec.op("most_common", m, mc)
            check(isinstance(mc, tuple), "most-common", "most_common is %r", mc)
            full = r.get_probs()
            check(len(mc) == min(m, len(full)), "most-common", "most_common(%d) of %d outcomes has %d entries", m,
                  len(full), len(mc))
            want = sorted(full.values(), reverse=True)[:m]
            check([p for _, p in mc] == want and all(full.get(k) == p for k, p in mc) and len({k for k, _ in mc}) == len(mc),
                  "most-common", "most_common(%d) is %s of %s", m, mc, full)
            got = full
        elif act == "probs":
            got = r.probs
        else:
            got = r.get_probs(**kw)
        rec.op(note, act, "->", {k: round(float(v), 5) for k, v in sorted(got.items())})
        if reuse:
            check(dict(got) == stored, "stored-probs", "stored probabilities %s, got %s", stored, got)
            if own_calls is not None and kw.get("sampler") is None:
                check(own.calls == own_calls, "needless-sampling", "the sampler was called although probabilities are stored")
            return 1
        self.judge(rec, h, use, got, dist, fake, own, note)
        if kw.get("store", True):
            h["stored"] = dict(got)
        return 1

    def judge(self, rec, h, use, got, dist, fake, own, note):
        if use is None or use is self.vqe.non_sampling_sampler or isinstance(use, Fake) and use.kind == "exact":
            check(self.same(got, dist), "wrong-probs", "%s: probabilities %s, expected %s", note, got, dist)
        elif isinstance(use, Fake):
            c, meas = use.seen[-1]
            check(tuple(meas) == tuple(range(self.n)), "wrong-qubits", "the sampler was asked for qubits %s", meas)
            opcmp.check_ops(c.ops, self.model(h["p"])[0], "the circuit given to the sampler", "wrong-circuit")
            lab = use.calls / 1000.0
            check(got == {(1,) * self.n: 1 - lab, (0,) * self.n: lab}, "wrong-probs",
                  "%s: not what the sampler returned: %s", note, got)
        else:
            check(abs(sum(got.values()) - 1) < 1e-7 and all(dist.get(k, 0) > 1e-10 for k, p in got.items() if p > 0),
                  "wrong-probs", "%s: %s, possible are %s", note, got, dist)


CHECK = C11()
