"""C10: samplers report the distribution of exactly the requested qubits."""
import numpy as np

from .. import gen, opcmp, refmodel as rm, usergates
from ..core import check
from ..refmodel import Op
from ..sched import FAULTS, Scheduler, with_fault
from .base import Check


class Subject:
    """A circuit with what the model knows about its outcomes."""

    def __init__(self, name, c, ops, n, default=None):
        self.name, self.c, self.ops, self.n, self.default = name, c, list(ops), n, default
        self.refresh()

    def refresh(self):
        self.unitary = rm.is_unitary(self.ops)
        self.br = rm.branches(self.ops, self.n, limit=512)

    def ok(self):
        return self.br is not None

    def joint(self, qs):
        """Distribution of measuring qs after the circuit."""
        d = {}
        for p, v, _, _ in self.br:
            for k, pk in rm.distribution(v, qs).items():
                d[k] = d.get(k, 0.0) + p * pk
        return d

    def per_branch(self, qs):
        return [rm.distribution(v, qs) for _, v, _, _ in self.br]


def fmt(d):
    return "{" + ", ".join(f"{''.join(map(str, k))}:{v:.4g}" for k, v in sorted(d.items())) + "}"


class C10(Check):
    ID = "C10"
    TECHNIQUE = ("seeded histories of sampler calls with seeded and scripted random streams, interrupted and failing calls "
                 "and concurrent threads; every answer is compared with an independent joint distribution")
    LEVEL_NOTE = ("Sampled circuits, qubit lists and histories; frequencies are tested at p < 1e-11, so small biases are "
                  "not seen. Trusts the reference model.")
    QUICK = 3500
    THOROUGH = 60000
    RULE = ("one to three circuits of 1-5 qubits (with measurements and resets in a third of the runs), 3-16 calls of "
            "samplers made once and reused (exact, state-vector with 1-400 samples, measurement with 1-400 shots and run "
            "options for the NumPy, numba and a user-defined backend), for any subset of qubits in any order given as "
            "list, tuple, range or iterator, mixed with appends, runs, copies, interrupted and failing calls and 2-3 "
            "threads sampling one circuit. Non-trivial = an answer with at least two outcomes was compared.")
    REAL = ["blueqat.vqe samplers", "blueqat.circuit", "NumPyBackend", "NumbaBackend (interpreted kernels)",
            "real threads"]
    STUB = ["thread scheduler", "random.random (scripted stream in part of the runs)", "numba (interpreter)"]
    ASSUMPTIONS = ["the random numbers used are uniform on [0,1)"]

    def prepare(self):
        from .. import fakenumba
        self.numba = fakenumba.available()

    def run(self, ch, rec):
        usergates.make()
        from blueqat import Circuit, vqe
        self.Circuit = Circuit
        self.user = ch.pick([0, 0, 80])
        self.meas, self.reset = ch.pick([(0, 0), (0, 0), (120, 60)])
        ch.tiny = self.meas == 0 and ch.draw(3) == 2
        self.maxn = ch.pick([3, 4, 5])
        self.kept = []
        subs = [self.new(ch, rec, 0)]
        if not subs[0].ok():
            return
        samplers = self.samplers(ch, vqe)
        pool = {}
        done = 0
        for _ in range(gen.size(ch, 3, 16)):
            with ch.span("step"):
                s = subs[-1 - ch.draw(len(subs))]
                usable = [x for x in samplers if s.default != "numba" or x[2] <= 20]
                act = ch.weighted([(10, "sample"), (2, "append"), (1, "new"), (1, "copy"), (1, "run"), (2, "interrupt"),
                                   (2, "fail"), (2, "threads"), (1, "scripted"), (1, "transient")])
                if act == "append" and len(s.ops) < 12:
                    o = gen.any_op(ch, s.n, self.meas, self.reset, None, self.user)
                    t = Subject(s.name, None, s.ops + [o], s.n)
                    if t.ok():
                        o.apply_to(s.c)
                        s.ops.append(o)
                        s.refresh()
                        rec.op(f"{s.name}.{o}")
                elif act == "new" and len(subs) < 3:
                    t = self.new(ch, rec, len(subs))
                    if t.ok():
                        subs.append(t)
                elif act == "copy" and len(subs) < 3:
                    c = s.c.copy()
                    subs.append(Subject(f"c{len(subs)}", c, s.ops, s.n, s.default))
                    rec.op(f"c{len(subs) - 1} = {s.name}.copy()")
                elif act == "run":
                    gen.seed_all(ch.bytes_seed())
                    s.c.run(shots=2, backend="numpy")
                    rec.op(f"{s.name}.run(shots=2)")
                elif act in ("sample", "scripted"):
                    kind, f, n, opts = ch.pick(usable)
                    qs, arg = self.qubits(ch, s.n)
                    gen.seed_all(ch.bytes_seed())
                    if act == "scripted" and not ch.tiny:
                        draws = [gen.extreme_draw(ch) for _ in range(ch.range(1, 30))]
                        rec.fault("scripted-random-draw", len(draws))
                        with gen.random_stream(draws):
                            r = f(s.c, arg)
                    else:
                        r = f(s.c, arg)
                    done += self.judge(rec, s, kind, n, qs, r, pool if act == "sample" else None, opts)
                elif act == "interrupt":
                    kind, f, n, opts = ch.pick(usable)
                    qs, arg = self.qubits(ch, s.n)
                    gen.seed_all(ch.bytes_seed())
                    cls = ch.pick(FAULTS)
                    k, v, fired = with_fault(rec, lambda: f(s.c, arg), cls, ch.loguniform(12))
                    rec.op(f"interrupted {kind} of {s.name}{qs}: {k}, fired={fired}")
                    if k == "ok" and not fired:
                        done += self.judge(rec, s, kind, n, qs, v, None, opts)
                    elif k == "raised" and not fired:
                        raise v
                elif act == "fail":
                    kind, f, n, opts = ch.pick(usable)
                    qs, arg = self.qubits(ch, s.n)
                    gen.seed_all(ch.bytes_seed())
                    usergates.arm(ch.draw(10))
                    try:
                        r = f(s.c, arg)
                    except usergates.Injected as e:
                        rec.fault("user-code-raises")
                        rec.op(f"{kind} of {s.name}{qs} fails: {e}")
                    else:
                        usergates.disarm()
                        done += self.judge(rec, s, kind, n, qs, r, None, opts)
                    finally:
                        usergates.disarm()
                elif act == "threads":
                    done += self.threads(ch, rec, subs[-1], samplers)
                elif act == "transient":
                    done += self.transient(ch, rec, usable)
                for t in subs:
                    self.unchanged(t)
                rec.state(act, [(t.n, [o.key() for o in t.ops]) for t in subs])
        for r, snap, what in self.kept:
            check(dict(r) == snap, "earlier-result-changed", "%s was %s, became %s", what, fmt(snap), fmt(r))
        # pooled frequencies over all calls with the same circuit, qubits and kind
        for (kind, qs, _), (counts, total, want) in pool.items():
            why = gen.freq_violation(counts, want, total)
            check(why is None, "frequencies", "%s sampler over %d samples of %s: %s", kind, total, qs, why)
        # the circuits still run right
        for s in subs:
            gen.seed_all(ch.bytes_seed())
            v = s.c.run(backend="numpy")
            check(any(rm.same_ray(v, b[1]) for b in s.br), "later-run", "%s after all: state is not reachable", s.name)
        rec.nontrivial = done > 0

    def new(self, ch, rec, i):
        n = ch.range(1, self.maxn)
        ops = gen.program(ch, n, ch.range(0, 7), self.meas, self.reset, None, self.user)
        if ch.draw(4) == 3:
            ops = [Op("h", (), slice(None))] + ops
        c = gen.build(self.Circuit, ops, n)
        default = None
        if ch.draw(6) == 5:
            default = "numba" if self.numba and ch.draw(2) and n <= 3 else "dstflakybackend"
            c.set_default_backend(default)
        rec.op(f"c{i} = Circuit({n})" + "".join(f".{o}" for o in ops), f"default backend {default}")
        return Subject(f"c{i}", c, ops, n, default)

    def samplers(self, ch, vqe):
        out = [("exact", vqe.non_sampling_sampler, 0, None)]
        for _ in range(2):
            n = ch.pick([200, 1, 2, 7, 100, 400])
            out.append(("state-vector", vqe.get_state_vector_sampler(n), n, None))
        for _ in range(3):
            n = ch.pick([100, 1, 2, 7, 40, 400])
            k = ch.draw(6)
            opts = None
            if k == 2:
                opts = {}
            elif k == 3:
                opts = {"backend": "numpy"}
            elif k == 4:
                opts = {"backend": "dstflakybackend"}
            elif k == 5 and self.numba:
                opts = {"backend": "numba", "ignore_global": True}
                n = min(n, 20)
            snap = None if opts is None else (opts, dict(opts))
            out.append(("measurement", vqe.get_measurement_sampler(n, opts), n, snap))
        return out

    def transient(self, ch, rec, samplers):
        """Circuits that are made, sampled once and dropped, so that later ones reuse their memory."""
        kind, f, n, opts = ch.pick([x for x in samplers if x[2] <= 100])
        size = ch.range(1, 2)
        length = ch.range(1, 2)
        done = 0
        for i in range(ch.range(2, 16)):
            ops = [gen.vocabulary_op(ch, size, ["x", "z", "h", "s", "y", "t", "h"]) for _ in range(length)]
            s = Subject(f"t{i}", gen.build(self.Circuit, ops, size), ops, size)
            qs, arg = self.qubits(ch, size)
            gen.seed_all(ch.bytes_seed())
            rec.op(f"{s.name} = Circuit({size})" + "".join(f".{o}" for o in ops))
            done += self.judge(rec, s, kind, n, qs, f(s.c, arg), None, opts)
            del s
        return done

    def qubits(self, ch, n):
        k = ch.draw(10)
        if k == 9:
            qs = ()
        elif k == 8:
            qs = tuple(range(n))
        else:
            qs = tuple(ch.subset(range(n), ch.range(1, n)))
        form = ch.draw(5)
        if form == 1:
            arg = list(qs)
        elif form == 2:
            arg = iter(qs)
        elif form == 3 and qs == tuple(range(n)):
            arg = range(n)
        elif form == 4:
            arg = (q for q in qs)
        else:
            arg = qs
        return qs, arg

    def unchanged(self, s):
        opcmp.check_ops(s.c.ops, s.ops, f"{s.name} after sampling", "circuit-modified")
        check(s.c.n_qubits == s.n, "circuit-modified", "%s has %r qubits, had %d", s.name, s.c.n_qubits, s.n)
        check(s.c.get_default_backend_name() == (s.default or "numpy"), "circuit-modified", "%s changed its default backend", s.name)

    def judge(self, rec, s, kind, n, qs, r, pool, opts):
        what = f"{kind} sampler ({n}) of {s.name}{list(qs)}"
        rec.op(what, "->", fmt(r))
        if opts is not None:
            check(opts[0] == opts[1], "options-changed", "run options became %s, were %s", opts[0], opts[1])
        self.kept.append((r, dict(r), what))
        tot = 0.0
        for k, p in r.items():
            check(isinstance(k, tuple) and len(k) == len(qs) and all(type(b) is int and b in (0, 1) for b in k),
                  "key", "%s has the key %r", what, k)
            check(np.isfinite(p) and p >= 0, "negative", "%s has probability %r for %s", what, p, k)
            tot += p
        check(abs(tot - 1) < (1e-7 if len(s.br) > 1 else 1e-10), "sum", "%s sums to %.9f: %s", what, tot, fmt(r))
        per = s.per_branch(qs)
        want = s.joint(qs)
        if kind == "exact":
            good = any(all(abs(r.get(k, 0.0) - d.get(k, 0.0)) < 1e-7 for k in set(r) | set(d)) for d in per)
            check(good, "wrong-distribution", "%s is %s, expected %s", what, fmt(r), fmt(per[0]))
            return len(want) > 1
        tiny = 1e-10
        support = [{k for k, p in d.items() if p > tiny} for d in (per if kind == "state-vector" else [want])]
        seen = {k for k, p in r.items() if p > 0}
        check(any(seen <= x for x in support), "impossible", "%s gives %s; possible outcomes are %s", what, fmt(r),
              fmt(want))
        for k, p in r.items():
            check(abs(p * n - round(p * n)) < 1e-6, "counts", "%s: %r is no multiple of 1/%d", what, p, n)
        if kind == "state-vector" and len(per) > 1:
            return len(want) > 1
        counts = {k: int(round(p * n)) for k, p in r.items() if p > 0}
        why = gen.freq_violation(counts, want, n) if n >= 100 else None
        check(why is None, "frequencies", "%s: %s", what, why)
        if pool is not None:
            key = (kind, qs, repr([o.key() for o in s.ops]))
            c, t, _ = pool.get(key, ({}, 0, None))
            for k, v in counts.items():
                c[k] = c.get(k, 0) + v
            pool[key] = (c, t + n, want)
        return len(want) > 1

    def threads(self, ch, rec, s, samplers):
        sch = Scheduler(ch, rec, gap_bits=ch.pick([6, 9, 12]), attr_only=ch.draw(2) == 1)
        jobs = []
        gen.seed_all(ch.bytes_seed())
        for t in range(ch.range(2, 3)):
            kind, f, n, opts = ch.pick([x for x in samplers if x[2] <= (100 if s.default != 'numba' else 7) and (x[3] is None or "numba" not in x[3][0].values())])
            qs, arg = self.qubits(ch, s.n)
            out = []

            def body(f=f, arg=arg, out=out):
                out.append(f(s.c, arg))
            jobs.append((kind, n, qs, opts, out))
            sch.spawn(f"T{t}", body)
        sch.run()
        done = 0
        for task, (kind, n, qs, opts, out) in zip(sch.tasks, jobs):
            if task.exc is not None:
                raise task.exc
            done += self.judge(rec, s, kind, n, qs, out[0], None, opts)
        return done


CHECK = C10()
