"""C15: annealing results and recorded energies always belong to the given QUBO."""
import numpy as np

from .. import annealref as ar, gen
from ..core import check
from ..sched import FAULTS, Scheduler, with_fault
from .base import Check


class C15(Check):
    ID = "C15"
    TECHNIQUE = ("seeded histories of annealing runs on one optimiser with scripted random bits, changed QUBOs and settings, "
                 "interrupted runs and threads; results and recorded energies are recomputed from the QUBO, and each run "
                 "is repeated on a fresh optimiser")
    LEVEL_NOTE = "Sampled QUBOs (upper triangular, 1-7 variables), settings, streams and histories."
    QUICK = 1200
    THOROUGH = 60000
    RULE = ("1-12 steps on 1-2 optimisers: set a QUBO (lists, arrays, mixed, integers), accumulate with add and weights, "
            "change temperatures, rate and iterations, run with 1-4 shots (normal, fast, sa) under seeded or extreme random "
            "bits, interrupted runs, quantum annealing in between, 2 threads with an optimiser each. Non-trivial = at "
            "least two runs were judged.")
    STATES = "distinct (QUBO, result) pairs"
    REAL = ["blueqat.wq.Opt", "numpy.random (scripted generator state)", "real threads"]
    STUB = ["thread scheduler"]

    def run(self, ch, rec):
        from blueqat import wq
        self.wq = wq
        self.done = 0
        self.kept = []
        opts = [self.new(ch) for _ in range(ch.range(1, 2))]
        for o in opts:
            self.set_qubo(ch, rec, o)
        for _ in range(gen.size(ch, 1, 12)):
            with ch.span("step"):
                o = ch.pick(opts)
                act = ch.weighted([(6, "run"), (2, "set_qubo"), (2, "add"), (2, "settings"), (2, "interrupt"), (1, "threads"),
                                   (1, "sqa")])
                getattr(self, {"run": "run_step"}.get(act, act))(ch, rec, o if act != "threads" else opts)
                for x in opts:
                    self.unchanged(x)
        for o in opts:
            self.judge(ch, rec, o, "last run", False)
        for r, s in self.kept:
            check(r == s, "result-changed", "an earlier result became %s, was %s", r, s)
        rec.nontrivial = self.done >= 2

    def new(self, ch):
        o = {"opt": self.wq.Opt(), "q": None, "set": {}}
        o["set"] = {"Ts": ch.pick([5, 1.0, 20]), "R": ch.pick([0.5, 0.8, 0.9]), "ite": ch.pick([5, 1, 20])}
        for k, v in o["set"].items():
            setattr(o["opt"], k, v)
        return o

    def unchanged(self, o):
        if o["q"] is not None:
            check(ar.same_qubo(o["opt"].qubo, o["q"]), "qubo-changed", "the QUBO became %s, was %s", o["opt"].qubo, o["q"])
        for k, v in o["set"].items():
            check(getattr(o["opt"], k) == v, "settings-changed", "%s became %r, was %r", k, getattr(o["opt"], k), v)
        for src, snap in o.get("given", []):
            check(ar.same_qubo(src, snap), "input-changed", "a QUBO given earlier became %s, was %s", src, snap)

    def set_qubo(self, ch, rec, o):
        q = ar.qubo_spec(ch, 7 if ch.draw(6) else 24)
        if ch.draw(4) == 3:
            q = ar.scaled(q, ch.pick(ar.SCALES))
        src = ar.given(ch, q)
        if ch.draw(3) == 2 and len(q) > 0:
            # accumulated from nothing
            w = ch.pick([1, 2, 0.5])
            o["opt"].qubo = []
            r = o["opt"].add(src, M=w) if w != 1 or ch.draw(2) else o["opt"].add(src)
            check(r is o["opt"], "chaining", "add returned another object")
            o["q"] = [[w * v for v in row] for row in q]
        else:
            o["opt"].qubo = src
            o["q"] = q
        o.setdefault("given", []).append((src, [list(r) for r in q]))
        rec.op("QUBO", o["q"])

    def add(self, ch, rec, o):
        n = len(o["q"])
        q = [[round(ch.unit() * 4 - 2, 4) if j >= i and ch.draw(2) else 0.0 for j in range(n)] for i in range(n)]
        w = ch.pick([1, -1, 3, 0.25])
        src = ar.given(ch, q)
        o["opt"].add(src, w)
        o["q"] = [[float(a + w * b) for a, b in zip(x, y)] for x, y in zip(o["q"], q)]
        o["given"].append((src, [list(r) for r in q]))
        rec.op(f"add {q} * {w}")
        check(np.allclose(np.array(o["opt"].qubo, dtype=float), np.array(o["q"]), atol=1e-12), "add",
              "the QUBO is %s, expected %s", o["opt"].qubo, o["q"])
        o["q"] = [[float(v) for v in r] for r in o["opt"].qubo]

    def settings(self, ch, rec, o):
        k = ch.pick(["Ts", "R", "ite"])
        v = {"Ts": ch.pick([0.5, 5, 3.3]), "R": ch.pick([0.6, 0.9]), "ite": ch.pick([3, 10])}[k]
        setattr(o["opt"], k, v)
        o["set"][k] = v
        rec.op(f"{k} = {v}")

    def plan(self, ch):
        how = ch.pick(["run", "fast", "sa"])
        kw = {"shots": ch.range(1, 4)} if ch.draw(4) else {}
        many = bool(kw) and ch.draw(14) == 13
        if many:
            kw["shots"] = ch.pick([60, 20, 100])
        if how == "fast":
            kw["sampler"] = "fast"
        if how != "sa" and ch.draw(3) == 2:
            kw["targetT"] = ch.pick([0.02, 0.5, 2.0, 50])
        if many:
            how = "run"
            kw["targetT"] = ch.pick([3.0, 1.0])
        if how != "sa" and ch.draw(6) == 5:
            kw["verbose"] = True
        words = ar.extreme_words(ch) if ch.draw(4) == 3 else None
        seed = ch.bytes_seed()
        return how, kw, seed, words

    def start(self, seed, words):
        gen.seed_all(seed)
        if words is not None:
            ar.script_bits(words + [seed])

    def call(self, opt, how, kw):
        return opt.sa(**kw) if how == "sa" else opt.run(**kw)

    def run_(self, o, plan, rec):
        how, kw, seed, words = plan
        self.start(seed, words)
        if words:
            rec.fault("scripted-random-bits")
        return self.call(o["opt"], how, kw)

    def judge(self, ch, rec, o, what, compare=True):
        plan = self.plan(ch)
        res = self.run_(o, plan, rec)
        E = o["opt"].E
        self.verdict(rec, o, plan, res, E, what)
        if compare:
            f = self.wq.Opt()
            for k, v in o["set"].items():
                setattr(f, k, v)
            f.qubo = [list(r) for r in o["q"]]
            self.start(plan[2], plan[3])
            res2 = self.call(f, plan[0], plan[1])
            same = np.array_equal(np.array(res), np.array(res2)) and len(E) == len(f.E) and np.allclose(
                np.array(E, dtype=float), np.array(f.E, dtype=float), atol=1e-6 * (1e-9 + np.max(np.abs(np.array(o["q"])))))
            check(same, "depends-on-history", "the run gave %s, a fresh optimiser with the same random numbers %s", res, res2)

    def verdict(self, rec, o, plan, res, E, what):
        how, kw, seed, words = plan
        q = o["q"]
        n = len(q)
        shots = kw.get("shots", 1)
        rec.op(what, how, kw, "->", res)
        rec.state(q, res)
        if shots == 1:
            res, E = [res], [E]
        check(isinstance(res, list) and len(res) == shots, "shots", "%d shots gave %r", shots, res)
        check(len(E) == shots, "shots", "%d shots recorded %d energy lists", shots, len(E))
        tol = 1e-9 * (1e-9 + sum(abs(v) for r in q for v in r))
        rate = 0.75 if how == "fast" or kw.get("sampler") == "fast" else o["set"]["R"]
        lo, hi = self.steps(o["set"]["Ts"], rate, kw.get("targetT", 0.02))
        possible = np.sort(ar.energies(q)) if n <= 8 else None
        for x, e in zip(res, E):
            check(len(x) == n and all(v in (0, 1) for v in x), "bits", "a result for %d variables is %r", n, x)
            w = ar.energy(q, x)
            check(lo <= len(e) - 1 <= hi, "energy-count", "%d energies recorded for %d temperature steps", len(e), lo)
            check(abs(e[-1] - w) < tol, "wrong-energy", "the last energy is %r, the QUBO energy of %s is %r", e[-1], x, w)
            if possible is None:
                continue
            i = np.clip(np.searchsorted(possible, np.array(e, dtype=float)), 1, len(possible) - 1)
            d = np.minimum(np.abs(possible[i] - e), np.abs(possible[i - 1] - e))
            check(float(np.max(d)) < tol, "impossible-energy", "the energies %s contain values no vector has",
                  [float(v) for v in e][:10])
        self.done += 1
        if len(self.kept) < 8:
            self.kept.append((res, [list(x) for x in res]))

    def steps(self, t, r, target):
        def count(f):
            k, x = 0, t
            while x > target * f:
                x *= r
                k += 1
            return k
        return count(1 + 1e-9), count(1 - 1e-9)

    def run_step(self, ch, rec, o):
        self.judge(ch, rec, o, "run", ch.draw(2) == 1)

    def interrupt(self, ch, rec, o):
        plan = self.plan(ch)
        k, v, fired = with_fault(rec, lambda: self.run_(o, plan, rec), ch.pick(FAULTS), ch.loguniform(12))
        rec.op(f"interrupted run: {k}, fired={fired}")
        if k == "raised" and not fired:
            raise v
        if k == "ok":
            self.verdict(rec, o, plan, v, o["opt"].E, "a run")
        if ch.draw(2):
            self.judge(ch, rec, o, "run after it")

    def sqa(self, ch, rec, o):
        o["opt"].tro, o["opt"].Gs, ite = 2, 1.0, o["opt"].ite
        o["opt"].ite = 2
        gen.seed_all(ch.bytes_seed())
        o["opt"].sqa()
        o["opt"].ite = ite
        rec.op("sqa in between")

    def threads(self, ch, rec, opts):
        sch = Scheduler(ch, rec, gap_bits=ch.pick([6, 9, 12]), attr_only=ch.draw(2) == 1)
        jobs = []
        gen.seed_all(ch.bytes_seed())
        for t, o in enumerate(opts):
            how, kw, _, _ = self.plan(ch)
            kw.pop("verbose", None)
            if kw.get("shots", 1) > 4 or len(o["q"]) > 7:
                how, kw = "run", {"shots": 2, "targetT": 1.0}
            out = []

            def body(o=o, how=how, kw=kw, out=out):
                out.append(self.call(o["opt"], how, kw))
            jobs.append((o, (how, kw, 0, None), out))
            sch.spawn(f"T{t}", body)
        sch.run()
        for task, (o, plan, out) in zip(sch.tasks, jobs):
            if task.exc is not None:
                raise task.exc
            self.verdict(rec, o, plan, out[0], o["opt"].E, "in a thread")


CHECK = C15()
