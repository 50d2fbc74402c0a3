"""C30: training a Boltzmann machine changes its QUBO only by its data and its samples."""
import math

import numpy as np

from .. import annealref as ar, gen
from ..core import check
from ..sched import FAULTS, Scheduler, with_fault
from .base import Check


class SamplerFails(Exception):
    pass


def sigmoid(x):
    return 1.0 / (1.0 + math.exp(-x)) if x > -700 else 0.0


def hidden(v, q):
    """Probabilities of the hidden units for the visible values v."""
    n = len(v)
    return [sigmoid(float(q[i][i]) + sum(float(q[j][i]) * v[j] for j in range(n))) for i in range(n, len(q))]


def data_statistics(v, q):
    n, m = len(v), len(q)
    h = hidden(v, q)
    d = np.diag([float(x) for x in v] + h) if m else np.zeros((0, 0))
    for i in range(n):
        for j in range(n, m):
            d[i][j] = v[i] * h[j - n]
    return d


def model_statistics(samples, visible):
    m = len(samples[0])
    s = np.zeros((m, m))
    for x in samples:
        for i in range(m):
            s[i][i] += x[i]
        for i in range(visible):
            for j in range(visible, m):
                s[i][j] += x[i] * x[j]
    return s / len(samples)


class C30(Check):
    ID = "C30"
    TECHNIQUE = ("seeded histories of Boltzmann machines trained with scripted and real samplers that fail on schedule, with "
                 "injected exceptions, scripted random bits and scheduled threads; every epoch's QUBO is recomputed from the "
                 "previous one, the samples it drew and a row of the data, and how often each row is used is tested")
    LEVEL_NOTE = "Sampled machines (up to 4 + 3 units), data, streams and histories; tolerance 1e-9 relative."
    QUICK = 3000
    THOROUGH = 60000
    RULE = ("2-16 steps on 1-2 machines: set up layers, given or trained QUBOs (lists or arrays), train 1-4 epochs (rarely 300) with 1-5 "
            "(rarely up to 1000) shots on 1-4 rows (lists, tuples, arrays, floats), model statistics, data statistics, builders dbms and rands, counter, "
            "samplers failing in some epoch, one step in six interrupted, 2 threads with a machine each, the same training again "
            "from the same random stream. Non-trivial = two epochs recomputed.")
    STATES = "distinct (QUBO, samples) pairs"
    REAL = ["blueqat.wq (builders, Opt.run in a part of the trainings)", "real threads"]
    STUB = ["the sampler Opt.run in a part of the trainings", "thread scheduler"]
    ASSUMPTIONS = ["training takes its samples from Opt.run; where it does not, only repeatability is judged"]

    def prepare(self):
        from blueqat import wq

        class Machine(wq.Opt):
            """An optimiser whose sampler is scripted or recorded."""
            mode, calls, fail_at, script, error = "real", None, -1, None, None

            def run(self, *a, **kw):
                if self.calls is None:
                    return super().run(*a, **kw)
                before = [[float(v) for v in r] for r in self.qubo]
                if len(self.calls) == self.fail_at:
                    raise self.error
                if self.mode == "real":
                    r = super().run(*a, **kw)
                    shots = a[0] if a else kw.get("shots", 1)
                else:
                    shots = a[0] if a else kw.get("shots", 1)
                    k = len(self.calls)
                    r = [list(self.script[(k * 7 + i * 3) % len(self.script)]) for i in range(shots)]
                    if shots == 1:
                        r = r[0]
                self.calls.append((before, [list(x) for x in (r if shots > 1 else [r])], a, kw))
                return r
        self.Machine = Machine

    def run(self, ch, rec):
        from blueqat import wq
        self.wq = wq
        self.epochs = 0
        self.kept = []
        ms = [self.new(ch, rec) for _ in range(ch.range(1, 2))]
        for _ in range(gen.size(ch, 2, 16)):
            with ch.span("step"):
                act = ch.weighted([(5, "train"), (2, "model"), (2, "data"), (2, "builders"), (1, "counter"), (4, "interrupt"), (2, "fail"),
                                   (1, "again"), (1, "setup"), (2, "threads")])
                m = ch.pick(ms)
                getattr(self, act)(ch, rec, ms if act == "threads" else m)
                for x in ms:
                    check(ar.same_qubo(x["o"].qubo, x["q"]), "qubo-changed", "%s changed the QUBO to %s, was %s", act, x["o"].qubo, x["q"])
                for src, snap in self.kept[-12:]:
                    check([list(map(float, r)) for r in src] == snap, "input-changed", "%s changed the data to %s, was %s", act, src, snap)
        rec.nontrivial = self.epochs >= 2

    # ---- machines
    def new(self, ch, rec):
        m = {"o": self.Machine(), "q": []}
        m["o"].Ts = ch.pick([5, 1.0, 0.05])
        self.setup(ch, rec, m)
        return m

    def setup(self, ch, rec, m):
        v, h = ch.range(1, 4), ch.range(0 if ch.draw(8) == 7 else 1, 3)
        o = m["o"]
        gen.seed_all(ch.bytes_seed())
        o.setRBM(ch.pick([[v, h], (v, h)]))
        check((o.RBMvisible, o.RBMhidden) == (v, h), "layers", "layers are %r, %r instead of %r", o.RBMvisible, o.RBMhidden, (v, h))
        self.layered(o.qubo, [v, h], 0)
        m["v"], m["h"] = v, h
        if ch.draw(3) == 2:
            q = [[round(ch.unit() * 6 - 3, 3) if i == j or i < v <= j else 0.0 for j in range(v + h)] for i in range(v + h)]
            if ch.draw(6) == 5:
                q = ar.scaled(q, ch.pick([2.0 ** -10, 64.0]))
            o.qubo = ar.given(ch, q)
        m["q"] = [[float(x) for x in r] for r in o.qubo]
        rec.op(f"machine {v}+{h}", m["q"])

    def layered(self, q, layers, weight):
        n = sum(layers)
        check(np.shape(q) == (n, n), "layers", "the QUBO of layers %s has shape %s", layers, np.shape(q))
        where = [k for k, c in enumerate(layers) for _ in range(c)]
        for i in range(n):
            for j in range(n):
                x = q[i][j]
                if i == j:
                    ok = x == 0.5 if weight else 0 <= x < 1
                elif where[j] == where[i] + 1:
                    ok = x == weight if weight else 0 <= x < 1
                else:
                    ok = x == 0
                check(ok, "layers", "entry %d, %d of the QUBO of layers %s, weight %s, is %r", i, j, layers, weight, x)

    def rows(self, ch, v):
        rows = [[ch.draw(2) for _ in range(v)] for _ in range(ch.range(1, 4))]
        k = ch.draw(4)
        src = np.array(rows) if k == 1 else np.array(rows, dtype=float) if k == 2 else [tuple(r) for r in rows] if k == 3 else \
            [list(r) for r in rows]
        self.kept.append((src, [[float(x) for x in r] for r in rows]))
        return rows, src

    def plan(self, ch, m, long=True):
        p = {"epoch": ch.range(1, 4), "shots": ch.range(1, 5), "alpha": ch.pick([0.9, 1.0, 0.5, 0.0]),
             "epsilon": ch.pick([0.1, 1.0, -0.5, 0.01]), "targetT": ch.pick([1.0, 3.0, 0.3])}
        m["o"].mode = "real" if ch.draw(4) == 3 else "scripted"
        n = m["v"] + m["h"]
        m["o"].script = [[ch.draw(2) for _ in range(n)] for _ in range(ch.range(1, 5))]
        if m["o"].mode == "scripted" and ch.draw(12) == 11:
            p["shots"] = 6 + ch.loguniform(9)
        if long and m["o"].mode == "scripted" and ch.draw(25) == 24:
            p.update(epoch=300, shots=1, alpha=ch.pick([0.9, 1.0]))
        drop = [k for k in ("alpha", "epsilon", "targetT") if ch.draw(4) == 3 and (k != "targetT" or m["o"].mode == "scripted")]
        kw = {k: p[k] for k in p if k not in drop}
        p.update({k: {"alpha": 0.9, "epsilon": 0.1, "targetT": 0.02}[k] for k in drop})
        kw["verbose"] = ch.draw(5) == 4
        return p, kw

    # ---- one training
    def follow(self, rec, m, rows, p, what, completed=None):
        """Judges the recorded epochs; returns how many of them reached the QUBO."""
        o = m["o"]
        q = m["q"]
        calls, o.calls = o.calls, None
        now = [[float(x) for x in r] for r in o.qubo]
        uses = [0] * len(rows)
        certain = 0
        if not calls:
            return None, uses, certain
        for k, (before, samples, a, kw) in enumerate(calls):
            check(ar.same_qubo(before, q), "wrong-qubo", "%s: epoch %d samples the QUBO %s, which is %s", what, k, before, q)
            check(len(samples) == p["shots"] and kw.get("targetT", p["targetT"]) == p["targetT"], "wrong-sampling",
                  "%s: asked for %s, the sampler was called with %s %s", what, p, a, kw)
            mod = model_statistics(samples, m["v"])
            options = []
            for i, row in enumerate(rows):
                d = data_statistics([1 - x for x in row], q)
                options.append(np.array(q) * p["alpha"] + p["epsilon"] * (d - mod))
            last = k == len(calls) - 1
            new = now if last else calls[k + 1][0]
            if last and completed is not None and not completed and ar.same_qubo(new, q):
                return k, uses, certain
            tol = 1e-9 * (1 + float(np.max(np.abs(np.array(q)), initial=0.0)))
            fits = [i for i, w in enumerate(options) if np.shape(new) == w.shape and np.allclose(new, w, rtol=0, atol=tol)]
            check(fits, "wrong-epoch", "%s: epoch %d turned %s into %s; data %s, samples %s, %s", what, k, q, new, rows, samples, p)
            if len({tuple(r) for r in rows}) == len(rows) and len(fits) == 1:
                uses[fits[0]] += 1
                certain += 1
            rec.state(q, samples)
            q = new
            self.epochs += 1
        return len(calls), uses, certain

    def train(self, ch, rec, m):
        rows, src = self.rows(ch, m["v"])
        p, kw = self.plan(ch, m)
        o = m["o"]
        o.calls, o.fail_at = [], -1
        gen.seed_all(ch.bytes_seed())
        r = o.fit(src, **kw)
        check(r is None or r is o, "result", "fit returned %r", r)
        rec.op("train", rows, p, o.mode)
        n, uses, certain = self.follow(rec, m, rows, p, "training")
        check(n in (None, p["epoch"]), "epochs", "%s epochs instead of %d", n, p["epoch"])
        if certain >= 250:
            for i, u in enumerate(uses):
                pv = gen.binom_pvalue(u, certain, 1 / len(rows))
                check(pv > 1e-11, "row-frequencies", "row %d of %s was used %d times in %d epochs (p=%g)", i, rows, u, certain, pv)
        m["q"] = [[float(x) for x in r] for r in o.qubo]

    def fail(self, ch, rec, m):
        rows, src = self.rows(ch, m["v"])
        p, kw = self.plan(ch, m, long=False)
        o = m["o"]
        o.calls, o.fail_at = [], ch.draw(p["epoch"])
        o.error = ch.pick([SamplerFails, ValueError, KeyboardInterrupt, MemoryError, StopIteration])("sampler")
        at = o.fail_at
        gen.seed_all(ch.bytes_seed())
        try:
            o.fit(src, **kw)
        except BaseException as e:  # noqa
            if e is not o.error:
                raise
            rec.fault("sampler-raises")
            calls = o.calls
            n, _, _ = self.follow(rec, m, rows, p, "failing training")
            check(len(calls) == at, "swallowed", "%d epochs sampled, the sampler failed in epoch %d", len(calls), at)
            if at == 0:
                check(ar.same_qubo(o.qubo, m["q"]), "wrong-epoch", "a training that failed at once made the QUBO %s", o.qubo)
            rec.op("training failed in epoch", at)
        else:
            check(not o.calls, "swallowed", "fit returned although its sampler failed in epoch %d", at)
        o.fail_at, o.calls = -1, None
        m["q"] = [[float(x) for x in r] for r in o.qubo]

    def interrupt(self, ch, rec, m):
        rows, src = self.rows(ch, m["v"])
        p, kw = self.plan(ch, m, long=False)
        o = m["o"]
        o.calls, o.fail_at = [], -1
        gen.seed_all(ch.bytes_seed())
        k, v, fired = with_fault(rec, lambda: o.fit(src, **kw), ch.pick(FAULTS), ch.loguniform(12))
        if k == "raised" and not fired:
            raise v
        if not o.calls:
            check(k == "ok" or ar.same_qubo(o.qubo, m["q"]), "wrong-epoch", "an interrupted training made the QUBO %s, was %s", o.qubo, m["q"])
            o.calls = None
        else:
            self.follow(rec, m, rows, p, "interrupted training", completed=k == "ok")
        rec.op(f"interrupted training: {k}")
        m["q"] = [[float(x) for x in r] for r in o.qubo]

    def again(self, ch, rec, m):
        """The same random stream trains a new machine alike."""
        rows, src = self.rows(ch, m["v"])
        p, kw = self.plan(ch, m, long=False)
        o = m["o"]
        f = self.wq.Opt()
        f.Ts, f.RBMvisible, f.RBMhidden = o.Ts, m["v"], m["h"]
        f.qubo = [list(r) for r in m["q"]]
        seed = ch.bytes_seed()
        o.mode, o.calls = "real", None
        gen.seed_all(seed)
        o.fit(src, **kw)
        gen.seed_all(seed)
        f.fit([list(r) for r in rows], **kw)
        check(np.allclose(np.array(o.qubo), np.array(f.qubo), rtol=0, atol=1e-9 * (1 + np.max(np.abs(f.qubo)))), "depends-on-history",
              "training gave %s, on a new machine %s", o.qubo, f.qubo)
        rec.op("trained twice")
        m["q"] = [[float(x) for x in r] for r in o.qubo]

    # ---- the parts
    def model(self, ch, rec, m):
        p, _ = self.plan(ch, m, long=False)
        o = m["o"]
        o.calls = []
        if o.mode == "scripted" and ch.draw(3) == 2:
            p["shots"] = 6 + ch.loguniform(10)
        gen.seed_all(ch.bytes_seed())
        got = o.rbm_model_qubo(shots=p["shots"], targetT=p["targetT"]) if ch.draw(2) else o.rbm_model_qubo(p["shots"], p["targetT"])
        calls, o.calls = o.calls, None
        rec.op("model statistics", p["shots"])
        n = len(m["q"])
        check(np.shape(got) == (n, n), "model-statistics", "the model statistics are %r", got)
        if calls:
            samples = calls[0][1]
            check(len(calls) == 1 and len(samples) == p["shots"], "wrong-sampling", "%d shots were sampled as %s", p["shots"], calls)
            want = model_statistics(samples, m["v"])
            check(np.allclose(got, want, rtol=0, atol=1e-9), "model-statistics", "the samples %s gave %s", samples, got)
        else:
            check(np.all(np.array(got) >= 0) and np.all(np.array(got) <= 1), "model-statistics", "the model statistics are %s", got)

    def data(self, ch, rec, m):
        v = [ch.draw(2) for _ in range(m["v"])]
        form = ch.pick([list, lambda x: [float(y) for y in x], tuple, np.array])
        src = form(v)
        q = m["o"].qubo
        got = self.wq.rbm_hmodel(src, q)
        want = hidden(v, m["q"])
        check(len(got) == len(want) and np.allclose(got, want, rtol=0, atol=1e-9), "hidden-units", "hidden units for %s are %s, expected %s",
              v, got, want)
        got = self.wq.rbm_data_qubo(src, q)
        check(np.shape(got) == np.shape(m["q"]) and np.allclose(got, data_statistics(v, m["q"]), rtol=0, atol=1e-9), "data-statistics",
              "the data statistics of %s are %s", v, got)
        check([float(x) for x in src] == v, "input-changed", "the visible values became %s, were %s", src, v)
        rec.op("data statistics of", v)

    def builders(self, ch, rec, m):
        gen.seed_all(ch.bytes_seed())
        if ch.draw(3) == 2:
            ar.script_bits(ar.extreme_words(ch))
            rec.fault("scripted-random-bits")
        if ch.draw(3) == 2:
            n = ch.range(0, 6)
            q = self.wq.rands(n)
            check(np.shape(q) == (n, n) and all(0 <= q[i][j] < 1 if i <= j else q[i][j] == 0 for i in range(n) for j in range(n)),
                  "rands", "rands(%d) is %s", n, q)
            rec.op("rands", n)
            return
        layers = [ch.range(1, 3) for _ in range(ch.range(1, 4))]
        w = ch.pick([0, 1, 0.25, -2])
        q = self.wq.dbms(layers, w) if w or ch.draw(2) else self.wq.dbms(layers)
        self.layered(q, layers, w)
        rec.op("dbms", layers, w)

    def counter(self, ch, rec, m):
        n = ch.range(1, 4)
        xs = [[ch.draw(2) for _ in range(n)] for _ in range(ch.range(0, 12))]
        got = self.wq.counter(ch.pick([lambda x: x, lambda x: [tuple(y) for y in x], lambda x: [np.array(y) for y in x]])(xs))
        want = {}
        for x in xs:
            k = "".join(map(str, x))
            want[k] = want.get(k, 0) + 1
        check(dict(got) == want, "counter", "%s was counted as %s", xs, got)
        rec.op("counter of", len(xs))

    def threads(self, ch, rec, ms):
        sch = Scheduler(ch, rec, gap_bits=ch.pick([4, 7, 10]), attr_only=ch.draw(2) == 1)
        jobs = []
        gen.seed_all(ch.bytes_seed())
        for m in ms:
            rows, src = self.rows(ch, m["v"])
            p, kw = self.plan(ch, m, long=False)
            m["o"].mode, m["o"].calls, m["o"].fail_at = "scripted", [], -1
            sch.spawn(f"T{len(jobs)}", lambda m=m, src=src, kw=kw: m["o"].fit(src, **kw))
            jobs.append((m, rows, p))
        sch.run()
        for t, (m, rows, p) in zip(sch.tasks, jobs):
            if t.exc is not None:
                raise t.exc
            n, _, _ = self.follow(rec, m, rows, p, f"training in thread {t.name}")
            check(n in (None, p["epoch"]), "epochs", "%s epochs instead of %d", n, p["epoch"])
            m["q"] = [[float(x) for x in r] for r in m["o"].qubo]
        rec.op(len(jobs), "trainings in threads")


CHECK = C30()
