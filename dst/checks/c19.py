"""C19: simulated quantum annealing follows its Trotter Hamiltonian."""
import itertools
import math

import numpy as np

from .. import annealref as ar, gen
from ..core import check
from ..sched import FAULTS, Scheduler, with_fault
from .base import Check


class C19(Check):
    ID = "C19"
    TECHNIQUE = ("seeded quantum-annealing runs at a fixed field after random histories on the same optimiser (other QUBOs, "
                 "interrupted runs, threads, extreme random bits); exact binomial and likelihood-ratio tests of the final configurations against "
                 "the Trotterised Boltzmann distribution, structure, recorded energies and unchanged inputs at every step")
    LEVEL_NOTE = ("Sampled; distributions are tested where slices x variables <= 8 and the exact chain mixes, with 400-8000 "
                  "samples at p < 1e-11. Larger sizes are checked for structure, unchanged inputs and repeatability only.")
    QUICK = 260
    THOROUGH = 16000
    RULE = ("random upper-triangular QUBO of 1-4 variables, 1-8 slices, temperature and transverse field; 1-3 blocks at a "
            "constant field, together twice as long as the exact chain needs to come within 1e-5 of equilibrium; before it 0-5 "
            "steps on the same optimiser: other QUBOs and settings, full schedules, classical annealing, interrupts, a second "
            "thread, scripted extreme random bits. Non-trivial = a frequency test was made or a run was repeated.")
    STATES = "distinct (QUBO, temperature, field, slices)"
    REAL = ["blueqat.wq.Opt", "numpy.random (seeded or scripted)", "real threads"]
    STUB = ["thread scheduler"]
    ASSUMPTIONS = ["numpy's random numbers are uniform and independent"]

    def run(self, ch, rec):
        from blueqat import wq
        self.wq = wq
        opt = wq.Opt()
        self.kept = []
        self.scale = ch.pick(ar.SCALES) if ch.draw(3) == 2 else 1.0
        for _ in range(ch.draw(5)):
            with ch.span("before"):
                getattr(self, ch.weighted([(3, "schedule"), (2, "interrupt"), (2, "classical"), (1, "threads"), (2, "repeat")]))(
                    ch, rec, opt)
        if ch.draw(5) == 4:
            self.repeat(ch, rec, opt)
        else:
            self.fixed(ch, rec, opt)
        for r, s in self.kept:
            check(tuple(tuple(int(v) for v in x) for x in r) == s, "result-changed", "an earlier result became %s, was %s", r, s)

    # ---- settings and structure
    def configure(self, ch, rec, opt, nmax=5):
        q = ar.qubo_spec(ch, nmax)
        src = ar.given(ch, q)
        opt.qubo = src
        s = {"tro": ch.range(1, 6), "Tf": ch.pick([0.5, 0.02, 1, 3.0]), "Gs": ch.pick([2.0, 10, 0.5]),
             "Gf": ch.pick([0.02, 0.3, 0.9]), "R": ch.pick([0.5, 0.7]), "ite": ch.pick([5, 1, 20]), "Ts": ch.pick([5, 2.0])}
        for k, v in s.items():
            setattr(opt, k, v)
        rec.ev("QUBO", q, s)
        return q, src, s

    def intact(self, opt, q, src, s):
        check(ar.same_qubo(opt.qubo, q), "qubo-changed", "the QUBO became %s, was %s", opt.qubo, q)
        check(ar.same_qubo(src, q), "input-changed", "the given QUBO became %s, was %s", src, q)
        for k, v in s.items():
            check(getattr(opt, k) == v, "settings-changed", "%s became %r, was %r", k, getattr(opt, k), v)

    def spins(self, r, q, s):
        """The result as a tuple of slices."""
        check(len(r) == s["tro"] and all(len(x) == len(q) for x in r), "shape", "%d slices of %d variables gave %s",
              s["tro"], len(q), r)
        out = tuple(tuple(int(v) for v in x) for x in r)
        check(all(v in (-1, 1) for x in r for v in x), "not-spins", "the result holds %s", r)
        if len(self.kept) < 8:
            self.kept.append((r, out))
        return out

    def record(self, rec, opt, r, q, s):
        """The recorded energies are the Trotter Hamiltonian's at the successive fields, the last one that of the result."""
        e = [float(x) for x in opt.E]
        fields, g = [], s["Gs"]
        while g > s["Gf"]:
            fields.append(g)
            g *= s["R"]
        steps = len(fields)
        check(steps <= len(e) <= steps + 2, "energy-count", "%d energies recorded for %d fields", len(e), steps)
        if len(e) != steps + 1:
            return
        if not steps:
            fields = [s["Gs"]]
        n, tro, t = len(q), s["tro"], s["Tf"]
        e1 = ar.energies(q)
        size = 1e-300 + float(np.max(np.abs(e1)))
        for k, x in enumerate(e):
            g = fields[max(k - 1, 0)]
            c = t / 2 * math.log(1 / math.tanh(g / t / tro))
            free = [0.0] if tro > 1 else [0.0, c * n]            # a single slice: its own neighbour, or none
            tol = 1e-7 * (size + abs(c) * tro * n) + 1e-10 * t * tro * n      # the logarithm of nearly one
            lo, hi = float(e1.min()) - c * tro * n, float(e1.max()) + c * tro * n
            check(lo - tol <= x <= hi + tol, "impossible-energy", "the energy %r was recorded at the field %r, possible are %r to %r",
                  x, g, lo, hi)
            if k == len(e) - 1:
                want = sum(ar.energy(q, [(v + 1) // 2 for v in x]) for x in r) / tro
                want -= c * sum(r[p][i] * r[(p + 1) % tro][i] for p in range(tro) for i in range(n))
                check(any(abs(x - want - f) <= tol for f in free), "wrong-energy", "the energy %r was recorded for the result %s at "
                      "the field %r, which has %r", x, r, g, want)
        rec.probe("energies-recomputed")

    # ---- history
    def bits(self, ch, rec):
        if ch.draw(3) == 2:
            ar.script_bits(ar.extreme_words(ch))
            rec.fault("extreme-random-bits")
        else:
            gen.seed_all(ch.bytes_seed())

    def schedule(self, ch, rec, opt):
        q, src, s = self.configure(ch, rec, opt)
        self.bits(ch, rec)
        r = self.spins(opt.sqa(), q, s)
        rec.op("sqa ->", r)
        self.record(rec, opt, r, q, s)
        self.intact(opt, q, src, s)

    def interrupt(self, ch, rec, opt):
        q, src, s = self.configure(ch, rec, opt)
        self.bits(ch, rec)
        r, v, fired = with_fault(rec, lambda: opt.sqa(), ch.pick(FAULTS), ch.loguniform(12))
        if r == "raised" and not fired:
            raise v
        rec.op("sqa interrupted", fired)
        self.intact(opt, q, src, s)

    def classical(self, ch, rec, opt):
        q, src, s = self.configure(ch, rec, opt)
        gen.seed_all(ch.bytes_seed())
        rec.op("run ->", opt.run(shots=ch.range(1, 3), targetT=0.5))

    def repeat(self, ch, rec, opt):
        """Same random stream on a fresh optimiser."""
        q, src, s = self.configure(ch, rec, opt)
        seed = ch.bytes_seed()
        gen.seed_all(seed)
        r = self.spins(opt.sqa(), q, s)
        self.record(rec, opt, r, q, s)
        o2 = self.wq.Opt()
        o2.qubo = [list(x) for x in q]
        for k, v in s.items():
            setattr(o2, k, v)
        gen.seed_all(seed)
        r2 = self.spins(o2.sqa(), q, s)
        rec.op("sqa ->", r, "fresh ->", r2)
        self.intact(opt, q, src, s)
        self.record(rec, o2, r2, q, s)
        check(r == r2, "history-dependent", "on a used optimiser sqa gave %s, on a fresh one %s", r, r2)
        rec.nontrivial = True
        rec.probe("repeated")

    def threads(self, ch, rec, opt):
        other = self.wq.Opt()
        jobs = [(o,) + self.configure(ch, rec, o, 4) for o in (opt, other)]
        gen.seed_all(ch.bytes_seed())
        sch = Scheduler(ch, rec, gap_bits=11)
        for i, j in enumerate(jobs):
            sch.spawn(f"T{i}", lambda o=j[0]: o.sqa())
        sch.run()
        for t, (o, q, src, s) in zip(sch.tasks, jobs):
            if t.exc is not None:
                raise t.exc
            r = self.spins(t.result, q, s)
            rec.op(t.name, "->", r)
            self.record(rec, o, r, q, s)
            self.intact(o, q, src, s)

    # ---- distribution
    def fixed(self, ch, rec, opt):
        budget = ch.pick([80000, 80000, 500000, 80000])
        q = ar.qubo_spec(ch, ch.pick([1, 2, 4, 3]))
        n = len(q)
        tro = ch.pick([2, 3, 1, 4, 2, 8, 6, 5])
        tro = min(tro, 8 // n)
        e1 = ar.energies(q)
        spread = float(e1.max() - e1.min()) or 1.0
        t = spread / tro / ch.pick([1.0, 2.0, 3.0, 0.5])
        k = ch.pick([0.5, 0.25, 0.8, 1.1, 0.05, 0.01])      # slice coupling / temperature
        g = t * tro * math.atanh(math.exp(-2 * k))
        if ch.draw(2):
            t, g = float("%.3g" % t), float("%.3g" % g)
        if self.scale != 1.0:       # the same problem in other units
            q, t, g, e1, spread = ar.scaled(q, self.scale), t * self.scale, g * self.scale, e1 * self.scale, spread * self.scale
        k = 0.5 * math.log(1 / math.tanh(g / t / tro))
        st = [c for c in itertools.product(list(itertools.product((-1, 1), repeat=n)), repeat=tro)]
        a = np.array(st).reshape(len(st), tro, n)
        cl = np.array([sum(ar.energy(q, [(v + 1) // 2 for v in s]) for s in c) for c in st]) / tro
        align = (a * np.roll(a, -1, axis=1)).sum(axis=(1, 2))
        h = cl / t - k * align                        # in units of the temperature
        pi = np.exp(-(h - h.min()))
        pi /= pi.sum()
        steps = self.mixing(h, pi, tro * n)
        if steps is None or budget // (2 * steps) < 400:
            rec.probe("slow-mixing")
            return
        blocks = ch.range(1, 3)
        ite = 2 * steps // blocks + 1
        total = min(8000, budget // (ite * blocks))
        src = ar.given(ch, q)
        opt.qubo = src
        s = {"tro": tro, "Tf": t, "Gs": g, "Gf": g * (1 - 1e-9 * (blocks - 0.5)), "R": 1 - 1e-9, "ite": ite}
        for key, v in s.items():
            setattr(opt, key, v)
        gen.seed_all(ch.bytes_seed())
        index = {c: i for i, c in enumerate(st)}
        hits = np.zeros(len(st), int)
        for _ in range(total):
            hits[index[self.spins(opt.sqa(), q, s)]] += 1
        self.intact(opt, q, src, s)
        rec.simtime += total * ite * blocks
        rec.op(f"{total} samples at T={t:.6g} G={g:.6g} with {tro} slices of {q}:", hits.tolist())
        rec.state(q, t, g, tro)
        rec.probe("frequency-test")
        rec.nontrivial = True
        cl = cl / self.scale
        groups = [("configuration", [("".join("+" if v > 0 else "-" for x in c for v in x), [i]) for i, c in enumerate(st)]),
                  ("energy of the slices", self.levels(cl)),
                  ("aligned neighbours", self.levels(align)),
                  ("weight", self.levels(h))]
        for i in range(tro):
            groups.append((f"slice {i}", [(str(x), np.flatnonzero((a[:, i, :] == x).all(axis=1))) for x in
                                          itertools.product((-1, 1), repeat=n)]))
        for i in range(tro if tro > 2 else tro - 1):
            j = (i + 1) % tro
            groups.append((f"slices {i} and {j}", [(f"agree at {b}", np.flatnonzero(a[:, i, b] == a[:, j, b])) for b in range(n)]))
        pv = gen.joint_pvalue(hits.tolist(), pi.tolist(), total)
        check(pv >= gen.JOINT_MIN, "not-boltzmann", "QUBO %s, T=%.6g, G=%.6g, %s slices: the frequencies of the configurations "
              "(%s samples) as a whole have p-value %.1e", q, t, g, tro, total, pv)
        for what, ls in groups:
            for name, idx in ls:
                p, c = float(pi[idx].sum()), int(hits[idx].sum())
                check(p > 1 - 1e-4 and c > 0.9 * total or gen.binom_pvalue(c, total, min(p, 1.0)) >= gen.P_MIN, "not-boltzmann",
                      "QUBO %s, T=%.6g, G=%.6g, %s slices: %s %s occurs %s times of %s where its probability is %.6f",
                      q, t, g, tro, what, name, c, total, p)

    def levels(self, x):
        """Each level and each "at most this level"."""
        lv = sorted(set(np.round(x, 7)))
        out = []
        for v in lv[:40]:
            out.append(("= %.6g" % v, np.flatnonzero(np.abs(x - v) < 1e-6)))
            out.append(("<= %.6g" % v, np.flatnonzero(x < v + 1e-6)))
        return out

    def mixing(self, h, pi, bits):
        """Updates after which the exact chain is at equilibrium."""
        m = ar.metropolis(h, 1.0, bits)
        u = np.full(len(h), 1.0 / len(h))
        p = m
        for steps in (8, 16, 32, 64, 128):
            p = np.linalg.matrix_power(m, 8) if steps == 8 else p @ p
            if np.max(np.abs(u @ p - pi)) < 1e-5:
                return steps
        return None


CHECK = C19()
