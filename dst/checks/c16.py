"""C16: annealing obeys its temperature schedule."""
import numpy as np

from .. import annealref as ar, gen
from ..core import check
from ..sched import FAULTS, Scheduler, with_fault
from .base import Check


class C16(Check):
    ID = "C16"
    TECHNIQUE = ("seeded annealing runs at a fixed temperature, after random histories on the same optimiser; final states "
                 "and recorded energies pass exact binomial tests against the Boltzmann distribution, and cold runs must "
                 "end in a local minimum wherever the exact chain puts the chance of not doing so below 1e-12")
    LEVEL_NOTE = ("Sampled QUBOs of 1-4 (cold: 1-5) variables; deviations are seen when 1500-4000 samples show them at p < "
                  "1e-11 (roughly a wrong factor in temperature or energy, not a few percent).")
    QUICK = 240
    THOROUGH = 12000
    RULE = ("random upper-triangular QUBO and temperature with spread/T between 0.5 and 5; block length chosen so that the "
            "exact Metropolis chain is within 1e-7 of equilibrium; samples are final states of many shots, or energies "
            "recorded at (nearly) constant temperature in one shot; cold schedules down to gap/45; earlier runs, other "
            "QUBOs, interrupted runs on the same optimiser, and a second thread annealing, come before. Non-trivial = a "
            "frequency test or a cold run was judged.")
    STATES = "distinct (QUBO, temperature) pairs"
    REAL = ["blueqat.wq.Opt", "numpy.random (seeded)", "real threads"]
    STUB = ["thread scheduler"]
    ASSUMPTIONS = ["numpy's random numbers are uniform and independent"]

    BUDGET = 90000

    def run(self, ch, rec):
        from blueqat import wq
        opt = wq.Opt()
        self.history(ch, rec, opt)
        self.scale = ch.pick(ar.SCALES) if ch.draw(2) else 1.0
        k = ch.draw(4)
        if k == 1:
            self.cold(ch, rec, opt)
        elif k == 2:
            self.wide(ch, rec, opt)
        else:
            self.fixed(ch, rec, opt)

    def history(self, ch, rec, opt):
        """Whatever happened before on this optimiser."""
        for _ in range(ch.draw(3)):
            with ch.span("before"):
                opt.qubo = ar.given(ch, ar.qubo_spec(ch, 5))
                opt.Ts, opt.R, opt.ite = ch.pick([5, 1.0]), 0.5, ch.pick([5, 30])
                gen.seed_all(ch.bytes_seed())
                k = ch.draw(4)
                if k == 1:
                    r, v, fired = with_fault(rec, lambda: opt.run(shots=2), ch.pick(FAULTS), ch.loguniform(11))
                    if r == "raised" and not fired:
                        raise v
                elif k == 2:
                    opt.tro, opt.Gs = 3, 1.0
                    opt.sqa()
                elif k == 3:
                    opt.run(shots=1, sampler="fast")
                else:
                    opt.run(shots=2)
                rec.op("earlier use of the optimiser", k)

    def fixed(self, ch, rec, opt):
        q = ar.qubo_spec(ch, 4)
        n = len(q)
        e = ar.energies(q)
        spread = float(e.max() - e.min())
        t = (spread or 1.0) / ch.pick([2.0, 1.0, 4.0, 3.0, 5.0, 0.5])
        if ch.draw(2):
            t = round(t, 3) or 0.001
        pi = ar.boltzmann(e, t)
        m = ar.metropolis(e, t, n)
        u = np.full(len(e), 1.0 / len(e))
        how = ch.pick(["shots", "energies", "fast"])
        k = None
        for steps in ((100,) if how == "fast" else (10, 20, 40, 80, 160, 320)):
            a = np.linalg.matrix_power(m, steps)
            worst = np.max(np.abs(u @ a - pi)) if how != "energies" else np.max(np.abs(a - pi[None, :]))
            if worst < 1e-7:
                k = steps
                break
        if k is None:
            rec.probe("slow-mixing")
            return
        total = min(4000, self.BUDGET // k)
        if total < 400:
            rec.probe("slow-mixing")
            return
        s = self.scale
        opt.qubo = ar.given(ch, ar.scaled(q, s))
        opt.Ts = t * s
        opt.ite = k
        gen.seed_all(ch.bytes_seed())
        states = ar.states(n)
        if how == "energies":
            d = 1e-10
            opt.R = 1 - d
            opt.run(targetT=t * s * (1 - d * (total - 0.5)))
            seq = [float(x) / s for x in opt.E[1:]]
            levels = sorted(set(np.round(e, 9)))
            counts, probs = {}, {}
            for lv in levels:
                probs[round(float(lv), 9)] = float(pi[np.abs(e - lv) < 1e-7].sum())
            for x in seq:
                j = min(levels, key=lambda lv: abs(lv - x))
                check(abs(j - x) < 1e-6, "impossible-energy", "energy %r is none of %s", x, levels)
                counts[round(float(j), 9)] = counts.get(round(float(j), 9), 0) + 1
            total = len(seq)
        else:
            opt.R = 0.1
            total = min(total, 900) if how == "fast" else total
            if how == "fast":
                opt.ite = 3
                res = opt.run(shots=total, sampler="fast", targetT=0.9 * t * s)
            else:
                res = self.at_temperature(ch, opt, total, t * s, k)
            counts = {}
            for r in res:
                b = "".join(map(str, r))
                counts[b] = counts.get(b, 0) + 1
            probs = {"".join(map(str, s)): float(p) for s, p in zip(states, pi)}
        rec.simtime += total * k
        rec.op(f"{how}: {total} samples at T={t} of {q}", sorted(counts.items(), key=str))
        rec.state(q, t)
        rec.probe("frequency-test")
        rec.nontrivial = True
        why = self.compare(counts, probs, total)
        check(why is None, "not-boltzmann", "%s samples at T=%.6g of QUBO %s: %s", total, t, q, why)

    def at_temperature(self, ch, opt, shots, t, updates):
        """Shots of this many updates (or a few more) at one temperature, in one step or in many."""
        block = ch.pick([updates, updates, 1, 2, 3, 5])
        opt.ite = block
        m = -(-updates // block)
        if m == 1:
            opt.R = 0.1
            return opt.run(shots=shots, targetT=0.5 * t)
        d = 1e-10
        opt.R = 1 - d
        return opt.run(shots=shots, targetT=t * (1 - d * (m - 0.5)))

    def wide(self, ch, rec, opt):
        """Many variables in independent blocks, each of which is a chain of its own."""
        q, parts = ar.blocks(ch, [ch.range(1, 3) for _ in range(ch.range(3, 14))])
        n = len(q)
        s = self.scale
        chains = []
        for vs, own in parts:
            e = ar.energies(own)
            chains.append((vs, own, e))
        cold = ch.draw(2) == 1
        block = ch.pick([2 * n, n, n + 1, n - 1, 5, 1, 4 * n])
        gen.seed_all(ch.bytes_seed())
        opt.qubo = ar.given(ch, ar.scaled(q, s))
        if cold:
            gaps = [abs(e[a] - e[a ^ (1 << b)]) for vs, own, e in chains for a in range(len(e)) for b in range(len(vs))]
            gaps = [g for g in gaps if g > 1e-9]
            if not gaps or max(gaps) / min(gaps) > 2000:
                return
            hi, lo, rate = 2 * max(gaps), min(gaps) / 45, ch.pick([0.5, 0.3, 0.7])
            block = ch.pick([60, 20, 40]) * n
        else:
            hi = ch.pick([1.0, 2.0, 0.5])
            total = 60 * n
            m = -(-total // block)
            lo, rate = hi * (1 - 1e-10 * (m - 0.5)), 1 - 1e-10
        t, upd, ps = hi, 0, [np.full(len(e), 1.0 / len(e)) for _, _, e in chains]
        while t > lo:
            if cold or upd == 0:
                ms = [ar.lazy(ar.metropolis(e, t, len(vs)), len(vs), n) for vs, _, e in chains]
            ps = [p @ np.linalg.matrix_power(x, block) for p, x in zip(ps, ms)]
            t *= rate
            upd += block
        shots = max(1, min(400, 20000 // upd)) if not cold else 1
        if upd > 40000:
            rec.probe("wide-undecidable")
            return
        opt.Ts, opt.R, opt.ite = hi * s, rate, block
        res = opt.run(shots=shots, targetT=lo * s)
        res = [res] if shots == 1 else res
        rec.op(f"{shots} shots of {n} variables, {'cooled' if cold else 'at'} {hi} * {s}, {block} updates per step")
        rec.state(q, "wide")
        rec.nontrivial = True
        if cold:
            rec.probe("wide-cold")
            for r in res:
                for (vs, own, e), p in zip(chains, ps):
                    bad = [a for a in range(len(e)) if any(e[a ^ (1 << b)] < e[a] - 1e-9 for b in range(len(vs)))]
                    if float(p[bad].sum()) > 1e-13:
                        continue
                    a = int("".join(str(r[v]) for v in vs), 2)
                    check(a not in bad, "not-local-minimum", "cooling %d variables ended with %s = %s, where one flip improves "
                          "the energy (QUBO %s)", n, vs, [r[v] for v in vs], own)
            return
        rec.probe("wide-frequencies")
        # Each block is a Markov chain of its own; only those in equilibrium are judged.
        for (vs, own, e), p in zip(chains, ps):
            pi = ar.boltzmann(e, hi)
            if np.max(np.abs(p - pi)) > 1e-6:
                continue
            rec.probe("wide-block-tested")
            counts = {}
            for r in res:
                b = "".join(str(r[v]) for v in vs)
                counts[b] = counts.get(b, 0) + 1
            probs = {"".join(map(str, a)): float(x) for a, x in zip(ar.states(len(vs)), pi)}
            why = gen.freq_violation(counts, probs, shots)
            check(why is None, "not-boltzmann", "%d samples at T=%r of the variables %s of %d, QUBO %s: %s", shots, hi, vs, n,
                  own, why)

    def compare(self, counts, probs, total):
        if probs and isinstance(next(iter(probs)), float):
            # energies: each level, and every "at most this energy"
            lv = sorted(probs)
            for x in counts:
                if x not in probs:
                    return f"energy {x} occurs"
            c = p = 0
            for x in lv:
                for k, pr in ((counts.get(x, 0), probs[x]), (c + counts.get(x, 0), p + probs[x])):
                    if pr < 1 - 1e-9 and gen.binom_pvalue(k, total, min(1.0, pr)) < gen.P_MIN:
                        return f"energy {x}: {k} of {total} where probability is {pr:.6f}"
                c += counts.get(x, 0)
                p += probs[x]
            return None
        return gen.freq_violation(counts, probs, total)

    def cold(self, ch, rec, opt):
        q = ar.qubo_spec(ch, 5)
        n = len(q)
        e = ar.energies(q)
        gaps = [abs(e[s] - e[s ^ (1 << b)]) for s in range(len(e)) for b in range(n)]
        gaps = [g for g in gaps if g > 1e-9]
        if not gaps or max(gaps) / min(gaps) > 1e4:
            return
        hi, lo = 2 * max(gaps), min(gaps) / 45
        rate = ch.pick([0.5, 0.3, 0.7])
        ite = ch.pick([60, 150, 300])
        p = np.full(len(e), 1.0 / len(e))
        t = hi
        updates = 0
        while t > lo:
            p = ar.evolve(p, ar.metropolis(e, t, n), ite)
            t *= rate
            updates += ite
        bad = [s for s in range(len(e)) if any(e[s ^ (1 << b)] < e[s] - 1e-9 for b in range(n))]
        if float(p[bad].sum()) > 1e-12 or updates > 30000:
            rec.probe("cold-undecidable")
            return
        opt.qubo = ar.given(ch, ar.scaled(q, self.scale))
        opt.Ts, opt.R, opt.ite = hi * self.scale, rate, ite
        gen.seed_all(ch.bytes_seed())
        shots = ch.range(2, 6)
        if ch.draw(4) == 3:
            res = self.with_company(ch, rec, opt, shots, lo * self.scale)
        else:
            res = opt.run(shots=shots, targetT=lo * self.scale)
        rec.op(f"cooled {q} from {hi:.4g} to {lo:.4g}:", res)
        rec.state(q, "cold")
        rec.probe("cold-run")
        rec.nontrivial = True
        for r in res:
            s = int("".join(map(str, r)), 2)
            for b in range(n):
                f = s ^ (1 << b)
                check(e[f] > e[s] - 1e-9, "not-local-minimum", "cooling QUBO %s far below its gaps ended in %s, flipping one bit "
                      "improves %.6g to %.6g", q, r, e[s], e[f])

    def with_company(self, ch, rec, opt, shots, lo):
        """Another thread anneals something else on its own optimiser."""
        from blueqat import wq
        other = wq.Opt()
        other.qubo, other.Ts, other.R, other.ite = ar.qubo_spec(ch, 4), 2.0, 0.5, 40
        sch = Scheduler(ch, rec, gap_bits=13)
        out = []
        sch.spawn("A", lambda: out.append(opt.run(shots=shots, targetT=lo)))
        sch.spawn("B", lambda: other.run(shots=3))
        sch.run()
        for t in sch.tasks:
            if t.exc is not None:
                raise t.exc
        return out[0]


CHECK = C16()
