"""C04: measurement and reset follow the Born rule along every random trajectory."""
import numpy as np

from .. import gen, refmodel as rm, usergates
from ..core import check
from ..refmodel import Op
from ..world import show
from .base import Check

BASIS = ["x", "x", "cx", "swap", "z", "s", "y", "cz"]
CLIFFORD = ["h", "x", "s", "cx", "cz", "z", "y", "sdg", "swap", "cy"]


def clifford_program(ch, n, length, meas, reset):
    """Few distinct reachable states, so long trajectories stay decidable."""
    ops = []
    for _ in range(length):
        with ch.span("op"):
            k = ch.draw(1000)
            if k >= 1000 - meas:
                ops.append(Op(ch.pick(["m", "measure"]), (), gen.targets1(ch, n)))
            elif k >= 1000 - meas - reset:
                ops.append(Op("reset", (), gen.targets1(ch, n)))
            else:
                name = ch.pick(CLIFFORD)
                if name in ("cx", "cz", "swap", "cy"):
                    if n < 2:
                        name = "h"
                    else:
                        ops.append(Op(name, (), gen.targets2(ch, n)))
                        continue
                ops.append(Op(name, (), gen.targets1(ch, n)))
    return ops


def correlated(ch, n):
    """Qubits that are correlated, but not completely, met by one measurement or reset."""
    ops = []
    for q in range(n):
        ops.append(Op(ch.pick(["ry", "rx"]), (0.4 + 2.2 * ch.unit(),), q))
    for _ in range(ch.range(1, n)):
        ops.append(Op(ch.pick(["cry", "cx", "crx", "ch"]), (), tuple(ch.subset(range(n), 2))))
        if ops[-1].name in ("cry", "crx"):
            ops[-1].params = (0.6 + 2.0 * ch.unit(),)
    tg = slice(None) if ch.draw(2) else tuple(ch.perm(n))
    k = ch.draw(4)
    if k == 3:
        ops += [Op("reset", (), tuple(ch.subset(range(n), ch.range(1, n - 1)))), Op("m", (), tg)]
    else:
        ops.append(Op("m", (), tg))
    if k == 2:
        ops += [Op("ry", (0.4 + 2.2 * ch.unit(),), ch.draw(n)), Op("m", (), tg)]
    return ops


TINY = [0.01, 0.004, 0.03, 3.1316, -0.005]


def nearly(ch, n, ops):
    """One measured or reset qubit is almost, but not quite, in a basis state.

    Only one: rounding grows by the inverse probability of each rare outcome, and two such
    outcomes in a row (probability 1e-10) leave no digits to judge."""
    out = []
    at = [i for i, o in enumerate(ops) if o.name in ("m", "measure", "reset") and rm.qubits_of(o.targets, n)]
    at = ch.pick(at) if at else -1
    for i, o in enumerate(ops):
        if i == at:
            q = rm.qubits_of(o.targets, n)[0]
            if ch.draw(2):
                out.append(Op("reset", (), q))
            out.append(Op(ch.pick(["ry", "rx"]), (ch.pick(TINY),), q))
        out.append(o)
    return out


def pick_backend(ch, g, numba):
    be = ch.weighted([(6, "numpy"), (3, "numba"), (1, "user")])
    if be == "numba" and numba:
        from .. import fakenumba
        return "numba", fakenumba.load().NumbaBackend
    if be == "user":
        return "dstflakybackend", g["FlakyBackend"]
    return "numpy", g["NumPyBackend"]


class C04(Check):
    ID = "C04"
    TECHNIQUE = ("seeded and adversarial random-number streams drive every measurement and reset; each trajectory "
                 "must be a branch of an independent quantum model, and frequencies pass exact binomial tests")
    LEVEL_NOTE = ("Sampled programs and streams; frequencies are tested at p < 1e-11, so small biases (below about "
                  "0.1) are not seen. Trusts the reference model.")
    QUICK = 1500
    THOROUGH = 60000
    RULE = ("random programs of 1-14 operations on 1-4 qubits (or up to 70 Clifford operations on 1-3 qubits) with "
            "measurements and resets in the middle, on the NumPy, numba and a user-defined backend, caches warmed in a "
            "third of the runs; single shots under scripted random streams with draws from 1e-9 to 1-1e-9 (0 and 1-2**-53 for programs whose amplitudes are exact), and in one "
            "run out of eight (always where one operation measures several partly correlated qubits) 2500 shots and 250 (key, state) pairs for frequencies. Non-trivial = the program has at "
            "least two possible outcomes.")
    REAL = ["blueqat.circuit", "blueqat.gate", "NumPyBackend", "NumbaBackend (interpreted kernels)"]
    STUB = ["random.random (scripted stream)", "numba (interpreter)"]
    ASSUMPTIONS = ["the random numbers used are uniform on [0,1)"]

    def prepare(self):
        from .. import fakenumba
        self.numba = fakenumba.available()

    def run(self, ch, rec):
        g = usergates.make()
        from blueqat import Circuit
        bname, mk = pick_backend(ch, g, self.numba)
        n = ch.weighted([(3, 2), (2, 1), (3, 3), (1, 4)])
        meas, reset = ch.pick([(250, 120), (350, 0), (100, 300), (500, 200)])
        basis = ch.draw(6) == 5
        joint = not basis and n > 1 and ch.draw(7) == 6
        if joint:       # one operation measures several partly correlated qubits
            ops = correlated(ch, n)
        elif basis:       # exact amplitudes: also the extreme random numbers 0 and 1-2**-53 are decided
            ops = gen.program(ch, n, ch.range(1, 14), meas, reset, [g for g in BASIS if n > 1 or g not in rm.TWO])
        elif ch.draw(3) == 2 and n <= 3:
            ops = clifford_program(ch, n, ch.range(5, 70 if n < 3 else 30), meas, reset)
        else:
            ops = gen.program(ch, n, ch.range(1, 14), meas, reset, None, ch.pick([0, 0, 60]))
        if not basis and ch.draw(4) == 3:
            ops = nearly(ch, n, ops)
        if ch.draw(3) == 2:
            ops.append(Op("m", (), slice(None)))
        br = rm.branches(ops, n)
        if br is None:
            rec.probe("too-many-branches")
            return
        rec.nontrivial = len(br) > 1
        rec.ev("backend", bname, f"{n} qubits:", *ops)
        rec.state(n, [o.key() for o in ops])
        c = gen.build(Circuit, ops, n)
        warm = ch.draw(3)
        if warm == 1:
            gen.seed_all(ch.bytes_seed())
            c.make_cache(backend=bname)
        elif warm == 2:
            c = gen.build(Circuit, ops[:len(ops) // 2], n)
            gen.seed_all(ch.bytes_seed())
            c.run(backend=bname)
            for o in ops[len(ops) // 2:]:
                o.apply_to(c)
        for _ in range(ch.range(2, 6)):
            with ch.span("shot"):
                self.shot(ch, rec, c, bname, br, n, basis)
        if ch.draw(8) == 7 or joint:
            self.frequencies(ch, rec, c, bname, br, n)

    def shot(self, ch, rec, c, bname, br, n, basis):
        draws = [ch.pick([0.0, 1 - 2.0 ** -53]) if basis and ch.draw(2) else gen.extreme_draw(ch) for _ in range(ch.range(0, 12))]
        shots = ch.weighted([(5, 1), (1, 2), (1, 3)])
        gen.seed_all(ch.bytes_seed())
        with gen.random_stream(draws):
            vec, counts = c.run(shots=shots, returns="statevector_and_shots", backend=bname)
        rec.op(f"{shots} shots with draws", [round(d, 9) for d in draws], "->", show(vec), gen.fmt_counts(counts))
        rec.fault("scripted-random-draw", len(draws))
        check(sum(counts.values()) == shots, "shots", "%d shots gave %s", shots, gen.fmt_counts(counts))
        keys = {b[2] for b in br}
        for k in counts:
            check(k in keys, "impossible-bits", "bits %r were measured; possible: %s", k, sorted(keys)[:8])
        ok = [b for b in br if b[2] in counts and rm.same_ray(vec, b[1])]
        check(ok, "impossible-state", "measuring %s left the state %s (norm %.9f), which no such outcome has",
              sorted(counts), show(vec), float(np.linalg.norm(vec)))
        rec.probe("trajectory")

    def frequencies(self, ch, rec, c, bname, br, n):
        slow = bname == "numba"
        kp = rm.key_probs(br)
        shots = 500 if slow else 2500
        gen.seed_all(ch.bytes_seed())
        counts = c.run(shots=shots, backend=bname)
        rec.op(f"{shots} shots", gen.fmt_counts(counts))
        why = gen.freq_violation(counts, kp, shots)
        check(why is None, "frequencies", "%d shots: %s", shots, why)
        # joint frequencies of recorded bits and final state; equal states are one outcome
        classes = []
        for p, v, k, _ in br:
            for e in classes:
                if e[1] == k and rm.same_ray(v, e[2], 1e-6):
                    e[0] += p
                    break
            else:
                classes.append([p, k, v])
        if len(classes) <= 64:
            m = 100 if slow else 250
            seen = {}
            for _ in range(m):
                vec, cnt = c.run(shots=1, returns="statevector_and_shots", backend=bname)
                (k,) = cnt
                i = next((i for i, e in enumerate(classes) if e[1] == k and rm.same_ray(vec, e[2])), None)
                check(i is not None, "impossible-state", "bits %r with state %s", k, show(vec))
                seen[i] = seen.get(i, 0) + 1
            why = gen.freq_violation(seen, {i: e[0] for i, e in enumerate(classes)}, m)
            check(why is None, "joint-frequencies", "(bits, state) pairs: %s; classes %s", why,
                  [(round(e[0], 4), e[1]) for e in classes][:8])
        rec.probe("frequency-test")


CHECK = C04()
