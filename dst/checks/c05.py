"""C05: counts account for every shot and nothing else."""
import numbers
from collections import Counter

from .. import gen, refmodel as rm, usergates
from ..core import check
from ..refmodel import Op
from ..sched import FAULTS, with_fault
from ..world import Kept, same_result
from .base import Check
from .c04 import clifford_program, pick_backend


def classical_program(ch, n, length):
    """Reversible classical gates, resets and measurements; the outcome is determined."""
    ops = []
    for _ in range(length):
        with ch.span("op"):
            k = ch.draw(10)
            if k < 3:
                ops.append(Op("x", (), gen.targets1(ch, n)))
            elif k < 5 and n >= 2:
                ops.append(Op(ch.pick(["cx", "swap"]), (), tuple(ch.subset(range(n), 2))))
            elif k == 5 and n >= 3:
                ops.append(Op(ch.pick(["ccx", "cswap"]), (), tuple(ch.subset(range(n), 3))))
            elif k < 9:
                ops.append(Op(ch.pick(["m", "measure"]), (), gen.targets1(ch, n)))
            else:
                ops.append(Op("reset", (), gen.targets1(ch, n)))
    return ops


def classical_key(ops, n):
    b, key = [0] * n, ["0"] * n
    for o in ops:
        t = o.targets
        if o.name == "cx":
            b[t[1]] ^= b[t[0]]
        elif o.name == "swap":
            b[t[0]], b[t[1]] = b[t[1]], b[t[0]]
        elif o.name == "ccx":
            b[t[2]] ^= b[t[0]] & b[t[1]]
        elif o.name == "cswap":
            if b[t[0]]:
                b[t[1]], b[t[2]] = b[t[2]], b[t[1]]
        else:
            for q in rm.qubits_of(t, n):
                if o.name == "x":
                    b[q] ^= 1
                elif o.name == "reset":
                    b[q] = 0
                else:
                    key[q] = str(b[q])
    return "".join(key)


class C05(Check):
    ID = "C05"
    TECHNIQUE = ("seeded histories of sampled runs with aborted and rejected runs in between, over shared backends; "
                 "counts checked against the outcome set of an independent model")
    LEVEL_NOTE = "Sampled programs and histories. Trusts the reference model's outcome sets."
    QUICK = 4000
    THOROUGH = 70000
    RULE = ("1-3 circuits (1-4 qubits general, up to 12, rarely 16-18, qubits classical with a single possible key) on one backend "
            "kind, in a third of the runs one shared backend object; 2-12 runs with 0-60 shots, up to 3100 on short programs, or the default 1024, "
            "mixed with appended gates, single-shot state runs, copies, runs cut short by injected exceptions and "
            "failing user gates. Non-trivial = at least two sampled runs were checked.")
    REAL = ["blueqat.circuit", "blueqat.gate", "NumPyBackend", "NumbaBackend (interpreted kernels)"]
    STUB = ["random streams", "numba (interpreter)"]
    ASSUMPTIONS = []

    def prepare(self):
        from .. import fakenumba
        self.numba = fakenumba.available()

    def run(self, ch, rec):
        g = usergates.make()
        from blueqat import Circuit
        bname, mk = pick_backend(ch, g, self.numba)
        obj = mk() if ch.draw(3) == 2 else None
        bk = obj if obj is not None else bname
        cs = []
        for _ in range(ch.range(1, 3)):
            with ch.span("circuit"):
                kind = ch.weighted([(3, "any"), (2, "classical"), (1, "clifford")])
                if kind == "classical":
                    n = ch.range(1, 5 if bname == "numba" else 12)
                    if n > 5 and ch.chance(80):
                        n = ch.pick([16, 17, 18])
                    ops = classical_program(ch, n, ch.range(1, 16))
                elif kind == "clifford":
                    n = ch.range(1, 3)
                    ops = clifford_program(ch, n, ch.range(1, 24), 300, 150)
                else:
                    n = ch.range(1, 4)
                    ops = gen.program(ch, n, ch.range(0, 8), ch.pick([250, 500, 0]), 100, None, ch.pick([0, 80]))
                cs.append([kind, n, ops, gen.build(Circuit, ops, n)])
                rec.ev(f"circuit {len(cs) - 1} ({kind}, {n} qubits):", *ops)
        rec.ev("backend", bname, "shared object" if obj else "")
        kept = []
        done = 0
        for _ in range(ch.range(2, 12)):
            with ch.span("step"):
                i = ch.draw(len(cs))
                kind, n, ops, c = cs[i]
                act = ch.weighted([(8, "sample"), (1, "append"), (1, "state"), (2, "abort"), (1, "copy"), (1, "bad")])
                gen.seed_all(ch.bytes_seed())
                if act == "append":
                    o = (classical_program(ch, n, 1) if kind == "classical" else
                         gen.program(ch, n, 1, 300, 50, None, 0))[0]
                    o.apply_to(c)
                    cs[i][2] = ops + [o]
                    if kind == "clifford":
                        cs[i][0] = "any"
                    rec.op(f"circuit {i}.{o}")
                elif act == "state":
                    c.run(backend=bk)
                    rec.op(f"circuit {i}.run()")
                elif act == "copy":
                    cs[i][3] = c.copy(copy_backends=ch.draw(2) == 0)
                    rec.op(f"circuit {i} replaced by its copy")
                elif act == "bad":
                    rec.fault("rejected-run")
                    try:
                        c.run(backend=bk, returns="nonsense", shots=3)
                    except ValueError:
                        rec.op(f"circuit {i}.run(returns='nonsense') rejected")
                    else:
                        check(False, "bad-returns-accepted", "returns='nonsense' was accepted")
                elif act == "abort":
                    f = ch.pick(FAULTS)
                    after = ch.loguniform(11)
                    if ch.draw(3) == 2:
                        usergates.arm(ch.draw(12))
                        try:
                            c.run(backend=bk, shots=5)
                        except usergates.Injected:
                            rec.fault("user-code-raises")
                        finally:
                            usergates.disarm()
                    else:
                        k, v, fired = with_fault(rec, lambda: c.run(backend=bk, shots=5), f, after)
                        if k == "raised" and not fired:
                            raise v
                    rec.op(f"circuit {i}: aborted run")
                else:
                    kept.append(self.sample(ch, rec, cs[i], bk, i))
                    done += 1
                rec.state(i, [o.key() for o in cs[i][2]], act)
        for k in kept:
            check(same_result(k.value, k.snap), "earlier-counts-changed", "the counts of %s changed: %s -> %s",
                  k.what, gen.fmt_counts(k.snap), gen.fmt_counts(k.value))
        rec.nontrivial = done >= 2

    def sample(self, ch, rec, entry, bk, i):
        kind, n, ops, c = entry
        big = n > 6
        k = ch.draw(12)
        if k == 11 and not big and len(ops) <= 6:
            kw, shots = {"returns": "shots"}, 1024
        elif k == 10:
            kw, shots = {"shots": 0, "returns": "shots"}, 0
        elif k == 9 and n <= 4 and len(ops) <= 8:       # any count, not only round ones
            shots = min(60 + ch.loguniform(12), 3100) + ch.draw(9)
            kw = {"shots": shots}
        else:
            shots = gen.size(ch, 1, 4 if n > 12 else 12 if big else 60)
            kw = {"shots": shots}
            if ch.draw(4) == 3:
                kw["returns"] = "statevector_and_shots"
        got = c.run(backend=bk, **kw)
        if isinstance(got, tuple):
            got = got[1]
        rec.op(f"circuit {i}.run({kw}) -> {gen.fmt_counts(got)}")
        for key, v in got.items():
            check(isinstance(key, str) and len(key) == n, "key-format", "key %r for %d qubits", key, n)
            check(isinstance(v, numbers.Integral) and v > 0, "count-format", "count %r for key %r", v, key)
        check(sum(got.values()) == shots, "lost-shots", "%d shots gave counts %s, sum %d", shots,
              gen.fmt_counts(got), sum(got.values()))
        if ch.draw(4) == 3:             # the same counts with tuples of integers as keys
            from blueqat import utils
            conv = utils.to_inttuple(ch.pick([lambda x: x, dict, Counter])(got))
            check({"".join(map(str, k)): v for k, v in conv.items()} == dict(got) and
                  all(type(k) is tuple and all(b in (0, 1) and isinstance(b, int) for b in k) for k in conv), "inttuple",
                  "to_inttuple made %s of %s", conv, gen.fmt_counts(got))
            check(sum(got.values()) == shots, "inttuple", "to_inttuple changed the counts to %s", got)
        if kind == "classical":
            want = {classical_key(ops, n): shots} if shots else {}
            check(dict(got) == want, "wrong-bits", "circuit %d gave %s, expected %s", i, gen.fmt_counts(got), want)
        else:
            br = rm.branches(ops, n)
            if br is not None:
                keys = {b[2] for b in br}
                for key in got:
                    check(key in keys, "wrong-bits", "circuit %d gave %r, possible %s", i, key, sorted(keys)[:8])
        return Kept(f"circuit {i}.run({kw})", got)


CHECK = C05()
