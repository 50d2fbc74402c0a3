"""C01: a run's result does not depend on the circuit's history."""
import copy
import pickle

import numpy as np

from .. import gen, refmodel as rm, usergates
from ..core import check, short
from ..sched import FAULTS, with_fault
from ..world import World, Kept, same_result, show
from .base import Check


class C01(Check):
    ID = "C01"
    TECHNIQUE = ("seeded histories over several circuits and backend objects with aborted runs and process "
                 "restarts, each result checked against a fresh circuit and a reference model")
    LEVEL_NOTE = ("Sampled histories (seeded, replayable). Trusts the reference model for states and a freshly built "
                  "circuit for sampled counts; numba kernels run as interpreted Python.")
    QUICK = 4000
    THOROUGH = 60000
    RULE = ("random histories of 3-40 operations (build, append, run with any options on the default, a "
            "named or a shared backend object, warm the cache, copy, +, +=, dagger, pickle/unpickle as a "
            "process restart, modify an earlier result; in half of the runs also runs and warm-ups cut "
            "short by an injected exception) over up to 6 circuits; non-trivial = at least one result "
            "was compared after the cache had been warmed. Every result is compared with a newly built "
            "circuit from the same random stream and, without measurement, with the reference model.")
    REAL = ["blueqat.circuit", "blueqat.gate", "NumPyBackend", "NumbaBackend (its kernels interpreted by the "
            "numba stand-in)", "pickle/copy of circuits and backends"]
    STUB = ["numba (sequential interpreter)", "random streams seeded by the simulator"]
    ASSUMPTIONS = ["numba's compiled kernels compute what their Python source says"]

    def prepare(self):
        from .. import fakenumba
        self.numba = fakenumba.available()

    def run(self, ch, rec):
        faulty = ch.draw(2) == 1
        use_numba = ch.chance(200) and self.numba
        max_n = ch.weighted([(8, 3), (3, 4), (1, 6), (1, 9)])
        if use_numba:
            max_n = min(max_n, 4)
        w = World(ch, rec, max_n=max_n, meas=ch.pick([60, 0, 200]), reset=ch.pick([30, 0, 120]),
                  user=ch.pick([0, 0, 100]))
        if w.user:
            usergates.make()
        from blueqat.backends.numpy_backend import NumPyBackend
        mk = NumPyBackend
        name = "numpy"
        if use_numba:
            from .. import fakenumba
            mk = fakenumba.load().NumbaBackend
            name = "numba"
        rec.ev("backend", name, "faults", faulty, "max_n", max_n)
        shared = [mk(), mk()]
        w.new_circuit()
        warmed = 0
        steps = gen.size(ch, 3, 40)
        weights = [(6, "run"), (5, "append"), (3, "cache"), (2, "copy"), (2, "new"), (2, "add"),
                   (1, "iadd"), (2, "dagger"), (1, "pickle"), (2, "vandal"), (1, "setbackend"),
                   (1, "unitary")]
        if faulty:
            weights += [(3, "abort")]
        for _ in range(steps):
            with ch.span("step"):
                warmed += self.step(ch, rec, w, weights, shared, mk, name)
            rec.state([(h.n, [o.key() for o in h.ops]) for h in w.handles])
        w.check_kept()
        for h in list(w.handles):
            warmed += self.compare(ch, rec, w, h, {}, {"backend": name}, mk, name)
        rec.nontrivial = warmed > 0

    def how(self, ch, w, h, shared, name):
        """How the backend is chosen for one run."""
        k = ch.draw(6)
        if k < 3:
            return {"backend": name}, name
        if k < 5:
            i = ch.draw(len(shared))
            return {"backend": shared[i]}, f"shared{i}"
        return {"backend": name}, name

    def compare(self, ch, rec, w, h, kw, bk, mk, name, bname=None):
        seed = ch.bytes_seed()
        w.check_shape(h)
        gen.seed_all(seed)
        got = h.c.run(**kw, **bk)
        gen.seed_all(seed)
        want = w.fresh(h).run(**kw, backend=mk())
        rec.op(f"{h.name}.run({kw}) on {bname or name} -> {show(got)}")
        check(same_result(got, want), "history-dependent",
              "%s.run(%s) on %s gave %s; a fresh circuit gives %s", h.name, kw, bname or name,
              show(got), show(want))
        if h.unitary() and not kw.get("ignore_global"):
            vec = got[0] if isinstance(got, tuple) else got
            if isinstance(vec, np.ndarray):
                ref = rm.statevector(h.ops, h.n)
                check(rm.same_ray(vec, ref), "wrong-state", "%s.run(%s) on %s gave %s, expected %s",
                      h.name, kw, bname or name, show(vec), show(ref))
        w.kept.append(Kept(f"{h.name}.run({kw})", got))
        if len(w.kept) > 12:
            w.kept.pop(0)
        rec.probe("compared")
        return 1

    def unitary(self, rec, w, h, name):
        """The columns are runs of circuits that continue with this circuit's gates."""
        from blueqat.experimental.utils import circuit_to_unitary
        got = circuit_to_unitary(h.c, backend=name)
        cols = []
        for i in range(2 ** h.n):
            v = np.zeros(2 ** h.n, dtype=complex)
            v[i] = 1
            for o in h.ops:
                for _, m, qs in o.units(h.n):
                    v = rm.apply(v, h.n, m, qs)
            cols.append(v)
        ref = np.array(cols).T
        rec.op(f"circuit_to_unitary({h.name})")
        check(got.shape == ref.shape and rm.same_ray(got.reshape(-1) / np.sqrt(2 ** h.n), ref.reshape(-1) / np.sqrt(2 ** h.n)),
              "wrong-unitary", "the unitary of %s is %s, expected %s", h.name, np.round(got, 4).tolist(), np.round(ref, 4).tolist())
        w.check_shape(h)

    def step(self, ch, rec, w, weights, shared, mk, name):
        act = ch.weighted(weights)
        h = w.pick()
        if act == "append":
            w.append(h, ch.range(1, 4))
        elif act == "run":
            bk, bn = self.how(ch, w, h, shared, name)
            return self.compare(ch, rec, w, h, w.run_options(), bk, mk, name, bn)
        elif act == "cache":
            if ch.draw(3) == 2:
                i = ch.draw(2)
                shared[i].make_cache(h.c.ops, h.c.n_qubits)
                rec.op(f"shared{i}.make_cache({h.name})")
            else:
                h.c.make_cache(*ch.pick([(name,), (name,), ()]))
                rec.op(f"{h.name}.make_cache()")
        elif act == "setbackend":
            h.c.set_default_backend(name)
            rec.op(f"{h.name}.set_default_backend({name})")
        elif act == "unitary":
            if h.unitary() and 0 < h.n <= 3:
                self.unitary(rec, w, h, name)
        elif act == "new":
            w.new_circuit()
        elif act == "copy":
            cb = ch.draw(3) != 2
            k = ch.draw(3)
            c = h.c.copy(copy_backends=cb) if k < 2 else copy.deepcopy(h.c)
            w.add(c, h.ops, h.n, f"{h.name}.copy({cb})" if k < 2 else f"deepcopy({h.name})")
        elif act == "add":
            g = w.pick()
            w.add(h.c + g.c, h.ops + g.ops, max(h.n, g.n), f"{h.name} + {g.name}")
        elif act == "iadd":
            g = w.pick()
            if len(h.ops) + len(g.ops) <= 80:
                c = h.c
                c += g.c
                check(c is h.c, "iadd", "+= made a new circuit")
                h.ops = h.ops + list(g.ops)
                h.n = max(h.n, g.n)
                rec.op(f"{h.name} += {g.name}")
        elif act == "dagger":
            if h.unitary():
                cb = ch.draw(3) != 0
                c = h.c.dagger(copy_backends=cb)
                ops = dagger_ops(h.ops)
                w.add(c, ops, h.n, f"{h.name}.dagger(copy_backends={cb})")
        elif act == "pickle":
            c = pickle.loads(pickle.dumps(h.c))
            rec.fault("process-restart")
            w.add(c, h.ops, h.n, f"unpickle(pickle({h.name}))")
        elif act == "vandal":
            if w.kept:
                k = w.kept.pop(ch.draw(len(w.kept)))
                vandalise(k.value)
                rec.fault("result-vandalised")
                rec.op("modify the result of", k.what)
        elif act == "abort":
            bk, bn = self.how(ch, w, h, shared, name)
            f = ch.pick(FAULTS)
            after = ch.loguniform(11)
            kw = w.run_options()
            cache = ch.draw(2)
            gen.seed_all(ch.bytes_seed())
            if cache:
                kind, v, fired = with_fault(rec, lambda: h.c.make_cache(backend=name), f, after)
            else:
                kind, v, fired = with_fault(rec, lambda: h.c.run(**kw, **bk), f, after)
            if kind == "raised" and not fired:
                raise v
            rec.op(f"{h.name}.{'make_cache()' if cache else f'run({kw})'} on {bn} aborted={fired}")
        w.check_kept()
        return 0


def vandalise(v):
    if isinstance(v, tuple):
        for x in v:
            vandalise(x)
    elif isinstance(v, np.ndarray):
        v[:] = 0.25 - 0.5j
    elif isinstance(v, dict):
        v.clear()
        v["boom"] = 7


def dagger_ops(ops):
    return [o.inverse() for o in reversed(ops)]


CHECK = C01()
