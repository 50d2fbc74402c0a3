"""C08: Ops values never change and can be shared between threads."""
import copy
import pickle

from .. import gen, opcmp, refmodel as rm
from ..core import check
from ..sched import FAULTS, Scheduler, with_fault
from ..world import show
from .base import Check
from .c01 import dagger_ops

ABSENT = ["reset", "rxx", "ryy", "rzz", "cswap", "foo", "ops_"]
NAMES = (set(gen.ONE_Q) | set(gen.TWO_Q) | set(gen.THREE_Q)) - set(ABSENT)


class C08(Check):
    ID = "C08"
    TECHNIQUE = ("seeded histories over shared Ops values and the circuits made from them, with interrupted and "
                 "concurrent derivations; every value and circuit is compared with its model after every step")
    LEVEL_NOTE = "Sampled histories and schedules. Operations are compared by meaning (gate matrix and targets)."
    QUICK = 4000
    THOROUGH = 70000
    RULE = ("3-40 steps over up to 10 Ops values and 5 circuits (extend by a gate, +, dagger, to_circuit, copy/pickle, "
            "rejected gates and attribute writes, circuits extended and run, derivations cut short, 2-3 threads deriving "
            "from shared values); every Ops value and circuit is compared with its model after each step. Non-trivial = "
            "at least two values were derived.")
    REAL = ["blueqat.experimental.operations", "blueqat.circuit", "blueqat.gate", "NumPyBackend", "real threads"]
    STUB = ["thread scheduler"]

    def prepare(self):
        import blueqat.experimental.operations  # noqa

    def run(self, ch, rec):
        from blueqat.experimental.operations import Ops
        self.vals = vals = [[Ops(), 0, []]]       # value, n, model operations
        circs = []                         # circuit, n, model operations
        meas = ch.pick([0, 120])
        derived = 0

        def prog(n, k):
            return gen.program(ch, max(n, 1), k, meas, 0, NAMES)

        def put(v, n, ops, note):
            nonlocal derived
            derived += 1
            check(type(v) is Ops, "type", "%s gave a %s", note, type(v).__name__)
            vals.append([v, n, list(ops)])
            rec.op(f"v{derived} = {note}")
            if len(vals) > 10:
                vals.pop(ch.draw(9))

        def grow(v, n, ops, new):
            for o in new:
                if n == 0:
                    o = rm.Op("x", (), 0)
                v = o.apply_to(v)
                n = max(n, rm.max_index(o.targets) + 1)
                ops = ops + [o]
            return v, n, ops

        if ch.draw(2):
            n = gen.width(ch, 4, 9)
            vals.append([Ops(n), n, []])
        for _ in range(gen.size(ch, 3, 40)):
            with ch.span("step"):
                v, n, ops = vals[-1 - ch.draw(len(vals))]
                act = ch.weighted([(6, "grow"), (3, "add"), (2, "dagger"), (3, "circuit"), (2, "usecircuit"), (1, "copy"),
                                   (1, "reject"), (1, "interrupt"), (2, "threads"), (1, "repr"), (1, "foreign")])
                rec.state(act, [(x[1], [o.key() for o in x[2]]) for x in vals])
                if act == "grow":
                    new = prog(n, ch.range(1, 4))
                    w, m, all_ = grow(v, n, ops, new)
                    put(w, m, all_, f"Ops of {len(ops)} extended by {all_[len(ops):]}")
                elif act == "add":
                    w, m, o2 = vals[ch.draw(len(vals))]
                    if len(ops) + len(o2) < 60:
                        put(v + w, max(n, m), ops + o2, f"Ops of {len(ops)} + Ops of {len(o2)}")
                elif act == "dagger":
                    if rm.is_unitary(ops):
                        put(v.dagger(), n, dagger_ops(ops), f"dagger of Ops of {len(ops)}")
                    else:
                        try:
                            v.dagger()
                        except ValueError:
                            pass
                        else:
                            check(False, "dagger-accepted", "dagger of an Ops value with measurements was accepted")
                elif act == "circuit":
                    circs.append([v.to_circuit(), n, list(ops)])
                    rec.op(f"circuit {len(circs)} from Ops of {len(ops)}")
                    if len(circs) > 5:
                        circs.pop(0)
                elif act == "usecircuit":
                    if circs:
                        e = circs[ch.draw(len(circs))]
                        if ch.draw(2) or not e[1]:
                            e[0], e[1], e[2] = grow(e[0], e[1], e[2], prog(e[1], ch.range(1, 3)))
                            rec.op("extend a circuit to", e[2])
                        else:
                            gen.seed_all(ch.bytes_seed())
                            e[0].run(**ch.pick([{}, {"shots": 3}]))
                            rec.op("run a circuit")
                elif act == "copy":
                    w = [copy.copy, copy.deepcopy, lambda x: pickle.loads(pickle.dumps(x))][ch.draw(3)](v)
                    put(w, n, ops, f"copy of Ops of {len(ops)}")
                elif act == "reject":
                    rec.fault("bad-arguments")
                    self.reject(ch, v)
                    rec.op("rejected gate")
                elif act == "repr":
                    repr(v), str(v), hash(v), v == vals[0][0], len(v)
                elif act == "foreign":
                    for bad in (1, None, [v], (v,)):
                        try:
                            v + bad
                        except TypeError:
                            pass
                        else:
                            check(False, "bad-operand", "Ops + %r was accepted", bad)
                    rec.fault("bad-arguments")
                elif act == "interrupt":
                    w, m, o2 = vals[ch.draw(len(vals))]
                    new = prog(n, 2)
                    fn = [lambda: grow(v, n, ops, new), lambda: v + w, lambda: v.dagger(), lambda: v.to_circuit()][ch.draw(4)]
                    kind, e, fired = with_fault(rec, fn, ch.pick(FAULTS), ch.loguniform(8))
                    if kind == "raised" and not fired and not isinstance(e, ValueError):
                        raise e
                    rec.op("interrupted derivation", fired)
                else:
                    derived += self.threads(ch, rec, prog, grow)
                for x in vals:
                    self.same(x, "Ops value", act)
                for x in circs:
                    self.same(x, "circuit", act)
        for x in circs:
            if x[1] and rm.is_unitary(x[2]):
                vec = x[0].run()
                check(rm.same_ray(vec, rm.statevector(x[2], x[1])), "wrong-state", "a circuit made from Ops %s runs to %s",
                      x[2], show(vec))
        rec.nontrivial = derived >= 2

    def same(self, x, what, act):
        v, n, ops = x
        check(v.n_qubits == n, "n-qubits", "after %s a %s has n_qubits %r, expected %r", act, what, v.n_qubits, n)
        if what == "Ops value":
            check(type(v.ops) is tuple, "type", "after %s an Ops value holds a %s", act, type(v.ops).__name__)
        opcmp.check_ops(v.ops, ops, f"after {act}, a {what}", "operations")

    def reject(self, ch, v):
        k = ch.draw(4)
        try:
            if k == 0:
                getattr(v, ch.pick(ABSENT))
                want = None
            elif k == 1:
                v.rx()[0]
                want = None
            elif k == 2:
                v.x["a"]
                want = None
            else:
                v.n_qubits = 7
                want = None
        except (AttributeError, TypeError, ValueError):
            return
        check(want is not None, "bad-accepted", "%s was accepted",
              ["an unknown gate", "rx without an angle", "a string index", "assigning n_qubits"][k])

    def threads(self, ch, rec, prog, grow):
        sch = Scheduler(ch, rec, gap_bits=ch.pick([4, 7]), attr_only=ch.draw(2) == 1)
        jobs = []
        for t in range(ch.range(2, 3)):
            v, n, ops = self.vals[ch.draw(len(self.vals))]
            w, m, o2 = self.vals[ch.draw(len(self.vals))]
            new = prog(n, ch.range(1, 4))
            how = ch.pick(["grow", "add", "dagger", "circuit"])
            out = []

            def body(v=v, n=n, ops=ops, w=w, new=new, how=how, out=out):
                if how == "grow":
                    out.append(grow(v, n, ops, new)[0])
                elif how == "add":
                    out.append(grow(v + w, max(n, m_of[id(w)]), [], new)[0])
                elif how == "circuit":
                    out.append(grow(v.to_circuit(), n, ops, new)[0])
                else:
                    out.append(v.dagger() if rm.is_unitary(ops) else v)
            m_of = {id(x[0]): x[1] for x in self.vals}
            jobs.append((n, ops, m, o2, new, how, out))
            sch.spawn(f"T{t}", body)
        sch.run()
        for task, (n, ops, m, o2, new, how, out) in zip(sch.tasks, jobs):
            if task.exc is not None:
                raise task.exc
            base = {"grow": ops, "circuit": ops, "add": ops + o2,
                    "dagger": dagger_ops(ops) if rm.is_unitary(ops) else ops}[how]
            k = max(n, m) if how == "add" else n
            if how != "dagger":
                _, k, base = self.model_grow(k, base, new)
            self.same([out[0], k, base], "Ops value" if how != "circuit" else "circuit", f"{how} in a thread")
        rec.op(f"{len(jobs)} threads derived", [j[5] for j in jobs])
        return 1

    @staticmethod
    def model_grow(n, ops, new):
        for o in new:
            if n == 0:
                o = rm.Op("x", (), 0)
            n = max(n, rm.max_index(o.targets) + 1)
            ops = ops + [o]
        return None, n, ops


CHECK = C08()
