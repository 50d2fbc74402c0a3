"""C26: time evolutions and Pauli gates do the same to every circuit, at every time, in every thread."""
import copy

import numpy as np

from .. import gen, pauliref as pr, refmodel as rm
from ..core import check
from ..sched import FAULTS, Scheduler, with_fault
from .base import Check
from .c24 import NUMBERS, World


class PauliOp:
    """Model operation: the unitary a time evolution or a Pauli term stands for."""

    def __init__(self, string, angle=None, named=()):
        self.qs = tuple(q for q, _ in string)
        m = np.eye(1)
        for _, p in string:
            m = np.kron(m, pr.MAT[p])
        # exp(i angle P), or P itself
        self.m = m if angle is None else np.cos(angle) * np.eye(len(m)) + 1j * np.sin(angle) * m
        self.targets = self.qs + tuple(named)
        self.name = "pauli"
        self.text = f"{''.join(f'{p}{q}' for q, p in string)}" + ("" if angle is None else f"^({angle:.5g})")

    def __repr__(self):
        return self.text

    def units(self, n):
        return [("u", self.m, self.qs)] if self.qs else []


class Circ:
    def __init__(self, c, n, ops):
        self.c, self.n, self.ops = c, n, ops

    def copy(self, how=0):
        return Circ([self.c.copy, lambda: copy.deepcopy(self.c)][how](), self.n, list(self.ops))

    def add(self, op):
        self.ops = self.ops + [op]
        self.n = max(self.n, rm.max_index(op.targets) + 1)


class C26(Check):
    ID = "C26"
    TECHNIQUE = ("seeded histories in which evolution functions of shared Pauli terms are kept and applied to many circuits, with "
                 "interrupted calls and scheduled threads; the resulting states are compared with exponentials of the exact model")
    LEVEL_NOTE = "Sampled histories and interleavings; states are compared up to a global phase, tolerance 1e-7."
    QUICK = 5000
    THOROUGH = 60000
    RULE = ("3-24 steps over up to 8 terms (products of 0-5 Pauli operators, repeated qubits, dyadic coefficients), 8 kept evolutions and 4 "
            "circuits of 1-7 qubits: evolutions made early and applied late and repeatedly at other times, terms appended as gates, other "
            "gates in between, circuits run in between, copied, complex coefficients refused, one step in six interrupted, 2-3 threads "
            "sharing evolutions. Non-trivial = two evolutions applied and compared.")
    REAL = ["blueqat.pauli", "blueqat.circuit", "NumPyBackend", "real threads"]
    STUB = ["thread scheduler"]
    ASSUMPTIONS = []

    def run(self, ch, rec):
        from blueqat import Circuit
        width = ch.weighted([(4, 3), (3, 2), (2, 4), (1, 1), (1, 6)])
        w = World(ch, rec, width)
        evos = []                 # function, string, coefficient, text
        circs = []
        done = 0
        w.last = None

        def new_term(ch):
            t, d = w.p.I.to_term(), {(): 1}
            for _ in range(ch.weighted([(1, 0), (3, 1), (4, 2), (3, 3), (2, 4), (1, 5)])):
                a, da, _ = w.atom(ch)
                if ch.draw(2):
                    t, d = t * a, pr.mul(d, da)
                else:
                    t, d = a * t, pr.mul(da, d)
            (string, c), = d.items()
            k = ch.pick(NUMBERS)
            if ch.draw(5):
                # a real coefficient in the end
                k = ch.pick([1.0, 2.0, -1.0, 0.5, -0.25, 3, 0.0])
                if complex(c).imag:
                    k = k * -1j
            return t * k, string, c * k

        def new_circuit(ch):
            n = ch.range(1, width + (0 if ch.draw(4) else 1))
            ops = []
            for q in range(n):
                ops += [rm.Op("ry", (ch.unit() * 6,), q), rm.Op("rz", (ch.unit() * 6,), q)]
            if ch.draw(2):
                ops += gen.program(ch, n, ch.draw(4), 0, 0)
            return Circ(gen.build(Circuit, ops, n if ch.draw(2) else 0), n, ops)

        def time(ch):
            k = ch.draw(8)
            if k < 4:
                return ch.unit() * 7 - 3.5
            return ch.pick([0, 1, -2, 0.25, 1e-6, 40.5, np.float64(0.7), -0.0, np.float32(0.5)])

        def same(c, what):
            check(c.c.n_qubits == c.n, "width", "%s has %d qubits, expected %d", what, c.c.n_qubits, c.n)
            got = c.c.run()
            check(rm.same_ray(got, rm.statevector(c.ops, c.n)), "wrong-evolution", "%s: state differs from that of %s", what, c.ops)

        def piece(ch):
            """An evolution or a term to append: (function of a circuit, model operation, text)."""
            if evos and ch.draw(4):
                f, string, coeff, text = evos[-1 - ch.draw(len(evos))]
                t = w.last = time(ch) if w.last is None or ch.draw(4) else w.last
                return lambda c: f(c, t), PauliOp(string, coeff * float(t)), f"{text} at {t!r}"
            t, string, coeff = terms[-1 - ch.draw(len(terms))][:3]
            if ch.draw(3):
                return t.append_to_circuit, PauliOp(string), f"gates of {t}"
            return lambda c: t.append_to_circuit(c, simplify=False), PauliOp(string, named=[o.n for o in t.ops]), f"gates of {t}, not simplified"

        def apply(c, f, op, what):
            before = list(c.c.ops)
            f(c.c)
            now = c.c.ops
            check(len(now) >= len(before) and all(a is b for a, b in zip(now, before)), "history", "%s changed gates the circuit had", what)
            c.add(op)

        terms = []
        for _ in range(2):
            terms.append(new_term(ch))
            circs.append(new_circuit(ch))
        data = [pr.data(t[0]) for t in terms]
        for _ in range(ch.range(3, 24)):
            with ch.span("step"):
                k = ch.draw(16)
                if k == 0:
                    t = new_term(ch)
                    terms.append(t)
                    data.append(pr.data(t[0]))
                    rec.op("term", t[0])
                elif k < 4:
                    t, string, coeff = terms[-1 - ch.draw(len(terms))]
                    if complex(coeff).imag:
                        try:
                            t.get_time_evolution()
                        except ValueError:
                            rec.fault("complex-coefficient")
                        else:
                            check(False, "complex-coefficient", "the evolution of %s was accepted", t)
                        rec.op("complex coefficient of", t)
                    else:
                        evos.append((t.get_time_evolution(), string, complex(coeff).real, f"e{len(evos)} of {t}"))
                        if len(evos) > 8:
                            evos.pop(ch.draw(7))
                        rec.op("evolution of", t)
                elif k == 4:
                    circs.append(new_circuit(ch) if ch.draw(2) or not circs else circs[ch.draw(len(circs))].copy(ch.draw(2)))
                    if len(circs) > 4:
                        circs.pop(ch.draw(3))
                    rec.op("new circuit", circs[-1].ops)
                elif k == 5:
                    c = circs[-1 - ch.draw(len(circs))]
                    for o in gen.program(ch, c.n, ch.range(1, 3), 0, 0):
                        o.apply_to(c.c)
                        c.add(o)
                        rec.op("gate", o)
                elif k < 12:
                    c = circs[-1 - ch.draw(len(circs))]
                    f, op, what = piece(ch)
                    apply(c, f, op, what)
                    rec.op(what, "on circuit of", len(c.ops))
                    if ch.draw(4):
                        same(c, what)
                        done += 1
                elif k < 14:
                    c = circs[-1 - ch.draw(len(circs))]
                    d = c.copy()
                    f, op, what = piece(ch)
                    j = ch.draw(3)
                    if j == 2 and not complex(terms[0][2]).imag:
                        g = terms[0][0].get_time_evolution
                    else:
                        g = lambda: f(d.c)  # noqa
                    kind, v, fired = with_fault(rec, g, ch.pick(FAULTS), ch.loguniform(8))
                    if kind == "raised" and not fired:
                        raise v
                    rec.op("interrupted" if fired else "finished", what)
                    if kind == "ok" and not (j == 2 and not complex(terms[0][2]).imag):
                        d.add(op)
                        same(d, what)
                else:
                    done += self.threads(ch, rec, circs, piece, apply, same)
                for (t, _, _), x in zip(terms, data):
                    check(pr.data(t) == x, "value-changed", "the term %s changed", t)
                rec.state([repr(c.ops) for c in circs])
        for i, c in enumerate(circs):
            same(c, f"circuit {i} in the end")
        rec.nontrivial = done >= 2

    def threads(self, ch, rec, circs, piece, apply, same):
        sch = Scheduler(ch, rec, gap_bits=ch.pick([4, 7]), attr_only=ch.draw(2) == 1)
        mine, texts = [], []
        for t in range(ch.range(2, 3)):
            c = circs[ch.draw(len(circs))].copy()
            acts = [piece(ch) for _ in range(ch.range(1, 2))]
            mine.append(c)
            texts.append([a[2] for a in acts])

            def body(acts=acts, c=c):
                for f, op, what in acts:
                    apply(c, f, op, what)
            sch.spawn(f"T{t}", body)
        sch.run()
        for task, c, what in zip(sch.tasks, mine, texts):
            if task.exc is not None:
                raise task.exc
            same(c, f"in a thread, {what}")
        rec.op("threads:", texts)
        return len(mine)


CHECK = C26()
