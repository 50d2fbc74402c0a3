"""C24: Pauli expressions are immutable values that obey operator algebra."""
import copy
import pickle

import numpy as np

from .. import pauliref as pr
from ..core import Violation, check, short
from ..sched import FAULTS, Scheduler, with_fault
from .base import Check

NUMBERS = [1, 2.0, -1, 0.5, -0.25, 1j, 0.5 - 2j, 3, 0, 0.0, -1j, 1.0]


def number(ch):
    """A number as a user may have it, also as read from a NumPy array."""
    k = ch.pick(NUMBERS)
    return np.complex128(k) if isinstance(k, complex) and ch.draw(4) == 3 else np.float64(k) if isinstance(k, float) and ch.draw(4) == 3 else k


def plain(k):
    return k.item() if isinstance(k, np.generic) else k


class World:
    def __init__(self, ch, rec, width):
        from blueqat import pauli
        self.p = pauli
        self.ch, self.rec, self.width = ch, rec, width
        self.vals = []          # (value, operator, its data when it was made, kind)
        self.unit = 1           # a common factor of all values; only linear derivations if it is not 1

    def atom(self, ch):
        k = ch.draw(7)
        if k == 6:
            return self.p.I, {(): 1}, "I"
        letter = "XYZ"[k % 3]
        q = ch.draw(self.width)
        ctor = getattr(self.p, letter)
        return (ctor[q] if k < 3 else ctor(q)), {((q, letter),): 1}, f"{letter}[{q}]"

    def kind(self, v):
        return "expr" if hasattr(v, "terms") else "term" if hasattr(v, "ops") else "pauli"

    def put(self, v, want, what):
        self.judge(v, want, what)
        self.rec.op(what, "=", short(pr.show(want), 160))
        if len(want) <= 24 and max([abs(c) for c in want.values()], default=0) < 2 ** 24 * max(self.unit, 1) and self.size(v) < 60:
            self.vals.append((v, want, pr.data(v), what))
            if len(self.vals) > 14:
                self.vals.pop(0)

    def size(self, v):
        if hasattr(v, "terms"):
            return sum(2 + len(t.ops) for t in v.terms)
        return len(getattr(v, "ops", ()))

    def judge(self, v, want, what):
        check(type(v).__module__.startswith("blueqat"), "type", "%s is a %s: %r", what, type(v).__name__, v)
        got = pr.of_value(v)
        check(got == want, "wrong-operator", "%s is %r = %s, expected %s", what, v, pr.show(got), pr.show(want))

    def unchanged(self, act):
        for v, want, d, what in self.vals:
            check(pr.data(v) == d, "value-changed", "%s changed %s to %r", act, what, v)

    def pick(self, ch=None):
        ch = ch or self.ch
        if not self.vals or ch.draw(4) == 3:
            v, d, what = self.atom(ch)
            if self.unit != 1:
                return v * self.unit, pr.scale(d, self.unit), f"{what} * {self.unit!r}"
            return v, d, what
        i = ch.draw(len(self.vals))
        v, d, _, _ = self.vals[-1 - i]
        return v, d, f"v{len(self.vals) - 1 - i}"

    def action(self, ch):
        """One derivation: (what, function, operator it must give)."""
        p = self.p
        act = ch.weighted([(5, "mul"), (5, "add"), (3, "sub"), (3, "scale"), (1, "div"), (1, "neg"), (2, "pow"), (1, "const"),
                           (2, "simplify"), (2, "commutator"), (1, "term"), (1, "expr"), (1, "copy"), (1, "sum"), (1, "chars")])
        if self.unit != 1 and act in ("commutator", "pow", "const", "chars", "mul"):
            act = "sum" if act == "pow" else "simplify" if act == "chars" else "product"
        a, da, na = self.pick(ch)
        if act == "product":            # with a single operator, so that the unit stays a factor
            b, db, nb = self.atom(ch)
            if ch.draw(2):
                return f"{na} * {nb}", lambda: a * b, pr.mul(da, db)
            return f"{nb} * {na}", lambda: b * a, pr.mul(db, da)
        if act == "chars" and ch.draw(3) == 2:
            c, n = ch.pick("XYZI"), ch.draw(self.width)
            s = ch.pick([c, c.lower()])
            return f"pauli_from_char({s!r}, {n})", lambda: p.pauli_from_char(s, n), {((n, c),) if c != "I" else (): 1}
        if act == "chars":
            s = "".join(ch.pick("XYZI") for _ in range(ch.range(1, self.width)))
            f = ch.pick([p.Term.from_chars, p.term_from_chars])
            order = s if f is p.Term.from_chars else s[::-1]
            return f"from_chars({s})", lambda: f(s), {tuple((i, c) for i, c in enumerate(order) if c != "I"): 1}
        if act in ("mul", "add", "sub", "commutator"):
            b, db, nb = self.pick(ch)
            if act == "mul":
                return f"{na} * {nb}", lambda: a * b, pr.mul(da, db)
            if act == "add":
                return f"{na} + {nb}", lambda: a + b, pr.add(da, db)
            if act == "sub":
                return f"{na} - {nb}", lambda: a - b, pr.add(da, db, -1)
            return f"[{na}, {nb}]", lambda: p.commutator(a, b), pr.commutator(da, db)
        if act == "scale":
            k = number(ch)
            if ch.draw(2):
                return f"{k!r} * {na}", lambda: k * a, pr.scale(da, plain(k))
            return f"{na} * {k!r}", lambda: a * k, pr.scale(da, plain(k))
        if act == "div":
            k = ch.pick([2, -4, 0.5, 1, 8.0, 2j, -0.5j, np.float64(2), np.int64(-4), np.complex128(2j)])
            return f"{na} / {k!r}", lambda: a / k, pr.scale(da, 1 / plain(k))
        if act == "neg":
            return f"-{na}", lambda: -a, pr.scale(da, -1)
        if act == "const":
            k = number(ch)
            j = ch.draw(4)
            one = {(): 1}
            if j == 0:
                return f"{na} + {k!r}", lambda: a + k, pr.add(da, pr.scale(one, plain(k)))
            if j == 1:
                return f"{k!r} + {na}", lambda: k + a, pr.add(pr.scale(one, plain(k)), da)
            if j == 2:
                return f"{na} - {k!r}", lambda: a - k, pr.add(da, pr.scale(one, -plain(k)))
            return f"{k!r} - {na}", lambda: k - a, pr.add(pr.scale(one, plain(k)), da, -1)
        if act == "pow":
            n = ch.draw(4)
            if self.kind(a) == "pauli":
                a, na = a.to_term(), f"{na}.to_term()"
            return f"{na} ** {n}", lambda: a ** n, pr.power(da, n)
        if act == "simplify":
            if self.kind(a) == "pauli":
                a, na = a.to_expr(), f"{na}.to_expr()"
            return f"{na}.simplify()", a.simplify, da
        if act == "term":
            if self.kind(a) == "expr":
                ts = list(a)
                if not ts:
                    return f"{na}.to_expr()", a.to_expr, da
                i = ch.draw(len(ts))
                return f"term {i} of {na}", lambda: list(a)[i], pr.of_value(ts[i])
            return f"{na}.to_term()", lambda: p.to_term(a), da
        if act == "expr":
            return f"{na}.to_expr()", lambda: p.to_expr(a), da
        if act == "sum":
            xs = [self.pick(ch) for _ in range(ch.range(1, 4))]
            d = {}
            for x in xs:
                d = pr.add(d, x[1])
            return f"sum({[x[2] for x in xs]})", lambda: sum([x[0] for x in xs]), d
        f = [copy.copy, copy.deepcopy, lambda x: pickle.loads(pickle.dumps(x))][ch.draw(3)]
        return f"copy of {na}", lambda: f(a), da

    def questions(self, ch):
        """Comparisons and other questions about values."""
        p = self.p
        a, da, na = self.pick(ch)
        b, db, nb = self.pick(ch)
        k = ch.draw(7)
        weight = lambda x, y: sum(abs(c) ** 2 for c in pr.commutator(x, y).values())  # noqa
        if k == 6 and self.kind(a) == self.kind(b) == "pauli":
            check(hash(a) == hash(b) or a != b, "hash", "%s == %s, but their hashes differ", na, nb)
        elif k == 0 or k == 6:
            check(bool(a == b) is (da == db), "equality", "%s == %s is %r for %s and %s", na, nb, a == b, pr.show(da), pr.show(db))
            check(bool(a != b) is (da != db), "equality", "%s != %s is %r for %s and %s", na, nb, a != b, pr.show(da), pr.show(db))
        elif k == 1:
            if 1e-10 < weight(da, db) < 1e-6:        # close to the documented bound
                return
            want = weight(da, db) < 1e-8
            got = p.is_commutable(a, b)
            check(bool(got) is want, "commutable", "is_commutable(%s, %s) is %r for %s and %s", na, nb, got, pr.show(da), pr.show(db))
            if self.kind(a) != "pauli" and self.kind(b) != "pauli":
                got = a.is_commutable_with(b)
                check(bool(got) is want, "commutable", "%s.is_commutable_with(%s) is %r", na, nb, got)
        elif k == 2:
            s = a.to_expr().simplify()
            n = pr.max_qubit(da) + 1
            check(s.n_qubits == n and s.max_n() == n - 1, "n-qubits", "%s simplified has n_qubits %r, max_n %r, expected %r",
                  na, s.n_qubits, s.max_n(), n)
            check(len(s.terms) == len(da), "not-simple", "%s simplifies to %r, the operator is %s", na, s, pr.show(da))
            parts = lambda cs: sorted((complex(c).real, complex(c).imag) for c in cs)  # noqa
            cs = parts(s.coeffs())
            check(cs == parts(da.values()), "coeffs", "coeffs of %s are %s", na, cs)
        elif k == 3:
            e = a.to_expr()
            ws = [weight(pr.of_value(x), pr.of_value(y)) for x in e for y in e]
            if any(1e-10 < x < 1e-6 for x in ws):
                return
            want = all(x < 1e-8 for x in ws)
            check(bool(e.is_all_terms_commutable()) is want, "commutable", "is_all_terms_commutable of %s is not %r", na, want)
        elif k == 4:
            if self.kind(a) == "expr":
                q = max([o.n for t in a for o in t.ops], default=-1)
                check(a.max_n() == q and a.n_qubits == q + 1, "n-qubits", "%s = %r has max_n %r, n_qubits %r", na, a, a.max_n(), a.n_qubits)
            repr(a), str(a)
        else:
            for bad in ("x", None, [1]):
                for f in (lambda: a + bad, lambda: a * bad, lambda: a - bad, lambda: a / bad):
                    try:
                        f()
                    except TypeError:
                        continue
                    except Exception as e:  # noqa
                        check(False, "bad-operand", "%s with %r raised %r", na, bad, e)
                    check(False, "bad-operand", "%s was combined with %r", na, bad)
            try:
                a / 0
            except ZeroDivisionError:
                pass
            else:
                check(not da, "bad-operand", "%s / 0 was accepted", na)
            self.rec.fault("bad-operand")


class C24(Check):
    ID = "C24"
    TECHNIQUE = ("seeded histories of derivations over shared Pauli values, with injected exceptions, refused operands and "
                 "scheduled threads; every value is compared with an exact model of the Pauli algebra, and all older values with themselves")
    LEVEL_NOTE = "Sampled histories and interleavings; coefficients are dyadic, so that all comparisons are exact."
    QUICK = 6000
    THOROUGH = 100000
    RULE = ("3-40 steps over up to 14 values on 1-5 qubits (rarely up to qubit 12): products, sums, differences, scalars (Python's and NumPy's), powers 0-3, commutators, "
            "simplification, conversions (one run in eight with all coefficients multiples of 2**-90, 2**-30 or 2**40), sums of lists, copies and pickling, comparisons and refused operands; one step in six interrupted; "
            "2-3 threads deriving from shared values. Non-trivial = at least four derivations were compared.")
    REAL = ["blueqat.pauli", "real threads"]
    STUB = ["thread scheduler"]
    ASSUMPTIONS = []

    def run(self, ch, rec):
        w = World(ch, rec, ch.weighted([(4, 2), (3, 3), (2, 1), (1, 5)]) if not ch.chance(60) else 13)
        if ch.draw(8) == 7:
            w.unit = ch.pick([2.0 ** -30, 2.0 ** 40, 2.0 ** -90])
        done = 0
        for _ in range(ch.range(3, 40)):
            with ch.span("step"):
                k = ch.draw(12)
                if k < 8:
                    what, f, want = w.action(ch)
                    w.put(f(), want, what)
                    done += 1
                elif k == 8:
                    w.questions(ch)
                elif k < 11:
                    what, f, want = w.action(ch)
                    kind, v, fired = with_fault(rec, f, ch.pick(FAULTS), ch.loguniform(8))
                    if kind == "raised" and not fired:
                        raise v
                    if kind == "ok":
                        w.judge(v, want, what)
                    rec.op("interrupted" if fired else "finished", what)
                else:
                    done += self.threads(ch, rec, w)
                w.unchanged("this step")
                rec.state([sorted(map(repr, x[1].items())) for x in w.vals])
        rec.nontrivial = done >= 4

    def threads(self, ch, rec, w):
        sch = Scheduler(ch, rec, gap_bits=ch.pick([4, 7]), attr_only=ch.draw(2) == 1)
        jobs = []
        for t in range(ch.range(2, 3)):
            acts = [w.action(ch) for _ in range(ch.range(1, 3))]
            out = []

            def body(acts=acts, out=out):
                for what, f, want in acts:
                    out.append(f())
            jobs.append((acts, out))
            sch.spawn(f"T{t}", body)
        sch.run()
        for task, (acts, out) in zip(sch.tasks, jobs):
            if task.exc is not None:
                raise task.exc
            for (what, f, want), v in zip(acts, out):
                w.judge(v, want, f"in a thread, {what}")
        rec.op("threads:", [[a[0] for a in acts] for acts, _ in jobs])
        return len(jobs)


CHECK = C24()
