"""C27: index expressions address the qubits that indexing a range of the circuit's size addresses."""
import copy

import numpy as np

from .. import qasm, refmodel as rm, usergates
from ..core import Violation, check, short
from ..refmodel import Op
from ..sched import FAULTS, Scheduler, with_fault
from .base import Check

BASIS = {1: ["x", "x", "x", "measure", "m", "reset"], 2: ["cx", "swap", "cnot"], 3: ["ccx", "cswap", "toffoli"]}
ALL = {1: ["u3", "ry", "h", "rz", "rx", "x", "t", "s", "u2", "phase", "tdg", "y", "z", "sdg", "u1", "i", "r"],
       2: ["cx", "cry", "swap", "cu3", "rxx", "cz", "crx", "rzz", "ch", "cy", "crz", "ryy", "cu1", "cu2", "cphase", "cr"],
       3: ["ccx", "cswap", "toffoli"]}
WIDE = {1: ["x", "h", "measure", "t", "s", "reset"], 2: ["cx", "swap", "cz", "cy", "ch"], 3: ["ccx", "cswap"]}
REFUSED = (ValueError, IndexError, TypeError)
MAXN = 6


class Idx:
    """An integer of the caller's own; reading it may fail on schedule."""

    def __init__(self, v):
        self.v = v

    def __index__(self):
        usergates.tick("__index__")
        return self.v

    def __deepcopy__(self, memo):
        return self


class Circ:
    def __init__(self, name, c, n, ops, kind):
        self.name, self.c, self.n, self.ops, self.kind = name, c, n, list(ops), kind

    def add(self, op):
        self.ops = self.ops + [op]
        self.n = max(self.n, rm.max_index(op.targets) + 1)


def resolve(op, n):
    """The qubit tuples an operation acts on, in order; an exception of REFUSED if there are none."""
    t = op.targets
    if op.name in rm.TWO:
        if not isinstance(t, tuple) or len(t) != 2:
            raise ValueError("not a pair")
        a, b = rm.qubits_of(t[0], n), rm.qubits_of(t[1], n)
        if len(a) != len(b) or any(x == y for x, y in zip(a, b)):
            raise ValueError("no pairs")
        return list(zip(a, b))[::-1] if op.rev else list(zip(a, b))
    qs = rm.qubits_of(t, n)
    if op.name in rm.THREE:
        if len(qs) != 3 or len(set(qs)) != 3:
            raise ValueError("not three qubits")
        return [tuple(qs)]
    return [(q,) for q in qs]


def plain(ops, n):
    """The operations with one integer target each, or the exception that refuses them."""
    out = []
    for o in ops:
        for qs in resolve(o, n):
            out.append(Op(o.name, o.params, qs if len(qs) > 1 else qs[0]))
    return out


def plain_or_none(ops, n):
    try:
        return plain(ops, n)
    except REFUSED:
        return None


SYM = {"swap", "cz"}


def timelines(ops):
    """What happens to every qubit, in order: equal for programs which differ by moving gates past unrelated ones."""
    d = {}
    for o in ops:
        qs = o.targets if isinstance(o.targets, tuple) else (o.targets,)
        name = opcmp_name(o.name)
        if name in SYM:
            qs = tuple(sorted(qs))
        elif name == "ccx":
            qs = tuple(sorted(qs[:2])) + qs[2:]
        elif name == "cswap":
            qs = qs[:1] + tuple(sorted(qs[1:]))
        for q in qs:
            d.setdefault(q, []).append((name, qs))
    return d


def opcmp_name(n):
    from ..opcmp import ALIAS
    return ALIAS.get(n, n)


class C27(Check):
    ID = "C27"
    TECHNIQUE = ("seeded histories of circuits built, grown, combined, copied and run through random index expressions, with index "
                 "objects which fail on schedule, interrupted calls and scheduled threads; runs, exports, printed forms and recorded "
                 "bits are compared with a model which indexes a range")
    LEVEL_NOTE = "Sampled expressions, histories and interleavings; states are compared up to a global phase."
    QUICK = 6000
    THOROUGH = 120000
    RULE = ("3-24 steps over up to 5 circuits of 0-6 qubits (exports only: 7-600): integers, negative and NumPy integers, booleans, the "
            "caller's own index objects, slices with any start, stop and step, flat and nested tuples, empty ones, and pairs of all of "
            "them; operations the circuit must refuse (control equal to target, different lengths, too negative, step 0) and which become "
            "valid when it grows; copies, sums, daggers, Ops values; runs, shots, exports, printed forms, the numba kernels; index "
            "objects failing while a gate is added or a circuit runs; interrupted runs; 2-3 threads sharing expressions. Non-trivial "
            "= three answers compared.")
    REAL = ["blueqat.circuit", "blueqat.gate", "blueqat.experimental.operations", "NumPyBackend", "QasmOutputBackend",
            "NumbaBackend (its kernels interpreted by the numba stand-in)", "real threads"]
    STUB = ["numba (sequential interpreter)", "thread scheduler"]
    ASSUMPTIONS = ["numba's compiled kernels compute what their Python source says"]

    def prepare(self):
        from .. import fakenumba
        self.numba = fakenumba.available()

    def run(self, ch, rec):
        from blueqat import Circuit
        self.Circuit = Circuit
        self.done, self.serial = 0, 0
        self.cs = []
        usergates.disarm()
        for _ in range(ch.range(1, 2)):
            self.do_new(ch, rec, None)
        for _ in range(ch.range(3, 24)):
            with ch.span("step"):
                if len(self.cs) > 5:
                    self.cs.pop(0)
                c = self.cs[-1 - ch.draw(len(self.cs))]
                act = ch.weighted([(8, "append"), (8, "use"), (3, "derive"), (2, "indexfail"), (2, "usefail"), (2, "interrupt"),
                                   (2, "threads"), (1, "new"), (1, "poison")])
                getattr(self, "do_" + act)(ch, rec, c)
                for x in self.cs:
                    check(x.c.n_qubits == x.n, "width", "%s has %r qubits, expected %d", x.name, x.c.n_qubits, x.n)
                    check(len(x.c.ops) == len(x.ops), "history", "%s has %d operations, expected %d", x.name, len(x.c.ops), len(x.ops))
                rec.state(act, [(x.n, [o.key() for o in x.ops]) for x in self.cs])
        for x in self.cs:
            self.use(ch, rec, x, 0, " in the end")
        rec.nontrivial = self.done >= 3

    # ---- expressions: (what the program writes, what the model indexes with)
    def number(self, ch, v):
        k = ch.draw(12)
        if k == 11:
            return Idx(v)
        if k == 10:
            return np.int64(v)
        if k == 9:
            return [np.int16, np.int32][ch.draw(2)](v)
        if k == 8 and v in (0, 1):
            return bool(v)
        return v

    def integer(self, ch, n, cap):
        k = ch.draw(20)
        if n and k < 12:
            v = ch.draw(n)
        elif n and k < 18:
            v = -1 - ch.draw(n)
        elif k == 18:
            v = min(n + ch.draw(2), cap - 1)
        else:
            v = ch.draw(cap)
        return self.number(ch, v), v

    def slice(self, ch, n, cap):
        def bound():
            k = ch.draw(10)
            if k < 3:
                return None, None
            v = ch.draw(n + 1) if k < 6 else -1 - ch.draw(n + 2) if k < 9 else min(n + ch.draw(3), cap)
            return self.number(ch, v), v
        (a, ma), (b, mb) = bound(), bound()
        if ma is not None and ma >= cap:
            a = ma = cap - 1
        s = ch.pick([None, None, None, 1, 2, -1, -1, -2, 3, -3, 7, -9])
        return slice(a, b, s if s is None else self.number(ch, s)), slice(ma, mb, s)

    def atom(self, ch, n, cap):
        return self.integer(ch, n, cap) if ch.draw(5) < 3 else self.slice(ch, n, cap)

    def expr(self, ch, n, cap, depth=0):
        k = ch.draw(10)
        if k < 6:
            return self.atom(ch, n, cap)
        parts = [self.expr(ch, n, cap, depth + 1) if depth < 2 and ch.draw(8) == 7 else self.atom(ch, n, cap)
                 for _ in range(ch.weighted([(4, 2), (2, 1), (3, 3), (1, 0), (1, 4)]))]
        return tuple(p for p, _ in parts), tuple(m for _, m in parts)

    def spell(self, ch, qs, n, top=True):
        """Some expression for the given list of qubits of an n-qubit register."""
        def one(q):
            v = q - n if ch.draw(4) == 3 else q
            return self.number(ch, v), v
        if len(qs) == 1 and ch.draw(4):
            return one(qs[0])
        step = qs[1] - qs[0] if len(qs) > 1 else 1
        if qs and step and ch.draw(3) and all(b - a == step for a, b in zip(qs, qs[1:])):
            a, b = qs[0], qs[-1] + (1 if step > 0 else -1)
            if step > 0 and b == n and ch.draw(2):
                b = None
            elif b < 0:
                b = None
            elif b < n and ch.draw(4) == 3:
                b -= n
            if step > 0 and a < step and a == 0 and ch.draw(2):
                a = None
            elif step < 0 and a == n - 1 and ch.draw(2):
                a = None
            elif ch.draw(4) == 3:
                a -= n
            s = None if step == 1 and ch.draw(3) else step
            m = slice(a, b, s)
            if list(range(n)[m]) == list(qs):
                w = slice(*[x if x is None else self.number(ch, x) for x in (a, b, s)])
                return (w, m) if ch.draw(4) else ((w,), (m,))
        if len(qs) > 2 and ch.draw(4) == 3:
            k = ch.range(1, len(qs) - 1)
            (a, ma), (b, mb) = self.spell(ch, qs[:k], n), self.spell(ch, qs[k:], n)
            return (a, b), (ma, mb)
        parts = [one(q) for q in qs]
        return tuple(p for p, _ in parts), tuple(m for _, m in parts)

    def gate(self, ch, c):
        """(operation as the program writes it, as the model does)."""
        n = c.n
        cap = MAXN if n < 7 else n + 3
        names = {"basis": BASIS, "free": ALL, "wide": WIDE}[c.kind]
        k = ch.draw(10)
        if k >= 8 and n >= 3:
            name = ch.pick(names[3])
            qs = ch.subset(range(n), 3)
            j = ch.draw(3)
            if j == 0 and n < 7:
                lo = ch.draw(n - 2)
                qs = [lo, lo + 1, lo + 2] if ch.draw(2) else [lo + 2, lo + 1, lo]
            w, m = self.spell(ch, list(qs), n)
            while not isinstance(w, (tuple, slice)):
                w, m = (w,), (m,)
        elif k >= 4 and n >= 2:
            name = ch.pick(names[2])
            j = ch.draw(4)
            if j == 0:
                s = ch.range(1, n - 1)
                cs = list(range(n - s))
                ts = [q + s for q in cs]
                if ch.draw(2):
                    cs, ts = ts, cs
            elif j == 1:
                cs = list(range(n))[::-1][:ch.range(1, n)]
                ts = [n - 1 - q for q in cs]
                if any(a == b for a, b in zip(cs, ts)):
                    ts = [(q + 1) % n for q in cs]
            else:
                m = ch.weighted([(3, 1), (2, 2), (2, 3), (1, 4), (1, 0)])
                cs, ts = [], []
                for _ in range(m):
                    a, b = ch.subset(range(n), 2)
                    cs.append(a)
                    ts.append(b)
            (a, ma), (b, mb) = self.spell(ch, cs, n), self.spell(ch, ts, n)
            w, m = (a, b), (ma, mb)
        else:
            name = ch.pick(names[1])
            w, m = self.expr(ch, n, cap)
        return name, [ch.angle() for _ in range(rm.NPARAM.get(name, 0))], w, m

    def bad(self, ch, c):
        """An operation no backend can carry out, at least not on the present register."""
        n = max(c.n, 1)
        names = {"basis": BASIS, "free": ALL, "wide": WIDE}[c.kind]
        k = ch.draw(8)
        two, three, one = ch.pick(names[2]), ch.pick(names[3]), ch.pick(names[1])
        q, r = ch.draw(n), ch.draw(n)
        one = "x" if one == "i" else one            # nobody asks which qubits the identity acts on
        if k == 0:
            t, name = -n - 1 - ch.draw(2), one
        elif k == 1:
            t, name = (q, q - n), two
        elif k == 2:
            t, name = (slice(0, n), q), two
        elif k == 3:
            t, name = (q, -n - 1), two
        elif k == 4:
            t, name = ((q, r), q) if ch.draw(2) else (slice(None), slice(None, None, -1)) if n % 2 else (slice(None),) * 2, two
        elif k == 5:
            t, name = ch.pick([q, (q,), (q, r, q), slice(None), ((q, r),)]), two
        elif k == 6:
            t, name = ch.pick([(q, r), (q, r, r), (q, r, q), (q, q, r), (q - n, r, q), (q,), slice(0, 2)]), three
        else:
            t, name = slice(None, None, 0), one
        return name, [ch.angle() for _ in range(rm.NPARAM.get(name, 0))], t, t

    def put(self, c, g):
        name, par, w, m = g
        Op(name, par, w).apply_to(c.c)
        c.add(Op(name, par, m))

    # ---- circuits
    def do_new(self, ch, rec, _):
        kind = ch.weighted([(6, "free"), (3, "basis"), (2, "wide")])
        if kind == "wide":
            n = ch.pick([7, 9, 16, 64, 100, 257, 600])
        else:
            n = ch.weighted([(4, 3), (3, 4), (3, 2), (2, 5), (1, 1), (1, 6), (1, 0)])
        self.serial += 1
        c = Circ(f"c{self.serial}", self.Circuit(n), n, [], kind)
        if kind == "free":
            for q in range(n):
                self.put(c, ("u3", [ch.unit() * 3, ch.unit() * 6, ch.unit() * 6], q, q))
        rec.op(c.name, "=", f"Circuit({n})", kind)
        self.cs.append(c)

    def do_append(self, ch, rec, c):
        for _ in range(ch.range(1, 3)):
            if len(c.ops) > 40:
                return
            g = self.gate(ch, c)
            op = Op(g[0], g[1], g[3])
            if plain_or_none([op], max(c.n, rm.max_index(g[3]) + 1)) is None and ch.draw(8):
                continue              # refused ones are for do_poison, mostly
            self.put(c, g)
            rec.op(f"{c.name}.{op}")

    def do_poison(self, ch, rec, c):
        """A copy with an operation that must be refused, and perhaps made valid by growing."""
        self.serial += 1
        d = Circ(f"c{self.serial}", c.c.copy(), c.n, c.ops, c.kind)
        g = self.bad(ch, d)
        if ch.draw(2):
            self.use(ch, rec, d)
        self.put(d, g)
        rec.op(f"{d.name} = {c.name}.{d.ops[-1]}")
        self.use(ch, rec, d)
        if ch.draw(2) and d.n < MAXN:
            q = d.n
            self.put(d, ("x", [], q, q))
            rec.op(f"{d.name}.x[{q}]")
            self.use(ch, rec, d)
            if ch.draw(2):
                self.cs.append(d)

    def do_derive(self, ch, rec, c):
        k = ch.draw(6)
        g = self.cs[ch.draw(len(self.cs))]
        self.serial += 1
        name = f"c{self.serial}"
        if k == 0:
            d = Circ(name, c.c.copy(copy_backends=ch.draw(2) == 1), c.n, c.ops, c.kind)
        elif k == 1:
            d = Circ(name, copy.deepcopy(c.c), c.n, c.ops, c.kind)
        elif k == 2 and rm.is_unitary(c.ops) and c.kind != "wide":
            from .c01 import dagger_ops
            d = Circ(name, c.c.dagger(), c.n, dagger_ops(c.ops), c.kind)
        elif k == 3:
            # the same gates through an immutable Ops value
            from blueqat.experimental.operations import Ops
            ops, todo = Ops(c.n), []
            m = Circ(name, None, c.n, [], c.kind)
            for _ in range(ch.range(1, 4)):
                x = self.gate(ch, m)
                if x[0] in ("reset", "rxx", "ryy", "rzz", "cswap") or not hasattr(Ops, x[0]) and not hasattr(ops, x[0]):
                    continue
                op = getattr(ops, x[0])
                ops = (op(*x[1]) if x[1] else op)[x[2]]
                m.add(Op(x[0], x[1], x[3]))
                todo.append(m.ops[-1])
            check(ops.n_qubits == m.n, "width", "the Ops value %s has %d qubits, expected %d", todo, ops.n_qubits, m.n)
            m.c = ops.to_circuit()
            d = m
        elif len(c.ops) + len(g.ops) > 40 or ("wide" in (c.kind, g.kind) and c.kind != g.kind):
            return
        elif k == 4:
            d = Circ(name, c.c + g.c, max(c.n, g.n), c.ops + g.ops, "basis" if "basis" in (c.kind, g.kind) else c.kind)
        else:
            if g is c:
                return
            x = c.c
            x += g.c
            c.ops, c.n = c.ops + g.ops, max(c.n, g.n)
            if g.kind == "basis":
                c.kind = "basis"
            rec.op(f"{c.name} += {g.name}")
            self.use(ch, rec, c)
            return
        self.cs.append(d)
        rec.op(f"{name} = derived {k} from {c.name}, {g.name}: {d.ops[-4:]}")

    # ---- answers
    def way(self, ch, c):
        """A use of circuit c: (function, kind)."""
        x = c.c
        k = ch.draw(12)
        if c.kind == "wide" or k >= 9:
            return x.to_qasm, "qasm"
        if k == 8:
            return lambda: repr(x), "repr"
        if k == 7 and self.numba and c.n <= 4 and rm.is_unitary(c.ops) and c.n:
            from .. import fakenumba
            return lambda: x.run(backend=fakenumba.load().NumbaBackend()), "state"
        if not rm.is_unitary(c.ops):
            n = ch.range(1, 5)
            return lambda: x.run(shots=n), ("shots", n)
        if k == 6:
            return lambda: x.run(returns="statevector"), "state"
        return x.run, "state"

    def use(self, ch, rec, c, tries=None, where=""):
        f, kind = self.way(ch, c)
        try:
            v = f()
        except REFUSED as e:
            v = e
        rec.op(f"{kind} of {c.name}{where}")
        self.judge(c, v, kind, f"{kind} of {c.name}{where}")

    def judge(self, c, v, kind, what):
        ops = plain_or_none(c.ops, c.n)
        if kind == "repr":
            if isinstance(v, Exception):
                raise v
            if any(nested(o.targets) or o.targets == () or o.rev for o in c.ops):
                return
            d = eval(v.rstrip("."), {"Circuit": self.Circuit})           # noqa
            check(d.n_qubits == c.n, "printed-form", "%s has %d qubits, expected %d: %s", what, d.n_qubits, c.n, v)
            from ..opcmp import of_gate
            got = [of_gate(g) for g in d.ops]
            a = plain_or_none(got, c.n)
            check((a is None) == (ops is None) and (a is None or timelines(a) == timelines(ops)), "printed-form",
                  "%s is %s, the circuit is %s", what, v, c.ops)
            self.done += 1
            return
        if isinstance(v, Exception):
            if ops is not None:
                raise v
            self.done += 1
            return
        check(ops is not None, "not-refused", "%s: an answer although %s is not valid on %d qubits: %s", what, c.ops[-6:], c.n, short(v))
        if kind == "qasm":
            got, n = qasm.parse(v.replace("cu2(", "cu3(pi/2,"))
            check(n == c.n, "wrong-qubits", "%s has %d qubits, expected %d", what, n, c.n)
            if c.kind == "wide":
                same = timelines(got) == timelines(ops)
            else:
                a, b = qasm.meaning(got, n), qasm.meaning(ops, n)
                same = a is None or b is None or qasm.same_meaning(a, b)
            check(same, "wrong-qubits", "%s is %s, the circuit is %s", what, got, ops)
        elif kind == "state":
            check(rm.same_ray(np.asarray(v), rm.statevector(ops, c.n)), "wrong-qubits", "%s differs from that of %s", what, ops)
        else:
            br = rm.branches(ops, c.n)
            if br is None or not c.n:
                return
            keys = {b[2] for b in br}
            check(sum(v.values()) == kind[1] and all(k in keys for k in v), "wrong-qubits", "%s: %s, possible are %s", what, dict(v),
                  sorted(keys)[:6])
        self.done += 1

    def do_use(self, ch, rec, c):
        self.use(ch, rec, c)

    # ---- faults
    def do_indexfail(self, ch, rec, c):
        """An index object fails while a gate is added: the circuit stays as it was."""
        name, par, w, m = self.gate(ch, c)
        w = wrap(w)
        usergates.arm(ch.draw(4))
        try:
            Op(name, par, w).apply_to(c.c)
        except usergates.Injected:
            rec.fault("index-object-raises")
            rec.op(f"{c.name}.{Op(name, par, m)} fails")
        else:
            usergates.disarm()
            c.add(Op(name, par, m))
            rec.op(f"{c.name}.{c.ops[-1]}")
        finally:
            usergates.disarm()
        check(c.c.n_qubits == c.n and len(c.c.ops) == len(c.ops), "torn", "%s has %d qubits and %d operations after a failing index, "
              "expected %d and %d", c.name, c.c.n_qubits, len(c.c.ops), c.n, len(c.ops))

    def do_usefail(self, ch, rec, c):
        """An index object fails while the circuit runs."""
        f, kind = self.way(ch, c)
        usergates.arm(ch.draw(6))
        try:
            v = f()
        except usergates.Injected:
            rec.fault("index-object-raises")
            rec.op(f"{kind} of {c.name} fails")
            return
        except REFUSED as e:
            v = e
        finally:
            usergates.disarm()
        rec.op(f"{kind} of {c.name}")
        self.judge(c, v, kind, f"{kind} of {c.name}")

    def do_interrupt(self, ch, rec, c):
        f, kind = self.way(ch, c)
        k, v, fired = with_fault(rec, f, ch.pick(FAULTS), ch.loguniform(9))
        rec.op(f"{kind} of {c.name}", "interrupted" if fired else "finished")
        if k == "raised":
            if fired:
                return
            if not isinstance(v, REFUSED):
                raise v
        self.judge(c, v, kind, f"{kind} of {c.name}")

    def do_threads(self, ch, rec, c):
        sch = Scheduler(ch, rec, gap_bits=ch.pick([4, 7, 10]), attr_only=ch.draw(2) == 1)
        shared = [self.gate(ch, c) for _ in range(2)]
        jobs = []
        for t in range(ch.range(2, 3)):
            d = Circ(f"{c.name}/{t}", c.c.copy(), c.n, c.ops, c.kind)
            todo = [ch.pick(shared) if ch.draw(3) else self.gate(ch, d) for _ in range(ch.range(1, 3))]
            todo = [g for g in todo if plain_or_none([Op(g[0], g[1], g[3])], max(c.n, rm.max_index(g[3]) + 1)) is not None]
            e = Circ("", None, d.n, d.ops, d.kind)
            for g in todo:
                e.add(Op(g[0], g[1], g[3]))
            ways = [self.way(ch, c), self.way(ch, Circ("", d.c, e.n, e.ops, e.kind))]
            out = []

            def body(todo=todo, d=d, ways=ways, out=out):
                for j, (f, _) in enumerate(ways):
                    if j:
                        for g in todo:
                            self.put(d, g)
                    try:
                        out.append(f())
                    except REFUSED as x:
                        out.append(x)
            jobs.append((d, ways, out))
            sch.spawn(f"T{t}", body)
        sch.run()
        for task, (d, ways, out) in zip(sch.tasks, jobs):
            if task.exc is not None:
                raise task.exc
            self.judge(c, out[0], ways[0][1], f"in a thread, {ways[0][1]} of {c.name}")
            check(d.c.n_qubits == d.n, "width", "in a thread, %s has %d qubits, expected %d", d.name, d.c.n_qubits, d.n)
            self.judge(d, out[1], ways[1][1], f"in a thread, {ways[1][1]} of {d.name}")
        rec.op("threads:", [[w[1] for w in j[1]] for j in jobs])


def nested(t):
    return isinstance(t, tuple) and any(isinstance(x, tuple) for x in t)


def wrap(w):
    """The expression with all its integers as index objects."""
    if isinstance(w, tuple):
        return tuple(wrap(x) for x in w)
    if isinstance(w, slice):
        return slice(*[x if x is None else wrap(x) for x in (w.start, w.stop, w.step)])
    return w if isinstance(w, Idx) else Idx(int(w))


CHECK = C27()
