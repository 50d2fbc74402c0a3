"""C23: symbolic unitaries are exact, whatever was asked before."""
import copy
import warnings

import numpy as np

from .. import gen, refmodel as rm
from ..core import check
from ..sched import FAULTS, Scheduler, with_fault
from .base import Check


class Op(rm.Op):
    """A model operation whose parameters may be symbolic."""
    __slots__ = ()

    def __repr__(self):
        p = "(" + ",".join(str(x) for x in self.params) + ")" if self.params else ""
        return f"{self.name}{p}{rm._tstr(self.targets)}{'~' if self.rev else ''}"


class C23(Check):
    ID = "C23"
    TECHNIQUE = ("seeded histories of growing, copied and inverted circuits with symbolic parameters, converted again and again, with "
                 "returned matrices overwritten, injected exceptions and scheduled threads; every matrix is evaluated at random parameter "
                 "values and compared with the model's matrix")
    LEVEL_NOTE = "Sampled programs, parameter values, histories and interleavings; matrices are compared up to one global phase, tolerance 1e-7."
    QUICK = 400
    THOROUGH = 20000
    RULE = ("1-4 circuits of 1-3 (rarely 4) qubits and up to about 14 gates with numeric and symbolic parameters (also named like the backend's "
            "own symbols, or alike, or close to earlier ones); 3-14 steps: append, copy, +, dagger, conversions through to_unitary, run and run_with, numeric runs in between, "
            "matrices kept and compared again later, returned matrices overwritten, interrupted conversions, 2-3 threads converting shared "
            "circuits. Non-trivial = two matrices compared.")
    REAL = ["blueqat.circuit", "blueqat.gate", "SympyBackend", "sympy", "NumPyBackend", "real threads"]
    STUB = ["thread scheduler"]
    ASSUMPTIONS = []

    def prepare(self):
        import sympy
        import sympy.physics.quantum  # noqa
        self.sympy = sympy
        self.symbols = [sympy.Symbol(n) for n in ("a", "theta", "phi", "lambd", "angle_in", "angle_out")] + [
            sympy.Symbol("t", real=True), sympy.Symbol("a", real=True), sympy.Symbol("t", positive=True)]
        self.values = {}

    def run(self, ch, rec):
        from blueqat import Circuit
        self.Circuit = Circuit
        self.rec = rec
        self.done = 0
        self.kept = []
        self.near = []
        self.vals = {s: 3 * ch.unit() + 0.01 if s.is_positive else -3 + 6 * ch.unit() for s in self.symbols}
        ch.tiny = ch.draw(5) == 4
        self.hs = []
        self.new(ch)
        warnings.simplefilter("ignore")
        for _ in range(ch.range(3, 14)):
            with ch.span("step"):
                h = self.hs[-1 - ch.draw(len(self.hs))]
                act = ch.weighted([(6, "convert"), (4, "append"), (2, "derive"), (2, "interrupt"), (1, "threads"), (1, "new"), (1, "use")])
                if act == "convert":
                    what, f = self.way(ch, h)
                    m = f()
                    rec.op(what)
                    self.judge(m, h, what)
                    j = ch.draw(3)
                    if j == 0:
                        self.kept = self.kept[-3:] + [(m, copy.copy(m), what)]
                    elif j == 1:
                        m[ch.draw(m.rows), ch.draw(m.cols)] = 7
                        if ch.draw(2):
                            m[:, 0] = m[:, 0] * 0
                        rec.fault("vandalised-matrix")
                elif act == "append":
                    self.append(ch, h)
                elif act == "new":
                    self.new(ch)
                elif act == "derive":
                    self.derive(ch, h)
                elif act == "use":
                    if not any(self.symbolic(o) for o in h.ops):
                        v = h.c.run(backend="numpy")
                        check(rm.same_ray(v, rm.statevector(h.ops, h.n)), "wrong-state", "%s runs to a wrong state", h.ops)
                        rec.op("run", h.ops)
                elif act == "interrupt":
                    what, f = self.way(ch, h)
                    kind, v, fired = with_fault(rec, f, ch.pick(FAULTS), ch.loguniform(9))
                    rec.op(what, "interrupted" if fired else "finished")
                    if kind == "raised" and not fired:
                        raise v
                    if kind == "ok":
                        self.judge(v, h, what)
                else:
                    self.threads(ch, rec, h)
                for x in self.hs:
                    check(len(x.c.ops) == len(x.ops) and x.c.n_qubits == x.n, "circuit-modified", "%s has %s", x.ops, x.c.ops)
                    check(all(len(g.params) == len(o.params) and all(bool(p == q) for p, q in zip(g.params, o.params))
                              for g, o in zip(x.c.ops, x.ops) if g.lowername == o.name),
                          "circuit-modified", "%s has parameters %s", x.ops, [g.params for g in x.c.ops])
                for m, snap, what in self.kept:
                    check(m == snap, "earlier-result-changed", "the matrix of %s, returned earlier, was changed", what)
                rec.state(act, [(x.n, [repr(o) for o in x.ops]) for x in self.hs])
        for h in self.hs:
            self.judge(h.c.to_unitary(), h, f"unitary of {h.ops} in the end")
        rec.nontrivial = self.done >= 2

    # ---- circuits
    def symbolic(self, o):
        return any(not isinstance(p, (int, float)) for p in o.params)

    def small(self, ops, n):
        """Expressions grow with every gate: keep them to a size sympy handles in a moment."""
        w = sum(len(rm.Op(o.name, [0.5] * len(o.params), o.targets).units(n)) *
                (1 if o.name in rm.ONE else 4 if o.name in ("cu2", "cu3", "rxx", "ryy") or o.name in rm.THREE else 2) for o in ops)
        return w <= {1: 14, 2: 11, 3: 8, 4: 5}[n]

    def param(self, ch, p):
        k = ch.draw(12)
        if k < 4:
            return p
        if k > 9 and self.near:        # almost, or quite, the one of an earlier gate
            q = self.near[-1 - ch.draw(len(self.near))]
            return q + ch.pick([0, 1e-5, -3e-4, 0.01]) if isinstance(q, (int, float)) else q + ch.pick([0, 0, 1, -0.001])
        s, t = ch.pick(self.symbols), ch.pick(self.symbols)
        if k < 7:
            return s
        return [lambda: 2 * s, lambda: s + t, lambda: -s / 3, lambda: s - 0.5, lambda: self.sympy.pi / 3, lambda: s * t,
                lambda: 2, lambda: 0, lambda: np.float64(0.3), lambda: self.sympy.Rational(1, 4)][ch.draw(10)]()

    def gates(self, ch, n, k):
        out = []
        for o in gen.program(ch, n, k, 0, 0):
            out.append(Op(o.name, [self.param(ch, p) for p in o.params], o.targets))
            self.near = (self.near + list(out[-1].params))[-5:]
        return out

    def new(self, ch):
        n = ch.weighted([(4, 2), (3, 1), (2, 3)]) if not ch.chance(40) else 4
        ops = self.gates(ch, n, ch.draw(4))
        while not self.small(ops, n):
            ops.pop()
        self.add(gen.build(self.Circuit, ops, n), ops, n, f"Circuit({n}) {ops}")

    def add(self, c, ops, n, note):
        from .c12 import Handle
        h = Handle("c", c, ops, n, None)
        self.hs = self.hs[-3:] + [h]
        self.rec.op(note)
        return h

    def append(self, ch, h):
        for o in self.gates(ch, h.n, ch.range(1, 2)):
            if h.n < 3 and ch.chance(100):
                o = Op("h", (), h.n)
            if not self.small(h.ops + [o], max(h.n, rm.max_index(o.targets) + 1)):
                return
            o.apply_to(h.c)
            h.ops = h.ops + [o]
            h.n = max(h.n, rm.max_index(o.targets) + 1)
            self.rec.op("append", o)

    def derive(self, ch, h):
        k = ch.draw(3)
        g = self.hs[ch.draw(len(self.hs))]
        if k == 0:
            self.add(h.c.copy() if ch.draw(2) else copy.deepcopy(h.c, {id(s): s for s in self.symbols}), h.ops, h.n, "copy")
        elif k == 1 and self.small(h.ops + g.ops, max(h.n, g.n)):
            self.add(h.c + g.c, h.ops + g.ops, max(h.n, g.n), "sum")
        elif k == 2 and all(o.name not in rm.THREE for o in h.ops):
            from .c01 import dagger_ops
            ops = [Op(o.name, o.params, o.targets, o.rev) for o in dagger_ops(h.ops)]
            self.add(h.c.dagger(), ops, h.n, "dagger")

    # ---- conversions
    def way(self, ch, h):
        c, k = h.c, ch.draw(4)
        kw = {"ignore_global": True} if ch.draw(6) == 5 else {}
        f = [lambda: c.to_unitary(**kw), lambda: c.run_with_sympy_unitary(**kw), lambda: c.run(backend="sympy_unitary", **kw),
             lambda: c.to_unitary(**kw)][k]
        return f"unitary of {h.ops} ({k}{', ignore_global' if kw else ''})", f

    def matrix(self, ops, n):
        num = [rm.Op(o.name, [self.value(p) for p in o.params], o.targets, o.rev) for o in ops]
        m = np.eye(2 ** n, dtype=complex)
        for o in num:
            for _, u, qs in o.units(n):
                m = np.array([rm.apply(col, n, u, qs) for col in m.T]).T
        return m

    def value(self, p):
        return float(p.subs(self.vals)) if hasattr(p, "subs") else float(p)

    def judge(self, m, h, what, ops=None, n=None):
        sp = self.sympy
        ops, n = (h.ops, h.n) if ops is None else (ops, n)
        check(isinstance(m, sp.MatrixBase) and m.shape == (2 ** n, 2 ** n), "shape", "%s is a %s of shape %s", what, type(m).__name__,
              getattr(m, "shape", None))
        memo = {s: self.vals[s] for o in ops for p in o.params for s in getattr(p, "free_symbols", ())}
        got = np.array([self.number(x, memo) for x in m], dtype=complex).reshape(m.shape)
        ref = self.matrix(ops, n)
        k = np.sqrt(2 ** n)
        check(got.shape == ref.shape and rm.same_ray(got.reshape(-1) / k, ref.reshape(-1) / k),
              "wrong-unitary", "%s evaluates to %s, expected %s", what, np.round(got, 4).tolist(), np.round(ref, 4).tolist())
        self.done += 1

    def number(self, e, memo):
        """The value of an expression at this run's parameter values."""
        if e in memo:
            return memo[e]
        sp = self.sympy
        check(not e.is_Symbol, "foreign-symbol", "a matrix contains the symbol %s", e)
        a = [self.number(x, memo) for x in e.args]
        if not a:
            v = complex(e)
        elif e.is_Add:
            v = sum(a)
        elif e.is_Mul:
            v = 1
            for x in a:
                v = v * x
        elif e.is_Pow:
            v = complex(a[0]) ** a[1]
        elif e.func in (sp.exp, sp.sin, sp.cos):
            v = {sp.exp: np.exp, sp.sin: np.sin, sp.cos: np.cos}[e.func](complex(a[0]))
        elif e.func in (sp.Abs, sp.re, sp.im, sp.conjugate, sp.arg):
            v = {sp.Abs: np.abs, sp.re: np.real, sp.im: np.imag, sp.conjugate: np.conj, sp.arg: np.angle}[e.func](complex(a[0]))
        else:
            v = complex(e.xreplace({s: sp.Float(x) for s, x in self.vals.items()}).evalf())
        memo[e] = v
        return v

    def threads(self, ch, rec, h):
        sch = Scheduler(ch, rec, gap_bits=ch.pick([4, 7, 10]), attr_only=ch.draw(2) == 1)
        jobs = []
        for t in range(ch.range(2, 3)):
            g = h if ch.draw(2) else ch.pick(self.hs)
            what, f = self.way(ch, g)
            out = []

            def body(f=f, out=out):
                out.append(f())
            jobs.append((what, g, out))
            sch.spawn(f"T{t}", body)
        sch.run()
        for task, (what, g, out) in zip(sch.tasks, jobs):
            if task.exc is not None:
                raise task.exc
            self.judge(out[0], g, "in a thread, " + what)
        rec.op("threads:", [j[0] for j in jobs])


CHECK = C23()
