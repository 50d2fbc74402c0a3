"""Hamiltonians, parametrised circuits and reference expectation values for the VQE checks."""
import numpy as np

from . import gen, refmodel as rm
from .refmodel import Op

PAULI = {"I": rm.I2, "X": rm.X, "Y": rm.Y, "Z": rm.Z}


def ham_spec(ch, n, diag=False, const=True):
    """[(coeff, [(pauli, qubit), ...])] with distinct terms."""
    out, seen = [], set()
    for _ in range(ch.range(1, 5)):
        with ch.span("term"):
            if const and ch.draw(6) == 5:
                t = ()
            else:
                qs = sorted(ch.subset(range(n), ch.range(1, n)))
                t = tuple(("Z" if diag else ch.pick("ZXY"), q) for q in qs)
            c = ch.pick([1.0, -1.0, 0.5, 2.0, None])
            if c is None:
                c = round(ch.unit() * 6 - 3, 4) or 0.25
            if t not in seen:
                seen.add(t)
                out.append((c, t))
    return out


def ham_expr(spec):
    from blueqat import pauli
    h = pauli.Expr.zero()
    for c, t in spec:
        if not t:
            h = h + pauli.Expr.from_number(c)
            continue
        term = None
        for p, q in t:
            x = getattr(pauli, p)[q]
            term = x if term is None else term * x
        h = h + c * term
    return h


def ham_n(spec):
    return max([q for _, t in spec for _, q in t] + [-1]) + 1


def expectation(spec, v, n):
    e = 0.0
    for c, t in spec:
        w = v
        for p, q in t:
            w = rm.apply(w, n, PAULI[p], (q,))
        e += c * float(np.vdot(v, w).real)
    return e


def scale(spec):
    return 1 + sum(abs(c) for c, _ in spec)


class Template:
    """A parametrised circuit: operations whose angles are affine in the parameters."""

    def __init__(self, ch, n, user=0):
        self.n = n
        self.items = []
        k = 0
        for _ in range(ch.range(1, 7)):
            with ch.span("item"):
                if ch.draw(3) < 2:
                    name = ch.pick(["ry", "rx", "rz", "phase", "u1"])
                    self.items.append((name, k, ch.pick([1.0, 2.0, -0.5]), ch.pick([0.0, 0.3]), gen.targets1(ch, n)))
                    k += 1 if ch.draw(4) < 3 else 0
                else:
                    self.items.append(gen.any_op(ch, n, 0, 0, None, user))
        self.n_params = max([i[1] for i in self.items if isinstance(i, tuple)], default=-1) + 1

    def ops(self, params):
        out = []
        for i in self.items:
            if isinstance(i, tuple):
                name, k, a, b, t = i
                out.append(Op(name, (a * float(params[k]) + b,), t))
            else:
                out.append(i)
        return out

    def __str__(self):
        return " ".join(f"{i[0]}({i[2]}*p{i[1]}+{i[3]}){rm._tstr(i[4])}" if isinstance(i, tuple) else str(i)
                        for i in self.items)


def make_ansatz_class():
    from blueqat import Circuit, vqe

    class TemplateAnsatz(vqe.AnsatzBase):
        def __init__(self, hamiltonian, template, base=None, backend=None):
            super().__init__(hamiltonian, template.n_params)
            self.n_qubits = max(self.n_qubits, template.n)
            self.template = template
            self.base = base            # a circuit every evaluation starts from
            self.backend = backend

        def get_circuit(self, params):
            c = self.base.copy() if self.base is not None else Circuit(self.n_qubits)
            for o in self.template.ops(params):
                o.apply_to(c)
            if self.backend:
                c.set_default_backend(self.backend)
            return c
    return TemplateAnsatz
