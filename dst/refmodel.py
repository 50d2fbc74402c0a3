"""Small independent reference model of circuits: state vectors by matrices, and the
tree of measurement/reset outcomes.  Shares no code with blueqat."""
import cmath
import math

import numpy as np

I2 = np.eye(2, dtype=complex)
X = np.array([[0, 1], [1, 0]], dtype=complex)
Y = np.array([[0, -1j], [1j, 0]], dtype=complex)
Z = np.array([[1, 0], [0, -1]], dtype=complex)
H = np.array([[1, 1], [1, -1]], dtype=complex) / math.sqrt(2)


def ph(t):
    return np.diag([1, cmath.exp(1j * t)]).astype(complex)


def rot(P, t):
    return math.cos(t / 2) * I2 - 1j * math.sin(t / 2) * P


def u3(t, p, l):
    c, s = math.cos(t / 2), math.sin(t / 2)
    g = cmath.exp(-0.5j * (p + l))
    return g * np.array([[c, -cmath.exp(1j * l) * s],
                         [cmath.exp(1j * p) * s, cmath.exp(1j * (p + l)) * c]])


def ctrl(m):
    # basis |control, target>
    r = np.eye(4, dtype=complex)
    r[2:, 2:] = m
    return r


def rpp(P, t):
    return math.cos(t / 2) * np.eye(4) - 1j * math.sin(t / 2) * np.kron(P, P)


ONE = {
    "i": lambda: I2, "x": lambda: X, "y": lambda: Y, "z": lambda: Z, "h": lambda: H,
    "t": lambda: ph(math.pi / 4), "tdg": lambda: ph(-math.pi / 4),
    "s": lambda: ph(math.pi / 2), "sdg": lambda: ph(-math.pi / 2),
    "rx": lambda a: rot(X, a), "ry": lambda a: rot(Y, a), "rz": lambda a: rot(Z, a),
    "phase": ph, "r": ph,
    "u1": lambda l: rot(Z, l), "u2": lambda p, l: u3(math.pi / 2, p, l), "u3": u3,
}
SWAP = np.array([[1, 0, 0, 0], [0, 0, 1, 0], [0, 1, 0, 0], [0, 0, 0, 1]], dtype=complex)
TWO = {
    "cx": lambda: ctrl(X), "cnot": lambda: ctrl(X), "cy": lambda: ctrl(Y), "cz": lambda: ctrl(Z),
    "ch": lambda: ctrl(H),
    "crx": lambda a: ctrl(rot(X, a)), "cry": lambda a: ctrl(rot(Y, a)), "crz": lambda a: ctrl(rot(Z, a)),
    "cphase": lambda a: ctrl(ph(a)), "cr": lambda a: ctrl(ph(a)), "cu1": lambda a: ctrl(ph(a)),
    "cu2": lambda p, l: ctrl(u3(math.pi / 2, p, l)), "cu3": lambda t, p, l: ctrl(u3(t, p, l)),
    "swap": lambda: SWAP,
    "rxx": lambda a: rpp(X, a), "ryy": lambda a: rpp(Y, a), "rzz": lambda a: rpp(Z, a),
}


def _ccx():
    m = np.eye(8, dtype=complex)
    m[6:, 6:] = X
    return m


def _cswap():
    m = np.eye(8, dtype=complex)
    m[4:, 4:] = SWAP
    return m


THREE = {"ccx": _ccx, "toffoli": _ccx, "cswap": _cswap}
NPARAM = {k: f.__code__.co_argcount for d in (ONE, TWO, THREE) for k, f in d.items()}


def apply(state, n, m, qs):
    """Apply matrix m (basis order qs[0] most significant) to qubits qs; qubit k = bit k."""
    k = len(qs)
    a = state.reshape((2,) * n) if n else state
    axes = [n - 1 - q for q in qs]
    a = np.moveaxis(a, axes, range(k))
    shp = a.shape
    a = m @ a.reshape(2 ** k, -1)
    a = np.moveaxis(a.reshape(shp), range(k), axes)
    return np.ascontiguousarray(a).reshape(-1)


def qubits_of(tg, n):
    """Qubits a target expression addresses: Python indexing on range(n)."""
    r = range(n)
    if isinstance(tg, tuple):
        out = []
        for t in tg:
            out += qubits_of(t, n)
        return out
    if isinstance(tg, slice):
        return list(r[tg])
    return [r[int(tg)]]


class Op:
    """One circuit operation of the model."""
    __slots__ = ("name", "params", "targets", "rev")

    def __init__(self, name, params, targets, rev=False):
        self.name = name
        self.params = tuple(params)
        self.targets = targets
        self.rev = rev       # a two-qubit gate whose last pair comes first, as in a dagger

    def __repr__(self):
        p = "(" + ",".join("%.4g" % x for x in self.params) + ")" if self.params else ""
        return f"{self.name}{p}{_tstr(self.targets)}{'~' if self.rev else ''}"

    def inverse(self):
        """The inverse operation of a unitary gate."""
        n, p = self.name, self.params
        rev = (not self.rev if n in TWO and isinstance(self.targets, tuple) and
               any(isinstance(t, (slice, tuple)) for t in self.targets) else self.rev)
        if n in INVERSE:
            n = INVERSE[n]
        elif n in ("u2", "cu2"):
            n, p = n.replace("2", "3"), (-math.pi / 2, -p[1], -p[0])
        elif n in ("u3", "cu3"):
            p = (-p[0], -p[2], -p[1])
        else:
            p = [-x for x in p]
        return Op(n, p, self.targets, rev)

    def apply_to(self, circuit):
        if self.rev:
            circuit += self.inverse().apply_to(type(circuit)()).dagger()
            return circuit
        g = getattr(circuit, self.name)
        if self.params:
            g = g(*self.params)
        return g[self.targets]

    def key(self):
        return repr(self)

    def units(self, n):
        """(kind, matrix or None, qubits) list."""
        if self.name in ("measure", "m"):
            return [("m", None, (q,)) for q in qubits_of(self.targets, n)]
        if self.name == "reset":
            return [("r", None, (q,)) for q in qubits_of(self.targets, n)]
        if self.name in ONE:
            m = ONE[self.name](*self.params)
            return [("u", m, (q,)) for q in qubits_of(self.targets, n)]
        if self.name in TWO:
            m = TWO[self.name](*self.params)
            cs = qubits_of(self.targets[0], n)
            ts = qubits_of(self.targets[1], n)
            assert len(cs) == len(ts)
            pairs = list(zip(cs, ts))
            return [("u", m, p) for p in (pairs[::-1] if self.rev else pairs)]
        if self.name in THREE:
            return [("u", THREE[self.name](), tuple(qubits_of(self.targets, n)))]
        if self.name in EXTRA:
            return EXTRA[self.name](self, n)
        raise KeyError(self.name)


INVERSE = {"t": "tdg", "tdg": "t", "s": "sdg", "sdg": "s", "dstflaky": "dstflakydg", "dstflakydg": "dstflaky"}
EXTRA = {}       # user-defined gates of the workload


def _tstr(t):
    def one(x):
        if isinstance(x, slice):
            f = lambda v: "" if v is None else str(v)
            return f(x.start) + ":" + f(x.stop) + ("" if x.step is None else ":" + f(x.step))
        if isinstance(x, tuple):
            return "(" + ",".join(one(y) for y in x) + ")"
        return str(x)
    if isinstance(t, tuple):
        return "[" + ",".join(one(x) for x in t) + "]"
    return "[" + one(t) + "]"


def max_index(tg):
    if isinstance(tg, tuple):
        return max([max_index(t) for t in tg], default=-1)
    if isinstance(tg, slice):
        st = -1 if tg.start is None else tg.start
        sp = 0 if tg.stop is None else tg.stop
        return max(st, sp - 1)
    return tg


def n_qubits_of(ops, start=0):
    return max([start] + [max_index(o.targets) + 1 for o in ops])


def zero(n):
    v = np.zeros(2 ** n, dtype=complex)
    v[0] = 1
    return v


def statevector(ops, n):
    v = zero(n)
    for o in ops:
        for kind, m, qs in o.units(n):
            assert kind == "u"
            v = apply(v, n, m, qs)
    return v


def is_unitary(ops):
    return not any(o.name in ("measure", "m", "reset", "dstmeas") for o in ops)


def _mask(n, q):
    i = np.arange(2 ** n)
    return (i >> q) & 1 == 1


def branches(ops, n, limit=4096, eps=1e-12):
    """All outcomes: list of (probability, state, cregs string, resets string).

    None if there are more than `limit`."""
    br = [(1.0, zero(n), ("0",) * n, "")]
    for o in ops:
        for kind, m, qs in o.units(n):
            if kind == "u":
                br = [(p, apply(v, n, m, qs), c, r) for p, v, c, r in br]
                continue
            q = qs[0]
            one = _mask(n, q)
            nb = []
            for p, v, c, r in br:
                p1 = float(np.sum(np.abs(v[one]) ** 2))
                p0 = float(np.sum(np.abs(v[~one]) ** 2))
                tot = p0 + p1
                for bit, pb in ((0, p0 / tot), (1, p1 / tot)):
                    if pb <= eps:
                        continue
                    w = v.copy()
                    if bit == 0:
                        w[one] = 0
                    else:
                        w[~one] = 0
                    w /= math.sqrt(pb)
                    if kind == "m":
                        cc = list(c)
                        cc[q] = str(bit)
                        nb.append((p * pb, w, tuple(cc), r))
                    else:
                        if bit == 1:
                            w = apply(w, n, X, (q,))
                        nb.append((p * pb, w, c, r + str(bit)))
            br = _merge(nb) if len(nb) > 8 else nb
            if len(br) > limit:
                return None
    return [(p, v, "".join(c), r) for p, v, c, r in br]


def _merge(br):
    """Unite branches with the same recorded bits and the same state up to a phase."""
    d = {}
    for p, v, c, r in br:
        a = v[int(np.argmax(np.abs(v) > 1e-3))]
        k = (c, (np.round(v * (abs(a) / a), 7) + 0.0).tobytes())
        if k in d:
            q, w, _, r0 = d[k]
            d[k] = (q + p, w, c, r0)
        else:
            d[k] = (p, v, c, r)
    return list(d.values())


def key_probs(br):
    d = {}
    for p, _, c, _ in br:
        d[c] = d.get(c, 0.0) + p
    return d


def same_ray(a, b, tol=1e-7):
    """Equal up to a global phase (and both normalised)."""
    if a.shape != b.shape:
        return False
    if not (np.all(np.isfinite(a)) and np.all(np.isfinite(b))):
        return False
    na, nb = np.linalg.norm(a), np.linalg.norm(b)
    if abs(na - 1) > tol or abs(nb - 1) > tol:
        return False
    ov = np.vdot(b, a)
    if abs(ov) < 1e-12:
        return False
    return bool(np.max(np.abs(a - b * (ov / abs(ov)))) < tol)


def distribution(v, qubits):
    """Joint distribution of the qubits (in the given order) in state v."""
    d = {}
    for i, a in enumerate(v):
        p = abs(a) ** 2
        if p > 1e-15:
            k = tuple((i >> q) & 1 for q in qubits)
            d[k] = d.get(k, 0.0) + p
    return d
