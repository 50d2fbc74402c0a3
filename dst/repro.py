"""Scripts of blueqat calls that are executed in several processes and compared (C06).

`main` is a server: it holds a blueqat imported under its own hash seed and executes each
script in a forked child.  The transport is a pair of pipes/sockets owned by the check.
"""
import json
import os
import random
import socket
import sys

import numpy as np

from . import refmodel as rm
from .refmodel import Op


def hexf(x):
    x = complex(x)
    return f"{x.real.hex()},{x.imag.hex()}"


def canon(v):
    """An exact, type-light rendering of a result."""
    if isinstance(v, np.ndarray):
        return [canon(x) for x in v]
    if isinstance(v, dict):
        return {"dict": sorted([json.dumps(canon(k)), canon(x)] for k, x in v.items())}
    if isinstance(v, (tuple, list)):
        return [canon(x) for x in v]
    if isinstance(v, (bool, np.bool_)):
        return bool(v)
    if isinstance(v, (int, np.integer)):
        return int(v)
    if isinstance(v, (float, complex, np.floating, np.complexfloating)):
        return hexf(v)
    return v if isinstance(v, str) or v is None else repr(v)


def hamiltonian(spec):
    from blueqat import pauli
    h = 0.0
    for coeff, term in spec:
        t = 1.0 * pauli.I
        for p, q in term:
            t = t * getattr(pauli, p)[q]
        h = h + coeff * t
    return h.to_expr() if hasattr(h, "to_expr") else pauli.Expr.from_number(h)


def _dec(t):
    if isinstance(t, dict):
        return slice(*t["slice"])
    return tuple(_dec(x) for x in t) if isinstance(t, list) else t


def _enc(t):
    if isinstance(t, slice):
        return {"slice": [t.start, t.stop, t.step]}
    return [_enc(x) for x in t] if isinstance(t, tuple) else t


def ops_from(spec):
    return [Op(name, params, _dec(t), *r) for name, params, t, *r in spec]


def op_spec(o):
    return [o.name, list(o.params), _enc(o.targets)] + ([True] if o.rev else [])


def circuit(spec, n):
    from blueqat import Circuit
    c = Circuit(n)
    for o in ops_from(spec):
        o.apply_to(c)
    return c


def ansatz_class():
    from blueqat import Circuit, vqe

    class RyAnsatz(vqe.AnsatzBase):
        def get_circuit(self, params):
            c = Circuit(self.n_qubits)
            for i, p in enumerate(params):
                c.ry(p)[i % self.n_qubits]
                if self.n_qubits > 1:
                    c.cx[i % self.n_qubits, (i + 1) % self.n_qubits]
            return c
    return RyAnsatz


def sampler(kind, shots):
    from blueqat import vqe
    if kind == "exact":
        return vqe.non_sampling_sampler
    if kind == "vector":
        return vqe.get_state_vector_sampler(shots)
    if kind == "measure":
        return vqe.get_measurement_sampler(shots)
    return None


def step(st, circuits):
    kind = st["do"]
    if kind == "run":
        return circuits[st["c"]].run(**st["kw"])
    if kind == "append":
        for o in ops_from(st["ops"]):
            o.apply_to(circuits[st["c"]])
        return None
    if kind == "copy":
        circuits.append(circuits[st["c"]].copy())
        return None
    if kind == "qasm":
        return circuits[st["c"]].to_qasm()
    if kind == "sample":
        return sampler(st["s"], st["shots"])(circuits[st["c"]], st["meas"])
    if kind == "vqe":
        from blueqat import vqe
        h = hamiltonian(st["h"])
        a = vqe.QaoaAnsatz(h, st["p"]) if st["qaoa"] else ansatz_class()(h, st["p"])
        m = vqe.get_scipy_minimizer(method=st["method"], options={"maxiter": 3, **st.get("opt", {})})
        r = vqe.Vqe(a, m, sampler(st["s"], st["shots"])).run()
        return [r.params, r.get_probs(), r.most_common(3)]
    if kind in ("sa", "sqa"):
        from blueqat import wq
        o = wq.Opt()
        o.ite = st["ite"]
        o.R = 0.5
        o.tro = 3
        o.qubo = np.array(st["q"]) if st["array"] else st["q"]
        if kind == "sqa":
            o.Gf = 1.0
            return [o.sqa(), o.E]
        r = [o.run(shots=st["shots"]), o.E]
        if st["again"]:
            r += [o.run(shots=1), o.E]
        return r
    if kind == "qaoa":
        from blueqat import wq
        o = wq.Opt()
        o.qubo = st["q"]
        r = o.qaoa(step=1)
        return [r.params, r.most_common(2)]
    raise AssertionError(kind)


def seed(n):
    random.seed(n)
    np.random.seed(n & 0xffffffff)


_keep = []


def noise(spec):
    """Unrelated work before the script: other circuits, annealing, garbage, random draws."""
    from blueqat import wq
    for k in spec:
        if k["n"] == "circuit":
            c = circuit(k["ops"], k["q"])
            c.make_cache()
            c.run(shots=k["shots"])
            if k["keep"]:
                _keep.append(c)
        elif k["n"] == "garbage":
            _keep.append([object() for _ in range(k["k"])])
        elif k["n"] == "draws":
            for _ in range(k["k"]):
                random.random()
            np.random.rand(k["k"])
        elif k["n"] == "anneal":
            o = wq.Opt()
            o.ite = 3
            o.R = 0.3
            o.qubo = k["q"]
            o.run()
        elif k["n"] == "vqe":
            step(k["st"], [])
        elif k["n"] == "chdir":
            os.chdir("/")


def execute(job):
    try:
        noise(job["noise"])
    except Exception:  # noqa
        pass
    s = job["script"]
    circuits = [circuit(o, n) for o, n in s["circuits"]]
    for i in job["warm"]:
        circuits[i % len(circuits)].make_cache()
    seed(s["seed"])
    out = []
    for st in s["steps"]:
        try:
            out.append(canon(step(st, circuits)))
        except Exception as e:  # noqa
            out.append(f"raised {type(e).__name__}")
    return out


def serve(path):
    sock = socket.socket(socket.AF_UNIX)
    sock.bind(path)
    sock.listen(64)
    print("ready", flush=True)
    import signal
    signal.signal(signal.SIGCHLD, signal.SIG_IGN)
    while True:
        conn, _ = sock.accept()
        pid = os.fork()
        if pid:
            conn.close()
            continue
        try:
            sock.close()
            f = conn.makefile("rwb")
            job = json.loads(f.readline())
            devnull = os.open(os.devnull, os.O_WRONLY)
            os.dup2(devnull, 1)
            f.write(json.dumps(execute(job)).encode() + b"\n")
            f.flush()
        except BaseException:
            import traceback
            traceback.print_exc()
            os._exit(1)
        os._exit(0)


if __name__ == "__main__":
    from . import env
    env.setup()
    import blueqat.vqe, blueqat.wq, scipy.optimize  # noqa
    serve(sys.argv[1])
