"""A simulated Qiskit installation and service: modules, jobs and results with scripted failures.

Counts come from the reference model applied to the submitted program."""
import importlib.abc
import importlib.machinery
import random
import sys
import types

from . import qasm, refmodel as rm


class ServiceError(Exception):
    pass


class State:
    def __init__(self):
        self.mode = "ok"            # ok | absent | incomplete | broken
        self.exc = None             # raised while importing, in mode broken
        self.fail = None            # (stage, exception) of the next call, then cleared
        self.calls = []             # every execute: dict
        self.stages = []
        self.rng = random.Random(1)
        self.reply = None           # optional: function(counts over (bits, qubit 0 first) -> reply dict)
        self.imports = 0


class Installation(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    """While installed, `import qiskit` finds this simulation (or its failure)."""

    def __init__(self, st):
        self.st = st

    def __enter__(self):
        self.saved = {k: v for k, v in sys.modules.items() if k == "qiskit" or k.startswith("qiskit.")}
        self.reset()
        sys.meta_path.insert(0, self)
        return self

    def __exit__(self, *a):
        sys.meta_path.remove(self)
        self.reset()
        sys.modules.update(self.saved)

    def reset(self):
        for k in [k for k in sys.modules if k == "qiskit" or k.startswith("qiskit.")]:
            del sys.modules[k]

    def set(self, mode, exc=None):
        self.st.mode, self.st.exc = mode, exc
        self.reset()

    # -- import protocol
    def find_spec(self, name, path, target=None):
        if name != "qiskit":
            return None
        if self.st.mode == "absent":
            raise ModuleNotFoundError("No module named 'qiskit'", name="qiskit")
        return importlib.machinery.ModuleSpec(name, self)

    def create_module(self, spec):
        return types.ModuleType("qiskit")

    def exec_module(self, m):
        st = self.st
        st.imports += 1
        if st.mode == "broken":
            raise st.exc
        if st.mode == "incomplete":
            return
        m.QuantumCircuit = lambda *a, **k: None
        m.QuantumCircuit = _circuit_class(st)
        m.execute = lambda circ, backend=None, shots=None, **kw: execute(st, circ, backend, shots, kw)
        m.Aer = Aer(st)


def step(st, stage):
    st.stages.append(stage)
    if st.fail is not None and st.fail[0] == stage:
        e = st.fail[1]
        st.fail = None
        raise e


def _circuit_class(st):
    class QuantumCircuit:
        def __init__(self, ops, n, text):
            self.dst = (ops, n, text)

        @classmethod
        def from_qasm_str(cls, text):
            step(st, "parse")
            ops, n = qasm.parse(text)
            return cls(ops, n, text)

        def draw(self, **kw):
            step(st, "draw")
            return ("drawing", self, kw)
    return QuantumCircuit


class FakeBackend:
    def __init__(self, name):
        self.name = name


class Aer:
    def __init__(self, st):
        self.st = st
        self.backend = FakeBackend("qasm_simulator")

    def get_backend(self, name):
        step(self.st, "get_backend")
        if name != "qasm_simulator":
            raise ServiceError(f"no backend {name}")
        return self.backend


class Job:
    def __init__(self, st, call):
        self.st, self.call = st, call

    def result(self):
        step(self.st, "result")
        return Result(self.st, self.call)


class Result:
    def __init__(self, st, call):
        self.st, self.call = st, call

    def get_counts(self):
        step(self.st, "get_counts")
        return dict(self.call["reply"])


def execute(st, circ, backend, shots, kw):
    step(st, "execute")
    ops, n, text = circ.dst
    if shots is None:
        shots = 1024
    if not any(o.name == "measure" for o in ops):
        counts = None
    else:
        counts = sample(st.rng, ops, n, shots)
    call = {"ops": ops, "n": n, "text": text, "backend": backend, "shots": shots, "kwargs": kw, "counts": counts}
    if counts is None:
        call["reply"] = {}
    elif st.reply is not None:
        call["reply"] = st.reply(counts)
    else:
        call["reply"] = {k[::-1]: v for k, v in counts.items()}
    st.calls.append(call)
    return Job(st, call)


def sample(rng, ops, n, shots):
    """Counts keyed by bits, qubit 0 first."""
    kp = rm.key_probs(rm.branches(ops, n, limit=4096))
    keys = sorted(kp)
    out = {}
    for k in rng.choices(keys, [kp[k] for k in keys], k=shots):
        out[k] = out.get(k, 0) + 1
    return out
