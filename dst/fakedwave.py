"""A simulated D-Wave cloud client and service with scripted failures."""
import importlib.abc
import importlib.machinery
import sys
import types

import numpy as np


class SolverError(Exception):
    pass


class ConnectionFails(OSError):
    pass


class State:
    def __init__(self):
        self.mode = "ok"          # ok | absent | incomplete
        self.fail = None          # (stage, exception) of the next call, then cleared
        self.nodes = [0]
        self.edges = []
        self.answer = {}          # qubit -> +-1
        self.form = list          # container of the listings
        self.sent = []            # submitted problems: (kind, linear, quadratic, reads)
        self.opened = []          # (endpoint, token, solver)
        self.stages = []
        self.pause = None         # called at each stage: a scheduling point
        self.array = False


def step(st, stage):
    st.stages.append(stage)
    if st.pause is not None:
        st.pause()
    if st.fail is not None and st.fail[0] == stage:
        e = st.fail[1]
        st.fail = None
        raise e


class Computation:
    def __init__(self, st, samples, energies):
        self._st, self._samples, self._energies = st, samples, energies

    def _get(self, v):
        step(self._st, "answer")
        return v

    @property
    def samples(self):
        return self._get(self._samples)

    @property
    def energies(self):
        return self._get(self._energies)

    @property
    def occurrences(self):
        return self._get([1] * len(self._samples))

    num_occurrences = occurrences

    def result(self):
        return self._get({"samples": self._samples, "energies": self._energies,
                          "num_occurrences": [1] * len(self._samples), "occurrences": [1] * len(self._samples)})

    def __getitem__(self, k):
        return self.result()[k]

    def wait(self, timeout=None):
        return True

    def done(self):
        return True


class Solver:
    def __init__(self, st, name):
        self._st = st
        self.name = self.id = name

    @property
    def nodes(self):
        step(self._st, "nodes")
        return self._st.form(self._st.nodes)

    variables = nodes

    @property
    def undirected_edges(self):
        step(self._st, "edges")
        return self._st.form(self._st.edges)

    @property
    def edges(self):
        step(self._st, "edges")
        return self._st.form([e for a, b in self._st.edges for e in ((a, b), (b, a))])

    couplers = edges

    @property
    def num_qubits(self):
        return max(self._st.nodes) + 1

    def _submit(self, kind, linear, quad, reads):
        st = self._st
        lin = dict(linear) if isinstance(linear, dict) else dict(enumerate(linear))
        lin = {int(k): float(v) for k, v in lin.items()}
        qd = {(int(a), int(b)): float(v) for (a, b), v in dict(quad).items()}
        step(st, "submit")
        nodes, edges = set(st.nodes), {frozenset(e) for e in st.edges}
        if any(k not in nodes for k in lin) or any(
                (frozenset(k) not in edges if k[0] != k[1] else k[0] not in nodes) for k in qd):
            raise SolverError("Problem graph incompatible with solver")
        st.sent.append((kind, lin, qd, reads))
        lo = 0 if kind == "qubo" else -1
        size = max(st.nodes) + 1
        samples = []
        for _ in range(max(1, reads or 1)):
            s = [3] * size
            for i in nodes:
                s[i] = 1 if st.answer[i] > 0 else lo
            samples.append(np.array(s, dtype=np.int8) if st.array else s)
        return Computation(st, np.array(samples) if st.array else samples, [0.0] * len(samples))

    def sample_ising(self, linear, quadratic, offset=0, label=None, num_reads=1, **params):
        return self._submit("ising", linear, quadratic, num_reads)

    def sample_qubo(self, qubo, offset=0, label=None, num_reads=1, **params):
        lin = {k[0]: v for k, v in qubo.items() if k[0] == k[1]}
        return self._submit("qubo", lin, {k: v for k, v in qubo.items() if k[0] != k[1]}, num_reads)


def _client(st):
    class Client:
        def __init__(self, endpoint=None, token=None, solver=None, **kw):
            step(st, "connect")
            self._at = (endpoint, token, solver)

        @classmethod
        def from_config(cls, config_file=None, profile=None, client=None, **kw):
            return cls(**kw)

        def get_solver(self, name=None, **kw):
            step(st, "solver")
            e, t, s = self._at
            st.opened.append((e, t, name if name is not None else s))
            return Solver(st, name if name is not None else s)

        def close(self):
            pass

        def __enter__(self):
            return self

        def __exit__(self, *a):
            return False
    return Client


class Installation(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    """While installed, `import dwave.cloud` finds this simulation."""

    def __init__(self, st):
        self.st = st

    def __enter__(self):
        self.saved = {k: v for k, v in sys.modules.items() if k.split(".")[0] == "dwave"}
        self.reset()
        sys.meta_path.insert(0, self)
        return self

    def __exit__(self, *a):
        sys.meta_path.remove(self)
        self.reset()
        sys.modules.update(self.saved)

    def reset(self):
        for k in [k for k in sys.modules if k.split(".")[0] == "dwave"]:
            del sys.modules[k]

    def set(self, mode):
        self.st.mode = mode
        self.reset()

    def find_spec(self, name, path, target=None):
        if name not in ("dwave", "dwave.cloud"):
            return None
        if self.st.mode == "absent":
            raise ModuleNotFoundError("No module named 'dwave'", name="dwave")
        return importlib.machinery.ModuleSpec(name, self, is_package=name in ("dwave", "dwave.cloud"))

    def create_module(self, spec):
        return types.ModuleType(spec.name)

    def exec_module(self, m):
        if m.__name__ == "dwave.cloud":
            if self.st.mode != "incomplete":
                m.Client = _client(self.st)
