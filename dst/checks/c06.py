"""C06: results are reproducible from the random seed alone."""
import atexit
import json
import os
import shutil
import signal
import socket
import subprocess
import sys
import tempfile

from .. import env, gen, repro
from ..core import HarnessError, check, short
from .base import Check

HASH_SEEDS = ["0", "1", "42", "1234", "99999"]
METHODS = [("Powell", {}), ("COBYLA", {}), ("Nelder-Mead", {}), ("BFGS", {})]


class C06(Check):
    ID = "C06"
    TECHNIQUE = ("the same seeded script is executed in fresh processes under different hash seeds, after different "
                 "unrelated work and cache warm-ups, and the exact results are compared")
    LEVEL_NOTE = ("Sampled scripts; five hash seeds, three executions per script. Address-space randomisation is "
                  "turned off where the system allows it.")
    QUICK = 500
    THOROUGH = 12000
    RULE = ("scripts of 1-8 steps (circuit runs with any options, appended gates, copies, the three samplers, VQE with "
            "own or QAOA ansatz and four SciPy methods, simulated and simulated quantum annealing, Opt.qaoa); each is "
            "executed by three interpreters with different hash seeds, one untouched, the others after unrelated work "
            "(circuits kept alive, annealing, VQE, garbage, drawn random numbers, another working directory) and cache "
            "warm-ups, then seeding both generators; every step's result must be bit-identical. Non-trivial = the "
            "script has a step that uses randomness.")
    REAL = ["blueqat (all modules used)", "scipy.optimize", "fresh interpreter processes"]
    STUB = ["random seeds"]
    ASSUMPTIONS = ["NumPy and SciPy are deterministic on one machine with one thread"]
    dir = None

    def prepare(self):
        if self.dir:
            return
        self.dir = tempfile.mkdtemp(prefix="dst-c06-")
        self.owner = os.getpid()
        self.procs = []
        for hs in HASH_SEEDS:
            e = dict(os.environ, PYTHONHASHSEED=hs)
            p = subprocess.Popen([sys.executable, "-m", "dst.repro", self.path(hs)], cwd=env.VERIF, env=e,
                                 stdout=subprocess.PIPE, text=True, start_new_session=True)
            self.procs.append(p)
        atexit.register(self.stop)
        for p in self.procs:
            if p.stdout.readline().strip() != "ready":
                raise HarnessError("a process server did not start")

    def path(self, hs):
        return os.path.join(self.dir, f"s{hs}")

    def stop(self):
        if self.dir is None or os.getpid() != self.owner:
            return
        for p in self.procs:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            p.wait()
        shutil.rmtree(self.dir, ignore_errors=True)
        self.dir = None

    def ask(self, hs, job):
        s = socket.socket(socket.AF_UNIX)
        s.settimeout(80)
        s.connect(self.path(hs))
        f = s.makefile("rwb")
        f.write(json.dumps(job).encode() + b"\n")
        f.flush()
        line = f.readline()
        if not line:
            raise HarnessError("a process server gave no answer")
        return json.loads(line)

    def qubo(self, ch):
        n = ch.range(2, 4)
        return [[round(ch.unit() * 4 - 2, 3) if j >= i else 0.0 for j in range(n)] for i in range(n)]

    def ham(self, ch, n, diag=False):
        h = []
        for _ in range(ch.range(1, 5)):
            qs = sorted(ch.subset(range(n), ch.range(1, n)))
            h.append([round(ch.unit() * 4 - 2, 3), [["Z" if diag else ch.pick("ZXY"), q] for q in qs]])
        return h

    def vqe_step(self, ch):
        n = ch.range(2, 3)
        qaoa = ch.draw(2) == 1
        meth, opt = ch.pick(METHODS)
        return {"do": "vqe", "h": self.ham(ch, n, qaoa), "p": (ch.range(1, 2) if ch.draw(4) else ch.range(3, 5)) if qaoa
                else (ch.range(1, 3) if ch.draw(4) else ch.range(4, 9)),
                "qaoa": qaoa, "method": meth, "opt": opt, "s": ch.pick(["none", "exact", "vector", "measure"]),
                "shots": 30}

    def step(self, ch, circuits):
        k = ch.draw(14)
        i = ch.draw(len(circuits))
        n = circuits[i][1]
        if k < 5:
            kw = ch.pick([{}, {"shots": 20}, {"shots": 7, "returns": "statevector_and_shots"},
                          {"ignore_global": True}, {"shots": 60}])
            return {"do": "run", "c": i, "kw": kw}
        if k == 5:
            return {"do": "append", "c": i, "ops": [repro.op_spec(o) for o in gen.program(ch, n, 2)]}
        if k == 6:
            circuits.append(list(circuits[i]))
            return {"do": "copy", "c": i}
        if k < 9:
            return {"do": "sample", "c": i, "s": ch.pick(["measure", "vector", "exact"]), "shots": ch.pick([20, 200]),
                    "meas": ch.subset(range(n), ch.range(1, n))}
        if k < 11:
            return self.vqe_step(ch)
        if k == 11:
            return {"do": "sqa", "q": self.qubo(ch), "ite": ch.range(1, 20), "array": ch.draw(2) == 1}
        if k == 12 and ch.draw(3) == 2:
            return {"do": "qaoa", "q": self.qubo(ch)}
        return {"do": "sa", "q": self.qubo(ch), "ite": ch.range(1, 20), "shots": ch.range(1, 3),
                "array": ch.draw(2) == 1, "again": ch.draw(2) == 1}

    def noise(self, ch):
        out = []
        for _ in range(ch.range(1, 4)):
            k = ch.draw(6)
            if k < 2:
                n = ch.range(1, 4)
                out.append({"n": "circuit", "q": n, "ops": [repro.op_spec(o) for o in gen.program(ch, n, ch.range(1, 6))],
                            "shots": ch.range(1, 5), "keep": ch.draw(2) == 1})
            elif k == 2:
                out.append({"n": "garbage", "k": ch.range(1, 3000)})
            elif k == 3:
                out.append({"n": "draws", "k": ch.range(1, 50)})
            elif k == 4:
                out.append({"n": "anneal", "q": self.qubo(ch)})
            else:
                out.append({"n": "vqe", "st": self.vqe_step(ch)} if ch.draw(2) else {"n": "chdir"})
        return out

    def run(self, ch, rec):
        circuits = []
        for _ in range(ch.range(1, 2)):
            n = ch.range(1, 4)
            ops = gen.program(ch, n, ch.range(1, 7), ch.pick([0, 250]), 80)
            circuits.append(([repro.op_spec(o) for o in ops], n))
        initial = list(circuits)
        steps = []
        for _ in range(ch.range(1, 8)):
            with ch.span("step"):
                steps.append(self.step(ch, circuits))
        script = {"circuits": initial, "steps": steps, "seed": ch.bytes_seed()}
        for i, (ops, n) in enumerate(initial):
            rec.ev(f"circuit {i} on {n} qubits:", *repro.ops_from(ops))
        hs = ch.subset(HASH_SEEDS, 3)
        jobs = [{"script": script, "noise": [], "warm": []}]
        for _ in range(2):
            with ch.span("noise"):
                jobs.append({"script": script, "noise": self.noise(ch),
                             "warm": [ch.draw(2)] if ch.draw(2) else []})
        for h, j in zip(hs, jobs):
            rec.ev("process with hash seed", h, "noise", [x["n"] for x in j["noise"]], "warm", j["warm"])
        rec.fault("process-restart", 3)
        rec.fault("unrelated-work", 2)
        outs = [self.ask(h, j) for h, j in zip(hs, jobs)]
        for i, st in enumerate(steps):
            rec.op(short(json.dumps(st), 160))
            a = outs[0][i]
            for h, o, j in zip(hs[1:], outs[1:], jobs[1:]):
                check(o[i] == a, "not-reproducible",
                      "step %d (%s) gave %s in a fresh process with hash seed %s, and %s with hash seed %s after %s, warm-up %s",
                      i, short(json.dumps(st), 200), short(repr(a), 160), hs[0], short(repr(o[i]), 160), h,
                      [x["n"] for x in j["noise"]], j["warm"])
            rec.state(json.dumps(st))
        rec.probe("raised-step", sum(1 for x in outs[0] if isinstance(x, str) and x.startswith("raised")))
        rec.nontrivial = any(s["do"] in ("run", "sample", "vqe", "sa", "sqa", "qaoa") for s in steps)


CHECK = C06()
