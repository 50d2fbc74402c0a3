"""C18: the problem a D-Wave solver receives is the given QUBO."""
import numpy as np

from .. import annealref as ar, fakedwave, gen
from ..core import check
from ..sched import FAULTS, Scheduler, with_fault
from .base import Check


class C18(Check):
    ID = "C18"
    TECHNIQUE = ("seeded histories against a simulated D-Wave service whose listings come in random order and whose stages "
                 "fail on schedule; every submitted problem's energies are compared with the QUBO's on all states")
    LEVEL_NOTE = "Sampled QUBOs (1-6 variables), solver graphs and fault sequences; the service is a stub."
    QUICK = 6000
    THOROUGH = 100000
    RULE = ("1-8 steps on 1-2 optimisers: set a QUBO, change the configured service, submit to a solver with random extra qubits "
            "and couplers (around and among the problem's) listed in random order as list, tuple, set or array, answers as "
            "lists or arrays; missing or incomplete client library, failing connection, solver lookup, listings, submission "
            "and answer, interrupts at random opcodes, each followed by a retry; local annealing in between; two threads. "
            "Non-trivial = a problem was judged after a failure, a change or another thread's submission.")
    STATES = "distinct (QUBO, answer) pairs"
    REAL = ["blueqat.wq.Opt"]
    STUB = ["dwave.cloud client and service", "thread scheduler"]
    ASSUMPTIONS = ["undirected_edges lists each pair once, lower qubit first, as the client library documents; samples hold one "
                   "value per qubit of the device"]

    def run(self, ch, rec):
        from blueqat import wq
        self.st = fakedwave.State()
        self.judged = self.before = 0
        with fakedwave.Installation(self.st) as inst:
            self.inst = inst
            opts = []
            for _ in range(ch.range(1, 2)):
                o = {"opt": wq.Opt(), "q": None, "at": None}
                self.set_qubo(ch, rec, o)
                opts.append(o)
            for _ in range(gen.size(ch, 1, 8)):
                with ch.span("step"):
                    o = ch.pick(opts)
                    act = ch.weighted([(5, "submit"), (2, "set_qubo"), (2, "configure"), (4, "failure"), (2, "interrupt"),
                                       (1, "anneal"), (1, "missing"), (1, "threads")])
                    getattr(self, act)(ch, rec, opts if act == "threads" else o)
                    for x in opts:
                        self.unchanged(x)
            for o in opts:
                self.submit(ch, rec, o)
        rec.nontrivial = self.judged > 0 and self.before > 0

    def unchanged(self, o):
        check(ar.same_qubo(o["opt"].qubo, o["q"]), "qubo-changed", "the QUBO became %s, was %s", o["opt"].qubo, o["q"])
        check(ar.same_qubo(o["src"], o["q"]), "input-changed", "the given QUBO became %s, was %s", o["src"], o["q"])

    def set_qubo(self, ch, rec, o):
        q = ar.qubo_spec(ch, 6)
        if ch.draw(4) == 3:
            q = ar.scaled(q, ch.pick(ar.SCALES))
        if ch.draw(3) == 2:
            for r in q:
                for j in range(len(r)):
                    if ch.draw(2):
                        r[j] = 0.0
        o["q"], o["src"] = q, ar.given(ch, q)
        o["opt"].qubo = o["src"]
        self.before += 1
        rec.op("QUBO", q)

    def configure(self, ch, rec, o):
        k = ch.draw(1000)
        opt = o["opt"]
        opt.dwaveendpoint, opt.dwavetoken, opt.dwavesolver = f"https://dst{k}.example/sapi", f"token{k}", f"solver{k}"
        rec.op("service", k)

    def anneal(self, ch, rec, o):
        o["opt"].Ts, o["opt"].R, o["opt"].ite = 1.0, 0.5, 5
        gen.seed_all(ch.bytes_seed())
        if ch.draw(3) == 2:
            o["opt"].tro, o["opt"].Gs = 2, 1.0
            o["opt"].sqa()
        else:
            o["opt"].run(shots=ch.range(1, 2))
        rec.op("anneal locally")
        self.before += 1

    # ---- the service
    def device(self, ch, qs):
        """A device that offers what the problems in qs need, among other things."""
        st = self.st
        n = max(len(q) for q in qs)
        extra = ch.draw(5)
        nodes = list(range(n)) + [n + 1 + 2 * i + ch.draw(2) for i in range(extra)]
        need = {(i, j) for q in qs for i in range(len(q)) for j in range(i + 1, len(q)) if q[i][j] != 0}
        edges = sorted(need)
        for i, a in enumerate(nodes):
            for b in nodes[i + 1:]:
                if (a, b) not in need and ch.draw(3) == 0:
                    edges.append((a, b))
        st.nodes = [nodes[i] for i in ch.perm(len(nodes))]
        st.edges = [edges[i] for i in ch.perm(len(edges))]
        st.form = [list, tuple, set, lambda x: dict.fromkeys(x).keys()][ch.draw(4)]
        st.array = ch.draw(3) == 2
        st.answer = {i: 1 if ch.draw(2) else -1 for i in nodes}

    def submit(self, ch, rec, o):
        self.device(ch, [o["q"]])
        self.st.sent.clear()
        self.st.opened.clear()
        got = o["opt"].dw()
        self.judge(rec, o, got)

    def judge(self, rec, o, got, mine=None):
        st, q = self.st, o["q"]
        sent = st.sent if mine is None else mine
        rec.op("sent", sent, "->", list(got))
        rec.probe("submitted")
        check(len(sent) == 1, "submissions", "%d problems were submitted", len(sent))
        if mine is None:
            opt = o["opt"]
            at = (opt.dwaveendpoint, opt.dwavetoken, opt.dwavesolver)
            check(st.opened == [at], "wrong-service", "opened %s, configured is %s", st.opened, at)
        self.same_problem(q, sent[0])
        n = len(q)
        want = [1 if st.answer[i] > 0 else 0 for i in range(n)]
        check(len(got) == n and [int(b) for b in got] == want and all(b in (0, 1) for b in got), "wrong-answer",
              "the solver answered %s for the problem's variables, dw() returned %s", want, list(got))
        rec.state(q, want)
        self.judged += 1

    def same_problem(self, q, p):
        kind, lin, quad, _ = p
        n = len(q)
        used = set(lin) | {k for e in quad for k in e}
        check(used <= set(range(n)) or all(v == 0 for k, v in lin.items() if k >= n) and
              all(v == 0 for k, v in quad.items() if max(k) >= n), "foreign-terms",
              "the problem with %d variables was sent with terms on %s", n, sorted(used))
        diff = []
        for b in ar.states(n):
            s = b if kind == "qubo" else [2 * x - 1 for x in b]
            e = sum(v * s[i] for i, v in lin.items() if i < n)
            e += sum(v * s[i] * s[j] for (i, j), v in quad.items() if i < n and j < n)
            diff.append(e - ar.energy(q, b))
        scale = 1e-9 + max(abs(v) for r in q for v in r)
        check(max(diff) - min(diff) < 1e-9 * scale * n * n, "wrong-problem",
              "QUBO %s was sent as %s %s %s: energies differ by between %.6g and %.6g", q, kind, lin, quad, min(diff), max(diff))

    # ---- faults
    def failure(self, ch, rec, o):
        for _ in range(ch.range(1, 3)):
            self.device(ch, [o["q"]])
            stage = ch.pick(["connect", "submit", "answer", "solver", "nodes", "edges"])
            exc = ch.pick([fakedwave.ConnectionFails("no route"), fakedwave.SolverError("solver offline"), TimeoutError("timed out"),
                           KeyError("answer"), RuntimeError("bad state"), ValueError("bad answer"), AttributeError("nodes"),
                           StopIteration(), ImportError("late"), ConnectionResetError("reset"), BrokenPipeError("pipe"),
                           OSError("io"), EOFError("eof"), PermissionError("token"), IndexError("index"),
                           AssertionError("assert"), NotImplementedError("later"), Exception("other")])
            self.st.fail = (stage, exc)
            self.st.sent.clear()
            try:
                got = o["opt"].dw()
            except Exception as e:  # noqa
                if self.st.fail is not None:
                    raise
                rec.op(f"{stage} fails:", type(e).__name__)
                rec.fault(f"{stage}-failure")
            else:
                # only an answer that did not need this stage may come back
                check(self.st.fail is not None, "failure-hidden", "%s failed with %r, dw() returned %s", stage, exc, got)
                self.st.fail = None
            self.st.fail = None
            for p in self.st.sent:
                self.same_problem(o["q"], p)
            self.unchanged(o)
        self.before += 1
        self.meanwhile(ch, rec, o)
        self.submit(ch, rec, o)

    def meanwhile(self, ch, rec, o):
        """What a user may do between a failure and the next try."""
        k = ch.draw(6)
        if k == 3:
            self.set_qubo(ch, rec, o)
        elif k == 4:
            self.configure(ch, rec, o)
        elif k == 5:
            self.anneal(ch, rec, o)

    def missing(self, ch, rec, o):
        mode = ch.pick(["absent", "incomplete"])
        self.inst.set(mode)
        try:
            got = o["opt"].dw()
        except ImportError as e:
            rec.op(f"client library {mode}:", type(e).__name__)
            rec.fault("library-" + mode)
        else:
            check(False, "failure-hidden", "without the client library dw() returned %s", got)
        self.inst.set("ok")
        self.before += 1
        self.submit(ch, rec, o)

    def interrupt(self, ch, rec, o):
        self.device(ch, [o["q"]])
        self.st.sent.clear()
        r, v, fired = with_fault(rec, lambda: o["opt"].dw(), ch.pick(FAULTS), ch.loguniform(9))
        if r == "raised" and not fired:
            raise v
        for p in self.st.sent:
            self.same_problem(o["q"], p)
        rec.op("interrupted" if fired else "not interrupted")
        self.before += 1
        self.unchanged(o)
        self.meanwhile(ch, rec, o)
        self.submit(ch, rec, o)

    def threads(self, ch, rec, opts):
        """Two optimisers submit at once."""
        if len(opts) < 2:
            return
        self.device(ch, [o["q"] for o in opts])
        self.st.sent.clear()
        self.st.opened.clear()
        sch = Scheduler(ch, rec, gap_bits=9)
        self.st.pause = sch.yield_now
        for i, o in enumerate(opts):
            sch.spawn(f"T{i}", lambda o=o: o["opt"].dw())
        try:
            sch.run()
        finally:
            self.st.pause = None
        for t in sch.tasks:
            if t.exc is not None:
                raise t.exc
        check(len(self.st.sent) == 2, "submissions", "%d problems were submitted by two calls", len(self.st.sent))
        # whose is whose: the first submission matching
        left = list(self.st.sent)
        for t, o in zip(sch.tasks, opts):
            m = [p for p in left if set(p[1]) == set(range(len(o["q"]))) or len(left) == 1] or left
            for p in m:
                try:
                    self.same_problem(o["q"], p)
                except Exception:
                    if p is m[-1]:
                        raise
                    continue
                left.remove(p)
                self.judge(rec, o, t.result, [p])
                break
        rec.fault("concurrent-submission")
        self.before += 1


CHECK = C18()
