"""C25: matrices of Pauli expressions are right in every format and are the caller's own."""
import numpy as np

from .. import pauliref as pr
from ..core import check, short
from ..sched import FAULTS, Scheduler, with_fault
from .base import Check
from .c24 import World, number, plain

FORMATS = [None, "csr", "csc", "coo", "bsr", "dia", "dok", "lil"]


def dense(m):
    return m.toarray() if hasattr(m, "toarray") else m


class Matrices:
    def __init__(self, ch, rec):
        self.rec = rec
        self.w = World(ch, rec, ch.weighted([(4, 2), (3, 3), (2, 1), (2, 4), (1, 6)]))
        self.want = {}         # model operators and sizes -> expected array
        self.kept = []         # matrices which the caller keeps: (matrix, expected, what)

    def value(self, ch):
        """A value to convert; often a sum with many terms."""
        k = ch.draw(6)
        if k < 3 or not self.w.vals:
            v, d, what = self.w.pick(ch)
        elif k == 3:
            p = self.w.p
            v, d = p.Expr.zero(), {}
            for _ in range(ch.range(1, 8)):
                t, dt = p.I.to_term(), {(): 1}
                for _ in range(ch.range(0, 5)):
                    a, da, _ = self.w.atom(ch)
                    t, dt = t * a, pr.mul(dt, da)
                c = number(ch)
                v, d = v + t * c, pr.add(d, pr.scale(dt, plain(c)))
            what = "a sum"
        else:
            x, dx, nx = self.w.pick(ch)
            y, dy, ny = self.w.pick(ch)
            v, d, what = x + y, pr.add(dx, dy), f"{nx} + {ny}"
        return v, d, what

    def conversion(self, ch):
        v, d, what = self.value(ch)
        need = v.n_qubits
        size = ch.weighted([(4, -1), (2, need), (2, need + 1), (1, need + ch.draw(4))])
        if size > 7 and not ch.chance(150):
            size = -1
        fmt = ch.pick(FORMATS)
        n = need if size == -1 else size
        if size == -1 and ch.draw(2):
            f = (lambda: v.to_matrix(sparse=fmt)) if fmt or ch.draw(2) else v.to_matrix
        else:
            f = lambda: v.to_matrix(size, sparse=fmt)  # noqa
        return f"{what}.to_matrix({size}, sparse={fmt})", f, self.expected(d, n), fmt

    def expected(self, d, n):
        key = (tuple(sorted(d.items(), key=repr)), n)
        if key not in self.want:
            if len(self.want) > 50:
                self.want.clear()
            m = pr.matrix(d, n)
            m.setflags(write=False)
            self.want[key] = m
        return self.want[key]

    def judge(self, m, want, fmt, what):
        if fmt is None:
            check(isinstance(m, np.ndarray), "format", "%s is a %s", what, type(m).__name__)
        else:
            check(getattr(m, "format", None) == fmt, "format", "%s is a %s %r", what, type(m).__name__, getattr(m, "format", None))
        check(m.shape == want.shape, "shape", "%s has shape %s, expected %s", what, m.shape, want.shape)
        a = dense(m)
        bad = ~(np.abs(a - want) <= 1e-12 * max(1, np.abs(want).max()))
        if bad.any():
            i, j = np.argwhere(bad)[0]
            check(False, "wrong-matrix", "%s: element (%d, %d) is %s, expected %s", what, i, j, a[i, j], want[i, j])

    def vandal(self, ch, m):
        """The caller changes a matrix it was given."""
        k = ch.draw(3)
        if hasattr(m, "format"):
            if k == 0 and m.format in ("csr", "csc", "coo", "bsr", "dia"):
                m.data[...] = 7
                for x in ("indices", "indptr", "row", "col", "offsets"):
                    if ch.draw(2) and hasattr(m, x):
                        getattr(m, x)[...] = 0
            elif k == 1 and m.format in ("csr", "csc", "lil", "dok"):
                m[0, m.shape[0] - 1] = 5
            elif m.format in ("csr", "csc", "coo", "bsr", "dia"):
                m *= 3
        elif k == 0:
            m[...] = 7
        elif k == 1:
            m[0, 0] += 5
        else:
            m *= 2


class C25(Check):
    ID = "C25"
    TECHNIQUE = ("seeded histories of matrix conversions over shared Pauli values, with returned matrices overwritten, injected "
                 "exceptions and scheduled threads; every matrix is compared with Kronecker products of the exact model")
    LEVEL_NOTE = "Sampled histories and interleavings; tolerance 1e-12."
    QUICK = 5000
    THOROUGH = 60000
    RULE = ("3-30 steps: derivations of values as in C24, conversions to the dense and the seven sparse formats at the natural size or up "
            "to 3 (rarely 10) qubits in total more, matrices kept and compared again later, returned matrices and .matrix arrays overwritten, "
            "unknown formats, one step in six interrupted, 2-3 threads converting shared values. Non-trivial = three matrices compared.")
    REAL = ["blueqat.pauli", "numpy, scipy.sparse", "real threads"]
    STUB = ["thread scheduler"]
    ASSUMPTIONS = []

    def run(self, ch, rec):
        s = Matrices(ch, rec)
        w = s.w
        done = 0
        for _ in range(ch.range(3, 30)):
            with ch.span("step"):
                k = ch.draw(14)
                if k < 4:
                    what, f, want = w.action(ch)
                    w.put(f(), want, what)
                elif k < 9:
                    what, f, want, fmt = s.conversion(ch)
                    m = f()
                    rec.op(what)
                    s.judge(m, want, fmt, what)
                    done += 1
                    j = ch.draw(3)
                    if j == 0 and want.size <= 4096:
                        s.kept = s.kept[-4:] + [(m, want, fmt, what)]
                    elif j == 1:
                        s.vandal(ch, m)
                        rec.op("  which the caller overwrites")
                        rec.fault("vandalised-matrix")
                elif k == 9:
                    v, d, what = w.atom(ch)
                    letter = (list(d) or [()])[0]
                    letter = letter[0][1] if letter else "I"
                    src = v if letter == "I" or ch.draw(2) else getattr(w.p, letter)
                    m = src.matrix
                    s.judge(m, s.expected({((0, letter),) if letter != "I" else (): 1}, 1), None, f"{letter}.matrix")
                    s.vandal(ch, m)
                    rec.fault("vandalised-matrix")
                elif k < 12:
                    what, f, want, fmt = s.conversion(ch)
                    kind, v, fired = with_fault(rec, f, ch.pick(FAULTS), ch.loguniform(9))
                    if kind == "raised" and not fired:
                        raise v
                    if kind == "ok":
                        s.judge(v, want, fmt, what)
                    rec.op("interrupted" if fired else "finished", what)
                elif k == 12:
                    v, d, what = w.pick(ch)
                    bad = ch.pick(["CSR", "xyz", "array", ""])
                    try:
                        v.to_matrix(sparse=bad)
                    except ValueError:
                        rec.fault("unknown-format")
                    else:
                        check(False, "unknown-format", "%s.to_matrix(sparse=%r) was accepted", what, bad)
                else:
                    done += self.threads(ch, rec, s)
                w.unchanged("this step")
                for m, want, fmt, what in s.kept:
                    s.judge(m, want, fmt, "the matrix kept from " + what)
                rec.state([sorted(map(repr, x[1].items())) for x in w.vals])
        rec.nontrivial = done >= 3

    def threads(self, ch, rec, s):
        sch = Scheduler(ch, rec, gap_bits=ch.pick([4, 7]), attr_only=ch.draw(2) == 1)
        jobs = []
        for t in range(ch.range(2, 3)):
            acts = [s.conversion(ch) for _ in range(ch.range(1, 2))]
            out = []

            def body(acts=acts, out=out):
                for what, f, want, fmt in acts:
                    out.append(f())
            jobs.append((acts, out))
            sch.spawn(f"T{t}", body)
        sch.run()
        for task, (acts, out) in zip(sch.tasks, jobs):
            if task.exc is not None:
                raise task.exc
            for (what, f, want, fmt), v in zip(acts, out):
                s.judge(v, want, fmt, f"in a thread, {what}")
        rec.op("threads:", short([[a[0] for a in acts] for acts, _ in jobs]))
        return len(jobs)


CHECK = C25()
