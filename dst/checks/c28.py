"""C28: QUBO builders and converters give every bit vector the same energy, in any history."""
import copy
import itertools

import numpy as np

from .. import annealref as ar, pauliref as pr
from ..core import check
from ..sched import FAULTS, Scheduler, with_fault
from .base import Check

# ---- polynomials over bits: {frozenset of variables: coefficient}


def padd(a, b, k=1):
    d = dict(a)
    for m, v in b.items():
        d[m] = d.get(m, 0) + k * v
    return {m: v for m, v in d.items() if v}


def pmul(a, b):
    d = {}
    for m, v in a.items():
        for n, w in b.items():
            d[m | n] = d.get(m | n, 0) + v * w
    return {m: v for m, v in d.items() if v}


def pvars(p):
    return sorted({v for m in p for v in m})


def degree(p):
    return max((len(m) for m in p), default=0)


def pval(p, bits):
    """Value at {variable: bit}."""
    return sum(v for m, v in p.items() if all(bits[x] for x in m))


def of_matrix(q, full=False):
    """Upper triangle (or all) of a matrix as a polynomial."""
    d = {}
    n = len(q)
    for i in range(n):
        for j in range(0 if full else i, n):
            d = padd(d, {frozenset((i, j)): float(q[i][j])})
    return d


def value(e, env):
    """Value of a sympy expression at {symbol name: number}, without sympy's own evaluation."""
    if e.is_Symbol:
        return env[e.name]
    if e.is_Number:
        return float(e)
    a = [value(x, env) for x in e.args]
    if e.is_Add:
        return sum(a)
    if e.is_Mul:
        r = 1.0
        for x in a:
            r *= x
        return r
    if e.is_Pow:
        return a[0] ** a[1]
    raise ValueError(e)


def points(vs):
    """All bit vectors, or 40 of them when there are more variables."""
    vs = list(vs)
    if len(vs) <= 5:
        return [dict(zip(vs, b)) for b in itertools.product((0, 1), repeat=len(vs))]
    r = np.random.RandomState(len(vs))
    return [dict(zip(vs, r.randint(0, 2, len(vs)))) for _ in range(40)]


NUMS = [1, -1, 2, 1, 0.5, -2, 3, -0.25, 4]
NAMES = ["x", "y", "np", "sel", "pauli", "sympy", "mul", "E", "zeros", "logging"]


class C28(Check):
    ID = "C28"
    TECHNIQUE = ("seeded histories of QUBO builders and converters over shared matrices, expressions and optimizers, with results "
                 "modified by the caller, interrupted calls repeated and scheduled threads; the energy of every bit vector is compared "
                 "with an exact polynomial model")
    LEVEL_NOTE = "Sampled problems, histories and interleavings; all bit vectors of up to 5 variables, 40 of larger problems."
    QUICK = 3000
    THOROUGH = 40000
    RULE = ("3-16 steps over up to 6 expressions of 1-6 of q0..q12 (sums of products, squares, powers, constants; dyadic coefficients), 6 "
            "matrices (lists or arrays, upper triangular or full, 0-6 variables) and 3 optimizers: optx, optm, qn_to_qubo, "
            "nbody_separation, pauli, sel, mul, sqr, net, diag, zeros, Opt.add of matrices and text, Opt.qi; results modified by "
            "the caller, one step in six interrupted and repeated, 2-3 threads; arguments must come out unchanged. Non-trivial = "
            "three energies compared.")
    REAL = ["blueqat.wq", "blueqat.pauli", "sympy", "real threads"]
    STUB = ["thread scheduler"]
    ASSUMPTIONS = ["a QUBO matrix means its upper triangle, and constants of an expression are not part of it"]

    def prepare(self):
        import sympy  # noqa

    def run(self, ch, rec):
        import sympy
        from blueqat import wq
        self.wq, self.sp = wq, sympy
        self.done = 0
        self.n = ch.weighted([(3, 3), (3, 4), (2, 2), (2, 5), (1, 6), (1, 1)])
        self.vars = list(range(self.n))
        if ch.draw(3) == 2:
            self.vars = sorted(ch.subset(range(13), self.n))
        self.exprs, self.mats, self.opts = [], [], []
        for _ in range(2):
            self.exprs.append(self.expression(ch))
            self.mats.append(self.matrix(ch))
        self.opts.append([wq.Opt(), 0, {}])
        acts = ["optx", "optm", "qn", "nbody", "pauli", "sel", "mul", "sqr", "net", "diag", "zeros", "add", "add", "addtext", "qi"]
        for _ in range(ch.range(3, 16)):
            with ch.span("step"):
                k = ch.draw(16)
                if k == 0:
                    self.exprs.append(self.expression(ch))
                    self.mats.append(self.matrix(ch))
                    self.opts.append([wq.Opt(), 0, {}])
                    self.exprs, self.mats, self.opts = self.exprs[-6:], self.mats[-6:], self.opts[-3:]
                elif k == 1:
                    self.threads(ch, rec, acts)
                else:
                    call = getattr(self, "do_" + ch.pick(acts))(ch)
                    if call is None:
                        continue
                    f, judge, what = call
                    if k < 5:
                        kind, v, fired = with_fault(rec, f, ch.pick(FAULTS), ch.loguniform(9))
                        rec.op(what, "interrupted" if fired else "finished")
                        if kind == "raised" and not fired:
                            raise v
                        if kind == "ok":
                            judge(v, what)
                        if what.startswith("Opt"):
                            self.after_interrupt(kind)
                    if k >= 5 or ch.draw(2):
                        v = f()
                        rec.op(what)
                        judge(v, what)
                        if ch.draw(4) == 3:
                            self.vandalise(v)
                self.unchanged()
                rec.state([e[1] for e in self.exprs], [m[2] for m in self.mats])
        rec.nontrivial = self.done >= 3

    # ---- material
    def expression(self, ch):
        """[expression, its text, model polynomial, variables' names by number]."""
        names = {v: f"q{v}" for v in self.vars}
        if ch.draw(8) == 7:
            names = dict(zip(self.vars, [NAMES[(ch.draw(len(NAMES)) + i) % len(NAMES)] for i in range(self.n)]))
            if len(set(names.values())) < self.n:
                names = {v: NAMES[i] for i, v in enumerate(self.vars)}
        sy = {v: self.sp.Symbol(names[v]) for v in self.vars}

        def num(k):
            return self.sp.Rational(k) if isinstance(k, int) or ch.draw(3) == 2 else self.sp.Float(k)

        e, p = self.sp.Integer(0), {}
        cubic = ch.draw(3) == 2
        for _ in range(ch.range(1, 5)):
            j = ch.draw(7)
            k = ch.pick(NUMS)
            if j == 0:
                t, m = self.sp.Integer(1), {frozenset(): 1}
            elif j == 1:
                v = ch.pick(self.vars)
                a = ch.range(1, 4)
                t, m = sy[v] ** a, {frozenset((v,)): 1}
            elif j < 4:
                # a square of a linear form
                t, m = self.sp.Integer(0), {}
                for v in ch.subset(self.vars, ch.range(1, min(self.n, 3))):
                    c = ch.pick(NUMS)
                    t, m = t + num(c) * sy[v], padd(m, {frozenset((v,)): c})
                c = ch.pick([0, -1, 1, -2])
                t, m = (t + c) ** 2, padd(m, {frozenset(): c})
                m = pmul(m, m)
            else:
                t, m = self.sp.Integer(1), {frozenset(): 1}
                for v in ch.subset(self.vars, ch.range(1, min(self.n, 5 if cubic else 2))):
                    a = ch.pick([1, 1, 1, 1, 2, 3]) if j == 5 else 1
                    t, m = t * sy[v] ** a, pmul(m, {frozenset((v,)): 1})
            e, p = e + num(k) * t, padd(p, m, k)
        if ch.draw(2):
            e = self.sp.expand(e)
        return [e, str(e), p, names]

    def matrix(self, ch):
        """[object, snapshot, rows, full]."""
        q = ar.qubo_spec(ch, 6) if ch.draw(8) else []
        q = [[round(v * 8) / 8 for v in r] for r in q]
        full = ch.draw(4) == 3
        if full:
            for i in range(len(q)):
                for j in range(i):
                    q[i][j] = ch.pick([0.0, 1.0, -2.0, 0.5])
        o = ar.given(ch, q) if q else []
        return [o, copy.deepcopy(o), [list(r) for r in q], full]

    def unchanged(self):
        for e, text, p, _ in self.exprs:
            check(str(e) == text, "argument-changed", "an expression became %s, was %s", e, text)
        for o, snap, q, _ in self.mats:
            check(type(o) is type(snap) and repr(o) == repr(snap), "argument-changed", "a matrix became %s, was %s", o, snap)
        for o, n, p in self.opts:
            if n is not None:
                check(len(o.qubo) == n and self.same(of_matrix(o.qubo), p), "qubo-changed", "an optimizer's QUBO is %s, expected %s", o.qubo, p)

    def after_interrupt(self, kind):
        """An interrupted call on an optimizer leaves one of the two values; go on with what is there."""
        o, n, p = self.opts[self.at]
        old, new = self.before, self.after
        now = (len(o.qubo), of_matrix(o.qubo))
        ok = [c for c in (old, new) if c[0] == now[0] and self.same(c[1], now[1])]
        check(ok, "torn", "after an interrupted call the QUBO is %s, expected %s or %s", o.qubo, old, new)
        self.opts[self.at][1:] = ok[-1] if kind == "ok" else ok[0]
        if self.after is not None and ok[0] is not old and kind != "ok":
            self.opts[self.at][1:] = new

    def same(self, a, b):
        return all(abs(a.get(m, 0) - b.get(m, 0)) < 1e-9 * (1 + abs(b.get(m, 0))) for m in set(a) | set(b))

    def vandalise(self, v):
        """The caller writes over a result."""
        if isinstance(v, np.ndarray) and v.size and v.flags.writeable:
            v += 7
        elif isinstance(v, list):
            for r in v:
                if isinstance(r, list) and r:
                    r[0] = 99.0
        elif isinstance(v, tuple) and len(v) == 3 and isinstance(v[2], dict):
            v[2].clear()

    # ---- calls: (function, judge, text)
    def judge_expr(self, e, p, names, what, vs=None):
        for pt in points(self.vars if vs is None else vs):
            got = value(e, {names[v]: b for v, b in pt.items()})
            check(abs(got - pval(p, pt)) < 1e-8, "wrong-energy", "%s is %s: energy %s at %s, expected %s", what, e, got, pt, pval(p, pt))
        self.done += 1

    def judge_matrix(self, m, p, what, n=None, offset=None):
        """The matrix' energies are those of the polynomial, but for its constant."""
        check(n is None or len(m) == n, "wrong-size", "%s has size %d, expected %s", what, len(m), n)
        check(all(len(r) == len(m) for r in m), "wrong-size", "%s is not square", what)
        got = of_matrix(m)
        want = {k: v for k, v in p.items() if k}
        check(self.same(got, want), "wrong-energy", "%s gives the energies of %s, expected %s", what, show(got), show(want))
        check(not np.any(np.tril(np.array(m, dtype=float), -1)) if len(m) else True, "wrong-energy", "%s has entries below the diagonal", what)
        self.done += 1

    def pick_expr(self, ch, quadratic=False, q=False, add=False):
        c = [e for e in self.exprs if (not quadratic or degree(e[2]) <= 2) and (not q or all(n == f"q{v}" for v, n in e[3].items()))]
        if add:
            c = [e for e in c if e[0].is_Add]
        return c[-1 - ch.draw(len(c))] if c else None

    def do_optx(self, ch):
        x = self.pick_expr(ch)
        e, text, p, names = x
        arg = e if ch.draw(6) or names[self.vars[0]][0] != "q" else text

        def judge(v, what):
            self.judge_expr(self.sp.sympify(v), p, names, what)
            check(not any(a.is_Pow for a in self.sp.preorder_traversal(v)), "powers-left", "%s is %s", what, v)
        return lambda: self.wq.optx(arg), judge, f"optx({text})"

    def do_optm(self, ch):
        x = self.pick_expr(ch, quadratic=True, q=True)
        if x is None:
            return None
        e, text, p, _ = x
        n = max(pvars(p), default=0) + 1 + ch.draw(2)
        n = max(n, 1)
        return lambda: self.wq.optm(e, n), lambda v, what: self.judge_matrix(v, p, what, n), f"optm({text}, {n})"

    def do_qn(self, ch):
        x = self.pick_expr(ch, quadratic=True, q=True, add=True)
        if x is None or not x[0].free_symbols or not pvars(x[2]):
            return None
        e, text, p, _ = x
        return lambda: self.wq.qn_to_qubo(e), lambda v, what: self.judge_matrix(v, p, what), f"qn_to_qubo({text})"

    def do_nbody(self, ch):
        e0, text, p, names = self.pick_expr(ch)
        sy = {v: self.sp.Symbol(names[v]) for v in self.vars}
        e = self.sp.Integer(0)
        for m, c in p.items():
            t = self.sp.Rational(c) if ch.draw(2) else self.sp.Float(c) if c != 1 else self.sp.Integer(1)
            for v in m:
                t = t * sy[v]
            e = e + t
        if not e.is_Add:
            return None
        aux = [self.sp.Symbol(f"q{50 + i}") for i in range(30)]
        if ch.draw(3) == 2:
            aux = tuple(aux)

        def judge(r, what):
            ne, cons, mapping = r
            check(len(mapping) == len(set(map(str, mapping.values()))) and all(v in aux for v in mapping.values()), "mapping",
                  "%s: the mapping is %s", what, mapping)
            pts = points(self.vars)
            for pt in pts[::max(1, len(pts) // 12)]:
                env = {names[v]: b for v, b in pt.items()}
                for _ in range(len(mapping) + 1):
                    for (a, b), v in mapping.items():
                        if a in env and b in env:
                            env[str(v)] = env[a] * env[b]
                check(all(str(v) in env for v in mapping.values()), "mapping", "%s: the mapping %s is circular", what, mapping)
                for t in self.sp.Add.make_args(ne):
                    check(len(t.free_symbols) <= 2, "not-separated", "%s has the term %s", what, t)
                got = value(ne, env)
                check(abs(got - pval(p, pt)) < 1e-8, "wrong-energy", "%s is %s: %s at %s, expected %s", what, ne, got, env, pval(p, pt))
                c = value(cons, env)
                check(abs(c) < 1e-9, "wrong-constraint", "%s: constraint %s is %s at %s", what, cons, c, env)
                for v in list(mapping.values())[:3]:
                    bad = dict(env)
                    bad[str(v)] = 1 - bad[str(v)]
                    check(value(cons, bad) > 0.5, "wrong-constraint", "%s: constraint %s is %s at %s", what, cons, value(cons, bad), bad)
            self.done += 1
        return lambda: self.wq.nbody_separation(e, aux), judge, f"nbody_separation({e})"

    def do_pauli(self, ch):
        o, _, q, full = self.mats[-1 - ch.draw(len(self.mats))]

        def judge(v, what):
            d = {(): v} if isinstance(v, (int, float)) else pr.of_value(v)
            n = len(q)
            p = of_matrix(q, True)
            check(all(l == "Z" for s in d for _, l in s), "wrong-energy", "%s has other operators than Z: %s", what, v)
            for pt in points(range(n)):
                got = sum(c * np.prod([1 - 2 * pt[i] for i, _ in s]) for s, c in d.items())
                check(abs(got - pval(p, pt)) < 1e-8, "wrong-energy", "%s is %s: energy %s at %s, expected %s", what, v, got, pt, pval(p, pt))
            self.done += 1
        return lambda: self.wq.pauli(o), judge, f"pauli({q})"

    def do_sel(self, ch):
        n = ch.range(1, 6)
        k = ch.range(0, n)
        arr = [ch.draw(n) for _ in range(ch.draw(4))]
        given = [list(arr), tuple(arr), np.array(arr, dtype=int)][ch.draw(3)]
        p = padd({frozenset((i,)): 1 for i in range(n)}, {frozenset(): -k})
        p = pmul(p, p)
        for a in arr:
            p = padd(p, {frozenset((a,)): -0.5})

        def judge(v, what):
            self.judge_matrix(v, p, what, n)
            check(list(given) == arr, "argument-changed", "%s changed its list to %s", what, given)
        return (lambda: self.wq.sel(n, k, given) if arr or n % 2 else self.wq.sel(n, k)), judge, f"sel({n}, {k}, {arr})"

    def vector(self, ch, n):
        a = [ch.pick(NUMS + [0, 1.5]) for _ in range(n)]
        return a, [list(a), np.array(a, dtype=float), tuple(a)][ch.draw(3)]

    def do_mul(self, ch):
        n = ch.range(1, 6)
        a, ga = self.vector(ch, n)
        b, gb = (a, ga) if ch.draw(4) == 3 else self.vector(ch, n)
        p = pmul({frozenset((i,)): v for i, v in enumerate(a)}, {frozenset((i,)): v for i, v in enumerate(b)})

        def judge(v, what):
            self.judge_matrix(v, p, what, n)
            check(list(ga) == a and list(gb) == b, "argument-changed", "%s changed its arguments", what)
        return lambda: self.wq.mul(ga, gb), judge, f"mul({a}, {b})"

    def do_sqr(self, ch):
        n = ch.range(1, 6)
        a, ga = self.vector(ch, n)
        x = {frozenset((i,)): v for i, v in enumerate(a)}

        def judge(v, what):
            self.judge_matrix(v, pmul(x, x), what, n)
            check(list(ga) == a, "argument-changed", "%s changed its argument", what)
        return lambda: self.wq.sqr(ga), judge, f"sqr({a})"

    def do_net(self, ch):
        n = ch.range(2, 7)
        edges = [ch.subset(range(n), 2) for _ in range(ch.draw(6))]
        given = [[list(e) for e in edges], [tuple(e) for e in edges], np.array(edges, dtype=int).reshape(-1, 2),
                 [np.array(e) for e in edges]][ch.draw(4)]
        snap = repr(given)
        p = {frozenset(e): 1 for e in edges}

        def judge(v, what):
            self.judge_matrix(v, p, what, n)
            check(repr(given) == snap, "argument-changed", "%s changed the edges to %s", what, given)
        return lambda: self.wq.net(given, n), judge, f"net({edges}, {n})"

    def do_diag(self, ch):
        a, ga = self.vector(ch, ch.range(1, 6))

        def judge(v, what):
            self.judge_matrix(v, {frozenset((i,)): x for i, x in enumerate(a) if x}, what, len(a))
            check(list(ga) == a, "argument-changed", "%s changed its argument", what)
        return lambda: self.wq.diag(ga), judge, f"diag({a})"

    def do_zeros(self, ch):
        n = ch.range(0, 6)
        return lambda: self.wq.zeros(n), lambda v, what: self.judge_matrix(v, {}, what, n), f"zeros({n})"

    # ---- optimizers
    def accumulate(self, ch, arg, p, n, what):
        i = ch.draw(len(self.opts))
        o, on, op = self.opts[i]
        w = ch.pick([1, 1, 2, -1, 0.5, 10])
        m = max(on, n)
        new = (m, padd(op, {k: v for k, v in p.items() if k}, w))
        use_kw = ch.draw(2)
        self.at, self.before, self.after = i, (on, op), new

        def f():
            # calls may be repeated: each adds again
            x = self.opts[i]
            self.before = (x[1], x[2])
            self.after = (max(x[1], n), padd(x[2], {k: v for k, v in p.items() if k}, w))
            self.at = i
            r = o.add(arg, M=w) if use_kw or w != 1 else o.add(arg)
            check(r is o, "chaining", "add returned another object")
            return None

        def judge(v, text):
            self.opts[i][1:] = self.after
            self.judge_matrix(np.triu(np.array(o.qubo, dtype=float)) if len(o.qubo) else [], self.after[1], text, self.after[0])
        return f, judge, f"Opt {i}.add({what}, {w})"

    def do_add(self, ch):
        o, _, q, full = self.mats[-1 - ch.draw(len(self.mats))]
        return self.accumulate(ch, o, of_matrix(q), len(q), q)

    def do_addtext(self, ch):
        x = self.pick_expr(ch, quadratic=True, q=True)
        if x is None or not x[0].free_symbols:
            return None
        e, text, p, _ = x
        # the matrix is as large as the variables in the expanded text need
        big = self.sp.expand(e).free_symbols
        if not big:
            return None
        n = max(int(s.name[1:]) for s in big) + 1
        if max(pvars(p), default=-1) != n - 1:
            return None        # a variable that cancels once squares are reduced: the size is not determined
        return self.accumulate(ch, text, p, n, text)

    def do_qi(self, ch):
        i = ch.draw(len(self.opts))
        o, n, p = self.opts[i]
        self.at = i

        def f():
            x = self.opts[i]
            self.at, self.before, self.after = i, (x[1], x[2]), (x[1], x[2])
            return o.qi()

        def judge(v, what):
            n, p = self.opts[i][1:]
            J, ep = np.array(o.J, dtype=float).reshape(n, n), o.ep
            for pt in points(range(n)):
                s = np.array([2 * pt[k] - 1 for k in range(n)])
                got = sum(J[a][a] * s[a] for a in range(n)) + sum(J[a][b] * s[a] * s[b] for a in range(n) for b in range(a + 1, n)) + ep
                check(abs(got - pval(p, pt)) < 1e-8 * (1 + abs(got)), "wrong-energy", "%s: Ising energy %s at %s, expected %s", what, got, pt,
                      pval(p, pt))
            self.done += 1
        return f, judge, f"Opt {i}.qi()"

    # ---- threads
    def threads(self, ch, rec, acts):
        sch = Scheduler(ch, rec, gap_bits=ch.pick([4, 7]), attr_only=ch.draw(2) == 1)
        jobs = []
        for t in range(ch.range(2, 3)):
            call = getattr(self, "do_" + ch.pick(acts[:11]))(ch)
            if call is None:
                continue
            out = []

            def body(call=call, out=out):
                out.append(call[0]())
            jobs.append((call, out))
            sch.spawn(f"T{t}", body)
        if not jobs:
            return
        sch.run()
        for task, (call, out) in zip(sch.tasks, jobs):
            if task.exc is not None:
                raise task.exc
            call[1](out[0], "in a thread, " + call[2])
        rec.op("threads:", [c[2] for c, _ in jobs])


def show(p):
    return " + ".join(f"{v:g}*" + "".join(f"q{x}" for x in sorted(m)) for m, v in sorted(p.items(), key=lambda t: sorted(t[0]))) or "0"


CHECK = C28()
