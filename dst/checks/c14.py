"""C14: registries and default backends follow the last accepted change."""
from .. import gen, usergates
from ..core import Violation, check
from ..sched import FAULTS, Scheduler, with_fault
from .base import Check

GATES = ["dstga", "dstgb", "dstgc", "x", "t", "dstsa", "dstsb"]
MACROS = ["dstma", "dstmb", "dstmc", "dstsa", "dstsb"]
BACKENDS = ["dstba", "dstbb", "dstbc", "numpy", "qasm_output"]
SHARED = ["dstsa", "dstsb"]         # used for gates and macros
RESERVED = ["run", "copy", "dagger", "make_cache", "to_qasm", "set_default_backend", "run_with_dst", "__init__"]


class FactoryFails(Exception):
    pass


class Handle:
    def __init__(self, name, c, default=None, used=()):
        self.name, self.c, self.default, self.used = name, c, default, dict(used)


class C14(Check):
    ID = "C14"
    TECHNIQUE = ("seeded histories of registrations, removals and default changes with rejected requests, failing factories, "
                 "interrupted calls and threads on different names; after each step every name is resolved and compared "
                 "with a model of the registries")
    LEVEL_NOTE = ("Sampled histories and schedules. While a gate and a macro share a name, either may be found: the "
                  "documentation does not say which wins. Overwriting methods of Circuit is left out.")
    QUICK = 6000
    THOROUGH = 80000
    RULE = ("4-40 steps over 7 gate, 5 macro (2 of them shared) and 5 backend names (new and built-in), reserved and unknown names: register "
            "with and without overwriting, unregister, global and per-circuit defaults (also None), runs and copies of up "
            "to 5 circuits, failing factories, interrupted calls, 2-3 threads with own names; all names are resolved on a "
            "fresh and an old circuit after each step. Non-trivial = a registration was replaced or removed.")
    STATES = "distinct registry contents reached"
    REAL = ["blueqat.circuit (BlueqatGlobalSetting, Circuit)", "blueqat.gate", "Backend.copy", "real threads"]
    STUB = ["user-defined gates, macros and backends", "thread scheduler"]

    def run(self, ch, rec):
        from blueqat import Circuit, BlueqatGlobalSetting as G
        from blueqat import circuit as cm
        self.Circuit, self.G = Circuit, G
        self.serial = 0
        self.changes = 0
        self.fail_factory = False
        self.things = {}
        # the model starts from what resolves now
        self.gates = {n: type(getattr(Circuit(), n)[0].ops[0]) for n in ("x", "t")}
        self.macros = {}
        self.backends = {"numpy": None, "qasm_output": None}     # None: built in
        self.default = G.get_default_backend_name()
        check(self.default in self.backends, "default", "the default backend is %r", self.default)
        self.hs = [Handle("c0", Circuit(1))]
        for _ in range(gen.size(ch, 4, 40)):
            with ch.span("step"):
                act = ch.weighted([(8, "change"), (3, "reject"), (3, "use"), (3, "defaults"), (2, "derive"), (2, "factory"),
                                   (2, "interrupt"), (2, "threads")])
                getattr(self, "do_" + act)(ch, rec)
                self.resolve_all(rec)
                rec.state(sorted(self.gates), sorted(self.macros), sorted(self.backends), self.default,
                          [h.default for h in self.hs])
        rec.nontrivial = self.changes > 0

    # ---- things to register
    def fresh(self, kind):
        from blueqat import gate
        from blueqat.backends.backendbase import Backend
        self.serial += 1
        k = self.serial
        if kind == "gate":
            return type(f"Gate{k}", (gate.OneQubitGate,), {"lowername": f"dstgate{k}", "dagger": lambda s: s})
        if kind == "macro":
            def macro(c, *args, **kwargs):
                return (k, c, args, kwargs)
            macro.k = k
            return macro
        check_self = self

        class B(Backend):
            def __init__(self):
                if check_self.fail_factory:
                    raise FactoryFails()

            def run(self, gates, n_qubits, *args, **kwargs):
                return ("ran", k)

            def make_cache(self, gates, n_qubits):
                check_self.warmed = ("ran", k)
        if k % 2:
            return B
        f = lambda: B()
        return f

    def table(self, kind):
        return {"gate": self.gates, "macro": self.macros, "backend": self.backends}[kind]

    def token(self, kind, thing):
        if kind != "backend":
            return thing
        self.fail_factory, old = False, self.fail_factory
        try:
            return thing().run([], 0)[1]
        finally:
            self.fail_factory = old

    def register(self, kind, name, thing, **kw):
        getattr(self.G, "register_" + kind)(name, thing, **kw)

    def other(self, kind, name):
        """A gate and a macro of this name, of which only the other is asked for."""
        return kind == "gate" and name in self.macros or kind == "macro" and name in self.gates

    def names(self, kind):
        return {"gate": GATES, "macro": MACROS, "backend": BACKENDS}[kind]

    # ---- steps
    def do_change(self, ch, rec):
        kind = ch.pick(["backend", "gate", "macro"])
        name = ch.pick(self.names(kind))
        tab = self.table(kind)
        if name in tab and ch.draw(3) == 2:
            if kind == "backend" and ch.draw(4) == 3:
                self.G.remove_backend(name)
            else:
                getattr(self.G, "unregister_" + kind)(name)
            del tab[name]
            self.changes += 1
            rec.op(f"unregister_{kind}({name!r})")
            return
        thing = self.fresh(kind)
        kw = {}
        if name in tab or self.other(kind, name):
            kw = {"allow_overwrite": True}
            self.changes += 1
        elif ch.draw(3) == 2:
            kw = {"allow_overwrite": ch.draw(2) == 1}
        self.register(kind, name, thing, **kw)
        tab[name] = self.token(kind, thing)
        self.things[kind, name] = thing
        rec.op(f"register_{kind}({name!r}, #{self.serial}, {kw})")

    def do_reject(self, ch, rec):
        kind = ch.pick(["backend", "gate", "macro"])
        k = ch.draw(5)
        tab = self.table(kind)
        if k == 0:
            free = [n for n in self.names(kind) if n not in tab] + ["dstnever"]
            name = ch.pick(free)
            f, what = (lambda: getattr(self.G, "unregister_" + kind)(name)), f"unregister_{kind}({name!r})"
        elif k == 1:
            if kind == "backend":
                return
            name = ch.pick(RESERVED)
            f, what = (lambda: self.register(kind, name, self.fresh(kind))), f"register_{kind}({name!r})"
        elif k == 2:
            free = [n for n in BACKENDS if n not in self.backends] + ["dstnever"]
            name = ch.pick(free)
            h = ch.pick(self.hs)
            f, what = [(lambda: self.G.set_default_backend(name), f"set_default_backend({name!r})"),
                       (lambda: h.c.set_default_backend(name), f"{h.name}.set_default_backend({name!r})")][ch.draw(2)]
        else:
            # duplicates, also across gates and macros
            taken = {"gate": list(self.gates) + list(self.macros), "macro": list(self.macros) + list(self.gates),
                     "backend": list(self.backends)}[kind]
            if not taken:
                return
            name = ch.pick(taken)
            kw = [{}, {"allow_overwrite": False}][ch.draw(2)]
            thing = self.fresh(kind)
            again = ch.draw(2) == 1 and (kind, name) in self.things
            if again:
                thing = self.things[kind, name]
            f, what = (lambda: self.register(kind, name, thing, **kw)), f"register_{kind}({name!r}, {kw}, same={again})"
        try:
            f()
        except ValueError:
            rec.op(what, "rejected")
            rec.probe("rejected")
        else:
            raise Violation("accepted", f"{what} was accepted")

    def do_use(self, ch, rec):
        h = ch.pick(self.hs)
        k = ch.draw(6)
        if k == 3:
            name = self.current(h)
            f, what = (lambda: h.c.run()), f"{h.name}.run()"
        elif k == 4:
            name = self.current(h)
            f, what = (lambda: self.warm(h.c)), f"{h.name}.make_cache()"
        else:
            name = ch.pick(BACKENDS)
            if k == 1 and name in self.backends:
                f, what = (lambda: getattr(h.c, "run_with_" + name)()), f"{h.name}.run_with_{name}()"
            elif k == 5:
                f, what = (lambda: self.warm(h.c, backend=name)), f"{h.name}.make_cache(backend={name!r})"
            else:
                f, what = (lambda: h.c.run(backend=name)), f"{h.name}.run(backend={name!r})"
        self.ran(rec, h, name, f, what)

    def warm(self, c, **kw):
        """Which backend's cache was made (None: a built-in one)."""
        self.warmed = None
        c.make_cache(**kw)
        return self.warmed

    def current(self, h):
        return h.default if h.default is not None else self.default

    def ran(self, rec, h, name, f, what):
        try:
            v = f()
        except ValueError as e:
            rec.op(what, "->", e)
            check(name not in self.backends, "not-found", "%s: %s, but %r is registered", what, e, name)
            check(name not in h.used, "not-found", "%s: %s, but the circuit uses it already", what, e)
            return
        rec.op(what, "->", v if isinstance(v, tuple) else type(v).__name__)
        if name in h.used:
            want = h.used[name]
        else:
            check(name in self.backends, "found", "%s ran, but %r is not registered", what, name)
            want = h.used[name] = self.backends[name]
        self.same_run(v, want, what)

    def same_run(self, v, want, what):
        if want is None:
            check(not isinstance(v, tuple), "wrong-backend", "%s ran registration %r, expected the built-in one", what, v)
        else:
            check(v == ("ran", want), "wrong-backend", "%s gave %r, expected registration %r", what, v, want)

    def do_defaults(self, ch, rec):
        k = ch.draw(4)
        if k == 0 and self.backends:
            name = ch.pick(sorted(self.backends))
            self.G.set_default_backend(name)
            self.default = name
            rec.op(f"set_default_backend({name!r})")
        elif k == 3:
            h = ch.pick(self.hs)
            h.c.set_default_backend(None)
            h.default = None
            rec.op(f"{h.name}.set_default_backend(None)")
        elif self.backends:
            h = ch.pick(self.hs)
            name = ch.pick(sorted(self.backends))
            h.c.set_default_backend(name)
            h.default = name
            rec.op(f"{h.name}.set_default_backend({name!r})")

    def do_derive(self, ch, rec):
        h = ch.pick(self.hs)
        k = ch.draw(4)
        name = f"c{len(self.hs)}x{self.serial}"
        self.serial += 1
        if k == 0:
            n = Handle(name, self.Circuit(1))
        elif k == 1:
            n = Handle(name, h.c.copy(), h.default, h.used)
        elif k == 2:
            n = Handle(name, h.c.copy(copy_backends=False, copy_default_backend=False))
        else:
            n = Handle(name, h.c.copy(copy_backends=False), h.default)
        rec.op(name, "from", h.name, k)
        self.hs.append(n)
        if len(self.hs) > 5:
            self.hs.pop(0)

    def do_factory(self, ch, rec):
        """A backend that cannot be made now is made later."""
        h = ch.pick(self.hs)
        names = [n for n in self.backends if self.backends[n] is not None and n not in h.used]
        if not names:
            return
        name = ch.pick(sorted(names))
        self.fail_factory = True
        try:
            v = h.c.run(backend=name)
        except FactoryFails:
            rec.fault("factory-raises")
            rec.op(f"{h.name}.run(backend={name!r}): the factory raises")
        else:
            raise Violation("swallowed", f"the factory of {name!r} raised, the run returned {v!r}")
        finally:
            self.fail_factory = False
        self.ran(rec, h, name, lambda: h.c.run(backend=name), f"{h.name}.run(backend={name!r}) again")

    def do_interrupt(self, ch, rec):
        kind = ch.pick(["backend", "gate", "macro", "default"])
        cls, after = ch.pick(FAULTS), ch.draw(14)
        if kind == "default":
            if not self.backends:
                return
            name = ch.pick(sorted(self.backends))
            k, v, fired = with_fault(rec, lambda: self.G.set_default_backend(name), cls, after)
            now = self.G.get_default_backend_name()
            check(now in (name, self.default) and (k == "raised" or now == name), "default",
                  "the default is %r after changing %r to %r (%s)", now, self.default, name, k)
            self.default = now
            rec.op(f"interrupted set_default_backend({name!r}): {k} -> {now!r}")
            return
        name = ch.pick(self.names(kind))
        if name in SHARED:
            return
        tab = self.table(kind)
        thing = self.fresh(kind)
        new = self.token(kind, thing)
        absent = object()
        old = tab.get(name, absent)
        if old is not absent and ch.draw(2):
            f, new = (lambda: getattr(self.G, "unregister_" + kind)(name)), absent
        else:
            f = lambda: self.register(kind, name, thing, allow_overwrite=True)
        k, v, fired = with_fault(rec, f, cls, after)
        if k == "raised" and not fired:
            raise v
        now = old if k == "raised" and self.matches(kind, name, old, absent) else new
        check(self.matches(kind, name, now, absent), "half-done", "%s %r is neither the old nor the new one", kind, name)
        if now is absent:
            tab.pop(name, None)
        else:
            tab[name] = now
        rec.op(f"interrupted change of {kind} {name!r}: {k}, {'kept' if now is old else 'changed'}")

    def matches(self, kind, name, want, absent):
        try:
            self.resolve(kind, name, self.Circuit(1), want is not absent, None if want is absent else want)
        except Violation:
            return False
        return True

    # ---- resolution
    def resolve(self, kind, name, c, present, want):
        if self.other(kind, name):
            if present:
                # both exist: the name must be one of them
                v = getattr(c, name)(1, a=2)
                if isinstance(v, tuple):
                    self.resolved_macro(name, v, c, self.macros[name])
                else:
                    getattr(c, name)[0]
                    g = c.ops.pop()
                    check(type(g) is self.gates[name], "wrong-gate", "gate %r made %r, expected %s", name, g,
                          self.gates[name])
            return
        if kind == "gate":
            try:
                c2 = getattr(c, name)[0]
            except AttributeError:
                check(not present, "not-found", "gate %r is registered but not found", name)
                return
            check(present, "found", "gate %r is not registered but resolves", name)
            g = c.ops.pop()
            check(c2 is c and type(g) is want, "wrong-gate", "gate %r made %r, expected %s", name, g, want)
        elif kind == "macro":
            try:
                v = getattr(c, name)(1, a=2)
            except AttributeError:
                check(not present, "not-found", "macro %r is registered but not found", name)
                return
            check(present, "found", "macro %r is not registered but resolves", name)
            self.resolved_macro(name, v, c, want)
        else:
            for f, e in ((lambda: c.copy(copy_backends=False).run(backend=name), ValueError),
                         (lambda: getattr(c.copy(copy_backends=False), "run_with_" + name)(), AttributeError)):
                try:
                    v = f()
                except e:
                    check(not present, "not-found", "backend %r is registered but not found", name)
                else:
                    check(present, "found", "backend %r is not registered but runs", name)
                    self.same_run(v, want, f"backend {name!r}")

    def resolved_macro(self, name, v, c, want):
        check(v[0] == want.k and v[1] is c and v[2:] == ((1,), {"a": 2}), "wrong-macro",
              "macro %r gave %r, expected registration %d", name, v, want.k)

    def resolve_all(self, rec):
        check(self.G.get_default_backend_name() == self.default, "default", "the default backend is %r, expected %r",
              self.G.get_default_backend_name(), self.default)
        for c in (self.Circuit(1), self.hs[0].c):
            for kind in ("gate", "macro", "backend"):
                tab = self.table(kind)
                for name in self.names(kind):
                    self.resolve(kind, name, c, name in tab, tab.get(name))
        from blueqat import gate
        c = self.Circuit(2).h[0].cx[0, 1].m[1]
        check([type(o) for o in c.ops] == [gate.HGate, gate.CXGate, gate.Measurement], "other-gate",
              "h, cx, m made %s", c.ops)
        for h in self.hs:
            got = h.c.get_default_backend_name()
            check(got == self.current(h), "circuit-default", "%s's default backend is %r, expected %r", h.name, got,
                  self.current(h))
            if h.default is None:
                continue
        h = self.hs[-1]
        c = h.c.copy(copy_backends=False)
        t = Handle(h.name + "'", c, h.default)
        self.ran(_NoRec, t, self.current(h), lambda: c.run(), f"a run of {h.name}'s copy")

    # ---- threads with their own names
    def do_threads(self, ch, rec):
        sch = Scheduler(ch, rec, gap_bits=ch.pick([4, 6, 9]), attr_only=ch.draw(2) == 1)
        plans = []
        suffix = "abc"
        for t in range(ch.range(2, 3)):
            names = {"gate": "dstg" + suffix[t], "macro": "dstm" + suffix[t], "backend": "dstb" + suffix[t]}
            state = {k: self.table(k).get(n) for k, n in names.items()}
            steps = []
            local = {k: n in self.table(k) for k, n in names.items()}
            for _ in range(ch.range(1, 5)):
                kind = ch.pick(["backend", "gate", "macro"])
                if local[kind] and ch.draw(3) == 2:
                    steps.append((kind, "unregister", None, None))
                    local[kind] = False
                elif local[kind] and ch.draw(3) == 2:
                    steps.append((kind, "duplicate", self.fresh(kind), None))
                elif ch.draw(3) == 2:
                    steps.append((kind, "use", None, None))
                else:
                    thing = self.fresh(kind)
                    steps.append((kind, "register", thing, self.token(kind, thing)))
                    local[kind] = True
            out = {k: (k_in, state[k]) for k, k_in in ((k, names[k] in self.table(k)) for k in names)}
            plans.append((names, out, steps))

            def body(names=names, out=out, steps=steps):
                for kind, what, thing, tok in steps:
                    name = names[kind]
                    if what == "register":
                        self.register(kind, name, thing, allow_overwrite=True)
                        out[kind] = (True, tok)
                    elif what == "unregister":
                        getattr(self.G, "unregister_" + kind)(name)
                        out[kind] = (False, None)
                    elif what == "duplicate":
                        try:
                            self.register(kind, name, thing)
                        except ValueError:
                            pass
                        else:
                            raise Violation("accepted", f"a duplicate {kind} {name!r} was accepted")
                    self.resolve(kind, name, self.Circuit(1), *out[kind])
            sch.spawn(f"T{t}", body)
        sch.run()
        for task in sch.tasks:
            if task.exc is not None:
                raise task.exc
        for names, out, steps in plans:
            for kind, name in names.items():
                tab = self.table(kind)
                tab.pop(name, None)
                if out[kind][0]:
                    tab[name] = out[kind][1]
        self.changes += 1
        rec.op("threads", [[(k, w) for k, w, _, _ in s] for _, _, s in plans])


class _NoRec:
    op = staticmethod(lambda *a: None)


CHECK = C14()
