"""Stand-in for numba: interprets the kernels' Python source.

Scalars are Python ints/floats/complexes (array stores wrap to the array's type), and
every `prange` loop of a parallel kernel becomes a set of workers whose partition and
interleaving of loads and stores a scheduler decides (or one worker, when none is set).
"""
import ast
import inspect
import sys
import textwrap
import types

import numpy as np

from . import env
from .core import HarnessError

PAR = None            # callable(body, range) -> list of per-worker reduction tuples
TEAR = None           # called between the two halves of a complex load or store
ACCESS = None         # called before every load and store of an array element


def _ld(a, i):
    if ACCESS is not None and isinstance(a, np.ndarray):
        ACCESS()
    if TEAR is not None and isinstance(a, np.ndarray) and a.dtype.kind == "c" and isinstance(i, int):
        re = a[i].real
        TEAR()
        return complex(re, a[i].imag)
    v = a[i]
    if isinstance(v, np.generic):
        return v.item()
    return v


def _st(a, i, v):
    if ACCESS is not None and isinstance(a, np.ndarray):
        ACCESS()
    if isinstance(a, np.ndarray) and a.dtype.kind == "u" and isinstance(v, int):
        v &= (1 << (8 * a.dtype.itemsize)) - 1
    elif isinstance(a, np.ndarray) and a.dtype.kind == "i" and isinstance(v, int):
        b = 8 * a.dtype.itemsize
        v &= (1 << b) - 1
        if v >> (b - 1):
            v -= 1 << b
    if TEAR is not None and isinstance(a, np.ndarray) and a.dtype.kind == "c" and isinstance(i, int):
        v = complex(v)
        a.real[i] = v.real
        TEAR()
        a.imag[i] = v.imag
        return
    a[i] = v


def _it(x):
    for v in x:
        if isinstance(v, np.generic):
            v = v.item()
        elif isinstance(v, tuple):
            v = tuple(w.item() if isinstance(w, np.generic) else w for w in v)
        yield v


def _scalar(x):
    return x.item() if isinstance(x, np.generic) else x


def _par(body, *rng):
    r = range(*[int(x) for x in rng])
    if PAR is None:
        return [body(r)]
    return PAR(body, r)


_IDENT = {ast.Add: 0.0, ast.Sub: 0.0, ast.Mult: 1.0, ast.BitOr: 0, ast.BitXor: 0}


def _combine(op, start, parts):
    for p in parts:
        if op in ("Add", "Sub"):
            start = start + p
        elif op == "Mult":
            start = start * p
        elif op == "BitOr":
            start = start | p
        elif op == "BitXor":
            start = start ^ p
        elif op == "max":
            start = max(start, p)
        elif op == "min":
            start = min(start, p)
    return start


_MINMAX = {"max": float("-inf"), "min": float("inf")}


def _self_update(n):
    """(variable, kind) for `acc = acc + x`, `acc = x + acc`, `acc = max(acc, x)`."""
    if not (isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name)):
        return None
    nm, v = n.targets[0].id, n.value
    same = lambda e: isinstance(e, ast.Name) and e.id == nm
    if isinstance(v, ast.BinOp) and (same(v.left) or same(v.right) and type(v.op) in (ast.Add, ast.Mult, ast.BitOr, ast.BitXor)):
        return nm, type(v.op)
    if (isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in _MINMAX and len(v.args) == 2
            and any(map(same, v.args))):
        return nm, v.func.id
    return None


def _ident(op):
    return _MINMAX[op] if isinstance(op, str) else _IDENT[op]


def _name(n, ctx=None):
    return ast.Name(id=n, ctx=ctx or ast.Load())


def _call(f, *args):
    return ast.Call(func=_name(f), args=list(args), keywords=[])


class _Tr(ast.NodeTransformer):
    def __init__(self, parallel):
        self.parallel = parallel
        self.k = 0
        self.depth = 0

    def fresh(self):
        self.k += 1
        return f"__dst_t{self.k}"

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            return _call("__dst_ld", node.value, _idx(node.slice))
        return node

    def visit_Call(self, node):
        """numba's integers are plain numbers here: np.uint64(3) + 1 is not a float."""
        self.generic_visit(node)
        return node if getattr(node.func, "id", "").startswith("__dst") else _call("__dst_u", node)

    def visit_Assign(self, node):
        if len(node.targets) == 1 and isinstance(node.targets[0], ast.Subscript):
            t = node.targets[0]
            value = self.visit(node.value)
            return ast.Expr(_call("__dst_st", self.visit(t.value), _idx(self.visit(t.slice)), value))
        if any(isinstance(s, ast.Subscript) for t in node.targets for s in ast.walk(t)):
            # a, b[i] = ... : through temporaries
            pre = []
            value = self.visit(node.value)
            tmp = self.fresh()
            pre.append(ast.Assign(targets=[_name(tmp, ast.Store())], value=value))
            for t in node.targets:
                elts = t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t]
                for j, e in enumerate(elts):
                    src = _name(tmp)
                    if isinstance(t, (ast.Tuple, ast.List)):
                        src = ast.Subscript(value=_name(tmp), slice=ast.Constant(j), ctx=ast.Load())
                    if isinstance(e, ast.Subscript):
                        pre.append(ast.Expr(_call("__dst_st", self.visit(e.value),
                                                  _idx(self.visit(e.slice)), src)))
                    else:
                        pre.append(ast.Assign(targets=[e], value=src))
            return pre
        return self.generic_visit(node)

    def visit_AugAssign(self, node):
        value = self.visit(node.value)
        if isinstance(node.target, ast.Subscript):
            o, i, v = self.fresh(), self.fresh(), self.fresh()
            t = node.target
            return [
                ast.Assign(targets=[_name(o, ast.Store())], value=self.visit(t.value)),
                ast.Assign(targets=[_name(i, ast.Store())], value=_idx(self.visit(t.slice))),
                ast.Assign(targets=[_name(v, ast.Store())], value=_call("__dst_ld", _name(o), _name(i))),
                ast.Expr(_call("__dst_st", _name(o), _name(i),
                               ast.BinOp(left=_name(v), op=node.op, right=value))),
            ]
        node.value = value
        return node

    def visit_For(self, node):
        it = node.iter
        is_prange = (isinstance(it, ast.Call) and
                     (getattr(it.func, "id", None) == "prange" or getattr(it.func, "attr", None) == "prange"))
        if is_prange and self.parallel and self.depth == 0:
            return self.lift(node)
        if is_prange:
            it.func = _name("range")
        self.generic_visit(node)
        if not is_prange:
            node.iter = _call("__dst_it", node.iter)
        return node

    def lift(self, node):
        aug, assigned = {}, set()
        for s in node.body:
            for n in ast.walk(s):
                if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
                    aug.setdefault(n.target.id, type(n.op))
                elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    assigned.add(n.id)
        augs = {id(n.target) for s in node.body for n in ast.walk(s) if isinstance(n, ast.AugAssign)}
        plain = {n.id for s in node.body for n in ast.walk(s)
                 if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and id(n) not in augs}
        # `acc = acc + x` is a reduction as well
        for s in node.body:
            for n in ast.walk(s):
                up = _self_update(n)
                if up:
                    nm = up[0]
                    if sum(1 for s2 in node.body for m in ast.walk(s2) if isinstance(m, ast.Name)
                           and m.id == nm and isinstance(m.ctx, ast.Store)) == 1:
                        aug[nm] = up[1]
                        plain.discard(nm)
        reds = sorted(v for v in aug if v not in plain)
        for v in reds:
            if aug[v] not in _IDENT and aug[v] not in _MINMAX:
                raise HarnessError(f"unsupported reduction {aug[v]} on {v}")
        self.depth += 1
        body = []
        for s in node.body:
            r = self.visit(s)
            body += r if isinstance(r, list) else [r]
        self.depth -= 1
        fn, its, res = self.fresh(), self.fresh(), self.fresh()
        inner = [ast.Assign(targets=[_name(v, ast.Store())], value=ast.Constant(_ident(aug[v]))) for v in reds]
        inner.append(ast.For(target=node.target, iter=_name(its), body=body, orelse=[]))
        inner.append(ast.Return(ast.Tuple(elts=[_name(v) for v in reds], ctx=ast.Load())))
        fdef = ast.FunctionDef(
            name=fn, args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=its)], kwonlyargs=[],
                                        kw_defaults=[], defaults=[]),
            body=inner, decorator_list=[], returns=None, type_params=[])
        out = [fdef, ast.Assign(targets=[_name(res, ast.Store())],
                                value=_call("__dst_par", _name(fn), *[self.visit(a) for a in node.iter.args]))]
        for j, v in enumerate(reds):
            parts = ast.ListComp(
                elt=ast.Subscript(value=_name("__dst_p"), slice=ast.Constant(j), ctx=ast.Load()),
                generators=[ast.comprehension(target=_name("__dst_p", ast.Store()), iter=_name(res),
                                              ifs=[], is_async=0)])
            out.append(ast.Assign(targets=[_name(v, ast.Store())],
                                  value=_call("__dst_combine", ast.Constant(aug[v] if isinstance(aug[v], str) else aug[v].__name__), _name(v), parts)))
        return out


def _idx(s):
    """A subscript's slice as an expression."""
    if isinstance(s, ast.Slice):
        none = ast.Constant(None)
        return _call("__dst_slice", s.lower or none, s.upper or none, s.step or none)
    if isinstance(s, ast.Tuple):
        return ast.Tuple(elts=[_idx(e) for e in s.elts], ctx=ast.Load())
    return s


HELPERS = {"__dst_ld": _ld, "__dst_st": _st, "__dst_it": _it, "__dst_par": _par,
           "__dst_combine": _combine, "__dst_u": _scalar, "__dst_slice": slice}


def transform(fn, opts):
    lines, start = inspect.getsourcelines(fn)
    tree = ast.parse(textwrap.dedent("".join(lines)))
    ast.increment_lineno(tree, start - 1)
    f = tree.body[0]
    if isinstance(f, ast.Assign):          # e.g. name = njit(lambda ...): left as it is
        return fn
    f.decorator_list = []
    f.name = fn.__name__
    _Tr(bool(opts.get("parallel"))).visit(f)
    free = fn.__code__.co_freevars
    if free:
        fac = ast.FunctionDef(
            name="__dst_factory", args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=v) for v in free],
                                                     kwonlyargs=[], kw_defaults=[], defaults=[]),
            body=[f, ast.Return(_name(f.name))], decorator_list=[], returns=None, type_params=[])
        tree.body = [fac]
    ast.fix_missing_locations(tree)
    code = compile(tree, fn.__code__.co_filename, "exec")
    g = fn.__globals__
    g.update(HELPERS)
    ns = {}
    env.note_code(code)
    exec(code, g, ns)
    if free:
        return ns["__dst_factory"](*[c.cell_contents for c in fn.__closure__])
    return ns[f.name]


class Dispatcher:
    """What numba's decorators return: callable, scalar arguments unboxed."""

    def __init__(self, fn, opts):
        self.py_func = fn
        self.f = transform(fn, opts)
        self.__name__ = fn.__name__
        self.__doc__ = fn.__doc__

    def __call__(self, *a, **k):
        return self.f(*[_scalar(x) for x in a], **{n: _scalar(x) for n, x in k.items()})

    def __reduce__(self):
        return self.py_func.__qualname__


class FakeType:
    def __init__(self, name, bits=None, conv=None):
        self.name = name
        self.bits = bits
        self.conv = conv

    def __call__(self, *a):
        if any(isinstance(x, (FakeType, Sig)) for x in a) or not a:
            return Sig()
        x = a[0]
        if self.conv is not None:
            return self.conv(x)
        return int(x) & ((1 << self.bits) - 1)

    def __getitem__(self, i):
        return FakeType(self.name + "[]", self.bits, self.conv)


class Sig:
    def __getitem__(self, i):
        return self


def _decorator(*sigs, **opts):
    if len(sigs) == 1 and isinstance(sigs[0], types.FunctionType) and not opts:
        return Dispatcher(sigs[0], {})
    return lambda fn: Dispatcher(fn, opts)


def make_module():
    m = types.ModuleType("numba")
    m.njit = m.jit = _decorator
    m.prange = range
    for b in (8, 16, 32, 64):
        setattr(m, f"uint{b}", FakeType(f"uint{b}", b))
        setattr(m, f"int{b}", FakeType(f"int{b}", b, lambda x: int(x)))
    m.float32 = m.float64 = FakeType("float", conv=float)
    m.complex64 = m.complex128 = FakeType("complex", conv=complex)
    m.boolean = FakeType("bool", conv=bool)
    m.void = m.none = FakeType("void", conv=lambda x: None)
    m.types = m
    m.__version__ = "0.50.1"
    return m


_mod = None


def load():
    """Import the numba backend against the stand-in."""
    global _mod
    if _mod is None:
        if "numba" not in sys.modules:
            sys.modules["numba"] = make_module()
        import importlib
        _mod = importlib.import_module("blueqat.backends._numba_backend_impl")
    return _mod


def available():
    """False when the backend's source uses something the interpreter does not know."""
    try:
        load()
        return True
    except (HarnessError, SyntaxError, OSError, AttributeError, TypeError, ImportError):
        return False
