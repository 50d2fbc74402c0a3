"""A small OpenQASM 2 reader (qelib1 gates) giving operations of the reference model."""
import ast
import math
import re

from .core import Violation
from . import refmodel as rm
from .refmodel import Op

SAME = {"x", "y", "z", "h", "s", "sdg", "t", "tdg", "rx", "ry", "rz", "cx", "cy", "cz", "ch", "swap", "ccx", "cswap",
        "crz", "cu3", "u2", "u3", "rzz", "rxx", "crx", "cry"}
OTHER = {"id": "i", "u1": "phase", "cu1": "cphase", "p": "phase", "cp": "cphase", "u": "u3", "U": "u3", "CX": "cx"}
_REG = re.compile(r"^(qreg|creg)\s+([a-z]\w*)\s*\[\s*(\d+)\s*\]$")
_MEAS = re.compile(r"^measure\s+(.+?)\s*->\s*(.+)$")
_GATE = re.compile(r"^([A-Za-z]\w*)\s*(?:\((.*)\))?\s+(.+)$")
_ARG = re.compile(r"^([a-z]\w*)(?:\s*\[\s*(\d+)\s*\])?$")


def bad(msg, *a):
    raise Violation("invalid-program", msg % a)


def number(s):
    try:
        node = ast.parse(s.strip(), mode="eval").body
    except SyntaxError:
        bad("angle %r", s)

    def ev(n):
        if isinstance(n, ast.Constant) and type(n.value) in (int, float):
            return float(n.value)
        if isinstance(n, ast.Name) and n.id == "pi":
            return math.pi
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.UAdd)):
            return -ev(n.operand) if isinstance(n.op, ast.USub) else ev(n.operand)
        if isinstance(n, ast.BinOp):
            a, b = ev(n.left), ev(n.right)
            for k, f in ((ast.Add, lambda: a + b), (ast.Sub, lambda: a - b), (ast.Mult, lambda: a * b),
                         (ast.Div, lambda: a / b)):
                if isinstance(n.op, k):
                    return f()
        bad("angle %r", s)
    v = ev(node)
    if not math.isfinite(v):
        bad("angle %r", s)
    return v


def parse(text):
    """(operations, number of qubits) of a program; raises Violation if it is not one."""
    text = re.sub(r"//[^\n]*", "", text)
    stmts = [" ".join(s.split()) for s in text.split(";")]
    if stmts and stmts[-1]:
        bad("the last statement has no semicolon: %r", stmts[-1])
    stmts = [s for s in stmts if s]
    if not stmts or not re.match(r"^OPENQASM 2(\.0)?$", stmts[0]):
        bad("the program starts with %r", stmts[:1])
    qregs, cregs, ops = {}, {}, []
    nq = nc = 0
    included = False

    def args(s, regs, what):
        out = []
        for a in s.split(","):
            m = _ARG.match(a.strip())
            if not m or m.group(1) not in regs:
                bad("%s argument %r", what, a)
            start, size = regs[m.group(1)]
            if m.group(2) is None:
                out.append(list(range(start, start + size)))
            else:
                k = int(m.group(2))
                if k >= size:
                    bad("%s index out of range: %r", what, a)
                out.append([start + k])
        ln = max(len(o) for o in out)
        if any(len(o) not in (1, ln) for o in out):
            bad("register sizes differ: %r", s)
        return [tuple(o[0] if len(o) == 1 else o[i] for o in out) for i in range(ln)]

    for s in stmts[1:]:
        if s.startswith("include"):
            if not re.match(r'^include\s+"qelib1\.inc"$', s):
                bad("unknown include %r", s)
            included = True
            continue
        m = _REG.match(s)
        if m:
            kind, name, size = m.group(1), m.group(2), int(m.group(3))
            if name in qregs or name in cregs:
                bad("register %r declared twice", name)
            if kind == "qreg":
                qregs[name] = (nq, size)
                nq += size
            else:
                cregs[name] = (nc, size)
                nc += size
            continue
        if s == "barrier" or s.startswith("barrier "):
            continue
        m = _MEAS.match(s)
        if m:
            qs, cs = args(m.group(1), qregs, "measure"), args(m.group(2), cregs, "measure")
            if len(qs) != len(cs):
                bad("measure between registers of different sizes: %r", s)
            for (q,), (c,) in zip(qs, cs):
                if q != c:
                    bad("qubit %d is measured into bit %d", q, c)
                ops.append(Op("measure", (), q))
            continue
        m = _GATE.match(s)
        if not m:
            bad("statement %r", s)
        name, par, tg = m.group(1), m.group(2), m.group(3)
        qs = args(tg, qregs, name)
        if name == "reset":
            if par is not None:
                bad("reset with parameters")
            ops += [Op("reset", (), q) for (q,) in qs]
            continue
        g = OTHER.get(name, name if name in SAME else None)
        if g is None or not included and name not in ("U", "CX"):
            bad("gate %r is not defined", name)
        p = [number(x) for x in par.split(",")] if par and par.strip() else []
        arity = 1 if g in rm.ONE else 2 if g in rm.TWO else 3
        if len(p) != rm.NPARAM[g]:
            bad("gate %s with %d parameters", name, len(p))
        for t in qs:
            if len(t) != arity or len(set(t)) != arity:
                bad("gate %s on qubits %s", name, t)
            ops.append(Op(g, p, t[0] if arity == 1 else t))
    if nc != nq:
        bad("%d qubits but %d classical bits", nq, nc)
    return ops, nq


def meaning(ops, n):
    """Classical bits -> unnormalised density matrix, for the start state |0...0>."""
    br = rm.branches(ops, n, limit=2048)
    if br is None:
        return None
    out = {}
    for p, v, c, _ in br:
        out[c] = out.get(c, 0) + p * _outer(v)
    return out


def _outer(v):
    import numpy as np
    return np.outer(v, v.conj())


def same_meaning(a, b, tol=1e-9):
    import numpy as np
    for k in set(a) | set(b):
        if k not in a or k not in b:
            d = a.get(k, b.get(k))
            if np.trace(d).real > tol:
                return False
        elif np.max(np.abs(a[k] - b[k])) > tol:
            return False
    return True
