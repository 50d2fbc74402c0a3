"""Mechanical mutants of blueqat: which ones do the repository's tests let pass, and which of
those does no check notice?   mutants.py gen OUT.json FILE.. | tests M.json | checks M.json CNN,..

Only a way to find blind spots; no check uses it."""
import ast
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

REPO = "/repo"
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==",
       ast.Is: "is not", ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.Pow: "*", ast.FloorDiv: "*",
       ast.Mod: "*", ast.LShift: ">>", ast.BitAnd: "|", ast.BitOr: "&"}
STRIP = {"list", "tuple", "dict", "set", "deepcopy", "copy", "array", "sorted", "abs", "int", "float", "asarray"}


def offsets(src):
    out = [0]
    for line in src.split("\n"):
        out.append(out[-1] + len(line.encode()) + 1)
    return out


def mutants(path):
    src = open(os.path.join(REPO, path)).read()
    raw = src.encode()
    off = offsets(src)
    tree = ast.parse(src)
    out = []

    def seg(n):
        return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset

    def put(a, b, new, what, n):
        old = raw[a:b].decode()
        if old != new:
            out.append({"file": path, "a": a, "b": b, "old": old, "new": new, "what": what, "line": n.lineno})

    def text(n):
        a, b = seg(n)
        return raw[a:b].decode()

    def visit(n, ctx):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
            body = n.body
            if isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant):
                body = body[1:]
            for d in n.decorator_list:
                visit(d, ctx)
            if not isinstance(n, ast.ClassDef):
                for d in n.args.defaults + [d for d in n.args.kw_defaults if d]:
                    visit(d, ctx)
            for b in body:
                visit(b, ctx)
            return
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            return
        if isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise, ast.Delete)) and not (
                isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
            put(*seg(n), "pass", "delete", n)
        if isinstance(n, ast.Return) and n.value is not None and not isinstance(n.value, ast.Constant):
            put(*seg(n.value), "None", "return None", n)
        if isinstance(n, (ast.If, ast.While, ast.IfExp)):
            put(*seg(n.test), "True" if not isinstance(n, ast.While) else "False", "cond", n)
            put(*seg(n.test), f"(not ({text(n.test)}))", "negate", n)
            if not isinstance(n, ast.While):
                put(*seg(n.test), "False", "cond", n)
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            put(*seg(n), f"{text(n.left)} {CMP[type(n.ops[0])]} {text(n.comparators[0])}", "cmp", n)
        if isinstance(n, ast.BoolOp):
            j = " or " if isinstance(n.op, ast.And) else " and "
            put(*seg(n), "(" + j.join(f"({text(v)})" for v in n.values) + ")", "bool", n)
            for i, v in enumerate(n.values):
                rest = [f"({text(w)})" for k, w in enumerate(n.values) if k != i]
                put(*seg(n), "(" + (" and " if j == " or " else " or ").join(rest) + ")", "drop", n)
        if isinstance(n, ast.BinOp) and type(n.op) in BIN and not isinstance(n.left, (ast.Constant,)) | (
                isinstance(n.left, ast.JoinedStr)):
            put(*seg(n), f"({text(n.left)} {BIN[type(n.op)]} {text(n.right)})", "bin", n)
        if isinstance(n, ast.AugAssign) and type(n.op) in BIN:
            put(*seg(n), f"{text(n.target)} {BIN[type(n.op)]}= {text(n.value)}", "aug", n)
            put(*seg(n), f"{text(n.target)} = {text(n.target)} {BIN_BACK[type(n.op)]} {text(n.value)}", "aug-rebind", n)
        if isinstance(n, ast.Assign) and isinstance(n.value, ast.BinOp) and len(n.targets) == 1 \
                and text(n.targets[0]) == text(n.value.left) and type(n.value.op) in BIN_BACK:
            put(*seg(n), f"{text(n.targets[0])} {BIN_BACK[type(n.value.op)]}= {text(n.value.right)}", "aug-inplace", n)
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            put(*seg(n), f"({text(n.operand)})", "unary", n)
        if isinstance(n, ast.Constant):
            v = n.value
            if v is True or v is False:
                put(*seg(n), str(not v), "const", n)
            elif isinstance(v, int):
                put(*seg(n), str(v + 1), "const", n)
                put(*seg(n), str(v - 1) if v else "(-1)", "const", n)
            elif isinstance(v, float):
                put(*seg(n), repr(v * 1.5 + 0.25), "const", n)
            elif v is None:
                put(*seg(n), "0", "const", n)
        if isinstance(n, ast.Call):
            f = n.func
            name = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else ""
            if name in STRIP and n.args and not isinstance(n.args[0], ast.Starred):
                put(*seg(n), f"({text(n.args[0])})", "strip", n)
            if name in ("copy", "keys", "values", "items") and not n.args and isinstance(f, ast.Attribute):
                put(*seg(n), f"({text(f.value)})", "strip", n)
            if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
                new = raw[seg(n)[0]:seg(n.args[0])[0]].decode() + text(n.args[1]) + \
                    raw[seg(n.args[0])[1]:seg(n.args[1])[0]].decode() + text(n.args[0]) + \
                    raw[seg(n.args[1])[1]:seg(n)[1]].decode()
                put(*seg(n), new, "swap", n)
            for k in n.keywords:
                if k.arg:
                    a, b = seg(k)
                    put(a, b, "", "dropkw", n) if len(n.keywords) == 1 and not n.args else None
        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            put(*seg(n), f"({text(n.value)})", "noslice", n)
        if isinstance(n, (ast.Tuple, ast.List)) and len(n.elts) == 2 and isinstance(getattr(n, "ctx", None), ast.Load):
            a, b = seg(n)
            put(a, b, raw[a:seg(n.elts[0])[0]].decode() + text(n.elts[1]) + ", " + text(n.elts[0]) +
                raw[seg(n.elts[1])[1]:b].decode(), "swap2", n)
        if isinstance(n, ast.JoinedStr):
            return
        for c in ast.iter_child_nodes(n):
            visit(c, ctx)

    visit_body = tree.body
    for b in visit_body:
        visit(b, None)
    good = []
    for m in out:
        new = apply(raw, m)
        try:
            ast.parse(new)
        except SyntaxError:
            continue
        good.append(m)
    return good


BIN_BACK = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.BitAnd: "&", ast.BitOr: "|"}


def apply(raw, m):
    return raw[:m["a"]] + m["new"].encode() + raw[m["b"]:]


def sh(cmd, cwd, env=None, timeout=120):
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.Popen(cmd, shell=True, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         text=True, start_new_session=True)
    try:
        o, _ = p.communicate(timeout=timeout)
        return p.returncode, o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        return 124, "TIMEOUT"


def with_copy(m, f, commit_raw={}):
    d = tempfile.mkdtemp(prefix="mut_", dir="/tmp")
    try:
        r = f"{d}/repo"
        shutil.copytree(REPO, r, symlinks=True, ignore=shutil.ignore_patterns(".git", "examples", "tutorial*", "doc*", "__pycache__"))
        p = f"{r}/{m['file']}"
        raw = open(p, "rb").read()
        assert raw[m["a"]:m["b"]].decode() == m["old"], "source changed since gen"
        open(p, "wb").write(apply(raw, m))
        return f(r, d)
    finally:
        shutil.rmtree(d)


def tests(m):
    def go(r, d):
        rc, o = sh(f"PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 PYTHONPATH=/opt/vp/plugin:{r} "
                   "/opt/venv/bin/python -m pytest -x -q -p no:cacheprovider -p vp_seed tests", r)
        return rc
    return with_copy(m, go)


def checks(m, props, workers=8):
    def go(r, d):
        for p in props:
            rc, o = sh(f"/opt/venv/bin/python -m dst check {p} --tier quick {os.environ.get('MUT_ARGS', '')}", "/verif",
                       {"VERIF_REPO": r, "VERIF_SEED": "1", "VERIF_OUT": f"{d}/out", "DST_SHRINK": "0",
                        "DST_WORKERS": str(workers)}, 600)
            if rc != 0:
                return p, rc, "\n".join(o.strip().splitlines()[1:3])[:300]
        return None, 0, ""
    return with_copy(m, go)


def main():
    cmd, path, rest = sys.argv[1], sys.argv[2], sys.argv[3:]
    if cmd == "gen":
        ms = []
        for f in rest:
            lines = None
            if ":" in f:
                f, lines = f.split(":")
                lo, hi = map(int, lines.split("-"))
            ms += [m for m in mutants(f) if not lines or lo <= m["line"] <= hi]
        json.dump(ms, open(path, "w"), indent=0)
        print(len(ms))
        return
    ms = json.load(open(path))
    if cmd == "tests":
        todo = [m for m in ms if "tests" not in m]
        with ThreadPoolExecutor(int(rest[0]) if rest else 8) as ex:
            for i, (m, rc) in enumerate(zip(todo, ex.map(tests, todo))):
                m["tests"] = rc
                if i % 20 == 19:
                    json.dump(ms, open(path, "w"), indent=0)
        json.dump(ms, open(path, "w"), indent=0)
        print(len(ms), "survive tests:", sum(m["tests"] == 0 for m in ms))
    if cmd == "checks":
        props = rest[0].split(",")
        limit = int(rest[1]) if len(rest) > 1 else 10 ** 9
        todo = [m for m in ms if m.get("tests", 0) == 0 and not m.get("caught")
                and not set(props) <= set(m.get("tried", []))]
        random.Random(1).shuffle(todo)
        par, workers = 4, 3
        todo = todo[:limit]
        with ThreadPoolExecutor(par) as ex:
            for m, (p, rc, o) in zip(todo, ex.map(lambda m: checks(m, [q for q in props if q not in m.get("tried", [])], workers), todo)):
                m["caught"] = [p, rc, o] if p else None
                if not p:
                    m["tried"] = sorted(set(m.get("tried", [])) | set(props))
                print(m["file"], m["line"], m["what"], repr(m["old"][:60]), "->", repr(m["new"][:60]), "|",
                      p or "SURVIVED", rc if p else "", o[-160:].replace("\n", " ") if rc == 2 or rc == 124 else "", flush=True)
                json.dump(ms, open(path, "w"), indent=0)


if __name__ == "__main__":
    main()
