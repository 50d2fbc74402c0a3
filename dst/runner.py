"""Batches of simulated runs: fork per run, shrinking, replay files, evidence."""
import json
import os
import pickle
import resource
import select
import signal
import sys
import time
import traceback

from . import env
from . import gen
from .core import Choices, Recorder, Violation, HarnessError, Overrun, run_seed, short, dumps

WORKERS = int(os.environ.get("DST_WORKERS", "8"))
RUN_WALL = float(os.environ.get("DST_RUN_WALL", "90"))
STEP_BUDGET = 30_000_000


def _innermost_repo(tb):
    hit = None
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        if env.in_repo(fn):
            hit = f"{os.path.relpath(fn, env.REPO)}:{tb.tb_frame.f_code.co_name}"
        tb = tb.tb_next
    return hit


ORACLES = ("checks/", "refmodel.py", "opcmp.py", "vqeref.py", "annealref.py", "qasm.py", "gen.py", "world.py",
           "fakedwave.py", "fakeqiskit.py")


def _in_oracle(tb):
    """The frame of the checks or the stand-in services that could not digest a value."""
    hit = None
    while tb is not None:
        rel = os.path.relpath(tb.tb_frame.f_code.co_filename, os.path.join(env.VERIF, "dst"))
        if not rel.startswith(".."):
            hit = f"{rel}:{tb.tb_lineno}" if rel.startswith(ORACLES) else None
        tb = tb.tb_next
    return hit


def execute(check, ch, budget=None):
    """One simulated run in this process. Returns a result dict."""
    rec = Recorder()
    res = {"status": "ok"}
    gen.seed_all(0)
    try:
        if budget:
            _install_budget(budget)
        try:
            check.run(ch, rec)
        finally:
            if budget:
                sys.settrace(None)
    except Violation as v:
        res = {"status": "violation", "cls": v.cls, "msg": short(v.msg, 1500)}
    except Overrun:
        res = {"status": "error", "cls": "overrun", "msg": "too many choices"}
    except HarnessError as e:
        res = {"status": "error", "cls": "harness", "msg": traceback.format_exc()}
    except BaseException as e:  # noqa
        where = _innermost_repo(e.__traceback__)
        if where:
            # Nothing the workload does entitles the code under test to raise here.
            res = {"status": "violation", "cls": f"unexpected-{type(e).__name__}",
                   "msg": short(f"{where} raised {type(e).__name__}: {e}", 800)}
        elif (isinstance(e, (TypeError, ValueError, LookupError, AttributeError, ArithmeticError))
              and _in_oracle(e.__traceback__)):
            # A value from the code under test that is not even of the kind the checks can examine.
            res = {"status": "violation", "cls": "malformed-result",
                   "msg": short(f"{_in_oracle(e.__traceback__)} could not examine a result: "
                                f"{type(e).__name__}: {e}", 800)}
        else:
            res = {"status": "error", "cls": "harness", "msg": traceback.format_exc()}
    if res["status"] == "violation":
        rec.ev("VIOLATION", res["cls"], res["msg"])
    res["digest"] = rec.digest()
    res["log"] = rec.log if res["status"] != "ok" else None
    res["faults"] = rec.faults
    res["probes"] = rec.probes
    res["states"] = rec.states
    res["steps"] = rec.steps
    res["simtime"] = rec.simtime
    res["inter"] = rec.inter
    res["nontrivial"] = rec.nontrivial
    res["case"] = rec.case
    res["choices"] = ch.seq if res["status"] != "ok" else None
    res["spans"] = ch.spans if res["status"] != "ok" else None
    res["sample"] = rec.log[:40]
    return res


class _Budget(Violation):
    pass


def _install_budget(budget):
    left = [budget]

    def tr(frame, event, arg):
        if not env.in_repo(frame.f_code.co_filename):
            return None
        return loc

    def loc(frame, event, arg):
        left[0] -= 1
        if left[0] < 0:
            raise Violation("no-progress", "step budget of %d lines exhausted in %s" % (
                budget, frame.f_code.co_name))
        return loc
    sys.settrace(tr)


def forked(check, seed=None, prefix=None, wall=None, budget=None):
    """One run in a forked child; 'timeout' if it outlives its wall limit."""
    wall = wall or RUN_WALL
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            try:
                resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
            except (ValueError, OSError):
                pass
            devnull = os.open(os.devnull, os.O_WRONLY)
            os.dup2(devnull, 1)
            ch = Choices(seed=seed, prefix=prefix)
            res = execute(check, ch, budget)
            data = pickle.dumps(res)
            with os.fdopen(w, "wb") as f:
                f.write(data)
        except BaseException:
            traceback.print_exc()
            code = 3
        os._exit(code)
    os.close(w)
    buf = bytearray()
    deadline = time.monotonic() + wall
    status = None
    with os.fdopen(r, "rb") as f:
        while True:
            left = deadline - time.monotonic()
            if left <= 0:
                status = "timeout"
                break
            rd, _, _ = select.select([f], [], [], min(left, 5))
            if rd:
                chunk = os.read(f.fileno(), 1 << 16)
                if not chunk:
                    break
                buf += chunk
    if status == "timeout":
        os.kill(pid, signal.SIGKILL)
    _, st = os.waitpid(pid, 0)
    if status == "timeout":
        return {"status": "timeout"}
    if not buf:
        if os.WIFSIGNALED(st):
            return {"status": "crash", "cls": "crash",
                    "msg": f"the process died from signal {os.WTERMSIG(st)}"}
        return {"status": "error", "cls": "harness", "msg": f"no result, wait status {st}"}
    return pickle.loads(bytes(buf))


def run_one(check, seed=None, prefix=None):
    res = forked(check, seed, prefix)
    if res["status"] == "timeout":
        res = forked(check, seed, prefix, wall=max(240, RUN_WALL * 2), budget=STEP_BUDGET)
        if res["status"] == "timeout":
            res = {"status": "error", "cls": "timeout", "msg": "wall limit hit twice"}
    if res["status"] == "crash":
        # A pure-Python package cannot do this: blame (and tolerate a few from) the interpreter.
        res = forked(check, seed, prefix)
    for k, v in (("faults", {}), ("probes", {}), ("states", set()), ("steps", 0), ("simtime", 0),
                 ("inter", None), ("nontrivial", False), ("case", None), ("choices", None),
                 ("spans", None), ("sample", []), ("digest", "-"), ("log", None)):
        res.setdefault(k, v)
    return res


def batch(check, base, n_runs, wall_cap, workers=None, first=0):
    """Runs indices first..first+n_runs-1 on several workers; yields aggregated results."""
    workers = workers or WORKERS
    pipes = []
    pids = []
    stop_r, stop_w = os.pipe()
    os.set_blocking(stop_r, False)
    t0 = time.monotonic()
    sys.stdout.flush()
    for k in range(workers):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                out = os.fdopen(w, "wb")
                for i in range(first + k, first + n_runs, workers):
                    if time.monotonic() - t0 > wall_cap:
                        break
                    rd, _, _ = select.select([stop_r], [], [], 0)
                    if rd:
                        break
                    res = run_one(check, seed=run_seed(base, check.ID, i))
                    res["index"] = i
                    if res["status"] != "ok":
                        res["log"] = res["log"]
                    elif i >= first + 40:
                        res["sample"] = None
                    data = pickle.dumps(res)
                    out.write(len(data).to_bytes(8, "big") + data)
                    out.flush()
                out.close()
            except BaseException:
                traceback.print_exc()
                os._exit(3)
            os._exit(0)
        os.close(w)
        pipes.append(r)
        pids.append(pid)
    bufs = {r: bytearray() for r in pipes}
    results = []
    open_ = set(pipes)
    stopped = False
    while open_:
        rd, _, _ = select.select(list(open_), [], [])
        for r in rd:
            chunk = os.read(r, 1 << 20)
            if not chunk:
                open_.discard(r)
                os.close(r)
                continue
            b = bufs[r]
            b += chunk
            while len(b) >= 8:
                ln = int.from_bytes(b[:8], "big")
                if len(b) < 8 + ln:
                    break
                res = pickle.loads(bytes(b[8:8 + ln]))
                del b[:8 + ln]
                results.append(res)
                if res["status"] not in ("ok", "crash") and res.get("cls") != "timeout" and not stopped:
                    os.write(stop_w, b"x")
                    stopped = True
    os.close(stop_r)
    os.close(stop_w)
    bad = False
    for pid in pids:
        _, st = os.waitpid(pid, 0)
        bad = bad or st != 0
    if bad:
        raise HarnessError("a worker process failed")
    results.sort(key=lambda r: r["index"])
    return results


# ---------------------------------------------------------------- shrinking

def shrink(check, res, max_exec=None, wall=75.0):
    max_exec = int(os.environ.get("DST_SHRINK", "500")) if max_exec is None else max_exec
    cls = res["cls"]
    best = list(res["choices"])
    best_res = res
    t_end = time.monotonic() + wall
    execs = 0
    seen = set()

    def attempt(cand):
        nonlocal best, best_res, execs
        key = tuple(cand)
        if key in seen or execs >= max_exec or time.monotonic() > t_end:
            return False
        seen.add(key)
        execs += 1
        r = forked(check, prefix=list(cand), wall=20)
        if r.get("status") == "violation" and r["cls"] == cls:
            got = r["choices"]
            while got and got[-1] == 0:
                got.pop()
            if (len(got), got) < (len(best), best):
                best = got
                best_res = r
                return True
        return False

    while best and best[-1] == 0:
        best.pop()
    improved = True
    while improved and execs < max_exec and time.monotonic() < t_end:
        improved = False
        # drop whole spans (operations, tasks, faults), largest first
        spans = sorted(set(map(tuple, best_res["spans"] or [])), key=lambda s: s[0] - s[1])
        for s, e in spans:
            if e <= len(best) and attempt(best[:s] + best[e:]):
                improved = True
                break
        if improved:
            continue
        # the same, lowering an earlier count by one
        for s, e in spans[:40]:
            if e > len(best):
                continue
            done = False
            for j in range(max(0, s - 60), s):
                if 0 < best[j] <= 64:
                    c = list(best)
                    c[j] -= 1
                    if attempt(c[:s] + c[e:]):
                        done = True
                        break
                if execs >= max_exec:
                    break
            if done:
                improved = True
                break
        if improved:
            continue
        # drop chunks
        for size in (64, 16, 8, 4, 2, 1):
            i = len(best) - size
            while i >= 0:
                if attempt(best[:i] + best[i + size:]):
                    improved = True
                i -= size
        # zero and lower values
        for i in range(len(best)):
            if i >= len(best) or best[i] == 0:
                continue
            if attempt(best[:i] + [0] + best[i + 1:]):
                improved = True
                continue
            lo, hi = 0, best[i]
            for _ in range(5):
                mid = (lo + hi) // 2
                if mid in (lo, hi):
                    break
                if i < len(best) and attempt(best[:i] + [mid] + best[i + 1:]):
                    improved = True
                    hi = mid
                else:
                    lo = mid
    return best, best_res, execs


# ---------------------------------------------------------------- replay files

def write_replay(check, base, index, choices, res, original_len, execs):
    d = os.path.join(env.VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{check.ID}-{base}-{index}.json")
    with open(path, "w") as f:
        f.write(dumps({
            "property": check.ID,
            "verif_seed": base,
            "run_index": index,
            "run_seed": run_seed(base, check.ID, index),
            "violation": res["cls"],
            "message": res["msg"],
            "digest": res["digest"],
            "choices": choices,
            "original_choices": original_len,
            "shrink_executions": execs,
            "trace": res["log"],
            "replay_with": f"{sys.executable} -m dst replay {os.path.relpath(path, env.VERIF)}",
        }) + "\n")
    return path


def replay(check, path):
    with open(path) as f:
        d = json.load(f)
    check.prepare()
    res = run_one(check, prefix=d["choices"])
    same = res["status"] == "violation" and res["cls"] == d["violation"]
    exact = same and res["digest"] == d["digest"]
    return d, res, same, exact


def replay_fresh(path):
    import subprocess
    p = subprocess.run([sys.executable, "-m", "dst", "replay", path, "--quiet"], cwd=env.VERIF,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=400)
    return p.returncode, p.stdout


# ---------------------------------------------------------------- evidence

def merge(dst, src):
    for k, v in src.items():
        dst[k] = dst.get(k, 0) + v


def write_evidence(check, tier, base, results, wall, violations, extra=None):
    faults, probes = {}, {}
    states, digests, inters = set(), set(), set()
    steps = simtime = 0
    for r in results:
        merge(faults, r["faults"])
        merge(probes, r["probes"])
        states |= r["states"]
        if r["nontrivial"]:
            digests.add(r["digest"])
        if r["inter"]:
            inters.add(r["inter"])
        steps += r["steps"]
        simtime += r["simtime"]
    samples = []
    for r in results:
        if r.get("sample") and r["nontrivial"] and len(samples) < 3:
            samples.append({"run_index": r["index"], "seed": run_seed(base, check.ID, r["index"]),
                            "trace": r["sample"]})
    if not samples and results:
        samples = [{"run_index": results[0]["index"], "trace": results[0].get("sample") or []}]
    cov = {
        "evaluations": len(results),
        "distinct_nontrivial": len(digests),
        "rule": check.RULE,
        "samples": samples,
        "simulated_runs_per_hour": round(len(results) / max(wall, 1e-6) * 3600),
        "seeds_per_hour": round(len(results) / max(wall, 1e-6) * 3600),
        "simulated_workload_steps": steps,
        "simulated_time_scheduler_steps": simtime,
        "faults_fired": faults,
        "rare_condition_probes": probes,
        "distinct_states": len(states),
        "distinct_states_measure": check.STATES,
        "distinct_interleavings": len(inters),
        "distinct_interleavings_measure":
            "distinct sequences of (task, position) at which control changed hands or a fault struck",
        "components_real": check.REAL,
        "components_stubbed": check.STUB,
    }
    if extra:
        cov.update(extra)
    ev = {
        "property": check.ID,
        "tier": tier,
        "seed": base,
        "level": "exploration",
        "coverage": cov,
        "assumptions": check.ASSUMPTIONS,
        "wall_s": round(wall, 2),
        "violations": violations,
    }
    d = os.path.join(env.VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, f"{check.ID}.json"), "w") as f:
        f.write(dumps(ev) + "\n")
    return ev


def known_findings(prop):
    """Lines 'finding: property=<id> class=<violation class> <what fails>'."""
    out = {}
    p = os.path.join(env.VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            if line.startswith("finding: "):
                parts = line.split(None, 3)
                if parts[1] == f"property={prop}":
                    out[parts[2].split("=", 1)[1]] = parts[3].strip()
    return out


def main_check(check, tier, base, n_runs=None, wall_cap=None):
    t0 = time.monotonic()
    n_runs = n_runs or (check.QUICK if tier == "quick" else check.THOROUGH)
    wall_cap = wall_cap or (420 if tier == "quick" else 7200)
    print(f"{check.ID}: seed={base} tier={tier} runs={n_runs} workers={WORKERS}", flush=True)
    check.prepare()
    results = batch(check, base, n_runs, wall_cap)
    bad = [r for r in results if r["status"] == "violation"]
    errs = [r for r in results if r["status"] not in ("ok", "violation")]
    # a few runs lost to the interpreter or to a slow machine cost coverage, nothing else
    crashed = [r for r in errs if r["status"] == "crash"]
    slow = [r for r in errs if r.get("cls") == "timeout"]
    for lost in (crashed, slow):
        if len(lost) <= max(2, len(results) // 50):
            errs = [r for r in errs if not any(r is x for x in lost)]
    wall = time.monotonic() - t0
    known = known_findings(check.ID)
    for key, what in known.items():
        print(f"KNOWN-FINDING: property={check.ID} {what}")
    bad = [r for r in bad if r["cls"] not in known]
    write_evidence(check, tier, base, results, wall, len(bad),
                   {"runs_lost_to_interpreter_crashes": len(crashed), "runs_lost_to_wall_limit": len(slow)})
    if bad:
        r = bad[0]
        first = os.path.join(env.VERIF, "replays")
        path = write_replay(check, base, r["index"], r["choices"], r, len(r["choices"]), 0)
        print(f"{check.ID}: run {r['index']} violates the property [{r['cls']}]: {short(r['msg'], 600)}",
              flush=True)
        if r["cls"] != "no-progress":
            best, bres, execs = shrink(check, r)
            spath = write_replay(check, base, r["index"], best, bres, len(r["choices"]), execs)
            assert spath == path
            r2 = bres
            print(f"{check.ID}: minimised {len(r['choices'])} -> {len(best)} choices in {execs} runs: "
                  f"{short(r2['msg'], 600)}")
        rc, out = replay_fresh(path)
        if rc != 1:
            # fall back to the unminimised execution
            path = write_replay(check, base, r["index"], r["choices"], r, len(r["choices"]), 0)
            rc, out = replay_fresh(path)
        print(f"{check.ID}: replay in a fresh process {'reproduced it' if rc == 1 else 'did NOT reproduce it'}")
        for line in (r.get("log") or [])[-1:]:
            print("   ", short(line, 400))
        print(f"VIOLATION property={check.ID} replay={path}", flush=True)
        return 1
    if errs:
        print(f"{check.ID}: {len(errs)} runs failed in the harness; first (index {errs[0]['index']}):")
        print(errs[0].get("msg"))
        return 2
    f = {}
    p = {}
    for r in results:
        merge(f, r["faults"])
        merge(p, r["probes"])
    print(f"{check.ID}: {len(results)} runs ok in {wall:.1f}s; faults {f}; probes {p}")
    return 0
