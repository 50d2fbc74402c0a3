"""Runs each planted bug's own check on a scratch copy of /repo with the bug; prints what caught it.

usage: seeded.py [-j N] [ids...]"""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"


def one(name):
    d = os.path.join(ROOT, "seeded", name)
    prop = json.load(open(os.path.join(d, "meta.json")))["property"]
    tmp = tempfile.mkdtemp(prefix="seeded_")
    try:
        shutil.copytree("/repo", os.path.join(tmp, "repo"), symlinks=True)
        r = subprocess.run(["git", "apply", os.path.join(d, "patch.diff")], cwd=os.path.join(tmp, "repo"), capture_output=True, text=True)
        if r.returncode:
            return name, prop, "does not apply: " + r.stderr.strip()[:100]
        env = dict(os.environ, VERIF_REPO=os.path.join(tmp, "repo"), VERIF_OUT=os.path.join(tmp, "out"), DST_SHRINK="0",
                   DST_WORKERS="4", VERIF_SEED=os.environ.get("VERIF_SEED", "1"))
        r = subprocess.run([PY, "-m", "dst", "check", prop, "--tier", "quick"], cwd=ROOT, env=env, capture_output=True, text=True)
        cls = [l.split()[1] for l in r.stdout.splitlines() if l.strip().startswith("VIOLATION ") and "property=" not in l]
        return name, prop, ("caught " + cls[0] if r.returncode == 1 and cls else "caught" if r.returncode == 1 else f"MISSED rc={r.returncode}")
    finally:
        shutil.rmtree(tmp)


if __name__ == "__main__":
    a = sys.argv[1:]
    j = 2
    if a[:1] == ["-j"]:
        j, a = int(a[1]), a[2:]
    with ThreadPoolExecutor(j) as ex:
        for r in ex.map(one, a or sorted(os.listdir(os.path.join(ROOT, "seeded")))):
            print(*r, flush=True)
