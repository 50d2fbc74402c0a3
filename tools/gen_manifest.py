"""Writes MANIFEST.json from the checks that exist and the reasons below."""
import importlib, json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
PY = "/opt/venv/bin/python"
NA = {
    "C29": "The qgate simulator is not installed and cannot be obtained; a stand-in for it would have to invent the "
           "very semantics the property compares, so nothing of the real system would be simulated.",
}
props = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    f = os.path.join(ROOT, "dst", "checks", p.lower() + ".py")
    if p in NA:
        na.append({"property": p, "reason": NA[p]})
    elif not os.path.exists(f):
        na.append({"property": p, "reason": "No check yet."})
    else:
        c = importlib.import_module(f"dst.checks.{p.lower()}").CHECK
        checks.append({
            "property": p,
            "quick_cmd": f"{PY} -m dst check {p} --tier quick",
            "thorough_cmd": f"{PY} -m dst check {p} --tier thorough",
            "evidence_file": f"evidence/{p}.json",
            "technique": "deterministic simulation with fault injection: " + c.TECHNIQUE,
            "level": "exploration",
            "level_note": c.LEVEL_NOTE,
        })
m = {
    "version": 1,
    "setup_cmd": f"{PY} -m dst selftest",
    "hooks": {"guard": "BLUEQAT_DST", "enable": "No hooks were needed: /repo contains no guarded code. The checks run the "
              "unmodified sources; seams are the random module, sys.monitoring, sys.modules and constructor arguments.",
              "source_commits": []},
    "checks": checks,
    "not_applicable": na,
}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
