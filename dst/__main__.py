import argparse
import importlib
import os
import sys

from . import env


def load(prop):
    return importlib.import_module(f"dst.checks.{prop.lower()}").CHECK


def main():
    ap = argparse.ArgumentParser(prog="dst")
    sub = ap.add_subparsers(dest="cmd", required=True)
    a = sub.add_parser("check")
    a.add_argument("property")
    a.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a.add_argument("--runs", type=int)
    a.add_argument("--wall", type=float)
    a = sub.add_parser("replay")
    a.add_argument("file")
    a.add_argument("--quiet", action="store_true")
    a = sub.add_parser("trace", help="print the trace of one run")
    a.add_argument("property")
    a.add_argument("index", type=int)
    a = sub.add_parser("digests", help="print the event-log digest of many runs")
    a.add_argument("property")
    a.add_argument("--runs", type=int, default=100)
    a.add_argument("--workers", type=int, default=8)
    sub.add_parser("selftest", help="check the machinery itself (no blueqat code involved)")
    args = ap.parse_args()
    env.reexec_if_needed(keep_hashseed=os.environ.get("DST_KEEP_HASHSEED") == "1")
    env.setup()
    from . import runner
    from .core import run_seed
    base = int(os.environ.get("VERIF_SEED", "1"))
    if args.cmd == "check":
        chk = load(args.property)
        sys.exit(runner.main_check(chk, "thorough" if args.tier == "thorough" else "quick", base,
                                   args.runs, args.wall))
    if args.cmd == "replay":
        import json
        chk = load(json.load(open(args.file))["property"])
        d, res, same, exact = runner.replay(chk, args.file)
        if not args.quiet:
            for line in (res.get("log") or res.get("sample") or []):
                print("  ", line)
        if same:
            print("reproduced exactly" if exact else "reproduced (same violation, trace differs)")
            print(f"VIOLATION property={chk.ID} replay={args.file}")
            sys.exit(1)
        print(f"not reproduced: {res['status']} {res.get('cls')} {res.get('msg')}")
        sys.exit(0 if res["status"] == "ok" else 2)
    if args.cmd == "selftest":
        from . import selftest
        sys.exit(selftest.main())
    if args.cmd == "trace":
        chk = load(args.property)
        chk.prepare()
        res = runner.run_one(chk, seed=run_seed(base, chk.ID, args.index))
        for line in res.get("log") or res["sample"]:
            print("  ", line)
        print({k: v for k, v in res.items() if k in ("status", "cls", "msg", "faults", "probes", "simtime", "steps", "nontrivial")})
    if args.cmd == "digests":
        chk = load(args.property)
        chk.prepare()
        for r in runner.batch(chk, base, args.runs, 1e9, args.workers):
            print(r["index"], r["status"], r["digest"])


main()
