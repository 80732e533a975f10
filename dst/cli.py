"""python -m dst.cli PROPERTY [--replay FILE | --selftest SEED,SEED,... | --plan INDEX]"""
import argparse
import importlib
import json
import os
import sys

from . import kernel

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--replay")
    ap.add_argument("--selftest")
    ap.add_argument("--plan", type=int)
    ap.add_argument("--runs", type=int, default=int(os.environ.get("DST_RUNS") or 0) or None)
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("DST_JOBS") or 0) or os.cpu_count())
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    a = ap.parse_args()
    if a.tier not in ("quick", "thorough"):
        a.tier = "quick"
    sys.stdout.reconfigure(line_buffering=True)
    prop = importlib.import_module("dst.props." + a.property.lower())
    if a.plan is not None:
        print(json.dumps(kernel.make_plan(prop, a.seed, a.tier, a.plan), indent=1))
        return 0
    if a.replay:
        return kernel.replay(prop, os.path.abspath(a.replay), VERIF)
    if a.selftest:
        return kernel.selftest(prop, [int(s) for s in a.selftest.split(",")], a.tier, a.jobs, a.runs or prop.RUNS[a.tier])
    return kernel.check(prop, a.seed, a.tier, a.jobs, VERIF, os.environ.get("DST_OUT") or None, a.runs)


if __name__ == "__main__":
    sys.exit(main())
