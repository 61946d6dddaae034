#!/usr/bin/env python3
"""check.py PROPERTY [--tier T] [--runs N] [--workers N] [--debug] | --replay FILE | --twice PROPERTY"""

import argparse
import importlib
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from sim import boot  # noqa: E402

SHIM = {"C22", "C05", "C06", "C07", "C09", "C11", "C12"}


def main() -> int:
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--workers", type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument("--only", type=int, help="run one run index and print it")
    ap.add_argument("--debug", action="store_true")
    ap.add_argument("--replay")
    ap.add_argument("--zygote", nargs=2, help=argparse.SUPPRESS)
    a = ap.parse_args()
    if a.zygote:
        from sim import zygote

        return zygote.serve(a.zygote[0], importlib.import_module(f"sim.props.{a.zygote[1].lower()}"))
    pid = json.load(open(a.replay))["property"] if a.replay else a.property
    boot.reexec(pid in SHIM)
    from sim import core

    boot.load()
    prop = importlib.import_module(f"sim.props.{pid.lower()}")
    if a.replay:
        return core.run_replay(prop, a.replay, a.debug)
    if a.only is not None:
        core.prepare(prop)
        rng = core.derive(a.seed, prop.ID, a.only)
        plan = prop.gen(rng, a.tier, a.only)
        plan.setdefault("env_seed", rng.getrandbits(31))
        print(json.dumps(plan, indent=1))
        res = core.Runner(prop, 1, debug=a.debug).one(plan)
        print(json.dumps(res, indent=1))
        return 0 if res["status"] == "ok" else 1
    return core.run_check(prop, a.tier, a.seed, a.runs, a.workers, a.debug)


if __name__ == "__main__":
    sys.exit(main())
