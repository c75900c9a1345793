#!/usr/bin/env python3
"""Run the check of one property: check.py ID [--tier quick|thorough]
[--seed N] [--runs N] [--workers N] [--replay FILE]"""
import argparse
import os
import sys

os.environ.setdefault("PYTHONDONTWRITEBYTECODE", "1")
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

from vsim import core                       # noqa: E402
from vsim.registry import make_sim          # noqa: E402


def main():
    """Parse the arguments and run"""
    par = argparse.ArgumentParser()
    par.add_argument("prop", nargs="?")
    par.add_argument("--selftest", action="store_true",
                     help="check that every tool the simulators need is here")
    par.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    par.add_argument("--seed", type=int,
                     default=int(os.environ.get("VERIF_SEED", "1")))
    par.add_argument("--runs", type=int)
    par.add_argument("--workers", type=int)
    par.add_argument("--budget", type=float)
    par.add_argument("--replay")
    par.add_argument("--trace", action="store_true",
                     help="print the digest of everything observed")
    args = par.parse_args()
    if args.selftest:
        return core.selftest()
    sim = make_sim(args.prop, args.tier)
    if args.replay:
        return core.replay(sim, args.replay)
    code = core.run_check(sim, args.tier, args.seed, workers=args.workers,
                          runs=args.runs, budget=args.budget,
                          quiet_evidence=args.trace)
    if args.trace:
        print("trace", core.run_check.trace)
    return code


if __name__ == "__main__":
    sys.exit(main())
