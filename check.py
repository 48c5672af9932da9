#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--replay FILE]   (see DESIGN.md)
exit 0: held on everything observed; 1: violated (VIOLATION line printed); 2: no verdict."""
import argparse, json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.dont_write_bytecode = True
import common, checks

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--setup", action="store_true")
    a = ap.parse_args()
    try:
        if a.setup:
            return checks.setup()
        if a.replay:
            return checks.replay(json.load(open(a.replay)))
        if a.prop not in checks.CHECKS:
            print("unknown property", a.prop)
            return 2
        return checks.CHECKS[a.prop](common.Check(a.prop, a.tier, a.seed))
    except common.HarnessError as e:
        print(f"NO-VERDICT property={a.prop}: {e}", flush=True)
        return 2

sys.exit(main())
