#!/usr/bin/env python3
"""python3 run.py CHECK [--tier quick|thorough] [--seed N] [--case KEY] [--replay FILE] [-v]"""
import argparse, json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from lab import core

a = argparse.ArgumentParser()
a.add_argument("check")
a.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
a.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
a.add_argument("--case")
a.add_argument("--replay")
a.add_argument("-v", action="store_true")
o = a.parse_args()
key = o.case
if o.replay:
    r = json.load(open(o.replay))
    key, o.seed, o.tier = r["case"], r["seed"], r["tier"]
tier = o.tier if o.tier in ("quick", "thorough") else "quick"
try:
    rc = core.main(o.check, tier, o.seed, key, o.v)
except Exception:
    import traceback
    traceback.print_exc()
    rc = 2
sys.stdout.flush()
sys.exit(rc)
