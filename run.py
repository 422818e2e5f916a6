#!/usr/bin/env python3
"""run.py Cxx [--tier quick|thorough] [--seed N] [--part P ...] [--cfg C ...]   run a check
   run.py --replay FILE                                                        replay a saved failing case"""
import sys, os, argparse
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from pbt import core
ap = argparse.ArgumentParser()
ap.add_argument("pid", nargs="?"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
ap.add_argument("--part", nargs="*"); ap.add_argument("--cfg", nargs="*"); ap.add_argument("--replay")
a = ap.parse_args()
if a.replay:
    import json
    from pbt import build as B
    r = json.load(open(a.replay)); p = core.find(r["property"], r["part"])
    try: B.build([r["cfg"]] + list(p.extra_builds), p.want)
    except B.BuildError as e:
        if isinstance(r["case"], dict) and "build" in r["case"]: print("property violated: the configuration does not build", str(e)[-400:]); sys.exit(1)
        raise
    if isinstance(r["case"], dict) and "build" in r["case"]: print("property holds"); sys.exit(0)
    bad, msg = core.replay(os.path.abspath(a.replay), 1)
    print("property violated:" if bad else "property holds", msg); sys.exit(1 if bad else 0)
try:
    rc = core.drive(a.pid, a.tier, a.seed, a.part, a.cfg)
except Exception as e:
    import traceback; traceback.print_exc(); rc = 2
sys.exit(rc)
