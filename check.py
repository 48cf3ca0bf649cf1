#!/usr/bin/env python3
"""Usage: check.py PROPERTY.  VERIF_SEED and VERIF_TIER select the seed and depth."""
import importlib, os, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import core

MODULES = {}
for m, ps in {"tree": "C01 C04 C05 C07 C08 C09", "seq": "C02 C03 C10 C18 C19 C20",
              "kv": "C06 C11", "lab": "C12 C13 C14 C15 C16", "srv": "C17"}.items():
    for p in ps.split():
        MODULES[p] = m

def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    try:
        mod = importlib.import_module("vlib." + MODULES[prop])
        res, n, d, rule, assume, level = mod.run(prop, tier, seed, t0)
        return core.finish(res, tier, seed, level, n, d, rule, assume, t0)
    except core.CheckError as e:
        print("ERROR property=%s %s" % (prop, e))
        return 3
    except Exception:
        traceback.print_exc()
        return 3

if __name__ == "__main__":
    sys.exit(main())
