#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--seed N] [--replay FILE]   decides one property
   check.py --setup                                                       builds all drivers"""
import argparse
import json
import os
import shutil
import sys
import time

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "tools"))
import vlib  # noqa: E402
import models  # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("--setup", action="store_true")
    a = ap.parse_args()
    for d in (vlib.WORK, vlib.EVID):
        os.makedirs(d, exist_ok=True)
    if a.setup:
        vlib.build(*models.all_targets())
        return 0
    t0 = time.time()
    prop = a.prop
    # one scratch directory per check, so that checks may also run side by side
    vlib.WORK = os.path.join(vlib.WORK, prop)
    shutil.rmtree(os.path.join(vlib.WORK, "run"), ignore_errors=True)
    shutil.rmtree(os.path.join(vlib.WORK, "tlc"), ignore_errors=True)
    if a.replay:
        return models.replay(prop, a.replay)
    findings, level, coverage = models.run(prop, a.tier, a.seed)
    vio = findings
    for k in models.known(prop):
        print(f"KNOWN-FINDING: property={prop} {k['what']}")
    rc = 0
    rd = os.path.join(vlib.WORK, "replay")
    shutil.rmtree(rd, ignore_errors=True)
    os.makedirs(rd, exist_ok=True)
    for i, f in enumerate(vio[:5]):
        rp = os.path.join(rd, f"{i}.json")
        with open(rp, "w") as o:
            json.dump({"property": prop, "model": getattr(f, "model", ""), "what": f.what, "script": f.script}, o, indent=1)
        print(f"VIOLATION property={prop} replay={rp}")
        print("  " + f.what[:900])
        rc = 1
    ev = {"property": prop, "tier": a.tier, "seed": a.seed, "level": level, "coverage": coverage,
          "violations": len(vio), "wall_s": round(time.time() - t0, 1)}
    with open(os.path.join(vlib.EVID, prop + ".json"), "w") as o:
        json.dump(ev, o, indent=1)
    print(f"{prop} {a.tier}: {'FAILED' if rc else 'held'} in {ev['wall_s']}s; " +
          ", ".join(f"{k}={v}" for k, v in coverage.items() if isinstance(v, (int, float))))
    return rc


if __name__ == "__main__":
    try:
        sys.exit(main())
    except vlib.CheckError as e:
        print("CHECK ERROR:", e, file=sys.stderr)
        sys.exit(3)
