#!/usr/bin/env python3
"""python3 replay.py <replay.json>: run one recorded failure again; exit 1 if it still fails."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vp import core

if __name__ == "__main__":
    r = json.load(open(sys.argv[1]))
    props = core.load(r["module"])
    if "job" in r:
        res = core._chunk(tuple(r["job"]))
        for s, m in res["fails"]:
            print(m)
        sys.exit(1 if res["fails"] else 0)
    p = next(p for p in props if p.id == r["part"])
    msg, case, _ = core.check_one(p, r["choices"])
    print(p.show(case) if case else "(no case)")
    print(msg or "held")
    sys.exit(1 if msg else 0)
