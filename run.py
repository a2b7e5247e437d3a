#!/usr/bin/env python3
import os, sys
V = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, os.path.join(V, "lib"))
import driver, checks
def main():
    pid = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    c = checks.C[pid]; ck = driver.Check(pid, tier, c["level"])
    if c["fn"]: return c["fn"](ck, c)
    driver.build_engine()
    budget = c["thorough_s"] if tier == "thorough" else c["quick_s"]
    us = [u for u in c["units"] if (u.quick or tier == "thorough") and (len(sys.argv) < 4 or u.name in sys.argv[3:])]; left = sum(u.share for u in us)
    ck.prefetch(us)
    for u in us:
        dl = max(5.0, (budget - ck.elapsed()) * u.share / left); left -= u.share
        ck.run_unit(u, dl)
    return ck.finish(bounds=c["bounds"], notes=c["notes"])
sys.exit(main())
