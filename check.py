#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough] -- decides one property of /repo's current tree (see DESIGN.md)."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import driver
import jobs

if __name__ == "__main__":
    if sys.argv[1] == "--setup":
        driver.build_engine()
        driver.sh([driver.SYMEX, "selftest", "1"], driver.V, "executor self test")
        driver.build_ref()
        for v, p in jobs.builds():
            driver.build_ir(v, p)
            driver.build_replay(p, v)
        sys.exit(0)
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    meta, js = jobs.jobs(pid, tier, seed)
    try:
        rc = driver.run_property(pid, meta, js, tier, seed, 780 if tier == "quick" else 3400)
    except driver.CheckError as e:
        print("ERROR", e)
        rc = 2
    sys.exit(rc)
