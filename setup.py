#!/usr/bin/env python3
"""Warm the build caches (each check also builds what it needs by itself)."""
import sys
import run
try:
    import os
    os.makedirs(run.BUILD, exist_ok=True)
    run.build_symex()
    import llsym_driver
    llsym_driver.build_engine(run.HERE, run.BUILD, run.rust_env())
    for c in ("core", "sched", "shape", "g16"):
        llsym_driver.build_crate(run.HERE, run.BUILD, run.rust_env(), c)
except (run.Fail, Exception) as e:
    print(e)
    sys.exit(1)
print("setup done")
