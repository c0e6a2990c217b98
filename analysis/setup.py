"""Build the driver and warm the dependency caches, so that checks only re-analyse the crate."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common
common.build_driver()
for f in ("all", "none", "none-serde"):
    common.dump(f)
import run
from common import Report
run.p02(Report("P02"), "quick")
print("setup done")
