import argparse
import os
import sys
from . import run

ap = argparse.ArgumentParser()
ap.add_argument("prop")
ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
ap.add_argument("-v", action="store_true")
ap.add_argument("--limit", type=float)
ap.add_argument("--only")
ap.add_argument("-j", type=int, default=int(os.environ.get("VERIF_JOBS", "8")))
a = ap.parse_args()
rc = run.main(a.prop, a.tier, int(os.environ.get("VERIF_SEED", "1")), a.j, a.v, a.limit, a.only)
sys.stdout.flush()
os._exit(rc)
