#!/usr/bin/env python3
"""pyrun.py MODULE --out FILE [--seed N] [--only PROP] [--scale X]: runs one module of pychecks and writes its report (used by mutate.py)."""
import argparse, importlib, json, os, shutil, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
from vlib import build, pbt
ap = argparse.ArgumentParser(); ap.add_argument("module"); ap.add_argument("--out"); ap.add_argument("--seed", type=int, default=1); ap.add_argument("--only"); ap.add_argument("--scale", type=float, default=1.0); a = ap.parse_args()
mod = importlib.import_module("pychecks." + a.module)
try: mod.prepare(build)
except build.BuildError: sys.exit(7)
d = tempfile.mkdtemp(prefix="pyrun")
try: rep = pbt.run_props(a.module, mod.PROPS, a.seed, False, set(), d, d, only=a.only, scale=a.scale, jobs=int(os.environ.get("VERIF_JOBS", "8")))
finally: shutil.rmtree(d, ignore_errors=True)
json.dump(rep, open(a.out, "w"))
