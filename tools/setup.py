#!/usr/bin/env python3
"""setup_cmd: compile everything the checks need into /verif/.build (a cache the checks revalidate)."""
import os, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V); os.chdir(V)
from vlib import build
from checks import CHECKS
import importlib
t0 = time.time()
for pid, spec in sorted(CHECKS.items()):
    for kind, name, variant in spec["parts"]:
        try:
            if kind == "cxx": build.harness(name, variant)
            else: importlib.import_module("pychecks." + name).prepare(build)
        except build.BuildError as e:
            print(pid, e); sys.exit(1)
    print(pid, "ready at %.0fs" % (time.time() - t0), flush=True)
