#!/usr/bin/env python3
"""suite.py NAME [tier]: runs one suite and prints all violations and counts (for development)."""
import os, shutil, sys, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
from vt import core, suites
w = "/tmp/suite-" + sys.argv[1]
shutil.rmtree(w, ignore_errors=True)
ctx = core.Ctx(sys.argv[2] if len(sys.argv) > 2 else "quick", int(os.environ.get("VERIF_SEED", "1")), w)
t = time.time()
r = suites.SUITES[sys.argv[1]](ctx)
for v in r.violations:
    print(v[0], v[1][:int(os.environ.get("CUT", "900"))])
print(r.counts)
print("%d states, %d traces, %.0f s" % (r.states, r.traces, time.time() - t))
os._exit(0)
