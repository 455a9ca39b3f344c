#!/usr/bin/env python3
"""plant.py FILE.py [ID...]: FILE defines SEEDS = [(id, prop, needs, breaks, [(file, old, new)...], main, feat)...].
Applies the edits in a scratch copy, writes seeded/ID and confirms it (seed.py verify); bad ones are removed.
Runs JOBS scratch copies at once."""
import json, os, runpy, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
import queue
JOBS = int(os.environ.get("JOBS", "3"))
sys.path.insert(0, V + "/tools")
PRE = open(V + "/tools/demo_prelude.rs").read()
def one(q, s):
    sw = q.get()
    try:
        i, prop, needs, breaks, edits, main, feat = (list(s) + [""])[:7]
        e = dict(os.environ, SW=sw)
        sp = lambda *a, **k: subprocess.run([sys.executable, V + "/tools/seed.py", *a], env=e, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
        sp("scratch")
        subprocess.run(["git", "-C", sw + "/repo", "checkout", "-q", "--", "."])
        for f, old, new in edits:
            p = sw + "/repo/src/" + f
            t = open(p).read()
            if t.count(old) != 1:
                return i, False, "edit matches %d times in %s: %s" % (t.count(old), f, old)
            open(p, "w").write(t.replace(old, new))
        o = sp("new", json.dumps({"id": i, "property": prop, "needs": needs, "breaks": breaks, "feat": feat}), input=PRE + main)
        if o.returncode: return i, False, o.stdout
        o = sp("verify", i)
        ok = "=> GOOD" in o.stdout
        if not ok: shutil.move(V + "/seeded/" + i, "/tmp/plant/bad-" + i) if not os.path.exists("/tmp/plant/bad-" + i) else (shutil.rmtree("/tmp/plant/bad-" + i), shutil.move(V + "/seeded/" + i, "/tmp/plant/bad-" + i))
        return i, ok, o.stdout[-3000:]
    finally:
        q.put(sw)
if __name__ == "__main__":
    seeds = runpy.run_path(sys.argv[1])["SEEDS"]
    if sys.argv[2:]: seeds = [s for s in seeds if s[0] in sys.argv[2:]]
    os.makedirs("/tmp/plant", exist_ok=True)
    q = queue.Queue()
    for j in range(JOBS): q.put("/tmp/sw%d" % j)
    with ThreadPoolExecutor(JOBS) as ex:
        bad = []
        for i, ok, o in ex.map(lambda s: one(q, s), seeds):
            print(i, "GOOD" if ok else "BAD\n" + o, flush=True)
            if not ok: bad.append(i)
    print("BAD:", bad)
