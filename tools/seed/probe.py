#!/usr/bin/env python3
"""probe.py FILE.py [id...]: apply each probe (id, property, edits) to a scratch copy of /repo and run the property's check.
A probe is a planted bug without a demonstration; it only serves to find what a check misses."""
import runpy, subprocess, sys, tempfile, shutil, os, time
from pathlib import Path
P = runpy.run_path(sys.argv[1])["PROBES"]
ids = sys.argv[2:]
for pid, prop, edits in P:
    if ids and pid not in ids: continue
    w = tempfile.mkdtemp(prefix="det.", dir="/tmp")
    subprocess.run(f"git -C /repo archive HEAD | tar x -C {w}", shell=True, check=True)
    subprocess.run(["git", "init", "-q", w])
    ok = True
    for f, old, new in edits:
        p = Path(w) / f
        t = p.read_text()
        if t.count(old) != 1:
            print("ERR", pid, t.count(old), repr(old[:50])); ok = False; break
        p.write_text(t.replace(old, new))
    for c in (prop.split("/") if ok else []):
        s = time.time()
        r = subprocess.run([sys.executable, "/verif/run.py", c, "--tier", "quick"], env=dict(os.environ, MBE_REPO=w), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
        print("CAUGHT" if r.returncode == 1 and v else "MISSED", pid, c, "rc", r.returncode, "%ds" % (time.time() - s), (v[:1] or r.stdout.splitlines()[-2:]), flush=True)
    shutil.rmtree(w)
