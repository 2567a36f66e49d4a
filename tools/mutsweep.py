#!/usr/bin/env python3
"""Runs one check against many small changes:  mutsweep.py SPEC.py [prop or index...]  (spec: MUTS = [(prop, file, old, new)], JOBS from env).
A development aid: says which changes a check does not notice (some of them may change nothing)."""
import os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(sys.argv[1]).read(), ns)
W = "/tmp/mutw/%d" % os.getpid()
os.makedirs(W, exist_ok=True)
subprocess.check_call("git -C /repo archive HEAD kats | tar x -C " + W, shell=True)
miss = []
for i, (p, f, old, new) in enumerate(ns["MUTS"]):
    if sys.argv[2:] and p not in sys.argv[2:] and str(i) not in sys.argv[2:]:
        continue
    a = open("/repo/" + f).read()
    if a.count(old) != 1:
        print("BADSPEC", i, p, a.count(old), old[:80], flush=True)
        continue
    open(W + "/" + f, "w").write(a.replace(old, new))
    t = time.time()
    r = subprocess.run(["timeout", "800", "/opt/venv/bin/python", "run.py", p], cwd=V, env=dict(os.environ, VERIF_REPO=W, VERIF_EVID=W + "/ev", VERIF_JOBS=os.environ.get("VERIF_JOBS", "2"), PYTHONDONTWRITEBYTECODE="1"),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    open(W + "/" + f, "w").write(a)
    v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
    h = [l.strip()[:150] for l in r.stdout.splitlines() if "label" in l.lower() or l.startswith("   ")][:1]
    s = "caught" if r.returncode == 1 and v else "MISSED rc=%d" % r.returncode
    print("%3d %s %-12s %4.0fs  %s  %s" % (i, p, s, time.time() - t, " ".join(new.split())[:90], (v[0][-70:] if v else r.stdout.strip()[-150:])), flush=True)
subprocess.call(["rm", "-rf", W])
