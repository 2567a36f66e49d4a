#!/usr/bin/env python3
"""Writes and validates planted bugs:  mkseed.py SPEC.py [id...]   (spec: list SEEDS of dicts, see tools/seed_specs/)
A bug is kept only if its patch applies, the demo passes without and fails with it, and the stable tests of the
named test modules still pass in a scratch copy."""
import difflib, json, os, subprocess, sys, shutil, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, HOME="/root", PATH="/usr/local/bin:/usr/bin:/bin", LANG="C.UTF-8", TZ="UTC", PYTHONDONTWRITEBYTECODE="1",
           PYTHONHASHSEED="0", MPLBACKEND="agg", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
STABLE = json.load(open("/opt/vp/BASELINE.json"))


def stable_ids():
    out = set()
    def walk(x):
        if isinstance(x, str):
            out.add(x)
        elif isinstance(x, dict):
            for k, v in x.items():
                out.add(k); walk(v)
        elif isinstance(x, list):
            for v in x:
                walk(v)
    walk(STABLE)
    return out


IDS = stable_ids()


def build(s):
    d = os.path.join(V, "seeded", s["id"])
    os.makedirs(d, exist_ok=True)
    patch = ""
    edits = {}
    for f, old, new in s["edits"]:
        edits.setdefault(f, []).append((old, new))
    for f, es in edits.items():
        a = open("/repo/" + f).read()
        b = a
        for old, new in es:
            assert b.count(old) == 1, (s["id"], f, b.count(old), old[:60])
            b = b.replace(old, new)
        patch += "".join(difflib.unified_diff(a.splitlines(True), b.splitlines(True), "a/" + f, "b/" + f))
    open(d + "/patch.diff", "w").write(patch)
    open(d + "/demo.py", "w").write("import os, sys, warnings, logging\nsys.path.insert(0, os.getcwd())\nsys.dont_write_bytecode = True\n"
        "warnings.filterwarnings('ignore')\nlogging.disable(logging.CRITICAL)\nimport numpy as np\nimport pandas as pd\nfrom kats.consts import TimeSeriesData\n\n" + s["demo"].strip() + "\nprint('ok')\n")
    open(d + "/demo.sh", "w").write('#!/bin/bash\nexport HOME=/root TZ=UTC MPLBACKEND=agg PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1\nexec timeout 280 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    return d


def run(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, env=dict(ENV, **k), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def validate(s):
    d = os.path.join(V, "seeded", s["id"])
    w = "/tmp/seedw/" + s["id"]
    subprocess.call(["rm", "-rf", w])
    os.makedirs("/tmp/seedw", exist_ok=True)
    subprocess.check_call(["cp", "-a", "/repo", w])
    out = {"id": s["id"]}
    r = run(["bash", d + "/demo.sh"], w)
    out["demo0"] = r.returncode
    if r.returncode:
        out["log"] = r.stdout[-800:]
    r = run(["git", "apply", d + "/patch.diff"], w)
    out["apply"] = r.returncode
    r = run(["bash", d + "/demo.sh"], w)
    out["demo1"] = r.returncode
    out["demo1msg"] = r.stdout.strip().splitlines()[-1:] 
    if s.get("tests") is not None:
        tests = [t for t in s["tests"]]
        r = run(["/opt/venv/bin/pytest", "--rootdir=" + w, "-q", "-p", "no:cacheprovider", "--timeout=300", "-n", "3", "--continue-on-collection-errors"] + tests,
                w + "/kats", PYTHONPATH=w)
        fails = []
        for l in r.stdout.splitlines():
            if l.startswith("FAILED"):
                a, b = l.split()[1].replace(".py::", "::", 1).rsplit("::", 1); i = a.replace("/", ".").replace("::", ".") + "::" + b
                if "kats." + i in IDS:
                    fails.append(i)
        out["tests"] = r.stdout.strip().splitlines()[-1]
        out["fails"] = fails[:4]
    if os.environ.get("CHECK"):
        import time
        t = time.time()
        p = s["property"]
        r = run(["/opt/venv/bin/python", "run.py", p], V, VERIF_REPO=w, VERIF_EVID="/tmp/seedw/ev_" + s["id"], VERIF_JOBS="4")
        out["check"] = r.returncode
        out["check_wall"] = round(time.time() - t)
        out["viol"] = [l[:260] for l in r.stdout.splitlines() if l.startswith("VIOL")][:1] + [l[:200] for l in r.stdout.splitlines() if l.startswith(("  ", p))][:2] if r.returncode else r.stdout.strip().splitlines()[-1][-220:]
    subprocess.call(["rm", "-rf", w])
    return out


if __name__ == "__main__":
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    ss = [s for s in ns["SEEDS"] if not sys.argv[2:] or s["id"] in sys.argv[2:]]
    for s in ss:
        build(s)
    with cf.ThreadPoolExecutor(int(os.environ.get("PAR", "3"))) as ex:
        for o in ex.map(validate, ss):
            ok = o["demo0"] == 0 and o["apply"] == 0 and o["demo1"] != 0 and not o.get("fails")
            print("OK  " if ok else "BAD ", json.dumps(o, indent=None), flush=True)
            if "check" in o:
                f = os.path.join(V, "tools", "seed_results.json")
                res = json.load(open(f)) if os.path.exists(f) else {}
                s0 = [s for s in ss if s["id"] == o["id"]][0]
                res[o["id"]] = {"property": s0["property"], "needs": s0["needs"], "breaks": s0["breaks"], "valid": ok,
                                "caught": o["check"] == 1 and any("VIOLATION property=" + s0["property"] in l for l in o["viol"])}
                json.dump(res, open(f, "w"), indent=1, sort_keys=True)
