#!/opt/venv/bin/python
"""Checks one property:  run.py C07            (tier from VERIF_TIER)
   Replays a counterexample on the unpatched code:  run.py --replay FILE
"""
import glob
import importlib
import json
import logging
import os
import subprocess
import sys
import tempfile
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
for k, v in {"HOME": "/root", "LANG": "C.UTF-8", "TZ": "UTC", "PYTHONDONTWRITEBYTECODE": "1",
             "MPLBACKEND": "agg", "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1",
             "PYTHONHASHSEED": "0"}.items():
    if os.environ.get(k) != v:
        os.environ[k] = v
sys.dont_write_bytecode = True
sys.path.insert(0, VERIF)
REPO = os.environ.get("VERIF_REPO", "/repo")  # another tree only while developing the checks
sys.path.insert(0, REPO)
warnings.filterwarnings("ignore")
logging.disable(logging.CRITICAL)


def dump(obj, path, **k):
    """explicitly closed: PyPy does not flush files on last reference"""
    with open(path, "w") as f:
        json.dump(obj, f, **k)


def prop_modules(prop):
    """harness modules of a property (HARNESS_INDEX maps ids to files)."""
    import harness_index
    return harness_index.INDEX[prop]


def load_harnesses(prop):
    from symex import registry
    del registry.HARNESSES[:]
    for m in prop_modules(prop):
        importlib.import_module("harness." + m)
    return [h for h in registry.HARNESSES if h.prop == prop]


# ------------------------------------------------------------------ replay
def replay_server(prop):
    """runs in a fresh process: no shim, real floats, real code; jobs are files named on stdin"""
    import numpy as np
    np.seterr(all="ignore")
    from symex import concrete
    hs = {h.name: h for h in load_harnesses(prop)}
    path = sys.stdin.readline().strip()
    if not path:
        return
    with open(path) as f:
        batch = json.load(f)
    out = []
    for job in batch["jobs"]:
        h = hs.get(job["harness"])
        if h is None:
            out.append({"status": "missing", "failures": [], "obs": [], "tb": "", "checks": 0})
            continue
        t0 = time.time()
        r = concrete.run(h, job["values"])
        r["wall"] = time.time() - t0
        out.append(r)
    dump(out, path + ".out")


def replay_one(path):
    import numpy as np
    np.seterr(all="ignore")
    with open(path) as f:
        j = json.load(f)
    from symex import concrete
    hs = {h.name: h for h in load_harnesses(j["property"])}
    r = concrete.run(hs[j["harness"]], j["values"])
    print("property", j["property"], "harness", j["harness"])
    print("inputs  ", json.dumps(j["values"], sort_keys=True))
    for f in r["failures"]:
        print("FAILS   ", f)
    if r["tb"]:
        print(r["tb"])
    print("status  ", r["status"])
    return 1 if r["status"] == "fail" else 0


class Servers(object):
    """replay processes that import the unpatched code while the symbolic runs are going on"""

    def __init__(self, prop, n):
        self.procs = [subprocess.Popen([PY, os.path.join(VERIF, "run.py"), "--replay-server", prop], stdin=subprocess.PIPE,
                                       stdout=subprocess.DEVNULL, stderr=subprocess.PIPE) for _ in range(n)]

    def close(self):
        for p in self.procs:
            if p.poll() is None:
                p.kill()
            p.wait()


def run_replays(prop, jobs, servers, timeout=420):
    if not jobs:
        servers.close()
        return []
    d = tempfile.mkdtemp(prefix="vreplay")
    nproc = len(servers.procs)
    procs = []
    for w in range(nproc):
        sub = jobs[w::nproc]
        if not sub:
            continue
        p = os.path.join(d, "batch%d.json" % w)
        dump({"property": prop, "jobs": sub}, p)
        procs.append((w, p, servers.procs[w]))
        try:
            procs[-1][2].stdin.write((p + "\n").encode())
            procs[-1][2].stdin.flush()
        except (OSError, ValueError):
            pass
    res = [None] * len(jobs)
    err = ""
    for w, p, pr in procs:
        try:
            _, e = pr.communicate(timeout=timeout)
            if os.path.exists(p + ".out"):
                with open(p + ".out") as f:
                    outs = json.load(f)
                for i, r in enumerate(outs):
                    res[w + i * nproc] = r
            else:
                err = e.decode("utf8", "replace")[-1500:]
        except subprocess.TimeoutExpired:
            pr.kill()
            err = "replay timeout"
    servers.close()
    subprocess.call(["rm", "-rf", d])
    for i, r in enumerate(res):
        if r is None:
            res[i] = {"status": "error", "failures": [], "obs": [], "tb": err, "checks": 0}
    return res


# ------------------------------------------------------------------ symbolic
def _explore_one(args):
    prop, idx, tier, seed, budget = args
    from symex import core, shim, values
    h = _HS[idx]
    shim.HITS.clear()
    import numpy as np
    np.seterr(all="ignore")
    o = h.opts
    mp = o.get("max_paths", 4000)
    tb = o.get("budget", budget)
    if tier == "thorough":
        mp, tb = mp * 5, tb * 3
    e = core.Engine(timeout_ms=o.get("timeout_ms", 10000), max_paths=mp, time_budget=tb, seed=seed)
    e.uses_uf = False
    t0 = time.time()
    if os.environ.get("VERIF_TRACE"):
        import faulthandler
        faulthandler.dump_traceback_later(float(os.environ["VERIF_TRACE"]), repeat=True)
    err = None
    try:
        e.explore(h, h.name)
    except Exception as ex:  # engine failure
        err = "%s: %s\n%s" % (type(ex).__name__, ex, traceback.format_exc()[-2000:])
    return {"harness": h.name, "wall": time.time() - t0, "stats": e.st.as_dict(), "cexs": e.cexs,
            "inconclusive": e.inconclusive, "unsupported": e.unsupported_models, "samples": e.samples,
            "labels": e.labels, "hits": sorted(shim.HITS), "error": err, "doc": o["doc"]}


_HS = []


def load_known():
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("known:"):
                d = dict(kv.split("=", 1) for kv in line[6:].strip().split(" ", 3)[:3] if "=" in kv)
                d["text"] = line.split(" -- ", 1)[1] if " -- " in line else ""
                out.append(d)
    return out


def match_known(known, prop, harness, label):
    for k in known:
        if k.get("property") == prop and k.get("harness") == harness and (
                k.get("label", "").replace("_", " ") in label.replace("_", " ")):
            return k
    return None


def run_jobs(jobs, nproc, deadline):
    """one forked process per harness (this process has no threads); results come back through files"""
    import pickle
    d = tempfile.mkdtemp(prefix="vjobs")
    queue, running, results = list(jobs), {}, {}
    sys.stdout.flush()
    sys.stderr.flush()
    while queue or running:
        while queue and len(running) < nproc:
            j = queue.pop(0)
            path = os.path.join(d, "%d.pkl" % j[1])
            pid = os.fork()
            if pid == 0:
                try:
                    r = _explore_one(j)
                    with open(path + ".tmp", "wb") as f:
                        pickle.dump(r, f)
                    os.rename(path + ".tmp", path)
                except BaseException:
                    traceback.print_exc()
                    sys.stderr.flush()
                finally:
                    os._exit(0)
            running[pid] = (j, path, time.time())
        for pid in list(running):
            j, path, st = running[pid]
            done, _ = os.waitpid(pid, os.WNOHANG)
            late = time.time() > deadline
            if not done and not late:
                continue
            if not done:
                os.kill(pid, 9)
                os.waitpid(pid, 0)
            del running[pid]
            r = None
            if os.path.exists(path):
                with open(path, "rb") as f:
                    r = pickle.load(f)
            if r is None:
                from symex import core
                h = _HS[j[1]]
                r = {"harness": h.name, "wall": time.time() - st, "stats": core.Stats().as_dict(), "cexs": [],
                     "inconclusive": ["harness did not finish within the check's time limit" if late else
                                      "harness process ended without a result"],
                     "unsupported": [], "samples": [], "labels": {}, "hits": [], "error": None, "doc": h.opts["doc"]}
            results[j[1]] = r
        if time.time() > deadline:
            for j in queue:
                from symex import core
                h = _HS[j[1]]
                results[j[1]] = {"harness": h.name, "wall": 0.0, "stats": core.Stats().as_dict(), "cexs": [],
                                 "inconclusive": ["not started within the check's time limit"], "unsupported": [],
                                 "samples": [], "labels": {}, "hits": [], "error": None, "doc": h.opts["doc"]}
            queue = []
        time.sleep(0.02)
    subprocess.call(["rm", "-rf", d])
    return [results[j[1]] for j in jobs]


def main():
    global _HS
    prop = sys.argv[1]
    only = sys.argv[2:]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in only:
        tier = "thorough"
        only.remove("--thorough")
    if "--quick" in only:
        tier = "quick"
        only.remove("--quick")
    os.environ["VERIF_TIER"] = tier
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    from symex import shim
    shim.install()
    import kats  # noqa
    import_errors = ""
    try:
        hs = load_harnesses(prop)
    except Exception:
        print("cannot load the code under test:\n" + traceback.format_exc()[-3000:])
        return 2
    shim.patch_kats_modules()
    hs = [h for h in hs if (tier == "thorough" or not h.opts.get("thorough_only"))]
    if only:
        hs = [h for h in hs if any(o in h.name for o in only)]
    if not hs:
        print("no harness for", prop)
        return 2
    _HS = hs
    budget = 200.0 if tier == "quick" else 240.0
    hard = 640.0 if tier == "quick" else 3000.0
    jobs = [(prop, i, tier, seed, budget) for i in range(len(hs))]
    jobs.sort(key=lambda j: -_HS[j[1]].opts.get("weight", 1))
    servers = Servers(prop, 2 if len(hs) < 8 else 4)
    results = run_jobs(jobs, min(len(hs), int(os.environ.get("VERIF_JOBS", "8"))), t0 + hard)
    # ---- replays on unpatched code
    rj = []
    for r in results:
        for c in r["cexs"]:
            rj.append((r, "cex", c))
        for c in r["unsupported"]:
            rj.append((r, "unsupported", c))
        for c in r["samples"]:
            rj.append((r, "sample", c))
    rr = run_replays(prop, [{"harness": r["harness"], "values": c["values"]} for r, _, c in rj], servers)
    known = load_known()
    violations, known_hits, unrepro, divergences = [], [], [], []
    validated = 0
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    replay_errors = 0
    for (r, kind, c), q in zip(rj, rr):
        if q["status"] == "fail":
            label = c.get("label") or "sample"
            k = None
            for f in q["failures"]:
                k = match_known(known, prop, r["harness"], f)
                if not k:
                    break
            if k:
                known_hits.append((k, r, c, q))
                continue
            violations.append((r, kind, c, q))
        elif q["status"] == "ok":
            validated += 1
            if kind == "cex":
                unrepro.append((r["harness"], c["label"], c["values"]))
            if kind == "sample":
                so, co = c["obs"], q["obs"]
                if [a for a, _ in so] == [a for a, _ in co]:
                    for (l, a), (_, b) in zip(so, co):
                        if isinstance(a, float) and isinstance(b, float):
                            if abs(a - b) > 1e-5 * (1 + abs(a) + abs(b)) or (a != a) != (b != b):
                                divergences.append((r["harness"], l, a, b))
        elif q["status"] in ("error", "missing"):
            replay_errors += 1
        elif q["status"] == "assume" and kind == "cex":
            unrepro.append((r["harness"], c["label"], c["values"]))
    # ---- report
    tot = {}
    for r in results:
        for k, v in r["stats"].items():
            if isinstance(v, (int, float)):
                tot[k] = tot.get(k, 0) + v
    hits = sorted({h for r in results for h in r["hits"] if not h.endswith(":jit") and "jit." not in h
                   and "Version" not in h})
    unsup = sum(len(r["unsupported"]) for r in results)
    incon = [(r["harness"], i) for r in results for i in r["inconclusive"]]
    errors = [(r["harness"], r["error"]) for r in results if r["error"]]
    vac = [r["harness"] for r in results if not r["labels"] and not r["error"] and not r["inconclusive"]]
    samples = []
    for r in results[:12]:
        if r["samples"]:
            samples.append({"harness": r["harness"], "path_model": r["samples"][0]["values"],
                            "outputs_under_model": r["samples"][0]["obs"][:4]})
    rc = 0
    for k, r, c, q in known_hits[:1]:
        pass
    for kk in {id(k): k for k, _, _, _ in known_hits}.values():
        print("KNOWN-FINDING: property=%s %s" % (prop, kk["text"]))
    for n, (r, kind, c, q) in enumerate(violations[:3]):
        path = os.path.join(os.environ.get("VERIF_EVID") or os.path.join(VERIF, "replays"), "%s-%d.json" % (prop, n))
        os.makedirs(os.path.dirname(path), exist_ok=True)
        dump({"property": prop, "harness": r["harness"], "values": c["values"],
              "failures": q["failures"], "kind": kind, "solver_label": c.get("label", ""),
              "how": "%s %s/run.py --replay %s" % (PY, VERIF, path)}, path, indent=1)
        print("  %s: %s  inputs %s" % (r["harness"], "; ".join(q["failures"][:3]), json.dumps(c["values"])[:400]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        rc = 1
    wall = time.time() - t0
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": int(tot.get("paths", 0)),
            "transitions": int(tot.get("branches", 0)),
            "traces_validated_against_impl": validated,
            "samples": samples or [{"note": "no completed path"}],
            "functions_encoded": hits,
            "harnesses": [{"name": r["harness"], "claim": r["doc"], "paths": r["stats"]["paths"],
                           "queries": r["stats"]["queries"], "solver_s": round(r["stats"]["solver_time"], 3),
                           "assertions": sum(v for k, v in r["labels"].items() if not k.startswith("reach:")),
                           "reach_witnesses": sorted(k[6:] for k in r["labels"] if k.startswith("reach:")),
                           "wall_s": round(r["wall"], 2),
                           "exhausted_all_paths": not r["inconclusive"] and not r["unsupported"] and not r["error"]}
                          for r in results],
            "queries_discharged": {"total": int(tot.get("queries", 0)), "unsat": int(tot.get("unsat", 0)),
                                   "sat": int(tot.get("sat", 0)), "unknown": int(tot.get("unknown", 0)),
                                   "by_rewriter": int(tot.get("rewriter", 0))},
            "solver": "z3 5.x (python bindings in process)", "solver_s": round(tot.get("solver_time", 0), 2),
            "assertions_evaluated": int(tot.get("checks", 0)),
            "lossy_concretizations": int(tot.get("concretizations", 0)),
            "paths_not_followed_symbolically": unsup,
            "inconclusive": incon[:20],
            "counterexamples_not_reproduced": unrepro[:5],
            "model_vs_real_divergences": divergences[:5],
            "explanation": "states = symbolic paths of the real code explored; transitions = solver-decided "
                           "branch points on them; every assertion is decided for all input values of its path.",
            "exhaustive": not incon and not unsup and not errors,
        },
        "assumptions": [
            "real arithmetic: float rounding is outside the claim (counterexamples are replayed in floats)",
            "bounds (sizes, ranges, grids) are those in each harness's claim text",
            "pandas/numpy reductions on proxies are modelled by symex/shim.py, pdshim.py, spshim.py",
        ],
        "wall_s": round(wall, 2), "violations": len(violations),
    }
    evdir = os.environ.get("VERIF_EVID") or os.path.join(VERIF, "evidence")
    os.makedirs(evdir, exist_ok=True)
    dump(ev, os.path.join(evdir, prop + ".json"), indent=1, default=str)
    print("%s %s: %d harnesses, %d paths, %d queries (%d unknown), %d assertions, %.1fs solver, %.1fs wall; "
          "validated %d; unsupported %d; inconclusive %d; unreproduced %d; divergences %d; lossy %d" % (
              prop, tier, len(results), tot.get("paths", 0), tot.get("queries", 0), tot.get("unknown", 0),
              tot.get("checks", 0), tot.get("solver_time", 0), wall, validated, unsup, len(incon),
              len(unrepro), len(divergences), tot.get("concretizations", 0)))
    if os.environ.get("VERIF_VERBOSE"):
        for r in results:
            print("   %-60s paths %5d q %6d solver %6.1f wall %6.1f labels %d lossy %s" % (
                r["harness"], r["stats"]["paths"], r["stats"]["queries"], r["stats"]["solver_time"],
                r["wall"], len(r["labels"]), r["stats"]["conc_sites"]))
            for u in r["unsupported"][:2]:
                print("      UNSUPPORTED", u["label"], u["detail"], u["tb"][-1200:], u["values"])
            for i in r["inconclusive"][:3]:
                print("      INCONCLUSIVE", i)
        for u in unrepro[:5]:
            print("      UNREPRODUCED", u)
        for u in divergences[:5]:
            print("      DIVERGENCE", u)
        for v in vac:
            print("      VACUOUS?", v)
    if errors:
        for h, e in errors[:3]:
            print("engine error in %s: %s" % (h, e))
        if rc == 0 and len(errors) == len(results):
            rc = 2
    if replay_errors and rc == 0:
        print("replay process failed: %s" % [q["tb"] for q in rr if q["status"] == "error"][:1])
        rc = 2 if any(k == "cex" for (_, k, _), q in zip(rj, rr) if q["status"] == "error") else 0
    return rc


if __name__ == "__main__":
    if sys.argv[1] == "--replay-server":
        replay_server(sys.argv[2])
    elif sys.argv[1] == "--replay":
        sys.exit(replay_one(sys.argv[2]))
    else:
        sys.stdout.flush()
        rc = main()
        sys.stdout.flush()
        os._exit(rc)
