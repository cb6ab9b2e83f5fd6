#!/opt/venv/bin/python
"""
Decides the properties by symbolic execution of the real code.

usage: check.py ID [--tier quick|thorough] [--only HARNESS] [--list]
       check.py --replay FILE
"""

import argparse
import importlib
import json
import os
import random
import subprocess
import sys
import time
import traceback
import warnings

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.setdefault("PYPEEC_REPO", "/repo")
os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
os.environ.setdefault("MPLBACKEND", "Agg")
os.environ.setdefault("QT_QPA_PLATFORM", "offscreen")
sys.dont_write_bytecode = True
sys.path.insert(0, REPO)
sys.path.insert(0, ROOT)
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
sys.setrecursionlimit(20000)
warnings.filterwarnings("ignore")

PY = "/opt/venv/bin/python"


def known_findings():
    out = []
    path = os.path.join(ROOT, "known_findings.txt")
    if os.path.isfile(path):
        with open(path) as f:
            for line in f:
                line = line.strip()
                if line.startswith("known: "):
                    # known: property=<id> harness=<name> label=<label> :: text
                    (head, _, text) = line[7:].partition(" :: ")
                    d = dict(p.split("=", 1) for p in head.split(" | "))
                    d["text"] = text
                    out.append(d)
    return out


def func_tracer(funcs):
    base = os.path.join(REPO, "pypeec")

    def prof(frame, event, arg):
        if event == "call":
            co = frame.f_code
            if co.co_filename.startswith(base):
                funcs.add(os.path.relpath(co.co_filename, REPO)+":"+co.co_qualname)
    return prof


def run_conc(pid, name, inputs, rng=None):
    """Run a harness natively on the real code; returns (status, info, checks, used)."""
    from symx import ctx as cx
    h = get_harness(pid, name)
    c = cx.Conc(inputs, rng)
    try:
        import numpy as np
        np.random.seed(0)
        with np.errstate(all="ignore"):
            h["fct"](c, **h["params"])
        return "ok", "", c.n_checks, c.used
    except cx.Skip:
        return "skip", "", c.n_checks, c.used
    except cx.Violated as ex:
        return "violated", "%s %s" % (ex.label, ex.info), c.n_checks, c.used
    except cx.eng.Unsupported as ex:
        raise RuntimeError("unsupported: %s" % ex)
    except Exception as ex:
        if harness_fault(ex):
            raise
        return "violated", "unexpected exception %r" % ex, c.n_checks, c.used
    finally:
        c.close()


def harness_fault(ex):
    """Is the exception a problem of the harness (missing function, changed signature)?"""
    tb = traceback.extract_tb(ex.__traceback__)
    last = tb[-1].filename if tb else ""
    return not any(os.path.join(REPO, "pypeec") in t.filename for t in tb) or (
        last.startswith(os.path.join(ROOT, "harness")))


def get_harnesses(pid):
    m = importlib.import_module("harness."+pid.lower())
    return m


def get_harness(pid, name):
    for h in get_harnesses(pid).HARNESSES:
        if h["name"] == name:
            return h
    raise KeyError(name)


def run_sym(pid, h, budget, validate):
    """Symbolic run of one harness; returns a result dict."""
    from symx import engine as eng
    from symx import ctx as cx
    t0 = time.time()
    e = eng.Engine(timeout_ms=h.get("timeout_ms", 30000), deadline=t0+budget, max_paths=h.get("max_paths", 200000))
    funcs = set()
    sources = {}
    traces = []
    models = []
    state = {"n": 0}

    def one():
        c = cx.Sym(e)
        c.sources = sources
        if state["n"] < 3:
            sys.setprofile(func_tracer(funcs))
        try:
            h["fct"](c, **h["params"])
        except Exception as ex:
            sys.setprofile(None)
            if harness_fault(ex):
                raise
            if e._check([]) != eng.z3.unsat:
                lab = "unexpected exception %s" % type(ex).__name__
                e.cex.append(e._model(lab, eng.z3.BoolVal(True)))
                e.cex[-1]["tb"] = traceback.format_exc()[-1500:]
            raise eng.Stop()
        finally:
            sys.setprofile(None)
        state["n"] += 1
        if len(models) < validate:
            m = e.validation_model(random.Random("%s/%s/%d" % (pid, h["name"], len(models))))
            if m is not None:
                models.append(m)
    res = {"name": h["name"], "error": None}
    try:
        e.explore(one)
    except eng.Unsupported as ex:
        res["error"] = "unsupported: %s" % ex
        res["tb"] = traceback.format_exc()
    except Exception as ex:
        res["error"] = "harness: %r" % ex
        res["tb"] = traceback.format_exc()
    finally:
        eng.ENGINE = None
    res.update({
        "paths": e.n_paths, "decisions": e.n_decisions, "queries": e.n_queries, "asserts": e.n_dis,
        "solver_s": round(e.t_solver, 3), "unknown": e.unknown, "cex": e.cex, "labels": dict(e.labels),
        "funcs": sorted(funcs), "sources": sources, "models": models, "reached": e.n_reached,
        "wall_s": round(time.time()-t0, 3),
    })
    return res


def worker(pid, name, tier, budget, validate, probing=False):
    h = get_harness(pid, name)
    res = run_sym(pid, h, budget, validate)
    # translation validation: the models of the solver, natively on the real code
    val = []
    for (i, m) in enumerate(res.pop("models")):
        try:
            (st, info, n, used) = run_conc(pid, name, m)
        except Exception as ex:
            (st, info, n) = ("error", repr(ex)+" "+traceback.format_exc()[-800:], 0)
        val.append({"status": st, "info": info, "checks": n, "inputs": m if i == 0 or st == "violated" else None})
    res["validation"] = val
    # native confirmation of the counterexamples
    for c in res["cex"]:
        try:
            (c["native"], c["info"], _, _) = run_conc(pid, name, c["inputs"])
        except Exception as ex:
            (c["native"], c["info"]) = ("error", repr(ex)+" "+traceback.format_exc()[-800:])
    # without an answer of the solver, look at least for a violation by native runs
    res["probe"] = None
    undecided = res["error"] or res["unknown"] or any(c["native"] != "violated" for c in res["cex"]) or any(v["status"] in ("violated", "error") for v in val)
    if probing or undecided:
        res["probe"] = probe(pid, name, 15 if not probing else 5, 60)
    return res


def probe(pid, name, secs, n_max):
    """Native runs with random inputs (no verification, only for the harnesses without an answer of the solver)."""
    t0 = time.time()
    out = {"runs": 0, "skipped": 0, "status": "ok", "info": "", "inputs": None}
    rng = random.Random("%s/%s/%s" % (pid, name, os.environ.get("VERIF_SEED", "1")))
    while out["runs"] < n_max and out["skipped"] < 20*n_max and time.time()-t0 < secs:
        try:
            (st, info, _, used) = run_conc(pid, name, {}, rng)
        except Exception as ex:
            out.update(status="error", info=repr(ex))
            break
        if st == "skip":
            out["skipped"] += 1
            continue
        out["runs"] += 1
        if st == "violated":
            # the inputs alone reproduce it
            if run_conc(pid, name, used)[0] == "violated":
                out.update(status="violated", info=info, inputs=used)
                break
    return out


def replay_file(path):
    with open(path) as f:
        d = json.load(f)
    (st, info, n, used) = run_conc(d["property"], d["harness"], d["inputs"])
    print("replay: %s %s" % (st, info[:2000]))
    return 1 if st == "violated" else 0


def selftest():
    """The interpreter, the libraries, and the solver are usable."""
    import numpy
    import scipy
    import z3
    x = z3.Real("x")
    s = z3.Solver()
    s.add(x*x == 2, x > 0)
    ok = s.check() == z3.sat
    print("python %s, numpy %s, scipy %s, z3 %s: %s" % (sys.version.split()[0], numpy.__version__, scipy.__version__,
                                                        z3.get_version_string(), "ok" if ok else "solver failure"))
    return 0 if ok else 2


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("--list", action="store_true")
    ap.add_argument("--replay")
    ap.add_argument("--worker", nargs=4)
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--selftest", action="store_true")
    ap.add_argument("--strict", action="store_true", help="exit with 2 if a harness has no answer of the solver")
    ap.add_argument("--probe", action="store_true", help="also run the native probes (development)")
    a = ap.parse_args()

    if a.selftest:
        sys.exit(selftest())
    if a.replay:
        sys.exit(replay_file(a.replay))
    if a.worker:
        (name, tier, budget, out) = a.worker
        res = worker(a.pid, name, tier, float(budget), 6 if tier == "quick" else 20, a.probe)
        with open(out, "w") as f:
            json.dump(res, f, default=str)
        return
    os.environ["PYTHONHASHSEED"] = "0"
    mod = get_harnesses(a.pid)
    hs = [h for h in mod.HARNESSES if a.tier == "thorough" or h.get("tier", "quick") == "quick"]
    if a.only:
        hs = [h for h in mod.HARNESSES if h["name"].startswith(a.only)]
    if a.list:
        for h in hs:
            print(h["name"])
        return
    t0 = time.time()
    total = 690 if a.tier == "quick" else 7200
    results = run_all(a, hs, total, t0)
    sys.exit(report(a, mod, results, time.time()-t0))


def run_all(a, hs, total, t0):
    import tempfile
    work = tempfile.mkdtemp(prefix="symx")
    procs = {}
    queue = list(enumerate(hs))
    results = {}
    known = {(k["harness"], k["label"]) for k in known_findings() if k.get("property") == a.pid}
    stop = None
    while queue or procs:
        if stop is not None and time.time() > stop:
            # a violation is confirmed: the harnesses without an answer are not continued
            for (p, h, out, ts, budget) in procs.values():
                p.kill()
                p.wait()
            break
        while queue and len(procs) < a.jobs:
            (i, h) = queue.pop(0)
            out = os.path.join(work, "%d.json" % i)
            left = max(5, total-(time.time()-t0))
            budget = min(left, h.get("budget", 600 if a.tier == "quick" else 3000))
            log = open(os.path.join(work, "%d.log" % i), "w")
            p = subprocess.Popen([PY, os.path.abspath(__file__), a.pid, "--worker", h["name"], a.tier, str(budget), out]+(["--probe"] if a.probe else []),
                                 stdout=log, stderr=subprocess.STDOUT, cwd=work)
            procs[i] = (p, h, out, time.time(), budget)
        for i in list(procs):
            (p, h, out, ts, budget) = procs[i]
            rc = p.poll()
            if rc is None and time.time()-ts < budget+60:
                continue
            if rc is None:
                p.kill()
                p.wait()
            del procs[i]
            if os.path.isfile(out):
                with open(out) as f:
                    results[i] = json.load(f)
                if stop is None and any(c.get("native") == "violated" and (h["name"], c["label"]) not in known for c in results[i]["cex"]):
                    stop = time.time()+(90 if a.tier == "quick" else 600)
            else:
                with open(os.path.join(work, "%d.log" % i)) as f:
                    txt = f.read()[-3000:]
                results[i] = {"name": h["name"], "error": "worker ended (rc=%s): %s" % (rc, txt), "paths": 0, "decisions": 0,
                              "queries": 0, "asserts": 0, "solver_s": 0, "unknown": [], "cex": [], "labels": {}, "funcs": [],
                              "sources": {}, "validation": [], "reached": 0, "wall_s": time.time()-ts}
        time.sleep(0.02)
    subprocess.run(["rm", "-rf", work])
    return [results[i] for i in sorted(results)]


def report(a, mod, results, wall):
    pid = a.pid
    seed = int(os.environ.get("VERIF_SEED", "1"))
    rdir = os.path.join(ROOT, "replays")
    undecided = {}
    n_replay = 0
    violations = []
    known = [k for k in known_findings() if k.get("property") == pid]
    known_hit = []
    samples = []
    for r in results:
        if a.v:
            print("%-40s paths=%d asserts=%d queries=%d solver=%.2fs wall=%.2fs" % (r["name"], r["paths"], r["asserts"], r["queries"], r["solver_s"], r["wall_s"]))
        why = []
        if r["error"]:
            why.append("%s\n%s" % (r["error"], r.get("tb", "")))
        why += ["inconclusive: %s" % u for u in r["unknown"]]
        if not r["error"] and not r["cex"] and (not r["reached"] or not r["labels"]):
            why.append("vacuous (no reachable path with an assertion)")
        # violations: counterexamples of the solver (or its models) which the real code confirms
        cand = [(c["label"], c["inputs"], "%d" % i, c.get("native"), c.get("info", "")) for (i, c) in enumerate(r["cex"])]
        if not r["cex"]:
            for v in r["validation"]:
                if v["status"] in ("violated", "error"):
                    why.append("translation mismatch: %s %s" % (v["status"], v["info"][:1500]))
                    if v["status"] == "violated":
                        cand.append((v["info"][:200], v["inputs"], "v", "violated", v["info"]))
        pr = r.get("probe")
        if pr and pr["status"] == "violated":
            cand.append((pr["info"][:200], pr["inputs"], "p", "violated", pr["info"]))
            if not why:
                why.append("the solver found no violation, a native run with random inputs does: %s" % pr["info"][:1500])
        for (label, inputs, tag, native, info) in cand:
            path = os.path.join(rdir, "%s_%s_%s.json" % (pid, r["name"].replace("/", "_"), tag))
            if native != "violated":
                why.append("counterexample of '%s' does not reproduce on the real code: %s %s" % (label, native, info[:1500]))
                continue
            if len(violations) < 20:
                os.makedirs(rdir, exist_ok=True)
                with open(path, "w") as f:
                    json.dump({"property": pid, "harness": r["name"], "label": label, "inputs": inputs}, f, indent=1)
            if n_replay < 4:
                # once more in a process of its own
                n_replay += 1
                try:
                    p = subprocess.run([PY, os.path.abspath(__file__), "--replay", path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                                       timeout=120, env=dict(os.environ, PYTHONHASHSEED="0"), text=True)
                    (rc, info) = (p.returncode, p.stdout)
                except subprocess.TimeoutExpired:
                    (rc, info) = (3, "timeout")
                if rc != 1 or "replay: violated" not in info:
                    why.append("counterexample of '%s' does not reproduce in a new process: %s" % (label, info[-1500:]))
                    continue
                info = info[info.index("replay: violated"):]
            kn = [k for k in known if k["harness"] == r["name"] and k["label"] == label]
            if kn:
                known_hit.append(kn[0])
            else:
                violations.append((r["name"], label, path, info.strip()))
        if why:
            undecided[r["name"]] = why
        if r["validation"] and r["validation"][0].get("inputs") is not None and len(samples) < 8:
            samples.append({"harness": r["name"], "inputs": r["validation"][0]["inputs"], "assertions": r["labels"]})
    n_val = sum(1 for r in results for v in r["validation"] if v["status"] == "ok")
    funcs = sorted(set(f for r in results for f in r["funcs"]))
    cov = {
        "states": sum(r["paths"] for r in results),
        "transitions": sum(r["decisions"] for r in results),
        "traces_validated_against_impl": n_val,
        "samples": samples or [{"harness": r["name"]} for r in results[:3]],
        "harnesses": [{"name": r["name"], "paths": r["paths"], "assertions_discharged": r["asserts"], "solver_queries": r["queries"],
                       "solver_s": r["solver_s"], "wall_s": r["wall_s"], "labels": r["labels"], "undecided": undecided.get(r["name"]), "probe": r.get("probe")} for r in results],
        "undecided": sorted(undecided),
        "functions_encoded": funcs,
        "source_sha256": {k: v for r in results for (k, v) in r["sources"].items()},
        "solver_queries": sum(r["queries"] for r in results),
        "assertions_discharged": sum(r["asserts"] for r in results),
        "solver_s": round(sum(r["solver_s"] for r in results), 2),
        "bounds": getattr(mod, "BOUNDS", ""),
        "meaning": "states = symbolic paths explored to the end, transitions = symbolic branch decisions, "
                   "traces_validated_against_impl = solver models replayed on the unmodified code with the real libraries",
    }
    ev = {"property": pid, "tier": a.tier, "seed": seed, "level": "model_checking", "coverage": cov,
          "assumptions": getattr(mod, "ASSUMPTIONS", []), "wall_s": round(wall, 2), "violations": len(violations)}
    if not a.only:
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", pid+".json"), "w") as f:
            json.dump(ev, f, indent=1)
    print("%s: %d harnesses, %d paths, %d assertions, %d queries, solver %.1f s, %d native traces, wall %.1f s" % (
        pid, len(results), cov["states"], cov["assertions_discharged"], cov["solver_queries"], cov["solver_s"], n_val, wall))
    for k in known_hit:
        print("KNOWN-FINDING: property=%s %s" % (pid, k["text"]))
    for (name, label, path, txt) in violations:
        print("%s: %s\n  %s" % (name, label, txt[:1500]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
    for (name, why) in undecided.items():
        for w in why:
            print("UNDECIDED harness %s: %s" % (name, w))
    if violations:
        return 1
    if undecided and (a.strict or len(undecided) == len(results)):
        return 2
    return 0


if __name__ == "__main__":
    main()
