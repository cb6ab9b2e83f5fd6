"""Writes /verif/MANIFEST.json from the harness modules which exist."""
import importlib
import json
import os
import sys
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, ROOT)
NA = {
    "P25": "The rounding error of floating-point transcendental functions (logarithm, arctangent) and of the external GMRES/LU "
           "libraries cannot be encoded for an SMT solver within reach; every other check uses real arithmetic.",
    "P26": "The voxelisation of a surface is done inside the compiled VTK library (PyVista); no relevant logic is in this repository.",
}
NOTE = ("Every path of the listed real functions within the stated bounds is executed symbolically from the current source; each "
        "assertion is discharged by z3 for all values of the inputs. Real arithmetic replaces floating point; numpy/scipy "
        "primitives are replaced by exact stand-ins, validated on every run by replaying solver models natively on the real code "
        "with the real libraries. Bounds: ")
props = [json.loads(x) for x in open(os.path.join(ROOT, "properties.jsonl"))]
(checks, na) = ([], [])
for p in props:
    pid = p["id"]
    if pid in NA:
        na.append({"property": pid, "reason": NA[pid]})
        continue
    if not os.path.isfile(os.path.join(ROOT, "harness", pid.lower()+".py")):
        na.append({"property": pid, "reason": "the check is not built yet"})
        continue
    m = importlib.import_module("harness."+pid.lower())
    checks.append({
        "property": pid,
        "quick_cmd": "/opt/venv/bin/python check.py %s --tier quick" % pid,
        "thorough_cmd": "/opt/venv/bin/python check.py %s --tier thorough" % pid,
        "evidence_file": "evidence/%s.json" % pid,
        "technique": "symbolic execution of the real Python functions with z3 (bounded, all values)",
        "level": "model_checking",
        "level_note": NOTE+m.BOUNDS+". Assumed: "+"; ".join(m.ASSUMPTIONS)+".",
    })
json.dump({
    "version": 1,
    "setup_cmd": "/opt/venv/bin/python check.py --selftest",
    "checks": checks,
    "not_applicable": na,
    "notes": "No hooks in /repo are needed: the checks load the current source of /repo themselves.",
}, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
