"""Development aid: run one harness in-process and print the details (tools/one.py PID NAME [budget])."""
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
import check
(pid, name) = sys.argv[1:3]
budget = float(sys.argv[3]) if len(sys.argv) > 3 else 60
if os.environ.get("PROF"):
    import cProfile, pstats
    pr = cProfile.Profile()
    h = check.get_harness(pid, name)
    check.func_tracer = lambda f: None
    pr.enable()
    r = check.run_sym(pid, h, budget, 0)
    pr.disable()
    pstats.Stats(pr).sort_stats("cumtime").print_stats(40)
else:
    r = check.worker(pid, name, "quick", budget, 3)
for k in ("sources", "funcs"):
    r.pop(k)
print(json.dumps(r, indent=1, default=str)[:6000].replace("\\n", "\n"))
