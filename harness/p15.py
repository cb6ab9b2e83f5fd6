"""Scheduling of the sweeps."""

import contextlib
import copy
from .common import H

BOUNDS = ("up to 4 sweeps (5 in the thorough tier) with arbitrary initialisations (none, any sweep including itself, unknown), in two definition orders, "
          "serial and parallel execution with arbitrary completion orders of the jobs, symbolic parameters and solutions, optional failure of a sweep")
ASSUMPTIONS = ["joblib runs each job once on copies of its arguments, in any order, and returns the results in submission order"]
TAGS = "abcde"


def fake_joblib(ctx, log):
    """Jobs on copies of their arguments, executed in an arbitrary order."""
    state = {"n": 0}

    class Parallel:
        def __init__(self, *a, **k):
            self.k = k

        def __enter__(self): return self
        def __exit__(self, *a): return False

        def __call__(self, jobs):
            jobs = list(jobs)
            res = [None]*len(jobs)
            left = list(range(len(jobs)))
            while left:
                if len(left) > 1:
                    state["n"] += 1
                    i = left.pop(ctx.choice("order%d" % state["n"], list(range(len(left)))))
                else:
                    i = left.pop(0)
                (f, a, k) = jobs[i]
                res[i] = copy.deepcopy(f(*copy.deepcopy(a), **copy.deepcopy(k)))
            if self.k.get("return_as", "list") != "list":
                return iter(res)
            return res

    def delayed(f):
        return lambda *a, **k: (f, a, k)

    @contextlib.contextmanager
    def parallel_config(*a, **k):
        yield
    ctx.stub({"joblib": {"Parallel": Parallel, "delayed": delayed, "parallel_config": parallel_config,
                         "parallel_backend": parallel_config}})


def h_sweep(ctx, k, n_jobs, order="up", unknown=True, fail=False):
    log = []
    if n_jobs != 0:
        fake_joblib(ctx, log)
    sj = ctx.load("pypeec.lib_solver.sweep_joblib")
    tags = list(TAGS[:k])
    pool = [None]+tags+(["unknown"] if unknown else [])
    init = {t: ctx.choice("init_"+t, pool) for t in tags}
    prm = {t: [ctx.real("p_"+t, -8, 8)] for t in tags}
    bad = ctx.choice("fail", [None]+tags) if fail else None
    done = {}

    def compute(tag, param, sol_init):
        log.append(tag)
        if tag == bad:
            raise RuntimeError("failure of a sweep")
        p = param[0]
        sol = [tag, p if sol_init is None else p+3*sol_init[1]]
        out = {"tag": tag, "param": p, "init": None if sol_init is None else list(sol_init)}
        done[tag] = True
        if sol_init is not None:
            ctx.check("a sweep is solved after its initialisation", sol_init[0] in done)
            # changes of the data of a sweep stay local
            sol_init[0] = "changed" if n_jobs != 0 else sol_init[0]
        return out, sol
    lst = tags if order == "up" else tags[::-1]
    cfg = {t: {"init": init[t], "param": list(prm[t])} for t in lst}
    (err, res) = ctx.raises(sj.get_run_sweep, {"n_jobs": n_jobs, "n_threads": None}, cfg, compute)

    # reference: the chain of the initialisations ends at a sweep without initialisation
    def chain(t, seen=()):
        if t is None:
            return []
        if t in seen or t not in tags:
            return None
        c = chain(init[t], seen+(t,))
        return None if c is None else c+[t]
    ok = all(chain(t) is not None for t in tags)
    if not ok:
        ctx.check("unknown or cyclic initialisations are rejected", err is not None)
        return
    if bad is not None:
        ctx.check("the failure of a sweep is reported", err is not None)
        return
    ctx.check("valid sweeps are accepted", err is None)
    ctx.check("each sweep is solved exactly once", sorted(log) == sorted(tags))
    ctx.check("each sweep has a result", sorted(res.keys()) == sorted(tags))

    def value(t):
        return prm[t][0] if init[t] is None else prm[t][0]+3*value(init[t])
    for t in tags:
        ctx.check("the result is that of the sweep", res[t]["tag"] == t)
        ctx.eq("the sweep has its own parameters", res[t]["param"], prm[t][0])
        got = res[t]["init"]
        ctx.check("initial solution if and only if requested", (got is None) == (init[t] is None))
        if got is not None:
            ctx.check("initial solution of the requested sweep", got[0] == init[t])
            ctx.eq("initial solution of the requested sweep", got[1], value(init[t]))


HARNESSES = []
for k in (1, 2, 3):
    HARNESSES.append(H("serial/%d" % k, h_sweep, k=k, n_jobs=0))
    HARNESSES.append(H("parallel/%d" % k, h_sweep, k=k, n_jobs=k))
HARNESSES.append(H("serial/4", h_sweep, k=4, n_jobs=0, unknown=False))
HARNESSES.append(H("serial/rev3", h_sweep, k=3, n_jobs=0, order="down"))
HARNESSES.append(H("parallel/rev3", h_sweep, k=3, n_jobs=-1, order="down"))
HARNESSES.append(H("fail/serial", h_sweep, k=3, n_jobs=0, fail=True, unknown=False))
HARNESSES.append(H("fail/parallel", h_sweep, k=2, n_jobs=2, fail=True, unknown=False))
HARNESSES.append(H("serial/deep4", h_sweep, tier="thorough", k=4, n_jobs=0, order="down"))
HARNESSES.append(H("parallel/deep4", h_sweep, tier="thorough", k=4, n_jobs=4, unknown=False))
HARNESSES.append(H("serial/deep5", h_sweep, tier="thorough", k=5, n_jobs=0, unknown=False))
