"""Runs do not depend on earlier runs in the process, nor on the process which solves a sweep."""

import contextlib
import copy
import importlib
import sys
import types
import zlib
from fractions import Fraction
from .common import H
from . import p17, p21, p23, p27, p28, p31
from .run_solver import Problem

BOUNDS = ("two complete runs of the solver, the mesher, the viewer, or the plotter in one process (the first one with other data and options, or with a failure at the k-th call of a function "
          "of the libraries, for every k), the second one with all its inputs symbolic as in P27, P28, P31; up to 2 sweeps in 2 worker processes; up to 4 voxels; the functions of P01 to P22 after three uses with fixed other data")
ASSUMPTIONS = ["the assumptions of P27, P28, and P31", "the inputs of the first run are fixed values", "worker processes start with the modules as imported; the copies of the data of the jobs are not modelled "
               "beyond the arguments"]


class Fixed:
    """Fixed (and different) values for the inputs of an earlier run."""

    def __init__(self, ctx):
        self.ctx = ctx

    def __getattr__(self, name):
        return getattr(self.ctx, name)

    def real(self, name, lo=None, hi=None, pos=False, nonzero=False):
        k = 1+zlib.crc32(("0"+name).encode()) % 89
        a = 0 if lo is None and (pos or hi is None) else (hi-4 if lo is None else lo)
        a = Fraction(a)
        b = a+4 if hi is None else Fraction(hi)
        v = a+(b-a)*Fraction(k, 96)
        return self.ctx.frac(v.numerator, v.denominator)

    def int(self, name, lo, hi):
        return lo

    def bool(self, name):
        return False

    def cplx(self, name):
        return self.real(name+".re")+self.ctx.j*self.real(name+".im")

    def choice(self, name, lst):
        return lst[0]

    def assume(self, cond):
        pass


SIMPLE = (type(None), bool, int, float, str, bytes, list, dict, tuple, set)


def pristine(ctx):
    """Values of the global variables of the loaded modules, as after an import."""
    out = []
    table = ctx.mods.mods if ctx.sym else sys.modules
    for (name, m) in sorted(table.items()):
        if not name.startswith("pypeec.") or not isinstance(m, types.ModuleType) or not hasattr(m, "__file__") and not ctx.sym:
            continue
        if ctx.sym:
            ref = vars(m)
        else:
            with open(m.__file__) as f:
                code = f.read()
            ref = {"__name__": name, "__package__": m.__package__, "__file__": m.__file__}
            exec(compile(code, m.__file__, "exec"), ref)
        out.append((m, {k: copy.deepcopy(v) for (k, v) in ref.items() if isinstance(v, SIMPLE) and not k.startswith("__")}, set(ref)))
    return out


def in_worker(state, f, *a, **k):
    """Call of a function in a worker process, which starts from the imported modules."""
    old = []
    for (m, val, names) in state:
        old.append((m, dict(vars(m))))
        for key in [key for (key, v) in vars(m).items() if key not in names and isinstance(v, SIMPLE)]:
            delattr(m, key)
        for (key, v) in val.items():
            setattr(m, key, copy.deepcopy(v))
    try:
        return f(*a, **k)
    finally:
        for (m, full) in old:
            for key in [key for key in vars(m) if key not in full]:
                delattr(m, key)
            for (key, v) in full.items():
                setattr(m, key, v)


def processes(ctx, holder):
    """Stand-in of joblib: every job is executed in a new process."""

    class Parallel:
        def __init__(self, *a, **k):
            self.k = k

        def __enter__(self): return self
        def __exit__(self, *a): return False

        def __call__(self, jobs):
            res = [in_worker(holder["state"], f, *copy.deepcopy(a), **copy.deepcopy(k)) for (f, a, k) in jobs]
            holder["jobs"] = holder.get("jobs", 0)+len(res)
            return iter(res) if self.k.get("return_as", "list") != "list" else res

    @contextlib.contextmanager
    def config(*a, **k):
        yield
    ctx.stub({"joblib": {"Parallel": Parallel, "delayed": lambda f: lambda *a, **k: (f, a, k), "parallel_config": config, "parallel_backend": config}})


def h_parallel(ctx, cfg, mult):
    """Sweeps in worker processes."""
    holder = {}
    if not ctx.sym:
        importlib.import_module("pypeec.run.solver")
    processes(ctx, holder)
    pb = Problem(ctx, mult=mult, **cfg)
    pb.tol["parallel_sweep"] = {"n_jobs": 2, "n_threads": 1}
    (mod, it, log) = pb.prepare()
    holder["state"] = pristine(ctx)
    out = mod.run(*pb.inputs())
    ctx.check("all the sweeps are solved by the processes", holder.get("jobs") == len(pb.sweep))
    p27.check_run(ctx, pb, it, log, out)


def h_solver(ctx, first, cfg):
    """A run after a run with other data and options."""
    old = Problem(Fixed(ctx), **first)
    (mod, _, _) = old.prepare()
    arg = old.inputs()
    res = mod.run(*arg)
    (a0, r0) = (p23.snapshot(ctx, arg), p23.snapshot(ctx, res))
    pb = Problem(ctx, **cfg)
    (mod, it, log) = pb.prepare()
    p27.check_run(ctx, pb, it, log, mod.run(*pb.inputs()))
    ctx.check("the results of the earlier run are not modified", p23.same(ctx, p23.snapshot(ctx, res), r0) and p23.same(ctx, p23.snapshot(ctx, arg), a0))


def h_failed(ctx, first, cfg, most):
    """A run after a failed run."""
    old = Problem(Fixed(ctx), **first)
    (mod, _, _) = old.prepare()
    arg = old.inputs()
    state = p23.instrument(ctx, mod, most, one=True)
    (err, _) = ctx.raises(mod.run, *arg)
    state["off"] = True
    ctx.check("more calls than expected", state["n"] <= most)
    ctx.assume(err is not None)
    pb = Problem(ctx, **cfg)
    (mod, it, log) = pb.prepare()
    p27.check_run(ctx, pb, it, log, mod.run(*pb.inputs()))


def h_mesher(ctx, first, kind, **cfg):
    """A run of the mesher after another one (which fails or not)."""
    fix = Fixed(ctx)
    p23.json_stub(ctx)
    state = {}
    if first[0] == "voxel":
        (n, dom, opt) = first[1:]
        g = p28.Geo(fix, **opt)
        (d, c) = p28.space(fix)
        arg = g.data("voxel", {"param": {"n": list(n), "d": list(d), "c": list(c)}, "domain_index": {t: list(v) for (t, v) in dom.items()}})
    else:
        (size, names, colors, opt) = first[1:]
        p28.images(fix, {f: size for f in names})
        g = p28.Geo(fix, **opt)
        (d, c) = p28.space(fix)
        arg = g.data("png", {"param": {"d": list(d), "c": list(c), "size": list(size)}, "domain_color": {t: [list(x) for x in v] for (t, v) in colors.items()},
                             "layer_stack": [{"n_layer": 1, "filename_list": list(names)}]})
    mod = ctx.load("pypeec.run.mesher")
    (err, res) = ctx.raises(mod.run, arg)
    (a0, r0) = (p23.snapshot(ctx, arg), p23.snapshot(ctx, res))
    state["err"] = err
    getattr(p28, "h_"+kind)(ctx, **cfg)
    ctx.check("the results of the earlier run are not modified", p23.same(ctx, p23.snapshot(ctx, res), r0) and p23.same(ctx, p23.snapshot(ctx, arg), a0))


def earlier(what, **cfg):
    """An earlier run of the viewer or plotter."""
    def f(ctx):
        class Quiet(Fixed):
            def check(self, *a): return True
            eq = check
            def formats(self): pass
        getattr(p31, "h_"+what)(Quiet(ctx), **cfg)
    return f


def h_plot(ctx, what, before, **cfg):
    getattr(p31, "h_"+what)(ctx, before=earlier(before[0], **before[1]), **cfg)


class Quiet(Fixed):
    """An earlier use of a function, with fixed inputs and without checks."""

    def check(self, *a, **k): return True
    eq = fail = check
    def formats(self): pass


def h_history(ctx, pid, second, first):
    """The checks of another property hold after earlier uses of the functions."""
    lst = {h["name"]: h for h in importlib.import_module("harness."+pid).HARNESSES}
    for name in first:
        h = lst[name]
        try:
            h["fct"](Quiet(ctx), **h["params"])
        except Exception:
            pass
    h = lst[second]
    h["fct"](ctx, **h["params"])



class Free(Quiet):
    """An earlier use of a function, with any inputs and without checks."""

    def real(self, name, lo=None, hi=None, pos=False, nonzero=False):
        return self.ctx.real("old."+name, lo=lo, hi=hi, pos=pos, nonzero=nonzero)

    def int(self, name, lo, hi):
        return self.ctx.int("old."+name, lo, hi)

    def bool(self, name):
        return self.ctx.bool("old."+name)

    def cplx(self, name):
        return self.ctx.cplx("old."+name)

    def choice(self, name, lst):
        return self.ctx.choice("old."+name, lst)

    def assume(self, cond):
        self.ctx.assume(cond)


def h_twice(ctx, fct, **cfg):
    """The checks of another property hold after an earlier use with any inputs."""
    fct(Free(ctx), **cfg)
    fct(ctx, **cfg)


HARNESSES = []
E1 = dict(n=(2, 1, 1), dom={"a": [1], "b": [0]}, mat={"m": ("electric", ["a", "b"])}, src={"s": ("voltage", ["b"])})
E2 = dict(n=(2, 1, 1), dom={"a": [0], "b": [1]}, mat={"m": ("electric", ["b", "a"])}, src={"s": ("current", ["a"]), "t": ("voltage", ["b"])})
M1 = dict(n=(2, 1, 2), dom={"a": [2, 0], "b": [3], "c": [1]}, mat={"m": ("electric", ["a", "c"]), "n": ("magnetic", ["b"])}, src={"s": ("voltage", ["c"])})
M2 = dict(n=(2, 1, 2), dom={"a": [3, 1], "b": [2], "c": [0]}, mat={"m": ("electric", ["a", "c"]), "n": ("electromagnetic", ["b"])}, src={"s": ("current", ["c"])})
ONE = {"x": None}
for (k, f, c) in (
    ("same", dict(E1, sweep=ONE, freq="ac"), dict(E1, sweep=ONE, freq="ac")),
    ("magnetic", dict(M1, sweep=ONE, freq="ac"), dict(E2, sweep=ONE, freq="dc")),
    ("electric", dict(E2, sweep={"x": None, "y": "x"}, freq="ac"), dict(M1, sweep=ONE, freq="ac", cloud=1)),
    ("swap", dict(M2, sweep=ONE, freq="ac"), dict(M1, sweep=ONE, freq="ac")),
    ("fft", dict(M1, sweep=ONE, freq="ac", mult="direct"), dict(M1, sweep=ONE, freq="ac", mult="fft")),
    ("direct", dict(M1, sweep=ONE, freq="ac", mult="fft"), dict(M1, sweep=ONE, freq="ac", mult="direct")),
    ("split", dict(M1, sweep=ONE, freq="ac", mult="fft", split=True), dict(M1, sweep=ONE, freq="ac", mult="fft", split=False)),
    ("combined", dict(M1, sweep=ONE, freq="ac", mult="fft", split=False), dict(M1, sweep=ONE, freq="ac", mult="fft", split=True)),
    ("coupling", dict(M1, sweep=ONE, freq="ac", coupling="segregated", solver="gcrot"), dict(M1, sweep=ONE, freq="ac")),
    ("segregated", dict(M1, sweep=ONE, freq="ac", biot="voxel"), dict(M1, sweep=ONE, freq="ac", coupling="segregated", cloud=1)),
    ("sweeps", dict(E1, sweep={"x": None, "y": "x"}, freq="ac"), dict(E2, sweep={"y": None, "x": "y"}, freq="any")),
):
    HARNESSES.append(H("solver/"+k, h_solver, first=f, cfg=c))
HARNESSES.append(H("failed/electric", h_failed, first=dict(E2, sweep=ONE, freq="ac"), cfg=dict(E1, sweep=ONE, freq="dc"), most=100))
HARNESSES.append(H("failed/fft", h_failed, first=dict(E2, sweep=ONE, freq="ac"), cfg=dict(E1, sweep=ONE, freq="ac", mult="fft"), most=100))
for mult in ("direct", "fft"):
    for (k, sweep) in (("free", {"x": None, "y": None}), ("chain", {"x": None, "y": "x"})):
        HARNESSES.append(H("parallel/%s/%s" % (mult, k), h_parallel, cfg=dict(M1, sweep=sweep, freq="ac"), mult=mult))
HARNESSES.append(H("parallel/split", h_parallel, cfg=dict(M1, sweep={"x": None, "y": None}, freq="any", split=False), mult="fft"))
V1 = ("voxel", (2, 2, 1), {"a": [3, 0], "b": [1]}, dict(crop=True, fac=(2, 1, 1)))
V2 = ("voxel", (3, 1, 1), {"a": [2], "b": [0]}, dict(rules=p28.BA, conn=[p28.NOA], cloud=(1, True, False)))
V3 = ("voxel", (2, 1, 1), {"a": [0, 1], "b": [1]}, {})
P1 = ("png", (2, 1), ["i"], {"a": [p28.RED, [0, 0, 0, 0]], "b": [p28.GRN]}, {})
for (i, f) in enumerate((V1, V2, V3, P1)):
    HARNESSES.append(H("mesher/voxel/%d" % i, h_mesher, first=f, kind="voxel", n=(2, 1, 1), dom="ab", crop=i == 0, fac=(1, 2, 1) if i == 1 else None, rules=p28.AB if i != 2 else None, conn=[p28.NOC] if i == 1 else []))
    HARNESSES.append(H("mesher/png/%d" % i, h_mesher, first=f, kind="png", size=(2, 1), spec={"i": (2, 1)}, colors={"a": [p28.RED, p28.GRN], "b": [p28.GRN]}, layers=[(1, ["i"])], rules=p28.AB if i != 2 else None, crop=i == 1))
for mode in ("qt", "save", "debug"):
    for (k, b) in (("viewer", dict(layouts=["domain", "mesh"])), ("plotter", dict(sweeps=["s0", "s2"], layouts=["convergence", "norm_voxel"]))):
        for other in ("save", "nb"):
            HARNESSES.append(H("plot/%s/%s/%s" % (mode, k, other), h_plot, what="plotter", before=(k, dict(b, mode=other)), sweeps=["s0", "s1"], layouts=["norm_voxel", "convergence"], mode=mode))
    HARNESSES.append(H("view/"+mode, h_plot, what="viewer", before=("plotter", dict(sweeps=["s0"], layouts=["norm_voxel"], mode="qt")), layouts=["domain", "graph"], mode=mode))

# the functions of the other properties, after uses of the same functions with other data
SLOW = {
    "p10": ("off", "rules", "random", "both/2"), "p11": ("voxel",), "p16": ("power", "status"), "p21": ("ana", "green", "coupling", "permutation", "num", "lemma"),
}
SPREAD = ("p01", "p02", "p03", "p04", "p05", "p06", "p07", "p08", "p09", "p10", "p11", "p12", "p13", "p14", "p15", "p16", "p18", "p19", "p20", "p21", "p22")
for (tier, num) in (("quick", 6), ("thorough", 24)):
    for pid in SPREAD:
        names = [h["name"] for h in importlib.import_module("harness."+pid).HARNESSES if h["tier"] == "quick" and not h["name"].startswith(SLOW.get(pid, ("-",)))]
        old = {h["name"] for h in HARNESSES}
        for j in range(0, len(names), max(1, len(names)//num)):
            name = "history/%s/%s" % (pid, names[j])
            if name not in old:
                HARNESSES.append(H(name, h_history, tier=tier, pid=pid, second=names[j], first=[names[j], names[(j+1) % len(names)], names[(j+len(names)//2) % len(names)]]))
for name in ("green", "coupling"):
    HARNESSES.append(H("twice/%s/threshold" % name, h_twice, fct=getattr(p21, "h_"+name), n=(2, 1, 1), thr="sym", fixed=(3, 1, 1)))
for name in ("green/211/sym", "coupling/211/sym"):
    HARNESSES.append(H("history/p21/"+name, h_history, pid="p21", second=name, first=[name]))
