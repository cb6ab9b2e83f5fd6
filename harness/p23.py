"""Failures reach the caller and never leave an output file."""

import os
import shutil
import sys
import tempfile
import types
from .common import H
from . import p17
from .run_solver import Problem

BOUNDS = ("one fault at every stage (load of each input, run, write; or the k-th call of a function of the libraries, for every k), three types of errors, "
          "every command (with its alias) and entry point, output file existing or not; mesher runs with up to 4 voxels, viewer and plotter runs with up to 3 voxels")
ASSUMPTIONS = ["scisave is replaced by a recorder which raises at the chosen stage and which writes a marker to a scratch folder",
               "the format check of jsonschema is accepted in the symbolic runs"]


class Fault(Exception):
    pass


ERRORS = [Fault, ValueError, KeyError]
CMD = {
    "mesher": {"in": [("geometry", "config")], "out": "voxel", "alias": "me", "opt": []},
    "viewer": {"in": [("voxel", "data"), ("viewer", "config")], "out": None, "alias": "vi", "opt": ["tag_plot", "plot_mode", "folder"]},
    "solver": {"in": [("voxel", "data"), ("problem", "config"), ("tolerance", "config")], "out": "solution", "alias": "so", "opt": []},
    "plotter": {"in": [("solution", "data"), ("plotter", "config")], "out": None, "alias": "pl", "opt": ["tag_sweep", "tag_plot", "plot_mode", "folder"]},
}
FLAG = {"geometry": "-ge", "voxel": "-vo", "viewer": "-vi", "problem": "-pr", "tolerance": "-to", "solution": "-so", "plotter": "-pl"}


class World:
    """Input and output files, the run of the command, and the injected fault."""

    def __init__(self, ctx, cmd):
        self.ctx = ctx
        self.cmd = cmd
        self.spec = CMD[cmd]
        self.log = []
        stages = ["none", "run"]+["load_"+a for (a, _) in self.spec["in"]]+(["write"] if self.spec["out"] else [])
        self.fault = ctx.choice("fault", stages)
        self.error = ERRORS[ctx.conc(ctx.int("error", 0, len(ERRORS)-1))]("injected") if self.fault != "none" else None
        self.exists = bool(self.spec["out"] and bool(ctx.bool("exists")))
        self.dir = tempfile.mkdtemp(prefix="symxio")
        self.out = os.path.join(self.dir, "out.pkl")
        self.data = {a: {"name": a, "kind": k} for (a, k) in self.spec["in"]}
        self.result = {"result": cmd}
        if self.exists:
            with open(self.out, "w") as f:
                f.write("old")
        if not ctx.sym:
            ctx.load("pypeec.run."+cmd)
        ctx.stub({"scisave": {"load_config": lambda p, *a, **k: self.load(p, "config"), "load_data": lambda p, *a, **k: self.load(p, "data"),
                              "write_data": lambda p, d, *a, **k: self.write(p, d)}})
        if ctx.sym:
            # the numerical modules are not part of this check
            mod = types.ModuleType("pypeec.run."+cmd)
            mod.run = self.run
            ctx.load("pypeec.run")
            ctx.mods.mods["pypeec.run."+cmd] = mod
        else:
            ctx.patch(ctx.load("pypeec.run."+cmd), "run", self.run)

    def path(self, name):
        return self.out if name == self.spec["out"] else "/nowhere/"+name

    def load(self, path, kind):
        name = str(path).rsplit("/", 1)[-1]
        self.log.append(("load", name, kind))
        if self.fault == "load_"+name:
            raise self.error
        return self.data[name]

    def run(self, *args, **kw):
        self.log.append(("run", args, kw))
        if self.fault == "run":
            raise self.error
        return self.result if self.spec["out"] else None

    def write(self, path, data):
        self.log.append(("write", path, data))
        if self.fault == "write":
            raise self.error
        with open(path, "w") as f:
            f.write("new")

    def content(self):
        if not os.path.exists(self.out):
            return None
        with open(self.out) as f:
            return f.read()

    def check(self, ctx, file_level, kwargs):
        runs = [e for e in self.log if e[0] == "run"]
        writes = [e for e in self.log if e[0] == "write"]
        loads = [e[1:] for e in self.log if e[0] == "load"]
        (names, kinds) = zip(*self.spec["in"])
        want = None
        if self.fault == "none":
            ctx.check("one run", len(runs) == 1)
            (_, args, kw) = runs[0]
            import inspect
            # positions and keywords are equivalent
            full = dict(zip(["data_"+a for a in names]+[k for (k, _) in kwargs], args))
            full.update(kw)
            ctx.check("input data of the run", all(full.get("data_"+a) is self.data[a] for a in names))
            ctx.check("options of the run", {k: v for (k, v) in full.items() if not k.startswith("data_") and v is not None} == {k: v for (k, v) in kwargs if v is not None})
            if file_level and self.spec["out"]:
                ctx.check("the result is written once", len(writes) == 1 and str(writes[0][1]) == self.out and writes[0][2] is self.result)
                want = "new"
            else:
                want = "old" if self.exists else None
        else:
            want = "old" if self.exists else None
            if self.fault.startswith("load"):
                ctx.check("no run without data", not runs)
            if self.fault != "write":
                ctx.check("no file is written after a failure", not writes)
        if file_level:
            ctx.check("each file is loaded once with the right format", len(set(loads)) == len(loads) and set(loads) <= set(zip(names, kinds))
                      and (self.fault != "none" or len(loads) == len(names)))
        else:
            ctx.check("no file is loaded", not loads)
            ctx.check("no file is written", not writes)
        ctx.check("content of the output file", self.content() == want)
        ctx.check("no other file", sorted(os.listdir(self.dir)) == (["out.pkl"] if want is not None else []))
        ctx.check("input data are not modified", all(self.data[a] == {"name": a, "kind": k} for (a, k) in self.spec["in"]))

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


VALUES = {"tag_plot": ["a", "b"], "tag_sweep": ["s"], "plot_mode": "save", "folder": "fld", "name": "nm"}


def options(ctx, spec, name=False):
    """Options of the viewer and plotter."""
    out = []
    for k in spec["opt"]+(["name"] if name and spec["opt"] else []):
        if bool(ctx.bool("has_"+k)):
            out.append((k, VALUES[k]))
    return out


def h_data(ctx, cmd):
    w = World(ctx, cmd)
    try:
        if w.fault not in ("none", "run"):
            ctx.assume(False)
        kw = options(ctx, w.spec, True)
        main = ctx.load("pypeec.main")
        (err, res) = ctx.raises(getattr(main, "run_%s_data" % cmd), *[w.data[a] for (a, _) in w.spec["in"]], **dict(kw))
        ctx.check("the error of the run is raised", err is w.error)
        if err is None and w.spec["out"]:
            ctx.check("the result is returned", res is w.result)
        w.check(ctx, False, kw)
    finally:
        w.close()


def h_file(ctx, cmd):
    w = World(ctx, cmd)
    try:
        kw = options(ctx, w.spec, True)
        main = ctx.load("pypeec.main")
        files = [w.path(a) for (a, _) in w.spec["in"]]+([w.out] if w.spec["out"] else [])
        (err, _) = ctx.raises(getattr(main, "run_%s_file" % cmd), *files, **dict(kw))
        ctx.check("the error is raised", err is w.error)
        w.check(ctx, True, kw)
    finally:
        w.close()


def quiet_streams(fct, enc="utf-8"):
    """Run without the output of the argument parser."""
    import io
    old = (sys.stdout, sys.stderr)
    (sys.stdout, sys.stderr) = [io.TextIOWrapper(io.BytesIO(), encoding=enc) for _ in range(2)]
    try:
        return fct()
    finally:
        (sys.stdout, sys.stderr) = old


def h_script(ctx, cmd, entry):
    """Command line: arguments of the commands and exit codes."""
    w = World(ctx, cmd)
    argv_old = sys.argv
    try:
        kw = options(ctx, w.spec)
        name = cmd if bool(ctx.bool("long")) else w.spec["alias"]
        lst = [name]
        for (a, _) in w.spec["in"]:
            lst += [FLAG[a], w.path(a)]
        if w.spec["out"]:
            lst += [FLAG[w.spec["out"]], w.out]
        for (k, v) in kw:
            lst += ["--"+k]+(v if isinstance(v, list) else [v])
        if bool(ctx.bool("quiet")):
            lst = ["-q"]+lst
        script = ctx.load("pypeec.script")
        if entry == "arguments":
            (err, code) = ctx.raises(lambda: quiet_streams(lambda: script.run_arguments(lst)))
            ctx.check("no error is raised", err is None)
        else:
            sys.argv = ["pypeec"]+lst
            code = "none"
            try:
                quiet_streams(script.run_script)
            except SystemExit as ex:
                code = ex.code
            ctx.check("exit", code != "none")
        ok = code is None or code == 0
        ctx.check("exit code", ok == (w.fault == "none") and (ok or isinstance(code, int)))
        if dict(kw).get("folder") is None and w.spec["opt"]:
            kw = kw+[("folder", ".")]
        w.check(ctx, True, kw)
    finally:
        sys.argv = argv_old
        w.close()


def h_usage(ctx, cmd):
    """Invalid arguments: non-zero code and nothing is run."""
    w = World(ctx, cmd)
    try:
        if w.fault != "none":
            ctx.assume(False)
        need = [a for (a, _) in w.spec["in"]]+([w.spec["out"]] if w.spec["out"] else [])
        lst = [cmd]
        have = [a for a in need if bool(ctx.bool("has_"+a))]
        for a in have:
            lst += [FLAG[a], w.path(a)]
        what = ctx.choice("extra", ["none", "flag", "command", "mode"])
        lst = {"none": lst, "flag": lst+["--unknown", "x"], "command": ["unknown"]+lst[1:], "mode": lst+["--plot_mode", "unknown"]}[what]
        script = ctx.load("pypeec.script")
        (err, code) = ctx.raises(lambda: quiet_streams(lambda: script.run_arguments(["-q"]+lst)))
        ctx.check("no error is raised", err is None)
        valid = have == need and what == "none"
        ctx.check("exit code", (code == 0) == valid and isinstance(code, int))
        if not valid:
            ctx.check("nothing is done", not w.log and w.content() == ("old" if w.exists else None))
    finally:
        w.close()


def h_extract(ctx, what):
    """Extraction of the examples and of the documentation."""
    import importlib
    import importlib.resources
    import contextlib
    importlib.import_module("pypeec.data")
    script = ctx.load("pypeec.script")
    done = []
    fault = ctx.choice("fault", ["none", "missing", "unpack"])
    error = ERRORS[ctx.conc(ctx.int("error", 0, len(ERRORS)-1))]("injected") if fault != "none" else None

    @contextlib.contextmanager
    def path(package, name, *a, **k):
        if fault == "missing":
            raise error
        yield "/data/%s/%s" % (package, name)

    def unpack(file, dst, *a, **k):
        if fault == "unpack":
            raise error
        done.append((str(file), str(dst)))
    old = (importlib.resources.path, shutil.unpack_archive)
    try:
        (importlib.resources.path, shutil.unpack_archive) = (path, unpack)
        (err, code) = ctx.raises(lambda: quiet_streams(lambda: script.run_arguments(["-q", what, "/scratch/dst"])))
    finally:
        (importlib.resources.path, shutil.unpack_archive) = old
    ctx.check("no error is raised", err is None)
    ctx.check("exit code", (code == 0) == (fault == "none") and isinstance(code, int))
    ctx.check("extracted data", done == ([("/data/pypeec.data/%s.zip" % what, "/scratch/dst")] if fault == "none" else []))


# ---------------------------------------------------------------- faults inside of the runs

def snapshot(ctx, x):
    """Deep copy of the values of the input data."""
    if isinstance(x, dict):
        return ("dict", [(k, snapshot(ctx, v)) for (k, v) in x.items()])
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [snapshot(ctx, v) for v in x])
    if hasattr(x, "shape") and hasattr(x, "reshape"):
        return ("array", tuple(x.shape), list(ctx.lst(x)))
    return x


def same(ctx, a, b):
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        return len(a) == len(b) and all(same(ctx, p, q) for (p, q) in zip(a, b))
    if a is b:
        return True
    if isinstance(a, (str, bytes)) or isinstance(b, (str, bytes)) or a is None or b is None or isinstance(a, bool) or isinstance(b, bool):
        return type(a) is type(b) and a == b
    if ctx.sym:
        return bool(ctx.sc.truth(a == b)) if not hasattr(a, "t") or not hasattr(b, "t") else a.t == b.t
    return a == b or a != a and b != b


def instrument(ctx, mod, most, one=False):
    """The k-th call of a function of the libraries of the package fails (k = 0: no fault; one: with a single type of errors)."""
    k = ctx.int("k", 0, most)
    state = {"n": 0, "error": None, "off": False}
    err = ERRORS[0 if one else ctx.conc(ctx.int("error", 0, len(ERRORS)-1))]

    def wrap(f):
        def g(*a, **kw):
            if state["error"] is None and not state["off"]:
                state["n"] += 1
                if bool(k == state["n"]):
                    state["error"] = err("injected")
                    raise state["error"]
            return f(*a, **kw)
        g.__name__ = f.__name__
        return g
    todo = [mod]
    seen = set()
    while todo:
        m = todo.pop()
        for (name, v) in list(vars(m).items()):
            if isinstance(v, types.ModuleType) and v.__name__.startswith("pypeec.") and v.__name__ not in seen:
                seen.add(v.__name__)
                todo.append(v)
                for (a, f) in list(vars(v).items()):
                    if isinstance(f, types.FunctionType) and not a.startswith("_") and f.__module__ == v.__name__:
                        ctx.patch(v, a, wrap(f))
    return state


def faulty(ctx, mod, fct, inputs, most):
    """Run with one injected fault."""
    old = snapshot(ctx, inputs)
    state = instrument(ctx, mod, most)
    (err, res) = ctx.raises(fct, *inputs)
    state["off"] = True
    ctx.check("more calls than expected", state["n"] <= most)
    ctx.check("the injected error is raised", err is state["error"])
    ctx.check("the input data are not modified", same(ctx, snapshot(ctx, inputs), old))
    return err, res


def json_stub(ctx):
    if ctx.sym:
        p17.install(ctx)
        ctx.stub({"vtk": {"vtkObject": types.SimpleNamespace(GlobalWarningDisplayOff=lambda: None)}})


def h_mesher(ctx, n, doms, use, most):
    """All the stages of the mesher with a voxel structure."""
    json_stub(ctx)
    mod = ctx.load("pypeec.run.mesher")
    d = [ctx.real("d"+a, lo=0.01 if not ctx.sym else None, pos=True) for a in "xyz"]
    c = [ctx.real("c"+a) for a in "xyz"]
    names = list(doms)
    point = [[c[0]+20*n[0]*d[0], c[1], c[2]]] if "p" in use else []
    geo = {
        "mesh_type": "voxel",
        "data_voxelize": {"param": {"n": list(n), "d": list(d), "c": list(c)}, "domain_index": {k: list(v) for (k, v) in doms.items()}},
        "data_point": {"check_cloud": "p" in use, "full_cloud": "f" in use, "pts_cloud": point},
        "data_conflict": {"resolve_rules": "c" in use, "resolve_random": False,
                          "conflict_rules": [{"domain_resolve": [names[0]], "domain_keep": [names[-1]]}] if "c" in use and len(names) > 1 else []},
        "data_resampling": {"use_reduce": "r" in use, "use_resample": "s" in use, "resampling_factor": [2, 1, 1] if "s" in use else [1, 1, 1]},
        "data_integrity": {"domain_connected": {"a": {"domain_group": [[k] for k in names], "connected": True}} if "i" in use else {},
                           "domain_adjacent": {}},
    }
    (err, res) = faulty(ctx, mod, mod.run, [geo], most)
    if err is None:
        ctx.check("complete data", set(res) == {"date", "duration", "seconds", "status", "data_geom"} and res["status"] is True)
        got = {k: ctx.ints(v) for (k, v) in res["data_geom"]["domain_def"].items()}
        if not set(use) & set("rsc"):
            ctx.check("domains", {k: sorted(v) for (k, v) in got.items()} == {k: sorted(v) for (k, v) in doms.items()})


def h_viewer(ctx, layout, most):
    p17.install(ctx)
    mod = ctx.load("pypeec.run.viewer")
    (n, dom, graph) = ((2, 2, 1), {"a": [3, 0], "b": [1]}, [[3, 1], [0]])
    (d, c) = p17.geometry(ctx, n)
    geom = {"n": list(n), "d": list(d), "c": list(c), "domain_def": {t: ctx.arr(v, "i") for (t, v) in dom.items()}, "graph_def": [ctx.arr(g, "i") for g in graph],
            "pts_cloud": ctx.np.zeros((0, 3)), "reference": None}
    data = {"date": "", "duration": "", "seconds": 0.0, "status": True, "data_geom": geom}
    dp = {"title": "t", "colormap": "m", "opacity": 1.0, "color_voxel": "vx", "color_reference": "rf", "opacity_voxel": 1.0, "opacity_reference": 0.5}
    faulty(ctx, mod, lambda a, b: mod.run(a, b, None, "debug", None, None), [data, {"p": p17.entry(layout, "t", dp), "q": p17.entry(layout, "u", dp)}], most)


def h_plotter(ctx, layout, var, most):
    p17.install(ctx)
    mod = ctx.load("pypeec.run.plotter")
    n = (2, 2, 1)
    (d, c) = p17.geometry(ctx, n)
    pts = p17.points(ctx, 1)
    init = p17.solution_init(ctx, n, d, c, [3, 0], [1], [], [], pts)
    (vars_, _) = p17.variables(ctx, "", [3, 0], [1], 1, only=var)
    o = p17.options(ctx, layout, var, 0, "")
    sol = {"date": "", "duration": "", "seconds": 0.0, "status": True, "data_init": init, "data_sweep": {"s": {"var": vars_, "res": ctx.arr([0.0], "c"), "conv": {}}}}
    faulty(ctx, mod, lambda a, b: mod.run(a, b, None, None, "debug", None, None), [sol, {"p": p17.entry(layout, "t", o)}], most)


def h_solver(ctx, cfg, most):
    """All the stages of the solver."""
    pb = Problem(ctx, **cfg)
    inputs = list(pb.inputs())
    (mod, it, _) = pb.prepare()
    (err, res) = faulty(ctx, mod, mod.run, inputs, most)
    if err is None:
        ctx.check("complete data", set(res) == {"date", "duration", "seconds", "status", "data_init", "data_sweep"} and set(res["data_sweep"]) == set(pb.sweep))


HARNESSES = []
for cmd in CMD:
    HARNESSES.append(H("data/"+cmd, h_data, cmd=cmd))
    HARNESSES.append(H("file/"+cmd, h_file, cmd=cmd))
    for entry in ("arguments", "script"):
        HARNESSES.append(H("%s/%s" % (entry, cmd), h_script, cmd=cmd, entry=entry))
    HARNESSES.append(H("usage/"+cmd, h_usage, cmd=cmd))
for what in ("examples", "documentation"):
    HARNESSES.append(H("extract/"+what, h_extract, what=what))
for (i, (n, doms, use)) in enumerate((((2, 1, 1), {"a": [0], "b": [1]}, ""), ((2, 2, 1), {"a": [0, 3], "b": [1]}, "pi"), ((2, 1, 2), {"a": [0, 1], "b": [1]}, "c"),
                                      ((3, 1, 1), {"a": [1], "b": [2]}, "rs"), ((2, 2, 1), {"a": [0], "b": [2]}, "pfrsi"))):
    HARNESSES.append(H("stage/mesher/%d" % i, h_mesher, n=n, doms=doms, use=use, most=40))
for lay in ("domain", "graph", "mesh"):
    HARNESSES.append(H("stage/viewer/"+lay, h_viewer, layout=lay, most=40))
for (lay, var) in (("norm_voxel", "V_c"), ("arrow_voxel", "J_c"), ("phasor_voxel", "Q_m"), ("norm_point", "H_p")):
    HARNESSES.append(H("stage/plotter/"+lay, h_plotter, layout=lay, var=var, most=60))
SOLVER = {
    "electric": dict(n=(2, 1, 1), dom={"a": [0], "b": [1]}, mat={"m": ("electric", ["a", "b"])}, src={"s": ("current", ["a"]), "t": ("voltage", ["b"])}, sweep={"x": None, "y": "x"}, freq="dc"),
    "magnetic": dict(n=(2, 1, 1), dom={"a": [0], "b": [1]}, mat={"m": ("electric", ["a"]), "p": ("magnetic", ["b"])}, src={"t": ("voltage", ["a"])}, sweep={"x": None}, freq="ac", cloud=1,
                     coupling="segregated"),
}
for (k, cfg) in SOLVER.items():
    HARNESSES.append(H("stage/solver/"+k, h_solver, cfg=cfg, most=150))
