"""Malformed input data are rejected before any computation, well-formed data are accepted."""

import copy
import hashlib
import os
import types
from .common import H
from .p23 import json_stub

BOUNDS = ("for each mesher, the problem, the tolerance, and each layout of the viewer and plotter: one deviation (two in the thorough tier) from well-formed data, at every field: any number "
          "(symbolic), another type (11 values), another option name, a missing field, NumPy arrays, 0 to 4 items, an empty name")
ASSUMPTIONS = ["the real jsonschema library runs on the symbolic numbers", "the schemas are read by the real YAML loader from the current source"]


# ------------------------------------------------------------------ description of the formats

class F:
    """Floating-point number (free: negative values are not specified)."""
    def __init__(self, lo=None, free=False):
        (self.lo, self.free) = (lo, free)


class I(F):
    """Integer number."""


class B:
    """Boolean."""


class Str:
    """Non-empty string."""


class E:
    """Option name."""
    def __init__(self, *names):
        self.names = names


class N:
    """null or the given format."""
    def __init__(self, x):
        self.x = x


class L:
    """Array with lo to hi items."""
    def __init__(self, x, lo=0, hi=None):
        (self.x, self.lo, self.hi) = (x, lo, hi)


class M:
    """Dictionary with free keys."""
    def __init__(self, x, lo=0):
        (self.x, self.lo) = (x, lo)


class O:
    """Dictionary with the given keys (all required), further keys are not specified."""
    def __init__(self, **f):
        self.f = {k.replace("__", "-"): v for (k, v) in f.items()}


class Alt:
    """One of the formats; base: index of the format of the well-formed data."""
    def __init__(self, *x, base=0):
        (self.x, self.base) = (x, base)


class Free:
    """Not specified: the given value is well-formed."""
    def __init__(self, v):
        self.v = v


def V(k, **kw):
    return L(I(**kw) if kw.pop("int", False) else F(**kw), k, k)


def VI(k, lo=None):
    return L(I(lo), k, k)


POINT = O(check_cloud=B(), full_cloud=B(), pts_cloud=L(V(3)))
RESAMPLING = O(use_reduce=B(), use_resample=B(), resampling_factor=VI(3, 1))
CONFLICT = O(resolve_rules=B(), resolve_random=B(), conflict_rules=L(O(domain_resolve=L(Str(), 1), domain_keep=L(Str(), 1))))
RULES = M(O(domain_group=L(L(Str(), 1), 1), connected=B()))
INTEGRITY = O(domain_connected=RULES, domain_adjacent=RULES)
PAD = O(diameter=F(0), coord=L(V(2), 1))
TRACE = O(width=F(0), coord=L(V(2), 1))
POLYGON = O(buffer=N(F(0)), coord_shell=L(V(2), 1), coord_holes=L(L(V(2), 1)))


def shape(base):
    com = dict(shape_layer=L(Str(), 1), shape_operation=E("add", "sub"))
    return Alt(O(shape_type=E("pad"), shape_data=PAD, **com), O(shape_type=E("trace"), shape_data=TRACE, **com), O(shape_type=E("polygon"), shape_data=POLYGON, **com), base=base)


def geometry(kind):
    com = dict(data_point=POINT, data_resampling=RESAMPLING, data_conflict=CONFLICT, data_integrity=INTEGRITY)
    base = {"voxel": 0, "png": 1, "stl": 2, "pad": 3, "trace": 3, "polygon": 3}[kind]
    return Alt(
        O(mesh_type=E("voxel"), data_voxelize=O(param=O(n=VI(3, 1), d=V(3, lo=0), c=V(3)), domain_index=M(L(I(0)), 1)), **com),
        O(mesh_type=E("png"), data_voxelize=O(param=O(d=V(3, lo=0), c=V(3), size=VI(2, 1)), domain_color=M(L(VI(4, 0), 1), 1),
                                              layer_stack=L(O(n_layer=I(1), filename_list=L(Str(), 1)), 1)), **com),
        O(mesh_type=E("stl"), data_voxelize=O(param=O(d=V(3, lo=0), xyz_min=N(V(3)), xyz_max=N(V(3))),
                                              domain_stl=M(L(O(scale=F(0), offset=V(3), filename=Str()), 1), 1)), **com),
        O(mesh_type=E("shape"), data_voxelize=O(
            param=O(dx=F(0), dy=F(0), dz=F(0), cz=N(F()), simplify=N(F(0)), construct=N(F(0)), xy_min=N(V(2)), xy_max=N(V(2))),
            layer_stack=L(O(n_layer=I(1), tag_layer=Str()), 1),
            geometry_shape=M(L(shape({"trace": 1, "polygon": 2}.get(kind, 0)), 1), 1)), **com),
        base=base)


RHO = O(rho_re=Free(1.0), rho_im=Free(0.0))
CHI = O(chi_re=Free(10.0), chi_im=Free(0.0))


def problem(kind):
    return O(
        material_def=M(O(domain_list=L(Str(), 1), material_type=E("electric", "magnetic", "electromagnetic"), orientation_type=E("isotropic", "anisotropic"), var_type=E("lumped", "distributed")), 1),
        source_def=M(O(domain_list=L(Str(), 1), source_type=E("current", "voltage"), var_type=E("lumped", "distributed")), 1),
        sweep_solver=M(O(init=N(Str()), param=O(freq=F(0), material_val=M(Alt(RHO, CHI, base=kind)), source_val=Free({"a": {"I_re": 1.0, "I_im": 0.0, "Y_re": 0.0, "Y_im": 0.0}}))), 1))


ITER = O(solver=E("gmres", "gcrot"), n_inner=I(0), n_outer=I(0), rel_tol=F(0), abs_tol=F(0))
TOLERANCE = O(
    parallel_sweep=O(n_jobs=I(), n_threads=N(I())), integral_simplify=F(0), biot_savart=E("face", "voxel"), mult_type=E("fft", "direct"),
    fft_options=O(matrix_split=B(), library=E("NumPy", "SciPy", "MKL", "FFTW", "CuPy"), scipy_worker=I(), fftw_thread=I(), fftw_timeout=N(F(0)), fftw_byte_align=N(I(0))),
    factorization_options=O(library=E("SuperLU", "PARDISO", "PyAMG"), pyamg_options=O(tol=F(0), solver=E("adapt", "root"), krylov=N(E("gmres", "fgmres"))),
                            pardiso_options=O(thread_pardiso=N(I()), thread_mkl=N(I()))),
    solver_options=O(
        coupling=E("direct", "segregated"), tolerance_options=O(ignore_status=B(), ignore_res=B(), rel_tol=F(0), abs_tol=F(0)),
        power_options=O(stop=B(), n_min=I(0), n_cmp=I(0), rel_tol=F(0), abs_tol=F(0)), direct_options=ITER,
        segregated_options=O(relax_electric=F(0), relax_magnetic=F(0), n_min=I(0), n_max=I(0), rel_tol=F(0), abs_tol=F(0))),
    condition_options=O(check=B(), tolerance_electric=F(0), tolerance_magnetic=F(0), norm_options=O(t_accuracy=I(0), n_iter_max=I(0))))
WINDOW = O(show_menu=B(), image_size=N(VI(2, 0)), window_size=N(VI(2, 0)), notebook_size=N(VI(2, 0)))
ANGLE = N(F(0, free=True))
PYVISTA = O(
    plot_clip=O(clip_plot=B(), clip_invert=B(), clip_axis=E("x", "y", "z"), clip_value=F()),
    plot_theme=O(text_color=Str(), title_font=I(0), colorbar_font=I(0), colorbar_size=I(0), colorbar_plot=B(), background_color=Str(), axis_add=B(), axis_size=I(0)),
    plot_view=O(grid_plot=B(), grid_thickness=F(0), grid_color=Str(), grid_opacity=F(0), geom_plot=B(), geom_thickness=F(0), geom_color=Str(), geom_opacity=F(0),
                point_plot=B(), point_color=Str(), point_size=F(0), point_opacity=F(0), camera_roll=ANGLE, camera_azimuth=ANGLE, camera_elevation=ANGLE))
MATPLOTLIB = O(style=Str(), legend=Str(), font=I(0))
TITLE = N(Str())
LIM = N(V(2))
VAR = dict(title=TITLE, legend=TITLE, var=Str(), log=B(), color_lim=LIM, filter_lim=LIM, clamp_lim=LIM)
VIEW = {
    "domain": O(title=TITLE, colormap=Str(), opacity=F(0)),
    "graph": O(title=TITLE, colormap=Str(), opacity=F(0)),
    "mesh": O(title=TITLE, color_voxel=Str(), color_reference=Str(), opacity_voxel=F(0), opacity_reference=F(0)),
}
PLOT = {
    "material": O(title=TITLE, color_electric=Str(), color_magnetic=Str(), color_electromagnetic=Str(), color_current_source=Str(), color_voltage_source=Str()),
    "norm_voxel": O(scale=F(), point_size=F(0), **VAR),
    "norm_point": O(scale=F(), point_size=F(0), **VAR),
    "phasor_voxel": O(phase=F(), scale=F(), point_size=F(0), **VAR),
    "phasor_point": O(phase=F(), scale=F(), point_size=F(0), **VAR),
    "arrow_voxel": O(phase=F(), scale=F(), arrow_threshold=F(0), arrow_scale=F(0), **VAR),
    "arrow_point": O(phase=F(), scale=F(), arrow_threshold=F(0), arrow_scale=F(0), **VAR),
    "convergence": O(color_active=Str(), color_reactive=Str(), marker=F(0), width=F(0)),
    "residuum": O(bar_color=Str(), edge_color=Str(), tol_bins=F(0), n_bins=I(0)),
}


def plots(tab, lay):
    alt = []
    for (k, v) in tab.items():
        mpl = k in ("convergence", "residuum")
        alt.append(O(framework=E("matplotlib" if mpl else "pyvista"), layout=E(k), title=Str(), data_window=WINDOW, data_options=MATPLOTLIB if mpl else PYVISTA, data_plot=v))
    return M(Alt(*alt, base=list(tab).index(lay)))


# ------------------------------------------------------------------ well-formed data, fields, and the oracle

def base(x):
    if isinstance(x, I):
        return 1
    if isinstance(x, F):
        return 1.0
    if isinstance(x, B):
        return False
    if isinstance(x, Str):
        return "a"
    if isinstance(x, E):
        return x.names[0]
    if isinstance(x, N):
        return base(x.x)
    if isinstance(x, L):
        return [base(x.x) for _ in range(x.hi if x.hi is not None else 2)]
    if isinstance(x, M):
        return {k: base(x.x) for k in ("a", "b")}
    if isinstance(x, O):
        return {k: base(v) for (k, v) in x.f.items()}
    if isinstance(x, Alt):
        return base(x.x[x.base])
    return copy.deepcopy(x.v)


def fields(x, path=()):
    """All the fields: (path, format). The items of arrays and free dictionaries: the last one."""
    yield (path, x)
    if isinstance(x, N):
        x = x.x
    if isinstance(x, Alt):
        x = x.x[x.base]
    if isinstance(x, L):
        yield from fields(x.x, path+((x.hi if x.hi is not None else 2)-1,))
    elif isinstance(x, M):
        yield from fields(x.x, path+("b",))
    elif isinstance(x, O):
        for (k, v) in x.f.items():
            yield from fields(v, path+(k,))


def conform(ctx, x, v):
    """Is the value well-formed? (symbolic condition)"""
    if isinstance(x, Free):
        return True
    if isinstance(x, N):
        return True if v is None else conform(ctx, x.x, v)
    if isinstance(x, Alt):
        return ctx.Or(*[conform(ctx, y, v) for y in x.x])
    if isinstance(x, F):
        num = isinstance(v, Num)
        if not num or v.int != isinstance(x, I):
            return False
        return True if x.lo is None else v.v >= x.lo
    if isinstance(x, B):
        return isinstance(v, bool)
    if isinstance(x, Str):
        return isinstance(v, str) and len(v) > 0
    if isinstance(x, E):
        return isinstance(v, str) and v in x.names
    if isinstance(x, L):
        if type(v).__name__ == "ndarray":
            # NumPy array of numbers (in place of lists)
            v = wrap(v.tolist())
        if not isinstance(v, list) or len(v) < x.lo or x.hi is not None and len(v) > x.hi:
            return False
        return ctx.And(True, *[conform(ctx, x.x, w) for w in v])
    if isinstance(x, M):
        if not isinstance(v, dict) or len(v) < x.lo:
            return False
        return ctx.And(True, *[conform(ctx, x.x, w) for w in v.values()])
    if not isinstance(v, dict) or not set(x.f) <= set(v):
        return False
    return ctx.And(True, *[conform(ctx, y, v[k]) for (k, y) in x.f.items()])


class Num:
    """A number of the data (the value may be symbolic)."""
    def __init__(self, v, int_):
        (self.v, self.int) = (v, int_)


def wrap(v):
    """Numbers of the description as Num."""
    if isinstance(v, dict):
        return {k: wrap(w) for (k, w) in v.items()}
    if isinstance(v, list):
        return [wrap(w) for w in v]
    if isinstance(v, (int, float)) and not isinstance(v, bool):
        return Num(v, isinstance(v, int))
    return v


def leaf(ctx, v, int_):
    """Symbolic number with the type of a Python number."""
    if not ctx.sym or not isinstance(v, ctx.sc.S):
        return v
    import numpy as np
    cls = type("Leaf", (ctx.sc.S,), {"__slots__": (), "np_type": np.int64 if int_ else np.float64})
    return cls(v.t, v.i)


def plain(ctx, v):
    if isinstance(v, dict):
        return {k: plain(ctx, w) for (k, w) in v.items()}
    if isinstance(v, list):
        return [plain(ctx, w) for w in v]
    return leaf(ctx, v.v, v.int) if isinstance(v, Num) else v


def put(data, path, v):
    for p in path[:-1]:
        data = data[p]
    if v is DROP:
        del data[path[-1]]
    else:
        data[path[-1]] = v


DROP = object()
TYPES = [None, "", "a", "1", 1, 1.0, 0, True, [], {}, [[1.0]]]


def deviate(ctx, spec, data, k=""):
    """One deviation of the data (which holds Num objects)."""
    todo = [(p, x) for (p, x) in fields(spec) if p and not isinstance(x, Free)]
    i = ctx.conc(ctx.int("field"+k, 0, len(todo)-1))
    (path, x) = todo[i]
    kinds = ["type"]
    if isinstance(path[-1], str):
        kinds.append("drop")
    y = x.x if isinstance(x, N) else x
    if isinstance(y, F):
        kinds.append("value")
    if isinstance(y, E):
        kinds.append("name")
    if isinstance(y, L):
        kinds.append("items")
        if isinstance(y.x, F) or isinstance(y.x, L) and isinstance(y.x.x, F):
            kinds.append("array")
    if isinstance(y, M):
        kinds.append("keys")
    kind = ctx.choice("kind"+k, kinds)
    if kind == "drop":
        # the keys of a free dictionary are not required
        new = DROP
    elif kind == "type":
        new = wrap(copy.deepcopy(TYPES[ctx.conc(ctx.int("type"+k, 0, len(TYPES)-1))]))
    elif kind == "value":
        if isinstance(y, I):
            new = Num(ctx.int("value"+k, -100, 100), True)
        else:
            new = Num(ctx.real("value"+k, 0 if y.free else None), False)
    elif kind == "name":
        new = ctx.choice("name"+k, list(y.names)+["x", y.names[0]+"x", y.names[0].upper()+"_"])
    elif kind == "array":
        import numpy as np
        (r, c) = (ctx.conc(ctx.int("rows"+k, 0, 4)), ctx.choice("dtype"+k, ["f", "i"]))
        new = np.array([base(y.x)]*r, dtype=float if c == "f" else int)
    elif kind == "items":
        new = [wrap(base(y.x)) for _ in range(ctx.conc(ctx.int("items"+k, 0, 4)))]
    else:
        new = {"k%d" % j: wrap(base(y.x)) for j in range(ctx.conc(ctx.int("keys"+k, 0, 2)))}
    try:
        put(data, path, new)
    except (KeyError, IndexError, TypeError):
        ctx.assume(False)
    return path, kind


# ------------------------------------------------------------------ the runs

class Reached(Exception):
    pass


def stop_at_libraries(ctx, mod):
    """The first call of a library of the package (besides of the checks) ends the run."""
    def stop(*a, **k):
        raise Reached()
    for v in list(vars(mod).values()):
        if isinstance(v, types.ModuleType) and v.__name__.startswith("pypeec.") and ".lib_check" not in v.__name__:
            for (a, f) in list(vars(v).items()):
                if isinstance(f, (types.FunctionType, type)) and not a.startswith("_") and f.__module__ == v.__name__:
                    ctx.patch(v, a, stop)


CACHE = {}


def read(fct, name):
    """The schemas are read once by each process."""
    if str(name) not in CACHE:
        CACHE[str(name)] = fct(name)
    return copy.deepcopy(CACHE[str(name)])


def load(ctx, name):
    if ctx.sym:
        import jsonschema
        import pypeec
        import scisave
        json_stub(ctx)
        ctx.stub({"jsonschema": {k: v for (k, v) in vars(jsonschema).items() if not k.startswith("__")},
                  "jsonschema.validators": {k: v for (k, v) in vars(jsonschema.validators).items() if not k.startswith("__")},
                  "jsonschema.exceptions": {k: v for (k, v) in vars(jsonschema.exceptions).items() if not k.startswith("__")},
                  "scisave": {k: v for (k, v) in vars(scisave).items() if not k.startswith("__")}})
        ctx.stub({"scisave": {"load_config": lambda f: read(scisave.load_config, f)}})
        ctx.stub({"jsonschema": {"Draft202012Validator": jsonschema.Draft202012Validator, "Draft7Validator": jsonschema.Draft7Validator}})
        folder = os.path.join(os.path.dirname(pypeec.__file__), "data")
        for f in sorted(os.listdir(folder)):
            if f.endswith(".yaml"):
                with open(os.path.join(folder, f), "rb") as fid:
                    ctx.sources["pypeec.data."+f] = hashlib.sha256(fid.read()).hexdigest()[:16]
    mod = ctx.load(name)
    stop_at_libraries(ctx, mod)
    return mod


VOXEL = O(date=Free("d"), duration=Free("d"), seconds=Free(1.0), status=Free(True), data_geom=Free({"n": [1, 1, 1], "d": [1.0]*3, "s": [1.0]*3, "c": [0.0]*3, "voxel_status": {}, "pts_cloud": [], "domain_def": {}, "graph_def": [], "reference": None}))
SOLUTION = O(date=Free("d"), duration=Free("d"), seconds=Free(1.0), status=Free(True), data_init=Free({}), data_sweep=Free({"s": {}}))
RUNS = {
    "mesher": [("geometry", geometry)],
    "solver": [("voxel", VOXEL), ("problem", problem), ("tolerance", TOLERANCE)],
    "viewer": [("voxel", VOXEL), ("viewer", lambda k: plots(VIEW, k))],
    "plotter": [("solution", SOLUTION), ("plotter", lambda k: plots(PLOT, k))],
}


def h_format(ctx, run, kind, what, two=False, part=None):
    """what: the input with the deviation."""
    specs = {k: (s(kind) if isinstance(s, types.FunctionType) else s) for (k, s) in RUNS[run]}
    data = {k: wrap(base(s)) for (k, s) in specs.items()}
    if what in ("voxel", "solution"):
        # only the presence of the fields is specified
        drop = ctx.choice("drop", list(specs[what].f)+["none", "list", "null"])
        if drop in ("list", "null"):
            data[what] = {"list": [], "null": None}[drop]
        elif drop != "none":
            del data[what][drop]
    elif what is not None:
        deviate(ctx, specs[what], data[what])
        if two:
            deviate(ctx, specs[what], data[what], "_")
    mod = load(ctx, "pypeec.run."+run)
    ok = ctx.And(True, *[conform(ctx, s, data[k]) for (k, s) in specs.items()])
    (err, _) = ctx.raises(mod.run, *[plain(ctx, data[k]) for k in specs])
    reached = err is None or isinstance(err, Reached)
    if reached:
        ctx.check("malformed data are rejected before any computation", ok)
    else:
        ctx.check("well-formed data are accepted", ctx.Not(ok))


def h_modes(ctx, run):
    """Options of the viewer and plotter."""
    specs = {k: (s({"viewer": "domain", "plotter": "material"}[run]) if isinstance(s, types.FunctionType) else s) for (k, s) in RUNS[run]}
    opt = {"plot_mode": N(E("qt", "nb", "save", "debug")), "folder": N(Str()), "name": N(Str())}
    which = ctx.choice("option", sorted(opt))
    val = ctx.choice("value", [None, "qt", "nb", "save", "debug", "x", "", "Qt", 1, 1.0, True, [], {}])
    ok = bool(conform(ctx, opt[which], wrap(val)))
    mod = load(ctx, "pypeec.run."+run)
    (err, _) = ctx.raises(mod.run, *[base(s) for s in specs.values()], **{which: val})
    ctx.check("accepted if and only if the option is valid", (err is None or isinstance(err, Reached)) == ok)


HARNESSES = []
for k in ("voxel", "png", "stl", "pad", "trace", "polygon"):
    HARNESSES.append(H("mesher/"+k, h_format, run="mesher", kind=k, what="geometry"))
for k in (0, 1):
    HARNESSES.append(H("problem/%d" % k, h_format, run="solver", kind=k, what="problem"))
HARNESSES.append(H("tolerance", h_format, run="solver", kind=0, what="tolerance"))
for k in VIEW:
    HARNESSES.append(H("viewer/"+k, h_format, run="viewer", kind=k, what="viewer"))
for k in PLOT:
    HARNESSES.append(H("plotter/"+k, h_format, run="plotter", kind=k, what="plotter"))
for (r, k, w) in (("solver", 0, "voxel"), ("viewer", "domain", "voxel"), ("plotter", "material", "solution")):
    HARNESSES.append(H("data/%s" % r, h_format, run=r, kind=k, what=w))
for r in ("viewer", "plotter"):
    HARNESSES.append(H("option/"+r, h_modes, run=r))
for k in ("voxel", "png", "stl", "pad", "trace", "polygon"):
    HARNESSES.append(H("two/mesher/"+k, h_format, tier="thorough", run="mesher", kind=k, what="geometry", two=True))
HARNESSES.append(H("two/problem", h_format, tier="thorough", run="solver", kind=0, what="problem", two=True))
