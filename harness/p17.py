"""Data shown by the viewer and the plotter (run.viewer.run and run.plotter.run up to the calls of the rendering library)."""

import os
import types
from .common import H, orders, unlin, total

BOUNDS = ("grids up to 2x3x2 with up to 5 non-empty voxels in up to 3 domains (fixed sets, several orders), arbitrary complex field values, up to 3 points, symbolic voxel dimensions, "
          "scales, phases, filter, clamp and arrow limits; up to 3 sweeps and 5 plots")
ASSUMPTIONS = ["real arithmetic in place of floating point", "PyVista: extract_cells keeps the data and the cell order; assignment checks the number of cells",
               "values at the filter limit itself and at the arrow threshold are assumed away", "validity of the plot options is not checked here"]


# ---------------------------------------------------------------- PyVista (symbolic runs)

class Mesh:
    """Cells (or points) with attached data."""

    def __init__(self, ctx, ids, ctr, kind):
        self.ctx = ctx
        self.ids = list(ids)
        self.ctr = list(ctr)
        self.kind = kind
        self.data = {}
        self.n_cells = len(self.ids)
        self.n_points = len(self.ids) if kind == "point" else 8*len(self.ids)+1

    @property
    def array_names(self):
        return list(self.data)

    def __setitem__(self, k, v):
        a = self.ctx.np.array(v)
        if a.ndim == 0 or a.shape[0] != self.n_cells:
            raise ValueError("invalid number of values")
        if a.dtype.kind == "c":
            raise ValueError("complex arrays are not supported")
        self.data[k] = a

    def __getitem__(self, k):
        return self.data[k]

    def __contains__(self, k):
        return k in self.data

    def keys(self):
        return list(self.data)

    @property
    def cell_data(self): return self

    @property
    def point_data(self): return self

    def copy(self, deep=True):
        m = Mesh(self.ctx, self.ids, self.ctr, self.kind)
        if hasattr(self, "source"):
            m.source = self.source
        m.data = {k: v.copy() if deep else v for (k, v) in self.data.items()}
        return m

    def extract_cells(self, ind, invert=False):
        a = self.ctx.np.array(ind)
        if a.dtype.kind == "b":
            if a.shape != (self.n_cells,):
                raise ValueError("invalid mask")
            pos = [i for (i, v) in enumerate(self.ctx.lst(a)) if bool(v)]
        else:
            pos = sorted(set(self.ctx.ints(a)))
        if invert:
            pos = [i for i in range(self.n_cells) if i not in pos]
        m = Mesh(self.ctx, [self.ids[i] for i in pos], [self.ctr[i] for i in pos], self.kind)
        p = self.ctx.np.array(pos, dtype=self.ctx.np.int64)
        m.data = {k: v[p] for (k, v) in self.data.items()}
        return m

    def glyph(self, **kw):
        return Glyph(self, kw)


class Glyph:
    def __init__(self, src, kw):
        self.src = src
        self.kw = kw
        self.n_cells = src.n_cells


class ImageData:
    ctx = None

    def __init__(self, dimensions=(0, 0, 0), spacing=(1, 1, 1), origin=(0, 0, 0)):
        self.origin = origin
        self.dimensions = dimensions
        self.spacing = spacing

    @property
    def n_cells(self):
        r = 1
        for v in self.dimensions:
            r *= max(int(v)-1, 1)
        return r

    def copy(self, deep=True):
        return ImageData(self.dimensions, self.spacing, self.origin)

    def extract_cells(self, ind):
        ctx = self.ctx
        n = [int(v)-1 for v in ctx.ints(list(self.dimensions))]
        o = ctx.lst(list(self.origin))
        s = ctx.lst(list(self.spacing))
        ids = sorted(set(ctx.ints(ind)))
        if any(i < 0 or i >= n[0]*n[1]*n[2] for i in ids):
            raise IndexError("invalid cell")
        half = ctx.frac(1, 2)
        return Mesh(ctx, ids, [[o[k]+(unlin(i, n)[k]+half)*s[k] for k in range(3)] for i in ids], "cell")


class Plotter:
    log = None

    def __init__(self, *args, **kw):
        self.meshes = []
        self.text = []
        self.camera = types.SimpleNamespace()
        self.files = []
        self.log.append(self)

    def add_mesh(self, obj, **kw): self.meshes.append((obj, kw))
    add_mesh_clip_plane = add_mesh
    def add_text(self, *a, **kw): self.text.append(a[0])
    def add_axes(self, *a, **kw): pass
    def set_background(self, *a, **kw): pass
    def screenshot(self, name, *a, **kw): self.files.append(name)
    def close(self, *a, **kw): pass


def install(ctx):
    """Stand-ins of the rendering libraries (both modes) and of the PyVista objects (symbolic runs)."""
    log = []
    plotter = type("Plotter", (Plotter,), {"log": log})

    class Null:
        def __call__(self, *a, **k): return Null()
        def __getattr__(self, name):
            if name.startswith("__"):
                raise AttributeError(name)
            return Null()
        def __enter__(self): return self
        def __exit__(self, *a): return False
    json = {"validate": lambda *a, **k: None, "Draft202012Validator": Null(), "validators": Null()}
    if ctx.sym:
        grid = type("ImageData", (ImageData,), {"ctx": ctx})

        def poly(points=None, faces=None, **kw):
            pts = ctx.np.array([]) if points is None else ctx.np.array(points)
            if faces is not None:
                m = Mesh(ctx, [0], [None], "faces")
                m.source = (pts, faces)
                return m
            rows = pts.shape[0]
            return Mesh(ctx, range(rows), [[pts[i, k] for k in range(3)] for i in range(rows)], "point")
        ctx.stub({"pyvista": {"ImageData": grid, "UniformGrid": grid, "PolyData": poly, "Plotter": plotter, "set_plot_theme": lambda *a: None}})
        ctx.stub({"scisave": {"load_config": lambda *a, **k: {}}, "matplotlib": {}, "matplotlib.pyplot": {"close": lambda *a: None}})
    else:
        import pyvista
        ctx.stub({"pyvista": {"Plotter": plotter}})
        ctx.load("pypeec.run.plotter")
        ctx.patch(pyvista.DataSetFilters, "glyph", lambda self, **kw: Glyph(self, kw))
    ctx.stub({"jsonschema": json})
    return log


def payload(log_entry):
    """The object (and options) with scalar values of a plot."""
    lst = [(o, kw) for (o, kw) in log_entry.meshes if kw.get("scalars") is not None]
    assert len(lst) <= 1
    return lst[0] if lst else (None, None)


def position(ctx, n, d, c, v):
    half = ctx.frac(1, 2)
    return [c[k]+(unlin(v, n)[k]+half-half*n[k])*d[k] for k in range(3)]


def cells(ctx, obj, ref):
    """Numbers (in the list of the reference positions) of the cells of an object."""
    if ctx.sym:
        return list(obj.ids)
    import numpy as np
    if obj.n_cells == 0:
        return []
    ctr = np.asarray(obj.cell_centers().points, dtype=float)
    keys = sorted(ref)
    pos = np.array([ref[k] for k in keys], dtype=float).reshape(-1, 3)
    out = []
    for p in ctr:
        e = np.linalg.norm(pos-p, axis=1)
        k = int(np.argmin(e))
        out.append(keys[k] if e[k] <= 1e-4*(1+np.linalg.norm(p)) else -1)
    return out


def locate(ctx, label, obj, ref):
    """The cells are at the reference positions."""
    ids = cells(ctx, obj, ref)
    ctx.check(label+": cells", all(i in ref for i in ids) and len(set(ids)) == len(ids))
    if ctx.sym:
        ctx.check(label+": position of the cells", ctx.And(*[ctx.eq_cond(obj.ctr[i][k], ref[v][k]) for (i, v) in enumerate(ids) for k in range(3)]))
    return ids


def values(ctx, obj, name):
    a = ctx.np.array(obj[name])
    if ctx.np.ndim(a) == 2:
        return [[a[i, k] for k in range(a.shape[1])] for i in range(a.shape[0])]
    return ctx.lst(a)


OPT = {"plot_clip": {"clip_plot": False, "clip_invert": False, "clip_axis": "x", "clip_value": 0.0},
       "plot_view": {"grid_plot": True, "grid_color": "a", "grid_opacity": 1, "grid_thickness": 1, "geom_plot": True, "geom_color": "b", "geom_opacity": 1, "geom_thickness": 1,
                     "point_plot": True, "point_color": "c", "point_opacity": 1, "point_size": 1, "camera_roll": None, "camera_azimuth": None, "camera_elevation": None},
       "plot_theme": {"background_color": "w", "text_color": "k", "axis_add": True, "axis_size": 1, "title_font": 1, "colorbar_plot": True, "colorbar_size": 1, "colorbar_font": 1}}
WIN = {"show_menu": False, "image_size": [10, 10], "window_size": [10, 10], "notebook_size": [10, 10]}


def entry(layout, title, data_plot, clip=False):
    opt = {k: dict(v) for (k, v) in OPT.items()}
    opt["plot_clip"]["clip_plot"] = clip
    return {"framework": "pyvista", "layout": layout, "title": title, "data_window": dict(WIN), "data_options": opt, "data_plot": data_plot}


def geometry(ctx, n):
    d = [ctx.real("d"+a, lo=0.01 if not ctx.sym else None, pos=True) for a in "xyz"]
    c = [ctx.real("c"+a) for a in "xyz"]
    return d, c


def points(ctx, k):
    if ctx.sym:
        return [[ctx.real("p%d%s" % (i, a)) for a in "xyz"] for i in range(k)]
    return [[ctx.real("p%d%s" % (i, a))+10*i for a in "xyz"] for i in range(k)]


def options(ctx, layout, var, phase, lim):
    """Options of a plot with scalar values."""
    o = {"title": "t", "legend": "l", "var": var, "scale": ctx.real("scale"), "log": False, "color_lim": None, "point_size": 1, "arrow_scale": 1,
         "phase": phase, "arrow_threshold": ctx.real("thr", 0, 1), "filter_lim": None, "clamp_lim": None}
    if "f" in lim:
        o["filter_lim"] = [ctx.real("f0"), ctx.real("f1")]
        ctx.assume(o["filter_lim"][0] < o["filter_lim"][1])
    if "c" in lim:
        o["clamp_lim"] = [ctx.real("k0"), ctx.real("k1")]
        ctx.assume(o["clamp_lim"][0] < o["clamp_lim"][1])
    return o


def shown(ctx, layout, o, val):
    """Documented scalar (and vector) of a cell: val is a complex value or a list of three."""
    vec = isinstance(val, list)
    if layout.startswith("norm"):
        lst = val if vec else [val]
        return o["scale"]*ctx.sqrt(total([ctx.re(v)*ctx.re(v)+ctx.im(v)*ctx.im(v) for v in lst])), None
    (cs, sn) = (ctx.np.cos(o["phase"]), ctx.np.sin(o["phase"]))

    def ph(v):
        return ctx.re(v)*cs-ctx.im(v)*sn
    if layout.startswith("phasor"):
        return o["scale"]*ph(val), None
    w = [ph(v) for v in val]
    return o["scale"]*ctx.sqrt(total([v*v for v in w])), w


def check_plot(ctx, label, pl, layout, o, ref, data):
    """Check a rendered plot: data is {cell: complex value(s)}, cells without data do not appear."""
    (obj, kw) = payload(pl)
    exp = {v: shown(ctx, layout, o, data[v]) for v in data}
    keep = {}
    lim = o["filter_lim"]
    for v in exp:
        s = exp[v][0]
        if lim is None:
            keep[v] = True
        else:
            if not ctx.sym:
                ctx.assume(abs(s-lim[0]) > 1e-6 and abs(s-lim[1]) > 1e-6)
            ctx.assume(ctx.And(ctx.Not(ctx.eq_cond(s, lim[0])), ctx.Not(ctx.eq_cond(s, lim[1]))))
            keep[v] = ctx.And(s > lim[0], s < lim[1])
    if layout.startswith("arrow"):
        # relative to the largest value which is shown
        new = {}
        for v in exp:
            cond = [keep[v]]
            for u in exp:
                (a, b) = (exp[v][0], exp[u][0]*o["arrow_threshold"])
                if u != v:
                    if not ctx.sym:
                        ctx.assume(abs(a-b) > 1e-6)
                    ctx.assume(ctx.Not(ctx.eq_cond(a, b)))
                big = ctx.And(keep[u], *[ctx.Implies(keep[x], exp[x][0] <= exp[u][0]) for x in exp])
                cond.append(ctx.Implies(big, a > b))
            new[v] = ctx.And(*cond)
        keep = new
    src = obj
    if obj is None:
        ctx.check(label+": no cell to be shown", ctx.And(True, *[ctx.Not(keep[v]) for v in keep]))
        return
    if layout.startswith("arrow"):
        src = obj.src
    ids = locate(ctx, label, src, ref)
    for v in ref:
        ctx.check(label+": cell is shown", ctx.Iff(keep.get(v, False), v in ids))
    got = values(ctx, src, kw["scalars"])
    ctx.check(label+": number of values", len(got) == len(ids))
    for (i, v) in enumerate(ids):
        e = exp[v][0]
        if o["clamp_lim"] is not None:
            (a, b) = o["clamp_lim"]
            e = ctx.If(e < a, a, ctx.If(e > b, b, e))
        ctx.eq(label+": value", got[i], e)
    if layout.startswith("arrow"):
        arr = values(ctx, src, obj.kw["orient"])
        for (i, v) in enumerate(ids):
            ctx.eq(label+": arrow", arr[i], exp[v][1])


def h_plotter(ctx, n, vc, vm, layout, var, n_pts=0, lim="", phase=None, clip=False):
    """A plot of a single solution."""
    log = install(ctx)
    run = ctx.load("pypeec.run.plotter").run
    (d, c) = geometry(ctx, n)
    pts = points(ctx, n_pts)
    init = solution_init(ctx, n, d, c, vc, vm, [], [], pts)
    (vars_, ref) = variables(ctx, "", vc, vm, n_pts, only=var)
    sweep = {"s": {"var": vars_, "res": ctx.arr([0.0], "c"), "conv": {}}}
    ph = ctx.real("phase") if phase is None else ctx.pi*phase if phase else 0
    o = options(ctx, layout, var, ph, lim)
    sol = {"date": "", "duration": "", "seconds": 0.0, "status": True, "data_init": init, "data_sweep": sweep}
    run(sol, {"p": entry(layout, "t", o, clip)}, None, None, "debug", None, None)
    ctx.check("one plot", len(log) == 1)
    pos = {v: position(ctx, n, d, c, v) for v in set(vc) | set(vm)}
    if layout.endswith("point"):
        pos = dict(enumerate(pts))
    check_plot(ctx, layout, log[0], layout, o, pos, ref[var])


def solution_init(ctx, n, d, c, vc, vm, src_c, src_v, pts):
    return {"n": list(n), "d": list(d), "c": list(c), "idx_vc": ctx.arr(vc, "i"), "idx_vm": ctx.arr(vm, "i"), "idx_src_c": ctx.arr(src_c, "i"), "idx_src_v": ctx.arr(src_v, "i"),
            "pts_cloud": ctx.arr([list(p) for p in pts], "f") if pts else ctx.np.zeros((0, 3)), "idx_fc": ctx.arr([], "i"), "idx_fm": ctx.arr([], "i")}


CAT = {"V_c": ("scalar_electric", "c"), "V_m": ("scalar_magnetic", "m"), "J_c": ("vector_electric", "c"), "B_m": ("vector_magnetic", "m"),
       "S_c": ("scalar_electric", "c"), "Q_m": ("scalar_magnetic", "m"), "H_p": ("cloud", "p")}


def variables(ctx, pre, vc, vm, n_pts, only=None):
    out, ref = {}, {}
    for (name, (cat, where)) in CAT.items():
        if only is not None and name != only:
            continue
        lst = {"c": vc, "m": vm, "p": list(range(n_pts))}[where]
        vec = cat.startswith("vector") or cat == "cloud"
        if vec:
            dat = {v: [ctx.cplx("%s%s%d%s" % (pre, name, v, a)) for a in "xyz"] for v in lst}
            arr = ctx.arr([dat[v] for v in lst], "c") if lst else ctx.np.zeros((0, 3), dtype=ctx.np.complex128)
        else:
            dat = {v: ctx.cplx("%s%s%d" % (pre, name, v)) for v in lst}
            arr = ctx.arr([dat[v] for v in lst], "c")
        out[name] = {"var": arr, "cat": cat}
        ref[name] = dat
    return out, ref


def h_material(ctx, n, vc, vm, src_c, src_v):
    log = install(ctx)
    run = ctx.load("pypeec.run.plotter").run
    (d, c) = geometry(ctx, n)
    init = solution_init(ctx, n, d, c, vc, vm, src_c, src_v, [])
    (vars_, _) = variables(ctx, "", vc, vm, 0, only="V_c")
    sol = {"date": "", "duration": "", "seconds": 0.0, "status": True, "data_init": init, "data_sweep": {"s": {"var": vars_, "res": ctx.arr([0.0], "c"), "conv": {}}}}
    col = {"color_electric": "E", "color_magnetic": "M", "color_electromagnetic": "EM", "color_current_source": "I", "color_voltage_source": "V", "title": "t"}
    run(sol, {"p": entry("material", "t", col)}, None, None, "debug", None, None)
    (obj, kw) = payload(log[0])
    pos = {v: position(ctx, n, d, c, v) for v in set(vc) | set(vm)}
    ids = locate(ctx, "material", obj, pos)
    ctx.check("all the voxels are shown", sorted(ids) == sorted(pos))
    got = ctx.ints(values(ctx, obj, kw["scalars"]))
    (lo, hi) = kw["clim"]
    cmap = list(kw["cmap"])
    ctx.check("one color per code", hi-lo == len(cmap)-1)
    for (i, v) in enumerate(ids):
        want = "V" if v in src_v else "I" if v in src_c else "EM" if v in vc and v in vm else "E" if v in vc else "M"
        ctx.check("color of the voxel", 0 <= got[i]-lo < len(cmap) and cmap[int(got[i]-lo)] == want)


def h_sweeps(ctx, n, vc, vm, tag_sweep, tag_plot, mode):
    """Each file shows its own sweep and plot."""
    log = install(ctx)
    run = ctx.load("pypeec.run.plotter").run
    (d, c) = geometry(ctx, n)
    pts = points(ctx, 1)
    init = solution_init(ctx, n, d, c, vc, vm, [], [], pts)
    sweep, ref = {}, {}
    for s in ("s0", "s1", "s2"):
        (vars_, ref[s]) = variables(ctx, s, vc, vm, 1)
        sweep[s] = {"var": vars_, "res": ctx.arr([0.0], "c"), "conv": {}}
    base = options(ctx, "norm", "V_c", 0.0, "")
    plots = {"a": ("phasor_voxel", "V_c"), "b": ("phasor_voxel", "Q_m"), "c": ("norm_voxel", "S_c"), "d": ("norm_point", "H_p"), "e": ("phasor_voxel", "V_m")}
    dat = {k: entry(lay, k, dict(base, var=var)) for (k, (lay, var)) in plots.items()}
    sol = {"date": "", "duration": "", "seconds": 0.0, "status": True, "data_init": init, "data_sweep": sweep}
    run(sol, dat, tag_sweep, tag_plot, mode, "/scratch/out", "nm")
    want = [(s, p) for s in sweep if tag_sweep is None or s in tag_sweep for p in plots if tag_plot is None or p in tag_plot]
    ctx.check("number of plots", len(log) == len(want))
    if mode == "save":
        names = [f for pl in log for f in pl.files]
        ctx.check("one file per plot", sorted(str(f) for f in names) == sorted(os.path.join("/scratch/out", "nm_%s_%s.png" % sp) for sp in want) and all(len(pl.files) == 1 for pl in log))
        by = {str(pl.files[0]): pl for pl in log}
        pairs = [(sp, by[os.path.join("/scratch/out", "nm_%s_%s.png" % sp)]) for sp in want]
    else:
        ctx.check("no file", all(not pl.files for pl in log))
        order = [(s, p) for s in (tag_sweep or sweep) for p in (tag_plot or plots)]
        pairs = list(zip(order, log))
    pos = {v: position(ctx, n, d, c, v) for v in set(vc) | set(vm)}
    for ((s, p), pl) in pairs:
        (lay, var) = plots[p]
        check_plot(ctx, "%s/%s" % (s, p), pl, lay, dat[p]["data_plot"], dict(enumerate(pts)) if lay.endswith("point") else pos, ref[s][var])


def h_viewer(ctx, n, dom, graph, layout, refmesh=False):
    log = install(ctx)
    run = ctx.load("pypeec.run.viewer").run
    (d, c) = geometry(ctx, n)
    vox = [v for lst in dom.values() for v in lst]
    geom = {"n": list(n), "d": list(d), "c": list(c), "domain_def": {t: ctx.arr(v, "i") for (t, v) in dom.items()}, "graph_def": [ctx.arr(g, "i") for g in graph],
            "pts_cloud": ctx.np.zeros((0, 3)), "reference": None}
    if refmesh:
        geom["reference"] = {"points": ctx.arr([[0, 0, 0], [1, 0, 0], [0, 1, 0.0]], "f"), "faces": ctx.arr([3, 0, 1, 2], "i")}
    data = {"date": "", "duration": "", "seconds": 0.0, "status": True, "data_geom": geom}
    dp = {"title": "t", "colormap": "m", "opacity": 1.0, "color_voxel": "vx", "color_reference": "rf", "opacity_voxel": 1.0, "opacity_reference": 0.5}
    (err, _) = ctx.raises(run, data, {"p": entry(layout, "t", dp)}, None, "debug", None, None)
    covered = {v for g in graph for v in g}
    if not set(vox) <= covered:
        ctx.check("error for a voxel without a component", err is not None)
        return
    if err is not None:
        raise err
    pos = {v: position(ctx, n, d, c, v) for v in vox}
    if layout == "mesh":
        a = [o for (o, kw) in log[0].meshes if kw.get("color") == "vx"]
        b = [o for (o, kw) in log[0].meshes if kw.get("color") == "rf"]
        ctx.check("both geometries are shown", len(a) == 1 and len(b) == 1)
        ctx.check("all the voxels are shown", sorted(locate(ctx, "voxels", a[0], pos)) == sorted(vox))
        if refmesh:
            if ctx.sym:
                ctx.eq("reference points", b[0].source[0], geom["reference"]["points"])
            else:
                ctx.eq("reference points", b[0].points, geom["reference"]["points"])
        else:
            ctx.check("voxels as reference", sorted(locate(ctx, "reference", b[0], pos)) == sorted(vox))
        return
    (obj, kw) = payload(log[0])
    if not vox:
        ctx.check("nothing to be shown", obj is None)
        return
    ids = locate(ctx, layout, obj, pos)
    ctx.check("all the voxels are shown", sorted(ids) == sorted(vox))
    got = ctx.ints(values(ctx, obj, kw["scalars"]))
    for (i, v) in enumerate(ids):
        if layout == "domain":
            want = 1+[v in lst for lst in dom.values()].index(True)
        else:
            want = 1+[v in g for g in graph].index(True)
        ctx.check("number of the %s" % layout, got[i] == want)


HARNESSES = []
G = (2, 3, 2)
SETS = {"a": ([3, 7, 1], [1, 5, 3]), "b": ([8, 2, 11, 0], [4]), "c": ([], [9, 1, 4]), "d": ([6, 0, 10], [])}
for s in SETS:
    for o in ("up", "down", "mix"):
        (vc, vm) = (orders(sorted(SETS[s][0]), o), orders(sorted(SETS[s][1]), o))
        kw = dict(n=G, vc=vc, vm=vm)
        for (k, (a, b)) in enumerate((([], []), (vc[:1], vc[-1:]), (vc[1:], []))):
            if not set(a) & set(b):
                HARNESSES.append(H("material/%s%s%d" % (s, o, k), h_material, src_c=a, src_v=b, **kw))
        for var in ("V_c", "V_m", "J_c", "B_m"):
            HARNESSES.append(H("norm/%s%s/%s" % (s, o, var), h_plotter, layout="norm_voxel", var=var, **kw))
for (i, (vc, vm)) in enumerate((([3, 7, 1], [5, 3]), ([1], [4, 2]))):
    for var in ("S_c", "Q_m"):
        for lim in ("", "f", "c", "fc"):
            HARNESSES.append(H("phasor/%d/%s%s" % (i, var, lim), h_plotter, n=G, vc=vc, vm=vm, layout="phasor_voxel", var=var, lim=lim, clip=lim == "f"))
            HARNESSES.append(H("phasor/%d/%s%s/j" % (i, var, lim), h_plotter, n=G, vc=vc, vm=vm, layout="phasor_voxel", var=var, lim=lim, phase=0.5))
for lim in ("", "f", "c", "fc"):
    HARNESSES.append(H("arrow/%s" % lim, h_plotter, n=G, vc=[7, 3], vm=[5, 3], layout="arrow_voxel", var="J_c", lim=lim, phase=0))
    HARNESSES.append(H("arrow-m/%s" % lim, h_plotter, n=G, vc=[7, 3], vm=[5], layout="arrow_voxel", var="B_m", lim=lim, phase=0.5))
    HARNESSES.append(H("arrow-ph/%s" % lim, h_plotter, tier="thorough", n=G, vc=[7, 3], vm=[5], layout="arrow_voxel", var="B_m", lim=lim))
    HARNESSES.append(H("point/norm/%s" % lim, h_plotter, n=(1, 1, 1), vc=[0], vm=[], layout="norm_point", var="H_p", n_pts=2, lim=lim))
    HARNESSES.append(H("point/arrow/%s" % lim, h_plotter, n=(1, 1, 1), vc=[0], vm=[], layout="arrow_point", var="H_p", n_pts=2, lim=lim, phase=0))
HARNESSES.append(H("point/norm/3", h_plotter, n=(1, 1, 1), vc=[0], vm=[], layout="norm_point", var="H_p", n_pts=3))
for (i, (ts, tp, m)) in enumerate(((None, None, "save"), (["s1"], ["b", "d"], "save"), (["s2", "s0"], ["c"], "save"), (["s2", "s0"], None, "debug"), (None, ["e", "a"], "debug"))):
    HARNESSES.append(H("sweeps/%d" % i, h_sweeps, n=(2, 2, 1), vc=[3, 0], vm=[2, 3], tag_sweep=ts, tag_plot=tp, mode=m))
VIEW = [(G, {"a": [7, 3], "b": [1], "c": [10, 0]}, [[3, 1], [7, 0, 10]]), (G, {"z": [2], "y": [], "a": [1, 0]}, [[0], [1], [2]]),
        (G, {"a": [5, 4, 3], "b": [11, 1]}, [[1, 3, 4, 5, 11]]), (G, {"a": [5, 4], "b": [11]}, [[5, 4]]), ((3, 1, 2), {"b": [5, 0], "a": [2]}, [[0, 2], [5]]),
        (G, {"a": []}, [])]
for (i, (n, dom, graph)) in enumerate(VIEW):
    for lay in ("domain", "graph"):
        HARNESSES.append(H("view/%d/%s" % (i, lay), h_viewer, n=n, dom=dom, graph=graph, layout=lay))
    if i != 5:
        HARNESSES.append(H("view/%d/mesh" % i, h_viewer, n=n, dom=dom, graph=graph, layout="mesh"))
HARNESSES.append(H("view/ref/mesh", h_viewer, n=G, dom=VIEW[0][1], graph=VIEW[0][2], layout="mesh", refmesh=True))
