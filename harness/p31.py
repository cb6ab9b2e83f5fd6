"""Windows, notebook plots, and image files of the viewer and plotter; content of the plots of the solver status."""

import itertools
import os
import re
import types
from . import p17
from .common import H
from symx.engine import Unsupported

BOUNDS = ("1 or 2 sweeps with up to 3 plots (3D, convergence, and residuum), up to 3 plots of the viewer, all plot modes; any complex residuum with up to 3 equations, any complex powers "
          "with up to 3 iterations, any sizes of the windows and images, any exit code of the event loop, 2 to 4 bins")
ASSUMPTIONS = ["Qt, PyVista, and Matplotlib are stand-ins which record the calls; the rendering is not checked", "the final power is not zero and at least two bins are used",
               "different plots have different file names"]


class Open:
    """Any attribute and call is accepted."""

    def __call__(self, *a, **k): return Open()

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return Open()

    def __enter__(self): return self
    def __exit__(self, *a): return False
    def __iter__(self): return iter(())


def unsupported(*a, **k):
    raise Unsupported("unknown value of the plotting library")


for _op in ("add", "sub", "mul", "truediv", "floordiv", "mod", "radd", "rsub", "rmul", "rtruediv", "lt", "le", "gt", "ge", "int", "float", "index", "len", "getitem", "bool", "eq", "ne", "contains"):
    setattr(Open, "__%s__" % _op, unsupported)
Open.__hash__ = object.__hash__


class Params(dict):
    """Parameters of Matplotlib."""

    def __missing__(self, key):
        raise Unsupported("parameter of Matplotlib")


class Plot(Open):
    """A window, a notebook plot, or an image."""

    def __init__(self, desk, kind, **kw):
        self.desk = desk
        self.kind = kind
        self.kw = kw
        self.title = kw.get("title")
        self.camera = types.SimpleNamespace()
        desk.plots.append(self)

    def __bool__(self): return True
    def __eq__(self, other): return self is other
    def __ne__(self, other): return self is not other
    def __hash__(self): return id(self)

    def __setattr__(self, name, v):
        if name == "window_size":
            self.kw[name] = v
        else:
            object.__setattr__(self, name, v)

    def log(self, what, arg=None):
        self.desk.events.append((what, self, arg))

    # PyVista
    def add_mesh(self, *a, **k): return Open()
    def show(self, *a, **k): self.log("show")
    def close(self, *a, **k): self.log("close")
    def screenshot(self, filename=None, *a, **k): self.log("file", (filename, k))
    @property
    def app_window(self): return self.window

    # Matplotlib figures and their windows
    @property
    def canvas(self): return types.SimpleNamespace(manager=self)

    @property
    def window(self): return Window(self)
    @property
    def toolbar(self): return types.SimpleNamespace(show=lambda *a: self.kw.update(menu=True), hide=lambda *a: self.kw.update(menu=False), setVisible=lambda v: self.kw.update(menu=bool(v)))
    def set_window_title(self, t): self.title = t
    def set_size_inches(self, w, h=None, **k): self.kw["inches"] = (w, h) if h is not None else tuple(w)
    def set_figwidth(self, w, **k): self.kw["inches"] = (w, self.kw.get("inches", (None, None))[1])
    def set_figheight(self, h, **k): self.kw["inches"] = (self.kw.get("inches", (None, None))[0], h)
    def get_dpi(self): return self.dpi
    def set_dpi(self, v): self.dpi = v
    def savefig(self, fname, *a, **k): self.log("file", (fname, k))
    def gca(self, *a, **k): return self
    def add_subplot(self, *a, **k): return self
    def plot(self, *a, **k): self.kw.setdefault("lines", []).append((a, k))
    semilogy = loglog = plot

    def hist(self, x, bins=None, **k):
        self.kw.setdefault("hist", []).append((x, bins, k))
        return (Open(), bins, Open())

    def set_title(self, t, *a, **k): self.kw["text"] = t


class Window(Open):
    def __init__(self, plot): self.plot = plot
    def show(self, *a): self.plot.log("show")
    def close(self, *a): self.plot.log("close")
    def setWindowTitle(self, t): self.plot.title = t
    def resize(self, *a): self.plot.kw["window_size"] = tuple(a)


class Desk:
    """All the plots of a run."""

    now = None

    def __init__(self, ctx, code=0):
        (self.ctx, self.code) = (ctx, code)
        (self.plots, self.events, self.current) = ([], [], None)
        self.dpi = ctx.real("dpi", pos=True)
        Desk.now = self

    def figure(self, num=None, *a, **k):
        if isinstance(num, Plot):
            self.current = num
            return num
        self.current = Plot(self, "figure", **k)
        self.current.dpi = k.get("dpi", self.dpi)
        if "figsize" in k:
            self.current.kw["inches"] = tuple(k["figsize"])
        return self.current

    def figures(self):
        closed = [p for (e, p, _) in self.events if e == "close"]
        return [p for p in self.plots if p.kind == "figure" and p not in closed]

    def show(self, *a, **k):
        for p in self.figures():
            p.log("show")

    def close(self, what=None):
        for p in self.figures():
            if what == "all" or what is p or what is None and p is self.current:
                p.log("close")

    def subplots(self, *a, **k):
        f = self.figure(**k)
        return f, f

    def cur(self):
        return self.current if self.current is not None else self.figure()

    def pyplot(self):
        def fwd(name):
            return lambda *a, **k: getattr(self.cur(), name)(*a, **k)
        out = {"figure": self.figure, "show": self.show, "close": self.close, "subplots": self.subplots, "get_current_fig_manager": self.cur, "gcf": self.cur, "gca": self.cur,
               "title": fwd("set_title"), "style": Open(), "rc_context": Open(), "savefig": fwd("savefig"), "rcParams": Params({"figure.dpi": self.dpi})}
        out.update({k: fwd(k) for k in ("hist", "plot", "semilogy", "loglog")})
        out.update({k: Open() for k in ("xscale", "yscale", "grid", "legend", "xlabel", "ylabel", "xlim", "ylim", "tight_layout", "suptitle", "axis")})
        return out


class App(Open):
    def __init__(self, *a): pass
    def exec(self, *a):
        Desk.now.events.append(("loop", None, None))
        return Desk.now.code
    exec_ = exec
    def quit(self): pass
    @staticmethod
    def instance(): return None


def desk_of(ctx, code=0):
    p17.install(ctx)
    desk = Desk(ctx, code)
    ctx.stub({"pyvista": {"Plotter": lambda *a, **k: Plot(desk, "plotter", **k), "set_plot_theme": Open(), "set_jupyter_backend": Open(), "global_theme": Open(), "OFF_SCREEN": False},
              "pyvistaqt": {"BackgroundPlotter": lambda *a, **k: Plot(desk, "window", **k)},
              "matplotlib": {"use": Open(), "rcParams": Params({"figure.dpi": desk.dpi})}, "matplotlib.pyplot": desk.pyplot(),
              "PyQt5.QtWidgets": {"QApplication": App}, "PyQt5.QtGui": {"QIcon": Open()}, "signal": {"signal": lambda *a: None}})
    if ctx.sym:
        ctx.stub({"PyQt5": {}})
    return desk


def size(ctx, name, use):
    return [ctx.int(name+a, 1, 4000) for a in "xy"] if use else None


def window(ctx, name, use, menu):
    return {"show_menu": menu, "image_size": size(ctx, name+"_i", use), "window_size": size(ctx, name+"_w", use), "notebook_size": size(ctx, name+"_n", use)}


def same_size(ctx, got, want):
    if got is None or want is None:
        return got is None and want is None
    return len(got) == 2 and ctx.And(*[ctx.eq_cond(a, b) for (a, b) in zip(got, want)])


def check_modes(ctx, desk, mode, err, want, folder, name):
    """want: {tags of the plot: (title, framework, window options)}."""
    ev = desk.events
    loops = [i for (i, e) in enumerate(ev) if e[0] == "loop"]
    if mode == "qt":
        ctx.check("the error of the event loop is raised", (err is not None) == bool(desk.code != 0 if want else False))
        if err is not None and not bool(desk.code != 0):
            raise err
        ctx.check("one event loop for all the plots", len(loops) == (1 if want else 0))
    else:
        ctx.check("no event loop", not loops)
        if err is not None:
            raise err
    ctx.check("number of plots", len(desk.plots) == len(want))
    out = {}
    for (tags, (title, framework, win)) in want.items():
        label = "_".join(tags)
        if mode == "save":
            path = os.path.join(folder or os.getcwd(), "%s_%s.png" % (name or "pypeec", label))
            lst = [p for p in desk.plots if any(e == "file" and q is p and os.path.abspath(str(a[0])) == os.path.abspath(path) for (e, q, a) in ev)]
        elif mode == "qt":
            lst = [p for p in desk.plots if title in (p.title or "") and label in (p.title or "")]
        else:
            lst = [desk.plots[len(out)]] if len(desk.plots) > len(out) else []
        ctx.check("%s: one plot" % label, len(lst) == 1 and lst[0] not in out.values())
        if len(lst) != 1:
            continue
        p = out[tags] = lst[0]
        ctx.check("%s: framework" % label, (p.kind == "figure") == (framework == "matplotlib"))
        at = {e: [i for (i, x) in enumerate(ev) if x[0] == e and x[1] is p] for e in ("show", "file", "close")}
        # size
        if mode == "qt":
            ctx.check("%s: size of the window" % label, same_size(ctx, p.kw.get("window_size"), win["window_size"]))
            bars = [p.kw.get("toolbar", True), p.kw.get("menu_bar", True)] if p.kind == "window" else [p.kw.get("menu", True)]
            ctx.check("%s: menu of the window" % label, all(b is win["show_menu"] for b in bars))
            auto = p.kind == "window" and p.kw.get("show", True)
            ctx.check("%s: shown before the event loop" % label, auto or len(at["show"]) > 0 and at["show"][0] < loops[0])
            ctx.check("%s: open in the event loop" % label, not at["close"] or at["close"][0] > loops[0])
            ctx.check("%s: no file" % label, not at["file"])
            continue
        ref = win["notebook_size" if mode == "nb" else "image_size"]
        if p.kind == "figure":
            dpi = at["file"] and ev[at["file"][0]][2][1].get("dpi", p.dpi) or p.dpi
            got = p.kw.get("inches")
            got = None if got is None else [x*dpi for x in got]
        else:
            got = p.kw.get("window_size")
            if at["file"] and "window_size" in ev[at["file"][0]][2][1]:
                got = ev[at["file"][0]][2][1]["window_size"]
        ctx.check("%s: size of the image" % label, same_size(ctx, got, ref))
        if mode == "nb":
            ctx.check("%s: shown in the notebook" % label, len(at["show"]) == 1 and not at["close"] and not at["file"])
            ctx.check("%s: notebook" % label, p.kind == "figure" or p.kw.get("notebook") is True)
        else:
            ctx.check("%s: not shown" % label, not at["show"] and (p.kind == "figure" or p.kw.get("off_screen") is True))
            ctx.check("%s: files" % label, len(at["file"]) == (1 if mode == "save" else 0))
            ctx.check("%s: closed at the end" % label, len(at["close"]) >= 1 and all(i < at["close"][0] for i in at["file"]))
    return out


def clamp(ctx, v):
    import sys
    eps = ctx.num(sys.float_info.epsilon)
    return ctx.If(v < eps, eps, v)


def check_status(ctx, label, p, layout, res, conv, style):
    """Content of a figure."""
    if layout == "convergence":
        (p0, pf, vec) = conv
        lines = p.kw.get("lines", [])
        ctx.check(label+": two curves", len(lines) == 2 and not p.kw.get("hist"))
        for (name, part) in (("color_active", ctx.re), ("color_reactive", ctx.im)):
            lst = [a for (a, k) in lines if k.get("color", k.get("c")) == style[name]]
            ctx.check(label+": curve of the power", len(lst) == 1)
            if len(lst) != 1:
                continue
            arg = [ctx.lst(a) for a in lst[0] if not isinstance(a, str)]
            ctx.check(label+": number of the points", len(arg) in (1, 2) and len(arg[-1]) == 1+len(vec))
            if len(arg) == 2:
                ctx.check(label+": iterations", ctx.And(*[ctx.eq_cond(x, i) for (i, x) in enumerate(arg[0])]))
            for (y, v) in zip(arg[-1], [p0]+vec):
                ctx.eq(label+": error of the power", y, clamp(ctx, ctx.abs(part(v-pf))/ctx.abs(pf)))
        return
    hist = p.kw.get("hist", [])
    ctx.check(label+": one histogram", len(hist) == 1 and not p.kw.get("lines"))
    if len(hist) != 1:
        return
    (x, bins, kw) = hist[0]
    x = ctx.lst(x)
    ref = [clamp(ctx, ctx.abs(v)) for v in res]
    ctx.check(label+": counts", kw.get("weights") is None and not kw.get("density") and not kw.get("cumulative") and kw.get("range") is None)
    ctx.check(label+": number of the equations", len(x) == len(res))
    ctx.check(label+": absolute values", ctx.Or(*[ctx.And(*[ctx.eq_cond(a, b) for (a, b) in zip(x, perm)]) for perm in itertools.permutations(ref)]))
    bins = ctx.lst(bins)
    ctx.check(label+": number of the bins", len(bins) in (style["n_bins"], style["n_bins"]+1))
    for (a, b) in zip(bins, bins[1:]):
        ctx.check(label+": order of the bins", a < b)
    for v in ref:
        ctx.check(label+": all the values are in the bins", ctx.le(bins[0], v))
        ctx.check(label+": all the values are in the bins", ctx.le(v, bins[-1]))
    # summary
    num = [ctx.number(t) for t in re.findall(r"[0-9][0-9.]*(?:e[-+]?[0-9]+)?", p.kw.get("text", ""))]
    ctx.check(label+": number of equations in the title", any(v == len(res) for v in num if isinstance(v, (int, float))))
    rms2 = sum(ctx.re(v)*ctx.re(v)+ctx.im(v)*ctx.im(v) for v in res)/len(res)
    ctx.check(label+": residuum in the title", ctx.Or(*[ctx.And(v >= 0, ctx.le(v*v, rms2*(1 if ctx.sym else 1.02)), ctx.le(rms2, v*v*(1 if ctx.sym else 1.02))) for v in num]))


def earlier(ctx, before):
    """An earlier run: (its desk, number of the events)."""
    if before is None:
        return None
    before(ctx)
    return Desk.now, len(Desk.now.events)


def untouched(ctx, old):
    if old is not None:
        ctx.check("the plots of the earlier run are not shown or saved again", not any(e in ("show", "file", "loop") for (e, _, _) in old[0].events[old[1]:]))


def big(ctx, v, lo=0):
    """Sizes far from the limits of the floating-point numbers."""
    ctx.assume(ctx.And(ctx.abs(ctx.re(v)) < 10**6, ctx.abs(ctx.im(v)) < 10**6))
    if lo:
        ctx.assume(ctx.Or(ctx.abs(ctx.re(v)) > lo, ctx.abs(ctx.im(v)) > lo))


def h_plotter(ctx, sweeps, layouts, mode, n_res=2, n_vec=1, n_bins=3, use=True, menu=True, folder="/scratch/out", name="nm", stop=False, select=(None, None), before=None):
    old = earlier(ctx, before)
    ctx.formats()
    desk = desk_of(ctx, ctx.int("code", 0, 3) if stop else 0)
    run = ctx.load("pypeec.run.plotter").run
    n = (2, 1, 1)
    init = p17.solution_init(ctx, n, [1, 1, 1], [0, 0, 0], [0, 1], [], [], [], [])
    (status, sol, arrays) = ({}, {}, [])
    for s in sweeps:
        full = len(sweeps) == 1

        def value(name):
            return ctx.cplx(name) if full else (3+4*ctx.j)*ctx.real(name, pos=True)
        res = [value("%s_r%d" % (s, i)) for i in range(n_res)]
        (p0, pf) = (ctx.cplx(s+"_p0"), value(s+"_pf"))
        vec = [ctx.cplx("%s_p%d" % (s, i+1)) for i in range(n_vec)]
        for v in res+[p0]+vec:
            big(ctx, v)
        big(ctx, pf, ctx.frac(1, 100))
        status[s] = (res, (p0, pf, vec))
        (a, b) = (ctx.arr(res, "c"), ctx.arr(vec, "c"))
        arrays += [(a, res), (b, vec)]
        var = {"V_c": {"var": ctx.arr([0.0, 1.0], "c"), "cat": "scalar_electric"}}
        sol[s] = {"var": var, "res": a, "conv": {"power_init": p0, "power_final": pf, "power_vec": b}}
    style = {"color_active": "red", "color_reactive": "blue", "marker": 1, "width": 1, "n_bins": n_bins, "tol_bins": ctx.real("tol", lo=ctx.frac(1, 1000), hi=1) if len(sweeps) == 1 else ctx.frac(1, 8), "bar_color": "k", "edge_color": "g"}
    opt = {"title": "t", "legend": "l", "var": "V_c", "scale": 1.0, "log": False, "color_lim": None, "point_size": 1, "filter_lim": None, "clamp_lim": None}
    dat = {}
    for (i, lay) in enumerate(layouts):
        e = p17.entry(lay, "title %d" % i, opt)
        if lay in ("convergence", "residuum"):
            e.update(framework="matplotlib", data_plot=dict(style), data_options={"style": "default", "legend": "best", "font": 10})
        e["data_window"] = window(ctx, "w%d" % i, use, menu)
        dat["abc"[i]] = e
    (err, _) = ctx.raises(run, {"date": "", "duration": "", "seconds": 0.0, "status": True, "data_init": init, "data_sweep": sol}, dat, select[0], select[1], mode, folder, name)
    want = {(s, t): (dat[t]["title"], dat[t]["framework"], dat[t]["data_window"]) for s in (sweeps if select[0] is None else select[0]) for t in (dat if select[1] is None else select[1])}
    got = check_modes(ctx, desk, mode or "qt", err, want, folder, name)
    for ((s, t), p) in got.items():
        if dat[t]["framework"] == "matplotlib":
            check_status(ctx, "%s/%s" % (s, t), p, dat[t]["layout"], status[s][0], status[s][1], style)
    for (a, ref) in arrays:
        ctx.check("the solution is not modified", len(ctx.lst(a)) == len(ref) and ctx.And(*[ctx.eq_cond(x, y) for (x, y) in zip(ctx.lst(a), ref)]))
    untouched(ctx, old)


def h_viewer(ctx, layouts, mode, use=True, menu=True, folder="/scratch/out", name="nm", stop=False, select=None, before=None):
    old = earlier(ctx, before)
    desk = desk_of(ctx, ctx.int("code", 0, 3) if stop else 0)
    run = ctx.load("pypeec.run.viewer").run
    geom = {"n": [2, 1, 1], "d": [1, 1, 1], "c": [0, 0, 0], "domain_def": {"a": ctx.arr([0, 1], "i")}, "graph_def": [ctx.arr([0, 1], "i")], "pts_cloud": ctx.np.zeros((0, 3)), "reference": None}
    dp = {"title": "t", "colormap": "m", "opacity": 1.0, "color_voxel": "vx", "color_reference": "rf", "opacity_voxel": 1.0, "opacity_reference": 0.5}
    dat = {}
    for (i, lay) in enumerate(layouts):
        dat["abc"[i]] = p17.entry(lay, "title %d" % i, dp)
        dat["abc"[i]]["data_window"] = window(ctx, "w%d" % i, use, menu)
    (err, _) = ctx.raises(run, {"date": "", "duration": "", "seconds": 0.0, "status": True, "data_geom": geom}, dat, select, mode, folder, name)
    want = {(t,): (dat[t]["title"], "pyvista", dat[t]["data_window"]) for t in (dat if select is None else select)}
    check_modes(ctx, desk, mode or "qt", err, want, folder, name)
    untouched(ctx, old)


HARNESSES = []
for mode in (None, "qt", "nb", "save", "debug"):
    m = mode or "default"
    HARNESSES.append(H("plotter/%s" % m, h_plotter, sweeps=["s0", "s1"], layouts=["norm_voxel", "convergence", "residuum"], mode=mode, stop=mode in (None, "qt")))
    HARNESSES.append(H("plotter/%s/select" % m, h_plotter, sweeps=["s0", "s1", "s2"], layouts=["convergence", "norm_voxel", "residuum"], mode=mode, use=False, menu=False, select=(["s2", "s0"], ["b", "c"])))
    HARNESSES.append(H("viewer/%s" % m, h_viewer, layouts=["domain", "mesh", "graph"], mode=mode, stop=mode in (None, "qt")))
    HARNESSES.append(H("viewer/%s/select" % m, h_viewer, layouts=["domain", "mesh", "graph"], mode=mode, use=False, menu=False, select=["b", "a"]))
    HARNESSES.append(H("viewer/%s/none" % m, h_viewer, layouts=["domain"], mode=mode, select=[]))
HARNESSES.append(H("plotter/save/default", h_plotter, sweeps=["s"], layouts=["norm_voxel", "convergence"], mode="save", folder=None, name=None))
HARNESSES.append(H("viewer/save/default", h_viewer, layouts=["mesh"], mode="save", folder=None, name=None))
for (i, (r, v, b)) in enumerate(((1, 0, 2), (3, 2, 4), (3, 3, 2))):
    for lay in ("residuum", "convergence"):
        HARNESSES.append(H("status/%s/%d" % (lay, i), h_plotter, sweeps=["s"], layouts=[lay], mode="debug", n_res=r, n_vec=v, n_bins=b))
